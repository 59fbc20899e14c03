//! Exact model of liquidity mining farms, shared by the checks of the pallets built on it.
use crate::{b, small, Ledger, AssetId};
use codec::{Decode, Encode};
use std::collections::BTreeMap;

pub type Acc = u128;
const F: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
pub enum State { Active, Stopped, Terminated }
/// As stored; fixed-point numbers by their inner value.
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Farm { pub id: u32, pub owner: Acc, pub updated: u64, pub z: u128, pub rpz: u128, pub currency: AssetId, pub pending: u128, pub paid: u128, pub ypp: u64, pub planned: u64, pub bpp: u64, pub incentivized: AssetId, pub max_reward: u128, pub min_deposit: u128, pub live: u32, pub total: u32, pub price: u128, pub state: State }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Yield { pub id: u32, pub updated: u64, pub shares: u128, pub valued: u128, pub rpvs: u128, pub rpz: u128, pub curve: Option<(u128, u32)>, pub mult: u128, pub state: State, pub entries: u64, pub left: u128, pub stopped: u64 }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Entry { pub g: u32, pub y: u32, pub valued: u128, pub rpvs: u128, pub claimed: u128, pub entered: u64, pub updated: u64, pub stopped: u64 }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Dep<P> { pub shares: u128, pub pool: P, pub entries: Vec<Entry> }
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Global { g: u32, rpz: u128, z: u128 }, Yielded { g: u32, y: u32, rpvs: u128, valued: u128 }, Out { g: u32 } }
#[derive(Clone, Debug, Default)]
pub struct Settings { pub min_total: u128, pub min_periods: u64, pub max_entries: u32, pub max_farms: u32, pub treasury: Acc, pub pot: Acc, pub base: Vec<u8> }
/// What the model knows of the world outside.
#[derive(Clone, Debug)]
pub struct Lm<P: Ord + Clone> {
	pub s: Settings, pub block: u64, pub farms: BTreeMap<u32, Farm>, pub yields: BTreeMap<(P, u32, u32), Yield>, pub active: BTreeMap<(P, u32), u32>, pub deps: BTreeMap<u128, Dep<P>>,
	pub farm_seq: u32, pub dep_seq: u128, pub l: Ledger<Acc>, pub ev: Vec<Ev>,
	/// oracle price by global farm: absent = the stored one, None = fails
	pub price: BTreeMap<u32, Option<u128>>,
	/// registered assets are those with an existential deposit in the ledger
	pub labels: Vec<&'static str>,
}
fn mul(x: u128, f: u128) -> Option<u128> { small(b(x) * b(f) / b(F)) }
fn ratio(n: u128, d: u128) -> Option<u128> { if d == 0 { None } else { small(b(n) * b(F) / b(d)) } }
fn ck(c: bool) -> Option<()> { c.then_some(()) }
pub const MIN_MULT: u128 = F / 1000;
impl<P: Ord + Clone + std::fmt::Debug> Lm<P> {
	pub fn new(s: Settings) -> Self { let mut m = Lm { s, block: 1, farms: BTreeMap::new(), yields: BTreeMap::new(), active: BTreeMap::new(), deps: BTreeMap::new(), farm_seq: 0, dep_seq: 0, l: Ledger::default(), ev: vec![], price: BTreeMap::new(), labels: vec![] }; m.l.white.insert(m.s.pot); m }
	pub fn account(&self, g: u32) -> Acc { let mut v = self.s.base.clone(); v.extend(g.encode()); v.resize(16, 0); Acc::from_le_bytes(v.try_into().unwrap()) }
	/// Stake of a global farm: valued shares of its active farms times their multipliers.
	fn stake(&mut self, g: u32) -> Option<()> {
		let mut z = 0u128;
		for (k, y) in &self.yields { if k.1 == g && y.state == State::Active { z = z.checked_add(mul(y.valued, y.mult)?)?; } }
		self.farms.get_mut(&g)?.z = z;
		Some(())
	}
	fn sync(&mut self, g: u32) -> Option<()> {
		let acc = self.account(g);
		let f = self.farms.get_mut(&g)?;
		let now = self.block / f.bpp;
		if f.state != State::Active || f.updated == now { return Some(()) }
		if f.z == 0 { f.updated = now; return Some(()) }
		let n = (now - f.updated) as u128;
		if n > 1 { self.labels.push("several periods at once"); }
		match self.price.get(&g) { Some(Some(p)) => f.price = *p, _ => {} }
		let left = self.l.get(&acc, f.currency).saturating_sub(self.l.ed(f.currency));
		let by_yield = small(b(mul(f.z, f.price)?) * b(f.ypp as u128) * b(n) / b(F))?;
		let reward = by_yield.min(f.max_reward.checked_mul(n)?).min(left);
		if reward > 0 {
			if reward == left { self.labels.push("farm emptied"); }
			self.l.mv(f.currency, &acc, &self.s.pot, reward)?;
			f.rpz = f.rpz.checked_add(ratio(reward, f.z)?)?;
			f.pending = f.pending.checked_add(reward)?;
		} else { self.ev.push(Ev::Out { g }); }
		f.updated = now;
		self.ev.push(Ev::Global { g, rpz: f.rpz, z: f.z });
		Some(())
	}
	fn sync_yield(&mut self, k: &(P, u32, u32)) -> Option<()> {
		let f = self.farms.get_mut(&k.1)?;
		let y = self.yields.get_mut(k)?;
		let now = self.block / f.bpp;
		if y.state != State::Active || y.updated == now { return Some(()) }
		y.updated = now;
		if y.valued == 0 { y.rpz = f.rpz; return Some(()) }
		let x = mul(mul(y.valued, y.mult)?, f.rpz - y.rpz)?;
		y.rpz = f.rpz;
		f.paid = f.paid.checked_add(x)?;
		f.pending = f.pending.checked_sub(x)?;
		y.rpvs = y.rpvs.checked_add(ratio(x, y.valued)?)?;
		y.left = y.left.checked_add(x)?;
		self.ev.push(Ev::Yielded { g: k.1, y: k.2, rpvs: y.rpvs, valued: y.valued });
		Some(())
	}
	fn now(&self, g: u32) -> u64 { self.block / self.farms[&g].bpp }
	pub fn create_farm(&mut self, total: u128, planned: u64, bpp: u64, incentivized: AssetId, currency: AssetId, owner: Acc, ypp: u64, min_deposit: u128, price: u128) -> Option<(u32, u128)> {
		ck(min_deposit >= 1000 && price > 0 && total >= self.s.min_total && planned >= self.s.min_periods && bpp > 0 && ypp > 0)?;
		ck(self.l.eds.contains_key(&currency) && self.l.eds.contains_key(&incentivized))?;
		let max_reward = total.checked_div(planned as u128)?;
		self.farm_seq += 1;
		let id = self.farm_seq;
		let acc = self.account(id);
		self.l.white.insert(acc);
		self.l.mv(currency, &owner, &acc, total)?;
		self.farms.insert(id, Farm { id, owner, updated: self.block / bpp, z: 0, rpz: 0, currency, pending: 0, paid: 0, ypp, planned, bpp, incentivized, max_reward, min_deposit, live: 0, total: 0, price, state: State::Active });
		Some((id, max_reward))
	}
	fn owned(&self, who: Acc, g: u32, active: bool) -> Option<&Farm> { self.farms.get(&g).filter(|f| f.owner == who && (!active || f.state == State::Active)) }
	pub fn set_price(&mut self, who: Acc, g: u32, price: u128) -> Option<()> {
		ck(price > 0)?;
		self.owned(who, g, true)?;
		self.sync(g)?;
		self.farms.get_mut(&g)?.price = price;
		Some(())
	}
	pub fn end_farm(&mut self, who: Acc, g: u32) -> Option<(AssetId, u128, Acc)> {
		let f = self.owned(who, g, true)?.clone();
		ck(!self.yields.iter().any(|(k, y)| k.1 == g && y.state != State::Terminated))?;
		let acc = self.account(g);
		let rest = self.l.get(&acc, f.currency);
		self.l.mv(f.currency, &acc, &who, rest)?;
		self.l.white.remove(&acc);
		self.farms.get_mut(&g)?.state = State::Terminated;
		self.clean(g);
		Some((f.currency, rest, who))
	}
	fn clean(&mut self, g: u32) { if self.farms[&g].state == State::Terminated && !self.yields.keys().any(|k| k.1 == g) { self.farms.remove(&g); self.labels.push("farm removed"); } }
	fn count(&mut self, g: u32) {
		let (live, total) = (self.yields.iter().filter(|(k, y)| k.1 == g && y.state != State::Terminated).count(), self.yields.keys().filter(|k| k.1 == g).count());
		let f = self.farms.get_mut(&g).unwrap();
		f.live = live as u32;
		f.total = total as u32;
	}
	pub fn create_yield(&mut self, who: Acc, g: u32, mult: u128, curve: Option<(u128, u32)>, pool: P, assets: &[AssetId]) -> Option<u32> {
		ck(mult >= MIN_MULT && curve.map_or(true, |c| c.0 < F))?;
		let f = self.owned(who, g, true)?;
		ck((self.yields.keys().filter(|k| k.1 == g).count() as u32) < self.s.max_farms && assets.contains(&f.incentivized) && !self.active.contains_key(&(pool.clone(), g)))?;
		self.sync(g)?;
		self.farm_seq += 1;
		let id = self.farm_seq;
		self.yields.insert((pool.clone(), g, id), Yield { id, updated: self.now(g), shares: 0, valued: 0, rpvs: 0, rpz: 0, curve, mult, state: State::Active, entries: 0, left: 0, stopped: 0 });
		self.active.insert((pool, g), id);
		self.count(g);
		Some(id)
	}
	pub fn set_mult(&mut self, who: Acc, g: u32, pool: P, mult: u128) -> Option<u32> {
		ck(mult >= MIN_MULT)?;
		self.owned(who, g, false)?;
		let k = (pool.clone(), g, *self.active.get(&(pool, g))?);
		self.sync(g)?;
		self.sync_yield(&k)?;
		self.yields.get_mut(&k)?.mult = mult;
		self.stake(g)?;
		Some(k.2)
	}
	pub fn stop(&mut self, who: Acc, g: u32, pool: P) -> Option<u32> {
		self.owned(who, g, false)?;
		let k = (pool.clone(), g, *self.active.get(&(pool.clone(), g))?);
		self.sync(g)?;
		self.sync_yield(&k)?;
		let y = self.yields.get_mut(&k)?;
		if y.valued > 0 { self.labels.push("stopped with shares"); }
		y.state = State::Stopped;
		y.mult = 0;
		self.active.remove(&(pool, g));
		self.stake(g)?;
		Some(k.2)
	}
	pub fn resume(&mut self, who: Acc, g: u32, id: u32, pool: P, mult: u128) -> Option<()> {
		ck(mult >= MIN_MULT && !self.active.contains_key(&(pool.clone(), g)))?;
		self.owned(who, g, false)?;
		let k = (pool.clone(), g, id);
		ck(self.yields.get(&k)?.state == State::Stopped)?;
		self.sync(g)?;
		let (now, rpz) = (self.now(g), self.farms[&g].rpz);
		let y = self.yields.get_mut(&k)?;
		y.stopped += now - y.updated;
		if now > y.updated { self.labels.push("was stopped for a time"); }
		y.updated = now;
		y.rpz = rpz;
		y.state = State::Active;
		y.mult = mult;
		self.active.insert((pool, g), id);
		self.stake(g)
	}
	pub fn end_yield(&mut self, who: Acc, g: u32, id: u32, pool: P) -> Option<()> {
		let f = self.owned(who, g, false)?;
		let (acc, currency) = (self.account(g), f.currency);
		let k = (pool, g, id);
		let y = self.yields.get_mut(&k)?;
		ck(y.state == State::Stopped)?;
		self.l.mv(currency, &self.s.pot, &acc, y.left)?;
		let f = self.farms.get_mut(&g)?;
		f.paid = f.paid.checked_sub(y.left)?;
		y.left = 0;
		y.state = State::Terminated;
		if y.entries == 0 { self.yields.remove(&k); self.labels.push("farm without entries ended"); }
		self.count(g);
		Some(())
	}
	fn enter(&mut self, d: &mut Dep<P>, g: u32, id: u32, value: impl Fn(AssetId) -> Option<u128>) -> Option<()> {
		ck(!d.entries.iter().any(|e| e.y == id) && (d.entries.len() as u32) < self.s.max_entries)?;
		let k = (d.pool.clone(), g, id);
		ck(self.yields.get(&k)?.state == State::Active && d.shares >= self.farms[&g].min_deposit)?;
		self.sync(g)?;
		self.sync_yield(&k)?;
		let f = &self.farms[&g];
		let valued = value(f.incentivized)?;
		ck(valued >= f.min_deposit)?;
		let now = self.now(g);
		let y = self.yields.get_mut(&k)?;
		y.shares = y.shares.checked_add(d.shares)?;
		y.valued = y.valued.checked_add(valued)?;
		y.entries += 1;
		d.entries.push(Entry { g, y: id, valued, rpvs: y.rpvs, claimed: 0, entered: now, updated: now, stopped: y.stopped });
		mul(valued, y.mult)?;
		self.stake(g)
	}
	pub fn deposit(&mut self, g: u32, id: u32, pool: P, shares: u128, value: impl Fn(AssetId) -> Option<u128>) -> Option<u128> {
		let mut d = Dep { shares, pool, entries: vec![] };
		self.enter(&mut d, g, id, value)?;
		self.dep_seq += 1;
		self.deps.insert(self.dep_seq, d);
		Some(self.dep_seq)
	}
	pub fn redeposit(&mut self, g: u32, id: u32, dep: u128, value: impl Fn(AssetId, u128) -> Option<u128>) -> Option<(u128, P)> {
		let mut d = self.deps.get(&dep)?.clone();
		let n = d.shares;
		self.enter(&mut d, g, id, |a| value(a, n))?;
		self.deps.insert(dep, d.clone());
		Some((d.shares, d.pool))
	}
	/// farm, currency, sent to the user, cannot be claimed yet
	pub fn claim(&mut self, who: Acc, dep: u128, id: u32, once: bool) -> Option<(u32, AssetId, u128, u128)> {
		let d = self.deps.get(&dep)?.clone();
		let i = d.entries.iter().position(|e| e.y == id)?;
		let mut e = d.entries[i].clone();
		let k = (d.pool.clone(), e.g, id);
		ck(self.yields.get(&k)?.state != State::Terminated)?;
		let now = self.now(e.g);
		if once { ck(e.updated != now)?; }
		self.sync(e.g)?;
		self.sync_yield(&k)?;
		let y = self.yields.get_mut(&k)?;
		let periods = (y.updated - e.entered - (y.stopped - e.stopped)) as u128;
		let loyal = match y.curve { None => F, Some((i, s)) => { let n = b(i) * b(s as u128) + b(periods) * b(F); let d = b(periods) + b(s as u128); if d == b(0) { return None } small(n / d)? } };
		let all = mul(e.valued, y.rpvs - e.rpvs)?;
		let (reward, rest) = if all == 0 { (0, 0) } else { let c = mul(all, loyal)?; (c.checked_sub(e.claimed)?, all - c) };
		let f = &self.farms[&e.g];
		let ed = self.l.ed(f.currency);
		let dust = reward < ed && self.l.get(&who, f.currency) < ed;
		if reward > 0 {
			y.left = y.left.checked_sub(reward)?;
			e.claimed += reward;
			e.updated = now;
			if dust { self.labels.push("reward to treasury"); }
			if rest > 0 { self.labels.push("part not claimable yet"); }
			self.l.mv(f.currency, &self.s.pot, if dust { &self.s.treasury } else { &who }, reward)?;
		}
		let r = (e.g, f.currency, if dust { 0 } else { reward }, rest);
		self.deps.get_mut(&dep)?.entries[i] = e;
		Some(r)
	}
	/// shares, claim if any, whether the deposit is gone
	pub fn withdraw(&mut self, who: Acc, dep: u128, id: u32, pool: P) -> Option<(u128, Option<(AssetId, u128, u128)>, bool)> {
		ck(self.deps.get(&dep)?.pool == pool)?;
		let i = self.deps[&dep].entries.iter().position(|e| e.y == id)?;
		let g = self.deps[&dep].entries[i].g;
		let k = (pool, g, id);
		let claim = if self.yields.get(&k)?.state != State::Terminated { let (_, c, x, rest) = self.claim(who, dep, id, false)?; Some((c, x, rest)) } else { None };
		let rest = claim.map_or(0, |c| c.2);
		let d = self.deps.get_mut(&dep)?;
		let e = d.entries.remove(i);
		let shares = d.shares;
		let gone = d.entries.is_empty();
		if gone { self.deps.remove(&dep); }
		let y = self.yields.get_mut(&k)?;
		y.shares -= shares;
		y.valued -= e.valued;
		y.entries -= 1;
		y.left = y.left.checked_sub(rest)?;
		let ended = y.state == State::Terminated;
		if ended { self.labels.push("left an ended farm"); if y.entries == 0 { self.yields.remove(&k); } }
		let acc = self.account(g);
		let f = self.farms.get_mut(&g)?;
		f.paid = f.paid.checked_sub(rest)?;
		let c = f.currency;
		self.l.mv(c, &self.s.pot, &acc, rest)?;
		self.stake(g)?;
		self.count(g);
		self.clean(g);
		Some((shares, claim, gone))
	}
	/// The pot can pay what farms have been given and not yet paid.
	pub fn solvent(&self, pot: impl Fn(AssetId) -> u128) -> crate::Res {
		let mut owed: BTreeMap<AssetId, u128> = BTreeMap::new();
		for f in self.farms.values() { *owed.entry(f.currency).or_insert(0) += f.pending; }
		for (k, y) in &self.yields { *owed.entry(self.farms[&k.1].currency).or_insert(0) += y.left; }
		for (c, x) in owed { let p = pot(c); if p < x { return Err(format!("the pot holds {p} of asset {c} but owes {x}")) } }
		Ok(())
	}
}

pub type BlockNumber = u32; pub type Balance = u128; pub type Hash = sp_core::H256;

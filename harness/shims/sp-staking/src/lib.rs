pub type SessionIndex = u32; pub type EraIndex = u32;

pub mod endure;
pub mod evo;
pub mod fleet;
pub mod h2;
pub mod hostile;
pub mod hp;
pub mod huf;
pub mod pb;
pub mod iso;
pub mod peer;
pub mod rx;
pub mod standby;
pub mod tx;
pub mod val;

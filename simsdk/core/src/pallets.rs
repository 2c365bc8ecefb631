pub mod balances;
pub mod collective;
pub mod inert;
pub mod offices;
pub mod parachain_system;
pub mod proxy;
pub mod sudo;
pub mod timestamp;
pub mod transaction_payment;
pub mod utility;

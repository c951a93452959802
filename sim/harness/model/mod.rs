pub mod fido;
pub mod keys;
pub mod wire;
pub mod x509;

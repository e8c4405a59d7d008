use crate::fw::Prop;

pub mod asm;
pub mod cli;
pub mod diag;
pub mod enc;
pub mod io;
pub mod mac;
pub mod obj;
pub mod total;
pub mod turns;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(enc::props());
    v.extend(mac::props());
    v.extend(obj::props());
    v.extend(asm::props());
    v.extend(diag::props());
    v.extend(cli::props());
    v.extend(io::props());
    v.extend(total::props());
    v
}

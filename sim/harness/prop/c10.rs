//! C10: managing YubiKeys.
use super::c09::settle;
use super::piv::*;
use super::Info;
use crate::core::*;

pub const INFO: Info = Info {
    quick_runs: 40000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are histories over one to three simulated tokens: open, unlock with right and wrong secrets, provision, write and fetch certificates, certificate requests, attestations, reconnects and closes, interleaved with unplugging, resets and sessions of other processes, service restarts, and a disturbance of a chosen PC/SC call inside an operation (also after the token executed the command, with its answer lost).",
    real: &["sshcerts::yubikey::piv, utils, x509", "yubikey 0.7, pcsc, x509-parser, rcgen crates"],
    stub: &["libpcsclite and pcscd", "YubiKey tokens (PIV applet model)", "clock, OS random source"],
    assumptions: &["tokens are USB devices: a handle never outlives its plug-in", "a token's successful answers are well-formed", "no other process writes into a slot while provision works on it"],
};
pub fn run() {
    let c = cx();
    let mut w = World::new(c);
    let n = c.range(4, 24);
    for k in 0..n {
        if w.devs.is_empty() {
            if k % 3 == 2 { w.op_new(c) } else { w.op_open(c) }
            continue;
        }
        let i = c.pick(w.devs.len());
        w.revive(c, i);
        match c.pick(22) {
            0 | 1 => w.op_unlock(c, i),
            2..=6 => w.op_provision(c, i),
            7 | 8 => w.op_write_cert(c, i),
            9 | 10 | 11 => w.op_fetch(c, i),
            12 => w.op_attest(c, i),
            13..=15 => w.op_csr(c, i),
            16 => w.op_reconnect(c, i),
            17 => {
                if w.devs.len() < 3 {
                    w.op_open(c)
                } else {
                    w.op_drop(c)
                }
            }
            18 => w.op_drop(c),
            19 => w.op_query(c, i),
            _ => w.op_world(c),
        }
    }
    settle(c, &mut w);
}

//! C09: signatures by YubiKey slots.
use super::piv::*;
use super::Info;
use crate::core::*;
use crate::seam::pcsc::pcsc;

pub const INFO: Info = Info {
    quick_runs: 40000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are histories over one to three simulated tokens: open, unlock, sign (raw, SSH, certificates), queries, reconnects and closes, interleaved with unplugging, resets and sessions of other processes, slots re-provisioned or overwritten by other tools, service restarts, and a disturbance of a chosen PC/SC call inside an operation.",
    real: &["sshcerts::yubikey::piv, utils, x509, ssh::cert", "yubikey 0.7, pcsc, x509-parser, rcgen crates"],
    stub: &["libpcsclite and pcscd", "YubiKey tokens (PIV applet model)", "clock, OS random source"],
    assumptions: &["tokens are USB devices: a handle never outlives its plug-in", "a token's successful answers are well-formed (the yubikey crate itself does not check some of them)", "signatures made by a token are correct"],
};
pub fn run() {
    let c = cx();
    let mut w = World::new(c);
    pcsc().allow_swap = true;
    let n = c.range(4, 26);
    for k in 0..n {
        if w.devs.is_empty() {
            if k % 3 == 2 { w.op_new(c) } else { w.op_open(c) }
            continue;
        }
        let i = c.pick(w.devs.len());
        w.revive(c, i);
        match c.pick(22) {
            0 => w.op_unlock(c, i),
            1..=7 => w.op_sign(c, i),
            8..=11 => w.op_ssh_sign(c, i),
            12 | 13 => w.op_issue(c, i),
            14 | 15 => w.op_query(c, i),
            16 | 17 => w.op_reconnect(c, i),
            18 => {
                if w.devs.len() < 3 {
                    w.op_open(c)
                } else {
                    w.op_drop(c)
                }
            }
            19 => w.op_drop(c),
            _ => w.op_world(c),
        }
    }
    // once disturbances stop, every plugged-in token is usable again
    settle(c, &mut w);
}
pub fn settle(c: &mut Ctx, w: &mut World) {
    pcsc().plan = None;
    pcsc().allow_swap = false;
    for i in 0..w.devs.len() {
        let card = w.devs[i].card;
        if pcsc().cards[card].reader.is_none() {
            continue;
        }
        c.begin("settle");
        w.start();
        let d = &mut w.devs[i];
        let r = lib("reconnect", || d.yk.reconnect());
        crate::ensure!(r.is_ok(), "no recovery after the disturbances stopped", "reconnect: {r:?}");
        w.rebind(i);
        let k = &pcsc().cards[card];
        if k.tries > 0 {
            let (pin, mgm) = (k.pin.clone(), k.mgm);
            let d = &mut w.devs[i];
            let r = lib("unlock", || d.yk.unlock(&pin, &mgm));
            crate::ensure!(r.is_ok(), "no recovery after the disturbances stopped", "unlock: {r:?}");
            let slots: Vec<u8> = pcsc().cards[card].keys.keys().copied().collect();
            for s in slots.into_iter().take(2) {
                if let Some((bits, _)) = w.can_sign(i, s) {
                    let d = &mut w.devs[i];
                    let r = lib("sign_data", || d.yk.sign_data(b"settle", alg_id(if bits == 256 { 0x11 } else { 0x14 }), &slot_id(s)));
                    crate::ensure!(r.is_ok(), "no recovery after the disturbances stopped", "sign: {r:?}");
                }
            }
        }
        c.end();
    }
}

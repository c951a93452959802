//! C11: signing with a security key.
use super::fido::*;
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::fido::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::{hid, sched};
use crate::{ensure, ev};
use sshcerts::ssh::SSHCertificateSigner;
use sshcerts::PrivateKey;

pub const INFO: Info = Info {
    quick_runs: 40000,
    quick_s: 90,
    thorough_runs: 2_000_000,
    rule: "Runs are histories of one to four signing calls with an sk key against up to five simulated HID devices (none, holder of the credential, other security keys of different makes, mice), with PIN states, users who touch the right key, another one or none, and a drawn schedule of all threads (first come first served, random, priorities with change points, preemption at allocations), slow machines, spurious wake-ups, plug and unplug, transport and protocol faults, failing udev, poll and thread creation.",
    real: &["sshcerts::fido::signing, ssh::privkey, utils", "authenticator 0.4 (all its threads: queue, transaction, monitor, selector, one per device), runloop, std::sync::mpsc, std::thread", "OpenSSL"],
    stub: &["libudev, hidraw nodes, poll", "security keys (CTAPHID, CTAP1 and CTAP2 model) and the user's finger", "thread scheduler, clock, timers", "OS random source"],
    assumptions: &["a device that received a request answers it, reports an error, or is unplugged in the end; USB does not duplicate or reorder reports", "a security key that answers with something it did not compute for this request is not detected (the signature is passed on as returned)"],
};

struct Setup {
    key: MKey,
    app: String,
    handle: Vec<u8>,
    priv_: PrivateKey,
    pin: Option<String>,
}
fn setup(c: &mut Ctx) -> Setup {
    let app = gen_app(c);
    let mut s = c.stream();
    let base = if c.chance(1, 2) { ed25519(&s.bytes(32)) } else { ecdsa(256, &mut s, 0) };
    let key = base.skify(&app);
    let hl = [64usize, 64, 1, 16, 128, 127][c.pick(6)];
    let handle = s.bytes(hl);
    let sk = SkPart { flags: [1u8, 5, 0x21][c.pick(3)], handle: handle.clone(), reserved: vec![] };
    let pem = priv_pem(&priv_blob(&key, Some(&sk), "comment", 7, None));
    let mut priv_ = match lib("PrivateKey::from_string", || PrivateKey::from_string(&pem)) {
        Ok(k) => k,
        Err(e) => violate("valid private key rejected", format!("{e}: {pem}")),
    };
    let n = [1usize, 1, 1, 2, 3, 0][c.pick(6)];
    let holder = if n > 0 && c.chance(7, 8) { Some(c.pick(n)) } else { None };
    let mut pin = None;
    for i in 0..n {
        let mut t = gen_token_dev(c);
        if Some(i) == holder {
            if t.ctap2 || matches!(key.pk, MPub::Ecdsa { .. }) {
                let u2f = !t.ctap2;
                if u2f {
                    t.extra_flags = 0;
                }
                t.creds.push(Cred { handle: handle.clone(), key: base.clone(), rp: sha256(app.as_bytes()), u2f });
            }
            match c.pick(13) {
                12 => t.rogue.bad_der = true,
                0 => t.rogue.foreign_key = true,
                1 => t.rogue.bad_sig_len = Some([0usize, 1, 63, 65, 200][c.pick(5)]),
                2 => t.rogue.wrong_rp = true,
                3 => t.many = c.range(2, 3),
                _ => {}
            }
            pin = match c.pick(4) {
                0 => None,
                1 => Some(gen_pin(c)),
                _ => t.pin.clone(),
            };
        } else if c.chance(1, 3) {
            // the same handle under another application, or another handle: not this key
            let o = ed25519(&c.stream().bytes(32));
            let h = if c.chance(1, 2) { handle.clone() } else { c.stream().bytes(64) };
            t.creds.push(Cred { handle: h, key: o, rp: sha256(b"ssh:elsewhere"), u2f: !t.ctap2 });
        }
        hid::add(t, true);
    }
    gen_users(c);
    gen_bystanders(c);
    // who is touched?
    let touched = match c.pick(6) {
        0 => None,
        1 if n > 0 => Some(c.pick(n)),
        _ => holder,
    };
    for i in 0..n {
        hid::w().devs[i].user.touches = Some(i) == touched || c.chance(1, 12);
    }
    if let Some(p) = &pin {
        lib("set_pin", || priv_.set_pin(p));
    }
    Setup { key, app, handle, priv_, pin }
}
/// Must this call succeed? (Some(reason) = yes)
fn must(s: &Setup) -> bool {
    let wd = hid::w();
    if wd.disturbed || wd.udev_fail.is_some() || wd.poll_fail.is_some() || sched::s().fail_spawn_at.is_some() || wd.faults > 0 {
        return false;
    }
    let keys: Vec<&hid::Dev> = wd.devs.iter().filter(|d| d.fido && d.present && d.open_err.is_none()).collect();
    if wd.devs.iter().any(|d| d.fido && d.present && d.open_err.is_some()) {
        return false;
    }
    let rp = sha256(s.app.as_bytes());
    let holders: Vec<usize> = keys.iter().enumerate().filter(|(_, d)| d.token.creds.iter().any(|k| k.handle == s.handle && k.rp == rp)).map(|(i, _)| i).collect();
    if holders.len() != 1 {
        return false;
    }
    let h = holders[0];
    for (i, d) in keys.iter().enumerate() {
        if d.user.touches != (i == h) {
            return false;
        }
    }
    let t = &keys[h].token;
    if t.rogue != Rogue::default() || t.many > 1 {
        return false;
    }
    !t.always_uv || auth_outcome(t, s.pin.as_deref()) == Auth::Ok
}
fn sign_call(c: &mut Ctx, s: &Setup, k: u64) {
    c.begin("sign");
    gen_call_faults(c);
    let data = gen_bytes(c, 3000);
    let wd = hid::w();
    wd.call = k;
    for d in wd.devs.iter_mut() {
        d.touched = 0;
        d.token.puat_perm = 0;
    }
    let want = must(s);
    let calm = hid::w().faults == 0 && !hid::w().disturbed;
    let tries: Vec<u64> = hid::w().devs.iter().map(|d| d.token.pin_tries).collect();
    let t0 = c.now_ns;
    let sc = sched::s();
    sc.what = "PrivateKey::sign".into();
    sc.time_limit = t0 + 60 * hid::SEC;
    ev!("sign {} bytes with {} (must succeed: {want})", data.len(), s.key.pk.name());
    let stall = sched::s().slow_budget_ns;
    let r = lib("PrivateKey::sign", || s.priv_.sign(&data));
    let c = cx();
    let dt = c.now_ns - t0;
    ev!("  [t={}us] sign -> {} after {} ms", c.now_ns / 1000, if r.is_some() { "signature" } else { "none" }, dt / hid::MS);
    ensure!(dt < 40 * hid::SEC, "late", "PrivateKey::sign took {} s of simulated time, its timeout is 15 s", dt / hid::SEC);
    if let Some(b) = hid::w().bad_frame.take() {
        violate("malformed output report", b);
    }
    settle(c, "PrivateKey::sign");
    for (d, t) in hid::w().devs.iter().zip(&tries) {
        ensure!(!calm || d.token.pin_tries - t <= 1, "wrong PIN tried more than once", "one signing call spent {} PIN tries of {}", d.token.pin_tries - t, d.name);
    }
    let wd = hid::w();
    match r {
        Some(sig) => {
            c.stat("op.signature");
            let hash = sha256(&data);
            let mut found = false;
            for d in &wd.devs {
                for a in &d.token.asserted {
                    if d.token.rogue.bad_der && a.call == k && a.up {
                        // what a damaged signature is passed on as is not specified
                        ensure!(a.cdh == hash && a.handle == s.handle, "wrong data or credential", "the security key was asked for {} by {}", hex(&a.cdh), hex(&a.handle));
                        c.probe("damaged signature passed on");
                        found = true;
                        continue;
                    }
                    if a.call != k || !a.up || encode(&s.key.pk, a).as_deref() != Some(&sig[..]) {
                        continue;
                    }
                    found = true;
                    let rogue = d.token.rogue != Rogue::default();
                    ensure!(a.cdh == hash, "wrong data signed", "the security key was asked to sign the hash {} for data with hash {}", hex(&a.cdh), hex(&hash));
                    ensure!(a.handle == s.handle, "wrong credential", "the security key was asked for credential {}, the key has {}", hex(&a.handle), hex(&s.handle));
                    if rogue {
                        c.probe("rogue device's answer passed on");
                        continue;
                    }
                    ensure!(a.rp == sha256(s.app.as_bytes()), "wrong application", "signed for another application");
                    ensure!(verify(&s.key.pk, &data, &sig).is_some(), "signature does not verify", "sign returned {} which does not verify for the data under the key", hex(&sig));
                }
            }
            if !found {
                ensure!(wd.tainted, "not what the device returned", "sign returned {} but no security key made that assertion in this call", hex(&sig));
                c.probe("corrupt answer passed on");
            }
        }
        None => {
            c.stat("op.none");
            ensure!(!want || too_late(stall), "healthy key, no signature", "sign returned None although one healthy security key held the credential and was touched");
        }
    }
    c.end();
}
pub fn run() {
    let c = cx();
    sched::start();
    let s = setup(c);
    let n = [1u64, 1, 2, 4][c.pick(4)];
    for k in 1..=n {
        sign_call(c, &s, k);
        c.now_ns += c.draw(5000) * hid::MS;
        if hid::w().devs.is_empty() {
            continue;
        }
        let d = c.pick(hid::w().devs.len());
        match c.pick(6) {
            0 => hid::unplug(d),
            1 => hid::plug(d),
            2 => {
                let on = c.chance(1, 2);
                hid::w().devs[d].user.touches = on;
            }
            _ => {}
        }
    }
    sched::stop();
}

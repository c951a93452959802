//! C12: key generation on a security key.
use super::fido::*;
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::fido::*;
use crate::model::keys::*;
use crate::model::x509::*;
use crate::seam::sys::rand_state;
use crate::seam::{hid, sched};
use crate::{ensure, ev};
use sshcerts::error::Error;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::Error as FE;
use sshcerts::ssh::{PrivateKeyKind, SSHCertificateSigner};
use std::sync::OnceLock;

pub const INFO: Info = Info {
    quick_runs: 40000,
    quick_s: 90,
    thorough_runs: 2_000_000,
    rule: "Runs are histories of one to three key generations (and signatures with the generated keys) against up to five simulated HID devices of different makes and PIN states, rogue authenticators among them, with users who touch one, another or none, and a drawn schedule of all threads (first come first served, random, priorities with change points, preemption at allocations), slow machines, spurious wake-ups, plug and unplug, transport and protocol faults, failing udev, poll, random source and thread creation.",
    real: &["sshcerts::fido::{generate,parsing,verification,signing}, ssh::privkey", "authenticator 0.4 (all its threads), runloop, std::sync::mpsc, std::thread", "OpenSSL, ring, x509-parser"],
    stub: &["libudev, hidraw nodes, poll", "security keys (CTAPHID, CTAP1 and CTAP2 model) and the user's finger", "the vendor: the PEM text of the built-in root is replaced in memory by the simulated vendor's root of the same length", "thread scheduler, clock, timers", "OS random source"],
    assumptions: &["a device that received a request answers it, reports an error, or is unplugged in the end; USB does not duplicate or reorder reports", "a genuine security key attests what it did; a rogue device can relay to a genuine one but has no attestation key"],
};

pub struct Vendor {
    pub root: MKey,
    pub att: Att,
    pub root_der: Vec<u8>,
    /// the built-in root was found and replaced
    pub ours: bool,
}
pub static V: OnceLock<Vendor> = OnceLock::new();
pub fn mint_att(root: &MKey, issuer: &str, key: &MKey, p: &mut Prng) -> Vec<u8> {
    let exts = vec![
        ("1.3.6.1.4.1.41482.13.1".to_string(), octet(&[5, 7, 2])),
        ("1.3.6.1.4.1.45724.1.1.4".to_string(), octet(&p.bytes(16))),
        ("1.3.6.1.4.1.45724.2.1.1".to_string(), vec![3, 2, 4, 0x30]),
    ];
    MX { serial: vec![7, 7], issuer: issuer.into(), subject: "Sim U2F EE Serial 7".into(), key: key.pk.clone(), exts, ca: false }.mint(root, 0, p).0
}
/// Before any run: become the vendor whose root is built in.
pub fn prepare() {
    V.get_or_init(|| {
        let mut p = Prng::new(12);
        let root = rsa(0);
        let head = ["-----BEGIN", " CERTIFICATE-----\n", "MIIDHjCCAgagAwIBAgIE", "G0BT9zANBgkqhkiG9w0B"].concat();
        let mut ours = false;
        let mut issuer = "Sim".to_string();
        let mut root_der = vec![0x30, 0];
        for (a, l) in find(head.as_bytes()) {
            for n in 1..80usize {
                for sl in 1..4usize {
                    let cn = "S".repeat(n);
                    let (der, _) = MX { serial: vec![0x11; sl], issuer: cn.clone(), subject: cn.clone(), key: root.pk.clone(), exts: vec![], ca: true }.mint(&root, 0, &mut p);
                    let t = pem(&der);
                    let t = t.trim_end();
                    if t.len() == l {
                        unsafe {
                            let pg = a & !0xfff;
                            let len = (a + l - pg + 0xfff) & !0xfff;
                            assert_eq!(libc::mprotect(pg as *mut _, len, libc::PROT_READ | libc::PROT_WRITE), 0);
                            std::ptr::copy_nonoverlapping(t.as_ptr(), a as *mut u8, l);
                            assert_eq!(libc::mprotect(pg as *mut _, len, libc::PROT_READ), 0);
                        }
                        ours = true;
                        issuer = cn;
                        root_der = der.clone();
                    }
                    if ours {
                        break;
                    }
                }
                if ours {
                    break;
                }
            }
        }
        let key = ecdsa(256, &mut p, 0);
        let cert = mint_att(&root, &issuer, &key, &mut p);
        Vendor { root, att: Att { key, cert }, root_der, ours }
    });
}
/// Where a PEM text that begins with `head` lies in the read-only data of this program.
fn find(head: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    for line in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        if !line.ends_with(exe.to_str().unwrap()) || line.split(' ').nth(1) != Some("r--p") {
            continue;
        }
        let (a, b) = line.split(' ').next().unwrap().split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let m = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
        for i in 0..m.len().saturating_sub(head.len()) {
            if m[i] == b'-' && m[i..].starts_with(head) {
                let end = b"-----END CERTIFICATE-----";
                if let Some(e) = (i..(i + 3000).min(m.len())).find(|e| m[*e..].starts_with(end)) {
                    out.push((a + i, e + end.len() - i));
                }
            }
        }
    }
    out
}

struct Args {
    app: String,
    comment: String,
    pin: Option<String>,
}
fn setup(c: &mut Ctx) {
    let v = V.get().unwrap();
    let n = [1usize, 1, 1, 2, 3, 0][c.pick(6)];
    for _ in 0..n {
        let mut t = gen_token_dev(c);
        t.handle_len = [64usize, 48, 16, 128, 1, 255, 300][c.pick(7)];
        t.chain = c.chance(1, 6);
        t.issuer = v.root_der.clone();
        t.att = match c.pick(8) {
            0 => None, // self attestation
            1 => {
                // another vendor
                let k = ecdsa(256, &mut c.stream(), 0);
                let mut s = c.stream();
                let r = rsa(1);
                let cert = mint_att(&r, "Other", &k, &mut s);
                Some(Att { key: k, cert })
            }
            _ => Some(v.att.clone()),
        };
        match c.pick(14) {
            0 => t.rogue.foreign_key = true,
            1 => t.rogue.stale_challenge = true,
            2 => t.rogue.no_cert = true,
            3 => t.rogue.bad_sig_len = Some([0usize, 1, 63, 64, 200][c.pick(5)]),
            4 => t.rogue.other_alg = Some([-8i64, -257, -35, -36][c.pick(4)]),
            5 => t.rogue.wrong_rp = true,
            6 => t.rogue.other_key_type = true,
            7 => t.fmt = ["none", "fido-u2f"][c.pick(2)],
            8 => t.eddsa = false,
            _ => {}
        }
        hid::add(t, true);
    }
    gen_users(c);
    gen_bystanders(c);
    let touched = match c.pick(6) {
        0 => None,
        _ if n > 0 => Some(c.pick(n)),
        _ => None,
    };
    for i in 0..n {
        hid::w().devs[i].user.touches = Some(i) == touched || c.chance(1, 12);
    }
}
#[derive(Debug, PartialEq, Clone)]
enum Want {
    Free,
    Key,
    Err(&'static str),
    Pin(Auth),
}
fn auth_needed(t: &Token) -> bool {
    t.always_uv || ((t.pin.is_some() || t.uv == Some(true)) && t.mc_uv_not_rqd != Some(true))
}
fn want(a: &Args) -> Want {
    let wd = hid::w();
    let keys: Vec<&hid::Dev> = wd.devs.iter().filter(|d| d.fido && d.present).collect();
    if keys.is_empty() && !wd.disturbed {
        return Want::Err("no security key");
    }
    if wd.disturbed || wd.udev_fail.is_some() || wd.poll_fail.is_some() || sched::s().fail_spawn_at.is_some() || wd.faults > 0 {
        return Want::Free;
    }
    if keys.iter().any(|d| d.open_err.is_some()) {
        return Want::Free;
    }
    let touched: Vec<&&hid::Dev> = keys.iter().filter(|d| d.user.touches).collect();
    if touched.is_empty() && keys.len() > 1 {
        return Want::Err("nobody touched a security key");
    }
    if touched.len() > 1 {
        return Want::Free;
    }
    let t = if keys.len() == 1 { &keys[0].token } else { &touched[0].token };
    if !t.ctap2 {
        return Want::Err("the security key cannot make Ed25519 keys");
    }
    if auth_needed(t) {
        match auth_outcome(t, a.pin.as_deref()) {
            Auth::Ok => {}
            Auth::Other => return Want::Free,
            o => return Want::Pin(o),
        }
    }
    if touched.is_empty() {
        return Want::Err("nobody touched the security key");
    }
    if !t.eddsa {
        return Want::Err("the security key cannot make Ed25519 keys");
    }
    let v = V.get().unwrap();
    let genuine = v.ours && t.att.as_ref().is_some_and(|x| x.cert == v.att.cert) && t.rogue == Rogue::default() && t.fmt == "packed";
    if !genuine {
        return Want::Err("the security key is not genuine");
    }
    Want::Key
}
fn generate(c: &mut Ctx, k: u64, past: &mut Vec<Vec<u8>>) {
    c.begin("generate");
    gen_call_faults(c);
    let wd = hid::w();
    let pins: Vec<String> = wd.devs.iter().filter_map(|d| d.token.pin.clone()).collect();
    let a = Args {
        app: gen_app(c),
        comment: gen_string(c, 60),
        pin: match c.pick(5) {
            0 => None,
            1 => Some(gen_pin(c)),
            _ => pins.first().cloned(),
        },
    };
    wd.call = k;
    for d in wd.devs.iter_mut() {
        d.touched = 0;
        d.token.puat_perm = 0;
    }
    let rs = rand_state();
    rs.main32.clear();
    rs.fail_len = if c.chance(1, 20) { Some(32) } else { None };
    let armed = rs.fail_len.is_some();
    let w0 = want(&a);
    let stall = sched::s().slow_budget_ns;
    let calm = hid::w().faults == 0 && !hid::w().disturbed;
    let tries: Vec<u64> = hid::w().devs.iter().map(|d| d.token.pin_tries).collect();
    let t0 = c.now_ns;
    let sc = sched::s();
    sc.what = "generate_new_ssh_key".into();
    sc.time_limit = t0 + 60 * hid::SEC;
    ev!("generate application {:?} pin {:?} (expected: {w0:?})", a.app, a.pin);
    let path = if c.chance(1, 4) { Some("/dev/hidraw0".to_string()) } else { None };
    let r = lib("generate_new_ssh_key", || generate_new_ssh_key(&a.app, &a.comment, a.pin.clone(), path));
    let c = cx();
    let dt = c.now_ns - t0;
    ev!("  [t={}us] generate -> {} after {} ms", c.now_ns / 1000, match &r {
        Ok(_) => "a key".to_string(),
        Err(e) => format!("{e:?}"),
    }, dt / hid::MS);
    ensure!(dt < 40 * hid::SEC, "late", "generate_new_ssh_key took {} s of simulated time, its timeout is 15 s", dt / hid::SEC);
    if let Some(b) = hid::w().bad_frame.take() {
        violate("malformed output report", b);
    }
    settle(c, "generate_new_ssh_key");
    let rng_failed = armed && rand_state().fail_len.is_none();
    rand_state().fail_len = None;
    for (d, t) in hid::w().devs.iter().zip(&tries) {
        ensure!(!calm || d.token.pin_tries - t <= 1, "wrong PIN tried more than once", "one call spent {} PIN tries of {}", d.token.pin_tries - t, d.name);
    }
    let key = match r {
        Err(e) => {
            c.stat("op.generate_err");
            if rng_failed {
                return c.end();
            }
            match &w0 {
                Want::Key if too_late(stall) => c.probe("the machine stalled and the touch came too late"),
                Want::Key => violate("healthy key, no result", format!("generate_new_ssh_key failed with {e:?} although a genuine security key was present and touched")),
                Want::Pin(p) => {
                    let ok = match (p, &e) {
                        (Auth::PinRequired, Error::FidoError(FE::PinRequired)) => true,
                        (Auth::Invalid(n), Error::FidoError(FE::InvalidPin(Some(m)))) => n == m,
                        (Auth::Locked, Error::FidoError(FE::KeyLocked)) => true,
                        (Auth::Blocked, Error::FidoError(FE::KeyBlocked)) => true,
                        _ => false,
                    };
                    ensure!(ok, "wrong PIN error", "the security key's answer is {p:?}, generate_new_ssh_key reports {e:?}");
                    c.stat("op.pin_error");
                }
                Want::Err(_) => {
                    ensure!(!matches!(e, Error::FidoError(FE::PinRequired | FE::InvalidPin(_) | FE::KeyLocked | FE::KeyBlocked)), "PIN error without a PIN problem", "expected {w0:?}, generate_new_ssh_key reports {e:?}");
                }
                Want::Free => {}
            }
            return c.end();
        }
        Ok(k) => k,
    };
    c.stat("op.generate_ok");
    ensure!(!rng_failed, "random failure ignored", "the random source failed while the challenge was drawn and a key was returned");
    match &w0 {
        Want::Pin(p) => violate("PIN problem ignored", format!("the security key's answer is {p:?} and a key was returned")),
        Want::Err(e) => violate("key out of nothing", format!("a key was returned although {e}")),
        _ => {}
    }
    let att = &key.attestation;
    let wd = hid::w();
    let made: Vec<(usize, &Made)> = wd.devs.iter().enumerate().flat_map(|(i, d)| d.token.made.iter().map(move |m| (i, m))).filter(|(_, m)| m.call == k && m.auth_data == att.auth_data && m.sig == att.auth_data_sig).collect();
    let Some((di, m)) = made.first().cloned() else { violate("not what the device attested", format!("no security key attested {} in this call", hex(&att.auth_data))) };
    ensure!(m.honest, "rogue attestation accepted", "a rogue device's enrolment was accepted: {:?} format {}", wd.devs[di].token.rogue, m.fmt);
    ensure!(m.rp == a.app, "other application", "the credential was made for {:?}, asked for was {:?}", m.rp, a.app);
    ensure!(m.algs == [-8], "other algorithms", "the security key was asked for {:?}", m.algs);
    ensure!(tbs_of(&att.intermediate) == tbs_of(&m.cert), "other certificate", "the certificate is not the one the security key sent");
    ensure!(att.alg as i64 == m.alg, "other algorithm", "attestation algorithm {} reported as {}", m.alg, att.alg);
    ensure!(att.challenge == m.cdh, "other challenge", "the challenge in the result ({}) is not what the security key signed ({})", hex(&att.challenge), hex(&m.cdh));
    let rs = rand_state();
    ensure!(rs.main32.iter().any(|x| *x == att.challenge) || rs.served.windows(32).any(|x| x == &att.challenge[..]), "challenge not fresh", "the challenge {} was not drawn from the random source in this call", hex(&att.challenge));
    ensure!(!past.contains(&att.challenge), "challenge repeated", "the challenge {} was used before", hex(&att.challenge));
    past.push(att.challenge.clone());
    ensure!(lib("verify", || att.verify()).is_ok(), "attestation does not verify", "the attestation in the result does not verify");
    let p = &key.private_key;
    let PrivateKeyKind::Ed25519Sk(sk) = &p.kind else { violate("wrong key kind", "not an Ed25519Sk key".to_string()) };
    ensure!(sk.handle == m.cred.handle, "wrong handle", "handle {} made, {} returned", hex(&m.cred.handle), hex(&sk.handle));
    ensure!(sk.flags == m.flags, "wrong flags", "flags {:#x} attested, {:#x} returned", m.flags, sk.flags);
    ensure!(sk.pin == a.pin, "wrong PIN", "PIN {:?} given, {:?} stored", a.pin, sk.pin);
    ensure!(p.comment == a.comment, "wrong comment", "comment {:?} given, {:?} stored", a.comment, p.comment);
    let want_pk = m.cred.key.pk.with_app(&a.app);
    let blob = lib("PublicKey::encode", || p.pubkey.encode()).to_vec();
    ensure!(blob == want_pk.blob(), "wrong public key", "public key {} returned for credential {}", hex(&blob), hex(&want_pk.blob()));
    ensure!(p.key_type.name == want_pk.name(), "wrong key type", "key type {} returned for {}", p.key_type.name, want_pk.name());
    c.end();
    // the new key works
    if c.chance(1, 2) {
        c.begin("sign with new key");
        let data = gen_bytes(c, 200);
        let wd = hid::w();
        let quiet = w0 == Want::Key && !wd.disturbed && wd.devs.iter().enumerate().all(|(i, d)| !d.fido || !d.present || (d.user.touches == (i == di)));
        let t = &wd.devs[di].token;
        // a long credential id may not fit this make's own limits
        let want = quiet && m.cred.handle.len() <= 128 && t.many <= 1 && (!t.always_uv || auth_outcome(t, a.pin.as_deref()) == Auth::Ok);
        wd.call = 1000 + k;
        sched::s().what = "PrivateKey::sign".into();
        sched::s().time_limit = c.now_ns + 60 * hid::SEC;
        ev!("sign with the new key (must succeed: {want})");
        let stall = sched::s().slow_budget_ns;
        let r = lib("PrivateKey::sign", || p.sign(&data));
        settle(cx(), "PrivateKey::sign");
        let c = cx();
        match r {
            None => ensure!(!want || too_late(stall), "new key cannot sign", "the key just generated does not sign"),
            Some(s) => {
                c.stat("op.signed_with_new_key");
                ensure!(hid::w().tainted || ambiguous(&m.cred.handle, &a.app, &want_pk) || verify(&want_pk, &data, &s).is_some(), "signature does not verify", "the new key's signature {} does not verify", hex(&s));
            }
        }
        c.end();
    }
}
pub fn run() {
    let c = cx();
    sched::start();
    setup(c);
    let n = [1u64, 1, 2, 3][c.pick(4)];
    let mut past = vec![];
    for k in 1..=n {
        generate(c, k, &mut past);
        let c = cx();
        c.now_ns += c.draw(5000) * hid::MS;
        if hid::w().devs.is_empty() {
            continue;
        }
        let d = c.pick(hid::w().devs.len());
        match c.pick(6) {
            0 => hid::unplug(d),
            1 => hid::plug(d),
            2 => {
                let on = c.chance(1, 2);
                hid::w().devs[d].user.touches = on;
            }
            _ => {}
        }
    }
    sched::stop();
}

//! C16: the second FIDO backend (feature fido-support, ctap-hid-fido2 over hidapi).
use super::fido::*;
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::fido::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::model::x509::*;
use crate::seam::sys::rand_state;
use crate::seam::{hid, sched};
use crate::{ensure, ev};
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::{device_pin_retries, device_requires_pin, list_fido_devices};
use sshcerts::ssh::{PrivateKeyKind, SSHCertificateSigner};
use sshcerts::PrivateKey;

pub const INFO: Info = Info {
    quick_runs: 60000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are histories of one to six operations of the build with the fido-support feature (list devices, PIN status, PIN tries, key generation, signing with a key of the history or an enrolled one), with or without a device path, against up to five simulated HID devices of different makes and PIN states, rogue authenticators among them, users who touch or do not, plug and unplug between and inside calls, refused opens, failing reads and writes, CTAP and CTAPHID errors, slow replies.",
    real: &["sshcerts::fido::{generate,signing,utils,parsing,verification} of the fido-support build, ssh::privkey", "ctap-hid-fido2 3, hidapi 2 with its C library", "ring, x509-parser"],
    stub: &["libudev, sysfs report descriptors, hidraw nodes", "security keys (CTAPHID and CTAP2 model) and the user's finger", "the vendor: the PEM text of the built-in root is replaced in memory by the simulated vendor's root of the same length", "clock, timers, OS random source"],
    assumptions: &["no other program talks to the security key during a call, and a device that received a request answers it, reports an error, or is unplugged in the end: ctap-hid-fido2 does not check channels, panics on malformed replies and waits for ever for a missing one", "the random source works: ctap-hid-fido2 panics if it does not"],
};

struct Key {
    pk: MPub,
    app: String,
    handle: Vec<u8>,
    priv_: PrivateKey,
    pin: Option<String>,
}
fn node(d: usize) -> String {
    format!("/dev/hidraw{}", hid::w().devs[d].node)
}
/// What list_fido_devices has to report, in the order of the system.
fn listed() -> Vec<usize> {
    hid::w().devs.iter().enumerate().filter(|(_, d)| d.present && d.fido && d.desc.is_some()).map(|(i, _)| i).collect()
}
/// The device an operation talks to.
fn target(path: &Option<String>) -> Option<usize> {
    let openable = |d: &usize| {
        let d = &hid::w().devs[*d];
        d.present && d.open_err.is_none() && d.desc.is_some()
    };
    match path {
        Some(p) => (0..hid::w().devs.len()).find(|d| node(*d) == *p && openable(d)),
        None => listed().into_iter().find(openable),
    }
}
fn setup(c: &mut Ctx) -> Vec<Key> {
    let v = super::c12::V.get().unwrap();
    hid::w().clean = true;
    hid::w().on = true;
    let n = [1usize, 1, 2, 3, 0][c.pick(5)];
    let mut keys = vec![];
    for _ in 0..n {
        let mut t = gen_token_dev(c);
        t.handle_len = [64usize, 48, 16, 128, 1, 255, 300][c.pick(7)];
        t.chain = c.chance(1, 4);
        t.issuer = v.root_der.clone();
        t.att = match c.pick(16) {
            0 => None,
            1 => {
                let k = ecdsa(256, &mut c.stream(), 0);
                let mut s = c.stream();
                let cert = super::c12::mint_att(&rsa(1), "Other", &k, &mut s);
                Some(Att { key: k, cert })
            }
            _ => Some(v.att.clone()),
        };
        match c.pick(26) {
            0 => t.rogue.foreign_key = true,
            1 => t.rogue.stale_challenge = true,
            2 => t.rogue.no_cert = true,
            3 => t.rogue.bad_sig_len = Some([0usize, 1, 63, 64, 200][c.pick(5)]),
            4 => t.rogue.other_alg = Some([-8i64, -257, -35, -36][c.pick(4)]),
            5 => t.rogue.wrong_rp = true,
            6 => t.rogue.other_key_type = true,
            7 => t.fmt = ["none", "fido-u2f"][c.pick(2)],
            8 => t.eddsa = false,
            _ => {}
        }
        if c.chance(1, 2) {
            // a credential enrolled earlier
            let app = gen_app(c);
            let mut s = c.stream();
            let base = if c.chance(1, 2) { ed25519(&s.bytes(32)) } else { ecdsa(256, &mut s, 0) };
            let key = base.skify(&app);
            let hl = [64usize, 16, 128, 1][c.pick(4)];
            let handle = s.bytes(hl);
            let sk = SkPart { flags: [1u8, 5, 0x21][c.pick(3)], handle: handle.clone(), reserved: vec![] };
            let pem = priv_pem(&priv_blob(&key, Some(&sk), "comment", 7, None));
            let mut priv_ = match lib("PrivateKey::from_string", || PrivateKey::from_string(&pem)) {
                Ok(k) => k,
                Err(e) => violate("valid private key rejected", format!("{e}: {pem}")),
            };
            t.creds.push(Cred { handle: handle.clone(), key: base, rp: sha256(app.as_bytes()), u2f: !t.ctap2 });
            let pin = match c.pick(4) {
                0 => None,
                1 => Some(gen_pin(c)),
                _ => t.pin.clone(),
            };
            if let Some(p) = &pin {
                lib("set_pin", || priv_.set_pin(p));
            }
            keys.push(Key { pk: key.pk, app, handle, priv_, pin });
        }
        hid::add(t, true);
    }
    gen_users(c);
    gen_bystanders(c);
    for i in 0..n {
        hid::w().devs[i].user.touches = c.chance(5, 6);
        if c.chance(1, 12) {
            hid::w().devs[i].open_err = Some([libc::EACCES, libc::EBUSY][c.pick(2)]);
        }
    }
    keys
}
fn gen_path(c: &mut Ctx) -> Option<String> {
    let fido: Vec<usize> = (0..hid::w().devs.len()).filter(|d| hid::w().devs[*d].fido).collect();
    match c.pick(12) {
        0..=3 => None,
        4 => Some(["/dev/hidraw77", "/dev/null", "", "hidraw0", "/dev/hidraw0\0"][c.pick(5)].into()),
        // a device that may be unplugged by now
        _ if !fido.is_empty() => Some(node(fido[c.pick(fido.len())])),
        _ => None,
    }
}
fn arm(c: &mut Ctx, k: u64, what: &str) {
    let wd = hid::w();
    wd.faults = 0;
    wd.rate = 6;
    wd.disturbed = false;
    wd.tainted = false;
    wd.call = k;
    for d in wd.devs.iter_mut() {
        d.read_err = false;
        d.write_err = false;
        d.touched = 0;
        d.token.puat_perm = 0;
        d.requests = 0;
    }
    match c.pick(8) {
        0..=4 => {}
        5 | 6 => {
            wd.faults = c.range(1, 2);
            wd.rate = [2u64, 4, 8][c.pick(3)];
        }
        _ => {
            if !wd.devs.is_empty() {
                let d = c.pick(wd.devs.len());
                let t = c.now_ns + [0u64, 2, 30, 300, 1500][c.pick(5)] * hid::MS + c.draw(2000) * 1000;
                wd.disturbed = true;
                hid::plan_unplug(t, d);
            }
        }
    }
    let sc = sched::s();
    sc.what = what.into();
    sc.time_limit = c.now_ns + 400 * hid::SEC;
}
/// After each call: nothing left open, nobody else was spoken to, PIN tries are not wasted.
fn after(what: &str, dev: Option<usize>, tries: &[u64]) {
    let c = cx();
    if let Some(b) = hid::w().bad_frame.take() {
        violate("malformed output report", b);
    }
    settle(c, what);
    for (i, d) in hid::w().devs.iter().enumerate() {
        ensure!(d.token.pin_tries - tries[i] <= 1, "wrong PIN tried more than once", "{what} spent {} PIN tries of {}", d.token.pin_tries - tries[i], d.name);
        ensure!(dev == Some(i) || d.requests == 0 || hid::w().disturbed, "other device used", "{what} talked to {} ({} requests) and not only to the device it was told to use", d.name, d.requests);
    }
}
fn tries() -> Vec<u64> {
    hid::w().devs.iter().map(|d| d.token.pin_tries).collect()
}
fn calm() -> bool {
    hid::w().faults == 0 && !hid::w().disturbed
}
/// The PIN goes through protocol one and the old token command in this backend.
fn pin_good(t: &Token, pin: &str) -> bool {
    t.supports_pin && t.protos.contains(&1) && t.pin.as_deref() == Some(pin) && t.pin_retries > 0 && t.consec < 3
}
fn list(c: &mut Ctx) {
    c.begin("list");
    let want: Vec<(String, String)> = listed().iter().map(|d| (node(*d), if hid::w().devs[*d].manufacturer.is_some() { "Token".into() } else { String::new() })).collect();
    let r = lib("list_fido_devices", list_fido_devices);
    let got: Vec<(String, String)> = r.iter().map(|d| (d.path.clone(), d.product_string.clone())).collect();
    ev!("list -> {got:?}");
    let sorted = |mut v: Vec<(String, String)>| {
        v.sort();
        v
    };
    let (a, b) = (sorted(want.clone()), sorted(got.clone()));
    ensure!(a == b, "wrong device list", "connected security keys are {want:?}, listed are {got:?}");
    ensure!(hid::open_count() == 0, "device left open", "list_fido_devices left {} device nodes open", hid::open_count());
    c.stat("op.list");
    c.end();
}
fn ask(c: &mut Ctx, k: u64) {
    c.begin("ask");
    let Some(path) = gen_path(c) else { return c.end() };
    let dev = target(&Some(path.clone()));
    arm(c, k, "device_requires_pin");
    let quiet = calm();
    let t0 = tries();
    let retries = c.chance(1, 2);
    if retries {
        let r = lib("device_pin_retries", || device_pin_retries(&path));
        ev!("pin retries of {path} -> {r:?}");
        after("device_pin_retries", dev, &t0);
        let t = dev.map(|d| &hid::w().devs[d].token);
        let good = t.is_some_and(|t| t.ctap2 && (t.supports_pin || t.puat));
        match r {
            Ok(n) => ensure!(good && n == t.unwrap().pin_retries as i32, "wrong number of tries", "{path} has {:?} PIN tries left, reported are {n}", t.map(|t| t.pin_retries)),
            Err(e) => ensure!(!good || !quiet || hid::w().disturbed, "healthy key not read", "the PIN tries of {path} could not be read: {e:?}"),
        }
    } else {
        let r = lib("device_requires_pin", || device_requires_pin(&path));
        ev!("pin status of {path} -> {r:?}");
        after("device_requires_pin", dev, &t0);
        let t = dev.map(|d| &hid::w().devs[d].token);
        let good = t.is_some_and(|t| t.ctap2 && t.supports_pin);
        match r {
            Ok(b) => ensure!(good && b == t.unwrap().pin.is_some(), "wrong PIN status", "{path} has PIN {:?}, reported is {b}", t.map(|t| t.pin.clone())),
            Err(e) => ensure!(!good || !quiet || hid::w().disturbed, "healthy key not read", "the PIN status of {path} could not be read: {e:?}"),
        }
    }
    c.stat("op.ask");
    c.end();
}
fn generate(c: &mut Ctx, k: u64, past: &mut Vec<Vec<u8>>) -> Option<Key> {
    c.begin("generate");
    let path = gen_path(c);
    let dev = target(&path);
    let app = gen_app(c);
    let comment = gen_string(c, 60);
    let real = dev.and_then(|d| hid::w().devs[d].token.pin.clone());
    let pin = match c.pick(5) {
        0 => None,
        1 => Some(gen_pin(c)),
        2 if real.is_none() => Some(gen_pin(c)),
        _ => real,
    };
    arm(c, k, "generate_new_ssh_key");
    rand_state().main32.clear();
    let quiet = calm();
    let t0 = tries();
    let v = super::c12::V.get().unwrap();
    let good = dev.is_some_and(|d| {
        let d = &hid::w().devs[d];
        let t = &d.token;
        let genuine = v.ours && t.att.as_ref().is_some_and(|x| x.cert == v.att.cert) && t.rogue == Rogue::default() && t.fmt == "packed";
        let auth = match &pin {
            Some(p) => pin_good(t, p),
            None => !t.always_uv && ((t.pin.is_none() && t.uv != Some(true)) || t.mc_uv_not_rqd == Some(true)),
        };
        t.ctap2 && t.eddsa && genuine && auth && d.user.touches
    });
    let must = good && quiet;
    ev!("generate application {app:?} pin {pin:?} at {path:?} (can succeed: {good}, must: {must})");
    let r = lib("generate_new_ssh_key", || generate_new_ssh_key(&app, &comment, pin.clone(), path.clone()));
    let c = cx();
    ev!("  [t={}us] generate -> {}", c.now_ns / 1000, match &r {
        Ok(_) => "a key".to_string(),
        Err(e) => format!("{e:?}"),
    });
    after("generate_new_ssh_key", dev, &t0);
    let key = match r {
        Err(e) => {
            c.stat("op.generate_err");
            ensure!(!must || hid::w().disturbed, "healthy key, no result", "generate_new_ssh_key failed with {e:?} although a genuine security key was present and touched");
            c.end();
            return None;
        }
        Ok(k) => k,
    };
    c.stat("op.generate_ok");
    ensure!(good || hid::w().disturbed, "key out of nothing", "a key was returned although the device is not a genuine, unlocked, touched security key");
    let att = &key.attestation;
    let Some(m) = hid::w().devs.iter().enumerate().filter(|(i, _)| dev == Some(*i) || hid::w().disturbed).flat_map(|(_, d)| d.token.made.iter()).find(|m| m.call == k && m.auth_data == att.auth_data && m.sig == att.auth_data_sig) else {
        violate("not what the device attested", format!("the security key did not attest {} in this call", hex(&att.auth_data)))
    };
    ensure!(m.honest, "rogue attestation accepted", "a rogue device's enrolment was accepted, format {}", m.fmt);
    ensure!(m.rp == app, "other application", "the credential was made for {:?}, asked for was {:?}", m.rp, app);
    ensure!(m.algs == [-8], "other algorithms", "the security key was asked for {:?}", m.algs);
    ensure!(tbs_of(&att.intermediate) == tbs_of(&m.cert), "other certificate", "the certificate is not the one the security key sent");
    ensure!(att.alg as i64 == m.alg, "other algorithm", "attestation algorithm {} reported as {}", m.alg, att.alg);
    ensure!(att.challenge == m.cdh, "other challenge", "the challenge in the result ({}) is not what the security key signed ({})", hex(&att.challenge), hex(&m.cdh));
    let rs = rand_state();
    ensure!(
        rs.main32.iter().any(|x| *x == att.challenge || sha256(x) == att.challenge) || rs.served.windows(32).any(|x| x == &att.challenge[..] || sha256(x) == att.challenge),
        "challenge not fresh",
        "the challenge {} was not drawn from the random source in this call",
        hex(&att.challenge)
    );
    ensure!(!past.contains(&att.challenge), "challenge repeated", "the challenge {} was used before", hex(&att.challenge));
    past.push(att.challenge.clone());
    ensure!(lib("verify", || att.verify()).is_ok(), "attestation does not verify", "the attestation in the result does not verify");
    let p = &key.private_key;
    let PrivateKeyKind::Ed25519Sk(sk) = &p.kind else { violate("wrong key kind", "not an Ed25519Sk key".to_string()) };
    ensure!(sk.handle == m.cred.handle, "wrong handle", "handle {} made, {} returned", hex(&m.cred.handle), hex(&sk.handle));
    // backup and reserved bits may be left out
    ensure!(sk.flags == m.flags || sk.flags == m.flags & 0xc5, "wrong flags", "flags {:#x} attested, {:#x} returned", m.flags, sk.flags);
    ensure!(sk.pin == pin, "wrong PIN", "PIN {:?} given, {:?} stored", pin, sk.pin);
    ensure!(sk.device_path == path, "wrong device path", "device path {:?} given, {:?} stored", path, sk.device_path);
    ensure!(p.comment == comment, "wrong comment", "comment {:?} given, {:?} stored", comment, p.comment);
    let pk = m.cred.key.pk.with_app(&app);
    let blob = lib("PublicKey::encode", || p.pubkey.encode()).to_vec();
    ensure!(blob == pk.blob(), "wrong public key", "public key {} returned for credential {}", hex(&blob), hex(&pk.blob()));
    ensure!(p.key_type.name == pk.name(), "wrong key type", "key type {} returned for {}", p.key_type.name, pk.name());
    c.end();
    Some(Key { pk, app, handle: m.cred.handle.clone(), priv_: key.private_key, pin })
}
fn sign(c: &mut Ctx, k: u64, key: &mut Key) {
    c.begin("sign");
    let set = if c.chance(1, 2) { gen_path(c) } else { None };
    if let Some(p) = &set {
        lib("set_device_path", || key.priv_.set_device_path(p));
    }
    let path = match &key.priv_.kind {
        PrivateKeyKind::Ed25519Sk(x) => x.device_path.clone(),
        PrivateKeyKind::EcdsaSk(x) => x.device_path.clone(),
        _ => None,
    };
    ensure!(set.is_none() || set == path, "device path not set", "set {set:?}, stored {path:?}");
    let dev = target(&path);
    let data = gen_bytes(c, 3000);
    arm(c, k, "PrivateKey::sign");
    let quiet = calm();
    let t0 = tries();
    let rp = sha256(key.app.as_bytes());
    let good = dev.is_some_and(|d| {
        let d = &hid::w().devs[d];
        let t = &d.token;
        let auth = match &key.pin {
            Some(p) => pin_good(t, p),
            None => !t.always_uv,
        };
        t.ctap2 && t.creds.iter().any(|x| x.handle == key.handle && x.rp == rp) && auth && d.user.touches
    });
    let rogue = dev.is_some_and(|d| hid::w().devs[d].token.rogue != Rogue::default());
    let must = good && quiet && !rogue;
    ev!("sign {} bytes with {} at {path:?} (can succeed: {good}, must: {must})", data.len(), key.pk.name());
    let r = lib("PrivateKey::sign", || key.priv_.sign(&data));
    let c = cx();
    ev!("  [t={}us] sign -> {}", c.now_ns / 1000, if r.is_some() { "signature" } else { "none" });
    after("PrivateKey::sign", dev, &t0);
    match r {
        None => {
            c.stat("op.none");
            ensure!(!must || hid::w().disturbed, "healthy key, no signature", "sign returned None although the security key it was to use held the credential and was touched");
        }
        Some(sig) => {
            c.stat("op.signature");
            ensure!(good || hid::w().disturbed, "signature out of nothing", "a signature was returned although the device did not hold the credential, or was not unlocked and touched");
            let a = hid::w().devs.iter().enumerate().filter(|(i, _)| dev == Some(*i) || hid::w().disturbed).flat_map(|(_, d)| d.token.asserted.iter().map(move |a| (a, d.token.rogue != Rogue::default()))).find(|(a, _)| a.call == k && a.up && encode(&key.pk, a).as_deref() == Some(&sig[..]));
            let Some((a, rogue)) = a else { violate("not what the device returned", format!("sign returned {} but the security key made no such assertion in this call", hex(&sig))) };
            ensure!(a.cdh == sha256(&data), "wrong data signed", "the security key was asked to sign the hash {}", hex(&a.cdh));
            ensure!(a.handle == key.handle, "wrong credential", "the security key was asked for credential {}", hex(&a.handle));
            ensure!(rogue || ambiguous(&key.handle, &key.app, &key.pk) || verify(&key.pk, &data, &sig).is_some(), "signature does not verify", "sign returned {} which does not verify for the data under the key", hex(&sig));
        }
    }
    c.end();
}
pub fn run() {
    let c = cx();
    sched::start();
    let mut keys = setup(c);
    let n = [1u64, 2, 3, 6][c.pick(4)];
    let mut past = vec![];
    for k in 1..=n {
        let c = cx();
        match c.pick(6) {
            0 => list(c),
            1 => ask(c, k),
            2 | 3 if !keys.is_empty() => {
                let i = if c.chance(1, 2) { keys.len() - 1 } else { c.pick(keys.len()) };
                sign(c, k, &mut keys[i]);
            }
            _ => {
                if let Some(x) = generate(c, k, &mut past) {
                    keys.push(x);
                }
            }
        }
        let c = cx();
        c.now_ns += c.draw(5000) * hid::MS;
        if hid::w().devs.is_empty() {
            continue;
        }
        let d = c.pick(hid::w().devs.len());
        match c.pick(12) {
            0 => hid::unplug(d),
            1 => hid::plug(d),
            2 => {
                let on = c.chance(1, 2);
                hid::w().devs[d].user.touches = on;
            }
            _ => {}
        }
    }
    sched::stop();
}

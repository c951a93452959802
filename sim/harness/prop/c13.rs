//! C13: FIDO enrolment attestations.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::model::x509::*;
use crate::seam::sched;
use crate::{ensure, ev};
use sshcerts::fido::verification::*;

pub const INFO: Info = Info {
    quick_runs: 200000,
    quick_s: 55,
    thorough_runs: 5_000_000,
    rule: "Runs are histories of enrolments: vendors (roots of every supported signature type, including the built-in Yubico root with recorded attestations), genuine and rogue authenticators, a relying party issuing challenges, and a channel that replays, splices, swaps, truncates, extends and corrupts what it carries.",
    real: &["sshcerts::fido::{verification,parsing}", "x509-parser, ring, minicbor"],
    stub: &["vendor root and attestation CAs", "authenticators", "channel"],
    assumptions: &["the signature schemes are unforgeable: a delivery may be accepted only if its signed parts were really signed in the history", "outer, unsigned encoding details of a certificate are not judged"],
};

const FIX: [(&[u8], &[u8], &[u8], &[u8]); 2] = [
    (
        include_bytes!("../fixtures/yubikey_bio_auth_data_ed25519.bin"),
        include_bytes!("../fixtures/yubikey_bio_auth_sig_ed25519.bin"),
        include_bytes!("../fixtures/yubikey_bio_challenge_ed25519.bin"),
        include_bytes!("../fixtures/yubikey_bio_intermediate.bin"),
    ),
    (
        include_bytes!("../fixtures/yubikey_5c_nfc_auth_data_ed25519.bin"),
        include_bytes!("../fixtures/yubikey_5c_nfc_auth_sig_ed25519.bin"),
        include_bytes!("../fixtures/yubikey_5c_nfc_challenge_ed25519.bin"),
        include_bytes!("../fixtures/yubikey_5c_nfc_intermediate.bin"),
    ),
];

#[derive(Clone)]
struct Root {
    key: Option<MKey>, // None: the built-in Yubico root
    h: usize,
    pem: Option<String>,
    der: Vec<u8>,
    spki: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Facts {
    rpid: Vec<u8>,
    flags: u8,
    ctr: u32,
    aaguid: Vec<u8>,
    cred: Vec<u8>,
    key: Option<MPub>,
}
#[derive(Clone)]
struct Att {
    root: usize,
    tbs: Vec<u8>,
    cert: Vec<u8>,
    firmware: Option<String>,
    caaguid: Option<Vec<u8>>,
    transports: Option<Vec<u8>>,
    /// extensions were malformed on purpose: only header facts are judged
    odd_ext: bool,
}
#[derive(Clone)]
struct Enrol {
    att: usize,
    data: Vec<u8>,
    chal: Vec<u8>,
    sig: Vec<u8>,
    facts: Facts,
    genuine: bool,
    /// structurally impossible to read completely
    must_err: bool,
}
fn header(d: &[u8]) -> Option<Facts> {
    let n = u16::from_be_bytes([*d.get(53)?, *d.get(54)?]) as usize;
    Some(Facts { rpid: d[..32].to_vec(), flags: d[32], ctr: u32::from_be_bytes(d[33..37].try_into().unwrap()), aaguid: d[37..53].to_vec(), cred: d.get(55..55 + n)?.to_vec(), key: None })
}
fn gen_root(c: &mut Ctx, roots: &[Root]) -> Root {
    if roots.is_empty() && c.chance(1, 4) {
        return Root { key: None, h: 0, pem: None, der: vec![], spki: vec![] };
    }
    let key = gen_key(c, &SOFT_KK, true);
    let h = c.pick(2);
    let cn = format!("Sim U2F Root {}", gen_token(c, 1, 6));
    let mut p = c.stream();
    let (der, _) = MX { serial: vec![1, 2], issuer: cn.clone(), subject: cn, key: key.pk.clone(), exts: vec![], ca: true }.mint(&key, h, &mut p);
    Root { spki: spki(&key.pk), pem: Some(pem(&der)), der, key: Some(key), h }
}
fn gen_att(c: &mut Ctx, ri: usize, r: &Root, key: &MKey) -> Att {
    let mut exts: Vec<(String, Vec<u8>)> = vec![];
    let mut a = Att { root: ri, tbs: vec![], cert: vec![], firmware: None, caaguid: None, transports: None, odd_ext: false };
    if c.chance(3, 4) {
        let v = [c.draw(256) as u8, c.draw(256) as u8, c.draw(256) as u8];
        a.firmware = Some(format!("{}.{}.{}", v[0], v[1], v[2]));
        exts.push(("1.3.6.1.4.1.41482.13.1".into(), octet(&v)));
    }
    if c.chance(3, 4) {
        let v = c.stream().bytes(16);
        exts.push(("1.3.6.1.4.1.45724.1.1.4".into(), octet(&v)));
        a.caaguid = Some(v);
    }
    if c.chance(3, 4) {
        // named bit list: trailing zero bits dropped
        let v = c.draw(32) as u8;
        let mut t = vec![];
        let mut byte = 0u8;
        for i in 0..5 {
            if v & (1 << i) != 0 {
                t.push(i);
                byte |= 0x80 >> i;
            }
        }
        let ext = if byte == 0 { vec![3, 1, 0] } else { vec![3, 2, byte.trailing_zeros() as u8, byte] };
        exts.push(("1.3.6.1.4.1.45724.2.1.1".into(), ext));
        a.transports = Some(t);
    }
    if c.chance(1, 2) {
        exts.push(("1.3.6.1.4.1.41482.2".into(), b"1.3.6.1.4.1.41482.1.9".to_vec()));
    }
    if c.chance(1, 8) {
        // a vendor that writes nonsense into an extension
        a.odd_ext = true;
        let o = ["1.3.6.1.4.1.41482.13.1", "1.3.6.1.4.1.45724.1.1.4", "1.3.6.1.4.1.45724.2.1.1"][c.pick(3)];
        exts.retain(|e| e.0 != o);
        let v = match c.pick(6) {
            0 => vec![],
            1 => octet(&gen_bytes(c, 40)),
            2 => vec![3, 0x82, 0xff, 0xff, 1],
            3 => gen_bytes(c, 40),
            4 => vec![3, 2, 9, 0xff],
            _ => vec![4, 0x84, 0xff, 0xff, 0xff, 0xff],
        };
        exts.push((o.into(), v));
    }
    let mut p = c.stream();
    for i in (1..exts.len()).rev() {
        exts.swap(i, p.below(i as u64 + 1) as usize);
    }
    let mx = MX { serial: p.bytes(8), issuer: "Sim U2F Root".into(), subject: "Sim U2F EE".into(), key: key.pk.clone(), exts, ca: false };
    let (cert, tbs) = mx.mint(r.key.as_ref().unwrap(), r.h, &mut p);
    a.cert = cert;
    a.tbs = tbs;
    a
}
fn gen_data(c: &mut Ctx, app: &str, cred_key: &MPub) -> (Vec<u8>, Facts, bool, bool) {
    let mut flags = [0x41u8, 0x45, 0x40, 0x44, 0xc1, 0xc5, 0x4d][c.pick(7)];
    let ctr = gen_u64(c) as u32;
    let aaguid = c.stream().bytes(16);
    let n = [64usize, 16, 0, 1, 128, 255, 256, 1023][c.pick(8)];
    let cred = c.stream().bytes(n);
    let rogue = c.chance(1, 6);
    let how = if rogue { 1 + c.pick(9) } else { 0 };
    if how == 1 {
        flags &= !0x40;
    }
    let mut pairs = cose_pairs(cred_key);
    let mut d = sha256(app.as_bytes());
    d.push(flags);
    d.extend(ctr.to_be_bytes());
    d.extend(&aaguid);
    let mut must_err = false;
    d.extend((n as u16).to_be_bytes());
    d.extend(&cred);
    match how {
        1 => must_err = true,
        2 => {
            let k = c.pick(pairs.len());
            pairs.remove(k);
        }
        3 => {
            let mut p = c.stream();
            for i in (1..pairs.len()).rev() {
                pairs.swap(i, p.below(i as u64 + 1) as usize);
            }
        }
        4 => {
            let k = c.pick(pairs.len());
            pairs[k].1 = [ctext("x"), cbytes(b"abc"), cint(1 << 33), vec![0xf7], vec![0x9f], vec![0xfb, 0, 0, 0, 0, 0, 0, 0, 0]][c.pick(6)].clone();
        }
        5 => {
            let x = (cint([-4, 2, 4, 99, -70000][c.pick(5)]), [cint(1), vec![0xf7], cbytes(b"q")][c.pick(3)].clone());
            pairs.push(x);
        }
        _ => (),
    }
    let mut cose = cmap(&pairs);
    if how == 6 {
        cose[0] = 0xbf;
        cose.push(0xff);
    }
    if how == 7 {
        cose[0] = 0xbb;
        let mut v = cose[0..1].to_vec();
        v.extend([0xff; 8]);
        v.extend(&cose[1..]);
        cose = v;
        must_err = true;
    }
    d.extend(&cose);
    if flags & 0x80 != 0 {
        d.extend(cmap(&[(ctext("credProtect"), cint(2))]));
    }
    if how >= 8 {
        let k = c.pick(d.len());
        d.truncate(k);
        // the key cannot be complete unless only extension data was lost
        must_err = k < 55 + n + cose.len();
    }
    let f = Facts { rpid: sha256(app.as_bytes()), flags, ctr, aaguid, cred, key: if how == 0 || how == 3 { Some(cred_key.clone()) } else { None } };
    (d, f, how == 0, must_err)
}
fn tr(t: &Transport) -> u8 {
    t.clone() as u8
}
/// Everything that came out is exactly what was attested.
fn judge(v: &ValidAttestation, e: &Enrol, a: &Att, app: &str) {
    let (d, f) = (&v.auth_data, &e.facts);
    ensure!(d.rpid_hash == f.rpid, "relying party hash altered", "{} instead of {}", hex(&d.rpid_hash), hex(&f.rpid));
    ensure!(d.flags == f.flags, "flags altered", "{:#x} instead of {:#x}", d.flags, f.flags);
    ensure!(d.user_presence() == (f.flags & 1 != 0) && d.user_verification() == (f.flags & 4 != 0), "presence or verification misreported", "flags {:#x}", f.flags);
    ensure!(d.sign_count == f.ctr, "counter altered", "{} instead of {}", d.sign_count, f.ctr);
    ensure!(d.aaguid == f.aaguid, "AAGUID altered", "{} instead of {}", hex(&d.aaguid), hex(&f.aaguid));
    ensure!(d.credential_id == f.cred, "credential id altered", "{} instead of {}", hex(&d.credential_id), hex(&f.cred));
    if let Some(k) = &f.key {
        let (kt, alg, par, raw) = match k {
            MPub::Ecdsa { point, .. } => (2, -7, "1", point.clone()),
            MPub::Ed25519 { key, .. } => (1, -8, "6", key.clone()),
            _ => unreachable!(),
        };
        ensure!(d.cose_key.key_type == kt && d.cose_key.algorithm == alg, "COSE key type altered", "{:?}", d.cose_key);
        ensure!(d.cose_key.key == raw, "credential public key altered", "{} instead of {}", hex(&d.cose_key.key), hex(&raw));
        ensure!(d.cose_key.parameters.get(&-1).map(|s| s.as_str()) == Some(par), "COSE curve altered", "{:?}", d.cose_key.parameters);
        match lib("ssh_public_key", || d.ssh_public_key(app)) {
            Ok(p) => {
                ensure!(pub_matches(&p, &k.with_app(app)), "SSH public key is not the attested one", "{p:?}");
                ensure!(p.encode() == k.with_app(app).blob(), "SSH public key encodes differently", "{}", hex(&p.encode()));
            }
            Err(e) => violate("no SSH key for an attested credential", e.to_string()),
        }
    } else {
        // rogue data: no panic, whatever it is
        let _ = lib("ssh_public_key", || d.ssh_public_key(app).map(|_| ()));
    }
    if !a.odd_ext {
        ensure!(v.firmware == a.firmware, "firmware altered", "{:?} instead of {:?}", v.firmware, a.firmware);
        ensure!(v.aaguid == a.caaguid, "certificate AAGUID altered", "{:?} instead of {:?}", v.aaguid, a.caaguid);
        let t = v.transports.as_ref().map(|t| t.iter().map(tr).collect::<Vec<u8>>());
        ensure!(t == a.transports, "transports altered", "{:?} instead of {:?}", t, a.transports);
    }
}

/// Several threads of a relying party verify enrolments at the same time, some of them replayed or mixed up.
fn crowd(c: &mut Ctx, roots: &[Root], atts: &[Att], att_key: &[Option<usize>], keys: &[MKey], hist: &[Enrol], app: &str) {
    c.begin("concurrent_verify");
    let n = 2 + c.pick(3);
    let key = |i: usize| att_key[i].map(|k| &keys[k].pk);
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|t| -> Box<dyn FnOnce() + Send> {
            let todo: Vec<(usize, usize, usize)> = (0..1 + c.pick(3)).map(|_| (c.pick(hist.len()), c.pick(hist.len()), c.pick(6))).collect();
            Box::new(move || {
                for (ei, oi, kind) in todo {
                    let (e, o) = (&hist[ei], &hist[oi]);
                    let a = &atts[e.att];
                    let (mut data, mut sig, mut chal) = (&e.data, &e.sig, &e.chal);
                    match kind {
                        3 => chal = &o.chal,
                        4 => data = &o.data,
                        5 => sig = &o.sig,
                        _ => (),
                    }
                    let r = lib("verify_auth_data", || verify_auth_data(data, sig, chal, -7, &a.cert, roots[a.root].pem.as_deref()));
                    ev!("  thread {t}: enrolment {ei}/{oi} kind {kind}: {}", r.is_ok());
                    match r {
                        Ok(v) => {
                            let m = hist.iter().find(|h| h.data == *data && h.chal == *chal && (h.att == e.att || (key(h.att).is_some() && key(h.att) == key(e.att))));
                            let Some(m) = m else { violate("data or challenge never signed by the attestation key accepted", format!("in thread {t} of {n}, kind {kind}")) };
                            ensure!(!m.must_err, "incomplete authenticator data accepted", "in thread {t} of {n}: {}", hex(data));
                            judge(&v, m, a, app);
                        }
                        Err(err) => ensure!(kind > 2 || !e.genuine, "genuine attestation refused", "{err} in thread {t} of {n}"),
                    }
                }
            })
        })
        .collect();
    c.stat("attack.concurrent_replays");
    super::c14::warm_up();
    sched::race("verifying attestations", jobs);
    c.end();
}

pub fn run() {
    let c = cx();
    let mut roots: Vec<Root> = vec![];
    let mut keys: Vec<MKey> = vec![]; // attestation keys
    let mut atts: Vec<Att> = vec![];
    let mut att_key: Vec<Option<usize>> = vec![];
    let mut hist: Vec<Enrol> = vec![];
    let app = gen_app(c);
    for _ in 0..1 + c.pick(2) {
        let r = gen_root(c, &roots);
        roots.push(r);
    }
    if roots.iter().all(|r| r.key.is_none()) || c.chance(1, 3) {
        let r = gen_root(c, &[roots[0].clone()]);
        roots.push(r);
    }
    if roots.iter().any(|r| r.key.is_none()) {
        for (i, f) in FIX.iter().enumerate() {
            let (fw, tp) = if i == 0 { (Some("5.5.6".to_string()), vec![2u8]) } else { (None, vec![2, 3]) };
            let h = header(f.0).unwrap();
            let n = f.0.len();
            atts.push(Att { root: 0, tbs: tbs_of(f.3).unwrap().to_vec(), cert: f.3.to_vec(), firmware: fw, caaguid: Some(h.aaguid.clone()), transports: Some(tp), odd_ext: false });
            att_key.push(None);
            let key = MPub::Ed25519 { key: f.0[n - 32..].to_vec(), app: None };
            hist.push(Enrol { att: i, data: f.0.to_vec(), chal: sha256(f.2), sig: f.1.to_vec(), facts: Facts { key: Some(key), ..h }, genuine: true, must_err: false });
        }
    }
    for _ in 0..1 + c.pick(3) {
        let k = gen_key_kind(c, KK::P256, false);
        keys.push(k);
        let ri = c.pick(roots.len());
        if roots[ri].key.is_none() {
            continue;
        }
        let r = roots[ri].clone();
        let ki = keys.len() - 1;
        let a = gen_att(c, ri, &r, &keys[ki]);
        atts.push(a);
        att_key.push(Some(ki));
    }
    if atts.is_empty() || att_key.iter().all(|x| x.is_none()) {
        let ri = roots.iter().position(|r| r.key.is_some()).unwrap();
        let r = roots[ri].clone();
        let a = gen_att(c, ri, &r, &keys[0]);
        atts.push(a);
        att_key.push(Some(0));
    }
    let alive: Vec<usize> = (0..atts.len()).filter(|i| att_key[*i].is_some()).collect();
    let n = c.range(2, 8);
    for _ in 0..n {
        gen_clock(c);
        // an authenticator enrols
        if hist.is_empty() || c.chance(1, 2) {
            c.begin("enrol");
            let ai = alive[c.pick(alive.len())];
            let kk = [KK::Ed, KK::P256][c.pick(2)];
            let ck = gen_key_kind(c, kk, false).pk;
            let a2 = if c.chance(1, 6) { gen_app(c) } else { app.clone() };
            let (data, facts, genuine, must_err) = gen_data(c, &a2, &ck);
            let chal = if !hist.is_empty() && c.chance(1, 8) { hist[c.pick(hist.len())].chal.clone() } else {
                let n = if c.chance(1, 4) { [0usize, 1, 16, 31, 33, 64, 200][c.pick(7)] } else { 32 };
                c.stream().bytes(n)
            };
            let mut p = c.stream();
            let k = &keys[att_key[ai].unwrap()];
            let (r, s) = ecdsa_rs(k, &sha256(&[&data[..], &chal].concat()), &mut p, [EcShape::Normal, EcShape::HighRS, EcShape::ShortR, EcShape::ShortS, EcShape::TinyR][c.pick(5)]);
            ev!("enrol: attestation {ai} of root {} data {} bytes flags {:#x} genuine {genuine}", atts[ai].root, data.len(), facts.flags);
            hist.push(Enrol { att: ai, data, chal, sig: der_sig(&r, &s), facts, genuine: genuine && !atts[ai].odd_ext, must_err });
            c.end();
        }
        if c.chance(1, 10) {
            crowd(c, &roots, &atts, &att_key, &keys, &hist, &app);
            continue;
        }
        // the relying party verifies what the channel delivers
        c.begin("verify");
        let ei = c.pick(hist.len());
        let e = hist[ei].clone();
        let a = atts[e.att].clone();
        let (mut data, mut sig, mut chal, mut cert, mut alg) = (e.data.clone(), e.sig.clone(), e.chal.clone(), a.cert.clone(), -7);
        let mut ri = a.root;
        let mut rpem = roots[ri].pem.clone();
        let o = hist[c.pick(hist.len())].clone();
        let mut forged = false;
        let what = match c.pick(20) {
            0..=5 => "intact".to_string(),
            6 => {
                chal = if c.chance(1, 2) { c.stream().bytes(32) } else { o.chal.clone() };
                "replay under another challenge".into()
            }
            7 => {
                data = o.data.clone();
                "authenticator data of another enrolment".into()
            }
            8 => {
                sig = o.sig.clone();
                "signature of another enrolment".into()
            }
            9 => {
                cert = atts[c.pick(atts.len())].cert.clone();
                "another attestation certificate".into()
            }
            10 => {
                ri = c.pick(roots.len());
                rpem = roots[ri].pem.clone();
                "checked against another root".into()
            }
            11 => {
                // a rogue with its own attestation key and root, or self-signed
                forged = true;
                let k = gen_key_kind(c, KK::P256, false);
                let mut p = c.stream();
                let rk = if c.chance(1, 2) { k.clone() } else { gen_key(c, &SOFT_KK, true) };
                let names = [("Sim U2F Root", "Sim U2F EE"), ("Sim U2F Root", "Sim U2F Root"), ("Sim U2F EE", "Sim U2F EE"), ("", "")][c.pick(4)];
                let mx = MX { serial: vec![7], issuer: names.0.into(), subject: names.1.into(), key: k.pk.clone(), exts: vec![], ca: c.chance(1, 2) };
                if roots[ri].key.as_ref().map(|x| &x.pk) != Some(&rk.pk) {
                    cert = mx.mint(&rk, 0, &mut p).0;
                    let (r, s) = ecdsa_rs(&k, &sha256(&[&data[..], &chal].concat()), &mut p, EcShape::Normal);
                    sig = der_sig(&r, &s);
                }
                "rogue attestation certificate".into()
            }
            12 => {
                // genuine certificate, its signature value swapped onto altered contents
                forged = true;
                let k = gen_key_kind(c, KK::P256, false);
                let mut p = c.stream();
                let old = spki(&keys.first().map(|k| k.pk.clone()).unwrap_or(k.pk.clone()));
                let new = spki(&k.pk);
                if let Some(i) = (0..cert.len().saturating_sub(old.len())).find(|i| cert[*i..*i + old.len()] == old[..]) {
                    cert[i..i + new.len()].copy_from_slice(&new);
                }
                let (r, s) = ecdsa_rs(&k, &sha256(&[&data[..], &chal].concat()), &mut p, EcShape::Normal);
                sig = der_sig(&r, &s);
                "attestation key replaced inside a genuine certificate".into()
            }
            13 => {
                // another key signs for a genuine certificate
                let mut p = c.stream();
                let k = &keys[c.pick(keys.len())];
                let good = att_key[e.att].map(|i| keys[i].pk == k.pk).unwrap_or(false);
                let (r, s) = ecdsa_rs(k, &sha256(&[&data[..], &chal].concat()), &mut p, EcShape::Normal);
                sig = der_sig(&r, &s);
                forged = !good;
                "signed by another attestation key".into()
            }
            14 => {
                alg = [-8, -257, 0, -35, 7, i32::MIN][c.pick(6)];
                format!("declared algorithm {alg}")
            }
            15 => format!("authenticator data: {}", damage(c, &mut data, Some(&o.data))),
            16 => format!("signature: {}", damage(c, &mut sig, Some(&o.sig))),
            17 => {
                let s = format!("challenge: {}", damage(c, &mut chal, None));
                s
            }
            18 => {
                let oc = atts[o.att].cert.clone();
                format!("certificate: {}", damage(c, &mut cert, Some(&oc)))
            }
            _ => match &rpem {
                Some(p) => {
                    let mut b = p.clone().into_bytes();
                    let s = format!("root: {}", damage(c, &mut b, None));
                    rpem = Some(String::from_utf8_lossy(&b).into_owned());
                    s
                }
                None => {
                    rpem = Some(["", "not a certificate", "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"][c.pick(4)].into());
                    "unreadable root".into()
                }
            },
        };
        let kind = what.split([':', '(']).next().unwrap_or("").to_string();
        if kind != "intact" {
            c.stat(&format!("attack.{}", kind.split(" algorithm").next().unwrap()));
            c.shape_add(&kind);
        }
        let r = lib("verify_auth_data", || verify_auth_data(&data, &sig, &chal, alg, &cert, rpem.as_deref()));
        ev!("verify enrolment {ei} ({what}) -> {}", match &r {
            Ok(_) => "accepted".into(),
            Err(e) => e.to_string(),
        });
        match r {
            Ok(v) => {
                ensure!(alg == -7, "unsupported algorithm accepted", "{alg}");
                // which root was really presented?
                let rsp: Vec<usize> = if what == "unreadable root" { vec![] } else { vec![ri] };
                let t = tbs_of(&cert).unwrap_or(&[]);
                let ok_att = |i: usize| {
                    atts[i].tbs == t && roots.iter().enumerate().any(|(k, r)| rsp.contains(&k) && (k == atts[i].root || (r.key.is_some() && r.spki == roots[atts[i].root].spki)))
                };
                let cand: Vec<usize> = (0..atts.len()).filter(|i| ok_att(*i)).collect();
                ensure!(!cand.is_empty(), "attestation certificate not signed by the given root accepted", "{what}");
                let m = hist.iter().find(|h| {
                    let same_key = cand.iter().any(|a| *a == h.att || (att_key[*a].is_some() && att_key[*a].map(|i| &keys[i].pk) == att_key[h.att].map(|i| &keys[i].pk)));
                    h.data == data && h.chal == chal && same_key
                });
                let Some(m) = m else { violate("data or challenge never signed by the attestation key accepted", what) };
                let _ = forged;
                ensure!(!m.must_err, "incomplete authenticator data accepted", "{what}: {}", hex(&data));
                judge(&v, m, &atts[cand[0]], &app);
                if what != "intact" {
                    c.probe("harmless_change_accepted");
                }
            }
            Err(err) => {
                if what == "intact" && e.genuine {
                    violate("genuine attestation refused", format!("{err}: root {:?} h {} data {}", roots[ri].key.as_ref().map(|k| k.pk.name()), roots[ri].h, hex(&data)));
                }
            }
        }
        c.end();
    }
}

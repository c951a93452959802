//! C14: PIV attestation chains.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::model::x509::*;
use crate::seam::sched;
use crate::{ensure, ev};
use sshcerts::yubikey::verification::*;

pub const INFO: Info = Info {
    quick_runs: 200000,
    quick_s: 55,
    thorough_runs: 5_000_000,
    rule: "Runs are histories of PIV enrolments: vendors (roots of every supported signature type and the built-in Yubico root with a recorded chain), devices with their intermediate, attested slot keys, and a channel that replays, swaps, splices, promotes, truncates, extends and corrupts certificates.",
    real: &["sshcerts::yubikey::verification", "sshcerts::x509", "x509-parser, ring"],
    stub: &["vendor root, device intermediates and slots", "channel"],
    assumptions: &["the signature schemes are unforgeable: a chain may be accepted only if its signed parts were really signed in the history", "outer, unsigned encoding details of a certificate are not judged"],
};

struct Root {
    key: Option<MKey>,
    h: usize,
    pem: Option<String>,
    der: Vec<u8>,
}
#[derive(Clone)]
struct Inter {
    root: usize,
    key: Option<MKey>,
    h: usize,
    cert: Vec<u8>,
    tbs: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Facts {
    key: MPub,
    firmware: String,
    serial: u64,
    pin: u8,
    touch: u8,
}
#[derive(Clone)]
struct Leaf {
    inter: usize,
    cert: Vec<u8>,
    tbs: Vec<u8>,
    key: MPub,
    /// None: not a complete attestation
    facts: Option<Facts>,
    /// may go either way (unusual but readable)
    loose: bool,
}
const FIX_LEAF: &[u8] = include_bytes!("../fixtures/yubikey_5ci_attestation.bin");
const FIX_INTER: &[u8] = include_bytes!("../fixtures/yubikey_5ci_intermediate.bin");

fn gen_leaf(c: &mut Ctx, ii: usize, ik: &MKey, h: usize) -> Leaf {
    let kk = [KK::P256, KK::P384, KK::P256, KK::P384, KK::Rsa, KK::P521, KK::Ed][c.pick(7)];
    let key = gen_key_kind(c, kk, false).pk;
    let mut supported = matches!(kk, KK::P256 | KK::P384);
    let fw = [c.draw(256) as u8, c.draw(256) as u8, c.draw(256) as u8];
    let serial = match c.pick(4) {
        0 => 1 + c.draw(1 << 24),
        1 => [0u64, 1, 127, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 11778047][c.pick(10)],
        2 => c.draw(1 << 32),
        _ => c.stream().next() >> (1 + c.pick(40)),
    };
    let (pin, touch) = (c.draw(256) as u8, c.draw(256) as u8);
    let mut exts = vec![
        ("1.3.6.1.4.1.41482.3.3".to_string(), fw.to_vec()),
        ("1.3.6.1.4.1.41482.3.7".to_string(), int(&serial.to_be_bytes())),
        ("1.3.6.1.4.1.41482.3.8".to_string(), vec![pin, touch]),
        ("1.3.6.1.4.1.41482.3.9".to_string(), vec![1]),
    ];
    let mut loose = false;
    if c.chance(1, 4) {
        // a device that leaves out or garbles an extension
        let k = c.pick(3);
        match c.pick(3) {
            0 => {
                exts.remove(k);
            }
            1 => {
                // wrong length
                let n = [0usize, 1, 4, 5, 12][c.pick(5)];
                let b = c.stream().bytes(n);
                exts[k].1 = if k == 1 { tlv(2, &[&[1u8; 9][..], &b].concat()) } else { b };
            }
            _ => {
                exts[k].1 = [vec![], vec![2, 0x82, 0xff, 0xff], vec![0xff; 1], vec![4, 1, 9, 9, 9]][c.pick(4)].clone();
            }
        }
        // firmware and policy are raw bytes: a value of the right length is a value
        if (k == 0 && exts.iter().any(|e| e.0.ends_with("3.3") && e.1.len() == 3)) || (k == 2 && exts.iter().any(|e| e.0.ends_with("3.8") && e.1.len() == 2)) {
            loose = true;
        }
        supported = false;
    }
    let mut p = c.stream();
    for i in (1..exts.len()).rev() {
        exts.swap(i, p.below(i as u64 + 1) as usize);
    }
    let n = 1 + c.pick(20);
    let sn = p.bytes(n);
    let mx = MX { serial: sn, issuer: "Sim PIV Attestation".into(), subject: "YubiKey PIV Attestation 9a".into(), key: key.clone(), exts, ca: false };
    let (cert, tbs) = mx.mint(ik, h, &mut p);
    let facts = if supported { Some(Facts { key: key.clone(), firmware: format!("{}.{}.{}", fw[0], fw[1], fw[2]), serial, pin, touch }) } else { None };
    Leaf { inter: ii, cert, tbs, key, facts, loose }
}

fn facts(v: &ValidPIVKey, f: &Facts) {
    ensure!(pub_matches(&v.public_key, &f.key), "reported key is not the attested one", "{:?}", v.public_key);
    ensure!(v.public_key.encode() == f.key.blob(), "reported key encodes differently", "{}", hex(&v.public_key.encode()));
    ensure!(v.serial == f.serial, "serial altered", "{} instead of {}", v.serial, f.serial);
    ensure!(v.firmware == f.firmware, "firmware altered", "{} instead of {}", v.firmware, f.firmware);
    ensure!(v.pin_policy == f.pin, "PIN policy altered", "{} instead of {}", v.pin_policy, f.pin);
    ensure!(v.touch_policy == f.touch, "touch policy altered", "{} instead of {}", v.touch_policy, f.touch);
}
/// The key in a certificate, a request or a bare public key, intact or damaged on its way.
fn extract(c: &mut Ctx) {
    use sshcerts::x509::*;
    c.begin("extract_key");
    let kk = [KK::P256, KK::P384, KK::P256, KK::P384, KK::Rsa, KK::P521, KK::Ed][c.pick(7)];
    let key = gen_key_kind(c, kk, true);
    let supported = matches!(kk, KK::P256 | KK::P384);
    let mut p = c.stream();
    let way = c.pick(3);
    let cn = gen_string(c, 40);
    let mut der = match way {
        0 => MX { serial: vec![7], issuer: cn.clone(), subject: cn, key: key.pk.clone(), exts: vec![], ca: false }.mint(&key, 0, &mut p).0,
        1 => {
            let info = seq(&[int(&[0]), name(&cn), spki(&key.pk), tlv(0xa0, &[])]);
            let (alg, sig) = ca_sign(&key, &info, 0, &mut p);
            seq(&[info, alg, bits(&sig)])
        }
        _ => spki(&key.pk),
    };
    let what = if c.chance(1, 2) {
        c.fault("channel_damage");
        damage(c, &mut der, None)
    } else {
        "intact".into()
    };
    let how = ["extract_ssh_pubkey_from_x509_certificate", "extract_ssh_pubkey_from_x509_csr", "der_encoding_to_ssh_public_key"][way];
    let r = lib(how, || match way {
        0 => extract_ssh_pubkey_from_x509_certificate(&der),
        1 => extract_ssh_pubkey_from_x509_csr(&der),
        _ => der_encoding_to_ssh_public_key(&der),
    });
    ev!("{how} of {} ({what}) -> {}", key.pk.name(), if r.is_ok() { "key" } else { "error" });
    match r {
        Ok(k) if what == "intact" => {
            ensure!(supported, "key of an unsupported type reported", "{how}: {} as {}", key.pk.name(), k.key_type.name);
            ensure!(pub_matches(&k, &key.pk) && k.encode() == key.pk.blob(), "reported key is not the one encoded", "{how}: {} as {}", key.pk.name(), hex(&k.encode()));
        }
        Ok(k) => {
            if let sshcerts::ssh::PublicKeyKind::Ecdsa(e) = &k.kind {
                ensure!(e.key.is_empty() || der.windows(e.key.len()).any(|w| w == &e.key[..]), "reported key is not in what was read", "{how}: {}", hex(&e.key));
            }
        }
        Err(e) => ensure!(!(supported && what == "intact"), "key not read", "{how}: {e} for {} from {}", key.pk.name(), hex(&der)),
    }
    c.end();
}
/// Several threads verify chains at the same time, some of them put together from parts of different devices.
/// The X.509 parser's tables are filled on first use under a spin lock, where a preempted thread makes the others
/// burn time (the scheduler gets out of it, see `sched::spinning`): done before threads race.
pub fn warm_up() {
    let _ = lib("verify_certificate_chain", || verify_certificate_chain(FIX_LEAF, FIX_INTER, None));
}
fn crowd(c: &mut Ctx, roots: &[Root], inters: &[Inter], leaves: &[Leaf]) {
    c.begin("concurrent_verify");
    let n = 2 + c.pick(3);
    let rkey = |i: usize| roots[i].key.as_ref().map(|k| &k.pk);
    let ikey = |i: usize| inters[i].key.as_ref().map(|k| &k.pk);
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|t| -> Box<dyn FnOnce() + Send> {
            let todo: Vec<(usize, usize, usize)> = (0..1 + c.pick(3))
                .map(|_| {
                    let li = c.pick(leaves.len());
                    match c.pick(4) {
                        0 => (li, c.pick(inters.len()), c.pick(roots.len())),
                        1 => (li, leaves[li].inter, c.pick(roots.len())),
                        _ => (li, leaves[li].inter, inters[leaves[li].inter].root),
                    }
                })
                .collect();
            Box::new(move || {
                for (li, ii, ri) in todo {
                    let (l, it) = (&leaves[li], &inters[ii]);
                    let r = lib("verify_certificate_chain", || verify_certificate_chain(&l.cert, &it.cert, roots[ri].pem.as_deref()));
                    ev!("  thread {t}: leaf {li} intermediate {ii} root {ri}: {}", r.is_ok());
                    let chain = (it.root == ri || (rkey(ri).is_some() && rkey(it.root) == rkey(ri))) && (l.inter == ii || (ikey(ii).is_some() && ikey(l.inter) == ikey(ii)));
                    match r {
                        Ok(v) => {
                            ensure!(chain, "certificate not signed by the intermediate accepted", "in thread {t} of {n}: leaf {li} intermediate {ii} root {ri}");
                            match &l.facts {
                                Some(f) => facts(&v, f),
                                None => ensure!(l.loose, "incomplete or unsupported attestation accepted", "in thread {t} of {n}"),
                            }
                        }
                        Err(e) => ensure!(!(l.inter == ii && it.root == ri && l.facts.is_some()), "genuine chain refused", "{e} in thread {t} of {n}"),
                    }
                }
            })
        })
        .collect();
    c.stat("attack.concurrent_mixed_chains");
    warm_up();
    sched::race("verifying chains", jobs);
    c.end();
}

pub fn run() {
    let c = cx();
    let mut roots: Vec<Root> = vec![];
    let mut inters: Vec<Inter> = vec![];
    let mut leaves: Vec<Leaf> = vec![];
    if c.chance(1, 4) {
        roots.push(Root { key: None, h: 0, pem: None, der: vec![] });
        inters.push(Inter { root: 0, key: None, h: 0, cert: FIX_INTER.to_vec(), tbs: tbs_of(FIX_INTER).unwrap().to_vec() });
        // the subject key of the recorded certificate, read by hand
        let t = tbs_of(FIX_LEAF).unwrap();
        let bits = [0x03u8, 0x42, 0x00, 0x04];
        let b3 = [0x03u8, 0x62, 0x00, 0x04];
        let key = match (0..t.len() - 4).find(|i| t[*i..*i + 4] == bits) {
            Some(i) => MPub::Ecdsa { bits: 256, point: t[i + 3..i + 68].to_vec(), app: None },
            None => {
                let i = (0..t.len() - 4).find(|i| t[*i..*i + 4] == b3).unwrap();
                MPub::Ecdsa { bits: 384, point: t[i + 3..i + 100].to_vec(), app: None }
            }
        };
        leaves.push(Leaf { inter: 0, cert: FIX_LEAF.to_vec(), tbs: t.to_vec(), key: key.clone(), facts: Some(Facts { key, firmware: "5.2.4".into(), serial: 11778047, pin: 1, touch: 3 }), loose: false });
    }
    for _ in 0..1 + c.pick(2) {
        let key = gen_key(c, &SOFT_KK, true);
        let h = c.pick(2);
        let mut p = c.stream();
        let cn = "Sim PIV Root CA";
        let (der, _) = MX { serial: vec![4, 6], issuer: cn.into(), subject: cn.into(), key: key.pk.clone(), exts: vec![], ca: true }.mint(&key, h, &mut p);
        roots.push(Root { pem: Some(pem(&der)), der, key: Some(key), h });
    }
    for _ in 0..1 + c.pick(3) {
        let live: Vec<usize> = (0..roots.len()).filter(|i| roots[*i].key.is_some()).collect();
        let ri = live[c.pick(live.len())];
        let key = gen_key(c, &SOFT_KK, true);
        let h = c.pick(2);
        let mut p = c.stream();
        let mx = MX { serial: p.bytes(8), issuer: "Sim PIV Root CA".into(), subject: "Sim PIV Attestation".into(), key: key.pk.clone(), exts: vec![("1.3.6.1.4.1.41482.3.3".into(), vec![5, 2, 4])], ca: true };
        let (cert, tbs) = mx.mint(roots[ri].key.as_ref().unwrap(), roots[ri].h, &mut p);
        inters.push(Inter { root: ri, key: Some(key), h, cert, tbs });
    }
    let live: Vec<usize> = (0..inters.len()).filter(|i| inters[*i].key.is_some()).collect();
    let n = c.range(2, 9);
    for _ in 0..n {
        gen_clock(c);
        if leaves.is_empty() || c.chance(1, 2) {
            c.begin("attest");
            let ii = live[c.pick(live.len())];
            let it = inters[ii].clone();
            let l = gen_leaf(c, ii, it.key.as_ref().unwrap(), it.h);
            ev!("attest: intermediate {ii} of root {}: {:?}", it.root, l.facts.as_ref().map(|f| (f.key.name(), f.serial, f.pin, f.touch)));
            leaves.push(l);
            c.end();
        }
        if c.chance(1, 8) {
            extract(c);
        }
        if c.chance(1, 10) {
            crowd(c, &roots, &inters, &leaves);
            continue;
        }
        c.begin("verify");
        let li = c.pick(leaves.len());
        let l = leaves[li].clone();
        let it = inters[l.inter].clone();
        let mut ri = it.root;
        let mut rpem = roots[ri].pem.clone();
        let (mut client, mut inter) = (l.cert.clone(), it.cert.clone());
        let o = leaves[c.pick(leaves.len())].clone();
        let what: String = match c.pick(17) {
            0..=5 => "intact".into(),
            6 => {
                ri = c.pick(roots.len());
                rpem = roots[ri].pem.clone();
                "checked against another root".into()
            }
            7 => {
                inter = inters[c.pick(inters.len())].cert.clone();
                "another device's intermediate".into()
            }
            8 => {
                // rogue chain: own root key, self-signed intermediate with the vendor's names
                let k = gen_key(c, &SOFT_KK, true);
                let mut p = c.stream();
                if roots.iter().all(|r| r.key.as_ref().map(|x| &x.pk) != Some(&k.pk)) {
                    let names = [("Sim PIV Root CA", "Sim PIV Attestation"), ("Sim PIV Root CA", "Sim PIV Root CA"), ("Sim PIV Attestation", "Sim PIV Attestation"), ("", "")][c.pick(4)];
                    let mx = MX { serial: vec![9], issuer: names.0.into(), subject: names.1.into(), key: k.pk.clone(), exts: vec![], ca: true };
                    inter = mx.mint(&k, 0, &mut p).0;
                    client = gen_leaf(c, l.inter, &k, 0).cert;
                }
                "rogue chain".into()
            }
            9 => {
                // rogue leaf below a genuine intermediate
                let k = gen_key(c, &SOFT_KK, true);
                if inters.iter().all(|i| i.key.as_ref().map(|x| &x.pk) != Some(&k.pk)) {
                    client = gen_leaf(c, l.inter, &k, 0).cert;
                }
                "rogue leaf".into()
            }
            10 => {
                // the attested slot key signs a further certificate and poses as the device
                let live2: Vec<usize> = (0..roots.len()).filter(|i| roots[*i].key.is_some()).collect();
                ri = live2[c.pick(live2.len())];
                rpem = roots[ri].pem.clone();
                client = it.cert.clone();
                inter = roots[ri].der.clone();
                "chain shifted up".into()
            }
            11 => {
                inter = l.cert.clone();
                client = o.cert.clone();
                "leaf used as intermediate".into()
            }
            12 => {
                // contents of one certificate with the signature of another
                let (a, b) = (tbs_of(&l.cert).unwrap(), tbs_of(&o.cert).unwrap());
                let (h, _) = head(&o.cert).unwrap();
                let rest = &o.cert[h + b.len()..];
                client = tlv(0x30, &[a, rest].concat());
                "signature of another leaf".into()
            }
            13 => format!("client: {}", damage(c, &mut client, Some(&o.cert))),
            14 => {
                let oc = inters[o.inter].cert.clone();
                format!("intermediate: {}", damage(c, &mut inter, Some(&oc)))
            }
            15 => match &rpem {
                Some(p) => {
                    let mut b = p.clone().into_bytes();
                    let s = format!("root: {}", damage(c, &mut b, None));
                    rpem = Some(String::from_utf8_lossy(&b).into_owned());
                    s
                }
                None => {
                    rpem = Some(["", "junk", "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n", "-----BEGIN CERTIFICATE-----\nMIIB\n-----END CERTIFICATE-----\n"][c.pick(4)].into());
                    "unreadable root".into()
                }
            },
            _ => {
                let k = c.pick(3);
                if k != 1 {
                    client = vec![];
                }
                if k != 0 {
                    inter = vec![];
                }
                "empty certificate".into()
            }
        };
        let kind = what.split(':').next().unwrap_or("").to_string();
        if kind != "intact" {
            c.stat(&format!("attack.{kind}"));
            c.shape_add(&kind);
        }
        let r = lib("verify_certificate_chain", || verify_certificate_chain(&client, &inter, rpem.as_deref()));
        ev!("verify leaf {li} ({what}) -> {}", match &r {
            Ok(v) => format!("accepted serial {}", v.serial),
            Err(e) => e.to_string(),
        });
        match r {
            Ok(v) => {
                ensure!(what != "unreadable root", "unreadable root accepted", "");
                let (tc, ti) = (tbs_of(&client).unwrap_or(&[]), tbs_of(&inter).unwrap_or(&[]));
                let rk = roots[ri].key.as_ref().map(|k| &k.pk);
                let cand: Vec<usize> = (0..inters.len()).filter(|i| inters[*i].tbs == ti && (inters[*i].root == ri || (rk.is_some() && roots[inters[*i].root].key.as_ref().map(|k| &k.pk) == rk))).collect();
                // (parties may share a key: RSA keys come from a small pool)
                let ikey = |i: usize| inters[i].key.as_ref().map(|k| &k.pk);
                let mut by: Vec<&MPub> = leaves.iter().filter(|x| x.tbs == ti && rk.is_some() && ikey(x.inter) == rk).map(|x| &x.key).collect();
                by.extend(roots.iter().filter(|x| x.key.is_some() && rk == x.key.as_ref().map(|k| &k.pk) && tbs_of(&x.der) == Some(ti)).filter_map(|x| x.key.as_ref().map(|k| &k.pk)));
                by.extend(cand.iter().filter_map(|i| ikey(*i)));
                ensure!(!cand.is_empty() || !by.is_empty(), "intermediate not signed by the given root accepted", "{what}");
                let m = leaves.iter().find(|x| x.tbs == tc && (cand.contains(&x.inter) || by.iter().any(|k| ikey(x.inter) == Some(*k))));
                let Some(m) = m else { violate("certificate not signed by the intermediate accepted", what) };
                match &m.facts {
                    None => ensure!(m.loose, "incomplete or unsupported attestation accepted", "{what}: serial {} firmware {} key {}", v.serial, v.firmware, v.public_key),
                    Some(f) => facts(&v, f),
                }
            }
            Err(e) => {
                if what == "intact" && l.facts.is_some() {
                    violate("genuine chain refused", format!("{e}: {:?} root {:?}", l.facts, roots[ri].key.as_ref().map(|k| k.pk.name())));
                }
            }
        }
        c.end();
    }
}

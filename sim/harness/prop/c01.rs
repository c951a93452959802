//! C01: a certificate authority issuing through local, faulty and remote signers.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::{self, *};
use crate::model::wire::*;
use crate::seam::{fs, sched, sys};
use crate::{ensure, ev};
use sshcerts::ssh::*;
use std::cell::RefCell;

pub const INFO: Info = Info {
    quick_runs: 24000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are issuance histories (build, local sign, faulty signer, remote signing queue, delivery as text, bytes or file); the seed decides requests, keys, signer faults, message loss/duplication/reordering/misrouting and read faults.",
    real: &["sshcerts::ssh::{cert,privkey,pubkey,writer,reader,signature,keytype}", "ring"],
    stub: &["remote/HSM signers (OpenSSL reference keys with injected faults)", "network between requester and signer", "disk", "OS random source"],
    assumptions: &["OpenSSL verifies signatures correctly (independent oracle)"],
};

enum Ca {
    Local(PrivateKey, MPub),
    Remote(MKey, PublicKey),
}
impl Ca {
    fn mpub(&self) -> MPub {
        match self {
            Ca::Local(_, m) => m.clone(),
            Ca::Remote(k, _) => k.pk.clone(),
        }
    }
    fn pubkey(&self) -> PublicKey {
        match self {
            Ca::Local(k, _) => k.pubkey.clone(),
            Ca::Remote(_, p) => p.clone(),
        }
    }
}
/// The signer handed to Certificate::sign; the reply is prepared by the simulation.
struct SimSigner<'a> {
    f: RefCell<Box<dyn FnMut(&[u8]) -> Option<Vec<u8>> + 'a>>,
}
impl SSHCertificateSigner for SimSigner<'_> {
    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
        (self.f.borrow_mut())(b)
    }
}

fn gen_ca(c: &mut Ctx) -> Ca {
    match c.pick(8) {
        0 => {
            match lib("PrivateKey::new", || PrivateKey::new(KeyTypeKind::Ed25519, "ca")) {
                Ok(p) => {
                    let m = mpub_of(&p.pubkey).unwrap();
                    Ca::Local(p, m)
                }
                Err(e) => violate("key generation failed with a healthy random source", format!("{e}")),
            }
        }
        1..=4 => {
            let k = gen_key(c, &SOFT_KK, true);
            let magic = c.stream().next() as u32;
            let p = lib_priv(&k, "ca", magic);
            Ca::Local(p, k.pk)
        }
        _ => {
            let k = gen_key(c, &CA_KK, true);
            let p = lib_pub(c, &k.pk);
            Ca::Remote(k, p)
        }
    }
}

#[derive(Clone)]
struct Req {
    m: MCert,
    serial_set: bool,
}
fn opts_diff(a: &[(String, String)], b: &[(String, String)]) -> bool {
    sorted(&map(a)) != sorted(&map(b)) || a.len() != b.len()
}

fn upsert(to: &mut Vec<(String, String)>, from: &[(String, String)]) {
    for (k, v) in from {
        match to.iter_mut().find(|(n, _)| n == k) {
            Some(e) => e.1 = v.clone(),
            None => to.push((k.clone(), v.clone())),
        }
    }
}

/// Applies the request through the library's builder (or, for a renewal, to an issued certificate), in a drawn
/// order and through drawn setter variants. The request is updated to what those setters mean.
fn build(c: &mut Ctx, r: &mut Req, renew: Option<(Certificate, MCert)>, key: &PublicKey, ca: &PublicKey) -> Certificate {
    let m = r.m.clone();
    let (mut b, base) = match renew {
        Some((x, base)) => {
            let set = r.serial_set;
            r.m = base;
            if set {
                r.m.serial = m.serial;
            }
            (x, true)
        }
        None => {
            let ct = if r.m.ctype == 1 { CertType::User } else { CertType::Host };
            let b = match lib("Certificate::builder", || Certificate::builder(key, ct, ca)) {
                Ok(b) => b,
                Err(e) => violate("builder failed", format!("{e} for {}", r.m.key.name())),
            };
            r.m.nonce = b.nonce.clone();
            if !r.serial_set {
                r.m.serial = b.serial;
            }
            r.m.key_id.clear();
            r.m.principals.clear();
            r.m.crit.clear();
            r.m.ext.clear();
            (r.m.va, r.m.vb) = (0, 0);
            (b, false)
        }
    };
    let mut order: Vec<usize> = (0..7).collect();
    for i in 0..6 {
        let j = i + c.pick(7 - i);
        order.swap(i, j);
    }
    let junk = c.chance(1, 6);
    for o in order {
        let v = c.pick(2);
        if base && o != 0 && c.chance(1, 2) {
            continue; // a renewal keeps this field
        }
        match o {
            1 => r.m.key_id = m.key_id.clone(),
            2 if v == 0 => r.m.principals.extend(m.principals.iter().cloned()),
            2 => r.m.principals = m.principals.clone(),
            3 => r.m.va = m.va,
            4 => r.m.vb = m.vb,
            5 if v == 0 => upsert(&mut r.m.crit, &m.crit),
            5 => r.m.crit = m.crit.clone(),
            6 if v == 0 => upsert(&mut r.m.ext, &m.ext),
            6 => r.m.ext = m.ext.clone(),
            _ => (),
        }
        b = lib("builder setter", || match o {
            0 => {
                if r.serial_set {
                    b.serial(m.serial)
                } else {
                    b
                }
            }
            1 => {
                if junk {
                    b = b.key_id("overwritten");
                }
                b.key_id(&m.key_id)
            }
            2 => {
                if v == 0 {
                    m.principals.iter().fold(b, |b, p| b.principal(p))
                } else {
                    if junk {
                        b = b.principal("overwritten");
                    }
                    b.set_principals(&m.principals)
                }
            }
            3 => {
                if junk {
                    b = b.valid_after(77);
                }
                b.valid_after(m.va)
            }
            4 => {
                if junk {
                    b = b.valid_before(78);
                }
                b.valid_before(m.vb)
            }
            5 => {
                if v == 0 {
                    if junk {
                        b = m.crit.iter().fold(b, |b, (k, _)| b.critical_option(k.as_str(), "overwritten"));
                    }
                    m.crit.iter().fold(b, |b, (k, x)| b.critical_option(k, x))
                } else {
                    if junk {
                        b = b.critical_option("overwritten", "x");
                    }
                    b.set_critical_options(map(&m.crit))
                }
            }
            _ => {
                if v == 0 {
                    if junk {
                        b = m.ext.iter().fold(b, |b, (k, _)| b.extension(k.as_str(), "overwritten"));
                    }
                    m.ext.iter().fold(b, |b, (k, x)| b.extension(k, x))
                } else {
                    if junk {
                        b = b.extension("overwritten", "x");
                    }
                    b.set_extensions(map(&m.ext))
                }
            }
        });
    }
    if c.chance(1, 4) {
        b = b.comment("a comment");
    }
    b
}

/// What an issued certificate must be.
fn judge(req: &Req, cert: &Certificate) {
    if let Some(d) = cert_diff(cert, &req.m) {
        violate("issued certificate differs from the request", format!("{d}"));
    }
    let Some((m, n, sig)) = MCert::read(&cert.serialized) else {
        violate("issued certificate is not a well-formed certificate", hex(&cert.serialized))
    };
    let q = &req.m;
    let same = m.nonce == q.nonce
        && norm(&m.key) == norm(&q.key)
        && m.serial == q.serial
        && m.ctype == q.ctype
        && m.key_id == q.key_id
        && m.principals == q.principals
        && m.va == q.va
        && m.vb == q.vb
        && !opts_diff(&m.crit, &q.crit)
        && !opts_diff(&m.ext, &q.ext)
        && norm(&m.ca) == norm(&q.ca);
    ensure!(same, "issued certificate encodes other fields than requested", "encoded {:?}\nrequested {:?}", m, q);
    ensure!(
        keys::verify(&q.ca, &cert.serialized[..n], &sig).is_some(),
        "issued certificate is not signed by its CA",
        "signature {} by {} over {} bytes does not verify",
        hex(&sig),
        q.ca.name(),
        n
    );
}
fn deliver(c: &mut Ctx, req: &Req, cert: &Certificate) -> Certificate {
    let how = c.pick(4);
    let r = match how {
        0 => lib("Certificate::from_bytes", || Certificate::from_bytes(&cert.serialized)),
        1 | 2 => {
            let t = lib("Display", || format!("{cert}"));
            let t = if how == 2 { format!("{t}\r\n") } else { t };
            lib("Certificate::from_string", || Certificate::from_string(&t))
        }
        _ => {
            let t = lib("Display", || format!("{cert}"));
            fs::put("/sim/id-cert.pub", t.as_bytes());
            fs::disk().plan = fs::Plan { chunk: [0usize, 1 << 12, 64, 7][c.pick(4)], eintr_every: c.draw(4), ..Default::default() };
            let r = lib("Certificate::from_path", || Certificate::from_path("/sim/id-cert.pub"));
            fs::disk().plan = Default::default();
            r
        }
    };
    ev!("  delivered (way {how}): {}", if r.is_ok() { "accepted" } else { "rejected" });
    match r {
        Ok(x) => {
            judge(req, &x);
            if c.chance(1, 2) {
                x
            } else {
                cert.clone()
            }
        }
        Err(e) => violate("issued certificate is rejected by the library's own verifier", format!("{e}")),
    }
}

struct Msg {
    req: usize,
    reply: Vec<u8>,
    intact: bool,
    what: &'static str,
}

const BAD: [&str; 13] = [
    "refuses", "garbage", "other_key", "other_bytes", "stale_reply", "truncated", "bit_flip", "label_swap", "empty", "der", "rs_swapped", "dies", "raw_signature",
];

fn bad_reply(c: &mut Ctx, kind: &str, ca: &MKey, other: &MKey, tbs: &[u8], old: &[Vec<u8>]) -> Option<Vec<u8>> {
    let o = gen_sigopt(c);
    let mut p = c.stream();
    let good = ca.sign(tbs, &o, &mut p);
    Some(match kind {
        "refuses" => return None,
        "garbage" => gen_bytes(c, 400),
        "other_key" => other.sign(tbs, &o, &mut p),
        "other_bytes" => {
            let mut t = tbs.to_vec();
            let d = damage(c, &mut t, None);
            ev!("  signed bytes: {d}");
            ca.sign(&t, &o, &mut p)
        }
        "stale_reply" => {
            if old.is_empty() {
                return None;
            }
            old[c.pick(old.len())].clone()
        }
        "truncated" => {
            let n = c.pick(good.len());
            good[..n].to_vec()
        }
        "bit_flip" => {
            let mut g = good;
            let i = c.pick(g.len());
            g[i] ^= 1 << c.pick(8);
            g
        }
        "label_swap" => {
            let mut r = R(&good, 0);
            let l = r.string().unwrap();
            let names = ["ssh-ed25519", "ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", ""];
            let n = names[c.pick(names.len())];
            if n == l {
                return None;
            }
            W::default().str(n).raw(&good[r.1..]).0
        }
        "empty" => vec![],
        "der" | "rs_swapped" => match &ca.pk {
            MPub::Ecdsa { .. } => {
                let mut r = R(&good, 0);
                let l = r.string()?;
                let body = r.bytes()?.to_vec();
                let rest = good[r.1..].to_vec();
                let mut q = R(&body, 0);
                let (rr, ss) = (q.mpint()?, q.mpint()?);
                if kind == "der" {
                    W::default().str(l).str(der_sig(&rr, &ss)).raw(&rest).0
                } else {
                    W::default().str(l).str(W::default().mpint(&ss).mpint(&rr).0).raw(&rest).0
                }
            }
            _ => good[4..].to_vec(),
        },
        _ => {
            let mut r = R(&good, 0);
            r.string()?;
            r.bytes()?.to_vec()
        }
    })
}

/// Several threads issue certificates at the same time, sharing the CAs; the signers take their time.
fn crowd(cas: &[Ca], subs: &[(MKey, PublicKey)], rogue: &MKey) {
    let c = cx();
    c.begin("concurrent_issue");
    let n = 2 + c.pick(3);
    let jobs: Vec<Box<dyn FnOnce() -> Option<(Req, Certificate)> + Send>> = (0..n)
        .map(|i| -> Box<dyn FnOnce() -> Option<(Req, Certificate)> + Send> {
            let (ci, si) = (c.pick(cas.len()), c.pick(subs.len()));
            let mut req = Req { m: gen_cert(c, &subs[si].0.pk, &cas[ci].mpub()), serial_set: c.chance(3, 4) };
            let bad = if c.chance(1, 5) { Some(["refuses", "garbage", "other_key", "truncated", "dies"][c.pick(5)]) } else { None };
            let rounds = 1 + c.pick(2);
            Box::new(move || {
                let c = cx();
                let mut cert = build(c, &mut req, None, &subs[si].1, &cas[ci].pubkey());
                for _ in 0..rounds {
                    let r = match &cas[ci] {
                        Ca::Local(k, _) => lib("sign", || cert.clone().sign(k)),
                        Ca::Remote(k, _) => {
                            let o = gen_sigopt(cx());
                            let mut p = cx().stream();
                            let s = SimSigner {
                                f: RefCell::new(Box::new(|b| {
                                    let _g = sched::np();
                                    sched::yield_now();
                                    match bad {
                                        Some("dies") => {
                                            cx().fault("signer_dies");
                                            std::panic::panic_any(Deliberate("signer died"))
                                        }
                                        Some(kind) => {
                                            cx().fault(&format!("signer_{kind}"));
                                            bad_reply(cx(), kind, k, rogue, b, &[])
                                        }
                                        None => Some(k.sign(b, &o, &mut p)),
                                    }
                                })),
                            };
                            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib("sign", || cert.clone().sign(&s)))) {
                                Ok(r) => {
                                    if bad.is_some() && r.is_err() {
                                        return None;
                                    }
                                    r
                                }
                                Err(p) if p.downcast_ref::<Deliberate>().is_some() => return None,
                                Err(p) => std::panic::resume_unwind(p),
                            }
                        }
                    };
                    match r {
                        Ok(x) => cert = x,
                        Err(e) => violate("healthy CA failed to sign", format!("thread {i}: {e}: CA {}", req.m.ca.name())),
                    }
                    judge(&req, &cert);
                    let t = lib("Display", || format!("{cert}"));
                    match lib("Certificate::from_string", || Certificate::from_string(&t)) {
                        Ok(x) => judge(&req, &x),
                        Err(e) => violate("issued certificate is rejected by the library's own verifier", format!("thread {i}: {e}")),
                    }
                }
                Some((req, cert))
            })
        })
        .collect();
    let done = sched::race("issuing certificates", jobs);
    ev!("{n} threads issue at the same time: {} certificates", done.iter().flatten().count());
    for (req, x) in done.iter().flatten() {
        judge(req, x); // nobody changed it afterwards
    }
    c.end();
}

pub fn run() {
    let c = cx();
    if c.chance(1, 8) {
        sys::rand_state().short = Some(1 + c.pick(31));
    }
    let ncas = 1 + c.pick(3);
    let cas: Vec<Ca> = (0..ncas).map(|_| gen_ca(c)).collect();
    let nsub = 1 + c.pick(3);
    let subs: Vec<(MKey, PublicKey)> = (0..nsub)
        .map(|_| {
            let k = gen_key(c, &ALL_KK, false);
            let p = lib_pub(c, &k.pk);
            (k, p)
        })
        .collect();
    for x in &cas {
        ev!("CA {} {}", if matches!(x, Ca::Local(..)) { "local" } else { "remote" }, x.mpub().name());
    }
    let rogue = gen_key(c, &SOFT_KK, true);
    let mut history: Vec<Req> = vec![];
    let mut pending: Vec<(Req, Certificate, usize)> = vec![]; // outstanding remote requests
    let mut wire: Vec<Msg> = vec![];
    let mut old: Vec<Vec<u8>> = vec![];
    let mut issued: Vec<(Req, Certificate, usize)> = vec![]; // certificates a renewal can start from
    let steps = c.range(2, 9);
    for _ in 0..steps {
        if c.chance(1, 12) {
            crowd(&cas, &subs, &rogue);
            continue;
        }
        let op = c.pick(8);
        if op >= 6 && !wire.is_empty() {
            // deliver one message from the network, any order
            c.begin("deliver_reply");
            let i = c.pick(wire.len());
            let dup = c.chance(1, 5);
            let m = if dup {
                c.fault("net_duplicate");
                Msg { req: wire[i].req, reply: wire[i].reply.clone(), intact: wire[i].intact, what: wire[i].what }
            } else {
                wire.remove(i)
            };
            let target = if c.chance(1, 6) && pending.len() > 1 {
                let t = c.pick(pending.len());
                if t != m.req {
                    c.fault("net_misroute");
                }
                t
            } else {
                m.req
            };
            let (req, cert, ci) = pending[target].clone();
            let r = lib("add_signature", || cert.clone().add_signature(&m.reply));
            ev!("reply {} for request {} handed to request {target}: {}", m.what, m.req, if r.is_ok() { "certificate" } else { "error" });
            match r {
                Ok(x) => {
                    judge(&req, &x);
                    let x = deliver(c, &req, &x);
                    issued.push((req, x, ci));
                }
                Err(e) => ensure!(!(m.intact && target == m.req), "healthy remote signature refused", "{e}: CA {} reply {}", req.m.ca.name(), hex(&m.reply)),
            }
            c.end();
            continue;
        }
        // a new request
        let mut ci = c.pick(cas.len());
        let si = c.pick(subs.len());
        c.begin(match op {
            0..=2 => "sign_local",
            3 => "sign_faulty",
            _ => "request_remote",
        });
        let mut req = if !history.is_empty() && c.chance(1, 3) {
            // a retry or a near copy of an earlier request
            let mut q = history[c.pick(history.len())].clone();
            c.probe("request_derived_from_earlier");
            match c.pick(5) {
                0 => (),
                1 => q.m.principals = gen_principals(c),
                2 => q.m.key_id = gen_string(c, 300),
                3 => q.m.ext = gen_opts(c, false),
                _ => q.m.vb = gen_u64(c),
            }
            q.m.key = subs[si].0.pk.clone();
            q.m.ca = cas[ci].mpub();
            q
        } else {
            Req { m: gen_cert(c, &subs[si].0.pk, &cas[ci].mpub()), serial_set: c.chance(3, 4) }
        };
        // a renewal: an issued certificate, as it is here or as it was loaded, with some fields changed
        let renew = if !issued.is_empty() && c.chance(1, 4) {
            c.probe("renewal_of_issued_certificate");
            let (q, x, i) = issued[c.pick(issued.len())].clone();
            ci = i;
            Some((x, q.m))
        } else {
            None
        };
        let cert = build(c, &mut req, renew, &subs[si].1, &cas[ci].pubkey());
        if req.m.principals.len() > 40 {
            c.probe("many_principals");
        }
        ev!("request {} for {} by {} serial {} key_id {:?} {} principals {} crit {} ext", history.len(), req.m.key.name(), req.m.ca.name(), req.m.serial,
            req.m.key_id.chars().take(20).collect::<String>(), req.m.principals.len(), req.m.crit.len(), req.m.ext.len());
        history.push(req.clone());
        match (op, &cas[ci]) {
            (0..=2, Ca::Local(k, _)) => {
                let r = lib("sign", || cert.sign(k));
                match r {
                    Ok(x) => {
                        ev!("  issued {} bytes", x.serialized.len());
                        old.push(x.signature.clone());
                        judge(&req, &x);
                        let x = deliver(c, &req, &x);
                        issued.push((req, x, ci));
                    }
                    Err(e) => violate("healthy local CA failed to sign", format!("{e}: CA {}", req.m.ca.name())),
                }
            }
            (0..=2, Ca::Remote(k, _)) => {
                let o = gen_sigopt(c);
                let mut p = c.stream();
                let s = SimSigner { f: RefCell::new(Box::new(|b| Some(k.sign(b, &o, &mut p)))) };
                match lib("sign", || cert.sign(&s)) {
                    Ok(x) => {
                        ev!("  issued {} bytes", x.serialized.len());
                        old.push(x.signature.clone());
                        judge(&req, &x);
                        let x = deliver(c, &req, &x);
                        issued.push((req, x, ci));
                    }
                    Err(e) => violate("signature of a healthy signer refused", format!("{e}: CA {} options {:?}", req.m.ca.name(), o)),
                }
            }
            (3, Ca::Remote(k, _)) => {
                let kind = BAD[c.pick(BAD.len())];
                c.fault(&format!("signer_{kind}"));
                let same = |a: &MPub, b: &MPub| norm(a) == norm(b);
                let other = if c.chance(1, 2) || same(&subs[si].0.pk, &k.pk) { rogue.clone() } else { subs[si].0.clone() };
                let oldc = old.clone();
                let s = SimSigner {
                    f: RefCell::new(Box::new(|b| {
                        if kind == "dies" {
                            std::panic::panic_any(Deliberate("signer died"));
                        }
                        bad_reply(cx(), kind, k, &other, b, &oldc)
                    })),
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib("sign", || cert.sign(&s))));
                match r {
                    Err(p) => {
                        if p.downcast_ref::<Deliberate>().is_none() {
                            std::panic::resume_unwind(p);
                        }
                        ev!("  signer died");
                    }
                    Ok(Ok(x)) => {
                        ev!("  issued in spite of the fault");
                        judge(&req, &x); // legal only if the reply happens to be a valid signature
                    }
                    Ok(Err(e)) => ev!("  error {}", e.to_string().chars().take(40).collect::<String>()),
                }
            }
            (3, Ca::Local(k, _)) if c.chance(1, 3) => {
                // the CA's own key store is damaged: no certificate, or one its key really signed
                let mut k = k.clone();
                let what = odd_secret(c, &mut k);
                c.fault("signer_damaged_key");
                match lib("sign", || cert.sign(&k)) {
                    Ok(x) => {
                        ev!("  issued in spite of {what}");
                        judge(&req, &x);
                    }
                    Err(e) => ev!("  {what}: {}", e.to_string().chars().take(40).collect::<String>()),
                }
            }
            (3, Ca::Local(..)) => {
                // wrong local key for the CA named in the certificate
                let k = lib_priv(&rogue, "rogue", 5);
                c.fault("signer_other_key");
                let same = norm(&rogue.pk) == norm(&req.m.ca);
                match lib("sign", || cert.sign(&k)) {
                    Ok(x) => {
                        judge(&req, &x);
                        ensure!(same, "certificate issued with another CA's key", "named {} signed by {}", req.m.ca.name(), rogue.pk.name());
                    }
                    Err(_) => ensure!(!same, "healthy local CA failed to sign", "{}", req.m.ca.name()),
                }
            }
            _ => {
                // tbs travels to the signing service, which answers later (or not)
                let tbs = lib("tbs_certificate", || cert.tbs_certificate());
                let id = pending.len();
                pending.push((req.clone(), cert, ci));
                let (reply, intact, what) = match &cas[ci] {
                    Ca::Remote(k, _) => {
                        if c.chance(1, 3) {
                            let kind = BAD[c.pick(BAD.len())];
                            if kind == "refuses" || kind == "dies" {
                                c.fault(&format!("signer_{kind}"));
                                c.end();
                                continue;
                            }
                            c.fault(&format!("signer_{kind}"));
                            match bad_reply(c, kind, k, &rogue, &tbs, &old) {
                                Some(b) => (b, false, kind),
                                None => {
                                    c.end();
                                    continue;
                                }
                            }
                        } else {
                            let o = gen_sigopt(c);
                            let mut p = c.stream();
                            (k.sign(&tbs, &o, &mut p), true, "signature")
                        }
                    }
                    Ca::Local(k, _) => match lib("PrivateKey::sign", || SSHCertificateSigner::sign(k, &tbs)) {
                        Some(s) => (s, true, "signature"),
                        None => violate("healthy local CA failed to sign", req.m.ca.name()),
                    },
                };
                if intact {
                    old.push(reply.clone());
                }
                if c.chance(1, 8) {
                    c.fault("net_drop");
                } else {
                    if c.chance(1, 8) {
                        let mut r = reply.clone();
                        let d = damage(c, &mut r, old.first().map(|v| &v[..]));
                        c.fault("net_corrupt");
                        ev!("  corrupted in transit: {d}");
                        wire.push(Msg { req: id, reply: r, intact: false, what: "corrupted" });
                    }
                    wire.push(Msg { req: id, reply, intact, what });
                }
            }
        }
        c.end();
    }
    // faults stop: everything still on the wire arrives
    while let Some(m) = wire.pop() {
        let (req, cert, _) = pending[m.req].clone();
        match lib("add_signature", || cert.clone().add_signature(&m.reply)) {
            Ok(x) => {
                judge(&req, &x);
                deliver(c, &req, &x);
            }
            Err(e) => ensure!(!m.intact, "healthy remote signature refused", "{e}: CA {} reply {}", req.m.ca.name(), hex(&m.reply)),
        }
    }
}

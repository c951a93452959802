//! C08: the bytes to be signed are a function of the certificate alone.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::wire::*;
use crate::seam::sched;
use crate::seam::sys::set_wall;
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 60000,
    quick_s: 50,
    thorough_runs: 3_000_000,
    rule: "Runs are histories of one certificate request rebuilt in several places: a front end, cloned copies, other threads, forked and restarted processes (each with its own hash seed and clock), with options inserted in any order and by any setter; the signature made for one place's bytes is attached in another.",
    real: &["sshcerts::ssh::{cert,writer,signature}", "std HashMap/RandomState"],
    stub: &["getrandom system call (hash seeds)", "clock", "process restart = fork with a fresh hash seed"],
    assumptions: &["lexical order of option names is byte order, as OpenSSH compares them"],
};

/// The request as the parties agreed on it.
#[derive(Clone)]
struct Req {
    m: MCert,
    comment: String,
}
#[derive(Clone, Debug)]
struct How {
    crit: Vec<usize>,
    ext: Vec<usize>,
    mode: [usize; 3],
    late: bool,
    dup: bool,
    cap: usize,
}
fn perm(c: &mut Ctx, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match c.pick(4) {
        0 => (),
        1 => v.reverse(),
        _ => {
            let mut p = c.stream();
            for i in (1..n).rev() {
                v.swap(i, p.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}
fn gen_how(c: &mut Ctx, r: &Req) -> How {
    How { crit: perm(c, r.m.crit.len()), ext: perm(c, r.m.ext.len()), mode: [c.pick(3), c.pick(3), c.pick(2)], late: c.chance(1, 2), dup: c.chance(1, 3), cap: c.pick(200) }
}
/// One place rebuilds the request through the public builder, its own way.
fn build(r: &Req, h: &How, sub: &PublicKey, ca: &PublicKey) -> Certificate {
    let m = &r.m;
    let t = if m.ctype == 1 { CertType::User } else { CertType::Host };
    let mut b = match lib("Certificate::builder", || Certificate::builder(sub, t, ca)) {
        Ok(b) => b,
        Err(e) => violate("call failed without a fault", e.to_string()),
    };
    if !h.late {
        b = b.serial(m.serial).key_id(&m.key_id);
        b.nonce = m.nonce.clone();
    }
    b = match h.mode[0] {
        0 => h.crit.iter().fold(b, |b, i| {
            let b = if h.dup { b.critical_option(m.crit[*i].0.as_str(), "old value") } else { b };
            b.critical_option(m.crit[*i].0.as_str(), m.crit[*i].1.as_str())
        }),
        1 => {
            let mut hm = std::collections::HashMap::with_capacity(h.cap);
            for i in &h.crit {
                hm.insert(m.crit[*i].0.clone(), m.crit[*i].1.clone());
            }
            b.set_critical_options(hm)
        }
        _ => {
            for i in &h.crit {
                b.critical_options.insert(m.crit[*i].0.clone(), m.crit[*i].1.clone());
            }
            b
        }
    };
    b = match h.mode[1] {
        0 => h.ext.iter().fold(b, |b, i| {
            let b = if h.dup { b.extension(m.ext[*i].0.as_str(), "old value") } else { b };
            b.extension(m.ext[*i].0.as_str(), m.ext[*i].1.as_str())
        }),
        1 => {
            let mut hm = std::collections::HashMap::with_capacity(h.cap);
            for i in &h.ext {
                hm.insert(m.ext[*i].0.clone(), m.ext[*i].1.clone());
            }
            b.set_extensions(hm)
        }
        _ => {
            b.extensions = h.ext.iter().map(|i| m.ext[*i].clone()).collect();
            b
        }
    };
    b = match h.mode[2] {
        0 => m.principals.iter().fold(b, |b, p| b.principal(p)),
        _ => b.set_principals(&m.principals),
    };
    b = b.valid_after(m.va).valid_before(m.vb);
    if h.late {
        b = b.serial(m.serial).key_id(&m.key_id);
        b.nonce = m.nonce.clone();
    }
    if h.dup {
        b = b.comment(&r.comment);
    }
    b
}
fn tbs(b: &Certificate) -> Vec<u8> {
    lib("tbs_certificate", || b.tbs_certificate())
}
fn place_thread(f: impl FnOnce() -> Vec<u8> + Send) -> Vec<u8> {
    let r = std::thread::scope(|s| s.spawn(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))).join().unwrap());
    match r {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn read_tbs(b: &[u8]) -> Option<MCert> {
    MCert::read(&W(b.to_vec()).str("x").0).map(|x| x.0)
}
fn judge(want: &[u8], got: &[u8], place: &str) {
    if want == got {
        return;
    }
    // name the field that differs
    let detail = match (read_tbs(got), read_tbs(want)) {
        (Some(a), Some(b)) => {
            if a.crit != b.crit && sorted(&map(&a.crit)) == sorted(&map(&b.crit)) {
                violate("critical options not in lexical order", format!("{place}: {:?}", a.crit.iter().map(|x| &x.0).collect::<Vec<_>>()))
            }
            if a.ext != b.ext && sorted(&map(&a.ext)) == sorted(&map(&b.ext)) {
                violate("extensions not in lexical order", format!("{place}: {:?}", a.ext.iter().map(|x| &x.0).collect::<Vec<_>>()))
            }
            format!("{a:?}\n instead of {b:?}")
        }
        _ => format!("unreadable {}", hex(got)),
    };
    violate("bytes to be signed differ between places", format!("{place}: {detail}"))
}

/// Several threads build, encode and finish certificates at the same time: the common request and others.
fn crowd(c: &mut Ctx, r: &Req, want: &[u8], sig: &[u8], canon: &MCert, sub: &PublicKey, ca: &PublicKey) {
    c.begin("concurrent_places");
    let n = 2 + c.pick(3);
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|_| -> Box<dyn FnOnce() + Send> {
            let h = gen_how(c, r);
            if c.chance(1, 2) {
                let mut o = gen_cert(c, &canon.key, &canon.ca);
                o.ctype = canon.ctype;
                let q = Req { m: o.clone(), comment: "other".into() };
                let h = gen_how(c, &q);
                o.crit.sort();
                o.ext.sort();
                Box::new(move || {
                    for _ in 0..2 {
                        judge(&o.tbs(), &tbs(&build(&q, &h, sub, ca)), "another request on a concurrent thread");
                    }
                })
            } else {
                Box::new(move || {
                    let b = build(r, &h, sub, ca);
                    judge(want, &tbs(&b), "concurrent thread");
                    match lib("add_signature", || b.clone().add_signature(sig)) {
                        Ok(x) => {
                            let line = lib("Display", || format!("{x}"));
                            let d = base64::decode(line.split_whitespace().nth(1).unwrap_or("")).unwrap_or_default();
                            ensure!(d == canon.full(sig), "finished certificate is not the signed bytes and signature", "concurrent thread: {}", hex(&d));
                        }
                        Err(e) => violate("signature made in another place refused", format!("concurrent thread: {e}")),
                    }
                    judge(want, &tbs(&b), "concurrent thread");
                })
            }
        })
        .collect();
    sched::race("encoding certificates", jobs);
    c.end();
}

pub fn run() {
    let c = cx();
    let ca_m = gen_key(c, &SOFT_KK, true);
    let sub_m = gen_key(c, &ALL_KK, false);
    let ca = lib_pub(c, &ca_m.pk);
    let sub = lib_pub(c, &sub_m.pk);
    let nreq = c.range(1, 2);
    for _ in 0..nreq {
        c.begin("request");
        let mut m = gen_cert(c, &sub_m.pk, &ca_m.pk);
        // names that only differ late, by case, or are prefixes of each other
        if c.chance(1, 2) {
            let base = gen_token(c, 1, 6);
            for s in ["", "a", "B", "aa", "-", "Z", "\u{e9}", "0"] {
                if c.chance(1, 2) {
                    let n = format!("{base}{s}");
                    if !m.ext.iter().any(|e| e.0 == n) {
                        m.ext.push((n.clone(), s.into()));
                    }
                    if c.chance(1, 2) && !m.crit.iter().any(|e| e.0 == n) {
                        m.crit.push((n, String::new()));
                    }
                }
            }
        }
        let r = Req { m: m.clone(), comment: gen_token(c, 1, 9) };
        let mut canon = m.clone();
        canon.crit.sort();
        canon.ext.sort();
        let want = canon.tbs();
        c.end();
        // one place computes the signature
        let mut p = c.stream();
        let so = gen_sigopt(c);
        let sig = ca_m.sign(&want, &so, &mut p);
        let mut finals: Vec<Vec<u8>> = vec![];
        let places = c.range(2, 7);
        for i in 0..places {
            if c.chance(1, 10) {
                crowd(c, &r, &want, &sig, &canon, &sub, &ca);
                continue;
            }
            let h = gen_how(c, &r);
            let kind = c.pick(6);
            let name = ["front_end", "clone", "other_thread", "forked_process", "restarted_process", "parsed_back"][kind];
            c.begin(name);
            if c.chance(1, 4) {
                let t = c.draw(4_000_000_000) as i64;
                set_wall(t);
                c.fault("clock_jump");
            }
            let got = match kind {
                0 => tbs(&build(&r, &h, &sub, &ca)),
                1 => {
                    let b = build(&r, &h, &sub, &ca);
                    let cl = b.clone();
                    let first = tbs(&b);
                    let again = tbs(&b);
                    ensure!(first == again, "two calls on one certificate differ", "");
                    drop(b);
                    let second = tbs(&cl);
                    ensure!(first == second, "clone has other bytes", "{} / {}", hex(&first), hex(&second));
                    second
                }
                2 => {
                    c.stat("sched.thread");
                    let moved = c.chance(1, 2);
                    if moved {
                        let b = build(&r, &h, &sub, &ca);
                        place_thread(|| tbs(&b))
                    } else {
                        place_thread(|| tbs(&build(&r, &h, &sub, &ca)))
                    }
                }
                3 | 4 => {
                    let tag = c.draw(1 << 32);
                    c.fault(if kind == 3 { "process_forked" } else { "process_restart" });
                    let f = || {
                        let cc = cx();
                        cc.ent = Prng::new(cc.seed ^ tag.wrapping_mul(0xC0FFEE) ^ 0x77);
                        if kind == 3 {
                            tbs(&build(&r, &h, &sub, &ca))
                        } else {
                            // a new thread of a new process: the hash seed is drawn anew
                            cc.now_ns += tag;
                            place_thread(|| tbs(&build(&r, &h, &sub, &ca)))
                        }
                    };
                    match in_child(f) {
                        Some(v) => v,
                        None => {
                            c.end();
                            continue;
                        }
                    }
                }
                _ => {
                    // a certificate issued elsewhere comes back and is rebuilt from its fields
                    let shuffled = MCert { crit: h.crit.iter().map(|i| m.crit[*i].clone()).collect(), ext: h.ext.iter().map(|i| m.ext[*i].clone()).collect(), ..m.clone() };
                    let t = shuffled.tbs();
                    let s = ca_m.sign(&t, &so, &mut p);
                    let full = shuffled.full(&s);
                    match lib("Certificate::from_bytes", || Certificate::from_bytes(&full)) {
                        Ok(x) => tbs(&x),
                        Err(e) => violate("honest certificate rejected", e.to_string()),
                    }
                }
            };
            ev!("{name}: {} bytes {:016x}", got.len(), fnv(FNV0, &got));
            judge(&want, &got, name);
            // a signature made elsewhere is attached here
            if kind < 5 {
                let late = c.chance(1, 2);
                let attach = || {
                    let mut b = build(&r, &h, &sub, &ca);
                    if late {
                        let _ = tbs(&b);
                        b = b.clone();
                    }
                    match lib("add_signature", || b.add_signature(&sig)) {
                        Ok(x) => {
                            let line = format!("{x}");
                            base64::decode(line.split_whitespace().nth(1).unwrap_or("")).unwrap_or_default()
                        }
                        Err(e) => violate("signature made in another place refused", format!("{name}: {e}")),
                    }
                };
                let done = match kind {
                    2 => Some(place_thread(attach)),
                    3 | 4 if i % 2 == 0 => {
                        let tag = c.draw(1 << 32);
                        in_child(|| {
                            cx().ent = Prng::new(cx().seed ^ tag.wrapping_mul(0xBADC0DE));
                            place_thread(attach)
                        })
                    }
                    _ => Some(attach()),
                };
                if let Some(d) = done {
                    ensure!(d == canon.full(&sig), "finished certificate is not the signed bytes and signature", "{name}: {}", hex(&d));
                    finals.push(d);
                }
            }
            c.end();
        }
        ensure!(finals.windows(2).all(|w| w[0] == w[1]), "finished certificates differ between places", "");
        c.shape_add(&format!("{}/{}", m.crit.len().min(9), m.ext.len().min(9)));
    }
}

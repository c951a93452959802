//! C07: every heap buffer that held a secret is watched until it is given back to the allocator.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::{alloc, fs, sched, sys};
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 60000,
    quick_s: 45,
    thorough_runs: 2_000_000,
    rule: "Runs are lifetimes of private keys of every kind: created by every loader, cloned, moved between threads, replaced, consumed by signing calls that succeed or fail, dropped in containers and while unwinding from injected panics, with the allocator checking each watched block when it is freed.",
    real: &["sshcerts::ssh::{privkey,signature}", "zeroize", "ring", "the optimised release code"],
    stub: &["global allocator (observing, real memory)", "OS randomness", "disk"],
    assumptions: &["only the buffers reachable from PrivateKey's fields are watched; temporaries inside third-party crates are not"],
};

/// Watches all secret buffers of a key.
fn watch(k: &PrivateKey, tag: u32) -> usize {
    let mut n = 0;
    let mut w = |v: &[u8]| {
        if v.iter().any(|b| *b != 0) {
            alloc::watch(v.as_ptr(), v.len(), tag);
            n += 1;
        }
    };
    match &k.kind {
        PrivateKeyKind::Rsa(r) => {
            w(&r.d);
            w(&r.coefficient);
            w(&r.p);
            w(&r.q);
            if let Some(x) = &r.exp {
                w(x)
            }
            if let Some(x) = &r.exq {
                w(x)
            }
        }
        PrivateKeyKind::Ecdsa(e) => w(&e.key),
        PrivateKeyKind::Ed25519(e) => w(&e.key),
        PrivateKeyKind::EcdsaSk(e) => {
            w(&e.handle);
            if let Some(p) = &e.pin {
                w(p.as_bytes())
            }
        }
        PrivateKeyKind::Ed25519Sk(e) => {
            w(&e.handle);
            if let Some(p) = &e.pin {
                w(p.as_bytes())
            }
        }
    }
    n
}
fn settle(tag: u32, how: &str, kind: &str) {
    for w in alloc::watches().iter().filter(|w| w.tag == tag) {
        ensure!(w.state != 2, "secret memory freed without being wiped", "{kind} key, {how}: a buffer of {} secret bytes went back to the allocator with its content", w.len);
        ensure!(w.state == 1, "secret memory of a dead key still allocated", "{kind} key, {how}: {} bytes leaked", w.len);
    }
}
struct Live {
    k: PrivateKey,
    m: MKey,
    tag: u32,
    copy: Snapshot,
}
#[derive(PartialEq)]
struct Snapshot(Vec<u8>);
fn snap(k: &PrivateKey) -> Snapshot {
    let mut o = vec![];
    match &k.kind {
        PrivateKeyKind::Rsa(r) => {
            for v in [&r.n, &r.e, &r.d, &r.coefficient, &r.p, &r.q] {
                o.extend_from_slice(v);
            }
            o.extend(r.exp.clone().unwrap_or_default());
            o.extend(r.exq.clone().unwrap_or_default());
        }
        PrivateKeyKind::Ecdsa(e) => o.extend_from_slice(&e.key),
        PrivateKeyKind::Ed25519(e) => o.extend_from_slice(&e.key),
        PrivateKeyKind::EcdsaSk(e) => {
            o.extend_from_slice(&e.handle);
            o.extend(e.pin.clone().unwrap_or_default().bytes());
        }
        PrivateKeyKind::Ed25519Sk(e) => {
            o.extend_from_slice(&e.handle);
            o.extend(e.pin.clone().unwrap_or_default().bytes());
        }
    }
    Snapshot(o)
}
/// The secrets of a key, as a library would copy them. RSA signing hands its numbers to an ASN.1 encoder and to the
/// cryptographic library, whose temporaries are theirs.
fn secrets(k: &PrivateKey) -> Vec<Vec<u8>> {
    let all: Vec<&[u8]> = match &k.kind {
        PrivateKeyKind::Ecdsa(e) => vec![&e.key],
        PrivateKeyKind::Ed25519(e) => vec![&e.key[..e.key.len().min(32)]],
        _ => vec![],
    };
    all.into_iter().map(|s| s.iter().skip_while(|b| **b == 0).copied().collect::<Vec<u8>>()).filter(|s| s.len() >= 16).collect()
}
/// Runs a call of the library on a key; no copy of the secrets may be left in freed memory.
fn traceless<T>(what: &str, secrets: Vec<Vec<u8>>, f: impl FnOnce() -> T) -> T {
    let (r, leak) = alloc::scan(secrets, || lib(what, f));
    if let Some((n, i)) = leak {
        violate("copy of a secret freed without being wiped", format!("{what} freed a block of {n} bytes with secret number {i} of the key in it"));
    }
    r
}
fn is_sk(m: &MKey) -> bool {
    m.pk.name().starts_with("sk-")
}
fn usable(l: &Live, what: &str) {
    ensure!(snap(&l.k) == l.copy, "a living key lost its material", "{what}: {}", l.m.pk.name());
    let signs = !is_sk(&l.m) && !matches!(&l.m.pk, MPub::Ecdsa { bits: 521, .. }) && !rsa_odd(&l.m.pk);
    if signs {
        match traceless("PrivateKey::sign", secrets(&l.k), || l.k.sign(b"alive")) {
            Some(s) => ensure!(verify(&l.m.pk, b"alive", &s).is_some(), "a living key signs wrongly", "{what}"),
            None => violate("a living key cannot sign", format!("{what}: {}", l.m.pk.name())),
        }
    }
}
fn make(c: &mut Ctx) -> (PrivateKey, MKey) {
    let how = c.pick(6);
    if how == 5 {
        c.begin("generate_key");
        let k = match lib("PrivateKey::new", || PrivateKey::new(KeyTypeKind::Ed25519, "g")) {
            Ok(k) => k,
            Err(e) => violate("key generation failed", e.to_string()),
        };
        let seed = match &k.kind {
            PrivateKeyKind::Ed25519(x) if x.key.len() >= 32 => x.key[..32].to_vec(),
            _ => violate("generated key of another kind", String::new()),
        };
        c.end();
        return (k, ed25519(&seed));
    }
    c.begin("load_key");
    let m = gen_key(c, &ALL_KK, false);
    let sk = if is_sk(&m) { Some(SkPart { flags: 1, handle: { let mut h = gen_bytes(c, 300); h.push(1); h }, reserved: vec![] }) } else { None };
    let r = match how {
        3 => {
            let e = Enc { pass: "pw", salt: vec![3; 16], rounds: 1 };
            let t = priv_pem(&priv_blob(&m, sk.as_ref(), "c", 9, Some(&e)));
            lib("PrivateKey::from_string_with_passphrase", || PrivateKey::from_string_with_passphrase(&t, Some("pw".into())))
        }
        4 => {
            fs::put("/sim/k", priv_pem(&priv_blob(&m, sk.as_ref(), "c", 9, None)).as_bytes());
            lib("PrivateKey::from_path", || PrivateKey::from_path("/sim/k"))
        }
        2 => lib("PrivateKey::from_bytes", || PrivateKey::from_bytes(&priv_section(&m, sk.as_ref(), "c"))),
        _ => {
            let t = priv_pem(&priv_blob(&m, sk.as_ref(), "c", 9, None));
            lib("PrivateKey::from_string", || PrivateKey::from_string(&t))
        }
    };
    let mut k = match r {
        Ok(k) => k,
        Err(e) => violate("valid private key rejected", e.to_string()),
    };
    if sk.is_some() && c.chance(1, 2) {
        let pin = format!("{}pin", gen_token(c, 1, 30));
        k.set_pin(&pin);
    }
    c.end();
    (k, m)
}

/// Several threads use, clone and drop one shared key (and clones of their own) at the same time.
fn crowd(c: &mut Ctx, l: Live, tag: &mut u32) {
    c.begin("shared_between_threads");
    let kind = l.m.pk.name();
    let n = 2 + c.pick(3);
    let Live { k, m, tag: t0, copy } = l;
    let shared = std::sync::Arc::new(k);
    let (m, copy) = (&m, &copy);
    let signs = !is_sk(m) && !matches!(&m.pk, MPub::Ecdsa { bits: 521, .. }) && !rsa_odd(&m.pk);
    let first = *tag + 1;
    *tag += n as u32;
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|i| -> Box<dyn FnOnce() + Send> {
            let a = shared.clone();
            let t = first + i as u32;
            let (cl, sign, consume) = (c.chance(2, 3), c.chance(1, 2), c.chance(1, 3));
            Box::new(move || {
                let own = if cl {
                    let x = lib("clone", || (*a).clone());
                    ensure!(snap(&x) == *copy, "clone has other material", "in thread {i} of {n}");
                    watch(&x, t);
                    Some(x)
                } else {
                    None
                };
                if sign && signs {
                    match lib("PrivateKey::sign", || a.sign(b"alive")) {
                        Some(s) => ensure!(verify(&m.pk, b"alive", &s).is_some(), "a living key signs wrongly", "in thread {i} of {n}"),
                        None => violate("a living key cannot sign", format!("in thread {i} of {n}")),
                    }
                }
                ensure!(snap(&a) == *copy, "a living key lost its material", "in thread {i} of {n}");
                lib("drop", move || drop(a));
                if let Some(x) = own {
                    ensure!(snap(&x) == *copy, "a living key lost its material", "clone in thread {i} of {n}");
                    if consume && signs {
                        let r = lib("new_with_private_key", || VerifiedSshSignature::new_with_private_key(b"m", "file", x, None));
                        ensure!(r.is_ok(), "a living key cannot sign", "clone in thread {i} of {n}");
                    } else {
                        lib("drop", move || drop(x));
                    }
                }
            })
        })
        .collect();
    drop(shared);
    sched::race("using a key", jobs);
    settle(t0, "shared by threads, dropped by the last", &kind);
    for t in first..first + n as u32 {
        settle(t, "cloned and dropped on a thread", &kind);
    }
    ev!("{kind} used and dropped by {n} threads");
    c.end();
}

pub fn run() {
    let c = cx();
    alloc::watch_reset();
    let mut tag = 0u32;
    let mut live: Vec<Live> = vec![];
    let add = |live: &mut Vec<Live>, k: PrivateKey, m: MKey, tag: &mut u32| {
        *tag += 1;
        let copy = snap(&k);
        let n = watch(&k, *tag);
        cx().stat_n("probe.secret_buffers_watched", n as u64);
        live.push(Live { k, m, tag: *tag, copy });
    };
    let (k, m) = make(c);
    add(&mut live, k, m, &mut tag);
    let steps = c.range(2, 9);
    for _ in 0..steps {
        if live.is_empty() || (live.len() < 4 && c.chance(1, 4)) {
            let (k, m) = make(c);
            add(&mut live, k, m, &mut tag);
            continue;
        }
        let i = c.pick(live.len());
        let kind = live[i].m.pk.name();
        if c.chance(1, 12) {
            let l = live.remove(i);
            crowd(c, l, &mut tag);
            continue;
        }
        let op = c.pick(14);
        match op {
            0 | 1 => {
                c.begin("clone");
                let k = traceless("clone", secrets(&live[i].k), || live[i].k.clone());
                ensure!(snap(&k) == live[i].copy, "clone has other material", "{kind}");
                let m = live[i].m.clone();
                add(&mut live, k, m, &mut tag);
                ev!("{kind} cloned");
                c.end();
            }
            2 => {
                c.begin("drop");
                let l = live.remove(i);
                drop(l.k);
                settle(l.tag, "dropped", &kind);
                ev!("{kind} dropped");
                c.end();
            }
            3 => {
                c.begin("replace_value");
                let (k, m) = make(c);
                let old = live[i].tag;
                tag += 1;
                watch(&k, tag);
                let copy = snap(&k);
                // assigning to the variable drops the old key in place
                live[i].k = k;
                live[i].m = m;
                live[i].tag = tag;
                live[i].copy = copy;
                settle(old, "replaced by assignment", &kind);
                ev!("{kind} replaced");
                c.end();
            }
            4 => {
                c.begin("drop_on_other_thread");
                let l = live.remove(i);
                let (k, t) = (l.k, l.tag);
                c.stat("sched.thread");
                std::thread::spawn(move || drop(k)).join().unwrap();
                settle(t, "dropped on another thread", &kind);
                ev!("{kind} dropped on another thread");
                c.end();
            }
            5 => {
                c.begin("drop_while_unwinding");
                let l = live.remove(i);
                let (k, t) = (l.k, l.tag);
                let boxed = c.chance(1, 2);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    if boxed {
                        let _b = Box::new(k);
                        std::panic::panic_any(Deliberate("application panics"));
                    } else {
                        let _k = k;
                        std::panic::panic_any(Deliberate("application panics"));
                    }
                }));
                assert!(r.is_err());
                c.fault("panic_while_key_alive");
                settle(t, "dropped while unwinding from a panic", &kind);
                c.end();
            }
            6 => {
                c.begin("drop_in_container");
                let l = live.remove(i);
                let other = lib("clone", || l.k.clone());
                tag += 1;
                let t2 = tag;
                watch(&other, t2);
                let t = l.tag;
                match c.pick(4) {
                    0 => {
                        let mut v = vec![l.k, other];
                        v.truncate(1);
                        settle(t2, "truncated out of a Vec", &kind);
                        v.clear();
                    }
                    1 => {
                        let mut o = Some(l.k);
                        let x = o.replace(other);
                        drop(x);
                        settle(t, "replaced in an Option", &kind);
                        o.take();
                    }
                    2 => {
                        let a = std::sync::Arc::new(l.k);
                        let b = a.clone();
                        drop(a);
                        drop(b);
                        drop(other);
                    }
                    _ => {
                        let mut h = std::collections::BTreeMap::new();
                        h.insert(1, l.k);
                        h.insert(1, other);
                        settle(t, "overwritten in a map", &kind);
                        h.clear();
                    }
                }
                settle(t, "dropped in a container", &kind);
                settle(t2, "dropped in a container", &kind);
                ev!("{kind} dropped in a container");
                c.end();
            }
            7 | 8 | 9 if !is_sk(&live[i].m) => {
                c.begin("consumed_by_signing");
                let l = live.remove(i);
                let fail = c.chance(1, 3);
                if fail {
                    let st = sys::rand_state();
                    st.fail_from = Some(st.draws);
                }
                let t = l.tag;
                let k = l.k;
                let ns = if c.chance(1, 6) { "" } else { "file" };
                let r = traceless("new_with_private_key", secrets(&k), || VerifiedSshSignature::new_with_private_key(b"m", ns, k, if c.chance(1, 2) { Some(HashAlgorithm::Sha256) } else { None }));
                sys::rand_state().fail_from = None;
                settle(t, if r.is_ok() { "consumed by a successful signing call" } else { "consumed by a failed signing call" }, &kind);
                ev!("{kind} consumed by signing: {}", r.is_ok());
                c.end();
            }
            10 if is_sk(&live[i].m) => {
                c.begin("set_pin_again");
                // the replaced PIN dies, the key lives on
                let had = match &live[i].k.kind {
                    PrivateKeyKind::Ed25519Sk(x) => x.pin.is_some(),
                    PrivateKeyKind::EcdsaSk(x) => x.pin.is_some(),
                    _ => false,
                };
                let pin = gen_token(c, 1, 40);
                let old_tag = live[i].tag;
                live[i].k.set_pin(&pin);
                if had {
                    for w in alloc::watches().iter().filter(|w| w.tag == old_tag) {
                        ensure!(w.state != 2, "secret memory freed without being wiped", "{kind} key: the replaced PIN of {} bytes went back to the allocator with its content", w.len);
                    }
                }
                // re-watch: handle stays, pin is new
                alloc::unwatch(old_tag);
                tag += 1;
                live[i].tag = tag;
                watch(&live[i].k, tag);
                live[i].copy = snap(&live[i].k);
                ev!("{kind} gets another PIN (had one: {had})");
                c.end();
            }
            11 => {
                c.begin("swap");
                let j = c.pick(live.len());
                if i != j {
                    let (a, b) = if i < j { live.split_at_mut(j) } else { live.split_at_mut(i) };
                    let (x, y) = (&mut a[i.min(j)], &mut b[0]);
                    std::mem::swap(x, y);
                }
                c.end();
            }
            12 => {
                c.begin("failed_load");
                // a key whose public half does not match is built and must be wiped when the loader rejects it;
                // its buffers are unknown to us, but the rejected load must not disturb living keys
                let mut b = priv_blob(&live[i].m, None, "c", 9, None);
                if !is_sk(&live[i].m) {
                    let n = b.len();
                    let p = c.pick(n);
                    b[p] ^= 1;
                    let t = priv_pem(&b);
                    let _ = lib("PrivateKey::from_string", || PrivateKey::from_string(&t));
                    c.fault("file_damage");
                }
                c.end();
            }
            _ => {
                c.begin("use");
                usable(&live[i], "in use");
                c.end();
            }
        }
        for l in &live {
            ensure!(snap(&l.k) == l.copy, "a living key lost its material", "{} after operation {op}", l.m.pk.name());
        }
    }
    for l in &live {
        usable(l, "at the end");
    }
    while let Some(l) = live.pop() {
        let kind = l.m.pk.name();
        drop(l.k);
        settle(l.tag, "dropped at the end", &kind);
    }
}

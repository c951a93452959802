//! C06: where nonces, serials and new keys come from.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::sched;
use crate::seam::sys::{rand_state, set_wall};
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 60000,
    quick_s: 60,
    thorough_runs: 3_000_000,
    rule: "Runs are histories of certificate builders and key generations on several threads and in forked processes, with the wall clock jumping, the OS random source answering short, interrupted or failing at a chosen draw.",
    real: &["sshcerts::ssh::{cert,privkey}", "ring SystemRandom, getrandom crate"],
    stub: &["getrandom system call", "clock", "fork (new address space, entropy diverges)"],
    assumptions: &["the operating system's random source is itself good", "two 8-byte windows of independent random data never collide within a run"],
};

#[derive(Clone)]
struct Made {
    what: &'static str,
    long: Vec<u8>,  // nonce or seed
    short: Vec<u8>, // serial or check value
}
enum Op {
    Cert,
    Key,
}
fn find(h: &[u8], n: &[u8], skip: Option<(usize, usize)>) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == n && skip.map_or(true, |(a, b)| i + n.len() <= a || i >= b))
}
fn perform(op: &Op, pk: &PublicKey, ca: &PublicKey, comment: &str) -> Result<Made, sshcerts::error::Error> {
    match op {
        Op::Cert => {
            let cert = lib("Certificate::builder", || Certificate::builder(pk, CertType::User, ca))?;
            Ok(Made { what: "certificate", long: cert.nonce.clone(), short: cert.serial.to_be_bytes().to_vec() })
        }
        Op::Key => {
            let k = lib("PrivateKey::new", || PrivateKey::new(KeyTypeKind::Ed25519, comment))?;
            let seed = match &k.kind {
                PrivateKeyKind::Ed25519(x) if x.key.len() >= 32 => x.key[..32].to_vec(),
                _ => violate("generated key of another kind", String::new()),
            };
            let m = ed25519(&seed);
            ensure!(pub_matches(&k.pubkey, &m.pk), "generated key pair does not match", "");
            Ok(Made { what: "key", long: seed, short: k.magic.to_be_bytes().to_vec() })
        }
    }
}
/// The values must come from fresh bytes of the OS source drawn by this very call.
fn judge(m: &Made, served: &[u8]) -> bool {
    let need = m.long.len() + m.short.len();
    ensure!(m.long.len() == 32, "nonce or seed has the wrong length", "{}: {} bytes", m.what, m.long.len());
    ensure!(served.len() >= need, "values made from less randomness than they hold", "{}: {} bytes drawn from the OS for {need} bytes", m.what, served.len());
    let Some(at) = find(served, &m.long, None) else { return false };
    let skip = Some((at, at + m.long.len()));
    let mut rev = m.short.clone();
    rev.reverse();
    find(served, &m.short, skip).is_some() || find(served, &rev, skip).is_some()
}
/// Not a plain copy of the drawn bytes: decide by experiment. The same call is repeated in forked copies of this
/// process that differ only in what the OS source answers; every byte has to follow the source.
fn experiment(c: &mut Ctx, op: &Op, pk: &PublicKey, ca: &PublicKey, what: &str) {
    c.probe("value_is_not_a_plain_copy_of_os_randomness");
    let mut seen: Vec<Vec<u8>> = vec![];
    for t in 0..48u64 {
        let Some(b) = in_child(|| {
            cx().ent = Prng::new(0xABCD ^ t.wrapping_mul(0x9E37));
            match perform(op, pk, ca, "x") {
                Ok(m) => [m.long, m.short].concat(),
                Err(_) => vec![],
            }
        }) else {
            continue;
        };
        seen.push(b);
    }
    let n = seen.iter().map(|s| s.len()).min().unwrap_or(0);
    for i in 0..n {
        let mut v: Vec<u8> = seen.iter().map(|s| s[i]).collect();
        if v.len() >= 40 {
            let stuck = v.iter().fold(!0u8, |a, b| a & b) | !v.iter().fold(0u8, |a, b| a | b);
            ensure!(stuck == 0, "value does not follow the random source", "{what}: bits {stuck:#010b} of byte {i} never change in {} executions that differ only in the OS randomness", v.len());
        }
        v.sort();
        v.dedup();
        ensure!(v.len() >= 12, "value does not follow the random source", "{what}: byte {i} takes {} values in {} executions that differ only in the OS randomness", v.len(), seen.len());
    }
}
/// Several threads make certificates and keys at the same time.
fn crowd(c: &mut Ctx, sub: &PublicKey, ca: &PublicKey, made: &mut Vec<Made>) {
    c.begin("concurrent_makers");
    let n = 2 + c.pick(3);
    let st = rand_state();
    st.short = [None, Some(1usize), Some(7), Some(16)][c.pick(4)];
    st.eintr_every = c.draw(4);
    (st.fail_at, st.fail_from) = (None, None);
    if c.chance(1, 4) {
        st.fail_at = Some(st.draws + c.draw(if st.short == Some(1) { 90 } else { 12 }));
    }
    let f0 = st.failed;
    st.by_thread.clear();
    let jobs: Vec<Box<dyn FnOnce() -> Vec<(Made, bool, &'static str)> + Send>> = (0..n)
        .map(|i| -> Box<dyn FnOnce() -> Vec<(Made, bool, &'static str)> + Send> {
            let ops: Vec<bool> = (0..1 + c.pick(3)).map(|_| c.pick(3) == 2).collect();
            Box::new(move || {
                let mut out = vec![];
                for k in ops {
                    let op = if k { Op::Key } else { Op::Cert };
                    let mine = || rand_state().failed_by.get(&sched::me()).copied().unwrap_or(0);
                    let f0 = mine();
                    let at = rand_state().by_thread.get(&sched::me()).map_or(0, |v| v.len());
                    match perform(&op, sub, ca, &format!("t{i}")) {
                        Ok(m) => {
                            ensure!(mine() == f0, "value made although the random source failed", "{} in thread {i} of {n}", m.what);
                            let plain = judge(&m, &rand_state().by_thread.get(&sched::me()).map(|v| v[at..].to_vec()).unwrap_or_default());
                            out.push((m, plain, if k { "key" } else { "certificate" }));
                        }
                        Err(e) => ensure!(mine() > f0, "call failed without a fault", "{e} in thread {i} of {n}"),
                    }
                }
                out
            })
        })
        .collect();
    let r = sched::race("making certificates and keys", jobs);
    let st = rand_state();
    (st.fail_at, st.short, st.eintr_every) = (None, None, 0);
    let failed = st.failed - f0;
    ev!("{n} threads make {} values at the same time, {failed} draws failed", r.iter().map(|x| x.len()).sum::<usize>());
    for (m, plain, what) in r.into_iter().flatten() {
        if !plain {
            experiment(c, &if what == "key" { Op::Key } else { Op::Cert }, sub, ca, what);
        }
        made.push(m);
    }
    c.end();
}
pub fn run() {
    let c = cx();
    let ca_m = gen_key(c, &SOFT_KK, true);
    let sub_m = gen_key(c, &ALL_KK, false);
    let ca = lib_pub(c, &ca_m.pk);
    let sub = lib_pub(c, &sub_m.pk);
    let mut made: Vec<Made> = vec![];
    let start = 1_000_000_000 + c.draw(1_000_000_000) as i64;
    set_wall(start);
    let n = c.range(2, 10);
    for i in 0..n {
        if c.chance(1, 10) {
            crowd(c, &sub, &ca, &mut made);
            continue;
        }
        let op = if c.pick(3) == 2 { Op::Key } else { Op::Cert };
        // the clock stands still, jumps or goes back
        match c.pick(4) {
            0 => (),
            1 => set_wall(start),
            2 => {
                set_wall(start - c.draw(100_000_000) as i64);
                c.fault("clock_jump_back");
            }
            _ => c.now_ns += c.draw(1_000_000_000),
        }
        let st = rand_state();
        st.short = [None, Some(1usize), Some(7), Some(16)][c.pick(4)];
        st.eintr_every = c.draw(4);
        st.fail_at = None;
        st.fail_from = None;
        let may_fail = c.chance(1, 3);
        if may_fail {
            let at = st.draws + c.draw(if st.short == Some(1) { 44 } else { 6 });
            if c.pick(2) == 0 {
                st.fail_at = Some(at);
            } else {
                st.fail_from = Some(at);
            }
        }
        let (s0, f0) = (st.served.len(), st.failed);
        let mode = c.pick(6);
        let name = match (&op, mode) {
            (Op::Cert, 4) => "builder_in_new_thread",
            (Op::Cert, 5) => "builder_in_forked_process",
            (Op::Cert, _) => "builder",
            (Op::Key, 4) => "new_key_in_new_thread",
            (Op::Key, 5) => "new_key_in_forked_process",
            _ => "new_key",
        };
        c.begin(name);
        if mode == 5 && !may_fail {
            // the child gets its own entropy, as from a real kernel
            let tag = c.draw(1 << 32);
            let b = in_child(|| {
                cx().ent = Prng::new(cx().seed ^ tag.wrapping_mul(0xC0FFEE) ^ 0x1234_5678_9ABC);
                let s0 = rand_state().served.len();
                match perform(&op, &sub, &ca, "child") {
                    Ok(m) => {
                        let ok = judge(&m, &rand_state().served[s0..]);
                        let mut v = vec![ok as u8];
                        v.extend(&m.long);
                        v.extend(&m.short);
                        v
                    }
                    Err(e) => violate("call failed without a fault", e.to_string()),
                }
            });
            if let Some(b) = b {
                let m = Made { what: "forked", long: b[1..33].to_vec(), short: b[33..].to_vec() };
                if b[0] == 0 {
                    experiment(c, &op, &sub, &ca, "forked");
                }
                made.push(m);
                c.fault("process_forked");
            }
            c.end();
            continue;
        }
        let comment = format!("c{i}");
        let r = if mode == 4 {
            c.stat("sched.thread");
            std::thread::scope(|s| {
                s.spawn(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(&op, &sub, &ca, &comment)))).join().unwrap()
            })
        } else {
            Ok(perform(&op, &sub, &ca, &comment))
        };
        let r = match r {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        };
        let st = rand_state();
        let failed = st.failed > f0;
        st.fail_at = None;
        st.fail_from = None;
        let served = st.served[s0..].to_vec();
        match r {
            Ok(m) => {
                ev!("{name}: made {} from {} bytes of OS randomness", hex(&m.long), served.len());
                ensure!(!failed, "value made although the random source failed", "{}", m.what);
                if !judge(&m, &served) {
                    experiment(c, &op, &sub, &ca, m.what);
                }
                made.push(m);
            }
            Err(e) => {
                ev!("{name}: {e}");
                ensure!(failed, "call failed without a fault", "{e}");
            }
        }
        c.end();
    }
    rand_state().short = None;
    rand_state().eintr_every = 0;
    // nothing is ever shared: no 8-byte piece of one value occurs in any other value or in a public field
    let pubs = [sub_m.pk.blob(), ca_m.pk.blob()].concat();
    for i in 0..made.len() {
        for w in made[i].long.windows(8).chain(made[i].short.windows(8)) {
            let z = w.iter().all(|b| *b == w[0]);
            ensure!(!z, "constant bytes in a random value", "{}", made[i].what);
            ensure!(find(&pubs, w, None).is_none(), "random value copied from a public field", "{}", made[i].what);
            let hits: usize = made.iter().map(|m| m.long.windows(8).filter(|x| *x == w).count() + m.short.windows(8).filter(|x| *x == w).count()).sum();
            ensure!(hits == 1, "random value repeated", "{} {} occurs {hits} times", made[i].what, hex(w));
        }
    }
    // and the certificate that leaves the building carries that very nonce and serial
    if c.chance(1, 2) {
        c.begin("sign_certificate");
        let k = lib_priv(&ca_m, "", 1);
        let b = match lib("Certificate::builder", || Certificate::builder(&sub, CertType::Host, &ca)) {
            Ok(b) => b,
            Err(e) => violate("call failed without a fault", e.to_string()),
        };
        let (nonce, serial) = (b.nonce.clone(), b.serial);
        match lib("Certificate::sign", || b.key_id("x").sign(&k)) {
            Ok(cert) => {
                let bytes = base64::decode(format!("{cert}").split_whitespace().nth(1).unwrap_or("")).unwrap_or_default();
                match MCert::read(&bytes) {
                    Some((m, _, _)) => ensure!(m.nonce == nonce && m.serial == serial, "issued certificate carries another nonce or serial", "{}", hex(&m.nonce)),
                    None => violate("issued certificate unreadable", hex(&bytes)),
                }
            }
            Err(e) => violate("healthy signer failed", e.to_string()),
        }
        c.end();
    }
}

//! C04: key files written through faulty writers and disks, then reloaded after crashes.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::{fs, sched, sys};
use crate::{ensure, ev};
use sshcerts::ssh::*;
use std::io::Write;

pub const INFO: Info = Info {
    quick_runs: 60000,
    quick_s: 60,
    thorough_runs: 3_000_000,
    rule: "Runs are save/crash/reload histories of one key store: keys of every kind are saved through writers and files that accept short pieces, are interrupted, run full or fail, the machine crashes at a chosen point with only durable data surviving, files are torn or bit-flipped, and everything is reloaded.",
    real: &["sshcerts::ssh::{privkey,pubkey,reader,writer,keytype}", "std::fs::File, BufWriter", "ring"],
    stub: &["disk and page cache", "io::Write implementations", "OS randomness", "reference key encoder (OpenSSL)"],
    assumptions: &["fsynced data survives a crash", "OpenSSL verifies signatures correctly"],
};

/// An application-supplied writer.
struct Pipe {
    got: Vec<u8>,
    chunk: usize,
    intr_every: u64,
    calls: u64,
    fail_at: Option<(usize, std::io::ErrorKind)>,
    zero_at: Option<usize>,
    failed: bool,
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _g = sched::np();
        sched::point();
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr_every > 0 && self.calls % (self.intr_every + 1) == self.intr_every {
            cx().fault("writer_interrupted");
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.chunk > 0 && n > self.chunk {
            n = self.chunk;
            cx().stat("fault.writer_short");
        }
        if let Some(z) = self.zero_at {
            if self.got.len() >= z {
                cx().fault("writer_accepts_nothing");
                self.failed = true;
                return Ok(0);
            }
            n = n.min(z - self.got.len());
        }
        if let Some((at, k)) = self.fail_at {
            if self.got.len() >= at {
                cx().fault("writer_error");
                self.failed = true;
                return Err(k.into());
            }
            n = n.min(at - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Entry {
    key: PrivateKey,
    m: MKey,
    sk: Option<SkPart>,
    comment: String,
    magic: u32,
    text: String,
}
fn gen_entry(c: &mut Ctx) -> Entry {
    if c.pick(6) == 0 {
        c.begin("generate_key");
        let comment = gen_string(c, 300);
        let key = match lib("PrivateKey::new", || PrivateKey::new(KeyTypeKind::Ed25519, &comment)) {
            Ok(k) => k,
            Err(e) => violate("key generation failed without a fault", e.to_string()),
        };
        let seed = match &key.kind {
            PrivateKeyKind::Ed25519(k) if k.key.len() >= 32 => k.key[..32].to_vec(),
            _ => violate("generated key is not an Ed25519 key", String::new()),
        };
        let m = ed25519(&seed);
        ensure!(pub_matches(&key.pubkey, &m.pk), "generated key pair does not match", "{:?}", key.pubkey);
        let magic = key.magic;
        let text = priv_pem(&priv_blob(&m, None, &comment, magic, None));
        c.end();
        return Entry { key, m, sk: None, comment, magic, text };
    }
    c.begin("import_key");
    let m = gen_key(c, &ALL_KK, false);
    let sk = if m.pk.name().starts_with("sk-") {
        Some(SkPart { flags: [1u8, 0, 0x21, 0x25, 0xff][c.pick(5)], handle: gen_bytes(c, 1000), reserved: if c.chance(1, 4) { gen_bytes(c, 64) } else { vec![] } })
    } else {
        None
    };
    let comment = gen_string(c, 3000);
    let magic = gen_u64(c) as u32;
    let text = priv_pem(&priv_blob(&m, sk.as_ref(), &comment, magic, None));
    let mut key = match lib("PrivateKey::from_string", || PrivateKey::from_string(&text)) {
        Ok(k) => k,
        Err(e) => violate("valid private key rejected", format!("{e}: {} comment {comment:?}", m.pk.name())),
    };
    if sk.is_some() && c.chance(1, 3) {
        key.set_pin("1234");
        key.set_device_path("/dev/hidraw0");
    }
    c.end();
    Entry { key, m, sk, comment, magic, text }
}
fn pipe(c: &mut Ctx, len: usize) -> Pipe {
    let mut p = Pipe { got: vec![], chunk: [0usize, 1, 7, 64, 200][c.pick(5)], intr_every: c.draw(4), calls: 0, fail_at: None, zero_at: None, failed: false };
    use std::io::ErrorKind::*;
    match c.pick(4) {
        0 | 1 => (),
        2 => p.fail_at = Some((c.pick(len + 1), [BrokenPipe, StorageFull, PermissionDenied, WouldBlock, Other, UnexpectedEof, TimedOut][c.pick(7)])),
        _ => p.zero_at = Some(c.pick(len + 1)),
    }
    p
}
/// What is stored must be this key, in every respect.
fn same_key(what: &str, k: &PrivateKey, e: &Entry) {
    ensure!(pub_matches(&k.pubkey, &e.m.pk), "reloaded as a different public key", "{what}: {:?}", k.pubkey);
    ensure!(k.key_type.name == e.m.pk.name(), "reloaded with another key type", "{what}: {}", k.key_type.name);
    ensure!(k.comment == e.comment, "private key comment lost", "{what}: {:?} instead of {:?}", k.comment, e.comment);
    ensure!(k.magic == e.magic, "check value lost", "{what}: {} instead of {}", k.magic, e.magic);
    let ok = match (&k.kind, &e.m.sec, &e.sk) {
        (PrivateKeyKind::Ed25519Sk(x), _, Some(s)) => x.flags == s.flags && x.handle == s.handle && x.reserved == s.reserved && x.pin.is_none(),
        (PrivateKeyKind::EcdsaSk(x), _, Some(s)) => x.flags == s.flags && x.handle == s.handle && x.reserved == s.reserved && x.pin.is_none(),
        (PrivateKeyKind::Ed25519(x), Sec::Ed25519(s), None) => x.key.len() >= 32 && x.key[..32] == s[..],
        (PrivateKeyKind::Ecdsa(x), Sec::Ecdsa(s), None) => strip(&x.key) == strip(s),
        (PrivateKeyKind::Rsa(x), Sec::Rsa(d), None) => {
            let r = openssl::rsa::Rsa::private_key_from_der(d).unwrap();
            strip(&x.d) == r.d().to_vec()
                && strip(&x.p) == r.p().unwrap().to_vec()
                && strip(&x.q) == r.q().unwrap().to_vec()
                && strip(&x.coefficient) == r.iqmp().unwrap().to_vec()
                && strip(&x.n) == r.n().to_vec()
                && strip(&x.e) == r.e().to_vec()
                && x.exp.as_ref().map_or(true, |v| strip(v) == r.dmp1().unwrap().to_vec())
                && x.exq.as_ref().map_or(true, |v| strip(v) == r.dmq1().unwrap().to_vec())
        }
        _ => false,
    };
    ensure!(ok, "reloaded with different secret material", "{what}: {}", e.m.pk.name());
}
fn signs(c: &mut Ctx, what: &str, k: &PrivateKey, e: &Entry) {
    let can = e.sk.is_none() && !matches!(&e.m.pk, MPub::Ecdsa { bits: 521, .. }) && !rsa_odd(&e.m.pk);
    if can {
        let data = c.stream().bytes(40);
        match lib("PrivateKey::sign", || k.sign(&data)) {
            Some(s) => ensure!(verify(&e.m.pk, &data, &s).is_some(), "reloaded key signs for another public key", "{what}"),
            None => violate("reloaded key cannot sign", format!("{what}: {}", e.m.pk.name())),
        }
    }
}
fn write_pipe(e: &Entry, p: &mut Pipe) -> bool {
    let r = lib("PrivateKey::write", || e.key.write(p));
    if r.is_ok() {
        ensure!(!p.failed, "write reported success although the writer failed", "{} bytes accepted", p.got.len());
        ensure!(p.got == e.text.as_bytes(), "write reported success but stored something else", "{} bytes instead of {}", p.got.len(), e.text.len());
    } else {
        ensure!(p.failed, "write failed although the writer did not", "{:?}", r);
    }
    r.is_ok()
}

/// Several threads store and load keys at the same time, each in a place of its own.
fn crowd(c: &mut Ctx, entries: &[Entry]) {
    c.begin("concurrent_saves");
    let n = 2 + c.pick(3);
    let mut jobs: Vec<Box<dyn FnOnce() -> bool + Send>> = vec![];
    for t in 0..n {
        let e = &entries[c.pick(entries.len())];
        let how = c.pick(4);
        let mut p = pipe(c, e.text.len() + 2);
        let gens = 1 + c.pick(2);
        jobs.push(Box::new(move || {
            let mut fine = true;
            for _ in 0..gens {
                let k = match how {
                    0 | 1 => {
                        p.got.clear();
                        p.failed = false;
                        if !write_pipe(e, &mut p) {
                            fine = false;
                            continue;
                        }
                        let s = String::from_utf8(p.got.clone()).unwrap();
                        lib("PrivateKey::from_string", || PrivateKey::from_string(&s))
                    }
                    2 => {
                        let path = format!("/sim/key{t}");
                        let mut f = std::fs::File::create(&path).unwrap();
                        let r = lib("PrivateKey::write", || e.key.write(&mut f));
                        ensure!(r.is_ok(), "write failed although the writer did not", "{r:?}");
                        drop(f);
                        let full = fs::get(&path).unwrap_or_default();
                        ensure!(full == e.text.as_bytes(), "write reported success but stored something else", "{} bytes instead of {}", full.len(), e.text.len());
                        lib("PrivateKey::from_path", || PrivateKey::from_path(&path))
                    }
                    _ => {
                        let line = e.m.pk.line(Some("c"));
                        let x = lib("PublicKey::from_string", || PublicKey::from_string(&line));
                        match x {
                            Ok(x) => {
                                ensure!(pub_matches(&x, &e.m.pk), "public key file reloads as another key", "{line}");
                                let mut b: Vec<u8> = vec![];
                                let r = lib("PublicKey::write", || x.write(&mut b));
                                ensure!(r.is_ok() && b == format!("{line}\n").as_bytes(), "write reported success but stored something else", "{:?}", String::from_utf8_lossy(&b));
                            }
                            Err(x) => violate("valid public key rejected", format!("{x}: {line}")),
                        }
                        continue;
                    }
                };
                match k {
                    Ok(k) => {
                        same_key("after a concurrent write", &k, e);
                        signs(cx(), "after a concurrent write", &k, e);
                    }
                    Err(x) => violate("acknowledged key file does not load", format!("{x} in thread {t} of {n}")),
                }
            }
            fine
        }));
    }
    fs::disk().plan = fs::Plan { chunk: [0usize, 13, 512][c.pick(3)], write_chunk: [0usize, 13, 512][c.pick(3)], ..Default::default() };
    let r = sched::race("storing keys", jobs);
    fs::disk().plan = Default::default();
    ev!("{n} threads store keys at the same time: {} acknowledged", r.iter().filter(|x| **x).count());
    c.end();
}

pub fn run() {
    let c = cx();
    let entries: Vec<Entry> = (0..1 + c.pick(2)).map(|_| gen_entry(c)).collect();
    for e in &entries {
        same_key("freshly loaded or made", &{ let mut k = e.key.clone(); if let PrivateKeyKind::Ed25519Sk(x) = &mut k.kind { x.pin = None } if let PrivateKeyKind::EcdsaSk(x) = &mut k.kind { x.pin = None } k }, e);
    }
    let steps = c.range(1, 4);
    for _ in 0..steps {
        if c.chance(1, 10) {
            crowd(c, &entries);
            continue;
        }
        let ei = c.pick(entries.len());
        let e = &entries[ei];
        match c.pick(7) {
            0 => {
                c.begin("write_to_writer");
                let mut p = pipe(c, e.text.len() + 2);
                let ok = write_pipe(e, &mut p);
                ev!("{} written to a writer: {}", e.m.pk.name(), if ok { "acknowledged" } else { "failed" });
                if ok {
                    let s = String::from_utf8(p.got).unwrap();
                    let k = lib("PrivateKey::from_string", || PrivateKey::from_string(&s));
                    match k {
                        Ok(k) => {
                            same_key("after write", &k, e);
                            signs(c, "after write", &k, e);
                        }
                        Err(x) => violate("acknowledged key file does not load", x.to_string()),
                    }
                }
                c.end();
            }
            1 | 2 | 3 => {
                c.begin("save_file");
                // the usual protocol of an application: (over)write a file or a temporary, sync, rename
                let old = c.chance(1, 2);
                if old {
                    let o = &entries[c.pick(entries.len())];
                    fs::put("/sim/key", o.text.as_bytes());
                }
                let tmp = c.chance(1, 2);
                let path = if tmp { "/sim/key.tmp" } else { "/sim/key" };
                let sync = c.chance(2, 3);
                let buffered = c.chance(1, 2);
                let mut plan = fs::Plan { write_chunk: [0usize, 13, 512][c.pick(3)], write_eintr_every: c.draw(4), ..Default::default() };
                match c.pick(5) {
                    3 => plan.write_err_at = Some((c.pick(e.text.len() + 1), [libc::ENOSPC, libc::EIO, libc::EDQUOT][c.pick(3)])),
                    4 => plan.fsync_err = true,
                    _ => (),
                }
                let crash_mid = c.chance(1, 3);
                fs::disk().plan = plan;
                let mut acked = false;
                if let Ok(f) = std::fs::File::create(path) {
                    let r = if buffered {
                        let mut b = std::io::BufWriter::with_capacity([8192usize, 10, 64][c.pick(3)], f);
                        let r = lib("PrivateKey::write", || e.key.write(&mut b));
                        match r {
                            Ok(()) => b.into_inner().map_err(|x| x.into_error()),
                            Err(x) => {
                                let (f, _) = b.into_parts();
                                drop(f);
                                Err(x)
                            }
                        }
                    } else {
                        let mut f = f;
                        lib("PrivateKey::write", || e.key.write(&mut f)).map(|_| f)
                    };
                    if !crash_mid {
                        if let Ok(f) = &r {
                            let full = fs::get(path).unwrap_or_default();
                            ensure!(full == e.text.as_bytes(), "write reported success but stored something else", "{} bytes instead of {}", full.len(), e.text.len());
                            acked = !sync || f.sync_all().is_ok();
                        }
                        if acked && tmp {
                            fs::rename("/sim/key.tmp", "/sim/key");
                        }
                    }
                }
                fs::disk().plan = Default::default();
                let durable = acked && sync;
                ev!("{} saved to {path} sync={sync}: {}", e.m.pk.name(), if acked { "acknowledged" } else { "failed or crashed" });
                let crashed = crash_mid || c.chance(1, 2);
                if crashed {
                    fs::crash();
                }
                fs::disk().plan = fs::Plan { chunk: [0usize, 13, 512][c.pick(3)], eintr_every: c.draw(4), ..Default::default() };
                let r = lib("PrivateKey::from_path", || PrivateKey::from_path("/sim/key"));
                fs::disk().plan = Default::default();
                match r {
                    Ok(k) => {
                        let now = mpub_of(&k.pubkey);
                        ensure!(
                            entries.iter().any(|e| now == Some(norm(&e.m.pk))),
                            "a key file reloads as a key that was never stored",
                            "{:?}",
                            k.pubkey
                        );
                        if acked && (durable || !crashed) {
                            same_key("after restart", &k, e);
                            signs(c, "after restart", &k, e);
                        }
                        ev!("  reloads as {}", k.pubkey.key_type.name);
                    }
                    Err(x) => {
                        ensure!(!(acked && (durable || !crashed)), "acknowledged key file does not load", "{x}");
                        ev!("  does not reload: {x}");
                    }
                }
                c.end();
            }
            4 => {
                c.begin("damaged_file");
                let (mut b, armored) = if c.pick(2) == 0 { (e.text.clone().into_bytes(), true) } else { (unarmor(&e.text).unwrap(), false) };
                let other = if armored { entries[c.pick(entries.len())].text.clone().into_bytes() } else { unarmor(&entries[c.pick(entries.len())].text).unwrap() };
                let d = damage(c, &mut b, Some(&other));
                c.fault("file_damage");
                let s = if armored { b } else { priv_pem(&b).into_bytes() };
                fs::put("/sim/key", &s);
                let r = lib("PrivateKey::from_path", || PrivateKey::from_path("/sim/key"));
                ev!("{} damaged ({d}): {}", e.m.pk.name(), if r.is_ok() { "loads" } else { "rejected" });
                if let Ok(k) = r {
                    let now = mpub_of(&k.pubkey);
                    ensure!(entries.iter().any(|e| now == Some(norm(&e.m.pk))), "a damaged key file reloads as another key", "{d}: {:?}", k.pubkey);
                    // private and public halves agree structurally
                    let km = match &k.kind {
                        PrivateKeyKind::Rsa(_) => "ssh-rsa",
                        PrivateKeyKind::Ecdsa(_) => "ecdsa-sha2-nistp",
                        PrivateKeyKind::EcdsaSk(_) => "sk-ecdsa",
                        PrivateKeyKind::Ed25519(_) => "ssh-ed25519",
                        PrivateKeyKind::Ed25519Sk(_) => "sk-ssh-ed25519",
                    };
                    ensure!(k.pubkey.key_type.name.starts_with(km), "private part of another kind than the public part", "{km} {}", k.pubkey.key_type.name);
                    if !km.starts_with("sk-") {
                        c.probe("damaged_key_loaded_and_used");
                        let _ = lib("PrivateKey::sign", || k.sign(b"x"));
                    }
                }
                c.end();
            }
            5 => {
                c.begin("public_key_file");
                let comment = match c.pick(3) {
                    0 => None,
                    1 => Some("me@host".to_string()),
                    _ => Some(gen_token(c, 1, 40)),
                };
                let line = e.m.pk.line(comment.as_deref());
                let k = match lib("PublicKey::from_string", || PublicKey::from_string(&line)) {
                    Ok(k) => k,
                    Err(x) => violate("valid public key rejected", format!("{x}: {line}")),
                };
                let want = format!("{line}\n");
                let mut p = pipe(c, want.len() + 2);
                let r = lib("PublicKey::write", || k.write(&mut p));
                if r.is_ok() {
                    ensure!(!p.failed, "write reported success although the writer failed", "public key");
                    ensure!(p.got == want.as_bytes(), "write reported success but stored something else", "{:?} instead of {want:?}", String::from_utf8_lossy(&p.got));
                    fs::put("/sim/key.pub", &p.got);
                    match lib("PublicKey::from_path", || PublicKey::from_path("/sim/key.pub")) {
                        Ok(x) => {
                            ensure!(pub_matches(&x, &e.m.pk), "public key file reloads as another key", "{want}");
                            ensure!(x == k, "public key file reloads differently", "{want}");
                        }
                        Err(x) => violate("acknowledged key file does not load", format!("{x}: {want}")),
                    }
                } else {
                    ensure!(p.failed, "write failed although the writer did not", "{r:?}");
                }
                ev!("public key of {} written: {}", e.m.pk.name(), r.is_ok());
                c.end();
            }
            _ => {
                c.begin("resave_generations");
                // load and save again and again: byte for byte the same file
                let mut t = e.text.clone();
                let gens = c.range(1, 4);
                for g in 0..gens {
                    let k = match lib("PrivateKey::from_string", || PrivateKey::from_string(&t)) {
                        Ok(k) => k,
                        Err(x) => violate("acknowledged key file does not load", x.to_string()),
                    };
                    same_key("re-saved", &k, e);
                    let mut p = Pipe { got: vec![], chunk: [0usize, 1, 9][c.pick(3)], intr_every: c.draw(4), calls: 0, fail_at: None, zero_at: None, failed: false };
                    let r = lib("PrivateKey::write", || k.write(&mut p));
                    ensure!(r.is_ok(), "write failed although the writer did not", "{r:?}");
                    t = String::from_utf8(p.got).unwrap();
                    ensure!(t == e.text, "re-saving changes the file", "generation {g} of {}", e.m.pk.name());
                }
                let k = lib("PrivateKey::from_string", || PrivateKey::from_string(&t)).unwrap();
                signs(c, "re-saved", &k, e);
                ev!("{} re-saved {gens} times", e.m.pk.name());
                c.end();
            }
        }
    }
    let _ = sys::wall();
}

//! C05: loading from a faulty disk.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::{fs, sched};
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 40000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are load histories: allowed-signers files, certificates, public and private keys (plain and passphrase-protected) are written to the simulated disk and loaded while reads are short, interrupted, fail at a chosen byte, hit a file replaced meanwhile, a torn file or invalid UTF-8; repeated after the faults stop.",
    real: &["sshcerts::ssh::{allowed_signer,cert,pubkey,privkey,reader}", "std::fs::File", "aes, bcrypt-pbkdf"],
    stub: &["disk", "reference encoders (OpenSSL)"],
    assumptions: &["OpenSSL's AES-CTR and the bcrypt-pbkdf crate used by the reference encoder are correct"],
};

/// Chooses read faults; returns whether a fault that may legitimately fail the load was armed.
fn faults(c: &mut Ctx, len: usize) -> bool {
    let mut plan = fs::Plan { chunk: [0usize, 1, 13, 512, 4096][c.pick(5)], eintr_every: c.draw(4), ..Default::default() };
    if plan.chunk > 0 && len / plan.chunk > 20_000 {
        plan.chunk = 4096;
    }
    if plan.eintr_every == 1 {
        plan.eintr_every = 2;
    }
    if c.chance(1, 8) {
        plan.no_size = true;
        c.stat("fault.size_unknown");
    }
    let mut hard = false;
    match c.pick(6) {
        3 => {
            let e = [libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN, libc::ENOMEM][c.pick(5)];
            plan.read_err_at = Some((c.pick(len + 1), e));
            hard = true;
        }
        4 => {
            plan.open_err = Some([libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ELOOP][c.pick(5)]);
            hard = true;
        }
        _ => (),
    }
    fs::disk().plan = plan;
    hard
}
fn calm() {
    fs::disk().plan = Default::default();
}

fn allowed_signers(c: &mut Ctx) {
    c.begin("allowed_signers");
    let big = c.chance(1, 12);
    let n = if big { c.range(400, 900) } else { c.range(0, 8) };
    let keys: Vec<MPub> = (0..4).map(|_| gen_key(c, &[KK::Ed, KK::P256, KK::P384, KK::Rsa, KK::EdSk], false).pk).map(|m| if m.name().starts_with("sk-") { m.with_app("ssh:") } else { m }).collect();
    let nl = if c.chance(1, 5) { "\r\n" } else { "\n" };
    let mut file = String::new();
    let mut want: Vec<AsEntry> = vec![];
    let mut ends: Vec<(usize, usize)> = vec![]; // (start of line, first byte after the key)
    if c.chance(1, 4) {
        file.push_str(&format!("# allowed signers{nl}"));
    }
    for _ in 0..n {
        let k = keys[c.pick(4)].clone();
        let (e, line) = gen_as_entry(c, k);
        let start = file.len();
        if c.chance(1, 6) {
            file.push_str("  ");
        }
        file.push_str(&line);
        ends.push((start, file.len()));
        want.push(e);
        match c.pick(8) {
            0 => file.push_str(" # comment"),
            1 => file.push_str(" # say \"hello\""),
            2 => file.push_str("   "),
            3 => file.push_str(" #\"x\" y"),
            _ => (),
        }
        file.push_str(nl);
        if c.chance(1, 8) {
            file.push_str(nl);
        }
        if c.chance(1, 10) {
            file.push_str(&format!("   # a comment line \"unbalanced{nl}"));
        }
        if c.chance(1, 10) {
            let x = ['\0', '\u{1a}', '\u{c}', '\u{b}', '\u{85}', '\u{2028}', '\t', '\u{feff}', '\u{1b}', '\u{4}'][c.pick(10)];
            file.push_str(&format!("# com{x}ment{nl}"));
        }
    }
    if c.chance(1, 5) && file.ends_with(nl) {
        file.truncate(file.len() - nl.len());
    }
    ev!("allowed-signers file with {} entries, {} bytes", want.len(), file.len());
    if file.len() > 65536 {
        c.probe("file_larger_than_64k");
    }
    // a malformed line anywhere makes the whole file an error
    let mut bytes = file.clone().into_bytes();
    let mut bad = false;
    match c.pick(8) {
        0 => {
            let junk = [
                "someone@example.com",
                "someone@example.com ssh-ed25519",
                "someone@example.com ssh-ed25519 AAAA",
                "someone@example.com unknown-option ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a,,b ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a namespaces=\"x ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a namespaces=x namespaces=y ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a valid-after=20200101Z valid-after=20200102Z ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a valid-before=2020010Z ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a ssh-rsa AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5",
                "a ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIDO0VQD9TIdICZLWFWwtf7s8/aENve8twGTEmNV0myh5 ssh-ed25519",
            ][c.pick(11)];
            let lines: Vec<&str> = file.split_inclusive('\n').collect();
            let at = c.pick(lines.len() + 1);
            let mut f = String::new();
            for (i, l) in lines.iter().enumerate() {
                if i == at {
                    f.push_str(junk);
                    f.push('\n');
                }
                f.push_str(l);
            }
            if at >= lines.len() {
                if !f.is_empty() && !f.ends_with('\n') {
                    f.push('\n');
                }
                f.push_str(junk);
            }
            bytes = f.into_bytes();
            bad = true;
            c.fault("malformed_line");
            ev!("  malformed line {junk:?}");
        }
        1 if !bytes.is_empty() => {
            let i = c.pick(bytes.len());
            bytes.insert(i, [0xffu8, 0x80, 0xc0][c.pick(3)]);
            c.fault("invalid_utf8");
            // judged below: acceptable only if every entry is still intact
            fs::put("/sim/as", &bytes);
            let r = lib("AllowedSigners::from_path", || AllowedSigners::from_path("/sim/as"));
            if let Ok(a) = &r {
                if let Some(d) = as_diff(a, &want) {
                    violate("file with invalid UTF-8 loaded with other contents", d);
                }
            }
            c.end();
            return;
        }
        2 if !want.is_empty() => {
            // torn file: the entries before the cut, or an error
            let cut = c.pick(bytes.len() + 1);
            if file.is_char_boundary(cut) {
                bytes.truncate(cut);
                c.fault("torn_file");
                let whole = ends.iter().filter(|e| e.1 <= cut).count();
                let partial = ends.iter().any(|e| e.0 < cut && e.1 > cut && !file[e.0..cut].trim().is_empty());
                fs::put("/sim/as", &bytes);
                let r = lib("AllowedSigners::from_path", || AllowedSigners::from_path("/sim/as"));
                match &r {
                    Ok(a) => {
                        // (base64 padding may be missing: the key is complete without it)
                        let nopad = partial && ends.iter().any(|e| e.0 < cut && e.1 > cut && file[cut..e.1].bytes().all(|b| b == b'='));
                        ensure!(!partial || nopad, "torn allowed-signers line accepted", "cut at {cut}");
                        if let Some(d) = as_diff(a, &want[..whole + nopad as usize]) {
                            violate("allowed-signers file loaded with other contents", format!("torn: {d}"));
                        }
                    }
                    Err(e) => ensure!(partial, "valid allowed-signers file rejected", "cut at {cut}: {e}"),
                }
                c.end();
                return;
            }
        }
        _ => (),
    }
    fs::put("/sim/as", &bytes);
    let reps = 1 + c.pick(2);
    for _ in 0..reps {
        let hard = faults(c, bytes.len());
        // the file may be replaced (atomic rename) while it is being read
        let mut other: Option<Vec<AsEntry>> = None;
        if !hard && c.chance(1, 5) {
            let (e, l) = gen_as_entry(c, keys[0].clone());
            other = Some(vec![e]);
            fs::disk().plan.swap_after = Some((c.draw(4), "/sim/as".into(), format!("{l}\n").into_bytes()));
        }
        let r = lib("AllowedSigners::from_path", || AllowedSigners::from_path("/sim/as"));
        let swapped = fs::disk().plan.swapped;
        calm();
        match &r {
            Ok(a) => {
                ev!("  {} entries", a.0.len());
                let d = as_diff(a, &want);
                if bad && !(swapped && other.as_ref().map_or(false, |o| as_diff(a, o).is_none())) {
                    violate("allowed-signers file with a malformed line accepted", format!("{} of {} entries", a.0.len(), want.len()));
                }
                if let (Some(d), false) = (d, bad) {
                    if !(swapped && other.as_ref().map_or(false, |o| as_diff(a, o).is_none())) {
                        violate("allowed-signers file loaded with other contents", d);
                    }
                }
            }
            Err(e) => {
                ev!("  {e}");
                ensure!(hard || bad || swapped, "valid allowed-signers file rejected", "{e}: {file}");
            }
        }
        fs::put("/sim/as", &bytes);
    }
    if !bad {
        match lib("AllowedSigners::from_path", || AllowedSigners::from_path("/sim/as")) {
            Ok(a) => {
                if let Some(d) = as_diff(&a, &want) {
                    violate("allowed-signers file loaded with other contents", d);
                }
            }
            Err(e) => violate("valid allowed-signers file rejected", format!("{e}: {file}")),
        }
    }
    c.end();
}

fn certificate(c: &mut Ctx) {
    c.begin("certificate_file");
    let ca = gen_key(c, &CA_KK, false);
    let k = gen_key(c, &ALL_KK, false);
    let m = gen_cert(c, &k.pk, &ca.pk);
    let o = gen_sigopt(c);
    let mut p = c.stream();
    let full = m.full(&ca.sign(&m.tbs(), &o, &mut p));
    let cm = [None, Some("me@host")][c.pick(2)];
    let t = match cm {
        None => format!("{} {}{}", m.key.cert_name(), base64::encode(&full), ["", "\n", "\r\n"][c.pick(3)]),
        Some(x) => format!("{} {} {x}{}", m.key.cert_name(), base64::encode(&full), ["", "\n", "\n\n"][c.pick(3)]),
    };
    let mut b = t.into_bytes();
    let mut torn = false;
    match c.pick(6) {
        4 => {
            let n = c.pick(b.len());
            b.truncate(n);
            c.fault("torn_file");
            torn = true;
        }
        5 => {
            let n = c.pick(b.len());
            b.insert(n, 0xff);
            c.fault("invalid_utf8");
            torn = true;
        }
        _ => (),
    }
    fs::put("/sim/cert", &b);
    for last in [false, true] {
        let hard = if last { calm(); false } else { faults(c, b.len()) };
        let r = lib("Certificate::from_path", || Certificate::from_path("/sim/cert"));
        calm();
        match r {
            Ok(x) => {
                if let Some(d) = cert_diff(&x, &m) {
                    violate("certificate file loaded with other contents", d);
                }
                if !torn {
                    ensure!(x.comment.as_deref() == cm, "certificate comment lost", "{:?}", x.comment);
                }
                ev!("certificate loaded");
            }
            Err(e) => {
                ensure!(hard || torn, "valid certificate file rejected", "{e}");
                ev!("certificate: {e}");
            }
        }
    }
    c.end();
}

fn public_key(c: &mut Ctx) {
    c.begin("public_key_file");
    let k = gen_key(c, &ALL_KK, false);
    let cm = [None, Some("me@host")][c.pick(2)];
    let mut b = format!("{}{}", k.pk.line(cm), ["\n", "", "\r\n"][c.pick(3)]).into_bytes();
    let keylen = k.pk.line(None).len();
    let mut torn = false;
    if c.chance(1, 4) {
        let n = c.pick(b.len());
        if n < keylen {
            torn = true;
        }
        b.truncate(n);
        c.fault("torn_file");
    } else if c.chance(1, 6) {
        let n = c.pick(keylen);
        b.insert(n, 0xfe);
        torn = true;
        c.fault("invalid_utf8");
    }
    fs::put("/sim/k.pub", &b);
    for last in [false, true] {
        let hard = if last { calm(); false } else { faults(c, b.len()) };
        let r = lib("PublicKey::from_path", || PublicKey::from_path("/sim/k.pub"));
        calm();
        match r {
            Ok(x) => {
                // (base64 padding may be missing: the key is complete without it)
                ensure!(!torn || pub_matches(&x, &k.pk), "torn public key file accepted", "{} bytes: {:?}", b.len(), x);
                ensure!(pub_matches(&x, &k.pk), "public key file loaded as another key", "{:?}", x);
                ev!("public key loaded");
            }
            Err(e) => {
                ensure!(hard || torn, "valid public key file rejected", "{e}");
                ev!("public key: {e}");
            }
        }
    }
    c.end();
}

fn private_key(c: &mut Ctx) {
    c.begin("private_key_file");
    let m = gen_key(c, &ALL_KK, false);
    let sk = if m.pk.name().starts_with("sk-") { Some(SkPart { flags: 1, handle: gen_bytes(c, 300), reserved: vec![] }) } else { None };
    let comment = gen_string(c, 200);
    let magic = gen_u64(c) as u32;
    let plain_text = priv_pem(&priv_blob(&m, sk.as_ref(), &comment, magic, None));
    let twin = match lib("PrivateKey::from_string", || PrivateKey::from_string(&plain_text)) {
        Ok(k) => k,
        Err(e) => violate("valid private key rejected", e.to_string()),
    };
    let enc = c.chance(1, 2);
    let pass = match c.pick(4) {
        0 => "hunter2".to_string(),
        1 => format!("{}p", gen_string(c, 40)),
        2 => format!("pass {} wörd", gen_token(c, 0, 80)),
        _ => gen_token(c, 1, 100),
    };
    let text = if enc {
        let e = Enc { pass: &pass, salt: c.stream().bytes([16usize, 8, 32][c.pick(3)]), rounds: if c.chance(1, 20) { [16u32, 24, 33][c.pick(3)] } else { 1 + c.draw(3) as u32 } };
        let nl = ["\n", "\r\n"][c.pick(2)];
        armor("OPENSSH PRIVATE KEY", &priv_blob(&m, sk.as_ref(), &comment, magic, Some(&e)), 70, nl)
    } else {
        plain_text.clone()
    };
    let mut b = text.into_bytes();
    let mut torn = false;
    if c.chance(1, 5) {
        let n = c.pick(b.len());
        b.truncate(n);
        torn = true;
        c.fault("torn_file");
    }
    fs::put("/sim/id", &b);
    let tries = 1 + c.pick(3);
    for t in 0..=tries {
        let last = t == tries;
        let hard = if last { calm(); false } else { faults(c, b.len()) };
        let which = if last { 0 } else { c.pick(3) };
        let given: Option<String> = match which {
            0 => {
                if enc || c.chance(1, 2) {
                    Some(pass.clone())
                } else {
                    None
                }
            }
            1 => None,
            _ => Some(match c.pick(6) {
                0 => format!("{pass} "),
                1 => pass.chars().skip(1).collect(),
                2 => String::new(),
                3 => pass.to_uppercase(),
                4 => format!("{pass}\n"),
                _ => gen_token(c, 1, 20),
            }),
        };
        let right = !enc || given.as_deref() == Some(pass.as_str());
        let g2 = given.clone();
        let r = if given.is_none() && c.pick(2) == 0 { lib("PrivateKey::from_path", || PrivateKey::from_path("/sim/id")) } else { lib("PrivateKey::from_path_with_passphrase", || PrivateKey::from_path_with_passphrase("/sim/id", g2)) };
        calm();
        match r {
            Ok(k) => {
                ensure!(!torn || b.ends_with(b"-----"), "torn private key file accepted", "{} bytes", b.len());
                ensure!(right, "protected key loaded without its passphrase", "given {given:?} instead of {pass:?}");
                ensure!(k == twin, "protected key differs from its unencrypted twin", "{}", m.pk.name());
                ensure!(pub_matches(&k.pubkey, &m.pk), "private key file loaded as another key", "");
                ev!("private key loaded");
            }
            Err(e) => {
                ensure!(hard || torn || !right, "valid private key file rejected", "{e} (protected: {enc})");
                ev!("private key: {e}");
            }
        }
    }
    c.end();
}

/// A file is replaced by another one of the same name, size and modification time between loads.
fn replaced(c: &mut Ctx) {
    c.begin("replaced_file");
    let path = "/sim/reused";
    let kind = c.pick(4);
    let kk = [KK::Ed, KK::P256, KK::P384, KK::EdSk][c.pick(4)];
    let word = |c: &mut Ctx| -> String {
        let mut p = c.stream();
        (0..6).map(|_| (b'a' + p.below(26) as u8) as char).collect()
    };
    let ca = gen_key(c, &[KK::Ed], false);
    let stamp = c.draw(2_000_000_000) as i64;
    if c.chance(2, 3) {
        fs::disk().frozen.insert(path.into(), stamp);
    } else {
        fs::disk().frozen.remove(path);
    }
    let rounds = 2 + c.pick(3);
    let pass = [word(c), word(c)];
    for i in 0..rounds {
        let k = gen_key(c, &[kk], false);
        let w = word(c);
        match kind {
            0 => {
                fs::put(path, format!("{w} namespaces={w} {}\n", k.pk.line(None)).as_bytes());
                let e = AsEntry { principals: vec![w.clone()], ca: false, ns: Some(vec![w.clone()]), after: None, before: None, key: k.pk.clone() };
                match lib("AllowedSigners::from_path", || AllowedSigners::from_path(path)) {
                    Ok(a) => {
                        if let Some(d) = as_diff(&a, &[e]) {
                            violate("allowed-signers file loaded with other contents", format!("version {i} of the file: {d}"));
                        }
                    }
                    Err(e) => violate("valid allowed-signers file rejected", format!("{e}: version {i} of the file")),
                }
            }
            1 => {
                let mut m = gen_cert(c, &k.pk, &ca.pk);
                m.key_id = w.clone();
                m.principals = vec![w.clone()];
                m.crit = vec![];
                m.ext = vec![];
                m.nonce = c.stream().bytes(32);
                let o = gen_sigopt(c);
                let mut p = c.stream();
                let full = m.full(&ca.sign(&m.tbs(), &o, &mut p));
                fs::put(path, format!("{} {} {w}\n", m.key.cert_name(), base64::encode(&full)).as_bytes());
                match lib("Certificate::from_path", || Certificate::from_path(path)) {
                    Ok(x) => {
                        if let Some(d) = cert_diff(&x, &m) {
                            violate("certificate file loaded with other contents", format!("version {i} of the file: {d}"));
                        }
                        ensure!(x.comment.as_deref() == Some(&w), "certificate comment lost", "{:?}", x.comment);
                    }
                    Err(e) => violate("valid certificate file rejected", format!("{e}: version {i} of the file")),
                }
            }
            2 => {
                fs::put(path, format!("{}\n", k.pk.line(Some(&w))).as_bytes());
                match lib("PublicKey::from_path", || PublicKey::from_path(path)) {
                    Ok(x) => ensure!(pub_matches(&x, &k.pk) && x.comment.as_deref() == Some(&w), "public key file loaded as another key", "version {i} of the file: {x:?}"),
                    Err(e) => violate("valid public key file rejected", format!("{e}: version {i} of the file")),
                }
            }
            _ => {
                let sk = if k.pk.name().starts_with("sk-") { Some(SkPart { flags: 1, handle: c.stream().bytes(40), reserved: vec![] }) } else { None };
                let e = Enc { pass: &pass[c.pick(2)].clone(), salt: c.stream().bytes(16), rounds: 1 };
                let prot = c.chance(1, 2);
                let blob = priv_blob(&k, sk.as_ref(), &w, 7, if prot { Some(&e) } else { None });
                fs::put(path, priv_pem(&blob).as_bytes());
                let given = pass[c.pick(2)].clone();
                let right = !prot || given == e.pass;
                match lib("PrivateKey::from_path_with_passphrase", || PrivateKey::from_path_with_passphrase(path, Some(given.clone()))) {
                    Ok(x) => {
                        ensure!(right, "protected key loaded without its passphrase", "version {i} of the file");
                        ensure!(pub_matches(&x.pubkey, &k.pk) && x.comment == w, "private key file loaded as another key", "version {i} of the file");
                        let twin = lib("PrivateKey::from_string", || PrivateKey::from_string(&priv_pem(&priv_blob(&k, sk.as_ref(), &w, 7, None)))).ok();
                        ensure!(twin.as_ref() == Some(&x), "protected key differs from its unencrypted twin", "version {i} of the file");
                    }
                    Err(e) => ensure!(!right, "valid private key file rejected", "{e}: version {i} of the file"),
                }
            }
        }
        c.fault("file_replaced_same_size");
    }
    ev!("file replaced {rounds} times");
    c.end();
}

/// Several threads load different files at the same time.
fn crowd(c: &mut Ctx) {
    c.begin("concurrent_loads");
    let n = 2 + c.pick(3);
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..n {
        let path = format!("/sim/file{t}");
        match c.pick(5) {
            0 | 1 => {
                let mut file = String::new();
                let mut want = vec![];
                for _ in 0..c.range(0, 5) {
                    let k = gen_key(c, &[KK::Ed, KK::P256], false).pk;
                    let (e, line) = gen_as_entry(c, k);
                    file.push_str(&line);
                    file.push('\n');
                    want.push(e);
                }
                let bad = c.chance(1, 4);
                if bad {
                    file.push_str("someone@example.com ssh-ed25519 AAAA\n");
                    c.stat("fault.malformed_line");
                }
                fs::put(&path, file.as_bytes());
                jobs.push(Box::new(move || match lib("AllowedSigners::from_path", || AllowedSigners::from_path(&path)) {
                    Ok(a) => {
                        ensure!(!bad, "allowed-signers file with a malformed line accepted", "in thread {t} of {n}");
                        if let Some(d) = as_diff(&a, &want) {
                            violate("allowed-signers file loaded with other contents", d);
                        }
                    }
                    Err(e) => ensure!(bad, "valid allowed-signers file rejected", "{e} in thread {t} of {n}"),
                }));
            }
            2 => {
                let ca = gen_key(c, &CA_KK, false);
                let k = gen_key(c, &ALL_KK, false);
                let m = gen_cert(c, &k.pk, &ca.pk);
                let o = gen_sigopt(c);
                let mut p = c.stream();
                let full = m.full(&ca.sign(&m.tbs(), &o, &mut p));
                let mut s = format!("{} {} x\n", m.key.cert_name(), base64::encode(&full));
                let torn = c.chance(1, 4);
                if torn {
                    s.truncate(c.pick(m.key.cert_name().len() + 60));
                    c.stat("fault.torn_file");
                }
                fs::put(&path, s.as_bytes());
                jobs.push(Box::new(move || match lib("Certificate::from_path", || Certificate::from_path(&path)) {
                    Ok(x) => {
                        if let Some(d) = cert_diff(&x, &m) {
                            violate("certificate file loaded with other contents", d);
                        }
                    }
                    Err(e) => ensure!(torn, "valid certificate file rejected", "{e} in thread {t} of {n}"),
                }));
            }
            3 => {
                let m = gen_key(c, &[KK::Ed, KK::P256, KK::Rsa], false);
                let pass = gen_token(c, 1, 20);
                let plain = priv_pem(&priv_blob(&m, None, "c", 9, None));
                let e = Enc { pass: &pass, salt: c.stream().bytes(16), rounds: 1 };
                let prot = c.chance(1, 2);
                fs::put(&path, if prot { priv_pem(&priv_blob(&m, None, "c", 9, Some(&e))) } else { plain.clone() }.as_bytes());
                let given = match c.pick(3) {
                    0 | 1 => Some(pass.clone()),
                    _ => Some(format!("{pass}x")),
                };
                let right = !prot || given.as_ref() == Some(&pass);
                jobs.push(Box::new(move || match lib("PrivateKey::from_path_with_passphrase", || PrivateKey::from_path_with_passphrase(&path, given)) {
                    Ok(k) => {
                        ensure!(right, "protected key loaded without its passphrase", "in thread {t} of {n}");
                        ensure!(pub_matches(&k.pubkey, &m.pk), "private key file loaded as another key", "in thread {t} of {n}");
                        let twin = lib("PrivateKey::from_string", || PrivateKey::from_string(&plain)).ok();
                        ensure!(twin.as_ref() == Some(&k), "protected key differs from its unencrypted twin", "{}", m.pk.name());
                    }
                    Err(e) => ensure!(!right, "valid private key file rejected", "{e} in thread {t} of {n} (protected: {prot})"),
                }));
            }
            _ => {
                let k = gen_key(c, &ALL_KK, false);
                let missing = c.chance(1, 3);
                if !missing {
                    fs::put(&path, format!("{}\n", k.pk.line(Some("me"))).as_bytes());
                } else {
                    fs::disk().names.remove(&path);
                    c.stat("fault.file_missing");
                }
                jobs.push(Box::new(move || match lib("PublicKey::from_path", || PublicKey::from_path(&path)) {
                    Ok(x) => {
                        ensure!(!missing, "a missing file was loaded", "in thread {t} of {n}");
                        ensure!(pub_matches(&x, &k.pk), "public key file loaded as another key", "{x:?}")
                    }
                    Err(e) => ensure!(missing, "valid public key file rejected", "{e} in thread {t} of {n}"),
                }));
            }
        }
    }
    fs::disk().plan = fs::Plan { chunk: [0usize, 4096, 100][c.pick(3)], eintr_every: [0u64, 2, 3][c.pick(3)], ..Default::default() };
    sched::race("loading files", jobs);
    calm();
    ev!("{n} threads loaded files at the same time");
    c.end();
}

/// The file is not there, others with similar names are.
fn missing(c: &mut Ctx) {
    c.begin("missing_file");
    let k = gen_key(c, &[KK::Ed, KK::P256], false);
    let ca = gen_key(c, &[KK::Ed], false);
    let m = gen_cert(c, &k.pk, &ca.pk);
    let o = gen_sigopt(c);
    let mut p = c.stream();
    let full = m.full(&ca.sign(&m.tbs(), &o, &mut p));
    let kind = c.pick(4);
    let body = match kind {
        0 => format!("alice {}\n", k.pk.line(None)),
        1 => format!("{} {} x\n", m.key.cert_name(), base64::encode(&full)),
        2 => format!("{}\n", k.pk.line(Some("x"))),
        _ => priv_pem(&priv_blob(&k, None, "c", 9, None)),
    };
    let base = ["/sim/ssh/id_x", "/sim/ssh/id_x.pub", "/sim/ssh/id_x-cert.pub", "/sim/ssh/allowed"][c.pick(4)];
    let stem = base.trim_end_matches(".pub").trim_end_matches("-cert");
    for n in ["", ".pub", "-cert.pub", ".bak", "~", ".old", ".tmp", ".new", ".swp", ".lock", ".orig"] {
        for s in [stem, base] {
            let path = format!("{s}{n}");
            if path != base && c.chance(3, 4) {
                fs::put(&path, body.as_bytes());
            }
        }
    }
    for path in ["/sim/ssh/ID_X", "/sim/id_x", "/sim/ssh/.id_x", "/sim/ssh/"] {
        fs::put(path, body.as_bytes());
    }
    fs::disk().names.remove(base);
    c.fault("missing_file");
    let ok = match kind {
        0 => lib("AllowedSigners::from_path", || AllowedSigners::from_path(base)).is_ok(),
        1 => lib("Certificate::from_path", || Certificate::from_path(base)).is_ok(),
        2 => lib("PublicKey::from_path", || PublicKey::from_path(base)).is_ok(),
        _ => lib("PrivateKey::from_path", || PrivateKey::from_path(base)).is_ok(),
    };
    ensure!(!ok, "a file that is not there was loaded", "{base}");
    ev!("{base} is missing");
    c.end();
}

pub fn run() {
    let c = cx();
    let n = c.range(1, 4);
    for _ in 0..n {
        if c.chance(1, 16) {
            missing(c);
            continue;
        }
        match c.pick(8) {
            6 => crowd(c),
            7 => replaced(c),
            0 | 1 | 2 => allowed_signers(c),
            3 => certificate(c),
            4 => public_key(c),
            _ => private_key(c),
        }
    }
}

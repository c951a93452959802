//! Generators and comparisons shared by the scenarios.
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use sshcerts::ssh::*;

pub fn len_choice(c: &mut Ctx) -> usize {
    const L: [usize; 14] = [3, 0, 1, 8, 31, 32, 63, 127, 128, 255, 256, 257, 1000, 4096];
    let i = c.pick(L.len() + 1);
    if i == L.len() { c.range(0, 70) as usize } else { L[i] }
}
pub fn gen_string(c: &mut Ctx, max: usize) -> String {
    let kind = c.pick(6);
    let mut n = len_choice(c).min(max);
    let mut max = max;
    // lengths that do not fit in 16 bits, where the field has no limit of its own
    if max >= 3000 && c.chance(1, 120) {
        n = [65535usize, 65536, 65540, 70000, 131077][c.pick(5)];
        max = n + 4;
    }
    let mut p = c.stream();
    let mut s = String::new();
    while s.len() < n {
        let ch = match kind {
            0 | 1 => (b'a' + p.below(26) as u8) as char,
            2 => (0x20 + p.below(95) as u8) as char,
            3 => char::from_u32(p.below(0x250) as u32).unwrap_or('x'),
            4 => ['é', '漢', '😀', 'ß', ' ', '\t', '\n', '\r', '"', '=', ',', '#', '\0', '\u{feff}'][p.below(14) as usize],
            _ => char::from_u32(p.below(0x11000) as u32).unwrap_or('y'),
        };
        s.push(ch);
    }
    while s.len() > max {
        s.pop();
    }
    s
}
pub fn gen_token(c: &mut Ctx, min: usize, max: usize) -> String {
    let n = c.range(min as u64, max as u64) as usize;
    let mut p = c.stream();
    (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyz0123456789-_.@+/ABCXYZ"[p.below(48) as usize] as char).collect()
}
pub fn gen_bytes(c: &mut Ctx, max: usize) -> Vec<u8> {
    let mut n = len_choice(c).min(max);
    if max >= 2000 && c.chance(1, 40) {
        n = [65535usize, 65536, 65540, 70000, 131077][c.pick(5)];
    }
    c.stream().bytes(n)
}
pub fn gen_u64(c: &mut Ctx) -> u64 {
    const V: [u64; 13] = [1, 0, 2, 255, 256, 65535, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, 1 << 63, u64::MAX];
    let i = c.pick(V.len() + 3);
    if i < V.len() { V[i] } else { c.stream().next() }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum KK {
    Ed,
    P256,
    P384,
    P521,
    Rsa,
    EdSk,
    EcSk,
}
pub const ALL_KK: [KK; 7] = [KK::Ed, KK::P256, KK::P384, KK::Rsa, KK::EdSk, KK::EcSk, KK::P521];
pub const CA_KK: [KK; 6] = [KK::Ed, KK::P256, KK::P384, KK::Rsa, KK::EdSk, KK::EcSk];
pub const SOFT_KK: [KK; 4] = [KK::Ed, KK::P256, KK::P384, KK::Rsa];
pub fn gen_app(c: &mut Ctx) -> String {
    match c.pick(5) {
        0 => "ssh:".into(),
        3 => [" ssh:", "SSH:Host", "ssh:a ", "ssh:\u{130}", "ssh:\0x"][c.pick(5)].into(),
        1 => format!("ssh:{}", gen_token(c, 1, 20)),
        2 => gen_string(c, 300),
        _ => gen_token(c, 1, 8),
    }
}
pub fn gen_key(c: &mut Ctx, kinds: &[KK], rsa_sign: bool) -> MKey {
    let k = kinds[c.pick(kinds.len())];
    gen_key_kind(c, k, rsa_sign)
}
pub fn gen_key_kind(c: &mut Ctx, k: KK, rsa_sign: bool) -> MKey {
    match k {
        KK::Ed => ed25519(&c.stream().bytes(32)),
        KK::P256 | KK::P384 | KK::P521 => {
            let bits = match k {
                KK::P256 => 256,
                KK::P384 => 384,
                _ => 521,
            };
            let z = match c.pick(6) {
                0..=3 => 0,
                4 => 1,
                _ => 2,
            };
            let mut s = c.stream();
            ecdsa(bits, &mut s, z)
        }
        KK::Rsa => rsa(c.pick(if rsa_sign { RSA_SIGNING } else { RSA_PEMS.len() })),
        KK::EdSk => {
            let a = gen_app(c);
            ed25519(&c.stream().bytes(32)).skify(&a)
        }
        KK::EcSk => {
            let a = gen_app(c);
            let mut s = c.stream();
            ecdsa(256, &mut s, 0).skify(&a)
        }
    }
}
pub fn gen_sigopt(c: &mut Ctx) -> SigOpt {
    SigOpt {
        rsa: ["rsa-sha2-512", "rsa-sha2-256", "ssh-rsa"][c.pick(3)],
        shape: [EcShape::Normal, EcShape::Normal, EcShape::HighRS, EcShape::ShortR, EcShape::ShortS, EcShape::TinyR][c.pick(6)],
        flags: [1u8, 5, 0, 0x41, 0xff][c.pick(5)],
        ctr: gen_u64(c) as u32,
    }
}
pub fn mpub_of(k: &PublicKey) -> Option<MPub> {
    Some(match &k.kind {
        PublicKeyKind::Ed25519(e) => MPub::Ed25519 { key: e.key.clone(), app: if k.key_type.is_sk { Some(e.sk_application.clone()?) } else { None } },
        PublicKeyKind::Ecdsa(e) => MPub::Ecdsa {
            bits: match e.curve.kind {
                CurveKind::Nistp256 => 256,
                CurveKind::Nistp384 => 384,
                CurveKind::Nistp521 => 521,
            },
            point: e.key.clone(),
            app: if k.key_type.is_sk { Some(e.sk_application.clone()?) } else { None },
        },
        PublicKeyKind::Rsa(r) => MPub::Rsa { e: strip(&r.e), n: strip(&r.n) },
    })
}
pub fn strip(b: &[u8]) -> Vec<u8> {
    let z = b.iter().take_while(|x| **x == 0).count();
    b[z..].to_vec()
}
pub fn norm(m: &MPub) -> MPub {
    match m {
        MPub::Rsa { e, n } => MPub::Rsa { e: strip(e), n: strip(n) },
        o => o.clone(),
    }
}
/// The library's view of the key is exactly the model's key.
pub fn pub_matches(k: &PublicKey, m: &MPub) -> bool {
    k.key_type.plain == m.name() && k.key_type.is_sk == m.name().starts_with("sk-") && mpub_of(k).map(|x| x == norm(m)).unwrap_or(false)
}
/// Hands a model key to the library through one of its own loaders.
pub fn lib_pub(c: &mut Ctx, m: &MPub) -> PublicKey {
    let how = c.pick(3);
    let r = lib("PublicKey loader", || match how {
        0 => PublicKey::from_bytes(&m.blob()),
        1 => PublicKey::from_string(&m.line(None)),
        _ => PublicKey::from_string(&m.line(Some("user@host"))),
    });
    match r {
        Ok(k) => {
            crate::ensure!(pub_matches(&k, m), "public key misread", "loaded {:?} for {:?}", k, m);
            k
        }
        Err(e) => violate("valid public key rejected", format!("{} : {e}", m.line(None))),
    }
}
pub fn lib_priv(m: &MKey, comment: &str, magic: u32) -> PrivateKey {
    let pem = priv_pem(&priv_blob(m, None, comment, magic, None));
    match lib("PrivateKey::from_string", || PrivateKey::from_string(&pem)) {
        Ok(k) => k,
        Err(e) => violate("valid private key rejected", format!("{e}: {pem}")),
    }
}
pub fn map(v: &[(String, String)]) -> std::collections::HashMap<String, String> {
    v.iter().cloned().collect()
}
pub fn sorted(m: &std::collections::HashMap<String, String>) -> Vec<(String, String)> {
    let mut v: Vec<_> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    v.sort();
    v
}
pub fn gen_opts(c: &mut Ctx, critical: bool) -> Vec<(String, String)> {
    const STD: [&str; 5] = ["permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc", "permit-X11-forwarding"];
    const CRIT: [&str; 3] = ["force-command", "source-address", "verify-required"];
    let n = match c.pick(8) {
        0 => 0,
        1..=5 => c.range(1, 6),
        6 => c.range(7, 20),
        _ => c.range(21, 70),
    };
    let mut v: Vec<(String, String)> = vec![];
    for i in 0..n {
        let name = match c.pick(5) {
            0 | 1 => {
                if critical { CRIT[c.pick(3)].to_string() } else { STD[c.pick(5)].to_string() }
            }
            2 => gen_string(c, 300),
            _ => format!("{}@{}{}", gen_token(c, 1, 12), gen_token(c, 1, 12), i),
        };
        let val = match c.pick(3) {
            0 => String::new(),
            1 => ["/bin/true", "10.0.0.0/8,2001:db8::/32", "x"][c.pick(3)].to_string(),
            _ => gen_string(c, 5000),
        };
        v.push((name, val));
    }
    // last one wins, as with repeated setter calls
    let mut out: Vec<(String, String)> = vec![];
    for (k, x) in v {
        if let Some(e) = out.iter_mut().find(|e| e.0 == k) {
            e.1 = x;
        } else {
            out.push((k, x));
        }
    }
    out
}
pub fn gen_principals(c: &mut Ctx) -> Vec<String> {
    let n = match c.pick(8) {
        0 => 0,
        1..=5 => c.range(1, 5),
        6 => c.range(6, 40),
        _ => c.range(41, 300),
    };
    (0..n)
        .map(|_| match c.pick(4) {
            0 | 1 => gen_token(c, 1, 12),
            2 => "root".to_string(),
            _ => gen_string(c, 600),
        })
        .collect()
}
pub fn gen_cert(c: &mut Ctx, key: &MPub, ca: &MPub) -> MCert {
    MCert {
        nonce: c.stream().bytes(32),
        key: key.clone(),
        serial: gen_u64(c),
        ctype: 1 + c.pick(2) as u32,
        key_id: gen_string(c, 5000),
        principals: gen_principals(c),
        va: gen_u64(c),
        vb: gen_u64(c),
        crit: gen_opts(c, true),
        ext: gen_opts(c, false),
        reserved: vec![],
        ca: ca.clone(),
    }
}
/// Every field the library exposes equals the model certificate.
pub fn cert_diff(cert: &Certificate, m: &MCert) -> Option<String> {
    let ct = match cert.cert_type {
        CertType::User => 1,
        CertType::Host => 2,
    };
    if cert.key_type.name != m.key.cert_name() || !cert.key_type.is_cert {
        return Some(format!("key type {} instead of {}", cert.key_type.name, m.key.cert_name()));
    }
    if cert.nonce != m.nonce {
        return Some("nonce".into());
    }
    if !pub_matches(&cert.key, &m.key) {
        return Some("certified key".into());
    }
    if cert.serial != m.serial {
        return Some(format!("serial {} instead of {}", cert.serial, m.serial));
    }
    if ct != m.ctype {
        return Some("certificate type".into());
    }
    if cert.key_id != m.key_id {
        return Some(format!("key id {:?} instead of {:?}", cert.key_id, m.key_id));
    }
    if cert.principals != m.principals {
        return Some(format!("principals {:?} instead of {:?}", cert.principals, m.principals));
    }
    if cert.valid_after != m.va || cert.valid_before != m.vb {
        return Some(format!("validity {}..{} instead of {}..{}", cert.valid_after, cert.valid_before, m.va, m.vb));
    }
    if sorted(&cert.critical_options) != sorted(&map(&m.crit)) {
        return Some("critical options".into());
    }
    if sorted(&cert.extensions) != sorted(&map(&m.ext)) {
        return Some("extensions".into());
    }
    if !pub_matches(&cert.signature_key, &m.ca) {
        return Some("CA key".into());
    }
    None
}
/// Byte-level damage a channel or disk can do. Returns its description.
pub fn damage(c: &mut Ctx, b: &mut Vec<u8>, other: Option<&[u8]>) -> String {
    if b.is_empty() {
        return "empty".into();
    }
    match c.pick(8) {
        0 => {
            let i = c.pick(b.len());
            let bit = c.pick(8);
            b[i] ^= 1 << bit;
            format!("flip bit {bit} of byte {i}")
        }
        1 => {
            let n = c.pick(b.len());
            b.truncate(n);
            format!("truncate to {n}")
        }
        2 => {
            let n = 1 + c.pick(40);
            let x = c.stream().bytes(n);
            b.extend_from_slice(&x);
            format!("extend by {n}")
        }
        3 => {
            let i = c.pick(b.len());
            let n = (1 + c.pick(64)).min(b.len() - i);
            for x in &mut b[i..i + n] {
                *x = 0;
            }
            format!("zero {n} bytes at {i}")
        }
        4 => {
            let i = c.pick(b.len());
            let n = (1 + c.pick(64)).min(b.len() - i);
            b.drain(i..i + n);
            format!("lose {n} bytes at {i}")
        }
        5 => {
            let i = c.pick(b.len());
            let n = (1 + c.pick(64)).min(b.len() - i);
            let x = b[i..i + n].to_vec();
            for (k, y) in x.into_iter().enumerate() {
                b.insert(i + k, y);
            }
            format!("duplicate {n} bytes at {i}")
        }
        6 => {
            if let Some(o) = other {
                let i = c.pick(b.len().min(o.len()).max(1));
                let mut v = b[..i].to_vec();
                v.extend_from_slice(o.get(i..).unwrap_or(&[]));
                *b = v;
                format!("splice with another object at {i}")
            } else {
                let i = c.pick(b.len());
                b[i] = b[i].wrapping_add(1);
                format!("increment byte {i}")
            }
        }
        _ => {
            let i = c.pick(b.len());
            let j = c.pick(b.len());
            b.swap(i, j);
            format!("swap bytes {i} and {j}")
        }
    }
}

// ---------------------------------------------------------------- allowed signers
#[derive(Clone, Debug)]
pub struct AsEntry {
    pub principals: Vec<String>,
    pub ca: bool,
    pub ns: Option<Vec<String>>,
    /// (stamp as written, expected unix time)
    pub after: Option<(String, i64)>,
    pub before: Option<(String, i64)>,
    pub key: MPub,
}
fn word(c: &mut Ctx, spaces: bool) -> String {
    if spaces && c.chance(1, 8) {
        return ["#alice", "# x", "#", " alice", "bob ", "  ", " a b "][c.pick(7)].to_string();
    }
    if c.chance(1, 3) {
        return ["git", "*", "*@example.com", "!root", "file", "?", "!", "a", "alice@example.com", "-", "cert-authority", "user.*", "*,*", "ssh-ed25519"][c.pick(14)].replace(',', ".");
    }
    let n = 1 + c.pick(14);
    let mut p = c.stream();
    let set: &[char] = if spaces { &['a', 'b', 'z', '@', '.', '*', '-', ' ', '#', 'é', '漢', '='] } else { &['a', 'b', 'z', '@', '.', '*', '?', '!', '-', '=', 'é', '漢'] };
    let s: String = (0..n).map(|_| set[p.below(set.len() as u64) as usize]).collect();
    format!("u{s}x")
}
pub fn gen_as_entry(c: &mut Ctx, key: MPub) -> (AsEntry, String) {
    let quoted = c.chance(1, 4);
    let np = 1 + c.pick(3);
    let principals: Vec<String> = (0..np).map(|_| word(c, quoted)).collect();
    let ca = c.chance(1, 3);
    let nsq = c.chance(1, 2);
    let ns = if c.chance(1, 3) {
        let n = 1 + c.pick(3);
        Some((0..n).map(|_| word(c, nsq)).collect::<Vec<_>>())
    } else {
        None
    };
    let mut opts: Vec<String> = vec![];
    let case = |c: &mut Ctx, s: &str| -> String {
        match c.pick(6) {
            0 => s.to_uppercase(),
            1 => {
                let mut t = s.to_string();
                t[..1].make_ascii_uppercase();
                t
            }
            _ => s.to_string(),
        }
    };
    if ca {
        let o = case(c, "cert-authority");
        opts.push(o);
    }
    if let Some(n) = &ns {
        let o = case(c, "namespaces");
        let v = n.join(",");
        opts.push(if nsq { format!("{o}=\"{v}\"") } else { format!("{o}={v}") });
    }
    let (mut after, mut before) = (None, None);
    // UTC stamps; local time is C15's subject
    let t0 = 946684800 + c.draw(2_000_000_000) as i64;
    if c.chance(1, 3) {
        let (s, t) = stamp_z(c, t0);
        let o = case(c, "valid-after");
        opts.push(if c.chance(1, 3) { format!("{o}=\"{s}\"") } else { format!("{o}={s}") });
        after = Some((s, t));
    }
    if c.chance(1, 3) {
        let d = 200_000 + c.draw(1_000_000_000) as i64;
        let (s, t) = stamp_z(c, t0 + d);
        let o = case(c, "valid-before");
        opts.push(if c.chance(1, 3) { format!("{o}=\"{s}\"") } else { format!("{o}={s}") });
        before = Some((s, t));
    }
    // options in any order
    for i in (1..opts.len()).rev() {
        let j = c.pick(i + 1);
        opts.swap(i, j);
    }
    let sep = |c: &mut Ctx| " ".repeat(1 + [0usize, 0, 0, 1, 3][c.pick(5)]);
    let mut line = if quoted { format!("\"{}\"", principals.join(",")) } else { principals.join(",") };
    for o in &opts {
        line.push_str(&sep(c));
        line.push_str(o);
    }
    line.push_str(&sep(c));
    line.push_str(&key.name());
    line.push_str(&sep(c));
    line.push_str(&base64::encode(key.blob()));
    (AsEntry { principals, ca, ns, after, before, key }, line)
}
/// Days since 1970-01-01 of a civil date (independent implementation).
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn stamp_z(c: &mut Ctx, t: i64) -> (String, i64) {
    let (dd, s) = (t.div_euclid(86400), t.rem_euclid(86400));
    let (y, m, d) = civil(dd);
    match c.pick(3) {
        0 => (format!("{y:04}{m:02}{d:02}Z"), dd * 86400),
        1 => (format!("{y:04}{m:02}{d:02}{:02}{:02}Z", s / 3600, s / 60 % 60), t - s % 60),
        _ => (format!("{y:04}{m:02}{d:02}{:02}{:02}{:02}Z", s / 3600, s / 60 % 60, s % 60), t),
    }
}
pub fn as_diff(got: &AllowedSigners, want: &[AsEntry]) -> Option<String> {
    if got.0.len() != want.len() {
        return Some(format!("{} entries instead of {}", got.0.len(), want.len()));
    }
    for (i, (g, w)) in got.0.iter().zip(want).enumerate() {
        if g.principals != w.principals {
            return Some(format!("entry {i}: principals {:?} instead of {:?}", g.principals, w.principals));
        }
        if g.cert_authority != w.ca {
            return Some(format!("entry {i}: cert-authority"));
        }
        if g.namespaces != w.ns {
            return Some(format!("entry {i}: namespaces {:?} instead of {:?}", g.namespaces, w.ns));
        }
        if g.valid_after != w.after.as_ref().map(|x| x.1) {
            return Some(format!("entry {i}: valid-after {:?} instead of {:?}", g.valid_after, w.after));
        }
        if g.valid_before != w.before.as_ref().map(|x| x.1) {
            return Some(format!("entry {i}: valid-before {:?} instead of {:?}", g.valid_before, w.before));
        }
        if !pub_matches(&g.key, &w.key) {
            return Some(format!("entry {i}: key"));
        }
    }
    None
}

/// Runs f in a forked copy of the process and returns its bytes.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let b = match r {
                Ok(b) => {
                    let mut o = vec![1u8];
                    o.extend(b);
                    o
                }
                Err(_) => {
                    let (a, b) = cx().violation.clone().unwrap_or(("harness".into(), "child died".into()));
                    format!("\0{a}\n{b}").into_bytes()
                }
            };
            let mut off = 0;
            while off < b.len() {
                let n = crate::seam::sys::raw(libc::SYS_write, [fds[1] as i64, b[off..].as_ptr() as i64, (b.len() - off) as i64, 0, 0, 0]);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut tmp = [0u8; 4096];
        loop {
            let n = crate::seam::sys::raw(libc::SYS_read, [fds[0] as i64, tmp.as_mut_ptr() as i64, 4096, 0, 0, 0]);
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match out.first() {
            Some(1) => Some(out[1..].to_vec()),
            Some(0) => {
                let s = String::from_utf8_lossy(&out[1..]).into_owned();
                let (a, b) = s.split_once('\n').unwrap_or((&s, ""));
                violate(a, format!("in a forked process: {b}"))
            }
            _ => None,
        }
    }
}

/// The machine's clock is right, has never been set, or is far off.
pub fn gen_clock(c: &mut Ctx) {
    if c.chance(1, 3) {
        let t = match c.pick(4) {
            0 => c.draw(100_000) as i64,
            1 => days(2060 + c.draw(40) as i64, 1, 1) * 86400,
            2 => days(1971 + c.draw(60) as i64, 1 + c.draw(12) as i64, 1 + c.draw(28) as i64) * 86400 + c.draw(86400) as i64,
            _ => 1_700_000_000,
        };
        crate::seam::sys::set_wall(t);
        c.stat("fault.clock_jump");
        crate::ev!("the clock shows {t}");
    }
}

/// Replaces the secret part of a software key by one that cannot be right, or by another encoding of the same.
pub fn odd_secret(c: &mut Ctx, k: &mut PrivateKey) -> &'static str {
    let mut p = c.stream();
    let v = c.pick(6);
    let field = |f: &mut Vec<u8>, p: &mut Prng| match v {
        0 => f.clear(),
        1 => f.iter_mut().for_each(|b| *b = 0),
        2 => f.iter_mut().for_each(|b| *b = 0xff),
        3 => {
            let n = 1 + (p.next() % 40) as usize;
            *f = [p.bytes(n), f.clone()].concat()
        }
        4 => f.truncate((p.next() % (f.len() as u64 + 1)) as usize),
        _ => *f = [vec![0; 1 + (p.next() % 3) as usize], f.clone()].concat(),
    };
    match &mut k.kind {
        PrivateKeyKind::Rsa(r) => field([&mut r.d, &mut r.p, &mut r.q, &mut r.coefficient, &mut r.n, &mut r.e][c.pick(6)], &mut p),
        PrivateKeyKind::Ecdsa(x) => field(&mut x.key, &mut p),
        PrivateKeyKind::Ed25519(x) => field(&mut x.key, &mut p),
        _ => (),
    }
    ["empty secret", "zero secret", "secret of ones", "secret too long", "secret too short", "secret with leading zeroes"][v]
}
/// A damaged ASN.1 signature: cut at and around its structure, with lengths, tags and bytes that do not fit.
pub fn odd_der(c: &mut Ctx, mut d: Vec<u8>) -> Vec<u8> {
    let r = d.get(3).copied().unwrap_or(0) as usize;
    match c.pick(8) {
        0 => d.truncate(c.pick(d.len() + 1)),
        1 => d.truncate(4 + r),
        2 => d.truncate(4 + r + 1),
        3 => d.truncate(4 + r + 2),
        4 if d.len() > 3 => d[3] = [0, 1, 0x7f, 0x80, 0xff, d[3].wrapping_add(1), d[3].wrapping_add(2), d[3].wrapping_sub(1)][c.pick(8)],
        5 if d.len() > 5 + r => d[5 + r] = [0, 1, 0x7f, 0x80, 0xff][c.pick(5)],
        6 => d.extend(c.stream().bytes(3)),
        _ => {
            let i = [0, 1, 2, 4 + r][c.pick(4)];
            if i < d.len() {
                d[i] ^= 1 << c.pick(8);
            }
        }
    }
    d
}

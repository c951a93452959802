//! Independent key material and signatures (OpenSSL), with control over ECDSA nonces so that unusual but valid
//! r/s lengths occur.
use super::wire::*;
use crate::core::Prng;
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::{EcGroup, EcKey, EcPoint, PointConversionForm};
use openssl::hash::{hash, MessageDigest};
use openssl::nid::Nid;
use openssl::pkey::{Id, PKey};
use openssl::rsa::Rsa;
use openssl::sign::{Signer, Verifier};

pub fn sha256(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha256(), b).unwrap().to_vec()
}
pub fn sha384(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha384(), b).unwrap().to_vec()
}
pub fn sha512(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha512(), b).unwrap().to_vec()
}

#[derive(Clone, Debug)]
pub enum Sec {
    Ed25519(Vec<u8>),
    Ecdsa(Vec<u8>), // big endian scalar, full length
    Rsa(Vec<u8>),   // DER PKCS1
}
#[derive(Clone, Debug)]
pub struct MKey {
    pub sec: Sec,
    pub pk: MPub,
}
pub fn group(bits: u32) -> EcGroup {
    EcGroup::from_curve_name(match bits {
        256 => Nid::X9_62_PRIME256V1,
        384 => Nid::SECP384R1,
        _ => Nid::SECP521R1,
    })
    .unwrap()
}
pub fn flen(bits: u32) -> usize {
    (bits as usize + 7) / 8
}
pub fn ed25519(seed: &[u8]) -> MKey {
    let k = PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap();
    MKey { pk: MPub::Ed25519 { key: k.raw_public_key().unwrap(), app: None }, sec: Sec::Ed25519(seed.to_vec()) }
}
pub fn ecdsa_from_scalar(bits: u32, d: &[u8]) -> MKey {
    let g = group(bits);
    let mut ctx = BigNumContext::new().unwrap();
    let mut order = BigNum::new().unwrap();
    g.order(&mut order, &mut ctx).unwrap();
    let n = BigNum::from_slice(d).unwrap();
    let mut dd = BigNum::new().unwrap();
    dd.nnmod(&n, &order, &mut ctx).unwrap();
    if dd.num_bits() == 0 {
        dd = BigNum::from_u32(1).unwrap();
    }
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator(&g, &dd, &ctx).unwrap();
    let point = p.to_bytes(&g, PointConversionForm::UNCOMPRESSED, &mut ctx).unwrap();
    MKey { pk: MPub::Ecdsa { bits, point, app: None }, sec: Sec::Ecdsa(dd.to_vec_padded(flen(bits) as i32).unwrap()) }
}
/// A random key; with `odd` the scalar has leading zero bytes.
pub fn ecdsa(bits: u32, p: &mut Prng, zeros: usize) -> MKey {
    let mut d = p.bytes(flen(bits));
    if bits == 521 {
        d[0] &= 1;
    }
    for b in d.iter_mut().take(zeros) {
        *b = 0;
    }
    ecdsa_from_scalar(bits, &d)
}
/// the first RSA_SIGNING of the fixed RSA keys are of the kind ring signs with
pub const RSA_SIGNING: usize = 6;
pub const RSA_PEMS: [&str; 9] = [
    include_str!("../fixtures/rsa2048.pem"),
    include_str!("../fixtures/rsa3072.pem"),
    include_str!("../fixtures/rsa2048b.pem"),
    include_str!("../fixtures/rsa4096.pem"),
    include_str!("../fixtures/rsa2048iq.pem"), // coefficient one byte short with its top bit set
    include_str!("../fixtures/rsa2048d.pem"),  // private exponent one byte short with its top bit set
    include_str!("../fixtures/rsa2048e3.pem"),
    include_str!("../fixtures/rsa2048swap.pem"), // p < q
    include_str!("../fixtures/rsa2056.pem"),     // modulus of an odd number of bytes
];
/// ring (and so the library) does not sign with this RSA key
pub fn rsa_odd(m: &MPub) -> bool {
    matches!(m, MPub::Rsa { n, .. } if (RSA_SIGNING..RSA_PEMS.len()).any(|i| matches!(rsa(i).pk, MPub::Rsa { n: x, .. } if x == *n)))
}
pub fn rsa(i: usize) -> MKey {
    let r = Rsa::private_key_from_pem(RSA_PEMS[i].as_bytes()).unwrap();
    MKey { pk: MPub::Rsa { e: r.e().to_vec(), n: r.n().to_vec() }, sec: Sec::Rsa(r.private_key_to_der().unwrap()) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EcShape {
    Normal,
    ShortR,
    ShortS,
    HighRS,
    /// r two bytes shorter than the field
    TinyR,
}
/// Precomputed nonces: (k^-1, r) per curve, so that unusual signature shapes are found quickly.
struct Nonce {
    kinv: BigNum,
    r: BigNum,
}
static TINY: std::sync::OnceLock<[Vec<Nonce>; 2]> = std::sync::OnceLock::new();
fn tiny(bits: u32) -> &'static [Nonce] {
    let t = TINY.get_or_init(|| {
        let f = |bits: u32, ks: &[u32]| ks.iter().flat_map(|k| nonces_from(bits, BigNum::from_u32(*k).unwrap(), 1)).collect::<Vec<_>>();
        [f(256, &[40393, 116173, 209780, 302630]), f(384, &[14971, 40603, 64109, 142047])]
    });
    &t[(bits != 256) as usize]
}
static NONCES: std::sync::OnceLock<[Vec<Nonce>; 3]> = std::sync::OnceLock::new();
fn nonce_table(bits: u32, n: usize) -> Vec<Nonce> {
    nonces_from(bits, BigNum::from_slice(&Prng::new(bits as u64).bytes(flen(bits) - 2)).unwrap(), n)
}
fn nonces_from(bits: u32, mut k: BigNum, n: usize) -> Vec<Nonce> {
    let g = group(bits);
    let mut ctx = BigNumContext::new().unwrap();
    let mut order = BigNum::new().unwrap();
    g.order(&mut order, &mut ctx).unwrap();
    let mut pt = EcPoint::new(&g).unwrap();
    pt.mul_generator(&g, &k, &ctx).unwrap();
    let one = BigNum::from_u32(1).unwrap();
    let mut gen = EcPoint::new(&g).unwrap();
    gen.mul_generator(&g, &one, &ctx).unwrap();
    let mut v = Vec::new();
    for _ in 0..n {
        let (mut x, mut y, mut r, mut ki) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
        pt.affine_coordinates(&g, &mut x, &mut y, &mut ctx).unwrap();
        r.nnmod(&x, &order, &mut ctx).unwrap();
        ki.mod_inverse(&k, &order, &mut ctx).unwrap();
        v.push(Nonce { kinv: ki, r });
        let mut p2 = EcPoint::new(&g).unwrap();
        p2.add(&g, &pt, &gen, &mut ctx).unwrap();
        pt = p2;
        k.add_word(1).unwrap();
    }
    v
}
fn nonces(bits: u32) -> &'static [Nonce] {
    let t = NONCES.get_or_init(|| [nonce_table(256, 1200), nonce_table(384, 1200), nonce_table(521, 64)]);
    match bits {
        256 => &t[0],
        384 => &t[1],
        _ => &t[2],
    }
}
/// (r, s) big endian, minimal length. `z` is the digest.
pub fn ecdsa_rs(key: &MKey, z: &[u8], p: &mut Prng, shape: EcShape) -> (Vec<u8>, Vec<u8>) {
    let (bits, d) = match (&key.pk, &key.sec) {
        (MPub::Ecdsa { bits, .. }, Sec::Ecdsa(d)) => (*bits, BigNum::from_slice(d).unwrap()),
        _ => unreachable!(),
    };
    let g = group(bits);
    let mut ctx = BigNumContext::new().unwrap();
    let mut order = BigNum::new().unwrap();
    g.order(&mut order, &mut ctx).unwrap();
    let fl = flen(bits);
    let zl = z.len().min(fl);
    let zz = BigNum::from_slice(&z[..zl]).unwrap();
    let mut last = (vec![], vec![]);
    let t = if shape == EcShape::TinyR && bits != 521 { tiny(bits) } else { nonces(bits) };
    let off = p.below(t.len() as u64) as usize;
    for i in 0..t.len() {
        let nk = &t[(off + i) % t.len()];
        let rl = nk.r.num_bytes() as usize;
        if (shape == EcShape::ShortR && rl >= fl || shape == EcShape::HighRS && nk.r.num_bits() as usize != fl * 8) && i + 1 < t.len() {
            continue;
        }
        let mut rd = BigNum::new().unwrap();
        rd.mod_mul(&nk.r, &d, &order, &mut ctx).unwrap();
        let mut u = BigNum::new().unwrap();
        u.mod_add(&rd, &zz, &order, &mut ctx).unwrap();
        let mut s = BigNum::new().unwrap();
        s.mod_mul(&u, &nk.kinv, &order, &mut ctx).unwrap();
        if nk.r.num_bits() == 0 || s.num_bits() == 0 {
            continue;
        }
        let (rv, sv) = (nk.r.to_vec(), s.to_vec());
        let ok = match shape {
            EcShape::Normal | EcShape::TinyR => true,
            EcShape::ShortR => rv.len() < fl,
            EcShape::ShortS => sv.len() < fl,
            EcShape::HighRS => rv.len() == fl && sv.len() == fl && rv[0] & 0x80 != 0 && sv[0] & 0x80 != 0,
        };
        last = (rv, sv);
        if ok {
            break;
        }
    }
    last
}
pub fn der_sig(r: &[u8], s: &[u8]) -> Vec<u8> {
    let (r, s) = (mpint(r), mpint(s));
    let mut b = vec![2, r.len() as u8];
    b.extend_from_slice(&r);
    b.extend_from_slice(&[2, s.len() as u8]);
    b.extend_from_slice(&s);
    let mut o = vec![0x30];
    if b.len() > 127 {
        o.push(0x81);
    }
    o.push(b.len() as u8);
    o.extend_from_slice(&b);
    o
}
fn ecmd(bits: u32, m: &[u8]) -> Vec<u8> {
    match bits {
        256 => sha256(m),
        384 => sha384(m),
        _ => sha512(m),
    }
}
fn skdata(app: &str, flags: u8, ctr: u32, data: &[u8]) -> Vec<u8> {
    let mut m = sha256(app.as_bytes());
    m.push(flags);
    m.extend_from_slice(&ctr.to_be_bytes());
    m.extend_from_slice(&sha256(data));
    m
}
#[derive(Clone, Debug)]
pub struct SigOpt {
    pub rsa: &'static str,
    pub shape: EcShape,
    pub flags: u8,
    pub ctr: u32,
}
impl Default for SigOpt {
    fn default() -> Self {
        SigOpt { rsa: "rsa-sha2-512", shape: EcShape::Normal, flags: 1, ctr: 7 }
    }
}
impl MKey {
    pub fn raw_ed(&self, m: &[u8]) -> Vec<u8> {
        match &self.sec {
            Sec::Ed25519(s) => {
                let k = PKey::private_key_from_raw_bytes(s, Id::ED25519).unwrap();
                Signer::new_without_digest(&k).unwrap().sign_oneshot_to_vec(m).unwrap()
            }
            _ => unreachable!(),
        }
    }
    /// An OpenSSH signature blob over `data` (sk keys: as the authenticator would make it).
    pub fn sign(&self, data: &[u8], o: &SigOpt, p: &mut Prng) -> Vec<u8> {
        match &self.pk {
            MPub::Ed25519 { app: None, .. } => W::default().str("ssh-ed25519").str(self.raw_ed(data)).0,
            MPub::Ed25519 { app: Some(a), .. } => W::default()
                .str("sk-ssh-ed25519@openssh.com")
                .str(self.raw_ed(&skdata(a, o.flags, o.ctr, data)))
                .raw(&[o.flags])
                .u32(o.ctr)
                .0,
            MPub::Ecdsa { bits, app: None, .. } => {
                let (r, s) = ecdsa_rs(self, &ecmd(*bits, data), p, o.shape);
                W::default().str(self.pk.name()).str(W::default().mpint(&r).mpint(&s).0).0
            }
            MPub::Ecdsa { app: Some(a), .. } => {
                let (r, s) = ecdsa_rs(self, &sha256(&skdata(a, o.flags, o.ctr, data)), p, o.shape);
                W::default().str(self.pk.name()).str(W::default().mpint(&r).mpint(&s).0).raw(&[o.flags]).u32(o.ctr).0
            }
            MPub::Rsa { .. } => {
                let md = match o.rsa {
                    "rsa-sha2-256" => MessageDigest::sha256(),
                    "ssh-rsa" => MessageDigest::sha1(),
                    _ => MessageDigest::sha512(),
                };
                let der = match &self.sec {
                    Sec::Rsa(d) => d,
                    _ => unreachable!(),
                };
                let k = PKey::from_rsa(Rsa::private_key_from_der(der).unwrap()).unwrap();
                let mut s = Signer::new(md, &k).unwrap();
                W::default().str(o.rsa).str(s.sign_oneshot_to_vec(data).unwrap()).0
            }
        }
    }
    pub fn skify(&self, app: &str) -> MKey {
        MKey { pk: self.pk.with_app(app), sec: self.sec.clone() }
    }
}
pub fn ec_verify(bits: u32, point: &[u8], digest: &[u8], r: &[u8], s: &[u8]) -> bool {
    let f = || -> Result<bool, openssl::error::ErrorStack> {
        let g = group(bits);
        let mut ctx = BigNumContext::new()?;
        let p = EcPoint::from_bytes(&g, point, &mut ctx)?;
        let k = EcKey::from_public_key(&g, &p)?;
        let sig = openssl::ecdsa::EcdsaSig::from_private_components(BigNum::from_slice(r)?, BigNum::from_slice(s)?)?;
        sig.verify(digest, &k)
    };
    f().unwrap_or(false)
}
pub fn ed_verify(pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
    match PKey::public_key_from_raw_bytes(pk, Id::ED25519) {
        Ok(k) => Verifier::new_without_digest(&k).and_then(|mut v| v.verify_oneshot(sig, m)).unwrap_or(false),
        Err(_) => false,
    }
}
/// Independent verification of an OpenSSH signature blob. Returns sk flags and counter if present.
pub fn verify(pk: &MPub, data: &[u8], blob: &[u8]) -> Option<(u8, u32)> {
    let mut r = R(blob, 0);
    let label = r.string()?;
    let body = r.bytes()?;
    match pk {
        MPub::Rsa { e, n } => {
            let md = match label.as_str() {
                "rsa-sha2-256" => MessageDigest::sha256(),
                "rsa-sha2-512" => MessageDigest::sha512(),
                "ssh-rsa" => MessageDigest::sha1(),
                _ => return None,
            };
            let k = PKey::from_rsa(Rsa::from_public_components(BigNum::from_slice(n).ok()?, BigNum::from_slice(e).ok()?).ok()?).ok()?;
            let mut v = Verifier::new(md, &k).ok()?;
            if v.verify_oneshot(body, data).unwrap_or(false) { Some((0, 0)) } else { None }
        }
        _ => {
            if label != pk.name() {
                return None;
            }
            let (app, fl, ct) = match pk {
                MPub::Ed25519 { app: Some(a), .. } | MPub::Ecdsa { app: Some(a), .. } => (Some(a.clone()), r.take(1)?[0], r.u32()?),
                _ => (None, 0, 0),
            };
            let m = match &app {
                Some(a) => skdata(a, fl, ct, data),
                None => data.to_vec(),
            };
            let ok = match pk {
                MPub::Ed25519 { key, .. } => ed_verify(key, &m, body),
                MPub::Ecdsa { bits, point, .. } => {
                    let mut q = R(body, 0);
                    let (rr, ss) = (q.mpint()?, q.mpint()?);
                    ec_verify(*bits, point, &ecmd(*bits, &m), &rr, &ss)
                }
                _ => false,
            };
            if ok { Some((fl, ct)) } else { None }
        }
    }
}

// ---------------------------------------------------------------- OpenSSH private key files
#[derive(Clone, Debug)]
pub struct SkPart {
    pub flags: u8,
    pub handle: Vec<u8>,
    pub reserved: Vec<u8>,
}
/// The private section without check-ints and padding: type name ... comment
pub fn priv_section(k: &MKey, sk: Option<&SkPart>, comment: &str) -> Vec<u8> {
    let w = W::default().str(k.pk.name());
    let w = match (&k.sec, sk) {
        (_, Some(s)) => k.pk.fields(w).raw(&[s.flags]).str(&s.handle).str(&s.reserved),
        (Sec::Ed25519(seed), _) => {
            let pk = match &k.pk {
                MPub::Ed25519 { key, .. } => key.clone(),
                _ => unreachable!(),
            };
            let mut full = seed.clone();
            full.extend_from_slice(&pk);
            k.pk.fields(w).str(full)
        }
        (Sec::Ecdsa(d), _) => k.pk.fields(w).mpint(d),
        (Sec::Rsa(der), _) => {
            let r = Rsa::private_key_from_der(der).unwrap();
            w.mpint(&r.n().to_vec())
                .mpint(&r.e().to_vec())
                .mpint(&r.d().to_vec())
                .mpint(&r.iqmp().unwrap().to_vec())
                .mpint(&r.p().unwrap().to_vec())
                .mpint(&r.q().unwrap().to_vec())
        }
    };
    w.str(comment).0
}
pub struct Enc<'a> {
    pub pass: &'a str,
    pub salt: Vec<u8>,
    pub rounds: u32,
}
pub fn priv_blob(k: &MKey, sk: Option<&SkPart>, comment: &str, magic: u32, enc: Option<&Enc>) -> Vec<u8> {
    let mut s = W::default().u32(magic).u32(magic).raw(&priv_section(k, sk, comment)).0;
    let bs = if enc.is_some() { 16 } else { 8 };
    let mut i = 1u8;
    while s.len() % bs != 0 {
        s.push(i);
        i += 1;
    }
    let w = W::default().raw(b"openssh-key-v1\0");
    let w = match enc {
        None => w.str("none").str("none").str(""),
        Some(e) => {
            let mut out = [0u8; 48];
            bcrypt_pbkdf::bcrypt_pbkdf(e.pass, &e.salt, e.rounds, &mut out).unwrap();
            s = openssl::symm::encrypt(openssl::symm::Cipher::aes_256_ctr(), &out[..32], Some(&out[32..]), &s).unwrap();
            w.str("aes256-ctr").str("bcrypt").str(W::default().str(&e.salt).u32(e.rounds).0)
        }
    };
    w.u32(1).str(k.pk.blob()).str(s).0
}
pub fn priv_pem(blob: &[u8]) -> String {
    armor("OPENSSH PRIVATE KEY", blob, 70, "\n")
}

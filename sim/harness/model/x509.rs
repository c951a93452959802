//! Minimal X.509 minting (DER written by hand) and CBOR, independent of the code under test.
use super::keys::*;
use super::wire::*;
use crate::core::Prng;

pub fn tlv(t: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![t];
    let n = b.len();
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.extend([0x81, n as u8]);
    } else {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    v.extend_from_slice(b);
    v
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn oid(s: &str) -> Vec<u8> {
    let p: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut b = vec![(p[0] * 40 + p[1]) as u8];
    for x in &p[2..] {
        let mut t = vec![(*x & 0x7f) as u8];
        let mut y = *x >> 7;
        while y > 0 {
            t.push(0x80 | (y & 0x7f) as u8);
            y >>= 7;
        }
        t.reverse();
        b.extend(t);
    }
    tlv(6, &b)
}
pub fn int(b: &[u8]) -> Vec<u8> {
    let m = mpint(b);
    tlv(2, if m.is_empty() { &[0] } else { &m })
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0u8], b].concat())
}
pub fn octet(b: &[u8]) -> Vec<u8> {
    tlv(4, b)
}
pub fn name(cn: &str) -> Vec<u8> {
    seq(&[tlv(0x31, &seq(&[oid("2.5.4.3"), tlv(12, cn.as_bytes())]))])
}
pub fn spki(k: &MPub) -> Vec<u8> {
    match k {
        MPub::Rsa { e, n } => seq(&[seq(&[oid("1.2.840.113549.1.1.1"), vec![5, 0]]), bits(&seq(&[int(n), int(e)]))]),
        MPub::Ecdsa { bits: b, point, .. } => {
            let c = match b {
                256 => "1.2.840.10045.3.1.7",
                384 => "1.3.132.0.34",
                _ => "1.3.132.0.35",
            };
            seq(&[seq(&[oid("1.2.840.10045.2.1"), oid(c)]), bits(point)])
        }
        MPub::Ed25519 { key, .. } => seq(&[seq(&[oid("1.3.101.112")]), bits(key)]),
    }
}
/// signature algorithm identifier and signature of a CA key (h: 0 = the usual digest, 1 = another one)
pub fn ca_sign(k: &MKey, data: &[u8], h: usize, p: &mut Prng) -> (Vec<u8>, Vec<u8>) {
    match &k.pk {
        MPub::Rsa { .. } => {
            let (o, a) = if h == 1 { ("1.2.840.113549.1.1.13", "rsa-sha2-512") } else { ("1.2.840.113549.1.1.11", "rsa-sha2-256") };
            let blob = k.sign(data, &SigOpt { rsa: a, ..Default::default() }, p);
            let mut r = R(&blob, 0);
            r.bytes();
            (seq(&[oid(o), vec![5, 0]]), r.bytes().unwrap().to_vec())
        }
        MPub::Ecdsa { bits: b, .. } => {
            let (o, z) = if (*b == 384) ^ (h == 1) { ("1.2.840.10045.4.3.3", sha384(data)) } else { ("1.2.840.10045.4.3.2", sha256(data)) };
            let (r, s) = ecdsa_rs(k, &z, p, EcShape::Normal);
            (seq(&[oid(o)]), der_sig(&r, &s))
        }
        MPub::Ed25519 { .. } => (seq(&[oid("1.3.101.112")]), k.raw_ed(data)),
    }
}
/// The algorithm identifier ca_sign will use.
pub fn ca_alg(k: &MKey, h: usize) -> Vec<u8> {
    match &k.pk {
        MPub::Rsa { .. } => seq(&[oid(if h == 1 { "1.2.840.113549.1.1.13" } else { "1.2.840.113549.1.1.11" }), vec![5, 0]]),
        MPub::Ecdsa { bits: b, .. } => seq(&[oid(if (*b == 384) ^ (h == 1) { "1.2.840.10045.4.3.3" } else { "1.2.840.10045.4.3.2" })]),
        MPub::Ed25519 { .. } => seq(&[oid("1.3.101.112")]),
    }
}
#[derive(Clone, Debug)]
pub struct MX {
    pub serial: Vec<u8>,
    pub issuer: String,
    pub subject: String,
    pub key: MPub,
    pub exts: Vec<(String, Vec<u8>)>,
    pub ca: bool,
}
impl MX {
    pub fn tbs(&self, alg: &[u8]) -> Vec<u8> {
        let mut e: Vec<Vec<u8>> = vec![];
        for (o, v) in &self.exts {
            e.push(seq(&[oid(o), octet(v)]));
        }
        let bc = if self.ca { seq(&[vec![1, 1, 0xff]]) } else { seq(&[]) };
        e.push(seq(&[oid("2.5.29.19"), vec![1, 1, 0xff], octet(&bc)]));
        seq(&[
            tlv(0xa0, &[2, 1, 2]),
            int(&self.serial),
            alg.to_vec(),
            name(&self.issuer),
            seq(&[tlv(0x17, b"140801000000Z"), tlv(0x18, b"20500904000000Z")]),
            name(&self.subject),
            spki(&self.key),
            tlv(0xa3, &seq(&e)),
        ])
    }
    pub fn mint(&self, by: &MKey, h: usize, p: &mut Prng) -> (Vec<u8>, Vec<u8>) {
        let tbs = self.tbs(&ca_alg(by, h));
        let (alg, sig) = ca_sign(by, &tbs, h, p);
        (seq(&[tbs.clone(), alg, bits(&sig)]), tbs)
    }
}
pub fn pem(der: &[u8]) -> String {
    let b = base64::encode(der);
    let mut s = String::from("-----BEGIN CERTIFICATE-----\n");
    for c in b.as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push('\n');
    }
    s + "-----END CERTIFICATE-----\n"
}
/// Header of a TLV: (header length, content length). Lenient about length forms.
pub fn head(b: &[u8]) -> Option<(usize, usize)> {
    let l = *b.get(1)? as usize;
    if l < 0x80 {
        return Some((2, l));
    }
    let n = l & 0x7f;
    let mut v = 0usize;
    for i in 0..n {
        v = v.checked_mul(256)? + *b.get(2 + i)? as usize;
    }
    Some((2 + n, v))
}
/// The bytes of the signed part of a certificate.
pub fn tbs_of(cert: &[u8]) -> Option<&[u8]> {
    let (h, _) = head(cert)?;
    let inner = cert.get(h..)?;
    let (h2, l2) = head(inner)?;
    inner.get(..h2.checked_add(l2)?)
}

// ---------------------------------------------------------------- CBOR (canonical, definite)
pub fn cint(v: i64) -> Vec<u8> {
    let (m, n) = if v < 0 { (0x20u8, (-1 - v) as u64) } else { (0, v as u64) };
    chead(m, n)
}
pub fn chead(m: u8, n: u64) -> Vec<u8> {
    if n < 24 {
        vec![m | n as u8]
    } else if n < 256 {
        vec![m | 24, n as u8]
    } else if n < 65536 {
        let mut v = vec![m | 25];
        v.extend((n as u16).to_be_bytes());
        v
    } else {
        let mut v = vec![m | 26];
        v.extend((n as u32).to_be_bytes());
        v
    }
}
pub fn cbytes(b: &[u8]) -> Vec<u8> {
    [chead(0x40, b.len() as u64), b.to_vec()].concat()
}
pub fn ctext(s: &str) -> Vec<u8> {
    [chead(0x60, s.len() as u64), s.as_bytes().to_vec()].concat()
}
pub fn cmap(v: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = chead(0xa0, v.len() as u64);
    for (a, b) in v {
        o.extend_from_slice(a);
        o.extend_from_slice(b);
    }
    o
}
pub fn carr(v: &[Vec<u8>]) -> Vec<u8> {
    [chead(0x80, v.len() as u64), v.concat()].concat()
}
/// COSE public key of a credential, canonical order.
pub fn cose_pairs(k: &MPub) -> Vec<(Vec<u8>, Vec<u8>)> {
    match k {
        MPub::Ecdsa { point, .. } => vec![
            (cint(1), cint(2)),
            (cint(3), cint(-7)),
            (cint(-1), cint(1)),
            (cint(-2), cbytes(&point[1..33])),
            (cint(-3), cbytes(&point[33..])),
        ],
        MPub::Ed25519 { key, .. } => vec![(cint(1), cint(1)), (cint(3), cint(-8)), (cint(-1), cint(6)), (cint(-2), cbytes(key))],
        _ => unreachable!(),
    }
}

//! A CTAP1/CTAP2 security key, written from the FIDO specifications: commands in, responses out, with user presence,
//! PIN protocols one and two, retry counters, and a ledger of every signature it ever made.
use super::keys::*;
use super::wire::*;
use super::x509::*;
use crate::core::{Ctx, Prng};
use openssl::bn::BigNum;
use openssl::ec::{EcKey, EcPoint};
use openssl::pkey::PKey;
use openssl::sign::Signer;
use openssl::symm::{Cipher, Crypter, Mode};

#[derive(Clone, Debug, PartialEq)]
pub enum Cv {
    I(i64),
    B(Vec<u8>),
    T(String),
    A(Vec<Cv>),
    M(Vec<(Cv, Cv)>),
    Bool(bool),
    Null,
}
pub fn cparse(b: &[u8], pos: &mut usize, depth: u32) -> Option<Cv> {
    if depth > 8 {
        return None;
    }
    let ib = *b.get(*pos)?;
    *pos += 1;
    let m = ib >> 5;
    let n = match ib & 31 {
        x @ 0..=23 => x as u64,
        k @ 24..=27 => {
            let l = 1usize << (k - 24);
            let mut v = 0u64;
            for i in 0..l {
                v = v << 8 | *b.get(*pos + i)? as u64;
            }
            *pos += l;
            v
        }
        _ => return None,
    };
    let take = |pos: &mut usize| -> Option<Vec<u8>> {
        let e = pos.checked_add(n as usize)?;
        let r = b.get(*pos..e)?.to_vec();
        *pos = e;
        Some(r)
    };
    Some(match m {
        0 => Cv::I(n as i64),
        1 => Cv::I(-1 - n as i64),
        2 => Cv::B(take(pos)?),
        3 => Cv::T(String::from_utf8(take(pos)?).ok()?),
        4 => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(cparse(b, pos, depth + 1)?);
            }
            Cv::A(v)
        }
        5 => {
            let mut v = vec![];
            for _ in 0..n {
                let k = cparse(b, pos, depth + 1)?;
                v.push((k, cparse(b, pos, depth + 1)?));
            }
            Cv::M(v)
        }
        7 => match ib & 31 {
            20 => Cv::Bool(false),
            21 => Cv::Bool(true),
            _ => Cv::Null,
        },
        _ => return None,
    })
}
impl Cv {
    pub fn get(&self, k: i64) -> Option<&Cv> {
        match self {
            Cv::M(v) => v.iter().find(|(a, _)| *a == Cv::I(k)).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn name(&self, k: &str) -> Option<&Cv> {
        match self {
            Cv::M(v) => v.iter().find(|(a, _)| matches!(a, Cv::T(t) if t == k)).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn bytes(&self) -> Option<&[u8]> {
        match self {
            Cv::B(b) => Some(b),
            _ => None,
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            Cv::T(b) => Some(b),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Cv::I(b) => Some(*b),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[Cv] {
        match self {
            Cv::A(b) => b,
            _ => &[],
        }
    }
}
pub fn cbool(b: bool) -> Vec<u8> {
    vec![if b { 0xf5 } else { 0xf4 }]
}

fn hmac(k: &[u8], d: &[u8]) -> Vec<u8> {
    let pk = PKey::hmac(k).unwrap();
    let mut s = Signer::new(openssl::hash::MessageDigest::sha256(), &pk).unwrap();
    s.update(d).unwrap();
    s.sign_to_vec().unwrap()
}
fn cbc(mode: Mode, k: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let mut c = Crypter::new(Cipher::aes_256_cbc(), mode, k, Some(iv)).unwrap();
    c.pad(false);
    let mut out = vec![0; d.len() + 16];
    let n = c.update(d, &mut out).unwrap();
    let m = c.finalize(&mut out[n..]).unwrap();
    out.truncate(n + m);
    out
}
/// ECDH with a P-256 scalar; the x coordinate.
fn ecdh(d: &[u8], x: &[u8], y: &[u8]) -> Option<Vec<u8>> {
    let g = group(256);
    let mut ctx = openssl::bn::BigNumContext::new().ok()?;
    let (bx, by, bd) = (BigNum::from_slice(x).ok()?, BigNum::from_slice(y).ok()?, BigNum::from_slice(d).ok()?);
    let peer = EcKey::from_public_key_affine_coordinates(&g, &bx, &by).ok()?;
    let mut r = EcPoint::new(&g).ok()?;
    r.mul(&g, peer.public_key(), &bd, &ctx).ok()?;
    let (mut rx, mut ry) = (BigNum::new().ok()?, BigNum::new().ok()?);
    r.affine_coordinates(&g, &mut rx, &mut ry, &mut ctx).ok()?;
    rx.to_vec_padded(32).ok()
}
fn hkdf(z: &[u8], info: &[u8]) -> Vec<u8> {
    let prk = hmac(&[0; 32], z);
    hmac(&prk, &[info, &[1]].concat())
}

#[derive(Clone, Debug)]
pub struct Cred {
    pub handle: Vec<u8>,
    pub key: MKey,
    pub rp: Vec<u8>, // hash
    pub u2f: bool,
}
#[derive(Clone, Debug)]
pub struct Asserted {
    pub handle: Vec<u8>,
    pub rp: Vec<u8>,
    pub cdh: Vec<u8>,
    pub flags: u8,
    pub ctr: u32,
    pub sig: Vec<u8>,
    pub up: bool,
    pub delivered: bool,
    pub call: u64,
}
#[derive(Clone, Debug)]
pub struct Made {
    pub cred: Cred,
    pub cdh: Vec<u8>,
    pub rp: String,
    pub user: Vec<u8>,
    pub algs: Vec<i64>,
    pub auth_data: Vec<u8>,
    pub sig: Vec<u8>,
    pub cert: Vec<u8>,
    pub flags: u8,
    pub alg: i64,
    pub fmt: &'static str,
    pub call: u64,
    pub honest: bool,
}
#[derive(Clone, Debug)]
pub struct Att {
    pub key: MKey,
    pub cert: Vec<u8>,
}
/// What the user-presence test is for.
#[derive(Clone, Debug)]
pub enum Op {
    Make(Cv, bool),
    Get(Cv, Vec<usize>, bool),
    Select,
    /// the zero-length PIN parameter: blink, then answer with this status
    Blink(u8),
    Uv(Cv),
}
pub enum Act {
    Reply(u8, Vec<u8>),
    Touch(Op),
}
#[derive(Clone, Debug)]
pub struct Token {
    pub creds: Vec<Cred>,
    pub ctr: u32,
    pub ctr_step: u32,
    pub pin: Option<String>,
    pub pin_retries: u8,
    pub consec: u8,
    pub supports_pin: bool,
    pub uv: Option<bool>,
    pub uv_ok: bool,
    pub uv_retries: u8,
    pub ctap2: bool,
    pub u2f: bool,
    pub v21: bool,
    pub protos: Vec<i64>,
    pub always_uv: bool,
    pub puat: bool,
    pub mc_uv_not_rqd: Option<bool>,
    pub eddsa: bool,
    pub es256: bool,
    pub att: Option<Att>,
    pub aaguid: Vec<u8>,
    /// extra flag bits this model sets in its authenticator data (for example backup bits)
    pub extra_flags: u8,
    pub handle_len: usize,
    pub fmt: &'static str,
    pub shape: EcShape,
    // session state
    pub puat_token: Vec<u8>,
    pub puat_perm: i64,
    pub ka: MKey,
    pub rng: Prng,
    pub asserted: Vec<Asserted>,
    pub made: Vec<Made>,
    pub next: Vec<Vec<u8>>,
    pub pin_tries: u64,
    /// answers every credential request for a handle with this many results
    pub many: u64,
    /// rogue behaviours
    pub rogue: Rogue,
    pub info_extra: bool,
    pub user_in_reply: bool,
    pub cred_in_reply: bool,
    /// the attestation statement carries the issuer's certificate as well
    pub chain: bool,
    pub issuer: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rogue {
    pub foreign_key: bool,
    pub bad_sig_len: Option<usize>,
    /// the signature is damaged as ASN.1
    pub bad_der: bool,
    pub wrong_rp: bool,
    pub stale_challenge: bool,
    pub no_cert: bool,
    pub other_alg: Option<i64>,
    pub other_key_type: bool,
}
impl Token {
    pub fn new(c: &mut Ctx) -> Token {
        let mut p = c.stream();
        Token {
            creds: vec![],
            ctr: 1,
            ctr_step: 1,
            pin: None,
            pin_retries: 8,
            consec: 0,
            supports_pin: true,
            uv: None,
            uv_ok: true,
            uv_retries: 3,
            ctap2: true,
            u2f: false,
            v21: false,
            protos: vec![1],
            always_uv: false,
            puat: false,
            mc_uv_not_rqd: None,
            eddsa: true,
            es256: true,
            att: None,
            aaguid: p.bytes(16),
            extra_flags: 0,
            handle_len: 64,
            fmt: "packed",
            shape: EcShape::Normal,
            puat_token: p.bytes(32),
            puat_perm: 0,
            ka: ecdsa(256, &mut p, 0),
            rng: Prng::new(p.next()),
            asserted: vec![],
            made: vec![],
            next: vec![],
            pin_tries: 0,
            many: 1,
            rogue: Rogue::default(),
            info_extra: false,
            user_in_reply: false,
            cred_in_reply: true,
            chain: false,
            issuer: vec![0x30, 0],
        }
    }
    pub fn power_cycle(&mut self) {
        self.consec = 0;
        self.puat_token = self.rng.bytes(32);
        self.next.clear();
    }
    fn info(&self) -> Vec<u8> {
        let mut vers = vec![];
        if self.u2f {
            vers.push(ctext("U2F_V2"));
        }
        if self.ctap2 {
            vers.push(ctext("FIDO_2_0"));
        }
        if self.v21 {
            vers.push(ctext("FIDO_2_1"));
        }
        let mut o: Vec<(Vec<u8>, Vec<u8>)> = vec![(ctext("rk"), cbool(true)), (ctext("up"), cbool(true))];
        if let Some(u) = self.uv {
            o.push((ctext("uv"), cbool(u)));
        }
        if self.v21 {
            o.push((ctext("alwaysUv"), cbool(self.always_uv)));
        }
        if self.supports_pin {
            o.push((ctext("clientPin"), cbool(self.pin.is_some())));
        }
        if self.puat {
            o.push((ctext("pinUvAuthToken"), cbool(true)));
        }
        if let Some(m) = self.mc_uv_not_rqd {
            o.push((ctext("makeCredUvNotRqd"), cbool(m)));
        }
        // canonical order: shorter keys first
        o.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
        let mut m = vec![(cint(1), carr(&vers))];
        if self.info_extra {
            let mut x = vec![ctext("credProtect")];
            if self.supports_pin || self.puat {
                x.push(ctext("hmac-secret"));
            }
            m.push((cint(2), carr(&x)));
        }
        m.push((cint(3), cbytes(&self.aaguid)));
        m.push((cint(4), cmap(&o)));
        m.push((cint(5), cint(1200)));
        if self.supports_pin || self.puat {
            m.push((cint(6), carr(&self.protos.iter().map(|p| cint(*p)).collect::<Vec<_>>())));
        }
        if self.v21 {
            m.push((cint(7), cint(8)));
            m.push((cint(8), cint(128)));
            m.push((cint(9), carr(&[ctext("usb")])));
        }
        cmap(&m)
    }
    fn shared(&self, proto: i64, ka: &Cv) -> Option<(Vec<u8>, Vec<u8>)> {
        let Sec::Ecdsa(d) = &self.ka.sec else { return None };
        let z = ecdh(d, ka.get(-2)?.bytes()?, ka.get(-3)?.bytes()?)?;
        Some(match proto {
            1 => {
                let k = sha256(&z);
                (k.clone(), k)
            }
            _ => (hkdf(&z, b"CTAP2 HMAC key"), hkdf(&z, b"CTAP2 AES key")),
        })
    }
    fn dec(&self, proto: i64, k: &[u8], d: &[u8]) -> Option<Vec<u8>> {
        if proto == 1 {
            if d.len() % 16 != 0 {
                return None;
            }
            Some(cbc(Mode::Decrypt, k, &[0; 16], d))
        } else {
            if d.len() < 16 || d.len() % 16 != 0 {
                return None;
            }
            Some(cbc(Mode::Decrypt, k, &d[..16], &d[16..]))
        }
    }
    fn enc(&mut self, proto: i64, k: &[u8], d: &[u8]) -> Vec<u8> {
        if proto == 1 {
            cbc(Mode::Encrypt, k, &[0; 16], d)
        } else {
            let iv = self.rng.bytes(16);
            [iv.clone(), cbc(Mode::Encrypt, k, &iv, d)].concat()
        }
    }
    fn check_param(&self, proto: i64, msg: &[u8], got: &[u8]) -> bool {
        let h = hmac(&self.puat_token, msg);
        if proto == 1 {
            got == &h[..16]
        } else {
            got == &h[..]
        }
    }
    fn client_pin(&mut self, v: &Cv) -> Result<Act, u8> {
        let sub = v.get(2).and_then(|x| x.int()).ok_or(0x14)?;
        let ok = |m: Vec<(Vec<u8>, Vec<u8>)>| Ok(Act::Reply(0, cmap(&m)));
        if sub == 1 {
            return ok(vec![(cint(3), cint(self.pin_retries as i64))]);
        }
        if sub == 7 {
            return ok(vec![(cint(5), cint(self.uv_retries as i64))]);
        }
        let proto = v.get(1).and_then(|x| x.int()).ok_or(0x14)?;
        if !self.protos.contains(&proto) {
            return Err(0x02);
        }
        match sub {
            2 => {
                let MPub::Ecdsa { point, .. } = &self.ka.pk else { return Err(0x7f) };
                let k = cmap(&[(cint(1), cint(2)), (cint(3), cint(-25)), (cint(-1), cint(1)), (cint(-2), cbytes(&point[1..33])), (cint(-3), cbytes(&point[33..]))]);
                ok(vec![(cint(1), k)])
            }
            5 | 9 => {
                if sub == 9 && !self.puat {
                    return Err(0x3e);
                }
                let Some(pin) = self.pin.clone() else { return Err(0x35) };
                if self.pin_retries == 0 {
                    return Err(0x32);
                }
                if self.consec >= 3 {
                    return Err(0x34);
                }
                let ka = v.get(3).ok_or(0x14)?;
                let enc = v.get(6).and_then(|x| x.bytes()).ok_or(0x14)?;
                let (_, k) = self.shared(proto, ka).ok_or(0x02)?;
                let got = self.dec(proto, &k, enc).ok_or(0x02)?;
                self.pin_retries -= 1;
                if got != sha256(pin.as_bytes())[..16] {
                    self.pin_tries += 1;
                    self.consec += 1;
                    // a new key agreement key after a wrong PIN
                    let mut p = Prng::new(self.rng.next());
                    self.ka = ecdsa(256, &mut p, 0);
                    return Err(if self.pin_retries == 0 {
                        0x32
                    } else if self.consec >= 3 {
                        0x34
                    } else {
                        0x31
                    });
                }
                self.pin_retries = 8;
                self.consec = 0;
                self.puat_perm = if sub == 5 { 3 } else { v.get(9).and_then(|x| x.int()).unwrap_or(0) };
                let t = self.puat_token.clone();
                let e = self.enc(proto, &k, &t);
                ok(vec![(cint(2), cbytes(&e))])
            }
            6 => {
                if !self.puat || self.uv != Some(true) {
                    return Err(0x3e);
                }
                if self.uv_retries == 0 {
                    return Err(0x3c);
                }
                Ok(Act::Touch(Op::Uv(v.clone())))
            }
            _ => Err(0x3e),
        }
    }
    fn finish_uv(&mut self, v: &Cv) -> Result<Vec<u8>, u8> {
        if !self.uv_ok {
            self.uv_retries -= 1;
            return Err(if self.uv_retries == 0 { 0x3c } else { 0x3f });
        }
        self.uv_retries = 3;
        let proto = v.get(1).and_then(|x| x.int()).ok_or(0x14)?;
        let (_, k) = self.shared(proto, v.get(3).ok_or(0x14)?).ok_or(0x02)?;
        self.puat_perm = v.get(9).and_then(|x| x.int()).unwrap_or(0);
        let t = self.puat_token.clone();
        let e = self.enc(proto, &k, &t);
        Ok(cmap(&[(cint(2), cbytes(&e))]))
    }
    /// verified (by PIN or fingerprint)? Err: the status to answer with.
    fn auth(&mut self, v: &Cv, cdh: &[u8], kp: i64, kproto: i64, opts: Option<&Cv>, perm: i64) -> Result<Option<bool>, u8> {
        if let Some(p) = v.get(kp) {
            let p = p.bytes().ok_or(0x11)?;
            if p.is_empty() {
                return Ok(None); // blink
            }
            let proto = v.get(kproto).and_then(|x| x.int()).ok_or(0x14)?;
            if !self.check_param(proto, cdh, p) || self.puat_perm & perm == 0 {
                return Err(0x33);
            }
            return Ok(Some(true));
        }
        if opts.and_then(|o| o.name("uv")) == Some(&Cv::Bool(true)) {
            if self.uv != Some(true) {
                return Err(0x2c);
            }
            if !self.uv_ok {
                self.uv_retries = self.uv_retries.saturating_sub(1);
                return Err(if self.uv_retries == 0 { 0x36 } else { 0x27 });
            }
            return Ok(Some(true));
        }
        Ok(Some(false))
    }
    pub fn cbor(&mut self, req: &[u8]) -> Act {
        match self.cbor_(req) {
            Ok(a) => a,
            Err(s) => Act::Reply(s, vec![]),
        }
    }
    fn cbor_(&mut self, req: &[u8]) -> Result<Act, u8> {
        let cmd = *req.first().ok_or(0x03)?;
        let mut pos = 1;
        let v = if req.len() > 1 { cparse(req, &mut pos, 0).ok_or(0x12)? } else { Cv::Null };
        if cmd != 8 {
            self.next.clear();
        }
        match cmd {
            4 => Ok(Act::Reply(0, self.info())),
            6 if self.supports_pin || self.puat => self.client_pin(&v),
            0x0b if self.v21 => Ok(Act::Touch(Op::Select)),
            8 => {
                if self.next.is_empty() {
                    return Err(0x30);
                }
                Ok(Act::Reply(0, self.next.remove(0)))
            }
            1 => {
                let cdh = v.get(1).and_then(|x| x.bytes()).ok_or(0x14)?.to_vec();
                let opts = v.get(7).cloned();
                let Some(uv) = self.auth(&v, &cdh, 8, 9, opts.as_ref(), 1)? else {
                    return Ok(Act::Touch(Op::Blink(if self.pin.is_some() { 0x31 } else { 0x35 })));
                };
                let algs: Vec<i64> = v.get(4).map(|a| a.arr().iter().filter_map(|x| x.name("alg").and_then(|y| y.int())).collect()).ok_or(0x14)?;
                if !algs.iter().any(|a| (*a == -8 && self.eddsa) || (*a == -7 && self.es256)) {
                    return Err(0x26);
                }
                let protected = self.pin.is_some() || self.uv == Some(true);
                if !uv && (self.always_uv || (protected && self.mc_uv_not_rqd != Some(true))) {
                    return Err(0x36);
                }
                Ok(Act::Touch(Op::Make(v, uv)))
            }
            2 => {
                let rp = v.get(1).and_then(|x| x.text()).ok_or(0x14)?.to_string();
                let cdh = v.get(2).and_then(|x| x.bytes()).ok_or(0x14)?.to_vec();
                let opts = v.get(5).cloned();
                let Some(uv) = self.auth(&v, &cdh, 6, 7, opts.as_ref(), 2)? else {
                    return Ok(Act::Touch(Op::Blink(if self.pin.is_some() { 0x31 } else { 0x35 })));
                };
                let up = opts.as_ref().and_then(|o| o.name("up")) != Some(&Cv::Bool(false));
                if !uv && self.always_uv && up {
                    return Err(0x36);
                }
                let rph = sha256(rp.as_bytes());
                let mut found = vec![];
                if let Some(l) = v.get(3) {
                    for d in l.arr() {
                        if let Some(id) = d.name("id").and_then(|x| x.bytes()) {
                            if let Some(i) = self.creds.iter().position(|c| c.handle == id && c.rp == rph) {
                                found.push(i);
                            }
                        }
                    }
                }
                if found.is_empty() {
                    return Err(0x2e);
                }
                if up {
                    Ok(Act::Touch(Op::Get(v, found, uv)))
                } else {
                    let r = self.assertion(found[0], &cdh, false, uv, None, 0);
                    Ok(Act::Reply(0, r))
                }
            }
            _ => Err(0x01),
        }
    }
    fn assertion(&mut self, i: usize, cdh: &[u8], up: bool, uv: bool, many: Option<u64>, call: u64) -> Vec<u8> {
        let cr = self.creds[i].clone();
        self.ctr = self.ctr.wrapping_add(self.ctr_step);
        let flags = (up as u8) | (uv as u8) << 2 | self.extra_flags;
        let mut rp = cr.rp.clone();
        if self.rogue.wrong_rp {
            rp[3] ^= 0x10;
        }
        let mut ad = rp.clone();
        ad.push(flags);
        ad.extend(self.ctr.to_be_bytes());
        let signer = if self.rogue.foreign_key {
            match &cr.key.pk {
                MPub::Ed25519 { .. } => ed25519(&self.rng.bytes(32)),
                _ => ecdsa(256, &mut self.rng, 0),
            }
        } else {
            cr.key.clone()
        };
        let over: Vec<u8> = if self.rogue.stale_challenge { sha256(b"another time") } else { cdh.to_vec() };
        let mut sig = self.raw_sign(&signer, &[ad.clone(), over].concat());
        if let Some(n) = self.rogue.bad_sig_len {
            sig.resize(n, 7);
        }
        if self.rogue.bad_der {
            sig = crate::prop::util::odd_der(crate::core::cx(), sig);
        }
        self.asserted.push(Asserted { handle: cr.handle.clone(), rp, cdh: cdh.to_vec(), flags, ctr: self.ctr, sig: sig.clone(), up, delivered: false, call });
        let mut m = vec![];
        if self.cred_in_reply {
            m.push((cint(1), cmap(&[(ctext("id"), cbytes(&cr.handle)), (ctext("type"), ctext("public-key"))])));
        }
        m.push((cint(2), cbytes(&ad)));
        m.push((cint(3), cbytes(&sig)));
        if self.user_in_reply {
            m.push((cint(4), cmap(&[(ctext("id"), cbytes(b"user"))])));
        }
        if let Some(n) = many {
            m.push((cint(5), cint(n as i64)));
        }
        cmap(&m)
    }
    pub fn raw_sign(&mut self, k: &MKey, data: &[u8]) -> Vec<u8> {
        match &k.pk {
            MPub::Ed25519 { .. } => k.raw_ed(data),
            _ => {
                let (r, s) = ecdsa_rs(k, &sha256(data), &mut self.rng, self.shape);
                der_sig(&r, &s)
            }
        }
    }
    fn make(&mut self, v: &Cv, uv: bool, call: u64) -> Result<Vec<u8>, u8> {
        let cdh = v.get(1).and_then(|x| x.bytes()).ok_or(0x14)?.to_vec();
        let rp = v.get(2).and_then(|x| x.name("id")).and_then(|x| x.text()).ok_or(0x14)?.to_string();
        let user = v.get(3).and_then(|x| x.name("id")).and_then(|x| x.bytes()).ok_or(0x14)?.to_vec();
        let algs: Vec<i64> = v.get(4).map(|a| a.arr().iter().filter_map(|x| x.name("alg").and_then(|y| y.int())).collect()).ok_or(0x14)?;
        let pick = *algs.iter().find(|a| (**a == -8 && self.eddsa) || (**a == -7 && self.es256)).ok_or(0x26)?;
        let ed = (pick == -8) ^ self.rogue.other_key_type;
        let key = if ed { ed25519(&self.rng.bytes(32)) } else { ecdsa(256, &mut self.rng, 0) };
        let handle = self.rng.bytes(self.handle_len);
        let mut rph = sha256(rp.as_bytes());
        let cred = Cred { handle: handle.clone(), key: key.clone(), rp: rph.clone(), u2f: false };
        self.creds.push(cred.clone());
        self.ctr = self.ctr.wrapping_add(self.ctr_step);
        let flags = 0x41 | (uv as u8) << 2 | self.extra_flags;
        if self.rogue.wrong_rp {
            rph[3] ^= 0x10;
        }
        let mut ad = rph;
        ad.push(flags);
        ad.extend(self.ctr.to_be_bytes());
        ad.extend_from_slice(&self.aaguid);
        ad.extend((handle.len() as u16).to_be_bytes());
        ad.extend_from_slice(&handle);
        ad.extend(cmap(&cose_pairs(&key.pk)));
        let att = self.att.clone();
        let over = if self.rogue.stale_challenge { sha256(b"another time") } else { cdh.clone() };
        let data = [ad.clone(), over].concat();
        let (mut sig, cert) = match &att {
            Some(a) => {
                let k = if self.rogue.foreign_key { ecdsa(256, &mut self.rng, 0) } else { a.key.clone() };
                (self.raw_sign(&k, &data), a.cert.clone())
            }
            None => (self.raw_sign(&key, &data), vec![]),
        };
        if let Some(n) = self.rogue.bad_sig_len {
            sig.resize(n, 7);
        }
        let alg = self.rogue.other_alg.unwrap_or(if att.is_some() { -7 } else { pick });
        let fmt = self.fmt;
        let mut st = vec![(ctext("alg"), cint(alg)), (ctext("sig"), cbytes(&sig))];
        if !cert.is_empty() && !self.rogue.no_cert {
            let mut x = vec![cbytes(&cert)];
            if self.chain {
                x.push(cbytes(&self.issuer));
            }
            st.push((ctext("x5c"), carr(&x)));
        }
        let stmt = match fmt {
            "none" => cmap(&[]),
            "fido-u2f" => cmap(&[(ctext("sig"), cbytes(&sig)), (ctext("x5c"), carr(&[cbytes(&cert)]))]),
            _ => cmap(&st),
        };
        let honest = self.rogue == Rogue::default() && fmt == "packed" && att.is_some();
        self.made.push(Made { cred, cdh, rp, user, algs, auth_data: ad.clone(), sig, cert, flags, alg, fmt, call, honest });
        Ok(cmap(&[(cint(1), ctext(fmt)), (cint(2), cbytes(&ad)), (cint(3), stmt)]))
    }
    /// The user touched the device.
    pub fn touched(&mut self, op: &Op, call: u64) -> (u8, Vec<u8>) {
        let r = match op {
            Op::Select => Ok(vec![]),
            Op::Blink(s) => Err(*s),
            Op::Uv(v) => self.finish_uv(v),
            Op::Make(v, uv) => self.make(v, *uv, call),
            Op::Get(v, found, uv) => {
                let cdh = v.get(2).and_then(|x| x.bytes()).unwrap_or(&[]).to_vec();
                let n = self.many.max(1);
                let first = self.assertion(found[0], &cdh, true, *uv, if n > 1 { Some(n) } else { None }, call);
                for _ in 1..n {
                    let x = self.assertion(found[0], &cdh, true, *uv, None, call);
                    self.next.push(x);
                }
                Ok(first)
            }
        };
        match r {
            Ok(b) => (0, b),
            Err(s) => (s, vec![]),
        }
    }
    /// U2F message (CTAP1). `present`: the user is touching the device right now. Response with status word.
    pub fn apdu(&mut self, a: &[u8], present: bool, call: u64) -> (Vec<u8>, u16) {
        if a.len() < 4 {
            return (vec![], 0x6700);
        }
        let (ins, p1) = (a[1], a[2]);
        let data: Vec<u8> = if a.len() > 7 {
            let n = (a[5] as usize) << 8 | a[6] as usize;
            a.get(7..7 + n).unwrap_or(&[]).to_vec()
        } else {
            vec![]
        };
        match ins {
            3 => (b"U2F_V2".to_vec(), 0x9000),
            1 => {
                if data.len() != 64 {
                    return (vec![], 0x6700);
                }
                if !present {
                    return (vec![], 0x6985);
                }
                let key = ecdsa(256, &mut self.rng, 0);
                let handle = self.rng.bytes(64);
                let MPub::Ecdsa { point, .. } = &key.pk else { unreachable!() };
                let mut out = vec![5];
                out.extend_from_slice(point);
                out.push(handle.len() as u8);
                out.extend_from_slice(&handle);
                let cert = self.att.as_ref().map(|a| a.cert.clone()).unwrap_or_else(|| vec![0x30, 0]);
                out.extend_from_slice(&cert);
                let over = [vec![0], data[32..].to_vec(), data[..32].to_vec(), handle.clone(), point.clone()].concat();
                let k = self.att.as_ref().map(|a| a.key.clone()).unwrap_or(key.clone());
                let sig = self.raw_sign(&k, &over);
                out.extend(sig);
                (out, 0x9000)
            }
            2 => {
                if data.len() < 65 {
                    return (vec![], 0x6700);
                }
                let (chal, app, h) = (&data[..32], &data[32..64], &data[65..]);
                let Some(i) = self.creds.iter().position(|c| c.u2f && c.handle == h && c.rp == app) else { return (vec![], 0x6a80) };
                if p1 == 7 || (p1 == 3 && !present) {
                    return (vec![], 0x6985);
                }
                let _ = self.assertion(i, chal, p1 == 3, false, None, call);
                let s = self.asserted.last().unwrap();
                let mut out = vec![s.flags];
                out.extend(s.ctr.to_be_bytes());
                out.extend_from_slice(&s.sig);
                (out, 0x9000)
            }
            _ => (vec![], 0x6d00),
        }
    }
}
pub fn sub_of(b: &[u8]) -> i64 {
    cparse(b, &mut 0, 0).and_then(|v| v.get(2).and_then(|x| x.int())).unwrap_or(-1)
}

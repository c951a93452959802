//! Independent reference codec for the OpenSSH formats (PROTOCOL, PROTOCOL.certkeys, PROTOCOL.key, PROTOCOL.sshsig).
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn raw(mut self, b: &[u8]) -> W {
        self.0.extend_from_slice(b);
        self
    }
    pub fn str(self, b: impl AsRef<[u8]>) -> W {
        let b = b.as_ref();
        self.u32(b.len() as u32).raw(b)
    }
    pub fn mpint(self, b: &[u8]) -> W {
        self.str(mpint(b))
    }
}
pub fn mpint(b: &[u8]) -> Vec<u8> {
    let z = b.iter().take_while(|x| **x == 0).count();
    let b = &b[z..];
    let mut v = vec![];
    if b.first().map_or(false, |x| x & 0x80 != 0) {
        v.push(0);
    }
    v.extend_from_slice(b);
    v
}
pub struct R<'a>(pub &'a [u8], pub usize);
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_be_bytes(self.take(4)?.try_into().ok()?))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_be_bytes(self.take(8)?.try_into().ok()?))
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.u32()? as usize;
        self.take(n)
    }
    pub fn string(&mut self) -> Option<String> {
        String::from_utf8(self.bytes()?.to_vec()).ok()
    }
    pub fn mpint(&mut self) -> Option<Vec<u8>> {
        let b = self.bytes()?;
        let z = b.iter().take_while(|x| **x == 0).count();
        Some(b[z..].to_vec())
    }
    pub fn done(&self) -> bool {
        self.1 >= self.0.len()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MPub {
    Ed25519 { key: Vec<u8>, app: Option<String> },
    Ecdsa { bits: u32, point: Vec<u8>, app: Option<String> },
    Rsa { e: Vec<u8>, n: Vec<u8> },
}
impl MPub {
    pub fn name(&self) -> String {
        match self {
            MPub::Ed25519 { app: None, .. } => "ssh-ed25519".into(),
            MPub::Ed25519 { .. } => "sk-ssh-ed25519@openssh.com".into(),
            MPub::Ecdsa { bits, app: None, .. } => format!("ecdsa-sha2-nistp{bits}"),
            MPub::Ecdsa { .. } => "sk-ecdsa-sha2-nistp256@openssh.com".into(),
            MPub::Rsa { .. } => "ssh-rsa".into(),
        }
    }
    pub fn cert_name(&self) -> String {
        match self {
            MPub::Ed25519 { app: None, .. } => "ssh-ed25519-cert-v01@openssh.com".into(),
            MPub::Ed25519 { .. } => "sk-ssh-ed25519-cert-v01@openssh.com".into(),
            MPub::Ecdsa { bits, app: None, .. } => format!("ecdsa-sha2-nistp{bits}-cert-v01@openssh.com"),
            MPub::Ecdsa { .. } => "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com".into(),
            MPub::Rsa { .. } => "ssh-rsa-cert-v01@openssh.com".into(),
        }
    }
    pub fn fields(&self, w: W) -> W {
        match self {
            MPub::Ed25519 { key, app } => {
                let w = w.str(key);
                match app {
                    Some(a) => w.str(a),
                    None => w,
                }
            }
            MPub::Ecdsa { bits, point, app } => {
                let w = w.str(format!("nistp{bits}")).str(point);
                match app {
                    Some(a) => w.str(a),
                    None => w,
                }
            }
            MPub::Rsa { e, n } => w.mpint(e).mpint(n),
        }
    }
    pub fn blob(&self) -> Vec<u8> {
        self.fields(W::default().str(self.name())).0
    }
    pub fn line(&self, comment: Option<&str>) -> String {
        let b = base64::encode(self.blob());
        match comment {
            Some(c) => format!("{} {} {}", self.name(), b, c),
            None => format!("{} {}", self.name(), b),
        }
    }
    pub fn read_fields(name: &str, r: &mut R) -> Option<MPub> {
        Some(match name {
            "ssh-ed25519" => MPub::Ed25519 { key: r.bytes()?.to_vec(), app: None },
            "sk-ssh-ed25519@openssh.com" => MPub::Ed25519 { key: r.bytes()?.to_vec(), app: Some(r.string()?) },
            "ecdsa-sha2-nistp256" | "ecdsa-sha2-nistp384" | "ecdsa-sha2-nistp521" => {
                let c = r.string()?;
                MPub::Ecdsa { bits: c.strip_prefix("nistp")?.parse().ok()?, point: r.bytes()?.to_vec(), app: None }
            }
            "sk-ecdsa-sha2-nistp256@openssh.com" => {
                let c = r.string()?;
                MPub::Ecdsa { bits: c.strip_prefix("nistp")?.parse().ok()?, point: r.bytes()?.to_vec(), app: Some(r.string()?) }
            }
            "ssh-rsa" => MPub::Rsa { e: r.mpint()?, n: r.mpint()? },
            _ => return None,
        })
    }
    pub fn from_blob(b: &[u8]) -> Option<MPub> {
        let mut r = R(b, 0);
        let n = r.string()?;
        MPub::read_fields(&n, &mut r)
    }
    pub fn with_app(&self, a: &str) -> MPub {
        let mut m = self.clone();
        match &mut m {
            MPub::Ed25519 { app, .. } | MPub::Ecdsa { app, .. } => *app = Some(a.into()),
            _ => (),
        }
        m
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MCert {
    pub nonce: Vec<u8>,
    pub key: MPub,
    pub serial: u64,
    pub ctype: u32,
    pub key_id: String,
    pub principals: Vec<String>,
    pub va: u64,
    pub vb: u64,
    pub crit: Vec<(String, String)>,
    pub ext: Vec<(String, String)>,
    pub reserved: Vec<u8>,
    pub ca: MPub,
}
pub fn opts(o: &[(String, String)]) -> Vec<u8> {
    let mut w = W::default();
    for (k, v) in o {
        w = w.str(k);
        w = if v.is_empty() { w.str("") } else { w.str(W::default().str(v).0) };
    }
    w.0
}
fn read_opts(b: &[u8]) -> Option<Vec<(String, String)>> {
    let mut r = R(b, 0);
    let mut v = vec![];
    while !r.done() {
        let k = r.string()?;
        let d = r.bytes()?;
        v.push((k, if d.is_empty() { String::new() } else { R(d, 0).string()? }));
    }
    Some(v)
}
impl MCert {
    pub fn tbs(&self) -> Vec<u8> {
        let mut p = W::default();
        for x in &self.principals {
            p = p.str(x);
        }
        let w = W::default().str(self.key.cert_name()).str(&self.nonce);
        self.key
            .fields(w)
            .u64(self.serial)
            .u32(self.ctype)
            .str(&self.key_id)
            .str(p.0)
            .u64(self.va)
            .u64(self.vb)
            .str(opts(&self.crit))
            .str(opts(&self.ext))
            .str(&self.reserved)
            .str(self.ca.blob())
            .0
    }
    pub fn full(&self, sig: &[u8]) -> Vec<u8> {
        W(self.tbs()).str(sig).0
    }
    /// Reads a certificate; returns fields, length of the signed prefix, signature.
    pub fn read(b: &[u8]) -> Option<(MCert, usize, Vec<u8>)> {
        let mut r = R(b, 0);
        let name = r.string()?;
        let plain = if name.starts_with("sk-") {
            name.strip_suffix("-cert-v01@openssh.com")?.to_string() + "@openssh.com"
        } else {
            name.strip_suffix("-cert-v01@openssh.com")?.to_string()
        };
        let nonce = r.bytes()?.to_vec();
        let key = MPub::read_fields(&plain, &mut r)?;
        let serial = r.u64()?;
        let ctype = r.u32()?;
        let key_id = r.string()?;
        let pb = r.bytes()?;
        let mut pr = R(pb, 0);
        let mut principals = vec![];
        while !pr.done() {
            principals.push(pr.string()?);
        }
        let va = r.u64()?;
        let vb = r.u64()?;
        let crit = read_opts(r.bytes()?)?;
        let ext = read_opts(r.bytes()?)?;
        let reserved = r.bytes()?.to_vec();
        let ca = MPub::from_blob(r.bytes()?)?;
        let n = r.1;
        let sig = r.bytes()?.to_vec();
        Some((MCert { nonce, key, serial, ctype, key_id, principals, va, vb, crit, ext, reserved, ca }, n, sig))
    }
}

// ---------------------------------------------------------------- sshsig
pub fn sshsig_signed(ns: &str, hash: &str, msg: &[u8]) -> Vec<u8> {
    let d = if hash == "sha256" {
        openssl::hash::hash(openssl::hash::MessageDigest::sha256(), msg).unwrap().to_vec()
    } else {
        openssl::hash::hash(openssl::hash::MessageDigest::sha512(), msg).unwrap().to_vec()
    };
    W::default().raw(b"SSHSIG").str(ns).str("").str(hash).str(d).0
}
pub fn sshsig_blob(pk: &MPub, ns: &str, hash: &str, sig: &[u8]) -> Vec<u8> {
    W::default().raw(b"SSHSIG").u32(1).str(pk.blob()).str(ns).str("").str(hash).str(sig).0
}
pub fn armor(kind: &str, blob: &[u8], width: usize, nl: &str) -> String {
    let b = base64::encode(blob);
    let mut s = format!("-----BEGIN {kind}-----{nl}");
    for c in b.as_bytes().chunks(width) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push_str(nl);
    }
    s.push_str(&format!("-----END {kind}-----{nl}"));
    s
}
pub fn unarmor(s: &str) -> Option<Vec<u8>> {
    let mut b = String::new();
    for l in s.lines() {
        if !l.starts_with("-----") {
            b.push_str(l);
        }
    }
    base64::decode(b).ok()
}

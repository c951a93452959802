//! PC/SC seam: the functions of libpcsclite, answered by a simulated service with simulated YubiKeys.
//! Tokens are USB devices, one reader each; a handle belongs to one plug-in of one token. Session state (selected
//! applet, verified PIN, management authentication) belongs to the token, as on the real device.
use crate::core::*;
use crate::ev;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::model::x509::*;
use libc::{c_char, c_long, c_ulong, c_void};
use std::collections::BTreeMap;

const OK: c_long = 0;
const fn e(x: u32) -> c_long {
    (0x8010_0000u32 | x) as c_long
}
pub const INVALID_HANDLE: c_long = e(0x03);
pub const INSUFFICIENT_BUFFER: c_long = e(0x08);
pub const UNKNOWN_READER: c_long = e(0x09);
pub const SHARING_VIOLATION: c_long = e(0x0b);
pub const NO_SMARTCARD: c_long = e(0x0c);
pub const COMM_ERROR: c_long = e(0x13);
pub const NOT_TRANSACTED: c_long = e(0x16);
pub const READER_UNAVAILABLE: c_long = e(0x17);
pub const NO_SERVICE: c_long = e(0x1d);
pub const NO_READERS: c_long = e(0x2e);
pub const UNRESPONSIVE: c_long = e(0x66);
pub const RESET_CARD: c_long = e(0x68);
pub const REMOVED_CARD: c_long = e(0x69);

#[derive(Clone)]
pub struct SlotKey {
    pub k: MKey,
    pub alg: u8,
    /// 0 = the slot's default
    pub pin: u8,
    pub touch: u8,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Yubikey,
    /// a smart card without the PIV applet
    Other,
    /// a PIV card that is not a YubiKey
    ForeignPiv,
    /// an empty card reader
    Empty,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Applet {
    None,
    Piv,
    Otp,
}
pub struct Card {
    pub kind: Kind,
    pub serial: u32,
    pub ver: [u8; 3],
    pub pin: Vec<u8>,
    pub tries: u8,
    pub mgm: [u8; 24],
    pub keys: BTreeMap<u8, SlotKey>,
    pub objs: BTreeMap<u32, Vec<u8>>,
    /// certificates some other program damaged
    pub damaged: Vec<Vec<u8>>,
    // where and since when it is plugged in
    pub reader: Option<String>,
    pub plug: u64,
    /// number of resets since plugged in
    pub epoch: u64,
    // session
    pub applet: Applet,
    pub pin_ok: bool,
    pub pin_fresh: bool,
    pub mgm_ok: bool,
    witness: Option<[u8; 8]>,
    chain: Vec<u8>,
    chain_ins: u8,
    out: Vec<u8>,
    /// will the user touch the device when it blinks
    pub user: bool,
}
impl Card {
    pub fn pin_policy(&self, slot: u8) -> u8 {
        match (self.keys.get(&slot).map(|k| k.pin).unwrap_or(0), slot) {
            (0, 0x9c) => 3,
            (0, 0x9e) => 1,
            (0, _) => 2,
            (p, _) => p,
        }
    }
    pub fn pin_satisfied(&self, slot: u8) -> bool {
        match self.pin_policy(slot) {
            1 => true,
            3 => self.pin_ok && self.pin_fresh,
            _ => self.pin_ok,
        }
    }
    pub fn clear(&mut self) {
        self.clear_session(Applet::Piv)
    }
    fn clear_session(&mut self, applet: Applet) {
        self.applet = applet;
        self.pin_ok = false;
        self.pin_fresh = false;
        self.mgm_ok = false;
        self.witness = None;
        self.chain.clear();
        self.out.clear();
    }
    pub fn attestation(&self, slot: u8) -> Option<Vec<u8>> {
        let k = self.keys.get(&slot)?;
        let by = ecdsa_from_scalar(256, &[7, 7, slot.max(1)]);
        let mx = MX {
            serial: vec![slot, 1],
            issuer: "Yubico PIV Attestation".into(),
            subject: format!("YubiKey PIV Attestation {slot:02x}"),
            key: k.k.pk.clone(),
            exts: vec![
                ("1.3.6.1.4.1.41482.3.3".into(), self.ver.to_vec()),
                ("1.3.6.1.4.1.41482.3.7".into(), int(&self.serial.to_be_bytes())),
                ("1.3.6.1.4.1.41482.3.8".into(), vec![k.pin, k.touch]),
            ],
            ca: false,
        };
        Some(mx.mint(&by, 0, &mut Prng::new(self.serial as u64 * 256 + slot as u64)).0)
    }
}
pub fn obj_of(slot: u8) -> u32 {
    match slot {
        0x9a => 0x5fc105,
        0x9c => 0x5fc10a,
        0x9d => 0x5fc10b,
        0x9e => 0x5fc101,
        0xf9 => 0x5fff01,
        s => 0x5fc10d + (s - 0x82) as u32,
    }
}
/// How a certificate lies in its data object.
pub fn cert_object(cert: &[u8]) -> Vec<u8> {
    [tlv(0x70, cert), vec![0x71, 1, 0, 0xfe, 0]].concat()
}
/// The certificate in a data object, if there is one.
pub fn object_cert(o: &[u8]) -> Option<Vec<u8>> {
    if o.first() == Some(&0x70) {
        let (h, l) = head(o)?;
        let cert = o.get(h..h + l)?.to_vec();
        // Marked as compressed without being so: no PIV reader finds a certificate in it.
        if matches!(o[h + l..], [0x71, 1, info, ..] if info & 1 != 0) && !cert.starts_with(&[0x1f, 0x8b]) {
            return None;
        }
        return Some(cert);
    }
    Some(o.to_vec())
}
/// What the tokens did: nothing of it comes from the code under test.
#[derive(Clone, Debug)]
pub enum Rec {
    Gen { card: usize, slot: u8, alg: u8, pin: u8, touch: u8, pk: MPub },
    Put { card: usize, obj: u32, data: Vec<u8> },
    Sign { card: usize, slot: u8, alg: u8, digest: Vec<u8>, pk: MPub },
    Verify { card: usize, data: Vec<u8>, ok: bool },
    Mgm { card: usize, ok: bool },
    Attest { card: usize, slot: u8 },
    Reset { card: usize },
}
#[derive(Clone)]
pub struct Handle {
    pub card: usize,
    pub plug: u64,
    pub epoch: u64,
    pub tx: bool,
}
#[derive(Default)]
pub struct Pcsc {
    pub cards: Vec<Card>,
    pub handles: BTreeMap<c_long, Handle>,
    pub contexts: Vec<c_long>,
    next: c_long,
    pub log: Vec<Rec>,
    /// the n-th PC/SC call from now is disturbed
    pub plan: Option<u64>,
    /// other processes may re-provision a slot between two transactions
    pub allow_swap: bool,
    pub fired: u64,
    pub calls: u64,
    pub latency_ns: u64,
    pub service_up: bool,
    plugs: u64,
    /// the next signature a token makes arrives as damaged ASN.1 in a well-formed answer; whether that happened
    pub odd_sig: bool,
    pub lied: bool,
}
static mut P: Option<Pcsc> = None;
#[allow(static_mut_refs)]
pub fn pcsc() -> &'static mut Pcsc {
    unsafe { P.get_or_insert_with(|| Pcsc { next: 0x1000, service_up: true, latency_ns: 2_000_000, ..Default::default() }) }
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Call {
    Establish,
    List,
    Connect,
    Reconnect,
    Begin,
    Transmit,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Hit {
    None,
    Err(c_long),
    /// the card executes the command, but the answer is lost
    ErrAfter(c_long),
    Sw(u16),
    Truncate,
}
impl Pcsc {
    pub fn plug(&mut self, card: usize, reader: String) {
        self.plugs += 1;
        let p = self.plugs;
        let c = &mut self.cards[card];
        c.reader = Some(reader);
        c.plug = p;
        c.epoch = 0;
        c.clear_session(Applet::None);
    }
    pub fn unplug(&mut self, card: usize) {
        let c = &mut self.cards[card];
        c.reader = None;
        c.plug = 0;
        c.clear_session(Applet::None);
    }
    pub fn reset(&mut self, card: usize) {
        let c = &mut self.cards[card];
        c.epoch += 1;
        c.clear_session(Applet::None);
        self.log.push(Rec::Reset { card });
    }
    /// A handle whose next command reaches the token without a reconnect.
    pub fn healthy(&self, h: c_long) -> Option<usize> {
        let h = self.handles.get(&h)?;
        let c = &self.cards[h.card];
        (c.plug == h.plug && c.reader.is_some() && c.epoch == h.epoch && c.applet == Applet::Piv && self.service_up).then_some(h.card)
    }
    pub fn new_card(&mut self, c: &mut Ctx, kind: Kind, serial: u32, ver: [u8; 3], p: &mut Prng) -> usize {
        let _ = c;
        let mut mgm = [0u8; 24];
        p.fill(&mut mgm);
        let n = 6 + p.below(3) as usize;
        let pin = (0..n).map(|_| b'0' + p.below(10) as u8).collect();
        self.cards.push(Card {
            kind,
            serial,
            ver,
            pin,
            tries: 3,
            mgm,
            keys: BTreeMap::new(),
            objs: BTreeMap::new(),
            damaged: vec![],
            reader: None,
            plug: 0,
            epoch: 0,
            applet: Applet::None,
            pin_ok: false,
            pin_fresh: false,
            mgm_ok: false,
            witness: None,
            chain: vec![],
            chain_ins: 0,
            out: vec![],
            user: true,
        });
        self.cards.len() - 1
    }
    /// A key as a tool would have made it: key, policies and self-signed certificate.
    pub fn provision(&mut self, card: usize, slot: u8, k: MKey, alg: u8, pin: u8, touch: u8, cn: &str, p: &mut Prng) {
        let mx = MX { serial: vec![1], issuer: cn.into(), subject: cn.into(), key: k.pk.clone(), exts: vec![], ca: false };
        let cert = mx.mint(&k, 0, p).0;
        self.cards[card].objs.insert(obj_of(slot), cert_object(&cert));
        self.cards[card].keys.insert(slot, SlotKey { k, alg, pin, touch });
    }
    fn hit(&mut self, call: Call, card: Option<usize>) -> Hit {
        self.calls += 1;
        cx().now_ns += self.latency_ns;
        match &mut self.plan {
            None => return Hit::None,
            Some(0) => (),
            Some(n) => {
                *n -= 1;
                return Hit::None;
            }
        }
        self.plan = None;
        self.fired += 1;
        let c = cx();
        match call {
            Call::Establish => {
                c.fault("pcsc_no_service");
                Hit::Err(NO_SERVICE)
            }
            Call::List => match c.pick(2) {
                0 => {
                    c.fault("pcsc_no_readers");
                    Hit::Err(NO_READERS)
                }
                _ => {
                    c.fault("pcsc_no_service");
                    Hit::Err(NO_SERVICE)
                }
            },
            Call::Connect => match c.pick(4) {
                0 => {
                    c.fault("connect_sharing_violation");
                    Hit::Err(SHARING_VIOLATION)
                }
                1 => {
                    c.fault("connect_unresponsive");
                    Hit::Err(UNRESPONSIVE)
                }
                2 => {
                    self.unplug(card.unwrap());
                    c.fault("unplug");
                    Hit::Err(READER_UNAVAILABLE)
                }
                _ => {
                    c.fault("connect_no_smartcard");
                    Hit::Err(NO_SMARTCARD)
                }
            },
            Call::Reconnect => match c.pick(3) {
                0 => {
                    c.fault("reconnect_failed");
                    Hit::Err(COMM_ERROR)
                }
                1 => {
                    self.unplug(card.unwrap());
                    c.fault("unplug");
                    Hit::None
                }
                _ => {
                    c.fault("service_restart");
                    self.restart();
                    Hit::None
                }
            },
            Call::Begin => match c.pick(7) {
                0 => {
                    self.reset(card.unwrap());
                    c.fault("reset_by_other_process");
                    Hit::None
                }
                1 => {
                    // another process had a session of its own with this token in between
                    self.cards[card.unwrap()].clear_session(Applet::Piv);
                    c.fault("session_of_other_process");
                    Hit::None
                }
                2 => {
                    self.unplug(card.unwrap());
                    c.fault("unplug");
                    Hit::None
                }
                3 => {
                    c.now_ns += 1_000_000 * c.draw(60_000);
                    c.fault("blocked_by_other_process");
                    Hit::None
                }
                4 => {
                    c.fault("service_restart");
                    self.restart();
                    Hit::None
                }
                5 if self.allow_swap => {
                    // another process puts a new key into a slot (with its certificate)
                    let card = card.unwrap();
                    let slots: Vec<u8> = self.cards[card].keys.keys().copied().collect();
                    if let Some(s) = slots.get(c.pick(slots.len().max(1))).copied() {
                        let mut p = c.stream();
                        let bits = if c.pick(2) == 0 { 256 } else { 384 };
                        let k = ecdsa(bits, &mut p, 0);
                        let old = self.cards[card].keys[&s].clone();
                        self.provision(card, s, k, if bits == 256 { 0x11 } else { 0x14 }, old.pin, old.touch, "swapped", &mut p);
                        c.fault("slot_reprovisioned_by_other_process");
                    }
                    Hit::None
                }
                _ => {
                    self.cards[card.unwrap()].clear_session(Applet::Otp);
                    c.fault("other_applet_selected_by_other_process");
                    Hit::None
                }
            },
            Call::Transmit => match c.pick(12) {
                0 => {
                    self.unplug(card.unwrap());
                    c.fault("unplug");
                    Hit::None
                }
                1 => {
                    c.fault("unplug_before_answer");
                    Hit::ErrAfter(REMOVED_CARD)
                }
                2 => {
                    c.fault("comm_error");
                    Hit::Err(COMM_ERROR)
                }
                3 => {
                    c.fault("comm_error_before_answer");
                    Hit::ErrAfter(COMM_ERROR)
                }
                4 => {
                    self.reset(card.unwrap());
                    c.fault("usb_reset");
                    Hit::None
                }
                5 => {
                    c.fault("truncated_answer");
                    Hit::Truncate
                }
                6 => {
                    c.now_ns += 1_000_000 * c.draw(20_000);
                    c.fault("slow_answer");
                    Hit::None
                }
                k => {
                    let sw = [0x6f00, 0x6581, 0x6a80, 0x6982, 0x6a84][k - 7];
                    c.fault(&format!("status_{sw:04x}"));
                    Hit::Sw(sw)
                }
            },
        }
    }
    pub fn restart(&mut self) {
        self.contexts.clear();
        self.handles.clear();
        for i in 0..self.cards.len() {
            if self.cards[i].reader.is_some() {
                self.cards[i].epoch += 1;
                self.cards[i].clear_session(Applet::None);
            }
        }
    }
    fn apdu(&mut self, ci: usize, a: &[u8]) -> Vec<u8> {
        let (body, sw) = self.exec(ci, a);
        let c = &mut self.cards[ci];
        let mut r;
        if sw == 0x9000 && body.len() > 256 {
            c.out = body[256..].to_vec();
            r = body[..256].to_vec();
            r.extend([0x61, c.out.len().min(255) as u8]);
        } else {
            r = body;
            r.extend(sw.to_be_bytes());
        }
        r
    }
    fn exec(&mut self, ci: usize, a: &[u8]) -> (Vec<u8>, u16) {
        let none = vec![];
        if a.len() < 4 {
            return (none, 0x6700);
        }
        let (cla, ins, p1, p2) = (a[0], a[1], a[2], a[3]);
        let lc = a.get(4).copied().unwrap_or(0) as usize;
        let data = match a.get(5..5 + lc) {
            Some(d) => d,
            None if lc == 0 => &[],
            None => return (none, 0x6700),
        };
        let c = &mut self.cards[ci];
        if ins == 0xc0 {
            let out = std::mem::take(&mut c.out);
            return (out, 0x9000);
        }
        c.out.clear();
        // a chain is continued by the same command only
        if c.chain_ins != ins {
            c.chain.clear();
        }
        c.chain_ins = ins;
        if cla == 0x10 {
            c.chain.extend_from_slice(data);
            return (none, 0x9000);
        }
        let mut full = std::mem::take(&mut c.chain);
        full.extend_from_slice(data);
        let data = full;
        if ins == 0xa4 && p1 == 4 {
            let piv = [0xa0, 0, 0, 3, 8];
            let otp = [0xa0, 0, 0, 5, 0x27, 0x20, 1, 1];
            let ap = match c.kind {
                Kind::Other | Kind::Empty => None,
                Kind::ForeignPiv => data.starts_with(&piv).then_some(Applet::Piv),
                Kind::Yubikey if data.starts_with(&piv) => Some(Applet::Piv),
                Kind::Yubikey if data == otp => Some(Applet::Otp),
                _ => None,
            };
            return match ap {
                Some(x) => {
                    c.clear_session(x);
                    (none, 0x9000)
                }
                None => (none, 0x6a82),
            };
        }
        match (c.applet, c.kind) {
            (Applet::None, _) | (_, Kind::Other) | (_, Kind::Empty) => return (none, 0x6d00),
            (Applet::Otp, _) => {
                return if ins == 1 && p1 == 0x10 { (c.serial.to_be_bytes().to_vec(), 0x9000) } else { (none, 0x6d00) }
            }
            (_, Kind::ForeignPiv) => return (none, if ins == 0xcb { 0x6a82 } else { 0x6d00 }),
            _ => (),
        }
        match ins {
            0xfd => (c.ver.to_vec(), 0x9000),
            0xf8 if c.ver[0] >= 5 => (c.serial.to_be_bytes().to_vec(), 0x9000),
            0x20 if p2 == 0x80 => {
                if c.tries == 0 {
                    return (none, 0x6983);
                }
                if data.is_empty() {
                    return (none, if c.pin_ok { 0x9000 } else { 0x63c0 | c.tries as u16 });
                }
                let mut want = c.pin.clone();
                want.resize(8, 0xff);
                let ok = data == want;
                self.log.push(Rec::Verify { card: ci, data: data.clone(), ok });
                if ok {
                    c.tries = 3;
                    c.pin_ok = true;
                    c.pin_fresh = true;
                    (none, 0x9000)
                } else {
                    c.tries -= 1;
                    c.pin_ok = false;
                    c.pin_fresh = false;
                    (none, if c.tries == 0 { 0x6983 } else { 0x63c0 | c.tries as u16 })
                }
            }
            0x87 if p2 == 0x9b => {
                if p1 != 3 {
                    return (none, 0x6a86);
                }
                let des = |d: &[u8], enc: bool| -> Vec<u8> {
                    let mut cr = openssl::symm::Crypter::new(
                        openssl::symm::Cipher::des_ede3_ecb(),
                        if enc { openssl::symm::Mode::Encrypt } else { openssl::symm::Mode::Decrypt },
                        &c.mgm,
                        None,
                    )
                    .unwrap();
                    cr.pad(false);
                    let mut o = vec![0; 16];
                    let n = cr.update(d, &mut o).unwrap();
                    let n2 = cr.finalize(&mut o[n..]).unwrap();
                    o.truncate(n + n2);
                    o
                };
                if data == [0x7c, 2, 0x80, 0] {
                    let mut w = [0u8; 8];
                    w[..4].copy_from_slice(&c.serial.to_be_bytes());
                    w[4..].copy_from_slice(&(self.calls as u32).to_be_bytes());
                    let o = [vec![0x7c, 10, 0x80, 8], des(&w, true)].concat();
                    c.witness = Some(w);
                    return (o, 0x9000);
                }
                if data.len() == 22 && data[..4] == [0x7c, 20, 0x80, 8] && data[12..14] == [0x81, 8] {
                    let w = c.witness.take();
                    let ok = w.map_or(false, |w| data[4..12] == w);
                    self.log.push(Rec::Mgm { card: ci, ok });
                    if !ok {
                        c.mgm_ok = false;
                        return (none, 0x6982);
                    }
                    let o = [vec![0x7c, 10, 0x82, 8], des(&data[14..22], true)].concat();
                    c.mgm_ok = true;
                    return (o, 0x9000);
                }
                (none, 0x6a80)
            }
            0x87 => {
                let Some(k) = c.keys.get(&p2).cloned() else { return (none, 0x6a80) };
                if k.alg != p1 {
                    return (none, 0x6a80);
                }
                let digest = (|| {
                    let (h, l) = head(&data)?;
                    let b = data.get(h..h + l)?;
                    if b.get(..3)? != [0x82, 0, 0x81] {
                        return None;
                    }
                    let (h, l) = head(&b[2..])?;
                    Some(b.get(2 + h..2 + h + l)?.to_vec())
                })();
                let Some(digest) = digest else { return (none, 0x6a80) };
                if !c.pin_satisfied(p2) {
                    return (none, 0x6982);
                }
                if k.touch >= 2 {
                    if !c.user {
                        cx().now_ns += 15_000_000_000;
                        cx().stat("fault.user_never_touches");
                        return (none, 0x6982);
                    }
                    cx().now_ns += 1_500_000_000;
                }
                if c.pin_policy(p2) == 3 {
                    c.pin_fresh = false;
                }
                let mut p = Prng::new(fnv(self.calls ^ c.serial as u64, &digest));
                let sig = match &k.k.sec {
                    Sec::Ecdsa(_) => {
                        let sh = [EcShape::Normal, EcShape::ShortR, EcShape::ShortS, EcShape::HighRS, EcShape::TinyR][p.below(5) as usize];
                        let (r, s) = ecdsa_rs(&k.k, &digest, &mut p, sh);
                        der_sig(&r, &s)
                    }
                    Sec::Rsa(der) => {
                        let r = openssl::rsa::Rsa::private_key_from_der(der).unwrap();
                        if digest.len() != r.size() as usize {
                            return (none, 0x6a80);
                        }
                        let mut o = vec![0; r.size() as usize];
                        if r.private_encrypt(&digest, &mut o, openssl::rsa::Padding::NONE).is_err() {
                            return (none, 0x6a80);
                        }
                        o
                    }
                    _ => return (none, 0x6a80),
                };
                self.log.push(Rec::Sign { card: ci, slot: p2, alg: p1, digest, pk: k.k.pk.clone() });
                (tlv(0x7c, &tlv(0x82, &sig)), 0x9000)
            }
            0xcb if p1 == 0x3f && p2 == 0xff => {
                let Some(id) = obj_id(&data) else { return (none, 0x6a80) };
                match c.objs.get(&id.0) {
                    Some(o) => (tlv(0x53, o), 0x9000),
                    None => (none, 0x6a82),
                }
            }
            0xdb if p1 == 0x3f && p2 == 0xff => {
                if !c.mgm_ok {
                    return (none, 0x6982);
                }
                let Some((id, at)) = obj_id(&data) else { return (none, 0x6a80) };
                let rest = &data[at..];
                let Some((h, l)) = head(rest) else { return (none, 0x6a80) };
                if rest[0] != 0x53 || rest.len() != h + l {
                    return (none, 0x6a80);
                }
                let o = rest[h..].to_vec();
                if o.is_empty() {
                    c.objs.remove(&id);
                } else {
                    c.objs.insert(id, o.clone());
                }
                self.log.push(Rec::Put { card: ci, obj: id, data: o });
                (none, 0x9000)
            }
            0x47 => {
                if !c.mgm_ok {
                    return (none, 0x6982);
                }
                if !matches!(p2, 0x9a | 0x9c | 0x9d | 0x9e | 0x82..=0x95 | 0xf9) {
                    return (none, 0x6b00);
                }
                let (mut alg, mut pin, mut touch) = (0, 0, 0);
                let Some((h, l)) = head(&data) else { return (none, 0x6a80) };
                if data[0] != 0xac || data.len() != h + l {
                    return (none, 0x6a80);
                }
                for t in data[h..].chunks(3) {
                    match t {
                        [0x80, 1, v] => alg = *v,
                        [0xaa, 1, v] => pin = *v,
                        [0xab, 1, v] => touch = *v,
                        _ => return (none, 0x6a80),
                    }
                }
                let mut p = Prng::new(self.calls.wrapping_mul(0x9E37) ^ ((c.serial as u64) << 20) ^ cx().seed);
                let k = match alg {
                    0x11 => ecdsa(256, &mut p, 0),
                    0x14 => ecdsa(384, &mut p, 0),
                    0x07 => {
                        cx().now_ns += 8_000_000_000;
                        rsa([0, 2][p.below(2) as usize])
                    }
                    _ => return (none, 0x6a80),
                };
                let reply = match &k.pk {
                    MPub::Ecdsa { point, .. } => [vec![0x7f, 0x49], tlv(0x86, point)[..].to_vec()].concat(),
                    MPub::Rsa { e, n } => {
                        let b = [tlv(0x81, n), tlv(0x82, e)].concat();
                        [vec![0x7f], tlv(0x49, &b)].concat()
                    }
                    _ => vec![],
                };
                let reply = if let MPub::Ecdsa { point, .. } = &k.pk { [vec![0x7f], tlv(0x49, &tlv(0x86, point))].concat() } else { reply };
                self.log.push(Rec::Gen { card: ci, slot: p2, alg, pin, touch, pk: k.pk.clone() });
                c.keys.insert(p2, SlotKey { k, alg, pin, touch });
                (reply, 0x9000)
            }
            0xf9 => {
                let a = c.attestation(p1);
                self.log.push(Rec::Attest { card: ci, slot: p1 });
                match a {
                    Some(d) => (d, 0x9000),
                    None => (none, 0x6a80),
                }
            }
            _ => (none, 0x6d00),
        }
    }
}
fn obj_id(d: &[u8]) -> Option<(u32, usize)> {
    if *d.first()? != 0x5c {
        return None;
    }
    let n = *d.get(1)? as usize;
    let mut v = 0u32;
    for b in d.get(2..2 + n)? {
        v = v << 8 | *b as u32;
    }
    Some((v, 2 + n))
}

#[no_mangle]
pub unsafe extern "C" fn SCardEstablishContext(_: c_ulong, _: *const c_void, _: *const c_void, out: *mut c_long) -> c_long {
    let p = pcsc();
    if let Hit::Err(e) = p.hit(Call::Establish, None) {
        return e;
    }
    if !p.service_up {
        return NO_SERVICE;
    }
    p.next += 1;
    p.contexts.push(p.next);
    *out = p.next;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn SCardReleaseContext(h: c_long) -> c_long {
    let p = pcsc();
    let n = p.contexts.len();
    p.contexts.retain(|c| *c != h);
    if p.contexts.len() == n { INVALID_HANDLE } else { OK }
}
#[no_mangle]
pub unsafe extern "C" fn SCardIsValidContext(h: c_long) -> c_long {
    if pcsc().contexts.contains(&h) { OK } else { INVALID_HANDLE }
}
#[no_mangle]
pub unsafe extern "C" fn SCardListReaders(h: c_long, _: *const c_char, buf: *mut c_char, len: *mut c_ulong) -> c_long {
    let p = pcsc();
    if !p.contexts.contains(&h) {
        return INVALID_HANDLE;
    }
    if let Hit::Err(e) = p.hit(Call::List, None) {
        return e;
    }
    let mut v = vec![];
    let mut names: Vec<&String> = p.cards.iter().filter_map(|c| c.reader.as_ref()).collect();
    names.sort();
    if names.is_empty() {
        return NO_READERS;
    }
    for r in names {
        v.extend_from_slice(r.as_bytes());
        v.push(0);
    }
    v.push(0);
    let have = *len as usize;
    *len = v.len() as c_ulong;
    if !buf.is_null() {
        if have < v.len() {
            return INSUFFICIENT_BUFFER;
        }
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
    }
    OK
}
#[no_mangle]
pub unsafe extern "C" fn SCardConnect(h: c_long, name: *const c_char, _: c_ulong, _: c_ulong, out: *mut c_long, proto: *mut c_ulong) -> c_long {
    let p = pcsc();
    if !p.contexts.contains(&h) {
        return INVALID_HANDLE;
    }
    let name = std::ffi::CStr::from_ptr(name).to_string_lossy().to_string();
    let Some(ci) = p.cards.iter().position(|c| c.reader.as_deref() == Some(&name)) else { return UNKNOWN_READER };
    if let Hit::Err(e) = p.hit(Call::Connect, Some(ci)) {
        return e;
    }
    if p.cards[ci].kind == Kind::Empty {
        return NO_SMARTCARD;
    }
    p.next += 1;
    let c = &p.cards[ci];
    p.handles.insert(p.next, Handle { card: ci, plug: c.plug, epoch: c.epoch, tx: false });
    *out = p.next;
    *proto = 2;
    OK
}
/// the handle's card is still the one it was connected to
fn live(h: c_long, reset_matters: bool) -> Result<usize, c_long> {
    let p = pcsc();
    let Some(x) = p.handles.get(&h) else { return Err(INVALID_HANDLE) };
    let c = &p.cards[x.card];
    if c.reader.is_none() || c.plug != x.plug {
        return Err(if c.reader.is_none() { REMOVED_CARD } else { READER_UNAVAILABLE });
    }
    if reset_matters && c.epoch != x.epoch {
        return Err(RESET_CARD);
    }
    Ok(x.card)
}
#[no_mangle]
pub unsafe extern "C" fn SCardReconnect(h: c_long, _: c_ulong, _: c_ulong, init: c_ulong, proto: *mut c_ulong) -> c_long {
    let p = pcsc();
    let ci = match live(h, false) {
        Ok(c) => c,
        Err(e) => return e,
    };
    if let Hit::Err(e) = p.hit(Call::Reconnect, Some(ci)) {
        return e;
    }
    if let Err(e) = live(h, false) {
        return e;
    }
    if init == 1 || init == 2 {
        p.reset(ci);
    }
    let ep = p.cards[ci].epoch;
    p.handles.get_mut(&h).unwrap().epoch = ep;
    *proto = 2;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn SCardDisconnect(h: c_long, disp: c_ulong) -> c_long {
    let p = pcsc();
    let r = live(h, false);
    if p.handles.remove(&h).is_none() {
        return INVALID_HANDLE;
    }
    if let Ok(ci) = r {
        if disp == 1 || disp == 2 {
            p.reset(ci);
        }
    }
    OK
}
#[no_mangle]
pub unsafe extern "C" fn SCardBeginTransaction(h: c_long) -> c_long {
    let p = pcsc();
    let ci = match live(h, true) {
        Ok(c) => c,
        Err(e) => return e,
    };
    if let Hit::Err(e) = p.hit(Call::Begin, Some(ci)) {
        return e;
    }
    if let Err(e) = live(h, true) {
        return e;
    }
    p.handles.get_mut(&h).unwrap().tx = true;
    p.cards[ci].chain.clear();
    OK
}
#[no_mangle]
pub unsafe extern "C" fn SCardEndTransaction(h: c_long, disp: c_ulong) -> c_long {
    let p = pcsc();
    match live(h, true) {
        Ok(ci) => {
            let x = p.handles.get_mut(&h).unwrap();
            if !x.tx {
                return NOT_TRANSACTED;
            }
            x.tx = false;
            if disp == 1 || disp == 2 {
                p.reset(ci);
            }
            OK
        }
        Err(e) => {
            if let Some(x) = p.handles.get_mut(&h) {
                x.tx = false;
            }
            e
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn SCardTransmit(
    h: c_long,
    _: *const c_void,
    send: *const u8,
    slen: c_ulong,
    _: *mut c_void,
    recv: *mut u8,
    rlen: *mut c_ulong,
) -> c_long {
    let p = pcsc();
    let ci = match live(h, true) {
        Ok(c) => c,
        Err(e) => return e,
    };
    let hit = p.hit(Call::Transmit, Some(ci));
    if let Hit::Err(e) = hit {
        return e;
    }
    if let Err(e) = live(h, true) {
        return e;
    }
    let a = std::slice::from_raw_parts(send, slen as usize);
    let mut r = match hit {
        Hit::Sw(s) => {
            p.cards[ci].chain.clear();
            s.to_be_bytes().to_vec()
        }
        _ => p.apdu(ci, a),
    };
    if let Hit::ErrAfter(e) = hit {
        if e == REMOVED_CARD {
            p.unplug(ci);
        }
        return e;
    }
    if hit == Hit::Truncate && a.len() > 3 && a[1] == 0x87 && a[3] != 0x9b && r.len() > 12 {
        // the template arrives short: its lengths no longer fit
        let n = r.len();
        r.drain(n - 9..n - 2);
    }
    if p.odd_sig && hit == Hit::None && a.len() > 3 && a[1] == 0x87 && a[3] != 0x9b && r.len() > 12 && r[0] == 0x7c && r[2] == 0x82 && r[r.len() - 2..] == [0x90, 0] {
        p.odd_sig = false;
        p.lied = true;
        p.fired += 1;
        let c = cx();
        c.fault("damaged_signature");
        let d = crate::prop::util::odd_der(c, r[4..r.len() - 2].to_vec());
        r = [&[0x7c, d.len() as u8 + 2, 0x82, d.len() as u8], &d[..], &[0x90, 0]].concat();
    }
    ev!("    card {ci} <- {} -> {}", hex(&a[..a.len().min(12)]), hex(&r[r.len().saturating_sub(2)..]));
    if (*rlen as usize) < r.len() {
        return INSUFFICIENT_BUFFER;
    }
    std::ptr::copy_nonoverlapping(r.as_ptr(), recv, r.len());
    *rlen = r.len() as c_ulong;
    OK
}

//! The YubiKey world shared by C09 and C10: simulated tokens behind PC/SC, several open handles, other processes.
use super::util::*;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::model::x509::*;
use crate::seam::pcsc::*;
use crate::{ensure, ev};
use sshcerts::ssh::*;
use sshcerts::yubikey::piv::{AlgorithmId, Error, PinPolicy, SlotId, TouchPolicy, Yubikey};
use std::convert::TryFrom;

pub const SLOTS: [u8; 8] = [0x9a, 0x9c, 0x9d, 0x9e, 0x82, 0x83, 0x95, 0x8c];
pub fn slot_id(s: u8) -> SlotId {
    SlotId::try_from(s).expect("slot")
}
pub fn alg_id(a: u8) -> AlgorithmId {
    AlgorithmId::try_from(a).expect("alg")
}
pub struct Dev {
    pub yk: Yubikey,
    pub card: usize,
    pub h: libc::c_long,
}
pub struct World {
    pub devs: Vec<Dev>,
    pub readers: Vec<String>,
    pub mark: usize,
    pub fired: u64,
}
pub fn is_ec(k: &SlotKey) -> Option<u32> {
    match &k.k.pk {
        MPub::Ecdsa { bits, .. } => Some(*bits),
        _ => None,
    }
}
/// The certificate a slot presents, and the public key in it (minted by the harness or self-signed by the code under
/// test; read with an independent parser).
pub fn slot_cert(card: usize, slot: u8) -> Option<Vec<u8>> {
    object_cert(pcsc().cards[card].objs.get(&obj_of(slot))?)
}
pub fn cert_key(cert: &[u8]) -> Option<MPub> {
    let x = openssl::x509::X509::from_der(cert).ok()?;
    let k = x.public_key().ok()?;
    if let Ok(r) = k.rsa() {
        return Some(MPub::Rsa { e: r.e().to_vec(), n: r.n().to_vec() });
    }
    let ec = k.ec_key().ok()?;
    let bits = match ec.group().curve_name()? {
        openssl::nid::Nid::X9_62_PRIME256V1 => 256,
        openssl::nid::Nid::SECP384R1 => 384,
        _ => return None,
    };
    let mut ctx = openssl::bn::BigNumContext::new().ok()?;
    let point = ec.public_key().to_bytes(ec.group(), openssl::ec::PointConversionForm::UNCOMPRESSED, &mut ctx).ok()?;
    Some(MPub::Ecdsa { bits, point, app: None })
}
pub fn cert_cn(cert: &[u8]) -> Option<String> {
    let x = openssl::x509::X509::from_der(cert).ok()?;
    let e = x.subject_name().entries_by_nid(openssl::nid::Nid::COMMONNAME).next()?;
    String::from_utf8(e.data().as_slice().to_vec()).ok()
}
/// The slot holds a key, and its certificate names that key.
pub fn consistent(card: usize, slot: u8) -> Option<MPub> {
    let k = pcsc().cards[card].keys.get(&slot)?.k.pk.clone();
    if pcsc().cards[card].damaged.contains(&slot_cert(card, slot)?) {
        return None;
    }
    (cert_key(&slot_cert(card, slot)?)? == norm(&k)).then_some(k)
}

impl World {
    pub fn new(c: &mut Ctx) -> World {
        let p = pcsc();
        p.latency_ns = 1_000_000 * c.range(1, 40);
        let n = c.range(1, 3) as usize;
        let mut w = World { devs: vec![], readers: vec![], mark: 0, fired: 0 };
        let base = 1_000_000 + c.draw(10_000_000) as u32;
        for i in 0..n {
            let kind = if i > 0 { [Kind::Yubikey, Kind::Yubikey, Kind::Other, Kind::ForeignPiv, Kind::Empty][c.pick(5)] } else { Kind::Yubikey };
            let ver = [[5, 4, 3], [5, 2, 4], [4, 3, 7], [5, 7, 0]][c.pick(4)];
            // serials differ in one digit, or only in the high bits
            let serial = match c.pick(3) {
                0 => base + i as u32,
                1 => base ^ (i as u32) << 24,
                _ => base.wrapping_mul(1 + i as u32),
            };
            let serial = if p.cards.iter().any(|x| x.serial == serial) { base ^ 0x4000_0000 ^ i as u32 } else { serial };
            let mut s = c.stream();
            let ci = p.new_card(c, kind, serial, ver, &mut s);
            ev!("token {ci}: {kind:?} serial {serial} firmware {ver:?}");
            for _ in 0..c.draw(5) {
                let slot = SLOTS[c.pick(SLOTS.len())];
                self_provision(c, ci, slot);
            }
            let r = format!("Yubico YubiKey OTP+FIDO+CCID 0{i} 00");
            w.readers.push(r.clone());
            if i == 0 || c.pick(4) != 3 {
                p.plug(ci, r);
            }
        }
        w
    }
    pub fn start(&mut self) {
        self.mark = pcsc().log.len();
        self.fired = pcsc().fired;
        pcsc().lied = false;
        pcsc().odd_sig = false;
    }
    /// A disturbance of the n-th PC/SC call of the next operation.
    pub fn arm(&mut self, c: &mut Ctx) {
        pcsc().plan = if c.chance(2, 5) { Some(c.draw(16)) } else { None };
        pcsc().odd_sig = c.chance(1, 25);
    }
    pub fn calm(&self) -> bool {
        pcsc().fired == self.fired
    }
    pub fn recs(&self) -> &'static [Rec] {
        &pcsc().log[self.mark..]
    }
    /// what the operation was allowed to do to the tokens
    pub fn bounds(&self, what: &str, card: usize, gen: Option<u8>, put: Option<u32>, sign: Option<u8>, verifies: usize) {
        let mut nv = 0;
        for r in self.recs() {
            match r {
                Rec::Gen { card: ci, slot, .. } => {
                    ensure!(*ci == card && gen == Some(*slot), "generated a key where it was not asked to", "{what}: token {ci} slot {slot:02x}")
                }
                Rec::Put { card: ci, obj, .. } => {
                    ensure!(*ci == card && put == Some(*obj), "wrote an object it was not asked to", "{what}: token {ci} object {obj:06x}")
                }
                Rec::Sign { card: ci, slot, .. } => {
                    ensure!(*ci == card && sign == Some(*slot), "used a key it was not asked to", "{what}: token {ci} slot {slot:02x}")
                }
                Rec::Verify { card: ci, .. } => {
                    ensure!(*ci == card, "PIN sent to another token", "{what}: token {ci}");
                    nv += 1;
                }
                _ => (),
            }
        }
        ensure!(nv <= verifies, "more PIN tries than allowed", "{what}: {nv} PIN tries");
        pcsc().plan = None;
    }
    /// the PC/SC handle this object now uses
    pub fn rebind(&mut self, i: usize) {
        let others: Vec<_> = self.devs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, d)| d.h).collect();
        if pcsc().handles.contains_key(&self.devs[i].h) {
            return;
        }
        if let Some(h) = pcsc().handles.keys().rev().find(|h| !others.contains(h)) {
            self.devs[i].h = *h;
        }
    }
    pub fn adopt(&mut self, yk: Yubikey, serial: u32) -> usize {
        let used: Vec<_> = self.devs.iter().map(|d| d.h).collect();
        let h = pcsc().handles.iter().rev().find(|(h, _)| !used.contains(h)).map(|(h, x)| (*h, x.card));
        let Some((h, card)) = h else { violate("opened without a connection", format!("serial {serial}")) };
        ensure!(pcsc().cards[card].serial == serial, "another device was opened", "asked for {serial}, connected to {}", pcsc().cards[card].serial);
        ensure!(u32::from(yk.yk.serial()) == serial, "another device was opened", "asked for {serial}, got {}", u32::from(yk.yk.serial()));
        self.devs.push(Dev { yk, card, h });
        self.devs.len() - 1
    }
    /// is the device with this serial plugged in
    pub fn plugged(&self, serial: u32) -> bool {
        pcsc().cards.iter().any(|c| c.serial == serial && c.kind == Kind::Yubikey && c.reader.is_some())
    }
    pub fn op_open(&mut self, c: &mut Ctx) {
        gen_clock(c);
        c.begin("open");
        self.start();
        let known: Vec<u32> = pcsc().cards.iter().map(|x| x.serial).collect();
        let ready: Vec<u32> = pcsc().cards.iter().filter(|x| x.kind == Kind::Yubikey && x.reader.is_some()).map(|x| x.serial).collect();
        let serial = match c.pick(8) {
            7 => match c.pick(6) {
                0 => 0,
                1 => u32::MAX,
                2 => known[0].swap_bytes(),
                _ => known[0] ^ 1 << c.draw(32),
            },
            5 | 6 => known[c.pick(known.len())],
            _ if ready.is_empty() => known[0],
            _ => ready[c.pick(ready.len())],
        };
        self.arm(c);
        ev!("open({serial})");
        let before = self.plugged(serial);
        let r = lib("Yubikey::open", || Yubikey::open(serial));
        self.bounds("open", usize::MAX, None, None, None, 0);
        match r {
            Ok(yk) => {
                self.adopt(yk, serial);
            }
            Err(Error::NoSuchYubikey) => ensure!(!(before && self.calm()), "connected device not found", "serial {serial}"),
            Err(e) => violate("open failed with another error", format!("{e:?}")),
        }
        c.end();
    }
    pub fn op_new(&mut self, c: &mut Ctx) {
        c.begin("open_only_device");
        self.start();
        self.arm(c);
        ev!("new()");
        let readers: Vec<(u32, Kind)> = pcsc().cards.iter().filter(|x| x.reader.is_some()).map(|x| (x.serial, x.kind)).collect();
        let r = lib("Yubikey::new", Yubikey::new);
        self.bounds("new", usize::MAX, None, None, None, 0);
        match r {
            Ok(yk) => {
                let s = u32::from(yk.yk.serial());
                self.adopt(yk, s);
            }
            Err(e) => ensure!(!(self.calm() && readers.len() == 1 && readers[0].1 == Kind::Yubikey), "the only connected device was not opened", "{e:?}"),
        }
        c.end();
    }
    /// What a user does with a handle that stopped working: reconnect and unlock again, most of the time.
    pub fn revive(&mut self, c: &mut Ctx, i: usize) {
        let d = &self.devs[i];
        if pcsc().healthy(d.h).is_none() && c.pick(5) != 4 {
            if pcsc().cards[d.card].reader.is_none() && c.pick(3) != 2 {
                let free: Vec<String> = self.readers.iter().filter(|r| !pcsc().cards.iter().any(|x| x.reader.as_ref() == Some(r))).cloned().collect();
                if let Some(r) = free.get(c.pick(free.len().max(1))) {
                    pcsc().plug(d.card, r.clone());
                    c.fault("plug_in");
                }
            }
            self.op_reconnect(c, i);
        }
        if !pcsc().cards[self.devs[i].card].mgm_ok && c.pick(3) != 2 {
            self.op_unlock(c, i);
        }
    }
    pub fn op_drop(&mut self, c: &mut Ctx) {
        let i = c.pick(self.devs.len());
        c.begin("close");
        let d = self.devs.swap_remove(i);
        lib("drop", || drop(d.yk));
        c.end();
    }
    pub fn op_world(&mut self, c: &mut Ctx) {
        let p = pcsc();
        let ci = c.pick(p.cards.len());
        c.begin("world");
        match c.pick(8) {
            0 => {
                if p.cards[ci].reader.is_some() {
                    p.unplug(ci);
                    c.fault("unplug_between");
                }
                // the user plugs it in again, maybe into another port
                if c.pick(4) != 0 {
                    let free: Vec<String> = self.readers.iter().filter(|r| !p.cards.iter().any(|x| x.reader.as_ref() == Some(r))).cloned().collect();
                    if let Some(r) = free.get(c.pick(free.len().max(1))) {
                        p.plug(ci, r.clone());
                        c.fault("plug_in");
                    }
                }
            }
            1 => {
                if p.cards[ci].reader.is_some() {
                    p.reset(ci);
                    c.fault("reset_by_other_process");
                }
            }
            2 => {
                p.cards[ci].clear();
                c.fault("session_of_other_process");
            }
            3 => {
                p.cards[ci].user = !p.cards[ci].user;
                c.fault("user_attention_changes");
            }
            4 => {
                // another tool writes something into a slot's certificate object
                let slot = SLOTS[c.pick(SLOTS.len())];
                let mut s = c.stream();
                let o = match c.pick(6) {
                    // (a broken 0x70 wrapper makes the yubikey crate itself panic: not this repository's code)
                    0 => [vec![[0x71u8, 0x30, 0x00, 0xff][c.pick(4)]], s.bytes(c.pick(60))].concat(),
                    1 => tlv(0x70, &[]),
                    2 => cert_object(&s.bytes(c.pick(40))),
                    3 => vec![0x70],
                    4 => match slot_cert(ci, slot) {
                        // an uncompressed certificate without wrapper, as older tools wrote it
                        Some(x) if !x.is_empty() => x,
                        _ => vec![0x53, 0],
                    },
                    _ => match slot_cert(ci, slot) {
                        Some(mut x) => {
                            let d = damage(c, &mut x, None);
                            ev!("  certificate object damaged: {d}");
                            p.cards[ci].damaged.push(x.clone());
                            if x.is_empty() { vec![0] } else { cert_object(&x) }
                        }
                        None => vec![0],
                    },
                };
                p.cards[ci].objs.insert(obj_of(slot), o);
                c.fault("foreign_object_in_slot");
            }
            5 => {
                let slot = SLOTS[c.pick(SLOTS.len())];
                self_provision(c, ci, slot);
                c.fault("slot_provisioned_by_other_process");
            }
            6 => {
                // certificate removed, key stays
                let slot = SLOTS[c.pick(SLOTS.len())];
                p.cards[ci].objs.remove(&obj_of(slot));
                c.fault("certificate_removed");
            }
            _ => {
                p.restart();
                c.fault("service_restart_between");
            }
        }
        c.end();
    }
    pub fn op_unlock(&mut self, c: &mut Ctx, i: usize) {
        c.begin("unlock");
        self.start();
        let card = self.devs[i].card;
        let k = &pcsc().cards[card];
        let mut pin = k.pin.clone();
        let mut mgm = k.mgm.to_vec();
        let (mut pin_good, mut mgm_good) = (true, true);
        match c.pick(12) {
            8 => {
                let j = c.pick(pin.len());
                pin[j] ^= 1;
                pin_good = false;
            }
            9 => {
                pin = [&b""[..], b"1", b"12345678", b"123456789", b"\xff\xff\xff\xff\xff\xff\xff\xff"][c.pick(5)].to_vec();
                pin_good = pin == k.pin;
            }
            10 => {
                let j = c.pick(24);
                mgm[j] ^= 2 << c.draw(7);
                mgm_good = mgm == k.mgm;
            }
            11 => {
                mgm = match c.pick(4) {
                    0 => vec![],
                    1 => mgm[..23].to_vec(),
                    2 => [mgm, vec![1]].concat(),
                    _ => vec![1; 24],
                };
                mgm_good = mgm == k.mgm;
            }
            _ => (),
        }
        self.arm(c);
        let tries = k.tries;
        let was_ok = k.pin_ok;
        let healthy = pcsc().healthy(self.devs[i].h) == Some(card);
        ev!("unlock(token {card}, pin {}, mgm {})", if pin_good { "right" } else { "wrong" }, if mgm_good { "right" } else { "wrong" });
        let yk = &mut self.devs[i].yk;
        let r = lib("unlock", || yk.unlock(&pin, &mgm));
        self.bounds("unlock", card, None, None, None, 1);
        let mut padded = pin.clone();
        padded.resize(8.max(pin.len()), 0xff);
        for x in self.recs() {
            if let Rec::Verify { data, .. } = x {
                ensure!(*data == padded, "another PIN was sent", "{}", hex(data));
            }
        }
        match r {
            Ok(()) => {
                c.stat("attack.unlock_ok");
                ensure!(mgm_good, "unlocked with a wrong management key", "");
                ensure!(pin_good || pin.is_empty() && was_ok, "unlocked with a wrong PIN", "{}", hex(&pin));
                ensure!(
                    self.recs().iter().any(|x| matches!(x, Rec::Mgm { ok: true, .. })) && (pin.is_empty() || self.recs().iter().any(|x| matches!(x, Rec::Verify { ok: true, .. }))),
                    "unlock reported without the device agreeing",
                    ""
                );
            }
            Err(e) => {
                ensure!(!(healthy && self.calm() && pin_good && mgm_good && tries > 0), "right PIN and management key refused", "{e:?}");
                if !mgm_good && mgm.len() != 24 && pin_good && healthy && self.calm() && tries > 0 {
                    ensure!(matches!(e, Error::InvalidManagementKey), "wrong error for a malformed management key", "{e:?}");
                }
                ev!("  {e:?}");
            }
        }
        c.end();
    }
    pub fn op_reconnect(&mut self, c: &mut Ctx, i: usize) {
        c.begin("reconnect");
        self.start();
        self.arm(c);
        let card = self.devs[i].card;
        let serial = pcsc().cards[card].serial;
        ev!("reconnect(token {card})");
        let before = self.plugged(serial);
        let tries = pcsc().cards[card].tries;
        let yk = &mut self.devs[i].yk;
        let r = lib("reconnect", || yk.reconnect());
        self.bounds("reconnect", card, None, None, None, 1);
        self.rebind(i);
        ensure!(u32::from(self.devs[i].yk.yk.serial()) == serial, "reconnected to another device", "{serial}");
        match r {
            Ok(()) => {
                let on = pcsc().handles.get(&self.devs[i].h).map(|h| h.card);
                ensure!(on == Some(card), "reconnected to another device", "token {card} -> {on:?}");
                if self.calm() {
                    ensure!(pcsc().healthy(self.devs[i].h).is_some(), "reconnect reported but the device cannot be used", "token {card}");
                }
            }
            Err(Error::NoSuchYubikey) => ensure!(!(before && self.calm() && tries > 0), "connected device not found on reconnect", "serial {serial}"),
            Err(e) => violate("reconnect failed with another error", format!("{e:?}")),
        }
        c.end();
    }
    /// Would a signature by this slot be made now, if nothing disturbs it
    pub fn can_sign(&self, i: usize, slot: u8) -> Option<(u32, MPub)> {
        let d = &self.devs[i];
        let card = pcsc().healthy(d.h)?;
        let c = &pcsc().cards[card];
        let k = c.keys.get(&slot)?;
        let pk = consistent(card, slot)?;
        (c.pin_satisfied(slot) && (k.touch < 2 || c.user)).then_some((is_ec(k)?, pk))
    }
    pub fn pick_slot(&self, c: &mut Ctx, card: usize) -> u8 {
        let have: Vec<u8> = pcsc().cards[card].keys.keys().copied().collect();
        if !have.is_empty() && c.pick(5) != 4 { have[c.pick(have.len())] } else { SLOTS[c.pick(SLOTS.len())] }
    }
    /// the key that signed last in this operation
    pub fn signer(&self, card: usize, slot: u8) -> Option<(MPub, Vec<u8>)> {
        self.recs().iter().rev().find_map(|r| match r {
            Rec::Sign { card: ci, slot: s, pk, digest, .. } if *ci == card && *s == slot => Some((pk.clone(), digest.clone())),
            _ => None,
        })
    }
    pub fn op_sign(&mut self, c: &mut Ctx, i: usize) {
        c.begin("sign_data");
        self.start();
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        let real = pcsc().cards[card].keys.get(&slot).map(|k| k.alg).unwrap_or(0x11);
        let alg = match c.pick(6) {
            5 => [0x11, 0x14, 0x07, 0x06][c.pick(4)],
            _ => real,
        };
        let data = gen_bytes(c, 3000);
        self.arm(c);
        let can = self.can_sign(i, slot);
        let healthy = pcsc().healthy(self.devs[i].h).is_some();
        let empty = !pcsc().cards[card].objs.contains_key(&obj_of(slot));
        let cons = consistent(card, slot);
        ev!("sign_data(token {card}, slot {slot:02x}, alg {alg:02x}, {} bytes)", data.len());
        let yk = &mut self.devs[i].yk;
        let r = lib("sign_data", || yk.sign_data(&data, alg_id(alg), &slot_id(slot)));
        self.bounds("sign_data", card, None, None, Some(slot), 0);
        if pcsc().lied {
            c.probe("damaged_signature_from_token");
            return c.end();
        }
        match r {
            Ok(sig) => {
                c.stat("attack.signature_made");
                let Some((pk, _)) = self.signer(card, slot) else { violate("signature without the device signing", hex(&sig)) };
                let MPub::Ecdsa { bits, point, .. } = &pk else { violate("signature of an RSA slot", hex(&sig)) };
                ensure!(alg == if *bits == 256 { 0x11 } else { 0x14 }, "signed although another algorithm was requested", "slot {bits}, asked {alg:02x}");
                let z = if *bits == 256 { sha256(&data) } else { sha384(&data) };
                let ok = openssl::ecdsa::EcdsaSig::from_der(&sig).map(|s| ec_verify(*bits, point, &z, &s.r().to_vec(), &s.s().to_vec())).unwrap_or(false);
                ensure!(ok, "signature does not verify under the slot's key", "slot {slot:02x} {} over {} bytes", hex(&sig), data.len());
            }
            Err(e) => {
                ev!("  {e:?}");
                if self.calm() {
                    if let Some((bits, _)) = &can {
                        ensure!(alg != if *bits == 256 { 0x11 } else { 0x14 }, "healthy unlocked device did not sign", "{e:?}");
                    }
                    if healthy && empty {
                        ensure!(matches!(e, Error::Unprovisioned), "wrong error for an empty slot", "{e:?}");
                    }
                    if let (true, Some(MPub::Ecdsa { bits, .. })) = (healthy, &cons) {
                        if alg != if *bits == 256 { 0x11 } else { 0x14 } {
                            ensure!(matches!(e, Error::WrongKeyType), "wrong error for another algorithm", "{e:?}");
                        }
                    }
                }
            }
        }
        c.end();
    }
    pub fn op_ssh_sign(&mut self, c: &mut Ctx, i: usize) {
        c.begin("ssh_cert_signer");
        self.start();
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        let data = gen_bytes(c, 2000);
        self.arm(c);
        let can = self.can_sign(i, slot);
        ev!("ssh_cert_signer(token {card}, slot {slot:02x}, {} bytes)", data.len());
        let yk = &mut self.devs[i].yk;
        let r = lib("ssh_cert_signer", || yk.ssh_cert_signer(&data, &slot_id(slot)));
        self.bounds("ssh_cert_signer", card, None, None, Some(slot), 0);
        if pcsc().lied {
            c.probe("damaged_signature_from_token");
            return c.end();
        }
        match r {
            Ok(sig) => {
                c.stat("attack.signature_made");
                let Some((pk, _)) = self.signer(card, slot) else { violate("signature without the device signing", hex(&sig)) };
                ensure!(verify(&pk, &data, &sig).is_some(), "SSH signature does not verify under the slot's key", "slot {slot:02x} {}", hex(&sig));
            }
            Err(e) => {
                ev!("  {e:?}");
                ensure!(!(self.calm() && can.is_some()), "healthy unlocked device did not sign", "{e:?}");
            }
        }
        c.end();
    }
    /// a certificate authority on the token
    pub fn op_issue(&mut self, c: &mut Ctx, i: usize) {
        struct S<'a>(std::cell::RefCell<&'a mut Yubikey>, u8);
        impl SSHCertificateSigner for S<'_> {
            fn sign(&self, buf: &[u8]) -> Option<Vec<u8>> {
                self.0.borrow_mut().ssh_cert_signer(buf, &slot_id(self.1)).ok()
            }
        }
        c.begin("issue_certificate");
        self.start();
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        let Some(ca) = consistent(card, slot) else { return c.end() };
        let sub_m = gen_key(c, &ALL_KK, false);
        let (sub, cak) = (lib_pub(c, &sub_m.pk), lib_pub(c, &ca));
        let kid = gen_string(c, 20);
        self.arm(c);
        let can = self.can_sign(i, slot);
        ev!("issue certificate with token {card} slot {slot:02x}");
        let s = S(std::cell::RefCell::new(&mut self.devs[i].yk), slot);
        let r = lib("Certificate::sign", || Certificate::builder(&sub, CertType::User, &cak).and_then(|b| b.key_id(&kid).valid_after(0).valid_before(u64::MAX).sign(&s)));
        self.bounds("issue", card, None, None, Some(slot), 0);
        match r {
            Ok(cert) => {
                c.stat("attack.certificate_issued");
                let bytes = base64::decode(format!("{cert}").split_whitespace().nth(1).unwrap_or("")).unwrap_or_default();
                let Some((m, tbs, csig)) = MCert::read(&bytes) else { violate("issued certificate unreadable", hex(&bytes)) };
                ensure!(m.key_id == kid, "issued certificate has other contents", "{}", m.key_id);
                let ok = verify(&ca, &bytes[..tbs], &csig).is_some();
                ensure!(ok, "issued certificate does not verify under the token's key", "slot {slot:02x}");
                let line = format!("{cert}");
                let back = lib("Certificate::from_string", || Certificate::from_string(&line));
                ensure!(back.is_ok(), "issued certificate is refused", "{:?}", back.err());
            }
            Err(e) => {
                ev!("  {e:?}");
                ensure!(!(self.calm() && matches!(can, Some((_, ref k)) if *k == ca)), "healthy unlocked device did not sign", "{e:?}");
            }
        }
        c.end();
    }
    pub fn op_query(&mut self, c: &mut Ctx, i: usize) {
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        let what = c.pick(3);
        c.begin(["get_ssh_key_type", "configured", "ssh_cert_fetch_pubkey"][what]);
        self.start();
        self.arm(c);
        let healthy = pcsc().healthy(self.devs[i].h).is_some();
        ev!("query {what} (token {card}, slot {slot:02x})");
        let before = consistent(card, slot);
        let had = slot_cert(card, slot).and_then(|x| cert_key(&x));
        let yk = &mut self.devs[i].yk;
        let id = slot_id(slot);
        // a uniform view of the three answers
        let r: Result<Option<MPub>, Error> = match what {
            0 => lib("get_ssh_key_type", || yk.get_ssh_key_type(&id)).map(|a| {
                Some(match a {
                    AlgorithmId::EccP256 => MPub::Ecdsa { bits: 256, point: vec![], app: None },
                    AlgorithmId::EccP384 => MPub::Ecdsa { bits: 384, point: vec![], app: None },
                    _ => MPub::Rsa { e: vec![], n: vec![] },
                })
            }),
            1 => lib("configured", || yk.configured(&id)).map(|p| pki(&p)),
            _ => lib("ssh_cert_fetch_pubkey", || yk.ssh_cert_fetch_pubkey(&id)).map(|k| mpub_of(&k)),
        };
        self.bounds("query", card, None, None, None, 0);
        let after = slot_cert(card, slot).and_then(|x| cert_key(&x));
        match r {
            Ok(got) => {
                let same = |w: &Option<MPub>| match (w, &got) {
                    (Some(MPub::Ecdsa { bits: a, .. }), Some(MPub::Ecdsa { bits: b, point, .. })) if what == 0 => a == b && point.is_empty(),
                    (Some(a), Some(b)) => norm(a) == norm(b),
                    _ => false,
                };
                // certificates the independent parser cannot read are not judged
                if had.is_some() && after.is_some() {
                    ensure!(same(&had) || same(&after), "reports another key than the slot's", "{what}: got {got:?}, slot has {had:?}");
                }
                ensure!(pcsc().cards[card].objs.contains_key(&obj_of(slot)) || !self.calm(), "reports a key for an empty slot", "{slot:02x}");
            }
            Err(e) => {
                ev!("  {e:?}");
                if self.calm() && healthy {
                    if let Some(MPub::Ecdsa { .. }) = before {
                        violate("a slot's key is not reported", format!("{what}: {e:?}"));
                    }
                    if before.is_some() && what == 1 {
                        violate("a slot's key is not reported", format!("{what}: {e:?}"));
                    }
                }
            }
        }
        c.end();
    }
    pub fn op_provision(&mut self, c: &mut Ctx, i: usize) {
        c.begin("provision");
        self.start();
        let card = self.devs[i].card;
        let slot = if c.pick(8) == 7 { self.pick_slot(c, card) } else { SLOTS[c.pick(SLOTS.len())] };
        let alg = [0x11u8, 0x14, 0x11, 0x14, 0x07][c.pick(5)];
        let pin = c.pick(4) as u8;
        let touch = c.pick(4) as u8;
        let cn = gen_cn(c);
        let pp = [PinPolicy::Default, PinPolicy::Never, PinPolicy::Once, PinPolicy::Always][pin as usize];
        let tp = [TouchPolicy::Default, TouchPolicy::Never, TouchPolicy::Always, TouchPolicy::Cached][touch as usize];
        self.arm(c);
        let k = &pcsc().cards[card];
        let (mgm_ok, pin_ok, fresh) = (k.mgm_ok, k.pin_ok, k.pin_fresh);
        let healthy = pcsc().healthy(self.devs[i].h).is_some();
        let eff = match (pin, slot) {
            (0, 0x9c) => 3,
            (0, 0x9e) => 1,
            (0, _) => 2,
            (p, _) => p,
        };
        let can = healthy && mgm_ok && (eff == 1 || pin_ok && (eff != 3 || fresh)) && (touch < 2 || k.user) && cn.len() <= 64 && alg != 0x07;
        ev!("provision(token {card}, slot {slot:02x}, {:?}, alg {alg:02x}, pin {pin}, touch {touch})", cn);
        let yk = &mut self.devs[i].yk;
        let r = lib("provision", || yk.provision(&slot_id(slot), &cn, alg_id(alg), tp, pp));
        self.bounds("provision", card, Some(slot), Some(obj_of(slot)), Some(slot), 0);
        let gens: Vec<_> = self.recs().iter().filter_map(|r| if let Rec::Gen { alg, pin, touch, pk, .. } = r { Some((*alg, *pin, *touch, pk.clone())) } else { None }).collect();
        match r {
            Ok(key) => {
                c.stat("attack.provisioned");
                ensure!(mgm_ok, "provisioned without a successful unlock", "slot {slot:02x}");
                let Some((a, p, t, pk)) = gens.last().cloned() else { violate("provision reported without a new key", format!("slot {slot:02x}")) };
                ensure!(a == alg && p == pin && t == touch, "key made with another algorithm or policy", "asked {alg:02x}/{pin}/{touch}, got {a:02x}/{p}/{t}");
                ensure!(pub_matches(&key, &pk), "provision returned another public key", "{key:?}");
                ensure!(pcsc().cards[card].keys.get(&slot).map(|k| k.k.pk == pk) == Some(true), "slot does not hold the new key", "");
                let Some(cert) = slot_cert(card, slot) else { violate("no certificate in the provisioned slot", String::new()) };
                ensure!(cert_key(&cert) == Some(norm(&pk)), "slot's certificate names another key", "");
                ensure!(cert_cn(&cert).as_deref() == Some(&cn), "slot's certificate carries another name", "{:?} for {cn:?}", cert_cn(&cert));
                let self_ok = openssl::x509::X509::from_der(&cert).and_then(|x| x.verify(&*x.public_key()?)).unwrap_or(false);
                ensure!(self_ok || pcsc().lied, "slot's certificate is not signed by the slot's key", "");
            }
            Err(e) => {
                ev!("  {e:?}");
                ensure!(!(can && self.calm()), "healthy unlocked device was not provisioned", "{e:?}");
            }
        }
        c.end();
    }
    pub fn op_write_cert(&mut self, c: &mut Ctx, i: usize) {
        c.begin("write_certificate");
        self.start();
        let card = self.devs[i].card;
        let slot = SLOTS[c.pick(SLOTS.len())];
        let mut s = c.stream();
        let by = ecdsa(256, &mut s, 0);
        let of = match c.pick(3) {
            0 => ecdsa(256, &mut s, 0),
            1 => ecdsa(384, &mut s, 0),
            _ => rsa([0, 2][c.pick(2)]),
        };
        let pad = [0usize, 0, 10, 200, 900, 1800, 2300, 2600, 2800, 3000, 4000][c.pick(11)];
        let exts = if pad > 0 { vec![("1.3.6.1.4.1.41482.9.9".to_string(), octet(&s.bytes(pad + c.pick(120))))] } else { vec![] };
        let mx = MX { serial: s.bytes(1 + s.0[0] as usize % 19), issuer: "ca".into(), subject: gen_token(c, 1, 20), key: of.pk.clone(), exts, ca: false };
        let mut der = mx.mint(&by, 0, &mut s).0;
        let valid = match c.pick(5) {
            4 => {
                let d = damage(c, &mut der, None);
                ev!("  damaged: {d}");
                false
            }
            _ => true,
        };
        self.arm(c);
        let mgm_ok = pcsc().cards[card].mgm_ok;
        let healthy = pcsc().healthy(self.devs[i].h).is_some();
        ev!("write_certificate(token {card}, slot {slot:02x}, {} bytes)", der.len());
        let yk = &mut self.devs[i].yk;
        let r = lib("write_certificate", || yk.write_certificate(&slot_id(slot), &der));
        self.bounds("write_certificate", card, None, Some(obj_of(slot)), None, 0);
        match r {
            Ok(()) => {
                c.stat("attack.certificate_stored");
                ensure!(mgm_ok, "certificate written without a successful unlock", "");
                ensure!(slot_cert(card, slot).as_deref() == Some(&der[..]), "another certificate was stored", "{} bytes", der.len());
            }
            Err(e) => {
                ev!("  {e:?}");
                ensure!(!(self.calm() && healthy && mgm_ok && valid && der.len() < 3000), "valid certificate not written", "{e:?} ({} bytes)", der.len());
            }
        }
        c.end();
    }
    pub fn op_fetch(&mut self, c: &mut Ctx, i: usize) {
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        let subj = c.pick(2) == 1;
        c.begin(if subj { "fetch_subject" } else { "fetch_certificate" });
        self.start();
        self.arm(c);
        let healthy = pcsc().healthy(self.devs[i].h).is_some();
        let cert = slot_cert(card, slot);
        let good = cert.as_ref().map_or(false, |x| cert_key(x).is_some());
        ev!("fetch(token {card}, slot {slot:02x})");
        let yk = &mut self.devs[i].yk;
        let id = slot_id(slot);
        let e = if subj {
            match lib("fetch_subject", || yk.fetch_subject(&id)) {
                Ok(s) => {
                    if let Some(cn) = cert.as_ref().and_then(|x| cert_cn(x)) {
                        if cn.bytes().all(|b| b.is_ascii_alphanumeric()) && !cn.is_empty() {
                            ensure!(s == format!("CN={cn}"), "another subject is reported", "{s:?} for {cn:?}");
                        }
                    }
                    ensure!(cert.is_some(), "a subject is reported for an empty slot", "{s}");
                    None
                }
                Err(e) => Some(e),
            }
        } else {
            match lib("fetch_certificate", || yk.fetch_certificate(&id)) {
                Ok(d) => {
                    ensure!(cert.as_deref() == Some(&d[..]), "another certificate than the stored one is returned", "{} bytes", d.len());
                    None
                }
                Err(e) => Some(e),
            }
        };
        self.bounds("fetch", card, None, None, None, 0);
        if let Some(e) = e {
            ev!("  {e:?}");
            // strictly valid certificates of this world are always readable
            ensure!(!(self.calm() && healthy && good && consistent(card, slot).is_some()), "stored certificate is not returned", "{e:?}");
        }
        c.end();
    }
    pub fn op_attest(&mut self, c: &mut Ctx, i: usize) {
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        c.begin("fetch_attestation");
        self.start();
        self.arm(c);
        let healthy = pcsc().healthy(self.devs[i].h).is_some();
        let want = pcsc().cards[card].attestation(slot);
        ev!("fetch_attestation(token {card}, slot {slot:02x})");
        let yk = &mut self.devs[i].yk;
        let r = lib("fetch_attestation", || yk.fetch_attestation(&slot_id(slot)));
        self.bounds("fetch_attestation", card, None, None, None, 0);
        match r {
            Ok(d) => ensure!(Some(&d) == want.as_ref(), "another attestation is returned", "{} bytes", d.len()),
            Err(e) => ensure!(!(self.calm() && healthy && want.is_some()), "attestation is not returned", "{e:?}"),
        }
        c.end();
    }
    pub fn op_csr(&mut self, c: &mut Ctx, i: usize) {
        let card = self.devs[i].card;
        let slot = self.pick_slot(c, card);
        let cn = gen_cn(c);
        c.begin("generate_csr");
        self.start();
        self.arm(c);
        let k = &pcsc().cards[card];
        // a slot that presents the certificate of another key is not judged
        let own = consistent(card, slot).is_some();
        let can = pcsc().healthy(self.devs[i].h).is_some()
            && consistent(card, slot).map_or(false, |p| matches!(p, MPub::Ecdsa { .. }))
            && k.pin_policy(slot) == 1
            && (k.keys[&slot].touch < 2 || k.user);
        ev!("generate_csr(token {card}, slot {slot:02x}, {cn:?})");
        let yk = &mut self.devs[i].yk;
        let r = lib("generate_csr", || yk.generate_csr(&slot_id(slot), &cn));
        self.bounds("generate_csr", card, None, None, Some(slot), 0);
        if pcsc().lied {
            c.probe("damaged_signature_from_token");
            return c.end();
        }
        match r {
            Ok(der) => {
                c.stat("attack.csr_made");
                let Some((pk, _)) = self.signer(card, slot) else { violate("request without the device signing", hex(&der)) };
                let req = match openssl::x509::X509Req::from_der(&der) {
                    Ok(x) => x,
                    Err(e) => violate("request is unreadable", format!("{e} {}", hex(&der))),
                };
                let MPub::Ecdsa { bits, point, .. } = &pk else { violate("request for an RSA slot", String::new()) };
                if !own {
                    c.probe("request_for_slot_with_foreign_certificate");
                    return c.end();
                }
                let key = match req.public_key() {
                    Ok(k) => k,
                    Err(e) => violate("request is for another key", format!("its key is unreadable: {e}")),
                };
                let mut ctx = openssl::bn::BigNumContext::new().unwrap();
                let p = key.ec_key().ok().and_then(|e| e.public_key().to_bytes(e.group(), openssl::ec::PointConversionForm::UNCOMPRESSED, &mut ctx).ok());
                ensure!(p.as_ref() == Some(point), "request is for another key", "{bits}");
                ensure!(req.verify(&key).unwrap_or(false), "request does not verify", "slot {slot:02x}");
                let got = req.subject_name().entries_by_nid(openssl::nid::Nid::COMMONNAME).next().map(|e| e.data().as_slice().to_vec());
                ensure!(got.as_deref() == Some(cn.as_bytes()), "request carries another name", "{got:?} for {cn:?}");
                let back = lib("extract_ssh_pubkey_from_x509_csr", || sshcerts::x509::extract_ssh_pubkey_from_x509_csr(&der));
                ensure!(back.as_ref().map_or(false, |k| pub_matches(k, &pk)), "the request's key is read as another", "{:?}", back.map(|k| hex(&k.encode())).map_err(|e| e.to_string()));
            }
            Err(e) => {
                ev!("  {e:?}");
                ensure!(!(can && self.calm()), "request for a usable slot failed", "{e:?}");
            }
        }
        c.end();
    }
}
pub fn gen_cn(c: &mut Ctx) -> String {
    match c.pick(7) {
        0 => "ssh".into(),
        5 => [" padded ", "a  b", "\ttab", "x "][c.pick(4)].into(),
        1 => gen_token(c, 1, 30),
        2 => "ÅsaΩ-日本".into(),
        3 => gen_token(c, 60, 400),
        4 => "CN=a, O=b + \"x\"".into(),
        _ => gen_token(c, 1, 8),
    }
}
fn pki(p: &yubikey::certificate::PublicKeyInfo) -> Option<MPub> {
    use yubikey::certificate::PublicKeyInfo::*;
    Some(match p {
        EcP256(k) => MPub::Ecdsa { bits: 256, point: k.as_bytes().to_vec(), app: None },
        EcP384(k) => MPub::Ecdsa { bits: 384, point: k.as_bytes().to_vec(), app: None },
        Rsa { pubkey, .. } => {
            use rsa::PublicKeyParts;
            MPub::Rsa { e: pubkey.e().to_bytes_be(), n: pubkey.n().to_bytes_be() }
        }
    })
}
pub fn self_provision(c: &mut Ctx, card: usize, slot: u8) {
    let mut s = c.stream();
    let (k, alg) = match c.pick(5) {
        0 | 1 => (ecdsa(256, &mut s, 0), 0x11),
        2 | 3 => (ecdsa(384, &mut s, 0), 0x14),
        _ => (rsa([0, 2][c.pick(2)]), 0x07),
    };
    let (pin, touch) = (c.pick(4) as u8, [0u8, 1, 2, 3][c.pick(4)]);
    let cn = gen_token(c, 1, 12);
    pcsc().provision(card, slot, k, alg, pin, touch, &cn, &mut s);
}

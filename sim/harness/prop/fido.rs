//! Shared by C11 and C12: sets of security keys, users, transports and schedules.
use super::util::*;
use crate::core::*;
use crate::model::fido::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::ensure;
use crate::seam::{hid, sched};

pub fn gen_pin(c: &mut Ctx) -> String {
    match c.pick(4) {
        0 => "1234".into(),
        1 => gen_token(c, 4, 20),
        2 => " 12 34\t".into(),
        _ => "pässwörd".into(),
    }
}
/// A token of some make and age.
pub fn gen_token_dev(c: &mut Ctx) -> Token {
    let mut t = Token::new(c);
    match c.pick(8) {
        0 => {
            t.ctap2 = false;
            t.u2f = true;
            t.supports_pin = false;
        }
        1..=3 => {
            t.u2f = c.chance(1, 2);
        }
        _ => {
            t.v21 = true;
            t.u2f = c.chance(1, 2);
            t.puat = c.chance(1, 2);
            t.mc_uv_not_rqd = [None, Some(false), Some(true)][c.pick(3)];
            t.always_uv = c.chance(1, 5);
        }
    }
    if t.ctap2 {
        t.protos = [vec![1], vec![2], vec![1, 2], vec![2, 1]][if t.v21 { c.pick(4) } else { 0 }].clone();
        if c.chance(1, 2) {
            t.pin = Some(gen_pin(c));
            // somebody mistyped it before
            t.pin_retries = [8u8, 8, 8, 7, 2, 1, 0][c.pick(7)];
            t.consec = [0u8, 0, 0, 1, 2, 3][c.pick(6)];
        }
        if c.chance(1, 6) {
            t.supports_pin = t.pin.is_some();
        }
        if c.chance(1, 6) {
            t.uv = Some(c.chance(2, 3));
            t.uv_ok = c.chance(2, 3);
        }
        t.extra_flags = [0u8, 0, 0, 0x08, 0x18, 0x20][c.pick(6)];
    }
    t.info_extra = c.chance(1, 2);
    t.user_in_reply = c.chance(1, 4);
    t.cred_in_reply = c.chance(3, 4);
    t.ctr = [0u32, 1, 254, 0xffff, 0x00ff_ffff, u32::MAX - 1, u32::MAX][c.pick(7)];
    t.ctr_step = [1u32, 1, 0, 7][c.pick(4)];
    t.shape = [EcShape::Normal, EcShape::Normal, EcShape::HighRS, EcShape::ShortR, EcShape::ShortS, EcShape::TinyR][c.pick(6)];
    t
}
/// What came of asking this token for user verification with this PIN.
#[derive(Debug, PartialEq, Clone)]
pub enum Auth {
    Ok,
    PinRequired,
    Invalid(u8),
    Locked,
    Blocked,
    /// some other refusal (no PIN set on the device, fingerprint problems)
    Other,
}
pub fn auth_outcome(t: &Token, pin: Option<&str>) -> Auth {
    if t.uv == Some(true) {
        // with a fingerprint reader the host may use either; only the plain good case is predicted
        return if t.uv_ok && t.uv_retries > 0 && pin.is_none() { Auth::Ok } else { Auth::Other };
    }
    let Some(real) = &t.pin else { return Auth::Other };
    let Some(p) = pin else { return Auth::PinRequired };
    if t.pin_retries == 0 {
        return Auth::Blocked;
    }
    if t.consec >= 3 {
        return Auth::Locked;
    }
    if p == real {
        return Auth::Ok;
    }
    let left = t.pin_retries - 1;
    if left == 0 {
        Auth::Blocked
    } else if t.consec + 1 >= 3 {
        Auth::Locked
    } else {
        Auth::Invalid(left)
    }
}
pub fn gen_users(c: &mut Ctx) {
    let n = hid::w().devs.iter().filter(|d| d.fido).count();
    for d in hid::w().devs.iter_mut() {
        d.latency = [2u64, 5, 20][c.pick(3)] * hid::MS;
        d.user = hid::User { touches: true, delay: [300u64, 10, 1500, 0][c.pick(4)] * hid::MS };
        if n == 1 && d.fido && d.token.uv != Some(true) && c.chance(1, 6) {
            // the last moment before the operation's 15 s are over (a fingerprint takes a touch of its own)
            d.latency = 2 * hid::MS;
            d.user.delay = [14_000u64, 14_500][c.pick(2)] * hid::MS;
        }
        d.manufacturer = if c.chance(1, 6) { None } else { Some("Sim".into()) };
    }
}
/// Devices that are not security keys, or cannot be opened.
pub fn gen_bystanders(c: &mut Ctx) {
    for _ in 0..[0u64, 0, 1, 2][c.pick(4)] {
        let i = hid::add(Token::new(c), false);
        if c.chance(1, 3) {
            hid::w().devs[i].desc = None;
        } else if c.chance(1, 4) {
            hid::w().devs[i].open_err = Some(libc::EACCES);
        }
    }
}
pub fn gen_call_faults(c: &mut Ctx) {
    let wd = hid::w();
    wd.faults = 0;
    for d in wd.devs.iter_mut() {
        d.read_err = false;
        d.write_err = false;
    }
    wd.rate = 6;
    wd.udev_fail = None;
    wd.udev_calls = 0;
    wd.poll_fail = None;
    wd.polls = 0;
    let sc = sched::s();
    sc.fail_spawn_at = None;
    sc.spawns = 0;
    sc.spawn_failed = false;
    wd.disturbed = false;
    wd.tainted = false;
    match c.pick(8) {
        0 | 1 => {}
        2 | 3 => {
            wd.faults = c.range(1, 2);
            wd.rate = [4u64, 8, 16][c.pick(3)];
        }
        4 => {
            wd.faults = 8;
            wd.rate = 3;
        }
        5 => match c.pick(3) {
            0 => wd.udev_fail = Some(c.draw(14)),
            1 => wd.poll_fail = Some(c.draw(60)),
            _ => sc.fail_spawn_at = Some(c.draw(6)),
        },
        _ => {
            // plug events in the middle of things
            for _ in 0..c.range(1, 3) {
                if hid::w().devs.is_empty() {
                    break;
                }
                let d = c.pick(hid::w().devs.len());
                let t = c.now_ns + [0u64, 2, 30, 300, 1500, 16000][c.pick(6)] * hid::MS + c.draw(2000) * 1000;
                hid::w().disturbed = true;
                if c.chance(1, 2) {
                    hid::plan_unplug(t, d);
                    if c.chance(1, 2) {
                        hid::plan_plug(t + c.range(1, 4000) * hid::MS, d);
                    }
                } else {
                    hid::plan_plug(t, d);
                }
            }
        }
    }
}
/// After a call: nothing of it is left behind.
pub fn settle(c: &mut Ctx, what: &str) {
    let t0 = c.now_ns;
    sched::s().time_limit = t0 + 30 * hid::SEC;
    let mut n = 0;
    while !sched::alive_others().is_empty() {
        sched::block(sched::St::Sleep, Some(cx().now_ns + 10 * hid::MS));
        n += 1;
        if n == 300 && (hid::w().poll_fail.is_some() || hid::w().udev_fail.is_some()) {
            // the authenticator crate does not wait for its device threads when the monitor fails
            sched::abandon("monitor_failed");
        }
        ensure!(n < 300, "threads left behind", "{what} returned but three seconds later threads of it are still there: {}", sched::alive_others().join(", "));
    }
    ensure!(hid::open_count() == 0, "device left open", "{what} returned and left {} device nodes open", hid::open_count());
    ensure!(hid::mon_count() == 0, "monitor left open", "{what} returned and left a udev monitor open");
    hid::forget_events();
    sched::s().time_limit = u64::MAX;
}
pub fn der_ints(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    use crate::model::x509::head;
    if *b.first()? != 0x30 {
        return None;
    }
    let (h, l) = head(b)?;
    let b = b.get(h..h + l)?;
    let mut out = vec![];
    let mut p = 0;
    for _ in 0..2 {
        let x = b.get(p..)?;
        if *x.first()? != 2 {
            return None;
        }
        let (h, l) = head(x)?;
        out.push(x.get(h..h + l)?.to_vec());
        p += h + l;
    }
    let s = out.pop()?;
    Some((out.pop()?, s))
}
/// The SSH encoding of what a device returned.
pub fn encode(pk: &MPub, a: &Asserted) -> Option<Vec<u8>> {
    let body = match pk {
        MPub::Ed25519 { .. } => a.sig.clone(),
        _ => {
            let (r, s) = der_ints(&a.sig)?;
            W::default().str(mpint(&strip(&r))).str(mpint(&strip(&s))).0
        }
    };
    let mut o = W::default().str(pk.name()).str(body).0;
    o.push(a.flags);
    o.extend(a.ctr.to_be_bytes());
    Some(o)
}

/// Whether some device holds another key under this handle and application (handles are random, short ones collide):
/// then its signature is genuine but not the one of this key.
pub fn ambiguous(handle: &[u8], app: &str, pk: &MPub) -> bool {
    let rp = sha256(app.as_bytes());
    hid::w().devs.iter().flat_map(|d| d.token.creds.iter()).any(|x| x.handle == handle && x.rp == rp && x.key.pk.with_app(app).blob() != pk.blob())
}

/// A user who waits until the last moment is only in time on a machine that did not stall meanwhile
/// (`budget`: the scheduler's stall budget before the call).
pub fn too_late(budget: u64) -> bool {
    let spent = budget - sched::s().slow_budget_ns;
    hid::w().devs.iter().any(|d| d.fido && d.user.delay + spent > 14_700 * hid::MS)
}

//! The USB world: udev, hidraw nodes, CTAPHID framing, devices, the user's finger, and time.
//! libudev, open/read/write/ioctl/poll on hidraw nodes end here; the devices' logic is model::fido.
use super::sched::{self, np, St};
use super::sys::set_errno;
use crate::core::cx;
use crate::model::fido::*;
use libc::{c_char, c_int, c_ulong, c_void};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{CStr, CString};

pub const RAW: c_int = 0x3000_0000;
pub const MON: c_int = 0x3800_0000;
const END: c_int = 0x3900_0000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000 * MS;

pub fn is_hid(fd: c_int) -> bool {
    (RAW..END).contains(&fd)
}

#[derive(Clone, Debug, Default)]
pub struct User {
    pub touches: bool,
    pub delay: u64,
}
struct Wait {
    cid: [u8; 4],
    op: Op,
    id: u64,
}
struct Asm {
    cid: [u8; 4],
    cmd: u8,
    len: usize,
    data: Vec<u8>,
    seq: u8,
}
pub struct Dev {
    pub name: String,
    pub node: usize,
    pub fido: bool,
    /// None: report descriptor cannot be read
    pub desc: Option<Vec<u8>>,
    pub rpt: usize,
    pub present: bool,
    pub gen: u64,
    pub token: Token,
    pub user: User,
    pub cbor_cap: bool,
    pub u2f_cap: bool,
    pub latency: u64,
    pub next_cid: u32,
    cids: Vec<[u8; 4]>,
    wait: Option<Wait>,
    asm: Option<Asm>,
    u2f_asked: Option<u64>,
    /// the reply being prepared: no other command is accepted before it is out
    busy_until: u64,
    pub requests: u64,
    pub lost: bool,
    pub open_err: Option<c_int>,
    pub write_err: bool,
    pub read_err: bool,
    /// the user touched it (any operation) in the current call
    pub touched: u64,
    pub manufacturer: Option<String>,
}
struct Open {
    fd: c_int,
    dev: usize,
    gen: u64,
    q: VecDeque<Vec<u8>>,
    nonblock: bool,
}
struct Mon {
    fd: c_int,
    on: bool,
    q: VecDeque<(&'static str, usize)>,
}
enum Ev {
    Deliver(usize, u64, Vec<Vec<u8>>),
    Keepalive(usize, u64, u64),
    Touch(usize, u64, u64),
    GiveUp(usize, u64, u64),
    Unplug(usize),
    Plug(usize),
}
#[derive(Default)]
pub struct World {
    pub on: bool,
    pub devs: Vec<Dev>,
    opens: Vec<Open>,
    mons: Vec<Mon>,
    evs: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    next_fd: c_int,
    next_node: usize,
    /// faults may still be injected
    pub faults: u64,
    /// one in this many requests is hit
    pub rate: u64,
    pub call: u64,
    /// replies were altered in this call, so that what the host sees is not what the device made
    pub tainted: bool,
    /// something happened in this call that excuses a failure
    pub disturbed: bool,
    pub udev_fail: Option<u64>,
    pub udev_calls: u64,
    pub poll_fail: Option<u64>,
    pub polls: u64,
    pub max_open: usize,
    pub bad_frame: Option<String>,
    /// only faults the host's library can tell from a reply: refusals, errors, delays, unplugging
    pub clean: bool,
}
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { WORLD.get_or_insert_with(Default::default) }
}
pub fn fido_desc(rpt: usize) -> Vec<u8> {
    let n = rpt as u8;
    vec![0x06, 0xd0, 0xf1, 0x09, 0x01, 0xa1, 0x01, 0x09, 0x20, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08, 0x95, n, 0x81, 0x02, 0x09, 0x21, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08, 0x95, n, 0x91, 0x02, 0xc0]
}
pub fn mouse_desc() -> Vec<u8> {
    vec![0x05, 0x01, 0x09, 0x02, 0xa1, 0x01, 0x09, 0x01, 0xa1, 0x00, 0x05, 0x09, 0x19, 0x01, 0x29, 0x03, 0x15, 0x00, 0x25, 0x01, 0x95, 0x03, 0x75, 0x01, 0x81, 0x02, 0xc0, 0xc0]
}
pub fn add(token: Token, fido: bool) -> usize {
    let wd = w();
    wd.on = true;
    let node = wd.next_node;
    wd.next_node += 1;
    wd.devs.push(Dev {
        name: format!("key {}", wd.devs.len()),
        node,
        fido,
        desc: Some(if fido { fido_desc(64) } else { mouse_desc() }),
        rpt: 64,
        present: true,
        gen: 1,
        cbor_cap: token.ctap2,
        u2f_cap: token.u2f,
        token,
        user: User { touches: true, delay: 500 * MS },
        latency: 3 * MS,
        next_cid: 0x0102_0304,
        cids: vec![],
        wait: None,
        asm: None,
        u2f_asked: None,
        busy_until: 0,
        requests: 0,
        lost: false,
        open_err: None,
        write_err: false,
        read_err: false,
        touched: 0,
        manufacturer: Some("Sim".into()),
    });
    wd.devs.len() - 1
}
fn at(t: u64, e: Ev) {
    let wd = w();
    wd.seq += 1;
    let s = wd.seq;
    wd.evs.insert((t, s), e);
}
pub fn plan_unplug(t: u64, d: usize) {
    at(t, Ev::Unplug(d));
}
pub fn plan_plug(t: u64, d: usize) {
    at(t, Ev::Plug(d));
}
pub fn forget_events() {
    w().evs.clear();
    for d in 0..w().devs.len() {
        let dv = &mut w().devs[d];
        dv.wait = None;
        dv.asm = None;
        dv.busy_until = 0;
        if dv.lost {
            unplug(d); // a device that stopped answering is pulled out in the end
        }
    }
}
pub fn open_count() -> usize {
    w().opens.len()
}
pub fn mon_count() -> usize {
    w().mons.len()
}
fn log(s: String) {
    let c = cx();
    let t = c.now_ns / 1000;
    c.ev(format!("  [t={t}us] {s}"));
}
pub fn next_event() -> Option<u64> {
    w().evs.keys().next().map(|k| k.0)
}
pub fn run_due(now: u64) {
    loop {
        let Some((&k, _)) = w().evs.iter().next() else { return };
        if k.0 > now {
            return;
        }
        let e = w().evs.remove(&k).unwrap();
        run(e);
    }
}
fn run(e: Ev) {
    let wd = w();
    match e {
        Ev::Deliver(d, g, frames) => {
            if wd.devs[d].present && wd.devs[d].gen == g {
                push(d, frames);
            }
        }
        Ev::Keepalive(d, g, id) => {
            let dv = &mut wd.devs[d];
            if dv.present && dv.gen == g && dv.wait.as_ref().map_or(false, |x| x.id == id) {
                let cid = dv.wait.as_ref().unwrap().cid;
                push(d, frames(dv_rpt(d), cid, 0x3b, &[2]));
                at(cx().now_ns + 100 * MS, Ev::Keepalive(d, g, id));
            }
        }
        Ev::Touch(d, g, id) => {
            let call = wd.call;
            let dv = &mut wd.devs[d];
            if dv.present && dv.gen == g && dv.wait.as_ref().map_or(false, |x| x.id == id) {
                let wt = dv.wait.take().unwrap();
                dv.touched += 1;
                let (st, body) = dv.token.touched(&wt.op, call);
                log(format!("{}: touched, {} -> status {st:#04x}", dv.name, opname(&wt.op)));
                reply(d, wt.cid, 0x10, st, body);
            }
        }
        Ev::GiveUp(d, g, id) => {
            let dv = &mut wd.devs[d];
            if dv.present && dv.gen == g && dv.wait.as_ref().map_or(false, |x| x.id == id) {
                let wt = dv.wait.take().unwrap();
                log(format!("{}: gave up waiting for a touch", dv.name));
                reply(d, wt.cid, 0x10, 0x2f, vec![]);
            }
        }
        Ev::Unplug(d) => unplug(d),
        Ev::Plug(d) => plug(d),
    }
}
pub fn unplug(d: usize) {
    let wd = w();
    let dv = &mut wd.devs[d];
    if !dv.present {
        return;
    }
    cx().fault("unplug");
    dv.present = false;
    dv.wait = None;
    dv.asm = None;
    dv.cids.clear();
    wd.disturbed = true;
    for o in wd.opens.iter() {
        if o.dev == d {
            sched::wake_io(o.fd as u64);
        }
    }
    notify("remove", d);
}
pub fn plug(d: usize) {
    let wd = w();
    let node = wd.next_node;
    let dv = &mut wd.devs[d];
    if dv.present {
        return;
    }
    cx().fault("plug");
    dv.present = true;
    dv.gen += 1;
    dv.lost = false;
    dv.write_err = false;
    dv.read_err = false;
    dv.busy_until = 0;
    dv.u2f_asked = None;
    dv.token.power_cycle();
    if cx().chance(1, 2) {
        dv.node = node;
        wd.next_node += 1;
    }
    notify("add", d);
}
fn notify(a: &'static str, d: usize) {
    for m in w().mons.iter_mut() {
        if m.on {
            m.q.push_back((a, d));
            sched::wake_io(m.fd as u64);
        }
    }
}
fn dv_rpt(d: usize) -> usize {
    w().devs[d].rpt
}
fn push(d: usize, frames: Vec<Vec<u8>>) {
    let wd = w();
    let g = wd.devs[d].gen;
    for o in wd.opens.iter_mut() {
        if o.dev == d && o.gen == g {
            for f in &frames {
                o.q.push_back(f.clone());
            }
            sched::wake_io(o.fd as u64);
        }
    }
}
/// CTAPHID frames of one message.
pub fn frames(rpt: usize, cid: [u8; 4], cmd: u8, data: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut f = cid.to_vec();
    f.push(cmd | 0x80);
    f.extend((data.len() as u16).to_be_bytes());
    let n = data.len().min(rpt - 7);
    f.extend_from_slice(&data[..n]);
    f.resize(rpt, 0);
    out.push(f);
    for (i, c) in data[n..].chunks(rpt - 5).enumerate() {
        let mut f = cid.to_vec();
        f.push(i as u8);
        f.extend_from_slice(c);
        f.resize(rpt, 0);
        out.push(f);
    }
    out
}
fn opname(o: &Op) -> &'static str {
    match o {
        Op::Make(..) => "makeCredential",
        Op::Get(..) => "getAssertion",
        Op::Select => "selection",
        Op::Blink(_) => "blink",
        Op::Uv(_) => "fingerprint",
    }
}
fn req_name(cmd: u8, p: &[u8]) -> String {
    match (cmd, p.first()) {
        (0x06, _) => "INIT".into(),
        (0x11, _) => "CANCEL".into(),
        (0x01, _) => "PING".into(),
        (0x03, _) => format!("U2F ins {:#04x} p1 {:#04x}", p.get(1).unwrap_or(&0), p.get(2).unwrap_or(&0)),
        (0x10, Some(1)) => "makeCredential".into(),
        (0x10, Some(2)) => "getAssertion".into(),
        (0x10, Some(4)) => "getInfo".into(),
        (0x10, Some(6)) => format!("clientPIN, subcommand {}", crate::model::fido::sub_of(&p[1..])),
        (0x10, Some(8)) => "getNextAssertion".into(),
        (0x10, Some(0x0b)) => "selection".into(),
        (c, _) => format!("command {c:#04x}"),
    }
}
/// A CTAP reply (status and body) or, for other commands, the bare body.
fn reply(d: usize, cid: [u8; 4], cmd: u8, status: u8, body: Vec<u8>) {
    let data = if cmd == 0x10 { [vec![status], body].concat() } else { body };
    send(d, cid, cmd, data);
}
const STATUSES: [u8; 24] = [0x01, 0x02, 0x03, 0x05, 0x06, 0x0b, 0x11, 0x12, 0x14, 0x22, 0x25, 0x26, 0x27, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x33, 0x35, 0x36, 0x3a, 0x7f, 0xf2];
fn send(d: usize, cid: [u8; 4], mut cmd: u8, mut data: Vec<u8>) {
    let wd = w();
    let c = cx();
    let now = c.now_ns;
    let rpt = wd.devs[d].rpt;
    let gen = wd.devs[d].gen;
    let lat = wd.devs[d].latency;
    let mut delay = lat / 2 + c.draw(lat / 1000 + 1) * 1000;
    let mut before: Vec<Vec<u8>> = vec![];
    if wd.faults > 0 && c.chance(1, wd.rate) {
        wd.faults -= 1;
        let kind = if wd.clean { [0u64, 2, 3, 7, 8, 9, 10, 11][c.pick(8)] } else { c.draw(14) };
        match kind {
            2 | 7 if wd.clean && cmd != 0x10 => {}
            0 => {
                delay += c.range(100, 4000) * MS;
                wd.disturbed = true;
                c.fault("slow_reply");
            }
            1 => {
                let other = [9, 9, 9, c.draw(4) as u8];
                let n = c.range(1, 200) as usize;
                let mut p = c.stream();
                before = frames(rpt, other, 0x10, &p.bytes(n));
                c.fault("foreign_channel_traffic");
            }
            2 => {
                for _ in 0..c.range(1, 5) {
                    before.extend(frames(rpt, cid, 0x3b, &[1]));
                }
                c.fault("keepalives");
            }
            3 if cmd == 0x10 => {
                data = vec![STATUSES[c.pick(STATUSES.len())]];
                wd.disturbed = true;
                c.fault("ctap_error");
            }
            4 if cmd == 0x10 && data.len() > 1 => {
                let n = c.draw(data.len() as u64) as usize;
                data.truncate(n);
                wd.disturbed = true;
                c.fault("truncated_reply");
            }
            5 if cmd != 0x06 && data.len() > 1 => {
                for _ in 0..c.range(1, 3) {
                    let i = c.range(1, data.len() as u64 - 1) as usize;
                    data[i] ^= 1 << c.draw(8);
                }
                wd.disturbed = true;
                wd.tainted = true;
                c.fault("corrupt_reply");
            }
            6 => {
                cmd = [0x3f, 0x03, 0x10, 0x01, 0x3e, 0x06][c.pick(6)];
                wd.disturbed = true;
                wd.tainted = true;
                c.fault("wrong_hid_command");
            }
            7 => {
                cmd = 0x3f;
                data = vec![[1u8, 2, 3, 4, 5, 6, 0x0b, 0x7f][c.pick(8)]];
                wd.disturbed = true;
                c.fault("hid_error");
            }
            8 => {
                let t = now + c.draw(300) * MS;
                at(t, Ev::Unplug(d));
                if c.chance(1, 2) {
                    let t2 = t + c.range(50, 3000) * MS;
                    at(t2, Ev::Plug(d));
                }
                wd.disturbed = true;
            }
            9 => {
                wd.disturbed = true;
                wd.devs[d].lost = true;
                c.fault("lost_reply");
                at(now + c.range(10, 4000) * MS, Ev::Unplug(d));
                return;
            }
            10 => {
                wd.disturbed = true;
                wd.devs[d].write_err = true;
            }
            11 => {
                wd.disturbed = true;
                wd.devs[d].read_err = true;
                for o in wd.opens.iter() {
                    if o.dev == d {
                        sched::wake_io(o.fd as u64);
                    }
                }
            }
            12 if cmd == 0x10 => {
                let n = c.range(1, 40) as usize;
                let mut p = c.stream();
                data = [vec![0], p.bytes(n)].concat();
                wd.disturbed = true;
                wd.tainted = true;
                c.fault("garbage_reply");
            }
            13 if cmd == 0x10 => {
                data = vec![];
                wd.disturbed = true;
                c.fault("empty_reply");
            }
            _ => {}
        }
    }
    let mut fs = before;
    fs.extend(frames(rpt, cid, cmd, &data));
    wd.devs[d].busy_until = now + delay;
    if let Some(a) = wd.devs[d].token.asserted.last_mut() {
        a.delivered = true;
    }
    at(now + delay, Ev::Deliver(d, gen, fs));
}
fn message(d: usize, cid: [u8; 4], cmd: u8, p: Vec<u8>) {
    let wd = w();
    let c = cx();
    let call = wd.call;
    let dv = &mut wd.devs[d];
    dv.requests += 1;
    if cmd != 0x11 || dv.wait.is_some() {
        log(format!("{}: {}", dv.name, req_name(cmd, &p)));
    }
    c.shape_add(&req_name(cmd, &p));
    if dv.lost {
        return;
    }
    if cmd == 0x11 {
        if dv.wait.as_ref().map_or(false, |x| x.cid == cid) {
            dv.wait = None;
            reply(d, cid, 0x10, 0x2d, vec![]);
        }
        return;
    }
    if cmd == 0x06 {
        if dv.wait.as_ref().map_or(false, |x| x.cid == cid) {
            dv.wait = None;
        }
        let new = if cid == [0xff; 4] {
            let n = dv.next_cid;
            dv.next_cid = n.wrapping_add(1);
            n.to_be_bytes()
        } else {
            cid
        };
        dv.cids.push(new);
        let mut r = p.clone();
        r.truncate(8);
        r.extend(new);
        let caps = 1 | if dv.cbor_cap { 4 } else { 0 } | if dv.u2f_cap { 0 } else { 8 };
        r.extend([2, 5, 4, 3, caps]);
        send(d, cid, 0x06, r);
        return;
    }
    if !dv.cids.contains(&cid) {
        send(d, cid, 0x3f, vec![0x0b]);
        return;
    }
    if dv.wait.as_ref().map_or(false, |x| x.cid != cid) {
        send(d, cid, 0x3f, vec![0x06]);
        return;
    }
    dv.wait = None;
    match cmd {
        0x01 => send(d, cid, 0x01, p),
        0x03 if dv.u2f_cap => {
            let now = c.now_ns;
            let touched = dv.user.touches && dv.u2f_asked.map_or(false, |t| now >= t + dv.user.delay);
            let (mut r, sw) = dv.token.apdu(&p, touched, call);
            if sw == 0x6985 && p.get(2) == Some(&3) || (sw == 0x6985 && p.get(1) == Some(&1)) {
                if dv.u2f_asked.is_none() {
                    dv.u2f_asked = Some(now);
                }
            } else if sw == 0x9000 && touched && matches!(p.get(1), Some(1) | Some(2)) {
                dv.u2f_asked = None;
                dv.touched += 1;
                log(format!("{}: touched, U2F", dv.name));
            }
            r.extend(sw.to_be_bytes());
            send(d, cid, 0x03, r);
        }
        0x10 if dv.cbor_cap => match dv.token.cbor(&p) {
            Act::Reply(st, body) => reply(d, cid, 0x10, st, body),
            Act::Touch(op) => {
                wd.seq += 1;
                let id = wd.seq;
                let g = dv.gen;
                let now = c.now_ns;
                dv.wait = Some(Wait { cid, op, id });
                at(now + 20 * MS, Ev::Keepalive(d, g, id));
                if dv.user.touches {
                    at(now + dv.user.delay, Ev::Touch(d, g, id));
                }
                at(now + 30 * SEC, Ev::GiveUp(d, g, id));
                if wd.faults > 0 && c.chance(1, wd.rate * 2) {
                    wd.faults -= 1;
                    wd.disturbed = true;
                    let t = now + c.draw(3000) * MS;
                    at(t, Ev::Unplug(d));
                    if c.chance(1, 2) {
                        at(t + c.range(50, 3000) * MS, Ev::Plug(d));
                    }
                }
            }
        },
        _ => send(d, cid, 0x3f, vec![0x01]),
    }
}
fn frame_in(d: usize, f: &[u8]) {
    let wd = w();
    let dv = &mut wd.devs[d];
    let rpt = dv.rpt;
    if f.len() != rpt + 1 || f[0] != 0 {
        wd.bad_frame = Some(format!("output report of {} bytes, report id {:?}", f.len(), f.first()));
        return;
    }
    let f = &f[1..];
    let cid: [u8; 4] = f[..4].try_into().unwrap();
    if f[4] & 0x80 != 0 {
        let len = (f[5] as usize) << 8 | f[6] as usize;
        let n = len.min(rpt - 7);
        let a = Asm { cid, cmd: f[4] & 0x7f, len, data: f[7..7 + n].to_vec(), seq: 0 };
        dv.asm = Some(a);
    } else {
        let Some(a) = dv.asm.as_mut() else { return };
        if a.cid != cid || a.seq != f[4] {
            dv.asm = None;
            send(d, cid, 0x3f, vec![0x04]);
            return;
        }
        a.seq += 1;
        let n = (a.len - a.data.len()).min(rpt - 5);
        a.data.extend_from_slice(&f[5..5 + n]);
    }
    if dv.asm.as_ref().map_or(false, |a| a.data.len() >= a.len) {
        let a = dv.asm.take().unwrap();
        message(d, a.cid, a.cmd, a.data);
    }
}

// ---------------------------------------------------------------- files
fn open_sysfs(path: &[u8]) -> Option<Result<c_int, c_int>> {
    let p = String::from_utf8_lossy(path).to_string();
    let wd = w();
    let Some(d) = wd.devs.iter().position(|x| x.present && p == format!("/sys/class/hidraw/hidraw{}/device/report_descriptor", x.node)) else {
        return Some(Err(libc::ENOENT));
    };
    let Some(desc) = wd.devs[d].desc.clone() else { return Some(Err(libc::EIO)) };
    wd.next_fd += 1;
    let fd = RAW + wd.next_fd;
    let gen = wd.devs[d].gen;
    wd.opens.push(Open { fd, dev: d, gen, q: VecDeque::from([desc]), nonblock: true });
    Some(Ok(fd))
}
pub fn open(path: &[u8], flags: c_int) -> Option<Result<c_int, c_int>> {
    if w().on && path.starts_with(b"/sys/class/hidraw/") {
        let _g = np();
        return open_sysfs(path);
    }
    if !w().on || !path.starts_with(b"/dev/hidraw") {
        return None;
    }
    let _g = np();
    let p = String::from_utf8_lossy(path).to_string();
    let wd = w();
    let Some(d) = wd.devs.iter().position(|x| x.present && p == format!("/dev/hidraw{}", x.node)) else {
        return Some(Err(libc::ENOENT));
    };
    if let Some(e) = wd.devs[d].open_err {
        wd.disturbed = true;
        cx().fault("open_refused");
        return Some(Err(e));
    }
    wd.next_fd += 1;
    let fd = RAW + wd.next_fd;
    let gen = wd.devs[d].gen;
    wd.opens.push(Open { fd, dev: d, gen, q: VecDeque::new(), nonblock: flags & libc::O_NONBLOCK != 0 });
    wd.max_open = wd.max_open.max(wd.opens.len());
    Some(Ok(fd))
}
fn gone(o: &Open) -> bool {
    let d = &w().devs[o.dev];
    !d.present || d.gen != o.gen
}
pub fn read(fd: c_int, buf: &mut [u8]) -> Result<usize, c_int> {
    let _g = np();
    loop {
        let wd = w();
        let Some(i) = wd.opens.iter().position(|o| o.fd == fd) else { return Err(libc::EBADF) };
        let d = wd.opens[i].dev;
        if wd.devs[d].read_err {
            wd.devs[d].read_err = false;
            cx().fault("read_error");
            return Err(libc::EIO);
        }
        if let Some(f) = wd.opens[i].q.pop_front() {
            let n = f.len().min(buf.len());
            buf[..n].copy_from_slice(&f[..n]);
            sched::point();
            return Ok(n);
        }
        if gone(&wd.opens[i]) {
            return Err(libc::EIO);
        }
        if wd.opens[i].nonblock {
            return Err(libc::EAGAIN);
        }
        sched::block(St::Io(fd as u64), None);
    }
}
pub fn write(fd: c_int, buf: &[u8]) -> Result<usize, c_int> {
    let _g = np();
    let wd = w();
    let Some(i) = wd.opens.iter().position(|o| o.fd == fd) else { return Err(libc::EBADF) };
    let d = wd.opens[i].dev;
    if gone(&wd.opens[i]) {
        return Err(libc::ENODEV);
    }
    if wd.devs[d].write_err {
        wd.devs[d].write_err = false;
        cx().fault("write_error");
        return Err(libc::EIO);
    }
    if wd.devs[d].fido {
        frame_in(d, buf);
    }
    sched::point();
    Ok(buf.len())
}
pub fn close(fd: c_int) -> Result<(), c_int> {
    let _g = np();
    let wd = w();
    let n = wd.opens.len();
    wd.opens.retain(|o| o.fd != fd);
    wd.mons.retain(|o| o.fd != fd);
    if wd.opens.len() == n && fd < MON {
        return Err(libc::EBADF);
    }
    Ok(())
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    if !is_hid(fd) {
        return super::sys::ret(super::sys::raw(libc::SYS_ioctl, [fd as i64, req as i64, arg as i64, 0, 0, 0])) as c_int;
    }
    let _g = np();
    let wd = w();
    let Some(o) = wd.opens.iter().find(|o| o.fd == fd) else {
        set_errno(libc::EBADF);
        return -1;
    };
    if gone(o) {
        set_errno(libc::ENODEV);
        return -1;
    }
    let Some(desc) = wd.devs[o.dev].desc.clone() else {
        set_errno(libc::EIO);
        return -1;
    };
    match req {
        2147764225 => {
            *(arg as *mut c_int) = desc.len() as c_int;
            0
        }
        2416199682 => {
            let n = (*(arg as *mut c_int)).clamp(0, desc.len() as c_int) as usize;
            std::ptr::copy_nonoverlapping(desc.as_ptr(), (arg as *mut u8).add(4), n);
            0
        }
        _ => {
            set_errno(libc::EINVAL);
            -1
        }
    }
}
fn ready(fd: c_int) -> bool {
    let wd = w();
    if fd >= MON {
        return wd.mons.iter().any(|m| m.fd == fd && !m.q.is_empty());
    }
    wd.opens.iter().any(|o| o.fd == fd && (!o.q.is_empty() || gone(o) || wd.devs[o.dev].read_err))
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let v = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(fds, n as usize) };
    if !v.iter().any(|f| is_hid(f.fd)) {
        return super::sys::ret(super::sys::raw(libc::SYS_poll, [fds as i64, n as i64, timeout as i64, 0, 0, 0])) as c_int;
    }
    let _g = np();
    let wd = w();
    let i = wd.polls;
    wd.polls += 1;
    if wd.poll_fail == Some(i) {
        wd.disturbed = true;
        cx().fault("poll_error");
        set_errno(libc::ENOMEM);
        return -1;
    }
    let deadline = if timeout < 0 { None } else { Some(cx().now_ns + timeout as u64 * MS) };
    loop {
        let mut k = 0;
        for f in v.iter_mut() {
            f.revents = 0;
            if ready(f.fd) {
                f.revents = libc::POLLIN;
                let gone = w().opens.iter().any(|o| o.fd == f.fd && gone(o) && o.q.is_empty());
                if gone {
                    f.revents = libc::POLLERR | libc::POLLHUP;
                }
                k += 1;
            }
        }
        if k > 0 {
            sched::point();
            return k;
        }
        if deadline.map_or(false, |d| cx().now_ns >= d) {
            return 0;
        }
        sched::block(St::Io(v[0].fd as u64), deadline);
    }
}

// ---------------------------------------------------------------- libudev
struct UDev {
    dev: usize,
    action: Option<CString>,
    devnode: CString,
    syspath: CString,
    sysname: CString,
    attrs: Vec<(String, CString)>,
    parent: *mut UDev,
}
struct Entry {
    name: CString,
    next: *mut Entry,
}
struct Enum {
    list: *mut Entry,
}
struct UMon {
    fd: c_int,
}
fn udev_fault() -> bool {
    let wd = w();
    let i = wd.udev_calls;
    wd.udev_calls += 1;
    if wd.udev_fail == Some(i) {
        wd.disturbed = true;
        cx().fault("udev_error");
        return true;
    }
    false
}
const ONE: *mut c_void = 8 as *mut c_void;
#[no_mangle]
pub unsafe extern "C" fn udev_new() -> *mut c_void {
    let _g = np();
    if !w().on || udev_fault() {
        set_errno(libc::ENOMEM);
        return std::ptr::null_mut();
    }
    ONE
}
#[no_mangle]
pub unsafe extern "C" fn udev_ref(u: *mut c_void) -> *mut c_void {
    u
}
#[no_mangle]
pub unsafe extern "C" fn udev_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_new(_: *mut c_void) -> *mut c_void {
    let _g = np();
    if udev_fault() {
        set_errno(libc::ENOMEM);
        return std::ptr::null_mut();
    }
    Box::into_raw(Box::new(Enum { list: std::ptr::null_mut() })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_add_match_subsystem(_: *mut c_void, _: *const c_char) -> c_int {
    let _g = np();
    if udev_fault() {
        return -libc::ENOMEM;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_scan_devices(e: *mut c_void) -> c_int {
    let _g = np();
    if udev_fault() {
        return -libc::EIO;
    }
    let mut head: *mut Entry = std::ptr::null_mut();
    for d in w().devs.iter().rev() {
        if d.present {
            head = Box::into_raw(Box::new(Entry { name: CString::new(format!("/sys/class/hidraw/hidraw{}", d.node)).unwrap(), next: head }));
        }
    }
    (*(e as *mut Enum)).list = head;
    sched::point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_get_list_entry(e: *mut c_void) -> *mut c_void {
    (*(e as *mut Enum)).list as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut() // leaked: the run's process is short-lived
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_next(e: *mut c_void) -> *mut c_void {
    (*(e as *mut Entry)).next as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_name(e: *mut c_void) -> *const c_char {
    (*(e as *mut Entry)).name.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_value(_: *mut c_void) -> *const c_char {
    std::ptr::null()
}
fn mkdev(d: usize, action: Option<&str>) -> *mut c_void {
    let dv = &w().devs[d];
    let s = |x: String| CString::new(x).unwrap();
    let mut attrs = vec![];
    if let Some(m) = &dv.manufacturer {
        attrs.push(("Manufacturer".to_string(), s(m.clone())));
        attrs.push(("manufacturer".to_string(), s(m.clone())));
        attrs.push(("Product".to_string(), s("Token".into())));
        attrs.push(("product".to_string(), s("Token".into())));
        attrs.push(("bcdDevice".to_string(), s("0543".into())));
        attrs.push(("bInterfaceNumber".to_string(), s("01".into())));
    }
    attrs.push(("uevent".to_string(), s(format!("DRIVER=hid-generic\nHID_ID=0003:00001050:00000407\nHID_NAME=Sim Token\nHID_PHYS=usb-0000:00:14.0-{}/input0\nHID_UNIQ=\n", d + 1))));
    Box::into_raw(Box::new(UDev {
        dev: d,
        action: action.map(|a| s(a.into())),
        devnode: s(format!("/dev/hidraw{}", dv.node)),
        syspath: s(format!("/sys/class/hidraw/hidraw{}", dv.node)),
        sysname: s(format!("hidraw{}", dv.node)),
        attrs,
        parent: std::ptr::null_mut(),
    })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_new_from_syspath(_: *mut c_void, p: *const c_char) -> *mut c_void {
    let _g = np();
    let p = CStr::from_ptr(p).to_string_lossy().to_string();
    match w().devs.iter().position(|x| x.present && p == format!("/sys/class/hidraw/hidraw{}", x.node)) {
        Some(d) if !udev_fault() => mkdev(d, None),
        _ => {
            set_errno(libc::ENODEV);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_new_from_devnum(_: *mut c_void, _: c_char, n: libc::dev_t) -> *mut c_void {
    let _g = np();
    match w().devs.iter().position(|x| x.present && x.node as u64 == n & 0xff) {
        Some(d) => mkdev(d, None),
        _ => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_ref(d: *mut c_void) -> *mut c_void {
    d
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_devnode(d: *mut c_void) -> *const c_char {
    (*(d as *mut UDev)).devnode.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_syspath(d: *mut c_void) -> *const c_char {
    (*(d as *mut UDev)).syspath.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_sysname(d: *mut c_void) -> *const c_char {
    (*(d as *mut UDev)).sysname.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_action(d: *mut c_void) -> *const c_char {
    (*(d as *mut UDev)).action.as_ref().map_or(std::ptr::null(), |a| a.as_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_property_value(d: *mut c_void, k: *const c_char) -> *const c_char {
    if CStr::from_ptr(k).to_bytes() == b"ACTION" {
        return udev_device_get_action(d);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_sysattr_value(d: *mut c_void, k: *const c_char) -> *const c_char {
    let _g = np();
    let k = CStr::from_ptr(k).to_string_lossy().to_string();
    (*(d as *mut UDev)).attrs.iter().find(|(n, _)| *n == k).map_or(std::ptr::null(), |x| x.1.as_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_parent(d: *mut c_void) -> *mut c_void {
    d
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_parent_with_subsystem_devtype(d: *mut c_void, _: *const c_char, _: *const c_char) -> *mut c_void {
    d
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_new_from_netlink(_: *mut c_void, _: *const c_char) -> *mut c_void {
    let _g = np();
    if udev_fault() {
        set_errno(libc::ENOMEM);
        return std::ptr::null_mut();
    }
    let wd = w();
    wd.next_fd += 1;
    let fd = MON + wd.next_fd;
    wd.mons.push(Mon { fd, on: false, q: VecDeque::new() });
    Box::into_raw(Box::new(UMon { fd })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_filter_add_match_subsystem_devtype(_: *mut c_void, _: *const c_char, _: *const c_char) -> c_int {
    let _g = np();
    if udev_fault() {
        return -libc::ENOMEM;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_enable_receiving(m: *mut c_void) -> c_int {
    let _g = np();
    if udev_fault() {
        return -libc::ENOMEM;
    }
    let fd = (*(m as *mut UMon)).fd;
    for x in w().mons.iter_mut() {
        if x.fd == fd {
            x.on = true;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_get_fd(m: *mut c_void) -> c_int {
    (*(m as *mut UMon)).fd
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_receive_device(m: *mut c_void) -> *mut c_void {
    let _g = np();
    let fd = (*(m as *mut UMon)).fd;
    let e = w().mons.iter_mut().find(|x| x.fd == fd).and_then(|x| x.q.pop_front());
    match e {
        Some((a, d)) => mkdev(d, Some(a)),
        None => {
            set_errno(libc::EAGAIN);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_unref(m: *mut c_void) -> *mut c_void {
    let _g = np();
    if !m.is_null() {
        let fd = (*(m as *mut UMon)).fd;
        w().mons.retain(|x| x.fd != fd);
    }
    std::ptr::null_mut()
}

//! C15: validity stamps of allowed-signers files mean the right instant in every zone, at every clock value.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::wire::*;
use crate::seam::{fs, sched};
use crate::seam::sys::set_wall;
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 150000,
    quick_s: 50,
    thorough_runs: 5_000_000,
    rule: "Runs are histories of a machine whose time zone (TZ strings with daylight rules in both hemispheres, zone files with arbitrary transition histories, a replaced /etc/localtime) and clock change between loads of allowed-signers files, from several threads; stamps are drawn near transitions, leap days, digit and range boundaries.",
    real: &["sshcerts::ssh::allowed_signer", "chrono local-time code"],
    stub: &["clock", "environment TZ", "/etc/localtime and zoneinfo files", "disk"],
    assumptions: &["within the very second of a zone change (both its old and new wall-clock reading) either side's offset, or Err, is accepted: chrono's own boundary", "a zone change is picked up within one second of wall-clock time (chrono's cache)", "leap second 60 is not judged", "local stamps before 1900 and while the zone file is unreadable are not judged"],
};

/// A zone: offset before the first transition, then (instant, offset from there on).
#[derive(Clone, Debug)]
struct Zone {
    first: i64,
    trans: Vec<(i64, i64)>,
    rule: Option<Rule>,
}
#[derive(Clone, Debug)]
struct Rule {
    std: i64,
    dst: i64,
    start: (i64, i64, i64), // month, week, weekday
    start_t: i64,
    end: (i64, i64, i64),
    end_t: i64,
}
/// Day number of the w-th weekday d (0 = Sunday) of the month; w = 5 is the last.
fn mwd(y: i64, (m, w, d): (i64, i64, i64)) -> i64 {
    let first = days(y, m, 1);
    let dow = (first + 4).rem_euclid(7);
    let mut day = first + (d - dow).rem_euclid(7) + (w - 1) * 7;
    let next = if m == 12 { days(y + 1, 1, 1) } else { days(y, m + 1, 1) };
    while day >= next {
        day -= 7;
    }
    day
}
impl Rule {
    fn year(&self, y: i64) -> [(i64, i64); 2] {
        [(mwd(y, self.start) * 86400 + self.start_t - self.std, self.dst), (mwd(y, self.end) * 86400 + self.end_t - self.dst, self.std)]
    }
    fn tz(&self) -> String {
        let off = |o: i64| {
            let a = (-o).abs();
            let s = if -o < 0 { "-" } else { "" };
            if a % 3600 == 0 { format!("{s}{}", a / 3600) } else { format!("{s}{}:{:02}", a / 3600, a / 60 % 60) }
        };
        let t = |t: i64| if t == 7200 { String::new() } else if t % 3600 == 0 { format!("/{}", t / 3600) } else { format!("/{}:{:02}", t / 3600, t / 60 % 60) };
        format!("AAA{}BBB{},M{}.{}.{}{},M{}.{}.{}{}", off(self.std), off(self.dst), self.start.0, self.start.1, self.start.2, t(self.start_t), self.end.0, self.end.1, self.end.2, t(self.end_t))
    }
}
impl Zone {
    /// transitions that matter around this time
    fn near(&self, t: i64) -> Vec<(i64, i64)> {
        match &self.rule {
            None => self.trans.clone(),
            Some(r) => {
                let y = civil(t.div_euclid(86400)).0;
                let mut v: Vec<(i64, i64)> = (y - 2..=y + 2).flat_map(|y| r.year(y)).collect();
                v.sort();
                v
            }
        }
    }
    fn off(&self, t: i64, v: &[(i64, i64)]) -> i64 {
        let mut o = match &self.rule {
            // before the first listed transition the other offset applies
            Some(r) => if v[0].1 == r.std { r.dst } else { r.std },
            None => self.first,
        };
        for (at, to) in v {
            if *at <= t {
                o = *to;
            }
        }
        o
    }
    /// All instants at which the wall clock shows `l`; and whether `l` is exactly on the edge of a zone change.
    fn instants(&self, l: i64) -> (Vec<i64>, Vec<i64>) {
        let v = self.near(l);
        let mut offs: Vec<i64> = v.iter().map(|x| x.1).collect();
        offs.push(self.off(i64::MIN / 4, &v));
        offs.sort();
        offs.dedup();
        let hits = offs.iter().map(|o| l - o).filter(|t| self.off(*t, &v) == l - t).collect();
        let mut edge = vec![];
        let mut prev = self.off(i64::MIN / 4, &v);
        for (at, to) in &v {
            if l == at + prev || l == at + to {
                edge.push(l - prev);
                edge.push(l - to);
            }
            prev = *to;
        }
        (hits, edge)
    }
    fn tzif(&self) -> Vec<u8> {
        let mut offs: Vec<i64> = vec![self.first];
        for t in &self.trans {
            if !offs.contains(&t.1) {
                offs.push(t.1);
            }
        }
        let block = |wide: bool| {
            let mut b: Vec<u8> = b"TZif2".to_vec();
            b.extend([0u8; 15]);
            let tr: &[(i64, i64)] = if wide { &self.trans } else { &[] };
            for n in [0u32, 0, 0, tr.len() as u32, offs.len() as u32, 4] {
                b.extend(n.to_be_bytes());
            }
            for t in tr {
                b.extend(t.0.to_be_bytes());
            }
            for t in tr {
                b.push(offs.iter().position(|o| *o == t.1).unwrap() as u8);
            }
            for o in &offs {
                b.extend((*o as i32).to_be_bytes());
                b.extend([0, 0]);
            }
            b.extend(b"AAA\0");
            b
        };
        let mut f = block(false);
        f.extend(block(true));
        let last = self.trans.last().map(|t| t.1).unwrap_or(self.first);
        // footer: the last offset for ever
        let a = (-last).abs();
        f.extend(format!("\nAAA{}{}:{:02}:{:02}\n", if -last < 0 { "-" } else { "" }, a / 3600, a / 60 % 60, a % 60).bytes());
        f
    }
}
fn gen_off(c: &mut Ctx) -> i64 {
    const V: [i64; 15] = [0, 3600, -18000, 19800, 20700, 45900, 50400, -36000, -43200, 28800, -12600, 34200, 7200, -28800, 43200];
    V[c.pick(V.len())]
}
fn gen_zone(c: &mut Ctx) -> Zone {
    match c.pick(4) {
        0 => Zone { first: gen_off(c), trans: vec![], rule: None },
        1 | 2 => {
            let std = gen_off(c);
            let d = [3600i64, 3600, 1800, 7200, -3600][c.pick(5)];
            let (a, b) = (2 + c.pick(3) as i64, 8 + c.pick(4) as i64);
            let south = c.chance(1, 2);
            let wk = |c: &mut Ctx| (1 + c.pick(5) as i64, c.pick(7) as i64);
            let (w1, d1) = wk(c);
            let (w2, d2) = wk(c);
            let ts = [7200i64, 0, 3600, 10800, 5400, 82800];
            let (s, e) = if south { ((b, w1, d1), (a, w2, d2)) } else { ((a, w1, d1), (b, w2, d2)) };
            Zone { first: std, trans: vec![], rule: Some(Rule { std, dst: std + d, start: s, start_t: ts[c.pick(6)], end: e, end_t: ts[c.pick(6)] }) }
        }
        _ => {
            // a country that changes its mind
            let n = 1 + c.pick(12);
            let mut t = -1_500_000_000 + c.draw(1_500_000_000) as i64;
            let first = gen_off(c);
            let mut prev = first;
            let mut v = vec![];
            for _ in 0..n {
                t += 20 * 86400 + c.draw(400_000_000) as i64;
                t -= t.rem_euclid(900);
                let d = [3600i64, -3600, 1800, -1800, 5400, 86400, -86400, 900][c.pick(8)];
                let o = (prev + d).clamp(-50400, 54000);
                if o != prev {
                    v.push((t, o));
                }
                prev = o;
            }
            Zone { first, trans: v, rule: None }
        }
    }
}
enum Want {
    Bad,
    /// any of these instants; Err allowed if the flag is set
    At(Vec<i64>, bool),
    Skip,
}
/// A stamp and what it means in this zone.
fn gen_stamp(c: &mut Ctx, z: &Zone, broken: bool, base: i64) -> (String, Want) {
    let kind = c.pick(12);
    // a wall-clock time: near a transition, near a calendar edge, or anywhere
    let l = match c.pick(5) {
        0 => base,
        1 | 2 => {
            let v = z.near(base);
            match v.is_empty() {
                true => base,
                false => {
                    let (t, o) = v[c.pick(v.len())];
                    let prev = z.off(t - 1, &v);
                    let at = if c.chance(1, 2) { t + prev } else { t + o };
                    at + [0, 1, -1, 60, -60, 1800, -1800, 3599, -3599, 3600, -3600, 86400][c.pick(12)]
                }
            }
        }
        3 => {
            let y = 1970 + c.draw(130) as i64;
            let (m, d) = [(1, 1), (12, 31), (2, 28), (3, 1), (6, 30)][c.pick(5)];
            days(y, m, d) * 86400 + [0, 1, 43200, 86399][c.pick(4)]
        }
        _ => -2_000_000_000 + c.draw(12_000_000_000) as i64,
    };
    let (dd, s) = (l.div_euclid(86400), l.rem_euclid(86400));
    let (y, m, d) = civil(dd);
    let form = c.pick(3);
    let digits = |form: usize| match form {
        0 => format!("{y:04}{m:02}{d:02}"),
        1 => format!("{y:04}{m:02}{d:02}{:02}{:02}", s / 3600, s / 60 % 60),
        _ => format!("{y:04}{m:02}{d:02}{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60),
    };
    let wall = match form {
        0 => dd * 86400,
        1 => l - s % 60,
        _ => l,
    };
    match kind {
        0..=4 => {
            // local
            let (hits, edge) = z.instants(wall);
            let w = if broken || wall < days(1900, 1, 1) * 86400 {
                Want::Skip
            } else if !edge.is_empty() {
                c.probe("stamp_on_the_edge_of_a_zone_change");
                let mut v = hits;
                v.extend(edge);
                Want::At(v, true)
            } else if hits.is_empty() {
                c.probe("stamp_in_a_gap");
                Want::Bad
            } else {
                if hits.len() > 1 {
                    c.probe("ambiguous_stamp");
                }
                Want::At(hits, false)
            };
            (digits(form), w)
        }
        5..=8 => (format!("{}Z", digits(form)), Want::At(vec![wall], false)),
        9 => {
            // far past and future, UTC
            let y = [1i64, 999, 1000, 1582, 1600, 1899, 2038, 2100, 2400, 9999][c.pick(10)];
            let m = 1 + c.pick(12) as i64;
            let d = 1 + c.pick(28) as i64;
            (format!("{y:04}{m:02}{d:02}Z"), Want::At(vec![days(y, m, d) * 86400], false))
        }
        10 => {
            // leap days and month ends
            let y = [2000i64, 1900, 2100, 2024, 2023, 2400, 2004][c.pick(7)];
            let m = 1 + c.pick(12) as i64;
            let d = 28 + c.pick(4) as i64;
            let next = if m == 12 { days(y + 1, 1, 1) } else { days(y, m + 1, 1) };
            let ok = days(y, m, 1) + d - 1 < next;
            (format!("{y:04}{m:02}{d:02}Z"), if ok { Want::At(vec![days(y, m, d) * 86400], false) } else { Want::Bad })
        }
        _ => {
            let g = digits(form);
            let suffix = ["", "Z"][c.pick(2)];
            let b = match c.pick(14) {
                0 => format!("{}{suffix}", &g[..g.len() - 1]),
                1 => format!("{g}0{suffix}"),
                2 => format!("{y:04}13{d:02}{suffix}"),
                3 => format!("{y:04}00{d:02}{suffix}"),
                4 => format!("{y:04}{m:02}00{suffix}"),
                5 => format!("{y:04}{m:02}32{suffix}"),
                6 => format!("{y:04}{m:02}{d:02}2400{suffix}"),
                7 => format!("{y:04}{m:02}{d:02}1260{suffix}"),
                8 => format!("{y:04}{m:02}{d:02}125961{suffix}"),
                9 => format!("{g}z"),
                10 => format!("+{}{suffix}", &g[1..]),
                11 => String::new(),
                12 => format!("{}x{suffix}", &g[..g.len() - 1]),
                _ => format!("{y:04}{m:02}{d:02}12:30{suffix}"),
            };
            (b, Want::Bad)
        }
    }
}

type Stamp = Option<(String, Want)>;
fn judge(r: Result<AllowedSigners, sshcerts::error::Error>, line: &str, after: &Stamp, before: &Stamp, zone: &Zone, clock: i64) {
    let zd = std::env::var("TZ").unwrap_or_else(|_| "localtime".into());
    match r {
        Ok(x) => {
            ensure!(x.0.len() == 1, "entry lost", "{line}");
            let e = &x.0[0];
            for (name, w, got) in [("valid-after", after, e.valid_after), ("valid-before", before, e.valid_before)] {
                match w {
                    None => ensure!(got.is_none(), "validity invented", "{name} {got:?} from {line}"),
                    Some((s, Want::Bad)) => violate("malformed or impossible time accepted", format!("{name}={s} became {got:?} in zone {zd} {zone:?}")),
                    Some((s, Want::At(v, _))) => match got {
                        None => violate("validity lost", format!("{name}={s}")),
                        Some(t) => ensure!(v.contains(&t), if s.ends_with('Z') { "UTC stamp misread" } else { "local stamp misread" }, "{name}={s} became {t} instead of {v:?} in zone {zd} {zone:?} at clock {clock}"),
                    },
                    Some((s, Want::Skip)) => ensure!(got.is_some(), "validity lost", "{name}={s}"),
                }
            }
            if let (Some(a), Some(b)) = (e.valid_after, e.valid_before) {
                ensure!(a < b, "empty interval accepted", "{line}: {a}..{b}");
            }
        }
        Err(e) => {
            // is there any reason for an error?
            let mut excuse = false;
            for w in [after, before] {
                match w {
                    Some((_, Want::Bad)) | Some((_, Want::Skip)) | Some((_, Want::At(_, true))) => excuse = true,
                    _ => (),
                }
            }
            if let (Some((_, Want::At(a, _))), Some((_, Want::At(b, _)))) = (after, before) {
                if a.iter().any(|a| b.iter().any(|b| b <= a)) {
                    excuse = true;
                }
            }
            ensure!(excuse, "valid time refused", "{line} : {e} in zone {zd} {zone:?} at clock {clock}");
        }
    }
}
/// A line with a validity interval.
fn gen_line(c: &mut Ctx, key: &MPub, zone: &Zone, broken: bool, base: i64) -> (String, Stamp, Stamp) {
    let after = if c.chance(2, 3) { Some(gen_stamp(c, zone, broken, base)) } else { None };
    let before = if c.chance(2, 3) { let b2 = base + 40_000_000 * c.pick(2) as i64; Some(gen_stamp(c, zone, broken, b2)) } else { None };
    let opt = |c: &mut Ctx, n: &str, s: &str| if c.chance(1, 3) { format!(" {n}=\"{s}\"") } else { format!(" {n}={s}") };
    let mut line = String::from("user@example.com");
    let order = c.chance(1, 3);
    let a = after.as_ref().map(|x| opt(c, "valid-after", &x.0)).unwrap_or_default();
    let b = before.as_ref().map(|x| opt(c, "valid-before", &x.0)).unwrap_or_default();
    line += &if order { format!("{b}{a}") } else { format!("{a}{b}") };
    line += &format!(" {}\n", key.line(None));
    (line, after, before)
}
/// Several threads read stamps at the same time, some of which have never seen this zone before.
fn crowd(c: &mut Ctx, key: &MPub, zone: &Zone, broken: bool, clock: i64) {
    c.begin("concurrent_loads");
    let n = 2 + c.pick(3);
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|_| -> Box<dyn FnOnce() + Send> {
            let mut todo = vec![];
            for _ in 0..1 + c.pick(3) {
                let base = if c.chance(1, 2) { clock } else { c.draw(4_000_000_000) as i64 };
                todo.push(gen_line(c, key, zone, broken, base));
            }
            Box::new(move || {
                for (line, after, before) in todo {
                    let r = lib("AllowedSigners::from_string", || AllowedSigners::from_string(&line));
                    judge(r, &line, &after, &before, zone, clock);
                }
            })
        })
        .collect();
    sched::race("reading times", jobs);
    c.end();
}

pub fn run() {
    let c = cx();
    fs::disk().system = true;
    std::env::remove_var("TZ");
    let key = gen_key(c, &ALL_KK, false).pk;
    let mut zone = Zone { first: 0, trans: vec![], rule: None };
    let mut broken = true; // no zone file yet
    let mut clock = 1_000_000_000i64 + c.draw(1_000_000_000) as i64;
    set_wall(clock);
    let n = c.range(2, 8);
    for i in 0..n {
        if i == 0 || c.chance(1, 2) {
            c.begin("zone_change");
            zone = gen_zone(c);
            broken = false;
            let how = c.pick(4);
            match (&zone.rule, how) {
                (Some(r), _) => {
                    std::env::set_var("TZ", r.tz());
                    ev!("TZ={}", r.tz());
                }
                (None, 0) => {
                    std::env::set_var("TZ", format!("{}/sim/z{i}", if c.chance(1, 2) { ":" } else { "" }));
                    fs::put(&format!("/sim/z{i}"), &zone.tzif());
                    ev!("TZ=zone file {:?}", zone);
                }
                (None, 1) => {
                    fs::put(&format!("/usr/share/zoneinfo/Sim/Z{i}"), &zone.tzif());
                    std::env::set_var("TZ", format!("Sim/Z{i}"));
                    ev!("TZ=Sim/Z{i} {:?}", zone);
                }
                _ => {
                    std::env::remove_var("TZ");
                    fs::put("/etc/localtime", &zone.tzif());
                    ev!("/etc/localtime {:?}", zone);
                    if c.chance(1, 10) {
                        fs::disk().names.remove("/etc/localtime");
                        broken = true;
                        c.fault("localtime_missing");
                    }
                }
            }
            c.fault("zone_changed");
            c.end();
        }
        // the clock moves on, or jumps far away; always at least two seconds from where it was
        clock = match c.pick(4) {
            0 => clock + 2 + c.draw(1000) as i64,
            1 => {
                c.fault("clock_jump_back");
                clock - 2 - c.draw(300_000_000) as i64
            }
            2 => {
                c.fault("clock_jump_forward");
                clock + 2 + c.draw(300_000_000) as i64
            }
            _ => clock + 15_000_000,
        };
        set_wall(clock);
        if c.chance(1, 10) {
            crowd(c, &key, &zone, broken, clock);
            continue;
        }
        c.begin("load");
        let base = match c.pick(3) {
            0 => clock,
            1 => {
                let v = &zone.trans;
                if v.is_empty() { clock } else { v[c.pick(v.len())].0 }
            }
            _ => c.draw(4_000_000_000) as i64,
        };
        let (line, after, before) = gen_line(c, &key, &zone, broken, base);
        let how = c.pick(3);
        if how == 1 {
            fs::put("/sim/allowed_signers", format!("# c\n{line}").as_bytes());
        }
        let load = || {
            lib("AllowedSigners loader", || match how {
                0 => AllowedSigner::from_string(line.trim()).map(|x| AllowedSigners(vec![x])),
                1 => AllowedSigners::from_path("/sim/allowed_signers"),
                _ => AllowedSigners::from_string(&line),
            })
        };
        let r = if c.chance(1, 4) {
            c.stat("sched.thread");
            match std::thread::scope(|s| s.spawn(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(load))).join().unwrap()) {
                Ok(r) => r,
                Err(p) => std::panic::resume_unwind(p),
            }
        } else {
            load()
        };
        ev!("clock {clock}: {} -> {}", line.split(" ssh-").next().unwrap_or(""), match &r {
            Ok(x) => format!("{:?}..{:?}", x.0.first().and_then(|e| e.valid_after), x.0.first().and_then(|e| e.valid_before)),
            Err(e) => format!("{e}"),
        });
        judge(r, &line, &after, &before, &zone, clock);
        c.end();
    }
    std::env::remove_var("TZ");
}

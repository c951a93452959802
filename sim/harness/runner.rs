//! Batch runner: fork per simulated run, seeded search over 8 workers, minimisation, replay, evidence.
use crate::core::*;
use crate::prop;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::io::FromRawFd;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct RunResult {
    pub status: String, // ok | violation | error | hang
    pub class: String,
    pub msg: String,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub evhash: u64,
    pub nevents: u64,
    pub shape: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub stats: BTreeMap<String, u64>,
    pub events: Vec<String>,
}

fn child_body(prop: &str, seed: u64, replay: Option<Vec<u64>>, want_events: bool) -> Value {
    install(Ctx::new(prop, seed, replay));
    install_hook();
    let p = prop.to_string();
    // A fresh thread: its hash seeds and thread-local caches are drawn inside this run.
    let r = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| prop::run(&p)));
            crate::seam::deactivate();
            match r {
                Ok(()) => ("ok".to_string(), String::new(), String::new()),
                Err(e) => {
                    let c = cx();
                    if let Some((class, msg)) = c.violation.clone() {
                        ("violation".into(), class, msg)
                    } else if let Some(v) = e.downcast_ref::<Violation>() {
                        ("violation".into(), v.class.clone(), v.msg.clone())
                    } else {
                        let (l, m) = take_panic();
                        ("error".into(), "harness".into(), format!("{l}: {m}"))
                    }
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(("error".into(), "harness".into(), "run thread died".into()));
    report(r.0, r.1, r.2, want_events)
}
fn report(mut status: String, mut class: String, mut msg: String, want_events: bool) -> Value {
    let c = cx();
    if status == "ok" {
        if let Some((cl, m)) = c.violation.clone() {
            status = "violation".into();
            class = cl;
            msg = m;
        }
    }
    let viol = status != "ok";
    json!({
        "status": status, "class": class, "msg": msg, "evhash": c.evhash, "nevents": c.nevents, "shape": c.shape,
        "steps": c.steps, "sim_ns": c.now_ns, "stats": c.stats,
        "choices": if viol || want_events { json!(c.choices) } else { Value::Null },
        "spans": if viol || want_events { json!(c.spans) } else { Value::Null },
        "events": if want_events || viol { json!(c.events) } else { Value::Null },
    })
}

static RESULT_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
static WANT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Ends the run from whichever simulated thread is running.
pub fn emit_and_exit() -> ! {
    emit("ok", String::new())
}
pub fn emit_error(msg: String) -> ! {
    emit("error", msg)
}
fn emit(status: &str, msg: String) -> ! {
    crate::seam::deactivate();
    crate::seam::sched::stop();
    let s = report(status.into(), String::new(), msg, WANT.load(std::sync::atomic::Ordering::Relaxed)).to_string();
    unsafe {
        let mut f = std::fs::File::from_raw_fd(RESULT_FD.load(std::sync::atomic::Ordering::Relaxed));
        let _ = f.write_all(s.as_bytes());
        drop(f);
        libc::_exit(0)
    }
}

fn hang_limit() -> Duration {
    Duration::from_secs(std::env::var("SIM_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(60))
}

/// One run in a forked child: total isolation, nothing leaks from one run into the next.
pub fn run_one(prop: &str, seed: u64, replay: Option<&[u64]>, want_events: bool) -> RunResult {
    crate::prop::prepare(prop);
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return RunResult { status: "error".into(), msg: "pipe".into(), ..Default::default() };
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            // contain runaway allocation and runaway CPU of the code under test
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            RESULT_FD.store(fds[1], std::sync::atomic::Ordering::Relaxed);
            WANT.store(want_events, std::sync::atomic::Ordering::Relaxed);
            let s = child_body(prop, seed, replay.map(|x| x.to_vec()), want_events).to_string();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(s.as_bytes());
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        if pid < 0 {
            libc::close(fds[0]);
            return RunResult { status: "error".into(), msg: "fork".into(), ..Default::default() };
        }
        let t0 = Instant::now();
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let mut hung = false;
        loop {
            let left = hang_limit().saturating_sub(t0.elapsed());
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.as_millis() as i32);
            if r == 0 {
                hung = true;
                break;
            }
            if r < 0 {
                continue;
            }
            let mut tmp = [0u8; 65536];
            match f.read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
                Err(_) => break,
            }
        }
        if hung {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if hung {
            return RunResult { status: "violation".into(), class: "hang".into(), msg: "the run did not finish: the code under test loops or blocks outside every seam".into(), ..Default::default() };
        }
        match serde_json::from_slice::<Value>(&buf) {
            Ok(v) => parse(&v),
            Err(_) => RunResult {
                status: "violation".into(),
                class: "abort".into(),
                msg: format!("the process died during the run (wait status {st:#x}): abort, signal or exhausted memory"),
                ..Default::default()
            },
        }
    }
}
fn u(v: &Value) -> u64 {
    v.as_u64().unwrap_or(0)
}
fn parse(v: &Value) -> RunResult {
    let mut r = RunResult {
        status: v["status"].as_str().unwrap_or("error").into(),
        class: v["class"].as_str().unwrap_or("").into(),
        msg: v["msg"].as_str().unwrap_or("").into(),
        evhash: u(&v["evhash"]),
        nevents: u(&v["nevents"]),
        shape: u(&v["shape"]),
        steps: u(&v["steps"]),
        sim_ns: u(&v["sim_ns"]),
        ..Default::default()
    };
    if let Some(a) = v["choices"].as_array() {
        r.choices = a.iter().map(u).collect();
    }
    if let Some(a) = v["spans"].as_array() {
        r.spans = a.iter().map(|s| (u(&s[0]) as usize, u(&s[1]) as usize)).collect();
    }
    if let Some(a) = v["events"].as_array() {
        r.events = a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect();
    }
    if let Some(a) = v["stats"].as_object() {
        r.stats = a.iter().map(|(k, v)| (k.clone(), u(v))).collect();
    }
    r
}

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    nevents: u64,
    sim_ns: u64,
    stats: BTreeMap<String, u64>,
    shapes: HashSet<u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
    rechecked: u64,
    mismatches: u64,
    samples: Vec<Value>,
    bad: Vec<(u64, String, String, String)>, // seed,status,class,msg
}

pub fn seed_for(base: u64, i: u64) -> u64 {
    base.wrapping_mul(1_000_003).wrapping_add(i)
}

fn worker(prop: &str, base: u64, w: u64, nw: u64, runs: u64, deadline: Instant, out: &std::path::Path) {
    let mut a = Agg::default();
    let mut i = w;
    let stop = out.with_file_name("stop");
    while i < runs && Instant::now() < deadline && !stop.exists() {
        let seed = seed_for(base, i);
        let want = a.samples.len() < 1 && w < 3 && i >= nw;
        let r = run_one(prop, seed, None, want);
        a.runs += 1;
        a.steps += r.steps;
        a.nevents += r.nevents;
        a.sim_ns += r.sim_ns;
        let mut faults = 0;
        for (k, v) in &r.stats {
            *a.stats.entry(k.clone()).or_default() += v;
            if k.starts_with("fault.") {
                faults += v;
            }
        }
        a.shapes.insert(r.shape);
        a.traces.insert(r.evhash);
        if r.steps >= 2 && (faults > 0 || r.stats.keys().any(|k| k.starts_with("sched.") || k.starts_with("attack."))) {
            a.nontrivial.insert(r.evhash);
        }
        if want {
            let evs: Vec<_> = r.events.iter().take(60).cloned().collect();
            a.samples.push(json!({"seed": seed, "events": evs}));
        }
        if r.status != "ok" {
            a.bad.push((seed, r.status.clone(), r.class.clone(), r.msg.clone()));
            let _ = std::fs::write(&stop, b"");
            break;
        }
        if a.runs % 97 == 1 {
            let r2 = run_one(prop, seed, None, false);
            a.rechecked += 1;
            if r2.evhash != r.evhash || r2.nevents != r.nevents || r2.status != r.status {
                a.mismatches += 1;
            }
        }
        i += nw;
    }
    let v = json!({"runs":a.runs,"steps":a.steps,"nevents":a.nevents,"sim_ns":a.sim_ns,"stats":a.stats,
        "shapes":a.shapes.iter().collect::<Vec<_>>(),"traces":a.traces.iter().collect::<Vec<_>>(),
        "nontrivial":a.nontrivial.iter().collect::<Vec<_>>(),"rechecked":a.rechecked,"mismatches":a.mismatches,
        "samples":a.samples,"bad":a.bad});
    std::fs::write(out, v.to_string()).unwrap();
}

fn shrink(prop: &str, seed: u64, first: &RunResult, budget: Duration) -> (Vec<u64>, RunResult, u64) {
    let t0 = Instant::now();
    let mut best = first.choices.clone();
    let mut bestr = first.clone();
    let mut tries = 0u64;
    let attempt = |c: &[u64], tries: &mut u64| -> Option<RunResult> {
        *tries += 1;
        let r = run_one(prop, seed, Some(c), false);
        if r.status == "violation" && r.class == first.class { Some(r) } else { None }
    };
    // drop the unused tail first
    loop {
        let mut improved = false;
        // 1. delete whole steps
        let mut spans = bestr.spans.clone();
        spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
        for s in spans {
            if t0.elapsed() > budget {
                break;
            }
            if s.1 > best.len() || s.0 >= s.1 {
                continue;
            }
            let mut c = best.clone();
            c.drain(s.0..s.1);
            if let Some(r) = attempt(&c, &mut tries) {
                best = r.choices.clone();
                bestr = r;
                improved = true;
                break;
            }
        }
        // 2. delete chunks
        if !improved {
            let mut n = (best.len() / 2).max(1);
            'o: while n >= 1 && t0.elapsed() < budget {
                let mut i = 0;
                while i + n <= best.len() && t0.elapsed() < budget {
                    let mut c = best.clone();
                    c.drain(i..i + n);
                    if let Some(r) = attempt(&c, &mut tries) {
                        if r.choices.len() < best.len() {
                            best = r.choices.clone();
                            bestr = r;
                            improved = true;
                            break 'o;
                        }
                    }
                    i += n;
                }
                n /= 2;
            }
        }
        // 3. simplify values
        if !improved {
            for i in 0..best.len() {
                if t0.elapsed() > budget {
                    break;
                }
                if i >= best.len() {
                    break;
                }
                if best[i] == 0 {
                    continue;
                }
                let vals = [0, best[i] / 2, best[i] - 1];
                for v in vals {
                    if i >= best.len() || v >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(r) = attempt(&c, &mut tries) {
                        if r.choices.len() <= best.len() && r.choices < best || r.choices.len() < best.len() {
                            best = r.choices.clone();
                            bestr = r;
                            improved = true;
                            break;
                        }
                    }
                }
            }
        }
        if !improved || t0.elapsed() > budget {
            break;
        }
    }
    (best, bestr, tries)
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn check(prop: &str, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let info = prop::info(prop);
    let (mut runs, mut budget) = if tier == "thorough" { (info.thorough_runs, 3000) } else { (info.quick_runs, info.quick_s) };
    if let Ok(r) = std::env::var("SIM_RUNS") {
        runs = r.parse().unwrap();
    }
    if let Ok(r) = std::env::var("SIM_SECS") {
        budget = r.parse().unwrap();
    }
    println!("simulating {prop} tier={tier} seed={base} runs<={runs} budget={budget}s");
    let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let tmp = std::env::temp_dir().join(format!("sim-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let deadline = t0 + Duration::from_secs(budget);
    crate::prop::prepare(prop);
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(prop, base, w, nw, runs, deadline, &tmp.join(format!("w{w}")));
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let mut a = Agg::default();
    for w in 0..nw {
        let Ok(b) = std::fs::read(tmp.join(format!("w{w}"))) else {
            eprintln!("harness error: worker {w} died");
            let _ = std::fs::remove_dir_all(&tmp);
            return 2;
        };
        let v: Value = serde_json::from_slice(&b).unwrap();
        a.runs += u(&v["runs"]);
        a.steps += u(&v["steps"]);
        a.nevents += u(&v["nevents"]);
        a.sim_ns += u(&v["sim_ns"]);
        a.rechecked += u(&v["rechecked"]);
        a.mismatches += u(&v["mismatches"]);
        for (k, x) in v["stats"].as_object().unwrap() {
            *a.stats.entry(k.clone()).or_default() += u(x);
        }
        a.shapes.extend(v["shapes"].as_array().unwrap().iter().map(u));
        a.traces.extend(v["traces"].as_array().unwrap().iter().map(u));
        a.nontrivial.extend(v["nontrivial"].as_array().unwrap().iter().map(u));
        a.samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        for b in v["bad"].as_array().unwrap() {
            a.bad.push((u(&b[0]), b[1].as_str().unwrap().into(), b[2].as_str().unwrap().into(), b[3].as_str().unwrap().into()));
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let wall = t0.elapsed().as_secs_f64();
    a.bad.sort();
    let mut code = 0;
    let mut violations = 0;
    let mut viol_json = Value::Null;
    if let Some(b) = a.bad.iter().find(|b| b.1 == "violation") {
        // deterministic reproduction first, then minimise
        let mut first = run_one(prop, b.0, None, true);
        if first.class != b.2 {
            first = run_one(prop, b.0, None, true);
        }
        if first.status != "violation" {
            eprintln!("harness error: seed {} reported {} ({}) but does not reproduce", b.0, b.2, b.3);
            return 2;
        }
        let nominal = first.choices.len();
        let (choices, fin, tries) = if first.choices.is_empty() {
            (vec![], first.clone(), 0) // abort/hang: the seed itself is the replay
        } else {
            shrink(prop, b.0, &first, Duration::from_secs(std::env::var("SIM_SHRINK_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 120 } else { 45 })))
        };
        let use_choices = !first.choices.is_empty();
        let rep = run_one(prop, b.0, if use_choices { Some(&choices) } else { None }, true);
        let dir = verif_dir().join("evidence/replay");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{}.json", prop, b.0));
        let v = json!({"property": prop, "seed": b.0, "class": fin.class, "violation": fin.msg,
            "choices": if use_choices { json!(choices) } else { Value::Null },
            "minimised_from": nominal, "minimised_to": choices.len(), "shrink_attempts": tries,
            "evhash": rep.evhash, "trace": rep.events});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("seed {} violates {prop}: {}: {}", b.0, fin.class, fin.msg);
        for e in rep.events.iter().take(80) {
            println!("    {e}");
        }
        println!("minimised {} -> {} decisions in {} runs; replay: sim replay {}", nominal, choices.len(), tries, path.display());
        println!("VIOLATION property={prop} replay={}", path.display());
        violations = 1;
        viol_json = json!({"seed": b.0, "class": fin.class, "msg": fin.msg, "replay": path});
        code = 1;
    } else if let Some(b) = a.bad.first() {
        eprintln!("harness error at seed {}: {} {}", b.0, b.2, b.3);
        code = 2;
    }
    if a.mismatches > 0 {
        eprintln!("WARNING: {} of {} re-executed seeds gave another event log", a.mismatches, a.rechecked);
    }
    let pre = |p: &str| -> Value {
        json!(a.stats.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), *v)).collect::<BTreeMap<_, _>>())
    };
    let mut samples = a.samples;
    samples.truncate(3);
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": format!("{} One evaluation is one simulated run (one seed). It is non-trivial if at least two operations ran and at least one fault, attack or scheduling decision really took effect; distinct by hash of the complete event log.", info.rule),
            "samples": samples,
            "simulated_runs": a.runs,
            "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "operations": a.steps,
            "events": a.nevents,
            "simulated_time_s": a.sim_ns as f64 / 1e9,
            "faults_fired": pre("fault."),
            "attacks_delivered": pre("attack."),
            "scheduling": pre("sched."),
            "operations_by_kind": pre("op."),
            "rare_conditions_hit": pre("probe."),
            "distinct_event_logs": a.traces.len(),
            "distinct_operation_fault_sequences": a.shapes.len(),
            "determinism": {"seeds_run_twice": a.rechecked, "event_log_mismatches": a.mismatches},
            "real_components": info.real, "stubbed_components": info.stub,
            "violation": viol_json,
        },
        "assumptions": info.assumptions,
    });
    let evp = verif_dir().join(format!("evidence/{prop}.json"));
    std::fs::create_dir_all(evp.parent().unwrap()).unwrap();
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop}: {} runs, {} ops, {} distinct non-trivial, {:.1}s, exit {code}", a.runs, a.steps, a.nontrivial.len(), wall);
    code
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let choices: Option<Vec<u64>> = v["choices"].as_array().map(|a| a.iter().map(u).collect());
    let r = run_one(prop, u(&v["seed"]), choices.as_deref(), true);
    for e in &r.events {
        println!("{e}");
    }
    println!("status={} class={} {}", r.status, r.class, r.msg);
    println!("event log hash {:016x} ({})", r.evhash, if r.evhash == u(&v["evhash"]) { "identical to the recorded run" } else { "differs from the recorded run" });
    if r.status == "violation" {
        println!("VIOLATION property={prop} replay={path}");
        1
    } else {
        0
    }
}

pub fn one(prop: &str, seed: u64) -> i32 {
    let r = run_one(prop, seed, None, true);
    for e in &r.events {
        println!("{e}");
    }
    println!("status={} class={} {} hash={:016x} choices={} stats={:?}", r.status, r.class, r.msg, r.evhash, r.choices.len(), r.stats);
    (r.status != "ok") as i32
}

pub fn hashes(prop: &str, base: u64, n: u64) {
    for i in 0..n {
        let r = run_one(prop, seed_for(base, i), None, false);
        println!("{} {} {:016x} {}", prop, i, r.evhash, r.status);
    }
}

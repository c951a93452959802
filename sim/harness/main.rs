#![allow(dead_code, deprecated, static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions)]
mod core;
mod model;
mod prop;
mod runner;
mod seam;

#[global_allocator]
static A: seam::alloc::SimAlloc = seam::alloc::SimAlloc;

pub fn sched_syscall(n: i64, a: [i64; 6]) -> Option<i64> {
    seam::sched::syscall(n, a)
}

fn prime() {
    // caches of third-party crates are filled before any run is forked off
    use ring::rand::SecureRandom;
    let mut b = [0u8; 8];
    ring::rand::SystemRandom::new().fill(&mut b).unwrap();
    openssl::init();
    seam::sys::own_openssl_rand();
    let mut p = core::Prng::new(1);
    let k = model::keys::ecdsa(256, &mut p, 0);
    let s = k.sign(b"x", &Default::default(), &mut p);
    assert!(model::keys::verify(&k.pk, b"x", &s).is_some());
    let e = model::keys::ed25519(&[1; 32]);
    let s = e.sign(b"x", &Default::default(), &mut p);
    assert!(model::keys::verify(&e.pk, b"x", &s).is_some());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    prime();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or(&tier), seed),
        Some("replay") => runner::replay(&a[2]),
        Some("one") => runner::one(&a[2], a[3].parse().unwrap()),
        Some("hashes") => {
            runner::hashes(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            0
        }
        _ => {
            eprintln!("usage: sim check <property> [quick|thorough] | replay <file> | one <property> <seed> | hashes <property> <base> <n>");
            2
        }
    };
    std::process::exit(code);
}

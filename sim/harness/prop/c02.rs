//! C02: certificates of reference CAs travel over a hostile channel to the library's verifier.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::{fs, sched};
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 24000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are issuance-and-delivery histories: reference CAs sign certificates, a channel under the seed's control delivers them intact, damaged, spliced, re-labelled, re-signed or with changed fields.",
    real: &["sshcerts::ssh::{cert,pubkey,reader,signature,keytype}", "ring"],
    stub: &["certificate authorities and attackers (OpenSSL reference keys and an independent encoder)", "channel", "disk"],
    assumptions: &["OpenSSL signs correctly", "no forgery of the signature algorithms themselves within a run"],
};

struct Issued {
    m: MCert,
    tbs: Vec<u8>,
    sig: Vec<u8>,
    full: Vec<u8>,
}

fn issue(c: &mut Ctx, ca: &MKey, key: &MPub, sorted_opts: bool) -> Issued {
    let mut m = gen_cert(c, key, &ca.pk);
    if sorted_opts {
        m.crit.sort();
        m.ext.sort();
    }
    match c.pick(8) {
        0 => m.nonce = gen_bytes(c, 64),
        1 => m.reserved = gen_bytes(c, 40),
        _ => (),
    }
    let tbs = m.tbs();
    let o = gen_sigopt(c);
    let mut p = c.stream();
    let sig = ca.sign(&tbs, &o, &mut p);
    let full = m.full(&sig);
    Issued { m, tbs, sig, full }
}

/// The verdict on whatever was delivered.
fn judge(what: &str, signed: &[Issued], b: &[u8], r: &Result<Certificate, sshcerts::error::Error>) {
    match r {
        Ok(cert) => {
            // some CA signed a prefix of the delivered bytes, and the fields are those of the signed bytes
            let Some(i) = signed.iter().find(|i| b.starts_with(&i.tbs)) else {
                violate("certificate accepted that no CA signed", format!("{what}: accepted {} by {} ({} bytes)", cert.key_id, cert.signature_key.key_type.name, b.len()))
            };
            if let Some(d) = cert_diff(cert, &i.m) {
                violate("accepted certificate reports other fields than were signed", format!("{what}: {d}"));
            }
            // the signature blob must itself verify for the CA (labels included)
            let mut rd = R(b, i.tbs.len());
            let sig = rd.bytes().unwrap_or(&[]);
            ensure!(verify(&i.m.ca, &i.tbs, sig).is_some(), "certificate accepted without a valid signature", "{what}: signature {} for {}", hex(sig), i.m.ca.name());
            ensure!(cert.signature == sig, "signature field altered", "{what}");
        }
        Err(_) => (),
    }
    ev!("  {what}: {}", match r { Ok(_) => "accepted".to_string(), Err(e) => format!("rejected ({})", e.to_string().chars().take(40).collect::<String>()) });
}

fn present(c: &mut Ctx, what: &str, signed: &[Issued], b: &[u8]) -> bool {
    let r = if c.pick(2) == 0 {
        lib("Certificate::from_bytes", || Certificate::from_bytes(b))
    } else {
        let name = R(b, 0).string().unwrap_or_else(|| "ssh-ed25519-cert-v01@openssh.com".into());
        let t = format!("{} {} c", if name.is_empty() || name.contains(char::is_whitespace) { "ssh-ed25519-cert-v01@openssh.com" } else { &name }, base64::encode(b));
        lib("Certificate::from_string", || Certificate::from_string(&t))
    };
    judge(what, signed, b, &r);
    r.is_ok()
}

/// Several threads of a server check certificates at the same time, some of them forged.
fn crowd(c: &mut Ctx, signed: &[Issued]) {
    c.begin("concurrent_checks");
    let n = 2 + c.pick(3);
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..n {
        let mut todo: Vec<(&'static str, Vec<u8>, bool, usize)> = vec![];
        for _ in 0..1 + c.pick(4) {
            let i = &signed[c.pick(signed.len())];
            let how = c.pick(3);
            todo.push(match c.pick(4) {
                0 | 1 => ("intact", i.full.clone(), true, how),
                2 => {
                    let mut b = i.full.clone();
                    let o = signed[c.pick(signed.len())].full.clone();
                    damage(c, &mut b, Some(&o));
                    c.stat("fault.channel_damage");
                    ("damaged", b, false, how)
                }
                _ => {
                    let mut m = i.m.clone();
                    match c.pick(3) {
                        0 => m.principals.push("root".into()),
                        1 => m.serial ^= 1,
                        _ => m.key_id.push('x'),
                    }
                    c.stat("attack.field_changed");
                    let s = signed[c.pick(signed.len())].sig.clone();
                    ("forged", m.full(if c.chance(1, 2) { &i.sig } else { &s }), false, how)
                }
            });
        }
        jobs.push(Box::new(move || {
            for (what, b, honest, how) in todo {
                let name = R(&b, 0).string().filter(|n| !n.is_empty() && !n.contains(char::is_whitespace)).unwrap_or_else(|| "ssh-ed25519-cert-v01@openssh.com".into());
                let line = format!("{name} {} c\n", base64::encode(&b));
                let r = match how {
                    0 => lib("Certificate::from_bytes", || Certificate::from_bytes(&b)),
                    1 => lib("Certificate::from_string", || Certificate::from_string(&line)),
                    _ => {
                        let path = format!("/sim/c{t}.pub");
                        fs::put(&path, line.as_bytes());
                        lib("Certificate::from_path", || Certificate::from_path(&path))
                    }
                };
                judge(what, signed, &b, &r);
                if let (true, Err(e)) = (honest, &r) {
                    violate("honest certificate rejected", format!("{e} in thread {t} of {n}"));
                }
            }
        }));
    }
    fs::disk().plan = fs::Plan { chunk: [0usize, 4096, 33][c.pick(3)], ..Default::default() };
    sched::race("checking certificates", jobs);
    fs::disk().plan = Default::default();
    c.end();
}

pub fn run() {
    let c = cx();
    let ncas = 1 + c.pick(3);
    let cas: Vec<MKey> = (0..ncas).map(|_| gen_key(c, &CA_KK, false)).collect();
    let subs: Vec<MKey> = (0..1 + c.pick(2)).map(|_| gen_key(c, &ALL_KK, false)).collect();
    let attacker = gen_key(c, &CA_KK, false);
    let mut signed: Vec<Issued> = vec![];
    let n = c.range(1, 3);
    for _ in 0..n {
        c.begin("issue");
        let (a, b) = (c.pick(cas.len()), c.pick(subs.len()));
        let so = c.chance(1, 2);
        let i = issue(c, &cas[a], &subs[b].pk, so);
        ev!("CA {} ({}) signs serial {} for {}: {} principals {} crit {} ext {} bytes", a, cas[a].pk.name(), i.m.serial, i.m.key.name(), i.m.principals.len(), i.m.crit.len(), i.m.ext.len(), i.full.len());
        signed.push(i);
        c.end();
    }
    // a certificate by the attacker's own CA is genuine too: it names the attacker
    if c.chance(1, 3) {
        let i = issue(c, &attacker, &subs[0].pk, true);
        signed.push(i);
    }
    let steps = c.range(2, 8);
    for _ in 0..steps {
        if c.chance(1, 10) {
            crowd(c, &signed);
            continue;
        }
        let k = c.pick(signed.len());
        match c.pick(11) {
            0 | 1 => {
                c.begin("deliver_intact");
                let i = &signed[k];
                let how = c.pick(4);
                let r = match how {
                    0 => lib("Certificate::from_bytes", || Certificate::from_bytes(&i.full)),
                    1 => lib("Certificate::from_string", || Certificate::from_string(&format!("{} {}", i.m.key.cert_name(), base64::encode(&i.full)))),
                    2 => lib("Certificate::from_string", || Certificate::from_string(&format!("{} {} some comment here\n", i.m.key.cert_name(), base64::encode(&i.full)))),
                    _ => {
                        fs::put("/sim/c.pub", format!("{} {} x@y\n", i.m.key.cert_name(), base64::encode(&i.full)).as_bytes());
                        fs::disk().plan = fs::Plan { chunk: [0usize, 4096, 33][c.pick(3)], eintr_every: c.draw(4), ..Default::default() };
                        let r = lib("Certificate::from_path", || Certificate::from_path("/sim/c.pub"));
                        fs::disk().plan = Default::default();
                        r
                    }
                };
                judge("intact", &signed, &signed[k].full, &r);
                if let Err(e) = r {
                    let i = &signed[k];
                    violate("honest certificate rejected", format!("{e}: {} by {} signature {}", i.m.key.name(), i.m.ca.name(), hex(&i.sig)));
                }
                c.end();
            }
            2 | 3 => {
                c.begin("deliver_damaged");
                let mut b = signed[k].full.clone();
                let other = signed[c.pick(signed.len())].full.clone();
                let times = 1 + c.pick(2);
                for _ in 0..times {
                    let d = damage(c, &mut b, Some(&other));
                    c.fault("channel_damage");
                    ev!("  {d}");
                }
                present(c, "damaged", &signed, &b);
                c.end();
            }
            4 => {
                c.begin("deliver_torn_text");
                let i = &signed[k];
                let mut t = format!("{} {} cmt\n", i.m.key.cert_name(), base64::encode(&i.full)).into_bytes();
                let d = damage(c, &mut t, None);
                c.fault("text_damage");
                let s = String::from_utf8_lossy(&t).into_owned();
                let r = lib("Certificate::from_string", || Certificate::from_string(&s));
                // judge against the bytes the text carries
                let b = s.split_whitespace().nth(1).and_then(|x| base64::decode(x).ok()).unwrap_or_default();
                judge(&format!("text: {d}"), &signed, &b, &r);
                c.end();
            }
            5 | 6 => {
                c.begin("attack_field");
                // change one field, keep everything else including the signature
                let i = &signed[k];
                let mut m = i.m.clone();
                let f = c.pick(13);
                let name = ["serial", "ctype", "key_id", "principals_add", "principals_drop", "valid_before", "valid_after", "crit_drop", "crit_add", "ext_add", "key", "nonce", "reserved"][f];
                match f {
                    0 => m.serial = m.serial.wrapping_add(1 + c.draw(1000)),
                    1 => m.ctype = [3 - m.ctype, 0, 3, 0xffff_ffff][c.pick(4)],
                    2 => m.key_id.push('x'),
                    3 => m.principals.push("root".into()),
                    4 => {
                        m.principals.pop();
                    }
                    5 => m.vb = if m.vb == u64::MAX { 1 } else { u64::MAX },
                    6 => m.va = if m.va == 0 { 1 } else { 0 },
                    7 => {
                        m.crit.pop();
                    }
                    8 => m.crit.push(("force-command".into(), "/bin/sh".into())),
                    9 => m.ext.push(("permit-pty@x".into(), "".into())),
                    10 => m.key = attacker.pk.clone(),
                    11 => m.nonce.push(0),
                    _ => m.reserved.push(0),
                }
                c.stat(&format!("attack.field_{name}"));
                c.shape_add(name);
                let b = m.full(&i.sig);
                present(c, &format!("field {name} changed"), &signed, &b);
                c.end();
            }
            7 => {
                c.begin("attack_resign");
                // the attacker signs a certificate that still names the honest CA
                let mut m = signed[k].m.clone();
                if c.chance(1, 2) {
                    m.principals = vec!["root".into()];
                }
                m.serial ^= c.draw(2);
                let o = gen_sigopt(c);
                let mut p = c.stream();
                let sig = attacker.sign(&m.tbs(), &o, &mut p);
                if norm(&attacker.pk) == norm(&m.ca) {
                    // the "attacker" holds the CA's own key (only possible with the fixed RSA keys): this is genuine
                    signed.push(Issued { tbs: m.tbs(), sig: sig.clone(), full: m.full(&sig), m: m.clone() });
                }
                let sig = match c.pick(3) {
                    0 => sig,
                    1 => {
                        // claim the honest CA's algorithm
                        let mut r = R(&sig, 0);
                        r.string();
                        W::default().str(m.ca.name()).raw(&sig[r.1..]).0
                    }
                    _ => {
                        // nonsense of plausible shape
                        let n = [0usize, 1, 32, 64, 71, 256][c.pick(6)];
                        let body = vec![c.pick(256) as u8; n];
                        W::default().str(m.ca.name()).str(body).raw(&[1, 0, 0, 0, 1]).0
                    }
                };
                c.stat("attack.resigned");
                present(c, "re-signed by another key", &signed, &m.full(&sig));
                c.end();
            }
            10 => {
                c.begin("unknown_type");
                // a CA of a newer or broken make signs a certificate that is neither for users nor for hosts
                let ca = &cas[c.pick(cas.len())];
                let mut m = gen_cert(c, &subs[0].pk, &ca.pk);
                m.ctype = [0u32, 3, 4, 0x101, 0x1_0001, 0x0100_0000, 0x8000_0001, u32::MAX][c.pick(8)];
                let tbs = m.tbs();
                let o = gen_sigopt(c);
                let mut p = c.stream();
                let sig = ca.sign(&tbs, &o, &mut p);
                let full = m.full(&sig);
                c.stat("attack.unknown_type");
                let odd = [Issued { m, tbs, sig, full }];
                present(c, "certificate of an unknown type", &odd, &odd[0].full);
                c.end();
            }
            8 => {
                c.begin("attack_swap_signature");
                let j = c.pick(signed.len());
                let b = signed[k].m.full(&signed[j].sig);
                c.stat("attack.swapped_signature");
                let ok = present(c, "signature of another certificate", &signed, &b);
                let _ = ok;
                c.end();
            }
            _ => {
                c.begin("attack_signature_label");
                // change the label of a genuine signature, or the sk flags/counter
                let i = &signed[k];
                let mut r = R(&i.sig, 0);
                let l = r.string().unwrap();
                let rest = i.sig[r.1..].to_vec();
                let names = ["ssh-ed25519", "ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "ssh-ed25519-cert-v01@openssh.com", "ssh-dss", ""];
                let sig = match c.pick(4) {
                    0 | 1 => W::default().str(names[c.pick(names.len())]).raw(&rest).0,
                    2 => {
                        let mut s = i.sig.clone();
                        let n = s.len();
                        let z = c.pick(5.min(n));
                        s[n - 1 - z] ^= 1 << c.pick(8);
                        s
                    }
                    _ => {
                        let mut s = i.sig.clone();
                        let x = [1u8, 0, 0, 0, 7];
                        s.extend_from_slice(&x);
                        let _ = l;
                        s
                    }
                };
                c.stat("attack.signature_label");
                let b = i.m.full(&sig);
                present(c, "signature re-labelled", &signed, &b);
                c.end();
            }
        }
    }
    // faults stop: every honest certificate still verifies
    for i in &signed {
        match lib("Certificate::from_bytes", || Certificate::from_bytes(&i.full)) {
            Ok(x) => {
                if let Some(d) = cert_diff(&x, &i.m) {
                    violate("accepted certificate reports other fields than were signed", d);
                }
            }
            Err(e) => violate("honest certificate rejected", format!("{e}: {} by {} signature {}", i.m.key.name(), i.m.ca.name(), hex(&i.sig))),
        }
    }
}

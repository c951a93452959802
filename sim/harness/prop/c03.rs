//! C03: signers, an attacker and a verifier exchange armored SSH signatures.
use super::util::*;
use super::Info;
use crate::core::*;
use crate::model::keys::*;
use crate::model::wire::*;
use crate::seam::{fs, sched};
use crate::{ensure, ev};
use sshcerts::ssh::*;

pub const INFO: Info = Info {
    quick_runs: 40000,
    quick_s: 60,
    thorough_runs: 2_000_000,
    rule: "Runs are histories of signers (the library's own and OpenSSH-style reference ones), an attacker who replays, splices, re-labels and re-signs, and a verifier that is given messages, namespaces and expected keys in any combination.",
    real: &["sshcerts::ssh::{signature,pubkey,privkey,reader,writer,keytype}", "ring"],
    stub: &["reference signers and attacker (OpenSSL)", "channel", "disk", "OS randomness"],
    assumptions: &["OpenSSL verifies signatures correctly (independent oracle)"],
};

struct Sig {
    pk: MPub,
    ns: String,
    hash: &'static str,
    msg: Vec<u8>,
    sig: Vec<u8>,
    blob: Vec<u8>,
    text: String,
}

fn gen_ns(c: &mut Ctx) -> String {
    match c.pick(5) {
        0 => "file".into(),
        1 => "git".into(),
        2 => "file@example.com".into(),
        3 => format!("{}x", gen_string(c, 300)),
        _ => gen_token(c, 1, 30),
    }
}
fn gen_msg(c: &mut Ctx) -> Vec<u8> {
    match c.pick(6) {
        0 => b"hello".to_vec(),
        1 => vec![],
        2 => {
            let n = if c.chance(1, 25) { (1 << [16usize, 20, 21, 22][c.pick(4)]) + c.pick(3) - 1 + c.pick(2) * 5000 } else { c.range(0, 100_000) as usize };
            c.stream().bytes(n)
        }
        _ => gen_bytes(c, 4096),
    }
}
fn expected(c: &mut Ctx, m: &MPub) -> Option<PublicKey> {
    match c.pick(5) {
        0 => None,
        1 => Some(lib_pub(c, m)),
        2 => lib("PublicKey::from_bytes", || PublicKey::from_bytes(&m.blob())).ok(),
        3 => {
            fs::put("/sim/id.pub", format!("{}\n", m.line(Some("alice@laptop"))).as_bytes());
            fs::disk().plan = fs::Plan { chunk: [0usize, 17][c.pick(2)], eintr_every: c.draw(4), ..Default::default() };
            let r = lib("PublicKey::from_path", || PublicKey::from_path("/sim/id.pub"));
            fs::disk().plan = Default::default();
            match r {
                Ok(k) => Some(k),
                Err(e) => violate("valid public key rejected", format!("{e}")),
            }
        }
        _ => lib("PublicKey::from_string", || PublicKey::from_string(&m.line(Some("comment")))).ok(),
    }
}
/// Presents `text` for (msg, ns, expected key) and judges the answer against the ledger of everything really signed.
fn present(what: &str, led: &[Sig], text: &str, msg: &[u8], ns: &str, exp: Option<PublicKey>) -> bool {
    let expm = exp.as_ref().and_then(mpub_of);
    let r = lib("SshSignature", || SshSignature::from_armored_string(text).and_then(|s| VerifiedSshSignature::from_ssh_signature(msg, s, ns, exp)));
    match &r {
        Ok(v) => {
            let Some(pk) = mpub_of(&v.signature.pubkey) else { violate("verified signature with an unusable key", what.to_string()) };
            let h = v.signature.hash_algorithm.as_str();
            let tbs = sshsig_signed(ns, h, msg);
            ensure!(verify(&pk, &tbs, &v.signature.signature).is_some(), "signature verified that is none", "{what}: key {} namespace {ns:?} hash {h} message {}", pk.name(), hex(msg));
            ensure!(
                led.iter().any(|l| norm(&l.pk) == norm(&pk) && l.ns == ns && l.hash == h && l.msg == msg),
                "signature verified that nobody made",
                "{what}: key {} namespace {ns:?} hash {h} message {}",
                pk.name(),
                hex(msg)
            );
            if let Some(e) = expm {
                ensure!(norm(&e) == norm(&pk), "signature of another key accepted for the expected key", "{what}");
            }
            ensure!(v.message == msg && v.signature.namespace == ns, "verified signature reports another message or namespace", "{what}");
            // a damaged frame is no signature file either: both markers, the magic and the version this format has
            ensure!(text.contains("-----BEGIN SSH SIGNATURE-----") && text.contains("-----END SSH SIGNATURE-----"), "signature without its markers accepted", "{what}");
            if let Some(b) = unarmor(text) {
                ensure!(b.starts_with(b"SSHSIG\0\0\0\x01"), "signature with another magic or version accepted", "{what}: {}", hex(&b[..b.len().min(10)]));
            }
        }
        Err(_) => (),
    }
    ev!("  {what}: {}", match &r { Ok(_) => "verified".to_string(), Err(e) => format!("rejected ({e})") });
    r.is_ok()
}
fn ref_sign(c: &mut Ctx, k: &MKey, ns: &str, hash: &'static str, msg: &[u8]) -> Sig {
    let mut o = gen_sigopt(c);
    if o.rsa == "ssh-rsa" {
        o.rsa = "rsa-sha2-512";
    }
    let mut p = c.stream();
    let sig = k.sign(&sshsig_signed(ns, hash, msg), &o, &mut p);
    let blob = sshsig_blob(&k.pk, ns, hash, &sig);
    let text = armor("SSH SIGNATURE", &blob, [70usize, 76, 64][c.pick(3)], if c.chance(1, 4) { "\r\n" } else { "\n" });
    Sig { pk: k.pk.clone(), ns: ns.into(), hash, msg: msg.to_vec(), sig, blob, text }
}

/// Several threads sign and verify at the same time.
fn crowd(c: &mut Ctx, signers: &[MKey], led: &mut Vec<Sig>) {
    c.begin("concurrent_signatures");
    let n = 2 + c.pick(3);
    let soft: Vec<&MKey> = signers.iter().filter(|k| !k.pk.name().starts_with("sk-") && !rsa_odd(&k.pk)).collect();
    let l: &[Sig] = led;
    let mut jobs: Vec<Box<dyn FnOnce() -> Option<Sig> + Send>> = vec![];
    for t in 0..n {
        if !soft.is_empty() && c.chance(1, 2) {
            let k = soft[c.pick(soft.len())];
            let (ns, msg) = (gen_ns(c), gen_msg(c));
            let hash = ["sha512", "sha256"][c.pick(2)];
            let pk = lib_priv(k, "t", 7);
            jobs.push(Box::new(move || {
                let h = if hash == "sha512" { None } else { Some(HashAlgorithm::Sha256) };
                let v = match lib("new_with_private_key", || VerifiedSshSignature::new_with_private_key(&msg, &ns, pk, h)) {
                    Ok(v) => v,
                    Err(e) => violate("library cannot sign with a valid key", format!("{e}: {} in thread {t} of {n}", k.pk.name())),
                };
                let text = lib("Display", || format!("{v}"));
                let Some(blob) = unarmor(&text) else { violate("armored signature undecodable", text) };
                ensure!(blob == sshsig_blob(&k.pk, &ns, hash, &v.signature.signature), "armored signature differs from the specification", "{}", hex(&blob));
                ensure!(verify(&k.pk, &sshsig_signed(&ns, hash, &msg), &v.signature.signature).is_some(), "library made an invalid signature", "{} {hash}", k.pk.name());
                ensure!(v.message == msg && v.signature.namespace == ns, "new signature reports another message or namespace", "");
                Some(Sig { pk: k.pk.clone(), ns, hash, msg, sig: v.signature.signature.clone(), blob, text })
            }));
        } else {
            let mut todo = vec![];
            for _ in 0..1 + c.pick(4) {
                let s = &l[c.pick(l.len())];
                let pk = s.pk.clone();
                let e = if c.chance(1, 2) { Some(lib_pub(c, &pk)) } else { None };
                todo.push(match c.pick(4) {
                    0 | 1 => ("intact", s.text.clone(), s.msg.clone(), s.ns.clone(), e, true),
                    2 => ("other message", s.text.clone(), damage_one(c, s.msg.clone()), s.ns.clone(), e, false),
                    _ => {
                        let o = &l[c.pick(l.len())];
                        ("other namespace and message", s.text.clone(), o.msg.clone(), o.ns.clone(), e, false)
                    }
                });
            }
            jobs.push(Box::new(move || {
                for (what, text, msg, ns, e, honest) in todo {
                    let ok = present(what, l, &text, &msg, &ns, e);
                    ensure!(ok || !honest, "genuine signature rejected", "in thread {t} of {n}: namespace {ns:?}");
                }
                None
            }));
        }
    }
    let made = sched::race("signing and verifying", jobs);
    led.extend(made.into_iter().flatten());
    c.end();
}

pub fn run() {
    let c = cx();
    let signers: Vec<MKey> = (0..1 + c.pick(3)).map(|_| gen_key(c, &CA_KK, false)).collect();
    let attacker = gen_key(c, &CA_KK, false);
    let mut led: Vec<Sig> = vec![];
    let n = c.range(1, 3);
    for _ in 0..n {
        let k = c.pick(signers.len());
        let ns = gen_ns(c);
        let mut msg = gen_msg(c);
        if !led.is_empty() && c.chance(1, 3) {
            msg = led[0].msg.clone();
        }
        let hash = ["sha512", "sha256"][c.pick(2)];
        let sk = signers[k].pk.name().starts_with("sk-");
        let e3 = rsa_odd(&signers[k].pk);
        if c.pick(2) == 0 && !sk && !e3 {
            c.begin("sign_with_library");
            let comment = gen_token(c, 0, 12);
            let pk = lib_priv(&signers[k], &comment, 7);
            let h = match (hash, c.pick(2)) {
                ("sha512", 0) => None,
                ("sha512", _) => Some(HashAlgorithm::Sha512),
                _ => Some(HashAlgorithm::Sha256),
            };
            let r = lib("new_with_private_key", || VerifiedSshSignature::new_with_private_key(&msg, &ns, pk, h));
            match r {
                Ok(v) => {
                    let text = if c.pick(2) == 0 { format!("{v}") } else { format!("{}\n", v.signature) };
                    let Some(blob) = unarmor(&text) else { violate("armored signature undecodable", text) };
                    // the armored text is exactly the SSHSIG of these inputs
                    ensure!(blob == sshsig_blob(&signers[k].pk, &ns, hash, &v.signature.signature), "armored signature differs from the specification", "{}", hex(&blob));
                    ensure!(verify(&signers[k].pk, &sshsig_signed(&ns, hash, &msg), &v.signature.signature).is_some(), "library made an invalid signature", "{} {hash}", signers[k].pk.name());
                    ensure!(v.message == msg && v.signature.namespace == ns, "new signature reports another message or namespace", "");
                    ensure!(text.lines().all(|l| l.len() <= 76), "armored line too long for other tools", "{text}");
                    ev!("{} signs {} bytes for namespace {:?} with {hash} in the library", signers[k].pk.name(), msg.len(), ns);
                    led.push(Sig { pk: signers[k].pk.clone(), ns, hash, msg, sig: v.signature.signature.clone(), blob, text });
                }
                Err(e) => violate("library cannot sign with a valid key", format!("{e}: {}", signers[k].pk.name())),
            }
            c.end();
        } else {
            c.begin("sign_openssh_style");
            let s = ref_sign(c, &signers[k], &ns, hash, &msg);
            ev!("{} signs {} bytes for namespace {:?} with {hash}", signers[k].pk.name(), msg.len(), ns);
            led.push(s);
            c.end();
        }
    }
    if c.chance(1, 3) {
        let ns = led[0].ns.clone();
        let m = led[0].msg.clone();
        let s = ref_sign(c, &attacker, &ns, "sha512", &m);
        led.push(s);
    }
    let steps = c.range(2, 8);
    for _ in 0..steps {
        if c.chance(1, 10) {
            crowd(c, &signers, &mut led);
            continue;
        }
        let k = c.pick(led.len());
        match c.pick(9) {
            0 | 1 => {
                c.begin("deliver_intact");
                let pk = led[k].pk.clone();
                let e = expected(c, &pk);
                let l = &led[k];
                if !present("intact", &led, &l.text, &l.msg, &l.ns, e) {
                    violate("genuine signature rejected", format!("{} namespace {:?} {} signature {}", l.pk.name(), l.ns, l.hash, hex(&l.sig)));
                }
                c.end();
            }
            2 => {
                c.begin("replay_other_message");
                let mut m = led[k].msg.clone();
                match c.pick(6) {
                    0 => m.push(0),
                    1 => m = damage_one(c, m),
                    2 => m.clear(),
                    3 => m = if led[k].hash == "sha512" { sha512(&m) } else { sha256(&m) },
                    4 => {
                        m.pop();
                    }
                    _ => m = led[c.pick(led.len())].msg.clone(),
                }
                c.stat("attack.other_message");
                let pk = led[k].pk.clone();
                let e = expected(c, &pk);
                present("other message", &led, &led[k].text, &m, &led[k].ns, e);
                c.end();
            }
            3 => {
                c.begin("replay_other_namespace");
                let l = &led[k];
                let ns2 = match c.pick(7) {
                    0 => format!("{}x", l.ns),
                    1 => String::new(),
                    2 => l.ns.to_uppercase(),
                    3 => led[c.pick(led.len())].ns.clone(),
                    4 => l.ns.chars().take(l.ns.chars().count() / 2).collect(),
                    5 => format!("{} ", l.ns),
                    _ => gen_ns(c),
                };
                c.stat("attack.other_namespace");
                // either only the verifier's expectation differs, or the attacker rewrote the field as well
                let text = if c.pick(2) == 0 { l.text.clone() } else { armor("SSH SIGNATURE", &sshsig_blob(&l.pk, &ns2, l.hash, &l.sig), 70, "\n") };
                let pk = l.pk.clone();
                let e = expected(c, &pk);
                present("other namespace", &led, &text, &led[k].msg, &ns2, e);
                c.end();
            }
            4 => {
                c.begin("attack_field");
                let l = &led[k];
                let (mut pk, mut ns, mut hash, mut sig, mut ver, mut res) = (l.pk.clone(), l.ns.clone(), l.hash.to_string(), l.sig.clone(), 1u32, vec![]);
                let mut magic = *b"SSHSIG";
                let what = match c.pick(10) {
                    9 => {
                        magic = [*b"SSHSIH", *b"sshsig", *b"SSHTIG", [0; 6]][c.pick(4)];
                        "magic"
                    }
                    0 => {
                        pk = attacker.pk.clone();
                        "public key"
                    }
                    1 => {
                        hash = ["sha256", "sha512", "sha1", "SHA512", "", "sha384"][c.pick(6)].into();
                        "hash"
                    }
                    2 => {
                        sig = led[c.pick(led.len())].sig.clone();
                        "signature"
                    }
                    3 => {
                        ver = [0u32, 2, 256, u32::MAX][c.pick(4)];
                        "version"
                    }
                    4 => {
                        res = gen_bytes(c, 40);
                        "reserved"
                    }
                    5 => {
                        // same key material, other FIDO application or none
                        pk = match &pk {
                            MPub::Ed25519 { key, app: Some(_) } if c.pick(2) == 0 => MPub::Ed25519 { key: key.clone(), app: None },
                            p => p.with_app("ssh:other"),
                        };
                        "application"
                    }
                    6 => {
                        let mut r = R(&l.sig, 0);
                        r.string();
                        let names = ["ssh-ed25519", "rsa-sha2-256", "rsa-sha2-512", "ssh-rsa", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "", "ssh-ed25519-cert-v01@openssh.com"];
                        sig = W::default().str(names[c.pick(names.len())]).raw(&l.sig[r.1..]).0;
                        "signature label"
                    }
                    7 => {
                        ns = gen_ns(c);
                        "namespace"
                    }
                    _ => {
                        // flags/counter of an sk signature, or the last bytes of any other
                        let n = sig.len();
                        let z = c.pick(6.min(n));
                        sig[n - 1 - z] ^= 1 << c.pick(8);
                        "signature tail"
                    }
                };
                c.stat(&format!("attack.field_{}", what.replace(' ', "_")));
                let blob = W::default().raw(&magic).u32(ver).str(pk.blob()).str(&ns).str(&res).str(&hash).str(&sig).0;
                let text = armor("SSH SIGNATURE", &blob, 70, "\n");
                let lpk = led[k].pk.clone();
                let e = expected(c, &lpk);
                let vns = if c.pick(2) == 0 { ns } else { led[k].ns.clone() };
                present(&format!("changed {what}"), &led, &text, &led[k].msg, &vns, e);
                c.end();
            }
            5 => {
                c.begin("attack_resign");
                // signed by the attacker, claiming the honest key
                let l = &led[k];
                let mut o = gen_sigopt(c);
                if o.rsa == "ssh-rsa" {
                    o.rsa = "rsa-sha2-256";
                }
                let mut p = c.stream();
                let sig = attacker.sign(&sshsig_signed(&l.ns, l.hash, b"evil"), &o, &mut p);
                let sig = if c.pick(2) == 0 {
                    sig
                } else {
                    let mut r = R(&sig, 0);
                    r.string();
                    W::default().str(l.pk.name()).raw(&sig[r.1..]).0
                };
                c.stat("attack.resigned");
                let blob = sshsig_blob(&l.pk, &l.ns, l.hash, &sig);
                let text = armor("SSH SIGNATURE", &blob, 70, "\n");
                if norm(&attacker.pk) == norm(&l.pk) && verify(&l.pk, &sshsig_signed(&l.ns, l.hash, b"evil"), &sig).is_some() {
                    let x = Sig { pk: l.pk.clone(), ns: l.ns.clone(), hash: l.hash, msg: b"evil".to_vec(), sig, blob, text: text.clone() };
                    led.push(x);
                }
                let pk = led[k].pk.clone();
                let e = expected(c, &pk);
                present("re-signed", &led, &text, b"evil", &led[k].ns, e);
                c.end();
            }
            6 => {
                c.begin("other_expected_key");
                let l = &led[k];
                let other = match c.pick(3) {
                    0 => attacker.pk.clone(),
                    1 => l.pk.with_app("ssh:elsewhere"),
                    _ => led[c.pick(led.len())].pk.clone(),
                };
                let e = lib("PublicKey::from_string", || PublicKey::from_string(&other.line(Some("who")))).ok();
                c.stat("attack.other_expected_key");
                present("other expected key", &led, &l.text, &l.msg, &l.ns, e);
                c.end();
            }
            7 => {
                c.begin("channel_damage");
                let mut b = led[k].blob.clone();
                let o = led[c.pick(led.len())].blob.clone();
                let times = 1 + c.pick(2);
                for _ in 0..times {
                    let d = damage(c, &mut b, Some(&o));
                    c.fault("channel_damage");
                    ev!("  {d}");
                }
                let pk = led[k].pk.clone();
                let e = expected(c, &pk);
                let text = armor("SSH SIGNATURE", &b, 70, "\n");
                present("damaged", &led, &text, &led[k].msg, &led[k].ns, e);
                c.end();
            }
            _ => {
                c.begin("text_damage");
                let mut t = led[k].text.clone().into_bytes();
                let d = damage(c, &mut t, None);
                c.fault("text_damage");
                let pk = led[k].pk.clone();
                let e = expected(c, &pk);
                let s = String::from_utf8_lossy(&t).into_owned();
                present(&format!("text: {d}"), &led, &s, &led[k].msg, &led[k].ns, e);
                c.end();
            }
        }
    }
    for l in &led {
        ensure!(present("at the end", &led, &l.text, &l.msg, &l.ns, None), "genuine signature rejected", "{} namespace {:?} {} signature {}", l.pk.name(), l.ns, l.hash, hex(&l.sig));
    }
    if c.chance(1, 8) {
        let soft: Vec<&MKey> = signers.iter().filter(|k| !k.pk.name().starts_with("sk-") && !rsa_odd(&k.pk)).collect();
        if !soft.is_empty() {
            let a = soft[c.pick(soft.len())].clone();
            broken_signer(c, &a, &attacker);
        }
    }
    // an empty namespace is forbidden: either refused, or the result must survive its own transport
    if c.chance(1, 10) {
        c.begin("empty_namespace");
        let k = ed25519(&c.stream().bytes(32));
        let pk = lib_priv(&k, "", 1);
        if let Ok(v) = lib("new_with_private_key", || VerifiedSshSignature::new_with_private_key(b"m", "", pk, None)) {
            let t = format!("{v}");
            let ok = lib("from_armored_string", || SshSignature::from_armored_string(&t)).is_ok();
            ensure!(ok, "library signature not accepted by its own parser", "empty namespace");
        }
        c.end();
    }
}
/// A private key whose parts do not belong together (a damaged key store, a wrong pairing): signing may fail, but a
/// "verified" signature must be one.
fn broken_signer(c: &mut Ctx, a: &MKey, b: &MKey) {
    c.begin("broken_signer");
    let mut k = lib_priv(a, "x", 7);
    let mut o = b.clone();
    if o.pk.name() != a.pk.name() {
        o = match &a.pk {
            MPub::Rsa { .. } => rsa(c.pick(4)),
            MPub::Ed25519 { .. } => ed25519(&c.stream().bytes(32)),
            MPub::Ecdsa { .. } if a.pk.name().ends_with("256") => ecdsa(256, &mut c.stream(), 0),
            _ => ecdsa(384, &mut c.stream(), 0),
        };
    }
    let what = match c.pick(5) {
        4 => odd_secret(c, &mut k),
        0 => {
            k.pubkey = lib_pub(c, &b.pk);
            "other public key"
        }
        1 => {
            k.pubkey = lib_pub(c, &o.pk);
            "other public key of the same type"
        }
        2 => {
            if let PrivateKeyKind::Rsa(r) = &mut k.kind {
                let f = [&mut r.d, &mut r.p, &mut r.q, &mut r.coefficient][c.pick(4)].as_mut_slice();
                let i = c.pick(f.len());
                f[i] ^= 1 << c.pick(8);
            }
            "damaged private part"
        }
        _ => {
            k.kind = lib_priv(&o, "y", 8).kind.clone();
            "other private key"
        }
    };
    c.fault("broken_signer");
    let msg = gen_msg(c);
    let pk = k.pubkey.clone();
    let r = lib("new_with_private_key", || VerifiedSshSignature::new_with_private_key(&msg, "file", k, None));
    ev!("  {what}: {}", if r.is_ok() { "signed" } else { "refused" });
    if let Ok(v) = r {
        let m = mpub_of(&v.signature.pubkey).unwrap_or_else(|| violate("signature verified that is none", what.into()));
        ensure!(verify(&m, &sshsig_signed("file", "sha512", &msg), &v.signature.signature).is_some(), "signature verified that is none", "{what}: key {}", m.name());
        ensure!(v.signature.pubkey.kind == pk.kind && v.message == msg, "signature for another key or message", "{what}");
    }
    c.end();
}
fn damage_one(c: &mut Ctx, mut m: Vec<u8>) -> Vec<u8> {
    if m.is_empty() {
        return vec![c.pick(256) as u8];
    }
    let i = c.pick(m.len());
    m[i] ^= 1 << c.pick(8);
    m
}

#!/usr/bin/env python3
import json,sys
claimed=sys.argv[1:]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation with fault injection"
NOTE={
'C01':"Seeded exploration of issuance histories with faulty local, remote and racing signers; every accepted certificate is decoded by an independent codec and its signature checked with OpenSSL. Sampling, not proof; trusts OpenSSL as oracle.",
'C02':"Seeded exploration of hostile channels between reference CAs and the real parser; acceptance is only allowed for bytes a simulated CA signed. Sampling; trusts OpenSSL.",
'C03':"Seeded exploration of signer/attacker/verifier histories; ground truth is the simulator's record of who signed what. Sampling; trusts OpenSSL.",
'C04':"Seeded exploration of writers and disks that short-write, fail, tear and crash, with recovery through the real loader against the recorded key. Sampling; file system semantics are the simulator's.",
'C05':"Seeded exploration of files and read faults below File::open/read; result must equal an independent parse of the whole file or be an error. Sampling.",
'C06':"Seeded exploration of call histories, threads, forks, clocks and random-source failures with getrandom simulated; outputs are traced to the bytes the simulated OS served. Sampling; assumes the OS source itself is good.",
'C07':"Seeded exploration of lifetimes, clones, threads and unwinding with every heap block that held a secret watched until it is freed. Covers the buffers the public types expose; compiler temporaries on the stack are outside.",
'C08':"Seeded exploration of rebuild histories across threads and processes with different hash seeds, compared byte for byte with an independent encoder. Sampling.",
'C09':"Real sshcerts and yubikey crates over a simulated PC/SC stack and PIV applet with injected faults at every APDU. Sampling; the applet model implements the commands used.",
'C10':"As C09, with device state compared with a reference model after every operation. Sampling.",
'C11':"Real sshcerts and authenticator crates over a simulated HID stack under a deterministic thread scheduler with simulated time. Sampling of schedules and faults.",
'C12':"As C11 for key generation. Sampling of schedules and faults.",
'C13':"Seeded enrolment histories with a minted attestation PKI and attacker operations; ground truth is the simulator's record. Sampling; trusts OpenSSL.",
'C14':"Seeded enrolment histories with a minted PIV PKI and attacker operations; ground truth is the simulator's record. Sampling; trusts OpenSSL.",
'C15':"Seeded exploration of zones, clocks, zone changes and stamps against an independent civil-time model. Sampling; POSIX TZ rules and system zone files.",
'C16':"The fido-support build: real sshcerts, ctap-hid-fido2 and hidapi (with its C library) over simulated udev, sysfs, hidraw and security keys with simulated time. Sampling; devices answer well-formed messages, as the upstream crate panics otherwise.",
}
m={"version":1,"setup_cmd":"bash build.sh mozilla && bash build.sh ctap2","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":T,"level":"exploration","level_note":NOTE[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":"check under construction"})
m["notes"]="No hooks in /repo: every seam is interposed below the crate (libc, PC/SC, HID, allocator, threads), so the shipped code runs unmodified. Known findings and repaired defects: KNOWN_FINDINGS.txt."
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import subprocess

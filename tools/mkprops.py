import json
P=[]
OVER={k:v.split() for k,v in {"C01":"schedules inputs fault_sequences","C02":"histories inputs fault_sequences","C03":"histories inputs fault_sequences","C04":"crash_points fault_sequences inputs","C05":"fault_sequences schedules inputs","C06":"fault_sequences histories schedules","C07":"histories schedules fault_sequences","C08":"crash_points schedules inputs","C09":"histories fault_sequences configurations","C10":"histories fault_sequences configurations","C11":"schedules fault_sequences configurations","C12":"schedules fault_sequences configurations","C13":"histories fault_sequences inputs","C14":"histories fault_sequences inputs","C15":"configurations histories inputs","C16":"configurations histories fault_sequences"}.items()}
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state:a["state"]=state
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":OVER[id],"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Issued certificates are exactly what was requested, whatever the signer does",
"When Certificate::builder + setters + sign (or tbs_certificate + add_signature with a remote signer) returns Ok, the serialized certificate, after travelling as text, bytes or a file, is accepted by every verifier and carries exactly the requested key, CA, type, serial, key id, principals (in order), validity, critical options and extensions, with a signature that verifies under the CA key over exactly those fields. When the signer refuses, dies, answers late with another request's signature, signs with another key or over other bytes, or corrupts its answer, the call returns Err and no certificate exists; a healthy signer holding any valid supported CA key always succeeds.",
["schedules of concurrent requests to a remote signer","signer and channel faults","certificate contents","CA and subject key types"],
"for every interleaving of issuance requests and (possibly faulty) signer replies, and every request content",
"tests issue a few fixed certificates with a healthy in-process signer; they never interleave requests, misroute or corrupt a signer's reply, or reach boundary field sizes, leading-zero scalars and short r/s values",
["src/ssh/cert.rs","src/ssh/writer.rs","src/ssh/privkey.rs","src/ssh/signature.rs","src/utils.rs"],
"builder/tbs_certificate/add_signature encode the request and self-verify the signer's reply before a Certificate is returned")
p("C02","A verifier never accepts a certificate its CA did not sign, nor alters one",
"Certificate::from_string/from_bytes return Ok only if the bytes up to the signature were signed by the embedded CA key, and then every field equals what those signed bytes encode; every certificate honestly issued by a standard OpenSSH-style CA (all supported CA and subject key types, user and host, any options) is accepted with exactly its fields. Whatever a channel or disk does in between (flip, truncate, extend, splice two certificates, re-sign with another key, swap signatures, change labels), the result is Err or the unaltered certificate, and never a panic.",
["channel and storage corruption","adversarial splicing histories across certificates and CAs","certificate contents"],
"for every history of issued certificates and every tampering of what is delivered",
"tests hold a handful of good and bad files; tampering positions, cross-certificate splices and key-type combinations are unbounded",
["src/ssh/cert.rs","src/ssh/signature.rs","src/ssh/reader.rs","src/ssh/pubkey.rs","src/ssh/keytype.rs"],
"from_bytes re-reads the signed prefix and verify_signature checks it under the embedded signature_key before the struct is built")
p("C03","A detached SSH signature verifies only for its signer, namespace and message",
"VerifiedSshSignature::from_ssh_signature returns Ok only if the private key for the (embedded and, when given, expected) public key really signed exactly this message under exactly this namespace with the declared hash; signatures made by new_with_private_key or by an OpenSSH-style signer (ed25519, ecdsa, rsa, and sk keys) are accepted after any transport that delivers them intact, including when the expected key was loaded from a .pub file with a comment. Replays across messages, namespaces, hash algorithms, keys, and any corruption or splice in transit give Err, never Ok and never a panic.",
["interleavings of signers, messages and namespaces on a faulty channel","corruption, replay and splicing"],
"for every history of signatures exchanged between parties and every delivery fault",
"tests check fixed signature files; cross-party replays and in-transit faults form an unbounded space",
["src/ssh/signature.rs","src/ssh/privkey.rs","src/ssh/pubkey.rs"],
"to_signed_format binds namespace, hash and message digest; verify_signature checks it under the key")
p("C04","An acknowledged key file survives a crash and never reloads as a different key",
"When PrivateKey::write or PublicKey::write returns Ok to a writer that accepted the bytes (in pieces of any size, with interruptions), the stored file reloads, after any crash that keeps durable data, as the same key: same type, public and secret material, private-key comment and check value, and it signs for the same public key. If the writer fails, the call returns Err; a torn, truncated or bit-flipped private key file loads as Err or as a key for the same public key, never panics, and never yields a PrivateKey whose public half differs from what was stored; re-saving an unencrypted OpenSSH file reproduces it byte for byte, and what is written is a key file OpenSSH itself can load.",
["short writes, interrupted and failing writes","crash points between write, flush and sync","torn and flipped stored bytes","key types and comments"],
"for every sequence of save/overwrite/crash/reload and every write fault position",
"tests write to a Vec and re-read it; no test has a writer that fails, splits writes, or a crash in between",
["src/ssh/privkey.rs","src/ssh/pubkey.rs","src/ssh/writer.rs","src/ssh/reader.rs"],
"encode() + write!() to an io::Write; from_reader cross-checks check-ints and public key")
p("C05","Loading from disk yields the whole file's contents or an error, never part of it",
"Certificate, PublicKey, PrivateKey (plain or passphrase-protected) and AllowedSigners::from_path return exactly what the complete file encodes - for an allowed-signers file every entry, in order, with its principals, options and key - or Err; an I/O error at any point, a missing file, invalid UTF-8, an interrupted or short read is never turned into Ok with other, fewer or partial contents. A passphrase-protected key loads only with its passphrase, equals its unencrypted twin, and gives Err without it or with a wrong one.",
["read faults (EIO, EINTR, short reads) at every position","file replacement races","file contents and sizes"],
"for every file content, every schedule of reader and replacer, and every read fault",
"tests read small intact files; they never inject an I/O error part way, split reads, replace a file during a load or use files larger than a buffer",
["src/ssh/allowed_signer.rs","src/ssh/cert.rs","src/ssh/pubkey.rs","src/ssh/privkey.rs"],
"File::open + read_to_string then from_string; ? propagates I/O errors")
p("C06","Nonces, default serials and new keys are fresh OS randomness or the call fails",
"Every Certificate::builder call draws a new full-entropy 32-byte nonce and an independent 64-bit default serial from the operating system's random source, and every PrivateKey::new a new full-entropy key and check value; none is ever repeated, shared, truncated or predictable from the clock, from earlier values, from public fields or from a previous process. If the random source fails at any draw, the call returns Err, without a panic and without a certificate or key.",
["random-source failures at every draw","process restarts and clock values","interleavings of issuing threads"],
"for every sequence of issuances and key generations across threads and restarts and every random-source failure point",
"tests run on a healthy random source and cannot see that a value would repeat in another process or after a failure",
["src/ssh/cert.rs","src/ssh/privkey.rs"],
"ring SystemRandom -> getrandom(2)")
p("C07","Private key material is wiped from memory whenever a PrivateKey dies",
"Every heap buffer holding secret material of a PrivateKey (Ed25519 seed, ECDSA scalar, all private RSA components, FIDO key handle and PIN) is overwritten with zeroes before it goes back to the allocator, however the key dies: normal drop, replaced value, clone dropped, consumed by a signing call that succeeds or fails, dropped on another thread, or dropped while unwinding from a panic. Signing with or cloning an Ed25519 or ECDSA key leaves no copy of its secret in memory given back to the allocator either. The surviving clones keep their own material intact and usable.",
["drop orders and points across threads","failing signers and unwinding panics","key kinds"],
"for every life history of a private key and its clones",
"tests cannot observe freed memory, nor every path on which a key dies",
["src/ssh/privkey.rs"],
"Drop for PrivateKey calls zeroize on PrivateKeyKind")
p("C08","Certificate bytes depend only on the certificate, not on process or hash seed",
"tbs_certificate is a function of the certificate's fields alone: clones, other threads, another process or a restarted CA rebuilding the same request obtain identical bytes, however the options were inserted, so that a signature computed in one place is accepted by add_signature in another. Critical options and extensions are written in lexical order of their names, as the OpenSSH certificate specification requires.",
["hash seeds per process and thread","crash/restart between building and attaching the signature","option insertion orders"],
"for every certificate, every hash seed and every point at which the issuing process restarts",
"a test runs under one hash seed in one process and cannot see another process's iteration order",
["src/ssh/writer.rs","src/ssh/cert.rs"],
"write_string_map iterates the option map in sorted order")
p("C09","YubiKey signing returns a signature valid under the slot's key, or an error",
"For every state and fault history of the connected YubiKeys (unplug, reset, slow or failing APDUs, locked PIN, empty slots, several keys), sign_data and ssh_cert_signer return Ok only with a signature that verifies under the public key held in exactly the requested slot of exactly the opened device over exactly the given data with the slot's digest, also when another process replaces the slot's key in between, and otherwise an Err (from sign_data: Unprovisioned for an empty slot, WrongKeyType for another algorithm); they never panic. With a healthy, unlocked device holding an ECC key and its certificate they always succeed, and a certificate signed this way verifies; get_ssh_key_type, configured and ssh_cert_fetch_pubkey report the ECC key of the slot as it is now.",
["device and PC/SC fault sequences","slot contents and algorithms","device sets and orders of operations"],
"for every history of device states, operations and faults",
"there is no hardware in the test suite; nothing there exercises the PIV code at all",
["src/yubikey/piv/management.rs","src/yubikey/piv/ssh.rs","src/utils.rs","src/x509/mod.rs"],
"yubikey crate over PC/SC APDUs; sign_data hashes by slot algorithm; format_signature_for_ssh converts DER")
p("C10","YubiKey management touches only the requested slot and device, or fails",
"provision returns Ok(key) only if the requested slot of that device now holds a freshly generated key of the requested algorithm with the requested PIN and touch policies, the returned SSH key is that key's public half, and its certificate in the slot carries the common name; without a successful unlock it fails, and under every fault every other slot and device stays unchanged. open(serial) and reconnect give a usable handle of that very device or NoSuchYubikey; unlock succeeds only with the right PIN and management key and costs at most one PIN try per call; write_certificate/fetch_certificate/fetch_subject return what was stored; generate_csr returns a request with that common name for the slot's key (if the slot's certificate is its own) that verifies, or Err; none of these panics.",
["device removal, reset and APDU failure at every step","device sets","slots, algorithms and policies"],
"for every operation sequence and every fault position inside it",
"there is no hardware in the test suite; nothing there exercises provisioning",
["src/yubikey/piv/management.rs","src/yubikey/piv/mod.rs","src/yubikey/piv/ssh.rs","src/x509/mod.rs"],
"generate -> self-signed certificate -> read back through the certificate object of the slot")
p("C11","FIDO signing gives a valid sk-signature or None, in bounded time, without panics",
"In the default build (the fido-support-mozilla backend), PrivateKey::sign on an sk key, against any set of security keys and any thread schedule and fault sequence of the HID stack (no device, other devices, unplug, wrong or missing PIN, errors, garbage, delays, a user who never touches), returns Some only with the sk-format encoding of exactly the signature, flags and counter that a security key returned in this call for the SHA-256 of this data, this key's handle and this key's application, so that with an honest security key it verifies for the data under the key's public half; otherwise it returns None. It always returns within the 15 s operation timeout plus a bounded margin of simulated time, never panics, never deadlocks, leaves no thread or device handle behind, and without disturbances spends at most one wrong PIN try per call; a healthy, touched device that holds the credential always yields Some.",
["thread interleavings of the authenticator stack","HID transport faults and timing","device sets and PIN states"],
"for every interleaving of the service threads and every device behaviour",
"no security key exists in CI; the multi-threaded code is not executed by any test",
["src/fido/signing/mozilla.rs","src/utils.rs","src/ssh/privkey.rs"],
"authenticator-rs threads + mpsc channels; result formatted with flags and counter")
p("C12","FIDO key generation yields a freshly attested key or ends in the right error",
"In the default build (the fido-support-mozilla backend), generate_new_ssh_key returns Ok only if a security key whose attestation chains to the vendor root really created, in this call, an Ed25519 credential for this application under a fresh random challenge of this call: private key handle, flags and public key equal the authenticator's attested data, application, comment and PIN equal the arguments, and the attestation in the result (data, signature, certificate, challenge, algorithm) is the one the device returned and verifies. Every other device behaviour, failing random source, failing thread creation or thread schedule gives Err in bounded simulated time without panic, deadlock or threads left behind, PIN conditions are reported as PinRequired, InvalidPin(remaining tries), KeyLocked or KeyBlocked and cost at most one try; a genuine, touched (and if needed unlocked) device always yields Ok with a key that can sign.",
["thread interleavings of the authenticator and status threads","HID transport faults and timing","device sets and PIN states"],
"for every interleaving and every device behaviour",
"no security key exists in CI; the function is not executed by any test",
["src/fido/generate/mozilla.rs","src/fido/generate/mod.rs","src/fido/parsing.rs","src/fido/verification.rs"],
"AuthenticatorService::register with status channel; AuthData::parse; U2FAttestation::verify")
p("C13","A FIDO enrolment accepts only an unaltered attestation for its own challenge",
"Over any enrolment history with replays, splices, corruption, foreign roots and rogue authenticators, fido::verification::verify_auth_data returns Ok only if the attestation certificate was signed by the given root (default: Yubico's), its key signed exactly this authenticator data and this challenge (the 32-byte hash the relying party issued), and then the returned data - RP id hash, flags, counter, AAGUID, credential id, COSE key, firmware, certificate AAGUID, transports and ssh_public_key - are exactly what the authenticator attested, for Ed25519 and ES256 credentials. Every genuine attestation is accepted, whatever the verifier's clock shows, everything else gives Err, and nothing panics.",
["enrolment histories with several servers, challenges, authenticators and roots","delivery faults and tampering"],
"for every history of enrolments and every fault or attack in between",
"tests hold two recorded attestations; histories, tampering positions and authenticator data layouts are unbounded",
["src/fido/verification.rs","src/fido/parsing.rs"],
"verify intermediate under root, verify signature over auth_data||challenge, then AuthData::parse and certificate extension extraction")
p("C14","A PIV attestation is accepted only along its chain and reports the attested key",
"Over any enrolment history with replays, splices, swapped or foreign certificates and corruption, yubikey::verification::verify_certificate_chain returns Ok only if the intermediate is signed by the given root (default: Yubico's) and the client certificate by that intermediate, and then public key, serial, firmware, PIN policy and touch policy are exactly those in the attested certificate. Every genuine chain for a NIST P-256 or P-384 slot key is accepted, whatever the verifier's clock shows, everything else - including an RSA slot key, missing or malformed extensions and an unreadable root - gives Err, and nothing panics. The key that an X.509 certificate, certificate request or bare public key received for enrolment carries is read (sshcerts::x509) as exactly that P-256 or P-384 key, other key types as Err.",
["enrolment histories over several devices, intermediates and roots","delivery faults and tampering"],
"for every history of enrolments and every fault or attack in between",
"tests hold one recorded chain; histories, tampering positions and extension layouts are unbounded",
["src/yubikey/verification.rs","src/x509/mod.rs"],
"verify_signature up the chain, then extension extraction from the client certificate")
p("C15","Allowed-signers validity times mean the right instant in any zone and clock",
"valid-after/valid-before stamps ending in Z denote the same UTC instant whatever the process's time zone, zone changes or clock; stamps without Z denote that wall-clock time in the zone configured when the file is loaded (standard or daylight offset as of that date, not as of now), in 8-, 12- and 14-digit forms. A wall-clock time that does not exist in the zone or is malformed gives Err, an ambiguous one denotes one of its two instants (within the very second of a zone change either offset, or Err, is right), an entry whose interval is empty gives Err, and no zone, clock or stamp makes loading panic.",
["time zones and zone changes","clock values and jumps","stamps around daylight-saving transitions"],
"for every zone history, clock value and stamp",
"tests run in the one time zone and at the one date of the CI machine",
["src/ssh/allowed_signer.rs"],
"parse_timestamp via chrono Local / UTC")
p("C16","The fido-support backend uses the device it is told to and returns only what that device made",
"In a build with feature fido-support (ctap-hid-fido2) instead of the Mozilla backend: list_fido_devices reports exactly the connected FIDO devices with their paths and product strings; device_requires_pin and device_pin_retries report the state of the device at that path or an error; generate_new_ssh_key returns Ok only with an Ed25519 credential that the device at the given path (without one, the first usable device) created in this call for this application under a fresh challenge and attested under the vendor root, with handle, public key, application, PIN, comment, device path and attestation as made and given; PrivateKey::sign on an sk key returns Some only with the sk-format encoding of exactly the signature, all flags and counter which the device at the key's device path (or the first usable one) returned in this call for the SHA-256 of this data and this key's handle and application, else None. No call talks to another device than that one, spends more than one wrong PIN try, leaves a device open or panics on a device that is absent, refuses, fails or is unplugged; a genuine, touched and unlocked device that answers always yields the result.",
["device sets, paths and PIN states","plug, unplug and HID fault sequences","orders of operations"],
"for every history of operations, devices and faults",
"no security key exists in CI, and the feature is not even compiled there",
["src/fido/generate/ctap2_hid.rs","src/fido/signing/ctap2_hid.rs","src/fido/utils/ctap2_hid.rs","src/fido/generate/mod.rs","src/ssh/privkey.rs"],
"ctap-hid-fido2 over hidapi; parameters picked by path; result formatted with flags and counter")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

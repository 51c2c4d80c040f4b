#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Wire reader decodes every SSH primitive exactly or fails without moving",
"Any sequence of primitive reads (uint32, uint64, length-prefixed bytes, UTF-8 string, raw bytes, NUL-terminated string, positive mpint, repositioning) over any byte sequence yields exactly the values the SSH wire format assigns to those bytes and advances exactly past them. A read that the remaining bytes cannot satisfy returns an error, leaves the position where it was, and never panics, also after repositioning past the end. Negative or non-minimally encoded mpints and text that is not UTF-8 are errors, never values; a NUL-terminated string that is not UTF-8 also leaves the position where it was.",
["inputs","histories"],"all buffers over a boundary alphabet and all sequences of reads and repositionings up to the explored depth",
"The reader tests call each primitive a handful of times on well-formed buffers; they never chain a failed read with a later one, reposition past the end, or try every length prefix against every remaining size.",
["src/ssh/reader.rs"],[("Reader::read_*","src/ssh/reader.rs"),("Reader::set_offset/get_offset","src/ssh/reader.rs")],
["return value of each read","get_offset() after each read"],None,[("offset","current read position","src/ssh/reader.rs")])

p("C02","Writer emits the exact wire encoding, and reading inverts writing",
"For any sequence of writes the output is the concatenation, in order, of the SSH encodings of the values written, with exact big-endian lengths, minimal non-negative mpints, string lists and option maps as nested length-prefixed blocks, and option maps in lexical order of their names. Reading the output back with the matching reads returns the values written and ends exactly at the end of the output.",
["inputs","histories"],"all sequences of write operations up to the explored depth over boundary values (empty, 1-byte, sign-bit, leading zero, 127..65536 byte long values, maps of many entries)",
"The writer tests encode a few small constants; list and map length arithmetic, mpint normalisation, and hash-map iteration order are only sampled at one or two points.",
["src/ssh/writer.rs","src/ssh/reader.rs"],[("Writer::write_*","src/ssh/writer.rs"),("write_string_vec/write_string_map length computation","src/ssh/writer.rs")],
["as_bytes()/into_bytes()","Reader over the output"])

p("C03","A certificate is accepted only if its CA signed exactly those bytes",
"Parsing a certificate (from text or bytes) succeeds only if the blob is one complete certificate and its signature is valid, under the CA key embedded in it, over exactly the bytes that precede the signature field. Any change, removal, insertion or reordering of signed bytes, any truncation, any bytes appended after the certificate, a signature by another key or a mismatch between the stated type and the encoded type is rejected, and every correctly signed well-formed certificate of a supported type is accepted.",
["inputs"],"all certificates obtained from canonical ones (every subject key type x CA key type x option/principal shape) by bounded deviations: every bit flip, every truncation, every field omitted/duplicated/swapped/replaced, length prefixes perturbed, signatures transplanted or re-made by another key",
"The repository parses a few dozen fixed certificates and a few corrupted ones; a tampered byte that is not covered, or a signed length computed from the wrong offset, is visible only when every byte position and field is tried.",
["src/ssh/cert.rs","src/ssh/signature.rs","src/ssh/pubkey.rs"],[("Certificate::from_bytes signed range and verify call","src/ssh/cert.rs"),("verify_signature","src/ssh/signature.rs")],
["Certificate::from_bytes","Certificate::from_string","Certificate::from_path"])

p("C04","A parsed certificate reports exactly the fields that were signed",
"For every certificate that is accepted, the reported type, nonce, public key, serial, user/host type, key id, principals (order and duplicates kept), validity bounds, critical options, extensions, CA key, signature and full serialized blob are exactly the values encoded in the signed bytes. No option or principal is dropped, merged, renamed or altered, an option name occurring twice is an error rather than a silent choice, and a certificate whose subject, CA or option encoding is malformed is an error.",
["inputs"],"all certificates with up to hundreds of principals/options, boundary u64 values in serial and validity, every supported subject and CA key type, boundary string contents and lengths, validly signed malformed nested blocks",
"The tests compare fields for a small number of fixture certificates whose fields are ordinary; boundary counts, lengths, values, duplicates and malformed-but-signed nested blocks are never tried.",
["src/ssh/cert.rs","src/ssh/pubkey.rs","src/ssh/keytype.rs","src/ssh/reader.rs"],[("Certificate::from_bytes","src/ssh/cert.rs"),("read_options/read_principals","src/ssh/cert.rs")],
["fields of the returned Certificate","Display of the Certificate (compact form re-parses)"])

p("C05","An issued certificate contains exactly what the builder was told",
"For every sequence of builder calls the to-be-signed bytes are the canonical encoding of the builder's final settings (later calls override or accumulate as documented, options sorted by name), they do not depend on hash-map iteration order or on being computed twice, and signing yields a certificate whose serialization is those bytes plus the signature and re-parses to the same fields. A signer that returns nothing, a signature by another key, over other bytes, or of malformed shape never yields a certificate.",
["histories","inputs","fault_sequences"],"all builder call sequences up to the explored depth over boundary arguments x subject key types x CA key types x hash-map iteration orders x signer answers (correct, none, garbage, other key, other data, bit-flipped)",
"Creation tests build one or two fixed certificates per key type and use cooperating signers; call orders, overriding, accumulation, iteration order and misbehaving signers are not explored.",
["src/ssh/cert.rs","src/ssh/writer.rs","src/ssh/keytype.rs"],[("Certificate builder methods","src/ssh/cert.rs"),("tbs_certificate","src/ssh/cert.rs"),("add_signature / sign","src/ssh/cert.rs")],
["tbs_certificate()","sign()/add_signature() result","Certificate::from_bytes(serialized)"])

p("C06","SSHSIG verification accepts only the right message, namespace and key",
"Verifying a detached SSH signature succeeds if and only if the requested namespace equals the one in the signature byte for byte, the expected public key, when given, is the signing key (comments do not matter), and the signature is valid under that key for exactly that message, namespace and hash algorithm. Parsing rejects a wrong magic, an unsupported version, an empty namespace, an unknown hash algorithm and truncated data, ignores the reserved field, and a verified signature reports the message it was verified against.",
["inputs"],"all (signature, message, namespace, expected key, hash) combinations over a boundary alphabet for each key type, all single-field deviations and bit flips of armored signatures",
"signature.rs and signature-bad.rs verify some tens of fixed files; near-miss namespaces, prefix/suffix messages, keys differing only in one component and every corrupted byte are not covered.",
["src/ssh/signature.rs"],[("VerifiedSshSignature::from_ssh_signature","src/ssh/signature.rs"),("SshSignature::from_armored_string/from_reader","src/ssh/signature.rs"),("to_signed_format","src/ssh/signature.rs")],
["Result of from_armored_string and from_ssh_signature"])

p("C07","Created SSHSIG signatures are standard and survive armoring",
"For every message, non-empty namespace, hash choice and software private key, creating a signature succeeds, follows the SSHSIG layout over the hash of exactly that message, and its armored text has the standard header, footer and line-wrapped base64 and parses back to the same key, namespace, hash algorithm and signature bytes and verifies again. An empty namespace, which no verifier accepts, is refused.",
["inputs"],"all combinations of boundary messages, namespaces, hash algorithms and key types and all armored lengths modulo the line width",
"signature-creation tests create a few signatures with fixed messages; armored lengths at the wrap boundary and unusual namespaces and messages are not explored.",
["src/ssh/signature.rs"],[("VerifiedSshSignature::new_with_private_key","src/ssh/signature.rs"),("Display for SshSignature","src/ssh/signature.rs")],
["Display output","from_armored_string of it","from_ssh_signature of it"])

p("C08","A signature verifies only under the algorithm its key type allows",
"A signature is accepted only when its algorithm label belongs to the verifying key: same family, same curve, security-key labels only for security keys and plain labels only for plain keys, with RSA accepting exactly ssh-rsa, rsa-sha2-256 and rsa-sha2-512, each under its own hash. ECDSA r and s of every valid length verify and over-long, negative or non-minimal ones do not, and for security keys the application, flags and counter are part of what is verified. The rule is the same for certificates and detached signatures.",
["inputs"],"the full matrix of verifying key type x signature label x signature-producing algorithm and hash, r/s encodings of every length, all 256 flag bytes and boundary counters and application strings",
"Each fixture pairs a key with its own label and ordinary r/s lengths; cross pairings, short r/s, and security-key metadata variations are not present.",
["src/ssh/signature.rs","src/ssh/keytype.rs"],[("verify_signature","src/ssh/signature.rs")],
["Certificate::add_signature","Certificate::from_bytes","VerifiedSshSignature::from_ssh_signature"])

p("C09","Public keys round-trip exactly and are never mis-typed",
"Parsing a public key from text or bytes yields exactly its type, components and comment; encoding, printing and writing it and parsing the result gives the same key and the same bytes as a canonical original. A stated type that differs from the encoded type, a curve that does not belong to the type, a certificate name used as a key type, truncated data or data left over after the key is an error, and fingerprints are the unpadded base64 hash of the encoding for each hash kind and the reported size in bits is that of the key.",
["inputs"],"all key types x boundary components (sizes, leading bytes, applications, comments) x every single-field deviation and truncation x all pairs of stated and encoded type names",
"pubkey tests parse one well-formed key per type and check one fingerprint each; cross-type and cross-curve encodings and boundary components are not tried.",
["src/ssh/pubkey.rs","src/ssh/keytype.rs","src/ssh/writer.rs"],[("PublicKey::from_string/from_bytes/from_reader","src/ssh/pubkey.rs"),("PublicKey::encode/Display/write","src/ssh/pubkey.rs"),("KeyType::from_name","src/ssh/keytype.rs")],
["PublicKey fields","encode()","Display","write()","fingerprint_with()","bits()"])

p("C10","Unencrypted private keys re-serialize byte for byte",
"Reading any well-formed unencrypted OpenSSH private key of a supported type (RSA, ECDSA, Ed25519 and the two hardware-backed types) yields exactly its components, and writing it out reproduces the original key file content byte for byte, check value, handle, flags, reserved data, comment and padding included. A key whose two check values differ, whose public part differs from the advertised public key, that announces another number of keys, or that is truncated is rejected.",
["inputs"],"all key types x component sizes x comment lengths (all padding residues) x armor line widths x every single-field deviation and truncation",
"The tests round-trip a few fixture files; other padding residues, reserved data, mismatching public halves and truncations are not explored.",
["src/ssh/privkey.rs","src/ssh/writer.rs"],[("PrivateKey::from_reader/read_private_key","src/ssh/privkey.rs"),("PrivateKey::encode/write","src/ssh/privkey.rs")],
["PrivateKey fields","encode()","write()"])

p("C11","Encrypted private keys open with the right passphrase and only that",
"A private key encrypted with aes256-ctr and bcrypt opens with its passphrase to exactly the key its unencrypted form holds. With any other passphrase, or none, or with an unsupported cipher or kdf, reading returns an error and never a different key, and an unencrypted key opens whether or not a passphrase is supplied.",
["inputs","configurations"],"all key types x salts, round counts and passphrases of boundary lengths x near-miss passphrases x cipher/kdf name combinations x corrupted ciphertext positions",
"privkey_encrypted.rs opens a few files with the right passphrase; near-miss passphrases, salts, rounds and corruptions are not explored.",
["src/ssh/privkey.rs"],[("PrivateKey::from_reader decryption branch","src/ssh/privkey.rs")],
["Result of from_string_with_passphrase"])

p("C12","A software private key's signature always verifies under its public key",
"For every valid software private key that the crypto backend supports, every message and every stream of random bytes, signing either reports failure or returns a signature in SSH form with the label of the key type that verifies under the corresponding public key over exactly that message, and it does succeed when the random source works. A private key with missing, short, oversized or inconsistent components never panics and never yields a signature that verifies under a different message or key.",
["inputs","fault_sequences"],"all key types x boundary messages x enumerated random streams (so that short r and s values occur) x random source failures at every draw x malformed key components",
"Signing tests sign a couple of messages with the system's randomness; rare short r/s values, failing randomness and malformed keys never occur.",
["src/ssh/privkey.rs","src/utils.rs"],[("SSHCertificateSigner for PrivateKey","src/ssh/privkey.rs"),("format_signature_for_ssh","src/utils.rs")],
["sign() result verified by an independent verifier"])

p("C13","No untrusted input makes a parser panic, hang or over-allocate",
"Every public entry point that takes untrusted bytes or text (certificates, public and private keys, signatures, allowed-signers files, X.509 certificates and requests, DER keys and signatures, PIV and FIDO attestations, authenticator data) returns a value or an error for every input. It never panics, overflows, loops forever, or allocates memory out of proportion to the input (the key-derivation work that an encrypted private key asks for aside).",
["inputs"],"for every entry point: all inputs up to a small length over a boundary alphabet, and all truncations, byte substitutions, length-field perturbations and pairs of them of valid inputs",
"A panic needs one specific malformed input; cert-offensive.rs holds a few such inputs and the other entry points have none.",
["src/ssh","src/utils.rs","src/x509/mod.rs","src/yubikey/verification.rs","src/fido"],[("Reader bounds checks","src/ssh/reader.rs"),("asn_der_to_r_s","src/utils.rs"),("AuthData::parse","src/fido/parsing.rs"),("attestation extension parsing","src/yubikey/verification.rs, src/fido/verification.rs")],
["return of every parsing entry point under panic, time and allocation monitors"])

p("C14","Allowed-signers lines mean exactly what their grammar says",
"An allowed-signers line is accepted exactly when it is principals, then options (cert-authority, namespaces, valid-after, valid-before; case-insensitive names, optional quotes around values, each at most once where it takes a value), then a key type and key, then nothing but an optional comment, and the result reports exactly those principals, options and key. Unbalanced or misplaced quotes, empty principals, duplicate options, bad values, valid-before not later than valid-after and trailing data are errors, and a file is the list of its non-blank non-comment lines in order, failing if any line fails.",
["inputs"],"all token sequences up to the explored length over an alphabet of separators, quotes, comment marks, principals, options in good and bad form, and keys; all small files of such lines",
"The tests hold a few dozen hand-written lines; combinations of quoting, spacing, comments and option order are a product space they only sample.",
["src/ssh/allowed_signer.rs"],[("AllowedSigner::from_string","src/ssh/allowed_signer.rs"),("AllowedSignerSplitter","src/ssh/allowed_signer.rs"),("AllowedSigners::from_string","src/ssh/allowed_signer.rs")],
["Result of AllowedSigner::from_string and AllowedSigners::from_string"])

p("C15","Allowed-signers timestamps denote the right instant in every time zone",
"A timestamp written YYYYMMDD, YYYYMMDDHHMM or YYYYMMDDHHMMSS, with a trailing Z for UTC and in the system's local time zone without it, yields exactly the Unix time of that civil time, and anything else, including impossible dates, is rejected. A local time that a daylight-saving change repeats yields one of its two instants, one that a change skips is rejected or yields an instant adjacent to the change, and neither ever panics.",
["inputs","configurations"],"all dates in a range including leap rules and month ends, all hour/minute/second boundaries, all near-miss formats, in every one of a set of time zones with and without daylight saving",
"The tests use a handful of dates and whatever time zone the build machine has; daylight-saving gaps and overlaps never occur there.",
["src/ssh/allowed_signer.rs"],[("parse_timestamp","src/ssh/allowed_signer.rs")],
["valid_after / valid_before of parsed lines"])

p("C16","Printing an allowed signer and parsing it back gives the same entry",
"For every allowed-signers entry obtained by parsing, its printed form is a single line that parses back to an equal entry: same principals, flags, namespaces, validity instants (in the years 0000 to 9999 UTC, which the format can write) and key.",
["inputs","configurations"],"all entries over an alphabet of principals and namespaces (with spaces and comment marks where quoting allows them), options present or absent, boundary instants, all key types, several time zones",
"No test parses a printed entry.",
["src/ssh/allowed_signer.rs"],[("Display for AllowedSigner","src/ssh/allowed_signer.rs")],["to_string() then from_string()"])

p("C17","The SSH key taken from X.509 data is exactly the certified key",
"Extracting an SSH public key from an X.509 certificate, certificate request or DER public key of a NIST P-256 or P-384 key yields exactly that curve and that public point. Any other key algorithm or curve, and malformed data, is an error, never a key of another type or with other bytes.",
["inputs"],"all combinations of container, curve OID, algorithm OID, point encodings and parameters, with all single deviations of the public key info and all truncations",
"Tests extract keys from a few fixed certificates of the expected kind.",
["src/x509/mod.rs"],[("der_encoding_to_ssh_public_key","src/x509/mod.rs"),("convert_x509_pki_to_pubkey","src/x509/mod.rs")],
["returned PublicKey"])

p("C18","PIV attestation is accepted only with a complete signature chain",
"A PIV attestation is accepted only if the intermediate certificate is signed by the given (or default) root's key and the client certificate is signed by the intermediate's key, each over exactly its to-be-signed bytes, and it then reports exactly the certified public key, firmware version, serial number, PIN policy and touch policy. A missing or malformed attestation extension, a wrong link in the chain, an unusable root and any altered byte of a signed part are errors, never a panic or a default value.",
["inputs","configurations"],"all chains over {root, intermediate, client} x {right, wrong, self-signed, swapped} signers and key types, all extension presence/shape/value combinations over boundary values, every byte of a genuine chain altered",
"yubikey-lite.rs verifies two fixed chains and a couple of mismatches.",
["src/yubikey/verification.rs"],[("verify_certificate_chain","src/yubikey/verification.rs"),("extract_certificate_extension_data","src/yubikey/verification.rs")],
["Result of verify_certificate_chain"])

p("C19","FIDO attestation binds key and challenge, reporting exact authenticator data",
"A FIDO attestation is accepted only if the attestation certificate is signed by the given (or default) root and its key signed exactly the authenticator data followed by the challenge, and it then reports exactly the relying-party hash, flags, counter, AAGUID, credential id, credential public key, firmware, device AAGUID and transports encoded in them. The derived SSH key is the security-key type of the credential's algorithm with exactly the credential's public key and the given application; unsupported algorithms, truncated or malformed data and any altered signed byte are errors.",
["inputs"],"all authenticator data over boundary fields, key kinds and CBOR shapes; all chains over right/wrong/swapped signers; all extension combinations; every byte of a genuine attestation altered",
"fido-lite.rs checks a few recorded attestations; only Ed25519 credentials, one certificate shape and a couple of corruptions.",
["src/fido/verification.rs","src/fido/parsing.rs"],[("verify_auth_data","src/fido/verification.rs"),("AuthData::parse","src/fido/parsing.rs"),("AuthData::ssh_public_key","src/fido/parsing.rs")],
["Result of verify_auth_data, AuthData::parse, ssh_public_key"])

p("C20","FIDO enrolment and signing always end with the truthful result",
"Whatever a security key and its driver answer, and in whatever order status messages and results arrive, enrolling a key or signing with one terminates, and returns either the error the device reported or a key that carries the requested application, the device's credential and a freshly drawn challenge over which the attestation verifies. A private key is never returned for an unverified attestation, a device that asks for a PIN nobody supplies ends in an error rather than in waiting, and a signature made by the device is returned in SSH form with the device's flags and counter and verifies under the enrolled key.",
["schedules","fault_sequences"],"all sequences of device answers (status updates, success, each error kind, dropped connection) and all deliveries of status before or after the result, with valid, mismatched and tampered attestations",
"No test can run these functions without hardware; error paths and message orders are untested.",
["src/fido/generate/mozilla.rs","src/fido/signing/mozilla.rs","src/fido/generate/mod.rs"],[("generate_new_ssh_key","src/fido/generate/mozilla.rs"),("sign_with_private_key","src/fido/signing/mozilla.rs")],
["return value and termination of generate_new_ssh_key and PrivateKey::sign"],
"transport registration: lets a harness supply the authenticator transport instead of USB HID")

p("C21","YubiKey PIV operations are truthful under every card answer",
"Against a card that follows the PIV protocol, fetching a key, a certificate, an attestation or a slot's type, signing, provisioning and making a request report exactly what the card holds for the slot asked (a slot whose certificate belongs to its key), and every signature or certificate request returned verifies under that slot's public key over exactly the data given. If any card command is answered with an error code or error status, or a slot is empty, holds another key type or the PIN, management key or serial is wrong, the operation returns an error, never data of another slot, a stale or unverifiable result, or a panic.",
["histories","fault_sequences"],"all operation sequences up to the explored depth over two slots and key types, with a fault injected at every card exchange",
"No test touches a card; the code that talks to one is exercised only by hand.",
["src/yubikey/piv/management.rs","src/yubikey/piv/ssh.rs"],[("Yubikey methods","src/yubikey/piv/management.rs"),("ssh_cert_signer, ssh_cert_fetch_pubkey","src/yubikey/piv/ssh.rs")],
["results of every Yubikey method against a simulated card"])

p("C22","DER ECDSA signatures convert to SSH form without change of value",
"Converting a DER-encoded ECDSA signature yields, in SSH form, exactly the integers r and s it encodes for every length they can take, and anything that is not such a signature is refused rather than mangled. Formatting a signature for a public key wraps it under the label of that key with exactly those values, or exactly the raw signature bytes for the key types that need no conversion.",
["inputs"],"all r and s lengths 1..49 with boundary leading bytes, all truncations, extensions and single-byte changes of the DER framing, all key types",
"Conversion is only exercised through whichever r and s lengths random signatures happen to have.",
["src/utils.rs"],[("asn_der_to_r_s","src/utils.rs"),("signature_convert_asn1_ecdsa_to_ssh","src/utils.rs"),("format_signature_for_ssh","src/utils.rs")],
["returned blobs"])

p("C23","Dropping a private key erases its secret material from memory",
"When a private key value goes out of scope, by whatever path it was created (parsed, decrypted, generated, cloned), every heap block that held its secret components (RSA private exponent, primes and CRT values, ECDSA scalar, Ed25519 seed, hardware key handle and PIN) contains none of that secret when it is released. The same holds for a PIN that is replaced by another; blocks that only the parser used on the way are not the key's.",
["inputs","histories"],"all key types x creation paths x clone/drop orders and setter sequences up to the explored depth",
"No test observes freed memory.",
["src/ssh/privkey.rs"],[("Drop for PrivateKey","src/ssh/privkey.rs"),("Zeroize derives","src/ssh/privkey.rs, src/ssh/keytype.rs")],
["contents of the key's buffers at deallocation, seen by the allocator"])

p("C24","Nonces, serials and new keys come from fresh randomness or not at all",
"Every certificate builder gets a 32-byte nonce and a serial, and every generated key a seed and check value, that are exactly fresh output of the system random source, none of it reused, truncated or shared between fields or between calls. If the random source fails, no certificate builder and no key is produced. A generated key is a valid OpenSSH private key that survives writing and reading and signs verifiably.",
["inputs","fault_sequences"],"enumerated random streams, every random-source failure point, all sequences of builder and key-generation calls up to the explored depth",
"Tests cannot see where random bytes go nor make the source fail.",
["src/ssh/cert.rs","src/ssh/privkey.rs"],[("Certificate::builder","src/ssh/cert.rs"),("PrivateKey::new","src/ssh/privkey.rs")],
["nonce, serial, private key, magic against the recorded random stream"])

p("C25","Results depend only on the arguments, not on earlier calls or threads",
"Every parsing, verifying, encoding, printing and signing call returns the same result whatever calls were made before it in the process, with the same or other arguments, successful or failed, and whatever thread makes it. Nothing that was accepted, rejected, decrypted or signed earlier influences a later answer, and calls never disturb values obtained earlier. (Randomness drawn for nonces, serials and new keys is the one intended difference.)",
["histories","schedules"],"all ordered pairs (and triples within a family) of a catalogue of calls covering every entry point with accepted and rejected near-twin arguments, on one and on two threads, long repetitions, and full passes in every rotation",
"Every test looks at a call on its own; a cache, a static or a thread-local that remembers too much answers the first call correctly and only a later, different one wrongly.",
["src/ssh","src/utils.rs","src/x509/mod.rs","src/yubikey/verification.rs","src/fido"],[("all public entry points (no process-wide state exists today)","src/lib.rs")],
["result of every call, compared with its result in a fresh process"])

p("C26","Readable reports state exactly what certificates and keys contain",
"The readable form of a certificate states its type, public key fingerprint, signing CA, key id, serial, validity (forever exactly when it is unbounded on both sides), every principal, every critical option with its value and every extension by name, none left out, added or altered, with (none) exactly where there are none. The printed form of a private key consists of its public fingerprint and comment and never contains secret material, and type names and short names name exactly the key or certificate type they belong to.",
["inputs"],"all certificates over boundary validity pairs, serials, key ids, principal lists and option maps and every key and CA type; all private key types with boundary comments; every type name",
"display tests compare a few fixed printouts; empty and multiple lists, options with values and the validity corner cases are not combined.",
["src/ssh/cert.rs","src/ssh/privkey.rs","src/ssh/keytype.rs","src/ssh/pubkey.rs"],[("Display for Certificate (alternate form)","src/ssh/cert.rs"),("Display for PrivateKey","src/ssh/privkey.rs"),("KeyType::from_name","src/ssh/keytype.rs")],
["{:#} of Certificate","to_string() of PrivateKey","KeyType fields"])

p("C27","The direct HID security-key backend is truthful and frugal with the PIN",
"With the direct HID backend (feature fido-support), enrolling a key returns one that is exactly what the device made: its kind (Ed25519 or ECDSA), public key, credential handle, flag byte and the requested application, together with the PIN and device path given and a verified attestation over a freshly drawn challenge. Signing returns a signature carrying the device's own flag byte and counter which verifies under the enrolled key, listing and the PIN queries report what the attached devices say, and only the device chosen by path (otherwise the first FIDO device) is spoken to. A PIN is sent at most once per call and only if the caller or the key supplied one, and any failed transfer, error status, removed device or failing random source ends in an error or no signature, never a panic, a hang or made-up data.",
["histories","fault_sequences"],"all operation histories up to the explored depth over one and two simulated CTAP2 devices, PIN states and key kinds, with each error status or transfer failure at each exchange",
"No test can reach this code without hardware; nothing in the suite compiles an assertion about it.",
["src/fido/generate/ctap2_hid.rs","src/fido/signing/ctap2_hid.rs","src/fido/utils/ctap2_hid.rs"],[("generate_new_ssh_key","src/fido/generate/ctap2_hid.rs"),("sign_with_private_key","src/fido/signing/ctap2_hid.rs"),("list_fido_devices, device_requires_pin, FidoDevice","src/fido/utils/ctap2_hid.rs")],
["return values of the public fido functions against a simulated device that records every command"],
"attestation root hook: lets a harness trust its own attestation root at enrolment")

p("C28","Loading from a file gives what the file holds",
"Loading a certificate, public key, private key (with or without a passphrase) or allowed-signers list from a path yields exactly what parsing the whole current content of that file as text yields, whatever portions the reads deliver and however often they are interrupted, and whichever way the path names the file. A missing or unreadable file, a directory, content that is not UTF-8 and a read that fails at any point are errors; the result is never made from part of the file, from another file or from what the path held before.",
["fault_sequences","histories"],"every delivery size and every two-part delivery, an interruption or failure at every read, all histories of replaced, removed and spoilt files up to the explored depth",
"Tests read intact fixture files once; a partial or failing read and a replaced file never happen there.",
["src/ssh/cert.rs","src/ssh/pubkey.rs","src/ssh/privkey.rs","src/ssh/allowed_signer.rs"],[("Certificate::from_path","src/ssh/cert.rs"),("PublicKey::from_path","src/ssh/pubkey.rs"),("PrivateKey::from_path, from_path_with_passphrase","src/ssh/privkey.rs"),("AllowedSigners::from_path","src/ssh/allowed_signer.rs")],
["return values of the from_path functions against those of the from_string functions"])

p("C29","Builds with fewer features answer the same or refuse",
"Whichever optional features are compiled in (none, encrypted private keys, RSA signing, X.509, attestation verification, or several), every call answers exactly as the build with all features does: keys, certificates, signatures and lists are accepted, rejected, reported and printed the same, and what one build issues or signs another accepts. A call that needs a missing feature is refused with an error or no signature, never answered wrongly, ignored or with a panic: an encrypted private key is not opened without encrypted-key support, an RSA key is read and printed but signs nothing without RSA signing, and a security key signs nothing without a FIDO backend.",
["inputs","configurations"],"eight sets of features times every call of a catalogue of genuine and edited inputs (cuts, bits, lengths, tails)",
"The tests run with the default features only; the code behind the other settings is never compiled by them.",
["src/ssh/privkey.rs","src/lib.rs","src/ssh/cert.rs","src/ssh/signature.rs","src/ssh/pubkey.rs","src/x509/mod.rs","src/yubikey/verification.rs","src/fido/verification.rs"],[("PrivateKey::sign, read_private_key, from_reader (cfg branches)","src/ssh/privkey.rs")],
["return values of the same calls in builds with different features"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

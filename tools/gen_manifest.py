#!/usr/bin/env python3
"""Writes MANIFEST.json. A check is listed once harness/src/checks/<id>.rs exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = "explicit-state exploration of the real code: bounded exhaustive enumeration of {}, every observation compared with an independent reference model"
T = {
 "C01": ("all operation sequences over all short byte strings and boundary alphabets", "Every read sequence up to the stated depth on every enumerated buffer is replayed on the real Reader and compared with the model's state (position, value or error)."),
 "C02": ("all write sequences over a value alphabet", "Every write sequence up to the stated depth is replayed on the real Writer, compared byte for byte with the model and read back."),
 "C03": ("certificate shapes, CA kinds and all single edits (and pairs) of signed blobs", "Acceptance compared with a reference verifier (own wire decoder, definition-level RSA, ring as arithmetic oracle for the curves)."),
 "C04": ("field values, option maps, principal lists and all single edits re-signed", "All fields of every accepted certificate compared with the model's decoding of the signed bytes."),
 "C05": ("builder call sequences and signer behaviours", "To-be-signed bytes and the resulting certificate compared with the model for every call sequence up to the stated depth and every modelled signer answer."),
 "C06": ("made signature by asked message, namespace and key, and all single edits of signature blobs", "Parse and verify verdicts compared with a reference SSHSIG verifier."),
 "C07": ("keys, messages, namespaces, hash choices and random streams", "Created signatures decoded and verified by the reference model, armor compared with the standard form."),
 "C08": ("signature label by key type, r and s lengths, security-key fields", "Both entry points (certificate, SSHSIG) compared with the reference verifier."),
}
T.update({
 "C09": ("key values of every type, all single edits and cuts of encodings, type names and text layouts", "Parse, encode, print, write and fingerprint compared with the model."),
 "C10": ("private key files of every type, comment and handle lengths, and all single edits of the file", "Components and re-serialization compared with the model, byte for byte."),
 "C11": ("passphrase pairs, salts, rounds, cipher and kdf names, and damaged files", "Opening compared with a reference decryption."),
 "C12": ("software keys with boundary components, messages, random streams and failure points", "Every signature verified by the reference verifier and by the crate."),
 "C13": ("all short inputs, all token sequences and all single edits, length-field inflations and cuts of valid inputs, per entry point", "Panic, abort, hang and allocation monitors on every call (overflow checks on)."),
 "C14": ("token sequences of allowed-signers lines and files", "Accept/reject and the reported entry compared with a reference parser of the grammar."),
 "C15": ("civil times over calendar and zone boundaries, for a set of time zones", "Instants compared with libc's own zone rules and a reference calendar."),
 "C16": ("allowed-signers entries over an alphabet of principals, namespaces, instants, zones and keys", "Printed, parsed again and compared."),
 "C17": ("X.509 certificates, requests and public keys by algorithm, curve and point, and all single edits", "Compared with a reference DER reading."),
 "C18": ("attestation chains: every combination of root, intermediate, leaf and signature, and all single edits", "Compared with a reference chain verifier."),
 "C19": ("attestation statements and authenticator data: fields, lengths, roots, challenges, and all single edits", "Compared with a reference verifier and decoder."),
 "C20": ("device answers, status-message orders and thread schedules of a simulated authenticator behind the driver interface", "The real enrolment and signing code runs against every enumerated device behaviour."),
 "C21": ("card answers and fault points of a simulated PIV card behind the smart-card interface", "The real YubiKey code runs against a card model; each command of each operation is failed in turn."),
 "C22": ("DER signatures by r and s length and value, and all single edits", "Compared with a reference DER decoding."),
 "C23": ("ways to create, clone, replace and drop a private key, for every key type", "Allocator monitor searches every block released for the secret."),
 "C24": ("call sequences and failure points of the random source", "Every random byte is served and logged by the harness; the values found in builders and keys are traced to it."),
 "C25": ("call histories (ordered pairs, triples, repetitions, rotations, two threads) over a catalogue of calls covering every entry point", "Each history runs in a process of its own; every call's result is compared with the result the same call gives in a fresh process."),
 "C27": ("histories of operations, device answers and fault points of simulated CTAP2 devices behind the HID interface", "The real backend and the HID library run unmodified against a device model that records every command; each exchange of each operation is failed in turn."),
 "C28": ("file contents, delivery sizes, interruptions, failing opens and reads at every point, and histories of changing files", "open and read are interposed in the explorer's process; the result is compared with parsing the content, which C03, C09, C10, C11 and C14 decide."),
 "C29": ("sets of features by calls (genuine and edited inputs of every kind)", "The same calls run in builds of the crate with fewer features; every answer is compared with the full build's, whose answers the other properties decide."),
 "C26": ("certificates over boundary field values and every key and CA type, private keys and type names", "The printed form is compared with what the model says for those fields."),
})
HOOK = None
have = {f[:3].upper() for f in os.listdir(V + "/harness/src/checks") if f[0] == "c" and f[1:3].isdigit()}
have |= {f[:3].upper() for f in os.listdir(V + "/hid/src") if f[0] == "c" and f[1:3].isdigit()}
checks, na = [], []
for i in sorted(T):
    if i in have:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + (REAL.format(T[i][0]) if i != "C29" else REAL.format(T[i][0]).replace("an independent reference model", "the full build")), "level": "model_checking",
            "level_note": T[i][1] + " Holds within the bounds listed in the evidence file; ring/openssl primitives and the harness are trusted."})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash check.sh build", "hooks": {"guard": "cargo feature verif-hooks (off by default)",
     "enable": "harness/Cargo.toml depends on /repo with features = [\"verif-hooks\"], hid/Cargo.toml likewise", "source_commits": ["26367df", "7bc74ad", "b75c6f2"]},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Fixed defects: known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

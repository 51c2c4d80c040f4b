//! The explorer for the backend that talks to FIDO devices over HID itself (feature fido-support),
//! which cannot be compiled together with the default one.
#![allow(dead_code)]
#[path = "../../harness/src/conv.rs"]
mod conv;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/interpose.rs"]
mod interpose;
#[path = "../../harness/src/util.rs"]
mod util;
mod c27;
mod device;

#[global_allocator]
static A: interpose::Mon = interpose::Mon;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (prop, tier, only) = match a.get(1).map(|s| s.as_str()) {
        Some("check") => (a[2].clone(), a.get(3).cloned().unwrap_or_else(|| "quick".into()), None),
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            let g = |k: &str| j[k].as_str().unwrap_or_default().to_string();
            (g("property"), g("tier"), Some((g("group"), j["index"].as_u64().unwrap_or(0) as usize)))
        }
        _ => {
            eprintln!("usage: mch check C27 <quick|thorough> | mch replay <file>");
            std::process::exit(2);
        }
    };
    if prop != "C27" {
        eprintln!("no check {}", prop);
        std::process::exit(2);
    }
    let thorough = tier == "thorough";
    let rc = engine::supervise(&prop, thorough, seed, move |shared| {
        let cx = engine::Cx::new("C27", thorough, seed, shared, only);
        // the driver prints to the standard output
        let out = unsafe { libc::dup(1) };
        let null = unsafe { libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY) };
        unsafe { libc::dup2(null, 1) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c27::run(&cx)));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::dup2(out, 1) };
        if r.is_err() {
            let m = engine::last_panic();
            if !(m.contains("panicked at /repo/src/") || m.contains("IMPL:")) {
                eprintln!("ENGINE ERROR (harness, not the code under test): {}", m);
                return 3;
            }
            cx.fail("setup", 0, "preparing the cases".into(), m);
        }
        cx.finish()
    });
    std::process::exit(rc);
}

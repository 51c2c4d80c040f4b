#![allow(dead_code)]
mod card;
mod checks;
mod conv;
mod engine;
mod interpose;
mod util;

#[global_allocator]
static A: interpose::Mon = interpose::Mon;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (prop, tier, only) = match a.get(1).map(|s| s.as_str()) {
        Some("check") => (a[2].clone(), a.get(3).cloned().unwrap_or_else(|| "quick".into()), None),
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            let g = |k: &str| j[k].as_str().unwrap_or_default().to_string();
            (g("property"), g("tier"), Some((g("group"), j["index"].as_u64().unwrap_or(0) as usize)))
        }
        _ => {
            eprintln!("usage: mc check <ID> <quick|thorough> | mc replay <file>");
            std::process::exit(2);
        }
    };
    let f = match checks::find(&prop) {
        Some(f) => f,
        None => {
            eprintln!("no check {}", prop);
            std::process::exit(2);
        }
    };
    let thorough = tier == "thorough";
    let p2 = prop.clone();
    let rc = engine::supervise(&prop, thorough, seed, move |shared| {
        let cx = engine::Cx::new(&p2, thorough, seed, shared, only);
        // the setup of a check runs the code under test too
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&cx))).is_err() {
            let m = engine::last_panic();
            if !(m.contains("panicked at /repo/src/") || m.contains("IMPL:")) {
                eprintln!("ENGINE ERROR (harness, not the code under test): {}", m);
                return 3;
            }
            cx.fail("setup", 0, "preparing the cases".into(), m);
        }
        cx.finish()
    });
    std::process::exit(rc);
}

use std::collections::HashSet;
use vh::engine::{harness_error, install_panic_hook, Cx};

#[cfg(feature = "md5")]
const BACKEND: &str = "md5";
#[cfg(feature = "openssl")]
const BACKEND: &str = "openssl";

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match arg(&args, "--serve").as_deref() {
        Some("c19") => return vh::p_twin::serve(),
        Some("c21") => return vh::p_leak::serve(),
        Some(x) => harness_error(&format!("unknown mode {x}")),
        None => {}
    }
    if let Some(n) = arg(&args, "--fresh").and_then(|n| n.parse().ok()) {
        // (a moment and a process number that others have as well)
        if let Some(at) = arg(&args, "--moment").and_then(|n| n.parse::<i64>().ok()) {
            vh::clock::stop_everything(at, at % 100_000_000, (at % 30_000) as i32 + 2);
        }
        return vh::p_twin::fresh(n);
    }
    let prop = arg(&args, "--prop").unwrap_or_default();
    let seed = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    let scale = arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let replay = arg(&args, "--replay").map(|f| {
        let t = std::fs::read_to_string(&f).unwrap_or_else(|e| harness_error(&format!("{f}: {e}")));
        let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_else(|e| harness_error(&format!("{f}: {e}")));
        (v["sub"].as_str().unwrap_or_default().to_owned(), v["case"].clone())
    });
    let listed: HashSet<String> = arg(&args, "--known")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(str::to_owned).collect())
        .unwrap_or_default();
    let mut cx = Cx::new(&prop, BACKEND, seed, thorough, replay, listed, scale);
    cx.out = arg(&args, "--out");
    if !vh::run(&cx) {
        harness_error(&format!("unknown property {prop}"));
    }
    cx.finish();
}

mod chain;
mod codec;
mod fam_admin;
mod fam_hooks;
mod fam_isms;
mod fam_mailbox;
mod fam_system;
mod fam_warp;
mod gen;
mod mock;
mod replay;
mod wire;

use gen::G;
use serde_json::json;
use std::io::Write;

fn family(name: &str) -> Option<fn(&G)> {
    Some(match name {
        "process" => fam_mailbox::process,
        "dispatch" => fam_mailbox::dispatch,
        "compose" => fam_hooks::compose,
        "merkle" => fam_hooks::merkle,
        "hroute" => fam_hooks::hroute,
        "hagg" => fam_hooks::hagg,
        "igp" => fam_hooks::igp,
        "gasconf" => fam_hooks::gasconf,
        "fee" => fam_hooks::fee,
        "pausable" => fam_hooks::pausable,
        "multisig" => fam_isms::multisig,
        "iagg" => fam_isms::iagg,
        "iroute" => fam_isms::iroute,
        "announce" => fam_isms::announce,
        "setup" => fam_admin::setup,
        "owner" => fam_admin::owner,
        "routes" => fam_admin::routes,
        "migrate" => fam_admin::migrate,
        "system" => fam_system::system,
        "warp" => fam_warp::warp,
        _ => return None,
    })
}

/// gen FAMILY SEED SCENARIOS FILES OUTPREFIX
fn gen(args: &[String]) {
    let f = family(&args[0]).expect("family");
    let seed: u64 = args[1].parse().unwrap();
    let n: usize = args[2].parse().unwrap();
    let files: usize = args[3].parse().unwrap();
    let ver = gen::code_version();
    let mut out: Vec<_> = (0..files)
        .map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}.{i}.ndjson", args[4])).unwrap()))
        .collect();
    let (mut calls, mut broken) = (0, 0);
    let mut seen = std::collections::BTreeMap::<String, usize>::new();
    for i in 0..n {
        let g = G::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), ver.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&g)));
        if let Err(p) = r {
            broken += 1;
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("scenario {i}: {}", m.unwrap_or_default());
        }
        let (s, k) = g.finish();
        calls += k;
        g.count(&mut seen);
        out[i % files].write_all(s.as_bytes()).unwrap();
        codec::reset();
    }
    println!("{}", json!({"scenarios": n, "calls": calls, "broken": broken, "seen": seen}));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("gen") => gen(&a[1..]),
        Some("replay") => replay::replay(&a[1..]),
        Some("init") => replay::init(&a[1..]),
        _ => {
            eprintln!("usage: hplcheck gen FAMILY SEED SCENARIOS FILES PREFIX");
            std::process::exit(2);
        }
    }
}

#[macro_use]
mod engine;
#[allow(dead_code)]
mod hist;
#[allow(dead_code)]
mod model;
#[allow(dead_code)]
mod props;
#[allow(dead_code)]
mod world;

use engine::{replay, run_prop, Opts};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = None;
    let mut o = Opts {
        root: std::env::var("KH_ROOT").unwrap_or_else(|_| "/verif".into()),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        cases: None,
        verbose: false,
        keep_going: false,
    };
    let mut rep = None;
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => o.tier = it.next().expect("tier"),
            "--seed" => o.seed = it.next().expect("seed").parse().expect("seed"),
            "--cases" => o.cases = Some(it.next().expect("n").parse().expect("n")),
            "--root" => o.root = it.next().expect("root"),
            "--replay" => rep = Some(it.next().expect("file")),
            "--verbose" => o.verbose = true,
            "--keep-going" => o.keep_going = true,
            "--list" => {
                for p in props::all() {
                    println!("{}", p.id);
                }
                return;
            }
            other => id = Some(other.to_string()),
        }
    }
    if let Some(f) = rep {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let pid = v["property"].as_str().expect("property").to_string();
        let p = props::all().into_iter().find(|p| p.id == pid).expect("known property");
        std::process::exit(replay(&p, &o.root, &v));
    }
    let id = id.expect("usage: khcheck <ID> [--tier quick|thorough] [--seed N] [--replay FILE]");
    let p = props::all().into_iter().find(|p| p.id == id).expect("known property id");
    std::process::exit(run_prop(&p, &o));
}

mod engine;
mod exec;
mod judge;
mod model;
mod props;
mod props2;
mod props3;

use engine::{Paths, Session};
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mc <property> <quick|thorough>");
        std::process::exit(2);
    }
    let var = |k: &str, d: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| d.to_string()));
    let verif = std::env::current_dir().unwrap();
    let build = var("VERIF_BUILD", "/verif/.build");
    let opt = |n: &str, b: &str| if build.join(format!("{}.ok", n)).exists() { Some(build.join(n).join("release").join(b)) } else { None };
    let paths = Paths {
        repo: var("VERIF_REPO", "/repo"),
        c8s: build.join("c8s/release/c8s"),
        dev: build.join("c8s/debug/c8s"),
        shim: build.join("shim.so"),
        worker: if std::env::var("VERIF_NO_WORKER").is_ok() { None } else { opt("worker", "c8s-worker") },
        opc: opt("opc", "c8s-opc"),
        scratch: var("VERIF_SCRATCH", "/tmp/c8s-mc"),
        evidence: var("VERIF_EVIDENCE", "/verif/evidence"),
        verif,
    };
    let prop = args[1].as_str();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // known: property=<id> case=<escaped source> -- <what fails>   (fixed entries suppress nothing)
    let known = std::fs::read_to_string(paths.verif.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} case=", prop)).and_then(|r| r.split_once(" -- ")).map(|(a, b)| (a.to_string(), b.to_string())))
        .collect();
    let level = if prop == "C08" { "fault_enumeration" } else { "model_checking" };
    let s = Session::new(paths, prop, &args[2], seed, level, known);
    match prop {
        "C01" => props::c01(&s),
        "C02" => props::c02(&s),
        "C03" => props::c03(&s),
        "C04" => props::c04(&s),
        "C05" => props::c05(&s),
        "C06" => props::c06(&s),
        "C07" => props2::c07(&s),
        "C08" => props2::c08(&s),
        "C09" => props2::c09(&s),
        "C10" => props2::c10(&s),
        "C11" => props2::c11(&s),
        "C12" => props::c12(&s),
        "C13" => props::c13(&s),
        "C14" => props2::c14(&s),
        "C15" => props2::c15(&s),
        "C16" => props2::c16(&s),
        "C17" => props::c17(&s),
        "C18" => props::c18(&s),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    std::process::exit(s.finish());
}

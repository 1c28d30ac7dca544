#![allow(dead_code, unused_imports, unused_macros)]
mod core;
mod exact;
mod gen;
mod p_big;
mod p_det;
mod p_disc;
mod p_geom;
mod p_misc;
mod p_hull;
mod p_seg;
mod p_simp;
mod p_sweep;
mod rng;

use crate::core::*;

fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(p_hull::PROPS.iter());
    v.extend(p_seg::PROPS.iter());
    v.extend(p_sweep::PROPS.iter());
    v.extend(p_simp::PROPS.iter());
    v.extend(p_disc::PROPS.iter());
    v.extend(p_geom::PROPS.iter());
    v.extend(p_det::PROPS.iter());
    v.extend(p_misc::PROPS.iter());
    v.extend(p_big::PROPS.iter());
    v
}

fn main() {
    let mut a = Args {
        prop: String::new(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        only_case: None,
        cases: None,
        out: String::new(),
        worker: false,
        verbose: false,
        verif: std::env::var("LSMON_VERIF").unwrap_or_else(|_| "/verif".into()),
        cpu_limit: 20,
        wall_cap: 0,
        threads: None,
        level_extra: String::new(),
    };
    let mut lite_run = false;
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("argument value");
        match x.as_str() {
            "--prop" => a.prop = val(),
            "--seed" => a.seed = val().parse().expect("seed"),
            "--tier" => a.tier = val(),
            "--only-case" => a.only_case = Some(val().parse().expect("case")),
            "--cases" => a.cases = Some(val().parse().expect("cases")),
            "--out" => a.out = val(),
            "--verif" => a.verif = val(),
            "--cpu-limit" => a.cpu_limit = val().parse().expect("limit"),
            "--wall-cap" => a.wall_cap = val().parse().expect("cap"),
            "--threads" => a.threads = Some(val().parse().expect("threads")),
            "--replay" => {
                let f = val();
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay json");
                a.prop = v["property"].as_str().unwrap().to_string();
                a.seed = v["seed"].as_u64().unwrap();
                a.only_case = v["case"].as_u64();
            }
            "--worker" => a.worker = true,
            "--lite" => lite_run = true,
            "-v" => a.verbose = true,
            "--list" => {
                for p in all() {
                    println!("{}", p.id);
                }
                return;
            }
            _ => {
                eprintln!("unknown argument {x}");
                std::process::exit(2);
            }
        }
    }
    if a.wall_cap == 0 {
        a.wall_cap = if a.tier == "thorough" { 780 } else { 240 };
    }
    let p = match all().into_iter().find(|p| p.id == a.prop) {
        Some(p) => p,
        None => {
            eprintln!("no such property {}", a.prop);
            std::process::exit(2);
        }
    };
    if lite_run {
        std::process::exit(lite(p, &a));
    }
    let rc = if a.worker { worker(p, &a) } else { supervisor(p, &a) };
    std::process::exit(rc);
}

//! command line of the generated verifier binaries
use crate::Contract;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

pub fn main_entry(all: Vec<Contract>) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let names: Vec<String> = arg(&args, "--only").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let sel: Vec<Contract> = all
        .iter()
        .filter(|c| names.is_empty() || names.iter().any(|n| n == c.name))
        .cloned()
        .collect();
    crate::install_hook();
    match cmd.as_str() {
        "list" => {
            for c in &all {
                println!("{}\t{}", c.name, c.target);
            }
        }
        #[cfg(not(feature = "native"))]
        "run" => {
            let th: usize = arg(&args, "--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
            let maxp: u64 = arg(&args, "--max-paths").and_then(|x| x.parse().ok()).unwrap_or(1_000_000);
            let bud: core::primitive::f64 = arg(&args, "--budget").and_then(|x| x.parse().ok()).unwrap_or(300.);
            for c in sel {
                let r = crate::explore(c, th, maxp, bud);
                println!("{}", r.json());
            }
        }
        #[cfg(feature = "native")]
        "run" => {
            let n: u64 = arg(&args, "--samples").and_then(|x| x.parse().ok()).unwrap_or(100);
            let seed: u64 = arg(&args, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let bud: core::primitive::f64 = arg(&args, "--budget").and_then(|x| x.parse().ok()).unwrap_or(60.);
            for c in sel {
                let t = std::time::Instant::now();
                let (mut ran, mut skip, mut checks) = (0u64, 0u64, 0u64);
                let mut fails = vec![];
                for i in 0..n {
                    if t.elapsed().as_secs_f64() > bud {
                        break;
                    }
                    let r = crate::run_once(c, None, seed.wrapping_mul(1_000_003).wrapping_add(i * 7919));
                    if r.skipped {
                        skip += 1;
                        continue;
                    }
                    ran += 1;
                    checks += r.checks;
                    if let Some(f) = r.fails.first() {
                        if fails.len() < 5 {
                            fails.push(format!(
                                "{{\"obligation\":{:?},\"detail\":{:?},\"inputs\":{{{}}}}}",
                                f.name,
                                f.detail,
                                r.inputs.iter().map(|(k, v)| format!("{:?}:{:?}", k, v)).collect::<Vec<_>>().join(",")
                            ));
                        }
                    }
                }
                println!(
                    "{{\"contract\":{:?},\"target\":{:?},\"ran\":{},\"skipped\":{},\"checks\":{},\"failed\":[{}],\"wall_s\":{:.3}}}",
                    c.name, c.target, ran, skip, checks, fails.join(","), t.elapsed().as_secs_f64()
                );
            }
        }
        #[cfg(feature = "native")]
        "replay" => {
            // FILE: lines "<name>\t<value>"
            let file = arg(&args, "--file").expect("--file");
            let txt = std::fs::read_to_string(file).expect("read");
            let mut m = std::collections::HashMap::new();
            for l in txt.lines() {
                if let Some((k, v)) = l.split_once('\t') {
                    if let Ok(v) = v.trim().parse() {
                        m.insert(k.to_string(), v);
                    }
                }
            }
            let mut any = false;
            for c in sel {
                let r = crate::run_once(c, Some(m.clone()), 0);
                for f in &r.fails {
                    any = true;
                    println!("REPRODUCED contract={} obligation={:?} {}", c.name, f.name, f.detail);
                }
                if r.skipped {
                    println!("SKIPPED contract={} (precondition false for machine floats)", c.name);
                }
            }
            std::process::exit(if any { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: list | run | replay");
            std::process::exit(2);
        }
    }
}

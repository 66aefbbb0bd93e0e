#![allow(dead_code)]
//! bvhsim: deterministic simulation of clients of the bvh_anim crate, with fault injection.
mod alloc;
mod disk;
mod doc;
mod driver;
mod io;
#[cfg(feature = "lits")]
mod lits;
mod literals;
mod props;
mod worker;
mod world;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let prop = |i: usize| -> &'static props::Prop {
        match a.get(i).and_then(|id| props::ALL.iter().find(|p| p.id == *id)) {
            Some(p) => p,
            None => {
                eprintln!("no such property");
                std::process::exit(2)
            }
        }
    };
    let trace = a.iter().any(|x| x == "--trace");
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => {
            let p = prop(1);
            let tier = flag("--tier").unwrap_or_else(|| "quick".into());
            let quick = tier != "thorough";
            driver::run(&driver::Opts {
                prop: p,
                seed: flag("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                runs: flag("--runs").and_then(|s| s.parse().ok()).unwrap_or(if quick { p.quick } else { p.thorough }),
                secs: flag("--secs").and_then(|s| s.parse().ok()).unwrap_or(if quick { 150 } else { 700 }),
                tier: if quick { "quick".into() } else { "thorough".into() },
                bins: [flag("--checked").unwrap_or_default(), flag("--plain").unwrap_or_default()],
                verif: flag("--verif").unwrap_or_else(|| "/verif".into()),
            })
        }
        Some("worker") => worker::work(worker::Job {
            prop: prop(1),
            seed: num(2),
            k: num(3),
            runs: num(4),
            secs: num(5),
            slots: a[6].clone(),
            out: a[7].clone(),
            known: a[8].clone(),
        }),
        Some("one") => worker::one(prop(1), num(2), num(3), flag("--spill").as_deref(), trace),
        Some("tape") => {
            let t = driver::parse_tape(&std::fs::read_to_string(&a[2]).unwrap_or_default());
            worker::tape(prop(1), t, flag("--spill").as_deref(), trace)
        }
        Some("history") => worker::history(prop(1), num(2), num(3), num(4)),
        Some("hashes") => worker::hashes(prop(1), num(2), a[3..].iter().filter_map(|x| x.parse().ok()).collect()),
        Some("replay") => driver::replay(&a[1], &[flag("--checked").unwrap_or_default(), flag("--plain").unwrap_or_default()]),
        Some("list") => {
            for p in props::ALL {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("bvhsim run|replay|one|tape|list ...");
            2
        }
    };
    std::process::exit(code);
}

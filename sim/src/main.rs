#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//! Deterministic simulation of the midi2 crate with fault injection. See /verif/DESIGN.md.
mod agg;
mod alone;
mod engine;
mod heap;
mod iters;
mod kinds;
mod link;
mod mem;
mod props;
mod simbuf;
mod source;
mod sx;
mod tape;
mod tx;
mod val;
mod wire;

#[global_allocator]
static A: mem::Capped = mem::Capped;

fn usage() -> ! {
    eprintln!(
        "usage: midi2-sim check <property> [--tier quick|thorough] [--runs N] [--workers N] [--seed N]\n\
         \x20      midi2-sim replay <file>\n\
         \x20      midi2-sim digest <property> --runs N [--seed N] [--workers N]\n\
         \x20      midi2-sim classes <property> --runs N [--seed N]\n\
         \x20      midi2-sim list"
    );
    std::process::exit(3)
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| -> Option<String> {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
    };
    let num = |k: &str| opt(k).map(|v| v.parse::<u64>().unwrap_or_else(|_| usage()));
    let seed = num("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()))
        .unwrap_or(1);
    let tier = opt("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let workers = num("--workers")
        .map(|w| w as usize)
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, 32);
    let find = |id: &str| props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() > 1 => engine::check(find(&a[1]), &tier, seed, workers, num("--runs")),
        Some("replay") if a.len() > 1 => engine::replay(props::PROPS, &a[1]),
        Some("digest") if a.len() > 1 => engine::digest(find(&a[1]), seed, num("--runs").unwrap_or(1000), workers),
        Some("classes") if a.len() > 1 => engine::classes(find(&a[1]), seed, num("--runs").unwrap_or(20000)),
        Some("list") => {
            for p in props::PROPS {
                println!("{} {}", p.id, p.quick_runs);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

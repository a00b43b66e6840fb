mod dd;
#[macro_use]
mod dist;
mod engine;
mod env;
mod lattice;
mod race;
mod refmath;
mod tol;
mod checks;

use engine::*;

#[global_allocator]
static ALLOC: race::Alloc = race::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: vmc <C01..C19> <quick|thorough> [--only KEY] [--stats] | vmc dump-ref <quick|thorough>";
    if a.len() < 3 {
        eprintln!("{}", usage);
        std::process::exit(2);
    }
    let tier = match a[2].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("{}", usage);
            std::process::exit(2);
        }
    };
    let mut only = None;
    let mut stats = false;
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--only" => {
                only = a.get(i + 1).cloned();
                i += 1;
            }
            "--stats" => stats = true,
            _ => {}
        }
        i += 1;
    }
    quiet_panics();
    if a[1] == "dump-ref" {
        checks::dump_ref(tier);
        return;
    }
    if let Some(n) = std::env::var("VMC_ALONE").ok().and_then(|n| n.parse().ok()) {
        println!("{}", checks::c18::alone(tier, n));
        return;
    }
    if let Ok(spec) = std::env::var("VMC_ORDER") {
        checks::c18::ordered(tier, &spec);
        return;
    }
    if a[1] == "C19" {
        if let Some((k, n)) = std::env::var("VMC_SHARD").ok().and_then(|x| x.split_once('/').map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(1)))) {
            checks::c19::child(tier, k, n);
            return;
        }
    }
    let root = root();
    let ctx = Ctx::new(&a[1], tier, only, stats);
    guard_aborts(ctx);
    ctx.guard_constructors();
    let (bounds, exhaustive, assumptions) = match checks::run(ctx) {
        Some(x) => x,
        None => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2);
        }
    };
    let code = ctx.finish(&root, &bounds, exhaustive, &assumptions);
    // Hung workers may still be running; leave without joining them.
    std::process::exit(code);
}

mod alloc;
mod behavior;
mod choice;
#[cfg(feature = "codec")]
mod codec;
mod conv;
mod ctx;
mod dict;
mod driver;
#[cfg(feature = "writers")]
mod e2e;
mod gen;
#[cfg(feature = "ident")]
mod ident;
#[cfg(feature = "mem")]
mod mem;
mod net;
#[cfg(feature = "numbers")]
mod numbers;
mod recv;
#[cfg(feature = "routing")]
mod routing;
mod sched;
#[cfg(feature = "sets")]
mod sets;
#[cfg(feature = "stream")]
mod stream;
#[cfg(feature = "timing")]
mod timing;
mod wire;

use driver::Prop;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

mod props;

fn main() {
    ctx::install_panic_hook();
    // The stack of an ordinary thread, as a task of a runtime has it: input
    // which sends the code deeper than that ends the process.
    let t = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(run)
        .unwrap();
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn run() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let all: Vec<Prop> = props::all();
    let usage = || -> ! {
        eprintln!("usage: rtps-dst check <property> [quick|thorough] | replay <file> | show <property> <index> | prints <property> <n> | list");
        std::process::exit(2)
    };
    if a.is_empty() {
        usage();
    }
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    if a[0] == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    if a.len() < 2 {
        usage();
    }
    if a[0] == "replay" {
        std::process::exit(driver::replay(&all, &a[1]));
    }
    let p = match all.iter().find(|p| p.id == a[1]) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", a[1]);
            std::process::exit(2)
        }
    };
    match a[0].as_str() {
        "check" => {
            let tier = a
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            std::process::exit(driver::check(p, &tier, seed));
        }
        "worker" => driver::worker(p, &a[2..]),
        "one" => driver::one(p, &a[2..]),
        "trace" => driver::trace(p, &a[2..]),
        "shrink" => driver::shrink(p, &a[2..]),
        "show" => driver::show(p, seed, a[2].parse().unwrap()),
        "prints" => driver::prints(p, seed, a[2].parse().unwrap()),
        _ => usage(),
    }
}

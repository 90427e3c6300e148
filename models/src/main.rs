mod cli;
mod fam;
mod psp;
mod reader;
mod srflp;
mod tsptw;

use fam::{Optimum, Relaxes};
use std::marker::PhantomData;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("guard") {
        cli::guard_child(&args[1..]);
    }
    let id = args.get(1).cloned().unwrap_or_default();
    macro_rules! table {
        ($($p:expr),* $(,)?) => {{
            $( let p = $p; if kit::Prop::id(&p) == id { std::process::exit(kit::drive(&p, &args)); } )*
        }};
    }
    table![
        Optimum::<tsptw::T> { id: "C24", quick: 300_000, thorough: 8_000_000, f: PhantomData },
        Optimum::<srflp::S> { id: "C25", quick: 200_000, thorough: 3_000_000, f: PhantomData },
        Optimum::<psp::Q> { id: "C26", quick: 400_000, thorough: 10_000_000, f: PhantomData },
        Relaxes::<tsptw::T> { id: "C27", quick: 200_000, thorough: 5_000_000, f: PhantomData },
        Relaxes::<srflp::S> { id: "C28", quick: 80_000, thorough: 2_000_000, f: PhantomData },
        Relaxes::<psp::Q> { id: "C29", quick: 800_000, thorough: 20_000_000, f: PhantomData },
        cli::Options,
        reader::Reader,
        cli::Runs,
        cli::Guard,
        reader::Heuristics,
    ];
    eprintln!("unknown property {:?}", id);
    std::process::exit(2);
}

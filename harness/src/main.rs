#[macro_use]
mod solve;
mod p_csp;
mod p_dd;
mod p_mem;
mod p_report;
mod p_solver;
mod p_struct;
mod prob;

use p_dd::{AnyOrder, DdProp, Kind};
use p_solver::{Kind as SK, SolverProp};
use p_struct::{FrontierProp, UtilsProp};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.get(1).cloned().unwrap_or_default();
    macro_rules! table {
        ($($p:expr),* $(,)?) => {{
            $( let p = $p; if kit::Prop::id(&p) == id { std::process::exit(kit::drive(&p, &args)); } )*
        }};
    }
    table![
        SolverProp { id: "C01", kind: SK::Optimal { barrier: false }, quick: 400_000, thorough: 12_000_000 },
        SolverProp { id: "C02", kind: SK::Optimal { barrier: true }, quick: 400_000, thorough: 12_000_000 },
        SolverProp { id: "C03", kind: SK::Certificate, quick: 350_000, thorough: 10_000_000 },
        SolverProp { id: "C04", kind: SK::Anytime, quick: 350_000, thorough: 10_000_000 },
        SolverProp { id: "C05", kind: SK::Schedules { barrier: false }, quick: 140_000, thorough: 4_000_000 },
        SolverProp { id: "C06", kind: SK::Schedules { barrier: true }, quick: 140_000, thorough: 4_000_000 },
        SolverProp { id: "C07", kind: SK::Termination, quick: 150_000, thorough: 4_000_000 },
        SolverProp { id: "C08", kind: SK::AnytimeConc, quick: 140_000, thorough: 4_000_000 },
        DdProp { id: "C09", kind: Kind::Relaxed, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C10", kind: Kind::Restricted, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C11", kind: Kind::Exact, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C12", kind: Kind::CutValid, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C13", kind: Kind::CutCover, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C14", kind: Kind::Width, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C15", kind: Kind::Protocol, quick: 800_000, thorough: 24_000_000 },
        DdProp { id: "C16", kind: Kind::Threshold, quick: 1_000_000, thorough: 24_000_000 },
        AnyOrder { id: "C17", quick: 800_000, thorough: 24_000_000 },
        FrontierProp { id: "C18", nodup: false, quick: 1_000_000, thorough: 20_000_000 },
        FrontierProp { id: "C19", nodup: true, quick: 1_000_000, thorough: 20_000_000 },
        UtilsProp { id: "C20", quick: 1_500_000, thorough: 30_000_000 },
        SolverProp { id: "C21", kind: SK::Statistics, quick: 160_000, thorough: 4_000_000 },
        SolverProp { id: "C22", kind: SK::Repeated, quick: 80_000, thorough: 2_000_000 },
        SolverProp { id: "C34", kind: SK::NoRework, quick: 200_000, thorough: 6_000_000 },
        SolverProp { id: "C35", kind: SK::Monotone, quick: 100_000, thorough: 2_000_000 },
        DdProp { id: "C41", kind: Kind::Report, quick: 600_000, thorough: 18_000_000 },
        DdProp { id: "C36", kind: Kind::Choice, quick: 500_000, thorough: 15_000_000 },
        SolverProp { id: "C37", kind: SK::Same, quick: 60_000, thorough: 2_000_000 },
        p_report::Report { id: "C38", quick: 60_000, thorough: 1_500_000 },
        DdProp { id: "C43", kind: Kind::Strength, quick: 400_000, thorough: 12_000_000 },
        p_mem::Memory { id: "C42", quick: 250_000, thorough: 6_000_000 },
        p_csp::Dynamic { id: "C39", equal: false, quick: 500_000, thorough: 10_000_000 },
        p_csp::Dynamic { id: "C40", equal: true, quick: 500_000, thorough: 10_000_000 },
    ];
    eprintln!("unknown property {:?}", id);
    std::process::exit(2);
}

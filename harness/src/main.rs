mod cli;
mod fw;
mod gen;
mod p_cli;
mod p_core;
mod p_gen;
mod p_io;
mod p_lattice;
mod p_regex;
mod p_train;
mod refm;

use fw::PropDef;

fn all() -> Vec<PropDef> {
    let mut v = p_core::props();
    v.extend(p_cli::props());
    v.extend(p_io::props());
    v.extend(p_gen::props());
    v.extend(p_train::props());
    v.extend(p_regex::props());
    v.extend(p_lattice::props());
    v.sort_by_key(|p| p.id);
    v
}

fn find(id: &str) -> Option<PropDef> {
    all().into_iter().find(|p| p.id == id)
}

fn need(id: &str) -> PropDef {
    find(id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn main() {
    fw::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match s(1) {
        "list" => {
            for p in all() {
                println!("{}: {}", p.id, p.subs.iter().map(|s| s.name()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = if s(3).is_empty() { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) } else { s(3).into() };
            fw::run(&need(s(2)), seed, &tier)
        }
        "worker" => fw::worker(&need(s(2)), s(3).parse().unwrap(), s(4), s(5).parse().unwrap(), s(6), s(7), s(8)),
        "probe" => fw::probe(&need(s(2)), s(3), s(4), s(5)),
        "replay" => fw::replay(&find, s(2)),
        _ => {
            eprintln!("usage: tgx list | run ID [tier] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

mod alloc;
mod docs;
mod domains;
mod recorders;
mod multinet;
mod nodes;
mod refs;
mod schema;
mod series;
mod tables;
mod v1;
mod vars;
mod visit;
mod lp;
mod params;
mod pdoc;
mod cli;
mod py;
mod runner;
mod sim;
mod src;

use runner::Prop;
use std::path::PathBuf;

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(alloc::props());
    v.extend(params::props());
    v.extend(domains::props());
    v.extend(recorders::props());
    v.extend(recorders::outdoc::props());
    v.extend(multinet::props());
    v.extend(tables::props());
    v.extend(series::props());
    v.extend(docs::props());
    v.extend(nodes::props());
    v.extend(v1::props());
    v.extend(visit::props());
    v.extend(vars::props());
    v.extend(alloc::ipm_props());
    v.extend(pdoc::props());
    v.extend(py::props());
    v.extend(cli::props());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let props = props();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.arms.iter().map(|a| a.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("run") => runner::run(&props, &root, &a[2], &a[3], a[4].parse().expect("seed")),
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            runner::worker(&props, &a[2], &a[3], n(4), n(5), n(6), n(7), &PathBuf::from(&a[8]));
            0
        }
        Some("schema") => {
            docs::dump();
            0
        }
        Some("replay") => runner::replay(&props, &PathBuf::from(&a[2])),
        _ => {
            eprintln!("usage: pywr-verif list | run <id> <tier> <seed> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

mod engine;
mod model;
mod props;

use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| {
        *props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = find(&args[2]);
            let tier = args.get(3).cloned().unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            engine::supervise(p, &tier, seed)
        }
        Some("worker") => engine::worker(
            find(&args[2]),
            &args[3],
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
            args[6].parse().unwrap(),
            Path::new(&args[7]),
        ),
        Some("case") => {
            let mut it = args[2].split(':');
            let p = find(it.next().unwrap());
            let seed = it.next().unwrap().parse().unwrap();
            let idx = it.next().unwrap().parse().unwrap();
            engine::one_case(p, seed, idx, Path::new(&args[3]))
        }
        Some("replay") => engine::replay(Path::new(&args[2]), &props),
        Some("parse-selector") => {
            props::p15_selector::parse_only(&args[2]);
            0
        }
        Some("assemble") => {
            props::p26_files::assemble_only(&args[2]);
            0
        }
        Some("query") => {
            props::p27_query::query_only();
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

#[macro_use]
mod engine;
mod gen;
mod oracle;
mod props;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some(cmd @ ("check" | "check-inner")) => {
            let id = &args[2];
            let tier = args
                .get(3)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1u64);
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(3);
            };
            if cmd == "check" {
                std::process::exit(engine::supervise(p, &tier, seed));
            }
            std::process::exit(engine::run_check(p, &tier, seed));
        }
        Some("case") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            std::process::exit(engine::one(&props, &args[2], &args[3], seed, args[4].parse().unwrap()));
        }
        Some("replay") => std::process::exit(engine::replay(&props, &args[2])),
        // Runs the operations on one written-down input (of a known finding).
        Some("input") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let path = |key: &str| {
                let line = text.lines().find_map(|l| l.strip_prefix(key)).unwrap();
                kurbo::BezPath::from_svg(line).unwrap()
            };
            let (a, b) = (path("a "), path("b "));
            for op in props::util::OPS {
                for rule in props::util::RULES {
                    linesweeper::binary_op(&a, &b, rule, op).unwrap();
                }
            }
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: lsverif check ID [quick|thorough] | replay FILE | list");
            std::process::exit(3);
        }
    }
}

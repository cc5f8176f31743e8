mod carc;
mod eval;
mod fam_arith;
mod fam_bits;
mod fam_rare;
mod fam_stats;
mod fam_str;
mod fam_cli;
mod fam_const;
mod fam_ctx;
mod fam_eq;
mod fam_prop;
mod fam_quant;
mod fam_res;
mod fam_slice;
mod fam_parse;
mod fam_sort;
mod fam_term;
mod g;
mod libt;
mod prf;
mod props;
mod runner;
mod sexp;
mod step;
mod terms;
mod whole;
mod fam_whole;
mod wild;
mod fam_print;
mod fam_defs;
mod fam_elab;
mod fam_panic;

fn main() {
    carc::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    // the messages of rejected inputs are made with shared terms, as the tool does by default
    if args.iter().skip(1).any(|a| a.contains("C18")) {
        carcara::ast::USE_SHARING_IN_TERM_DISPLAY.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("run") if args.len() >= 3 => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = args.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match props.iter().find(|p| p.id == args[2]) {
                Some(p) if std::env::var(runner::CRUMBS).is_ok() => runner::run(p, &tier, seed),
                Some(p) => runner::supervise(p, &tier, seed),
                None => {
                    println!("ERROR unknown property {}", args[2]);
                    2
                }
            }
        }
        Some("case") if args.len() >= 5 => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match (props.iter().find(|p| p.id == args[2]), args[4].parse()) {
                (Some(p), Ok(i)) => runner::run_one(p, &args[3], seed, i),
                _ => 2,
            }
        }
        Some("replay") if args.len() >= 3 => runner::replay(&props, &args[2]),
        _ => {
            eprintln!("usage: vharness run <ID> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

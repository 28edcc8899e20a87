mod alloc;
mod core;
mod orch;
mod os;
mod props;
mod sched;
mod sys;
mod model;
mod generate;
mod refparse;
mod lay;
mod llvmread;
mod canon;
mod simio;
mod rawsim;
mod exec;
mod client;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn main() {
    // one address layout for every process: restart without randomisation
    unsafe {
        if std::env::var_os("KSIM_FIXED").is_none() {
            if sys::personality(0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap();
                let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("KSIM_FIXED", "1")
                    .env("NO_COLOR", "1").env("LC_ALL", "C").env_remove("CLICOLOR_FORCE").exec();
                eprintln!("restart failed: {e}");
                std::process::exit(2);
            }
        }
    }
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = env_u64("VERIF_SEED", 1);
    let workers = env_u64("KSIM_WORKERS", 8).max(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).expect("property");
            let tier = if args.iter().any(|a| a == "--thorough") { "thorough".to_string() } else { tier };
            let over = args.iter().position(|a| a == "--runs").map(|i| args[i + 1].parse().expect("count"));
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            orch::check(id, tier, seed, over, workers)
        }
        Some("replay") => orch::replay(&args[2]),
        Some("one") => orch::one(&args[2], seed, args[3].parse().unwrap()),
        Some("stress") => orch::stress(&args[2], seed, args[3].parse().unwrap(), args[4].parse().unwrap(), 5),
        Some("list") => {
            for p in props::ALL {
                println!("{} quick {} thorough {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: ksim check ID [--thorough] [--runs N] | replay FILE | one ID IDX | list");
            2
        }
    };
    std::process::exit(code);
}

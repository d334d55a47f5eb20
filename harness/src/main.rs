mod alloc;
mod ctx;
#[cfg(feature = "world")] mod engine;
#[cfg(not(feature = "values"))] #[allow(dead_code)] mod lab;
mod props;
mod sys;
#[cfg(feature = "world")] mod world;

#[global_allocator]
static GLOBAL: alloc::Guarded = alloc::Guarded;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg  = |i: usize| args.get(i).cloned().unwrap_or_default();
    let tier = |s: &str| if s == "thorough" { ctx::Tier::Thorough } else { ctx::Tier::Quick };
    let flag = |name: &str| args.iter().find_map(|a| a.strip_prefix(name).map(|s| s.to_string()));
    let code: i32 = match arg(0).as_str() {
        "worker" => {
            let Some(p) = props::find(&arg(1)) else { std::process::exit(3) };
            let body: fn(&mut ctx::Ctx) = p.body;
            ctx::worker(ctx::WorkerArgs {
                tier: tier(&arg(2)), seed: arg(3).parse().unwrap_or(1), shard: arg(4).parse().unwrap_or(0), nshards: arg(5).parse().unwrap_or(1), budget_s: arg(6).parse().unwrap_or(400),
                only: flag("only=").and_then(|s| s.parse().ok()), describe: flag("describe").is_some(), verify_all: flag("verify").is_some()
            }, body)
        },
        "drive" => {
            let Some(p) = props::find(&arg(1)) else { eprintln!("no such property"); std::process::exit(2) };
            let verif: std::path::PathBuf = arg(2).into();
            let t: String = std::env::var("VERIF_TIER").unwrap_or_default();
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            ctx::drive(&p.meta, tier(&t), seed, &verif, flag("replay=").and_then(|s| s.parse().ok()))
        },
        "list" => { for p in props::ALL { println!("{}", p.meta.id); } 0 },
        _ => { eprintln!("usage: mc drive <property> <verif dir>"); 2 }
    };
    std::process::exit(code);
}

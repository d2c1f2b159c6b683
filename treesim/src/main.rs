mod checks;
mod deep;
mod doc;
mod live;
mod oracle;
mod session;
mod threads;
mod wire;

use simcore::runner;

fn main() {
    runner::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let ctx = runner::Ctx::from_env("tree");
            match checks::spec(&args[2]) {
                Some(s) => runner::supervised(&args[2], &ctx, || runner::check(s, &ctx)),
                None => {
                    eprintln!("unknown property {}", args[2]);
                    3
                }
            }
        }
        Some("replay") => runner::replay_file(&args[2], |p, s| checks::spec(p).and_then(|c| c.scenarios.into_iter().map(|x| x.0).find(|x| x.name() == s))),
        Some("digests") => {
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200);
            let ctx = runner::Ctx::from_env("tree");
            for (sc, _) in checks::spec(&args[2]).expect("property").scenarios {
                for (i, d) in runner::digests(sc.as_ref(), ctx.seed, n, ctx.workers).into_iter().enumerate() {
                    println!("{} {} {:016x}", sc.name(), i, d);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: treesim check <property> | replay <file> | digests <property> [n]");
            3
        }
    };
    std::process::exit(code);
}

mod checks;
mod ident;
mod isles;
mod live;
mod page;
mod server;
mod world;

use simcore::runner;

fn main() {
    runner::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let ctx = runner::Ctx::from_env("live");
            match checks::spec(&args[2]) {
                Some(s) => runner::supervised(&args[2], &ctx, || runner::check(s, &ctx)),
                None => {
                    eprintln!("unknown property {}", args[2]);
                    3
                }
            }
        }
        Some("replay") => runner::replay_file(&args[2], |p, s| checks::spec(p).and_then(|c| c.scenarios.into_iter().map(|x| x.0).find(|x| x.name() == s))),
        Some("digests") => {
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200);
            let ctx = runner::Ctx::from_env("live");
            for (sc, _) in checks::spec(&args[2]).expect("property").scenarios {
                for (i, d) in runner::digests(sc.as_ref(), ctx.seed, n, ctx.workers).into_iter().enumerate() {
                    println!("{} {} {:016x}", sc.name(), i, d);
                }
            }
            0
        }
        Some("trace") => {
            let ctx = runner::Ctx::from_env("live");
            let (name, i): (&str, u64) = (&args[3], args[4].parse().unwrap());
            for (sc, _) in checks::spec(&args[2]).expect("property").scenarios {
                if sc.name() == name {
                    let seed = runner::seed_of(ctx.seed, name, i);
                    let (v, t) = runner::isolated(|| {
                        let mut obs = simcore::Obs { trace_on: true, ..Default::default() };
                        (runner::run_once(sc.as_ref(), &mut simcore::Choices::record(seed), &mut obs).err(), obs.trace)
                    });
                    for l in t {
                        println!("{l}")
                    }
                    println!("{v:?}");
                }
            }
            0
        }
        Some("survey") => {
            // every class of violation of one scenario, with a run that shows it
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(500);
            let ctx = runner::Ctx::from_env("live");
            for (sc, _) in checks::spec(&args[2]).expect("property").scenarios {
                let mut seen = std::collections::BTreeMap::<String, (u64, u64, String)>::new();
                for i in 0..n {
                    let seed = runner::seed_of(ctx.seed, sc.name(), i);
                    let v = runner::isolated(|| runner::run_once(sc.as_ref(), &mut simcore::Choices::record(seed), &mut simcore::Obs::default()).err());
                    if let Some(v) = v {
                        seen.entry(v.class).or_insert((0, i, v.detail)).0 += 1
                    }
                }
                for (c, (k, i, d)) in seen {
                    println!("{} {c}: {k} of {n}, first {i}\n  {d}", sc.name())
                }
            }
            0
        }
        _ => {
            eprintln!("usage: worldb check <property> | replay <file> | digests <property> [n]");
            3
        }
    };
    std::process::exit(code);
}

mod c_args;
mod c_body;
mod c_conc;
mod c_life;
mod c_pool;
mod c_resp;
mod c_robust;
mod c_route;
mod clock;
mod ctx;
mod dynp;
mod gen;
mod lab;
mod net;
mod rng;
mod rt;
mod shapes;
mod slow;
mod status;
mod trip;

use ctx::Ctx;
use std::time::Duration;

#[global_allocator]
static ALLOC: c_life::Counting = c_life::Counting;

type Check = fn(&'static Ctx) -> &'static str;

fn table(id: &str) -> Option<(Check, u64, u64, u64)> {
    // (check, quick seconds, thorough seconds, minimal distinct cases)
    Some(match id {
        "C01" => (c_args::c01 as Check, 20, 240, 200),
        "C02" => (c_args::c02, 20, 240, 200),
        "C03" => (c_args::c03, 20, 240, 200),
        "C07" => (c_args::c07, 20, 240, 200),
        "C04" => (c_body::c04, 20, 300, 100),
        "C09" => (c_body::c09, 20, 240, 50),
        "C19" => (c_body::c19, 20, 180, 100),
        "C22" => (c_body::c22, 20, 240, 200),
        "C05" => (c_resp::c05, 20, 240, 200),
        "C15" => (c_resp::c15, 20, 180, 100),
        "C17" => (c_resp::c17, 20, 180, 200),
        "C06" => (c_route::c06, 20, 300, 200),
        "C21" => (c_route::c21, 20, 240, 200),
        "C08" => (c_robust::c08, 20, 300, 200),
        "C16" => (c_robust::c16, 20, 240, 300),
        "C20" => (c_robust::c20, 20, 240, 8),
        "C10" => (c_conc::c10, 20, 300, 300),
        "C18" => (c_conc::c18, 20, 120, 3),
        "C11" => (c_pool::c11, 20, 240, 20),
        "C12" => (c_pool::c12, 35, 240, 100),
        "C13" => (c_pool::c13, 20, 240, 100),
        "C14" => (c_pool::c14, 20, 300, 20),
        "C23" => (c_life::c23, 35, 240, 60),
        "C24" => (c_life::c24, 20, 180, 40),
        // sanitizer builds only, see sanitize.sh
        "BURST" => (c_conc::burst, 10, 10, 1),
        _ => return None,
    })
}

/// Scenarios with long pauses that run beside the check.
fn lanes(id: &str) -> &'static [slow::Lane] {
    use slow::Lane::*;
    match id {
        "C04" => &[SlowRequest, SlowReader, SlowServer],
        "C09" => &[IdleConn, SlowRequest, Marathon],
        "C10" => &[SlowHandler],
        "C11" => &[IdlePool],
        "C12" => &[IdlePool],
        "C14" => &[LongSuspension, LongConnect],
        "C16" => &[SlowServer],
        "C20" => &[SlowRequest, SlowReader, SlowHandler],
        "C24" => &[PoolDrop],
        _ => &[],
    }
}

fn main() {
    rt::install_panic_monitor();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "child-server" {
        c_robust::child_server(args.get(2).and_then(|n| n.parse().ok()).unwrap_or(32));
    }
    let tier = args.get(2).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_default());
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = tier == "thorough";
    let (check, q, t, min) = match table(&id) {
        Some(x) => x,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    let mut budget = if thorough { t } else { q };
    if let Ok(Ok(b)) = std::env::var("HTMON_BUDGET").map(|b| b.parse::<u64>()) {
        budget = b;
    }
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&id, thorough, seed, Duration::from_secs(budget))));
    // Global watchdog: a run that exceeds every reasonable time ends with what it has found so
    // far; without a finding it is inconclusive, not a verdict. Once there is a finding, nothing
    // is gained by sitting through the timeouts of calls that hang: the run ends a minute later.
    let limit = Duration::from_secs((budget * 2 + 330).min(840));
    let v2 = verif.clone();
    rt::thread(move || {
        let mut found = None;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = ctx.start.elapsed();
            if found.is_none() && ctx.violation_count() > 0 {
                found = Some(now);
            }
            let late = found.map_or(false, |f| now > f + Duration::from_secs(60) && now > ctx.budget);
            if late || now > limit {
                eprintln!("global watchdog: run ended after {:?}", now);
                ctx.inconclusive(format!("the run was cut short after {:?}", now));
                let code = ctx.finish("run cut short by the global watchdog", 0, &v2);
                std::process::exit(if code == 1 { 1 } else { 2 });
            }
        }
    });
    if id == "C18" || id == "BURST" {
        rt::FORMAT_LOGS.store(false, std::sync::atomic::Ordering::Relaxed);
    }
    let pauses = slow::launch(ctx, lanes(&id));
    let rule = check(ctx);
    pauses.finish(ctx);
    lab::report_panics(ctx, "the run");
    if rt::harness_panics() > 0 {
        ctx.inconclusive("harness panic".into());
        let code = ctx.finish(rule, min, &verif);
        std::process::exit(if code == 1 { 1 } else { 2 });
    }
    let code = ctx.finish(rule, min, &verif);
    // Executor threads may still be running; leave without joining them.
    std::process::exit(code);
}

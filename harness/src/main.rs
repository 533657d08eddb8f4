#![recursion_limit = "512"]
#![allow(dead_code)]
mod jwt;
mod mock;
mod props;
mod router;
mod runner;
mod simple;
mod tape;
mod world;

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
}

fn main() {
    // ntex's watchdog signals a worker thread which is stuck; a stuck worker is for the check to report
    // (the request it serves is never answered), not a reason for the process to be killed
    unsafe { signal(12, 1) };
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "list" {
        for p in props::all() {
            println!("{}", p().id);
        }
        return;
    }
    if std::env::var("VERIF_TRACE").is_ok() {
        let _ = tracing_subscriber::fmt().with_max_level(tracing::Level::WARN).with_writer(std::io::stderr).try_init();
    }
    let Some(p) = props::get(&id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    if args.get(2).is_some_and(|a| a == "--shrink") {
        runner::shrink_all(p, &args[3]);
        std::process::exit(0);
    }
    let code = match args.get(2) {
        Some(f) => runner::replay(p, f),
        None => runner::run(p),
    };
    if std::env::var("VERIF_DEBUG").is_ok() {
        for (k, v) in world::REJECTS.lock().unwrap().iter() {
            eprintln!("reject {v}: {k}");
        }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

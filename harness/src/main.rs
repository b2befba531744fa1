mod checks;
mod deser;
mod doc;
mod engine;
mod gen;
mod refimpl;

use engine::*;

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        println!("unknown property {id}");
        std::process::exit(2)
    })
}

static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn tick() {
    TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

extern "C" {
    /// Processor time of this process, in microseconds.
    fn clock() -> i64;
}

/// A case that makes no progress for this much processor time ends the process;
/// when the case does the same on its own it is one that does not end.
/// (The load of the machine makes no difference: time spent waiting does not count.)
fn watchdog(secs: i64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = unsafe { clock() };
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICK.load(std::sync::atomic::Ordering::Relaxed);
            if now != last {
                last = now;
                since = unsafe { clock() };
            } else if unsafe { clock() } - since > secs * 1_000_000 {
                std::process::exit(EXIT_STUCK);
            }
        }
    });
}

/// Runs on a large stack: the reference models recurse as well.
fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(5))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "run" => {
            let env = Env::load();
            let props = checks::all();
            std::process::exit(run(find(&props, &args[2]), &env));
        }
        "worker" => {
            install_panic_hook();
            watchdog(40);
            let id = args[2].clone();
            let shard: u64 = args[3].parse().unwrap();
            big(move || {
                let env = Env::load();
                let props = checks::all();
                worker(find(&props, &id), &env, shard);
            });
        }
        "probe" => {
            // On the main thread, with the stack any program gets
            install_panic_hook();
            watchdog(120);
            let props = checks::all();
            let p = find(&props, &args[2]);
            let p = p.probes.iter().find(|p| p.name == args[3]).unwrap();
            let f = p.f;
            match std::panic::catch_unwind(f) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => {
                    println!("{m}");
                    std::process::exit(1);
                }
                Err(_) => {
                    println!("panic");
                    std::process::exit(1);
                }
            }
        }
        "replay" => {
            install_panic_hook();
            watchdog(40);
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let code = big(move || replay(&text));
            std::process::exit(code);
        }
        "list" => {
            for p in checks::all() {
                println!(
                    "{} {}",
                    p.id,
                    p.subs
                        .iter()
                        .map(|s| format!("{}={}", s.name, s.quick))
                        .collect::<Vec<_>>()
                        .join(" ")
                );
            }
        }
        _ => {
            println!("usage: harness run|worker|probe|replay|list ...");
            std::process::exit(2);
        }
    }
}

fn replay(text: &str) -> i32 {
    let props = checks::all();
    let line = |k: &str| {
        text.lines()
            .take_while(|l| !l.starts_with("message:"))
            .find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_owned()))
    };
    let id = line("property ").expect("property");
    let prop = find(&props, &id);
    if let Some(name) = line("probe ") {
        let exe = std::env::current_exe().unwrap();
        let st = std::process::Command::new(exe)
            .args(["probe", &id, &name])
            .status()
            .unwrap();
        println!("probe {name}: {st}");
        return if st.success() { 0 } else { 1 };
    }
    let sub = line("sub ").expect("sub");
    let s = prop.subs.iter().find(|s| s.name == sub).expect("sub");
    let mut src = match line("seed ") {
        Some(seed) => Src::seeded(seed.parse().unwrap()),
        None => Src::replay(parse_replay(text).unwrap().2),
    };
    let mut cx = Ctx {
        verbose: true,
        ..Ctx::default()
    };
    let out = exec(s.f, &mut src, &mut cx);
    println!("{}", cx.shown);
    match out {
        Outcome::Fail(m) => {
            println!("VIOLATION property={id}\n{m}");
            1
        }
        Outcome::HarnessBug(m) => {
            println!("ERROR {m}");
            3
        }
        _ => {
            println!("holds");
            0
        }
    }
}

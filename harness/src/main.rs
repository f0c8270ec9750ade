//! `vp run <ID> [thorough]`, `vp replay <file>`, and the internal commands the
//! supervisor uses (`worker`, `one`).
mod alloc;
mod campaign;
mod checks;
mod gen;
mod runner;
mod spec;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn find(id: &str) -> runner::Check {
    for f in checks::all() {
        let c = f();
        if c.id == id {
            return c;
        }
    }
    eprintln!("unknown check {id}");
    std::process::exit(2);
}

fn main() {
    runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { runner::Tier::Thorough } else { runner::Tier::Quick };
    if matches!(arg(1), "worker" | "one" | "replay" | "enc-child") {
        runner::silence_stdout();
    }
    // A case runs on a thread with a large stack, also when it is replayed alone.
    let go: Box<dyn FnOnce() -> i32 + Send> = match arg(1) {
        "run" => {
            let (id, t) = (arg(2).to_string(), tier(arg(3)));
            Box::new(move || {
                let c = find(&id);
                let rc = runner::supervise(&c, t, runner::env_seed());
                let n = |k: &str, d| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
                match std::env::var("VP_FUZZ_BIN") {
                    Ok(bin) if rc == 0 && t == runner::Tier::Thorough => campaign::run(&c, &PathBuf::from(bin), runner::env_seed(), n("VP_FUZZ_SECS", 600)),
                    _ => rc,
                }
            })
        }
        "worker" => {
            let (id, t, seed, slots) = (arg(2).to_string(), tier(arg(3)), arg(4).parse().unwrap_or(1), PathBuf::from(arg(5)));
            Box::new(move || runner::worker(&find(&id), t, seed, &slots))
        }
        "one" => {
            let (id, f, cpu) = (arg(2).to_string(), PathBuf::from(arg(3)), arg(4).parse().ok());
            Box::new(move || runner::one(&find(&id), &f, cpu))
        }
        "replay" => {
            let f = PathBuf::from(arg(2));
            Box::new(move || {
                let rf: runner::ReplayFile = serde_json::from_str(&std::fs::read_to_string(&f).expect("read")).expect("parse");
                runner::replay(&find(&rf.property), &f)
            })
        }
        "enc-child" => {
            let par = arg(2) == "par";
            Box::new(move || checks::enc::enc_child(par))
        }
        "vcd-child" => Box::new(checks::vcd::vcd_child),
        "list" => {
            for f in checks::all() {
                println!("{}", f().id);
            }
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: vp run ID [thorough] | vp replay FILE | vp list");
            std::process::exit(2);
        }
    };
    let code = std::thread::Builder::new().stack_size(64 << 20).spawn(go).unwrap().join().unwrap_or(2);
    std::process::exit(code);
}

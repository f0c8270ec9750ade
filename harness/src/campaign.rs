//! The coverage-guided part of a thorough run: fuzz/'s target, one process per core, over the
//! families of one check. Its result goes into the evidence file the random part has written.
use crate::runner::{say_line, verif_dir, Check, ReplayFile};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// Families that judge single cases of moderate size. The others need child processes, or
/// cases so large that a process runs only a few of them a second.
fn suited(check: &Check, cases: u64) -> bool {
    check.id != "C16" && check.id != "C19" && cases >= 40_000
}

struct Job {
    family: String,
    nr: usize,
    dir: PathBuf,
    corpus: PathBuf,
}

fn number_after(text: &str, key: &str) -> u64 {
    text.rfind(key).map(|p| text[p + key.len()..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|n| n.parse().ok()).unwrap_or(0)
}

pub fn run(check: &Check, bin: &Path, seed: u64, secs: u64) -> i32 {
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let base = verif_dir().join("work").join(format!("fuzz-{}-{}", check.id, std::process::id()));
    let fams: Vec<String> = check.families.iter().filter(|f| suited(check, f.cases(crate::runner::Tier::Quick))).map(|f| f.name().to_string()).collect();
    if fams.is_empty() {
        return 0;
    }
    let per = (cores / fams.len()).max(1);
    let mut jobs = Vec::new();
    for f in &fams {
        for nr in 0..per {
            let (dir, corpus) = (base.join(f).join(nr.to_string()), base.join(f).join("corpus"));
            std::fs::create_dir_all(&dir).expect("work directory");
            std::fs::create_dir_all(&corpus).expect("work directory");
            // without a first input of some length, length is the first thing the fuzzer has to discover
            let first: Vec<u8> = (0..600u64).map(|i| (crate::runner::hash64(&[&seed.to_le_bytes(), &i.to_le_bytes(), f.as_bytes()]) >> 11) as u8).collect();
            std::fs::write(corpus.join("first"), first).expect("first input");
            jobs.push(Job { family: f.clone(), nr, dir, corpus });
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..cores {
            s.spawn(|| loop {
                let Some(j) = jobs.get(next.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) else { break };
                let log = j.dir.join("log");
                let out = std::fs::File::create(&log).expect("log");
                let st = Command::new(bin)
                    .current_dir(&j.dir)
                    .env("VPF", format!("{}/{}", check.id, j.family))
                    .args([format!("-max_total_time={secs}"), format!("-seed={}", seed as u32 % 1_000_000 * 16 + j.nr as u32 + 1), "-reload=1".into(), "-max_len=6000".into(), "-timeout=120".into(), "-rss_limit_mb=6000".into(), "-use_value_profile=1".into(), "-artifact_prefix=./".into()])
                    .arg(&j.corpus)
                    .stdout(Stdio::null())
                    .stderr(out)
                    .status();
                let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
                done.lock().unwrap().push((j, st.map(|s| s.code()).unwrap_or(Some(127)), text));
            });
        }
    });
    let mut rc = 0;
    let mut table: Vec<Value> = Vec::new();
    let mut executions = 0;
    for (j, code, text) in done.into_inner().unwrap() {
        let runs = number_after(&text, "Done ").max(number_after(&text, "stat::number_of_executed_units:"));
        executions += runs;
        let corpus = std::fs::read_dir(&j.corpus).map_or(0, |d| d.count());
        table.push(json!({"family": j.family, "process": j.nr, "executions": runs, "edges": number_after(&text, " cov: "), "features": number_after(&text, " ft: "), "corpus": corpus}));
        if code == Some(0) {
            continue;
        }
        if let Some(m) = text.lines().find(|l| l.starts_with("VPERROR ")) {
            eprintln!("error: {}/{}: {m}", check.id, j.family);
            rc = rc.max(2);
            continue;
        }
        let mut case = text.lines().find_map(|l| l.strip_prefix("VPCASE ")).map(String::from);
        if case.is_none() {
            // killed by a signal, a time limit or the memory limit: ask what the input stands for
            let art = std::fs::read_dir(&j.dir).ok().and_then(|d| d.flatten().map(|e| e.path()).find(|p| p.file_name().is_some_and(|n| n.to_string_lossy().contains('-'))));
            if let Some(a) = art {
                let o = Command::new(bin).current_dir(&j.dir).env("VPF", format!("{}/{}", check.id, j.family)).env("VPF_DUMP", "1").arg(a).output();
                case = o.ok().and_then(|o| String::from_utf8_lossy(&o.stderr).lines().find_map(|l| l.strip_prefix("VPCASE ").map(String::from)));
            }
        }
        let Some(mut rf) = case.and_then(|c| serde_json::from_str::<ReplayFile>(&c).ok()) else {
            eprintln!("note: the fuzzer for {}/{} ended with {code:?} without an input: {}", check.id, j.family, text.lines().last().unwrap_or(""));
            continue;
        };
        // decide with the ordinary build: this is what a replay will do
        rf.mode = "child".into();
        let p = verif_dir().join("replays").join(format!("{}-{}-{:016x}.json", check.id, j.family, crate::runner::hash64(&[rf.case.to_string().as_bytes()])));
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        std::fs::write(&p, serde_json::to_string_pretty(&rf).unwrap()).expect("write replay");
        match crate::runner::replay_quietly(check, &p) {
            0 | 2 => {
                eprintln!("note: an input of the fuzzer for {}/{} does not fail outside of it ({})", check.id, j.family, rf.message);
                let _ = std::fs::remove_file(&p);
            }
            _ => {
                say_line(format!("{}/{} fails (coverage-guided): {}", check.id, j.family, rf.message));
                say_line(format!("VIOLATION property={} replay={}", check.id, p.display()));
                rc = 1;
            }
        }
    }
    table.sort_by_key(|t| t.to_string());
    let ev = verif_dir().join("evidence").join(format!("{}.json", check.id));
    if let Some(mut v) = std::fs::read_to_string(&ev).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
        v["coverage"]["coverage_guided"] = json!({"executions": executions, "seconds_per_process": secs, "processes": table});
        if rc == 1 {
            v["violations"] = json!(v["violations"].as_u64().unwrap_or(0) + 1);
        }
        let _ = std::fs::write(&ev, serde_json::to_string_pretty(&v).unwrap());
    }
    say_line(format!("{}: {executions} coverage-guided executions over {} families", check.id, fams.len()));
    let _ = std::fs::remove_dir_all(&base);
    rc
}

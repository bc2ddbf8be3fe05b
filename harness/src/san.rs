//! Second stage of C15: the same library run by Miri and with AddressSanitizer.

use std::fs;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Found {
    pub counters: Vec<(String, u64)>,
    pub notes: Vec<String>,
    /// what the sanitizer said, and the command that shows it
    pub violation: Option<String>,
}

fn clean(dir: &PathBuf) {
    // never trust time stamps
    for p in ["dynparser-", "dpmon-"] {
        for sub in ["debug/.fingerprint", "x86_64-unknown-linux-gnu/debug/.fingerprint", "miri/x86_64-unknown-linux-gnu/debug/.fingerprint"] {
            if let Ok(rd) = fs::read_dir(dir.join(sub)) {
                for e in rd.flatten() {
                    if e.file_name().to_string_lossy().starts_with(p) {
                        let _ = fs::remove_dir_all(e.path());
                    }
                }
            }
        }
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

struct Tool {
    name: &'static str,
    args: Vec<String>,
    env: Vec<(&'static str, String)>,
    /// cases per process, processes
    cases: u64,
    procs: u64,
    wall: u64,
}

fn run(t: &Tool, seed: u64, out: &mut Found) {
    let cmd = |rest: &[String]| {
        let mut c = Command::new("cargo");
        c.args(&t.args).arg("--").args(rest).env_remove("RUSTUP_TOOLCHAIN").env_remove("RUSTFLAGS");
        for (k, v) in &t.env {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).process_group(0);
        c
    };
    // build, and see that the tool works at all
    match cmd(&["list".to_string()]).output() {
        Ok(o) if o.status.success() => (),
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).into_owned();
            out.notes.push(format!("{} not available here: {}", t.name, e.lines().last().unwrap_or("")));
            return;
        }
        Err(e) => {
            out.notes.push(format!("{} not available here: {}", t.name, e));
            return;
        }
    }
    let dir = std::env::temp_dir();
    let mut kids = vec![];
    for k in 0..t.procs {
        let f = dir.join(format!("dpmon-{}-{}-{}", t.name, std::process::id(), k));
        let rest: Vec<String> = ["aux", "smoke"].iter().map(|s| s.to_string()).chain([seed, k * t.cases, (k + 1) * t.cases].iter().map(|n| n.to_string())).collect();
        let c = cmd(&rest)
            .stdout(fs::File::create(f.with_extension("out")).expect("log"))
            .stderr(fs::File::create(f.with_extension("err")).expect("log"))
            .spawn()
            .expect("spawn");
        kids.push((c, f, rest));
    }
    let t0 = Instant::now();
    for (mut c, f, rest) in kids {
        let st = loop {
            match c.try_wait().expect("wait") {
                Some(st) => break Some(st),
                None if t0.elapsed().as_secs() > t.wall => {
                    // the whole group: cargo may have a child of its own
                    unsafe { kill(-(c.id() as i32), 9) };
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(50)),
            }
        };
        let o = fs::read(f.with_extension("out")).unwrap_or_default();
        let e = fs::read(f.with_extension("err")).unwrap_or_default();
        let o = String::from_utf8_lossy(&o).into_owned();
        let e = String::from_utf8_lossy(&e).into_owned();
        let _ = fs::remove_file(f.with_extension("out"));
        let _ = fs::remove_file(f.with_extension("err"));
        for l in o.lines() {
            if let Some(n) = l.strip_prefix("smoke parses=").and_then(|l| l.split(' ').next()).and_then(|n| n.parse::<u64>().ok()) {
                out.counters.push((format!("parses_under_{}", t.name), n));
            }
        }
        match st {
            None => out.counters.push((format!("{}_processes_cut_by_time", t.name), 1)),
            Some(st) if st.success() && o.contains("smoke parses=") => (),
            Some(st) if st.success() => out.notes.push(format!("{} said nothing: {} {}", t.name, o.len(), e)),
            Some(st) => {
                let bad = ["Undefined Behavior", "AddressSanitizer", "panicked", "PANIC", "data race", "memory leaked"];
                if bad.iter().any(|b| e.contains(b)) || last_panic(&e) {
                    let tail: String = e.lines().filter(|l| !l.contains("warning")).collect::<Vec<_>>().join("\n");
                    let n = tail.find("error").or_else(|| tail.find("ERROR")).unwrap_or(0);
                    let tail: String = tail[n..].chars().take(3000).collect();
                    out.violation.get_or_insert(format!("{} ({:?}) running: {:?}\n{}", t.name, st, rest, tail));
                } else {
                    out.notes.push(format!("{} ended with {:?}: {}", t.name, st, e.lines().last().unwrap_or("")));
                }
            }
        }
    }
}

fn last_panic(e: &str) -> bool {
    e.contains("SUMMARY:")
}

pub fn stages(seed: u64, thorough: bool) -> Found {
    let mut out = Found { counters: vec![], notes: vec![], violation: None };
    let h = env!("CARGO_MANIFEST_DIR");
    let base = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/../.target", h)));
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let miri = base.join("miri-stage");
    clean(&miri);
    let mf = format!("{}/Cargo.toml", h);
    run(
        &Tool {
            name: "miri",
            args: s(&["+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path", &mf]),
            env: vec![
                ("CARGO_TARGET_DIR", miri.display().to_string()),
                ("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks".into()),
            ],
            cases: if thorough { 400 } else { 12 },
            procs: 8,
            wall: if thorough { 900 } else { 150 },
        },
        seed,
        &mut out,
    );
    if out.violation.is_none() && thorough {
        let asan = base.join("asan-stage");
        clean(&asan);
        run(
            &Tool {
                name: "asan",
                args: s(&["+nightly", "run", "--quiet", "--offline", "--target", "x86_64-unknown-linux-gnu", "--manifest-path", &mf]),
                env: vec![
                    ("CARGO_TARGET_DIR", asan.display().to_string()),
                    ("RUSTFLAGS", "-Zsanitizer=address".into()),
                    ("ASAN_OPTIONS", "detect_leaks=0".into()),
                ],
                cases: 20_000,
                procs: 8,
                wall: 900,
            },
            seed,
            &mut out,
        );
    }
    out
}

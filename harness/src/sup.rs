//! Supervisor: shards the cases of a property over processes, watches them, and gives the verdict.

use crate::ctx::{install_hook, last_panic, Ctx};
use crate::props::{self, Prop};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

fn limit(res: i32, v: u64) {
    let l = [v, v];
    unsafe {
        setrlimit(res, &l);
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn run_case(p: &Prop, cx: &mut Ctx, i: u64) -> Result<(), String> {
    cx.idx = i;
    let mut rng = Rng::for_case(cx.seed, p.id, i);
    (p.case)(cx, &mut rng)
}

/// big stack for the model; the cases that care about stack use their own threads
fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).expect("spawn").join()
}

/// dpmon case PROP SEED I : one case alone. 0 held, 1 violated (text on stdout), 2 harness error
pub fn case_main(id: &str, seed: u64, i: u64, thorough: bool) -> i32 {
    limit(RLIMIT_CORE, 0);
    install_hook();
    let p = match props::find(id) {
        Some(p) => p,
        None => return 2,
    };
    if p.mem_limit > 0 {
        limit(RLIMIT_AS, p.mem_limit << 30);
    }
    limit(RLIMIT_CPU, p.cpu_limit + 15);
    let r = big(move || {
        let mut cx = Ctx { prop: p.id.into(), seed, thorough, trace: true, ..Default::default() };
        let r = run_case(&p, &mut cx, i);
        (r, cx)
    });
    match r {
        Ok((Ok(()), cx)) => {
            println!("held: {} evaluations", cx.evals);
            for s in cx.samples {
                println!("sample: {}", s);
            }
            0
        }
        Ok((Err(v), _)) => {
            println!("{}", v);
            1
        }
        Err(_) => {
            println!("harness error: {}", last_panic());
            2
        }
    }
}

/// dpmon worker PROP SEED SHARD SHARDS N DIR
pub fn worker_main(id: &str, seed: u64, shard: u64, shards: u64, n: u64, dir: &Path, thorough: bool, wall: u64) -> i32 {
    limit(RLIMIT_CORE, 0);
    install_hook();
    let p = match props::find(id) {
        Some(p) => p,
        None => return 2,
    };
    if p.mem_limit > 0 {
        limit(RLIMIT_AS, p.mem_limit << 30);
    }
    let prog = fs::File::create(dir.join(format!("prog{}", shard))).expect("progress file");
    let dir2 = dir.to_path_buf();
    let r = big(move || {
        let mut cx = Ctx { prop: p.id.into(), seed, thorough, ..Default::default() };
        let t0 = Instant::now();
        let mut i = shard;
        let mut verdict = Ok(());
        let mut cut = false;
        while i < n {
            prog.write_all_at(&(i + 1).to_le_bytes(), 0).expect("progress");
            if let Err(v) = run_case(&p, &mut cx, i) {
                verdict = Err((i, v));
                break;
            }
            i += shards;
            if t0.elapsed().as_secs() > wall {
                cut = i < n;
                break;
            }
        }
        prog.write_all_at(&0u64.to_le_bytes(), 0).expect("progress");
        if cut {
            cx.count("shards_cut_by_time", 1);
        }
        let mut out = String::new();
        out.push_str(&format!("evals {}\n", cx.evals));
        for (k, v) in &cx.counters {
            out.push_str(&format!("c {} {}\n", k, v));
        }
        for s in &cx.samples {
            out.push_str(&format!("s {}\n", s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")));
        }
        fs::write(dir2.join(format!("res{}", shard)), out).expect("result");
        let mut bytes = vec![];
        for h in &cx.distinct {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(dir2.join(format!("dis{}", shard)), bytes).expect("distinct");
        if let Err((i, v)) = &verdict {
            fs::write(dir2.join(format!("viol{}", shard)), format!("{}\n{}", i, v)).expect("viol");
        }
        verdict.is_err()
    });
    match r {
        Ok(false) => 0,
        Ok(true) => 1,
        Err(_) => {
            eprintln!("harness error: {}", last_panic());
            2
        }
    }
}

fn cpu_secs(pid: u32) -> f64 {
    // our own child
    let s = match fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => s,
        Err(_) => return 0.0,
    };
    let rest = match s.rfind(')') {
        Some(i) => &s[i + 2..],
        None => return 0.0,
    };
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

struct Solo {
    /// CPU seconds it had used when it was given up
    cpu: f64,
    status: Option<ExitStatus>,
    out: String,
    input: String,
}

fn solo(id: &str, seed: u64, i: u64, thorough: bool, wall: u64) -> Solo {
    let exe = std::env::current_exe().expect("exe");
    let log = std::env::temp_dir().join(format!("dpmon.solo.{}", std::process::id()));
    let mut c = Command::new(exe)
        .args(["case", id, &seed.to_string(), &i.to_string(), if thorough { "thorough" } else { "quick" }])
        .stdout(Stdio::piped())
        .stderr(fs::File::create(&log).expect("log"))
        .spawn()
        .expect("spawn");
    let last = || {
        let e = fs::read(&log).unwrap_or_default();
        let _ = fs::remove_file(&log);
        let e = String::from_utf8_lossy(&e).into_owned();
        e.rsplit("input: ").next().unwrap_or("").to_string()
    };
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("wait") {
            let mut out = String::new();
            if let Some(mut o) = c.stdout.take() {
                use std::io::Read;
                let _ = o.read_to_string(&mut out);
            }
            return Solo { cpu: 0.0, status: Some(st), out, input: last() };
        }
        if t0.elapsed().as_secs() > wall {
            let cpu = cpu_secs(c.id());
            let _ = c.kill();
            let _ = c.wait();
            return Solo { cpu, status: None, out: String::new(), input: last() };
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

enum Sus {
    Crash(u64, String),
    Hang(u64),
    /// all its threads wait
    Stuck(u64),
}

/// a case that uses no CPU time for so long (s) waits for something that never comes
const STUCK: u64 = 60;

fn replay_file(p: &Prop, seed: u64, i: u64, thorough: bool, what: &str) -> PathBuf {
    let d = verif_dir().join("replay");
    let _ = fs::create_dir_all(&d);
    let f = d.join(format!("{}-{}-{}.txt", p.id, seed, i));
    let tier = if thorough { "thorough" } else { "quick" };
    let s = format!(
        "property {}\nseed {}\ncase {}\ntier {}\nreplay with: /verif/check --case {} {} {} {}\n\n{}\n",
        p.id, seed, i, tier, p.id, seed, i, tier, what
    );
    let _ = fs::write(&f, s);
    f
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// known findings: lines "known: property=<id> sig=<signature> ..." ; a violation whose text
/// contains the signature is reported as KNOWN-FINDING instead
fn known(id: &str) -> Vec<(String, String)> {
    let f = fs::read_to_string(verif_dir().join("KNOWN-FINDINGS")).unwrap_or_default();
    f.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("known: property={} sig=", id))?;
            let (sig, what) = l.split_once(" :: ")?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

pub fn run_main(id: &str) -> i32 {
    let t0 = Instant::now();
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            println!("unknown property {}", id);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let n = std::env::var("DPMON_N").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall: u64 = std::env::var("DPMON_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 2400 } else { 240 });
    let shards = (p.shards as u64).min(n).max(1);
    let dir = std::env::temp_dir().join(format!("dpmon.{}.{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let spawn = |s: u64| -> Child {
        Command::new(&exe)
            .args(["worker", id, &seed.to_string(), &s.to_string(), &shards.to_string(), &n.to_string()])
            .arg(&dir)
            .args([tier, &wall.to_string()])
            .stdout(Stdio::null())
            .stderr(fs::File::create(dir.join(format!("err{}", s))).expect("err file"))
            .spawn()
            .expect("spawn worker")
    };
    let mut kids: Vec<(u64, Option<Child>, u64, f64, (f64, Instant))> =
        (0..shards).map(|s| (s, Some(spawn(s)), 0, 0.0, (0.0, Instant::now()))).collect();
    let mut viol: Option<(u64, String)> = None;
    let mut sus: Vec<Sus> = vec![];
    let mut harness_err: Option<String> = None;
    let hard_wall = wall + 60 + p.cpu_limit * 4;
    let progress = |s: u64| -> u64 {
        fs::read(dir.join(format!("prog{}", s)))
            .ok()
            .filter(|b| b.len() == 8)
            .map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))
    };
    'watch: loop {
        let mut alive = false;
        for (s, slot, last, cpu0, since) in kids.iter_mut() {
            let c = match slot {
                Some(c) => c,
                None => continue,
            };
            if let Some(st) = c.try_wait().expect("wait") {
                *slot = None;
                match st.code() {
                    Some(0) => (),
                    Some(1) => {
                        let t = fs::read_to_string(dir.join(format!("viol{}", s))).unwrap_or_default();
                        let (i, v) = t.split_once('\n').unwrap_or(("0", "?"));
                        viol = Some((i.parse().unwrap_or(0), v.to_string()));
                        break 'watch;
                    }
                    Some(x) => {
                        let e = fs::read_to_string(dir.join(format!("err{}", s))).unwrap_or_default();
                        // the others may still find something
                        harness_err = Some(format!("worker {} exit {}: {}", s, x, e));
                    }
                    None => {
                        let i = progress(*s);
                        let e = fs::read_to_string(dir.join(format!("err{}", s))).unwrap_or_default();
                        let tail: String = e.lines().take(3).collect::<Vec<_>>().join(" | ");
                        if i == 0 {
                            harness_err = Some(format!("worker {} died outside a case: {:?} {}", s, st, tail));
                        } else {
                            sus.push(Sus::Crash(i - 1, format!("signal {:?} {}", st.signal(), tail)));
                        }
                        break 'watch;
                    }
                }
                continue;
            }
            alive = true;
            let i = progress(*s);
            let cpu = cpu_secs(c.id());
            if i != *last {
                *last = i;
                *cpu0 = cpu;
                *since = (cpu, Instant::now());
            } else if i != 0 && cpu - *cpu0 > p.cpu_limit as f64 {
                sus.push(Sus::Hang(i - 1));
                break 'watch;
            } else if i != 0 && p.mem_limit > 0 && since.1.elapsed().as_secs() > STUCK {
                // (those without a limit wait for the compiler)
                if cpu - since.0 < 2.0 {
                    sus.push(Sus::Stuck(i - 1));
                    break 'watch;
                }
                *since = (cpu, Instant::now());
            }
        }
        if !alive {
            break;
        }
        if t0.elapsed().as_secs() > hard_wall {
            harness_err = Some("out of wall time".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (_, slot, _, _, _) in kids.iter_mut() {
        if let Some(c) = slot {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    // a crash or a hang is believed only when it happens again, alone
    if viol.is_none() {
        for s in &sus {
            let (i, why) = match s {
                Sus::Crash(i, w) => (*i, format!("the process died ({})", w)),
                Sus::Hang(i) => (*i, format!("no result after {} s of CPU time", p.cpu_limit)),
                Sus::Stuck(i) => (*i, format!("all threads wait since {} s", STUCK)),
            };
            if let Sus::Stuck(_) = s {
                // it depends on the schedule
                let mut last = String::new();
                for _ in 0..8 {
                    let r = solo(id, seed, i, thorough, STUCK / 2);
                    match r.status {
                        Some(st) if st.code() == Some(1) => viol = Some((i, r.out)),
                        None if r.cpu < 10.0 => viol = Some((i, format!("{}; and again, alone\n{}", why, r.input))),
                        st => {
                            last = format!("{:?} {} s", st, r.cpu);
                            continue;
                        }
                    }
                    break;
                }
                if viol.is_none() {
                    harness_err = Some(format!("case {}: {}, not confirmed alone: {}", i, why, last));
                }
                continue;
            }
            let r = solo(id, seed, i, thorough, p.cpu_limit * 4 + 60);
            match (s, r.status) {
                (_, Some(st)) if st.code() == Some(1) => viol = Some((i, r.out)),
                (Sus::Crash(..), Some(st)) if st.signal().is_some() && st.signal() != Some(9) => {
                    viol = Some((i, format!("{}; and again, alone: signal {:?}\n{}", why, st.signal(), r.input)))
                }
                (Sus::Hang(_), Some(st)) if st.signal() == Some(24) || st.signal() == Some(9) => {
                    viol = Some((i, format!("{}; and again, alone\n{}", why, r.input)))
                }
                (_, st) => harness_err = Some(format!("case {}: {}, not confirmed alone: {:?} {}", i, why, st, r.out)),
            }
        }
    }
    // collect what was observed
    let mut evals = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for s in 0..shards {
        for l in fs::read_to_string(dir.join(format!("res{}", s))).unwrap_or_default().lines() {
            if let Some(x) = l.strip_prefix("evals ") {
                evals += x.parse::<u64>().unwrap_or(0);
            } else if let Some(x) = l.strip_prefix("c ") {
                if let Some((k, v)) = x.rsplit_once(' ') {
                    let v: u64 = v.parse().unwrap_or(0);
                    let e = counters.entry(k.to_string()).or_insert(0);
                    if k.starts_with("max_") {
                        *e = (*e).max(v)
                    } else {
                        *e += v
                    }
                }
            } else if let Some(x) = l.strip_prefix("s ") {
                if samples.len() < 6 {
                    samples.push(x.to_string());
                }
            }
        }
        for c in fs::read(dir.join(format!("dis{}", s))).unwrap_or_default().chunks_exact(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let mut notes: Vec<String> = vec![];
    if id == "C15" && viol.is_none() && harness_err.is_none() && std::env::var("DPMON_NOSAN").is_err() {
        let f = crate::san::stages(seed, thorough);
        for (k, v) in f.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        notes = f.notes;
        if let Some(v) = f.violation {
            viol = Some((0, v));
        }
    }
    let mut known_hit = vec![];
    if let Some((_, v)) = &viol {
        for (sig, what) in known(id) {
            if v.contains(&sig) {
                known_hit.push(what);
            }
        }
    }
    for w in &known_hit {
        println!("KNOWN-FINDING: property={} {}", id, w);
    }
    let violated = viol.is_some() && known_hit.is_empty();
    let mut cov = format!(
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"cases\": {}, \"samples\": [{}], \"observed\": {{{}}}",
        evals,
        distinct.len(),
        jstr(p.rule),
        n,
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")
    );
    if !notes.is_empty() {
        cov.push_str(&format!(", \"notes\": [{}]", notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(", ")));
    }
    if let Some((i, v)) = &viol {
        cov.push_str(&format!(", \"violation\": {{\"case\": {}, \"what\": {}}}", i, jstr(v)));
    }
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        jstr(id), jstr(tier), seed, cov,
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), violated as u32
    );
    let evd = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evd);
    if let Ok(mut f) = fs::File::create(evd.join(format!("{}.json", id))) {
        let _ = f.write_all(ev.as_bytes());
    }
    println!(
        "{} {} seed {}: {} evaluations, {} distinct non-trivial, {:.1} s",
        id, tier, seed, evals, distinct.len(), t0.elapsed().as_secs_f64()
    );
    for (k, v) in &counters {
        println!("  {} = {}", k, v);
    }
    if violated {
        let (i, v) = viol.unwrap();
        let f = replay_file(&p, seed, i, thorough, &v);
        println!("{}", v);
        println!("VIOLATION property={} replay={}", id, f.display());
        return 1;
    }
    if let Some(e) = harness_err {
        println!("INCONCLUSIVE: {}", e);
        return 3;
    }
    if (distinct.len() as u64) < p.min_distinct {
        println!("INCONCLUSIVE: observed too little ({} < {})", distinct.len(), p.min_distinct);
        return 3;
    }
    0
}

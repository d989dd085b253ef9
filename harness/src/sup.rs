//! Supervisor and workers. A check's cases run in worker processes so that an
//! abort, a stack overflow or a runaway call is an observation and not the end
//! of the check.

use crate::checks::{self, Check};
use crate::cx::Cx;
use crate::disk::StepBudgetExceeded;
use crate::rng::{Rng, hash_bytes, mix};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// CPU seconds one case may use before it counts as runaway (normal cases use
/// milliseconds, those of unusual scale up to six seconds).
const CASE_CPU_LIMIT: u64 = 40;
const SCALE_CPU_LIMIT: u64 = 120;

#[derive(Clone, Debug)]
pub enum Verdict {
    Held,
    Violation(String),
    HarnessError(String),
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Panics raised by this harness' own source are harness errors; everything
/// else a case raises comes from the library (or a dependency it called).
fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub fn scale_stride(thorough: bool) -> u64 {
    crate::scale::STRIDE * if thorough { 4 } else { 1 }
}

/// Whether the case has a workload of unusual scale.
fn is_scale(check: &Check, thorough: bool, index: u64) -> bool {
    index % scale_stride(thorough) == 11 && crate::scale::enabled(check.id) && !cfg!(miri)
}

fn cpu_limit(check: &Check, thorough: bool, index: u64) -> u64 {
    if is_scale(check, thorough, index) { SCALE_CPU_LIMIT } else { CASE_CPU_LIMIT }
}

fn run_case(check: &Check, seed: u64, thorough: bool, index: u64, verbose: bool, scratch: &Path) -> (Verdict, Cx) {
    let mut cx = Cx::new(thorough, verbose);
    cx.index = index;
    cx.scratch = scratch.to_path_buf();
    if is_scale(check, thorough, index) {
        cx.scale = Some(index / scale_stride(thorough));
    }
    let mut rng = Rng::new(mix(seed) ^ hash_bytes(7, check.id.as_bytes()) ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let res = catch_unwind(AssertUnwindSafe(|| (check.case)(&mut cx, &mut rng)));
    let v = match res {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(e)) => Verdict::Violation(e),
        Err(payload) => {
            if let Some(s) = payload.downcast_ref::<StepBudgetExceeded>() {
                Verdict::Violation(format!("a call did not return within its I/O step budget ({} stream operations so far)", s.0))
            } else {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if harness_location(&loc) {
                    Verdict::HarnessError(format!("panic in harness at {loc}: {msg}"))
                } else {
                    Verdict::Violation(format!("the library panicked at {loc}: {msg}"))
                }
            }
        }
    };
    (v, cx)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn process_cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.sec as u64
}

/// A runaway allocation must end this process, not the sandbox.
fn limit_memory() {
    unsafe extern "C" {
        fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
    }
    if !cfg!(miri) {
        let lim = [3u64 << 30; 2];
        unsafe { setrlimit(9, &lim) };
    }
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

/// worker <prop> <shard> <nshards> <ncases> <seed> <tier> <dir>
pub fn worker(a: &[String]) -> i32 {
    let check = checks::find(&a[0]).expect("check");
    let shard: u64 = a[1].parse().unwrap();
    let nshards: u64 = a[2].parse().unwrap();
    let ncases: u64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let thorough = a[5] == "thorough";
    let dir = PathBuf::from(&a[6]);
    let cap: u64 = std::env::var("VP_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
    install_hook();
    limit_memory();
    // for development: names the cases that take long
    let slow: Option<f64> = std::env::var("VP_SLOW").ok().and_then(|s| s.parse().ok());
    let status = std::fs::File::create(dir.join(format!("{shard}.cur"))).unwrap();
    let hang_dir = dir.clone();
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(300));
            let cur = CURRENT.load(Relaxed);
            let cpu = process_cpu();
            if cur != last.0 {
                last = (cur, cpu);
            } else if cur != u64::MAX && cpu - last.1 > cpu_limit(&check, thorough, cur) {
                let _ = std::fs::write(hang_dir.join(format!("{shard}.hang")), cur.to_string());
                std::process::exit(77);
            }
        }
    });
    let scratch = dir.join(format!("scratch{shard}"));
    let t0 = Instant::now();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut viol: Vec<(u64, String)> = vec![];
    let mut herr: Vec<(u64, String)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut i = shard;
    let mut capped = 0;
    while i < ncases {
        if evals % 16 == 0 && t0.elapsed() > Duration::from_secs(cap) {
            capped = 1;
            break;
        }
        CURRENT.store(i, Relaxed);
        {
            use std::os::unix::fs::FileExt;
            let _ = status.write_at(&i.to_le_bytes(), 0);
        }
        let verbose = samples.len() < 2 && evals % 7 == 3;
        let begun = slow.map(|_| Instant::now());
        let (v, cx) = run_case(&check, seed, thorough, i, verbose, &scratch);
        evals += 1;
        if let (Some(limit), Some(begun)) = (slow, begun)
            && begun.elapsed().as_secs_f64() > limit
        {
            use std::io::Write;
            let log = std::fs::File::options().create(true).append(true).open(std::env::temp_dir().join("monitor-slow-cases"));
            if let Ok(mut log) = log {
                let _ = writeln!(log, "{} case {i} took {:.1} s", check.id, begun.elapsed().as_secs_f64());
            }
        }
        for (k, n) in &cx.counters {
            *counters.entry(k.to_string()).or_insert(0) += n;
        }
        if cx.nontrivial && sigs.len() < 4_000_000 {
            sigs.insert(cx.sig);
        }
        if verbose && !cx.trace.is_empty() {
            samples.push(format!("case {i}: {}", cx.trace.join(" | ").chars().take(700).collect::<String>()));
        }
        match v {
            Verdict::Held => {}
            Verdict::Violation(t) => viol.push((i, t)),
            Verdict::HarnessError(t) => herr.push((i, t)),
        }
        if viol.len() >= 5 || herr.len() >= 3 {
            break;
        }
        i += nshards;
    }
    CURRENT.store(u64::MAX, Relaxed);
    let mut o = String::new();
    o.push_str(&format!("evals\t{evals}\ncapped\t{capped}\n"));
    for (k, n) in counters {
        o.push_str(&format!("counter\t{k}\t{n}\n"));
    }
    for (i, t) in viol {
        o.push_str(&format!("violation\t{i}\t{}\n", clean(&t)));
    }
    for (i, t) in herr {
        o.push_str(&format!("error\t{i}\t{}\n", clean(&t)));
    }
    for s in samples {
        o.push_str(&format!("sample\t{}\n", clean(&s)));
    }
    let mut b = Vec::with_capacity(sigs.len() * 8);
    for s in sigs {
        b.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(dir.join(format!("{shard}.sig")), b).unwrap();
    std::fs::write(dir.join(format!("{shard}.out")), o).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    0
}

fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\t' || c == '\r' { ' ' } else { c }).take(2000).collect()
}

/// case <prop> <seed> <tier> <index>: run one case and explain it.
pub fn one_case(a: &[String]) -> i32 {
    let Some(check) = checks::find(&a[0]) else {
        eprintln!("unknown property {}", a[0]);
        return 2;
    };
    let seed: u64 = a[1].parse().unwrap();
    let index: u64 = a[3].parse().unwrap();
    install_hook();
    limit_memory();
    let idx = index;
    let limit = cpu_limit(&check, a[2] == "thorough", index);
    std::thread::spawn(move || {
        let c0 = process_cpu();
        loop {
            std::thread::sleep(Duration::from_millis(300));
            if process_cpu() - c0 > limit {
                println!("case {idx}: runaway, more than {limit} CPU seconds in one case");
                std::process::exit(77);
            }
        }
    });
    let scratch = std::env::temp_dir().join(format!("tedium-case-{}", std::process::id()));
    let (v, cx) = run_case(&check, seed, a[2] == "thorough", index, true, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    for t in &cx.trace {
        println!("{t}");
    }
    match v {
        Verdict::Held => {
            println!("case {index}: held");
            0
        }
        Verdict::Violation(t) => {
            println!("case {index}: violated: {t}");
            1
        }
        Verdict::HarnessError(t) => {
            println!("case {index}: harness error: {t}");
            2
        }
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    prop: String,
    needle: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: property=")
                && let Some((prop, rest)) = rest.split_once(" match=<<")
                && let Some((needle, what)) = rest.split_once(">> ")
            {
                v.push(Known { prop: prop.into(), needle: needle.into(), what: what.into() });
            }
        }
    }
    v
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn level(prop: &str) -> &'static str {
    match prop {
        "C13" | "C14" | "C15" => "fault_enumeration",
        _ => "exploration",
    }
}

pub fn supervise(prop: &str) -> i32 {
    let Some(check) = checks::find(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let ncases = std::env::var("VP_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { check.thorough } else { check.quick });
    let cap = if thorough { 700 } else { 200 };
    let nshards = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("tedium-monitor-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();

    let mut viol: Vec<(u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut capped = 0u64;
    let mut samples: Vec<String> = vec![];

    let mut kids = vec![];
    for s in 0..nshards {
        let child = Command::new(&exe)
            .args(["worker", prop, &s.to_string(), &nshards.to_string(), &ncases.to_string(), &seed.to_string(), tier])
            .arg(&dir)
            .env("VP_CAP_S", cap.to_string())
            .env("RUST_BACKTRACE", "0")
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn();
        match child {
            Ok(c) => kids.push((s, c)),
            Err(e) => errors.push(format!("cannot start worker: {e}")),
        }
    }
    for (s, mut c) in kids {
        let st = c.wait().unwrap();
        let out = std::fs::read_to_string(dir.join(format!("{s}.out"))).ok();
        let cur = std::fs::read(dir.join(format!("{s}.cur"))).ok().and_then(|b| b.try_into().ok().map(u64::from_le_bytes));
        if st.code() == Some(0)
            && let Some(out) = out
        {
            for l in out.lines() {
                let f: Vec<&str> = l.splitn(3, '\t').collect();
                match f[0] {
                    "evals" => evals += f[1].parse::<u64>().unwrap(),
                    "capped" => capped += f[1].parse::<u64>().unwrap(),
                    "counter" => *counters.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                    "violation" => viol.push((f[1].parse().unwrap(), f[2].into())),
                    "error" => errors.push(format!("case {}: {}", f[1], f[2])),
                    "sample" => samples.push(f[1..].join(" ")),
                    _ => {}
                }
            }
            if let Ok(b) = std::fs::read(dir.join(format!("{s}.sig"))) {
                for c in b.chunks_exact(8) {
                    sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            continue;
        }
        // The worker died: reproduce the case it was running on its own.
        let Some(cur) = cur else {
            errors.push(format!("worker {s} ended with {st} before its first case"));
            continue;
        };
        if st.code() == Some(77) && !viol.is_empty() {
            // one runaway has been confirmed, which takes its time
            continue;
        }
        let again = Command::new(&exe)
            .args(["case", prop, &seed.to_string(), tier, &cur.to_string()])
            .env("RUST_BACKTRACE", "0")
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .output();
        use std::os::unix::process::ExitStatusExt;
        match again {
            Ok(o) => match (o.status.code(), o.status.signal()) {
                (Some(77), _) => {
                    let limit = cpu_limit(check, thorough, cur);
                    viol.push((cur, format!("a call ran for more than {limit} CPU seconds without returning")))
                }
                // slow, though not as slow as a runaway
                (Some(0), _) if st.code() == Some(77) => *counters.entry("slow_cases".into()).or_insert(0) += 1,
                (_, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
                    let err = String::from_utf8_lossy(&o.stderr);
                    if sig == 6 && err.contains("memory allocation of") && is_scale(check, thorough, cur) {
                        // a workload too big for the limit of this process says nothing
                        *counters.entry("big_cases_skipped_for_memory".into()).or_insert(0) += 1;
                        continue;
                    }
                    viol.push((cur, format!("the process was terminated by signal {sig} during the case: {}", clean(err.trim()))));
                }
                (Some(1), _) => viol.push((cur, String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("").to_string())),
                _ => errors.push(format!("worker {s} ended with {st} in case {cur}, which does not reproduce alone ({})", o.status)),
            },
            Err(e) => errors.push(format!("worker {s} ended with {st}; rerun failed: {e}")),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    let mut extra_json = String::new();
    if let Some(extra) = check.extra {
        match extra(thorough, seed) {
            Ok(x) => {
                evals += x.evaluations;
                for (k, n) in x.counters {
                    *counters.entry(k).or_insert(0) += n;
                }
                for s in x.sigs {
                    sigs.insert(s);
                }
                samples.extend(x.samples);
                for v in x.violations {
                    viol.push((u64::MAX, v));
                }
                errors.extend(x.errors);
                extra_json = x.note;
            }
            Err(e) => errors.push(e),
        }
    }

    // Split violations into known findings and new ones.
    viol.sort();
    let known = known_findings();
    let mut fresh: Vec<(u64, String)> = vec![];
    let mut hit: Vec<&Known> = vec![];
    for (i, t) in viol {
        match known.iter().find(|k| k.prop == prop && t.contains(&k.needle)) {
            Some(k) => {
                if !hit.iter().any(|h| std::ptr::eq(*h, k)) {
                    hit.push(k);
                }
            }
            None => fresh.push((i, t)),
        }
    }
    for k in known.iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={} {}", k.prop, k.what);
    }
    // A run that observed nothing is not a pass.
    if fresh.is_empty() && errors.is_empty() && (evals == 0 || sigs.is_empty()) {
        errors.push("no non-trivial case was observed".into());
    }

    let wall = t0.elapsed().as_secs_f64();
    let ev_dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev_dir);
    samples.truncate(6);
    if samples.is_empty() {
        samples.push(format!("seed {seed}, cases 0..{ncases}; run 'monitor case {prop} {seed} {tier} <n>' for one"));
    }
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n", json_str(prop), json_str(tier), json_str(level(prop))));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", sigs.len(), json_str(&format!("{}; counted as non-trivial: {}", check.method, check.rule))));
    j.push_str("  \"observed\": {");
    j.push_str(&counters.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "));
    j.push_str("},\n");
    j.push_str(&format!("  \"workers\": {nshards},\n  \"workers_stopped_by_time_cap\": {capped},\n"));
    if !extra_json.is_empty() {
        j.push_str(&format!("  \"sanitizer_runs\": {},\n", json_str(&extra_json)));
    }
    j.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"assumptions\": [{}],\n", check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", fresh.len()));
    let tmp = ev_dir.join(format!("{prop}.json.tmp"));
    if let Ok(mut f) = std::fs::File::create(&tmp) {
        let _ = f.write_all(j.as_bytes());
        let _ = std::fs::rename(&tmp, ev_dir.join(format!("{prop}.json")));
    }

    if !fresh.is_empty() {
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rp = rdir.join(format!("{prop}-seed{seed}-{tier}.txt"));
        let mut t = String::new();
        t.push_str(&format!("property {prop}\nseed {seed}\ntier {tier}\n"));
        for (i, m) in &fresh {
            if *i == u64::MAX {
                t.push_str(&format!("\n{m}\n"));
                continue;
            }
            t.push_str(&format!("\ncase {i}: {m}\nreplay: {} case {prop} {seed} {tier} {i}\n", exe.display()));
        }
        if let Some((i, _)) = fresh.iter().find(|f| f.0 != u64::MAX)
            && let Ok(o) = Command::new(&exe).args(["case", prop, &seed.to_string(), tier, &i.to_string()]).env("RUST_BACKTRACE", "0").output()
        {
            t.push_str(&format!("\ntrace of case {i}:\n{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)));
        }
        let _ = std::fs::write(&rp, t);
        for (i, m) in fresh.iter().take(5) {
            if *i == u64::MAX {
                println!("  {m}");
            } else {
                println!("  case {i}: {m}");
            }
        }
        println!("VIOLATION property={prop} replay={}", rp.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            println!("ERROR (no verdict): {e}");
        }
        return 2;
    }
    let obs = counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ");
    println!("{prop}: held on {evals} executions ({} distinct non-trivial) in {wall:.1}s; observed {obs}", sigs.len());
    0
}

/// One call of unusual length: `long <variant> <seed>`.
pub fn long_main(a: &[String]) -> i32 {
    install_hook();
    let limit = 4 * CASE_CPU_LIMIT;
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(300));
            if process_cpu() > limit {
                println!("LONG-VIOLATION runaway, more than {limit} CPU seconds");
                std::process::exit(1);
            }
        }
    });
    let (v, s): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let res = catch_unwind(AssertUnwindSafe(|| crate::long::run(v, s)));
    let (res, cx) = match res {
        Ok(x) => x,
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if harness_location(&loc) {
                println!("LONG-ERROR panic in harness at {loc}: {msg}");
                return 2;
            }
            println!("LONG-VIOLATION the library panicked at {loc}: {msg}");
            return 1;
        }
    };
    if let Err(e) = res {
        println!("LONG-VIOLATION {}", clean(&e));
        return 1;
    }
    for (k, n) in &cx.counters {
        println!("LONG-COUNT {k} {n}");
    }
    println!("LONG-SIG {}", cx.sig);
    0
}

/// All long calls, each in a process of its own.
pub fn long_calls(thorough: bool, seed: u64) -> Result<checks::Extra, String> {
    in_processes(crate::long::variants(thorough), seed, "single calls of more than 4 GiB or 2^32 samples, each in a process of its own")
}

/// Texts around the longest that the format can hold.
pub fn long_texts(thorough: bool, seed: u64) -> Result<checks::Extra, String> {
    in_processes(crate::long::text_variants(thorough), seed, "texts of 4 GiB as names and values, in a process of their own")
}

fn in_processes(variants: Vec<u64>, seed: u64, note: &str) -> Result<checks::Extra, String> {
    use std::os::unix::process::ExitStatusExt;
    let mut x = checks::Extra::default();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids = vec![];
    for v in variants {
        let c = Command::new(&exe)
            .args(["long", &v.to_string(), &seed.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| format!("long call: {e}"))?;
        kids.push((v, std::thread::spawn(move || c.wait_with_output())));
    }
    let mut killed = 0;
    for (v, k) in kids {
        let o = k.join().unwrap().map_err(|e| format!("long call: {e}"))?;
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        for l in text.lines() {
            if let Some(t) = l.strip_prefix("LONG-VIOLATION ") {
                x.violations.push(format!("long call {v} (replay: {} long {v} {seed}): {t}", exe.display()));
            } else if let Some(t) = l.strip_prefix("LONG-ERROR ") {
                x.errors.push(t.into());
            } else if let Some(t) = l.strip_prefix("LONG-SIG ") {
                x.sigs.extend(t.parse::<u64>());
            } else if let Some((k, n)) = l.strip_prefix("LONG-COUNT ").and_then(|t| t.split_once(' ')) {
                x.counters.push((k.into(), n.parse().unwrap_or(0)));
            }
        }
        match (o.status.code(), o.status.signal()) {
            (Some(0 | 1 | 2), _) => x.evaluations += 1,
            // the sandbox ends big processes when memory runs low
            (_, Some(9)) => killed += 1,
            _ => x.violations.push(format!("long call {v}: the process ended with {}: {}", o.status, clean(String::from_utf8_lossy(&o.stderr).trim()))),
        }
    }
    x.counters.push(("long_calls_skipped_for_memory".into(), killed));
    x.note = note.into();
    Ok(x)
}

/// Workload executed under Miri or another interpreter: `miri <prop> <seed> <from> <to>`.
pub fn miri_main(a: &[String]) -> i32 {
    let Some(check) = checks::find(&a[0]) else { return 2 };
    let seed: u64 = a[1].parse().unwrap();
    let from: u64 = a[2].parse().unwrap();
    let to: u64 = a[3].parse().unwrap();
    install_hook();
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut nontriv = 0;
    let start = std::time::Instant::now();
    let stop: u64 = std::env::var("VP_STOP_AFTER").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let mut ran = 0;
    for i in from..to {
        if start.elapsed().as_secs() >= stop {
            break;
        }
        ran += 1;
        let (v, cx) = run_case(&check, seed, false, i, false, Path::new("/nonexistent"));
        match v {
            Verdict::Held => {}
            Verdict::Violation(t) => {
                println!("MIRI-CASE-VIOLATION case {i}: {t}");
                return 1;
            }
            Verdict::HarnessError(t) => {
                println!("MIRI-CASE-ERROR case {i}: {t}");
                return 2;
            }
        }
        for (k, c) in cx.counters {
            *n.entry(k).or_insert(0) += c;
        }
        println!("MIRI-SIG {}", cx.sig);
        nontriv += cx.nontrivial as u64;
    }
    let obs = n.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ");
    println!("MIRI-DONE cases={} nontrivial={nontriv} {obs}", ran);
    0
}

//! The runner: shards cases over threads, keeps the verdict three-valued, writes the evidence.
use crate::ctx::{install_hook, last_panic, Ctx, Stats, Viol};
use crate::props::{self, Prop};
use std::collections::BTreeSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub case: Option<u64>,
    pub cases: Option<u64>,
    pub root: PathBuf,
    pub sanitizer: bool,
    pub evidence: PathBuf,
    /// cases are drawn for this build: "" for the checked one, "shipped" for the one without assertions
    pub build: String,
}

fn parse() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").ok().filter(|t| t == "quick" || t == "thorough").unwrap_or("quick".into()),
        case: None,
        cases: None,
        root: PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into())),
        sanitizer: std::env::var("BSMON_SANITIZER").is_ok(),
        evidence: PathBuf::new(),
        build: String::new(),
    };
    let mut ev = None;
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--tier" => a.tier = it.next().unwrap(),
            "--case" => a.case = Some(it.next().unwrap().parse().unwrap()),
            "--cases" => a.cases = Some(it.next().unwrap().parse().unwrap()),
            "--build" => a.build = it.next().unwrap(),
            "--evidence" => ev = Some(PathBuf::from(it.next().unwrap())),
            _ => a.prop = x,
        }
    }
    a.evidence = ev.unwrap_or_else(|| a.root.join("evidence").join(format!("{}.json", a.prop)));
    a
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jnum(x: f64) -> String {
    if x.is_finite() {
        format!("{x:e}")
    } else {
        jstr(&format!("{x}"))
    }
}

fn replay_path(a: &Args) -> PathBuf {
    let d = a.root.join("replays");
    let _ = fs::create_dir_all(&d);
    d.join(format!("{}-{}-{}.json", a.prop, a.tier, a.seed))
}

fn write_replay(a: &Args, case: Option<u64>, msg: &str, desc: &[String]) -> PathBuf {
    let p = replay_path(a);
    let c = case.map(|c| c.to_string()).unwrap_or("null".into());
    let s = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"tier\": {},\n \"case\": {},\n \"violation\": {},\n \"replay\": {},\n \"input\": [{}]\n}}\n",
        jstr(&a.prop),
        a.seed,
        jstr(&a.tier),
        c,
        jstr(msg),
        jstr(&format!(
            "VERIF_SEED={} VERIF_TIER={} bash check.sh {} --case {}{}",
            a.seed,
            a.tier,
            a.prop,
            c,
            if a.build.is_empty() { String::new() } else { format!(" --build {}", a.build) }
        )),
        desc.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(",\n  ")
    );
    let _ = fs::write(&p, s);
    p
}

/// Lines `finding: property=<id> key=<key> ...` of known_findings.txt.
pub fn known(root: &std::path::Path, prop: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    if let Ok(s) = fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            let Some(rest) = l.strip_prefix("finding:") else { continue };
            let mut p = None;
            let mut k = None;
            for w in rest.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    p.get_or_insert(x.to_string());
                }
                if let Some(x) = w.strip_prefix("key=") {
                    k.get_or_insert(x.to_string());
                }
            }
            if p.as_deref() == Some(prop) {
                if let Some(k) = k {
                    out.insert(k);
                }
            }
        }
    }
    out
}

pub fn write_evidence(
    a: &Args,
    prop: &Prop,
    st: &Stats,
    samples: &[String],
    wall: f64,
    violations: u64,
    verdict: &str,
    findings: &[String],
) {
    let mut cov = String::new();
    cov.push_str(&format!("  \"evaluations\": {},\n", st.cases));
    cov.push_str(&format!("  \"distinct_nontrivial\": {},\n", st.distinct.len()));
    cov.push_str(&format!("  \"rule\": {},\n", jstr(prop.rule)));
    cov.push_str(&format!(
        "  \"samples\": [{}],\n",
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ")
    ));
    cov.push_str(&format!("  \"oracle_comparisons\": {},\n", st.observations));
    cov.push_str(&format!(
        "  \"observed\": {{{}}},\n",
        st.counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")
    ));
    cov.push_str(&format!(
        "  \"distinct_observed\": {{{}}},\n",
        st.sets.iter().map(|(k, v)| format!("{}: {}", jstr(k), v.len())).collect::<Vec<_>>().join(", ")
    ));
    cov.push_str(&format!(
        "  \"maxima\": {{{}}},\n",
        st.maxima.iter().map(|(k, v)| format!("{}: {}", jstr(k), jnum(*v))).collect::<Vec<_>>().join(", ")
    ));
    cov.push_str(&format!(
        "  \"known_findings_seen\": [{}],\n",
        findings.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    ));
    cov.push_str(&format!("  \"verdict\": {}\n", jstr(verdict)));
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n{} }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(&a.prop),
        jstr(&a.tier),
        a.seed,
        cov,
        prop.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    if let Some(d) = a.evidence.parent() {
        let _ = fs::create_dir_all(d);
    }
    if let Err(e) = fs::write(&a.evidence, s) {
        eprintln!("cannot write evidence: {e}");
    }
}

/// Whether the panic was raised by the crate under test (a path dependency, so compiled by absolute path).
fn in_library(msg: &str) -> bool {
    let loc = msg.rsplit(" at ").next().unwrap_or("");
    loc.starts_with('/') && loc.contains("/src/") && !loc.contains("/registry/") && !loc.contains("/rustc/") && !loc.contains("/library/")
}

fn run_one(prop: &Prop, cx: &mut Ctx, case: u64) -> Result<(), Viol> {
    cx.restart(prop.id, case);
    let t0 = Instant::now();
    crate::ctx::CALLS.with(|c| c.set((0, 0)));
    let r = catch_unwind(AssertUnwindSafe(|| (prop.case)(cx)));
    let r = match r {
        Ok(r) => r,
        // the library panicked where the monitor only looks at it (reads a matrix, say)
        Err(_) if in_library(&last_panic()) => Err(Viol::from(format!("panicked while being looked at: {}", last_panic()))),
        // a panic outside a guarded library call is the monitor's own failure, never a verdict
        Err(_) => {
            eprintln!("MONITOR-ERROR property={} case={} {}", prop.id, case, last_panic());
            std::process::exit(2);
        }
    };
    cx.finish();
    let ms = t0.elapsed().as_secs_f64() * 1e3;
    let e = cx.stats.maxima.entry("slowest case, ms".into()).or_insert(0.0);
    *e = e.max(ms);
    let (calls, caught) = crate::ctx::CALLS.with(|c| c.get());
    cx.add("library calls", calls);
    cx.add("library calls that panicked (caught)", caught);
    r.map_err(|mut v| {
        if v.key.is_none() {
            v.key = cx.key.clone();
        }
        v
    })
}

pub fn main() {
    let a = parse();
    if a.prop == "--list" || a.prop.is_empty() {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    if let Some(x) = a.prop.strip_prefix("helper:") {
        install_hook();
        props::helper(x, &a);
        return;
    }
    let Some(prop) = props::all().into_iter().find(|p| p.id == a.prop) else {
        eprintln!("unknown property {}", a.prop);
        std::process::exit(2);
    };
    if std::env::var("BSMON_WORKER").is_ok() {
        std::process::exit(worker(&a, prop));
    }
    let code = parent(&a, &prop, None);
    // a second, smaller run of other cases in the build users ship (no debug assertions, no overflow checks)
    let code = match std::env::var_os("BSMON_SHIPPED") {
        Some(exe) if code == 0 && a.case.is_none() => shipped(&a, &prop, PathBuf::from(exe)),
        _ => code,
    };
    std::process::exit(code);
}

fn shipped(a: &Args, prop: &Prop, exe: PathBuf) -> i32 {
    let total = a.cases.unwrap_or(if a.tier == "thorough" { prop.thorough } else { prop.quick });
    let tmp = std::env::temp_dir().join(format!("bsmon-{}-{}.json", a.prop, std::process::id()));
    let b = Args {
        prop: a.prop.clone(),
        seed: a.seed.wrapping_add(500_009),
        tier: a.tier.clone(),
        case: None,
        cases: Some((total / 6).max(1)),
        root: a.root.clone(),
        sanitizer: a.sanitizer,
        evidence: tmp.clone(),
        build: "shipped".into(),
    };
    let code = parent(&b, prop, Some(&exe));
    let got = fs::read_to_string(&tmp).unwrap_or_default();
    let _ = fs::remove_file(&tmp);
    if code == 1 {
        let _ = fs::write(&a.evidence, got);
        return code;
    }
    let pick = |k: &str| got.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{k}\": "))).unwrap_or("0").trim_end_matches(',').to_string();
    let line = format!(
        "  \"as_shipped_build\": {{\"seed\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"oracle_comparisons\": {}, \"observed\": {}, \"wall_s\": {}}},\n  \"verdict\":",
        b.seed,
        pick("evaluations"),
        pick("distinct_nontrivial"),
        pick("oracle_comparisons"),
        got.lines().find_map(|l| l.trim().strip_prefix("\"observed\": ")).unwrap_or("{}").trim_end_matches(','),
        pick("wall_s")
    );
    if let Ok(ev) = fs::read_to_string(&a.evidence) {
        let _ = fs::write(&a.evidence, ev.replacen("  \"verdict\":", &line, 1));
    }
    code
}

const THREADS: usize = 8;

fn child(a: &Args, exe: Option<&PathBuf>, progress: &std::path::Path, cpu: Option<u64>, case: Option<u64>) -> Command {
    let exe = exe.cloned().unwrap_or_else(|| std::env::current_exe().unwrap());
    let mut sh = String::new();
    if !a.sanitizer {
        sh.push_str("ulimit -v 24000000; ");
    }
    if let Some(c) = cpu {
        sh.push_str(&format!("ulimit -t {c}; "));
    }
    sh.push_str("exec \"$0\" \"$@\"");
    let mut c = Command::new("bash");
    c.arg("-c").arg(sh).arg(exe).arg(&a.prop);
    c.args(["--seed", &a.seed.to_string(), "--tier", &a.tier, "--evidence"]).arg(&a.evidence);
    if let Some(n) = a.cases {
        c.args(["--cases", &n.to_string()]);
    }
    if !a.build.is_empty() {
        c.args(["--build", &a.build]);
    }
    if let Some(x) = case.or(a.case) {
        c.args(["--case", &x.to_string()]);
    }
    c.env("BSMON_WORKER", "1").env("BSMON_PROGRESS", progress).env("VERIF_ROOT", &a.root);
    c
}

/// The worker runs in a process of its own, so that an abort, a stack overflow, a sanitizer report or
/// a call that never returns is observed, attributed to a case and replayed instead of losing the run.
fn parent(a: &Args, prop: &Prop, exe: Option<&PathBuf>) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("bsmon-{}{}-{}", a.prop, a.build, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let progress = dir.join("progress");
    let _ = fs::write(&progress, vec![0xffu8; 8 * THREADS]);
    let mut c = child(a, exe, &progress, None, None);
    let st = c.stdin(Stdio::null()).status();
    let code = match st {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(c @ (0 | 1 | 2)), _) => c,
            (code, sig) => {
                let what = match (code, sig) {
                    (_, Some(s)) => format!("killed by signal {s}"),
                    (Some(3), _) => "stopped by the watchdog".to_string(),
                    (c, _) => format!("exit status {c:?}"),
                };
                eprintln!("worker {what}; replaying the cases in flight one by one");
                let bytes = fs::read(&progress).unwrap_or_default();
                let mut cases: Vec<u64> = bytes
                    .chunks_exact(8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .filter(|c| *c != u64::MAX)
                    .collect();
                cases.sort();
                cases.dedup();
                if let Some(c) = a.case {
                    cases = vec![c];
                }
                let mut result = 2;
                for case in cases {
                    let st = child(a, exe, &progress, Some(60), Some(case)).stdin(Stdio::null()).status();
                    let Ok(st) = st else { continue };
                    match (st.code(), st.signal()) {
                        (Some(0), _) | (Some(2), _) | (Some(3), _) => continue,
                        (Some(1), _) => {
                            result = 1;
                            break;
                        }
                        (c, s) => {
                            // 24 = SIGXCPU, 9 = SIGKILL after the hard CPU limit
                            let what = match s {
                                Some(24) | Some(9) => {
                                    "a call did not return within 60 s of CPU time (cases take milliseconds)".to_string()
                                }
                                Some(s) => format!("the process was killed by signal {s}"),
                                None => format!("the process ended with status {c:?} (sanitizer report or abort)"),
                            };
                            let p = write_replay(a, Some(case), &what, &[]);
                            println!("case {case}: {what}");
                            println!("VIOLATION property={} replay={}", a.prop, p.display());
                            let mut s = Stats::default();
                            s.cases = case + 1;
                            write_evidence(a, prop, &s, &[], t0.elapsed().as_secs_f64(), 1, "violated", &[]);
                            result = 1;
                            break;
                        }
                    }
                }
                if result == 2 {
                    println!("INCONCLUSIVE property={} worker {what}, not reproduced", a.prop);
                }
                result
            }
        },
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            2
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

fn worker(a: &Args, prop: Prop) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let thorough = a.tier == "thorough";
    let known = known(&a.root, prop.id);
    let total = a.cases.unwrap_or(if thorough { prop.thorough } else { prop.quick });
    if let Some(case) = a.case {
        let mut cx = Ctx::new(a.seed, prop.id, case, thorough);
        cx.verbose = true;
        let r = run_one(&prop, &mut cx, case);
        for d in &cx.desc {
            println!("{d}");
        }
        return match r {
            Ok(()) => {
                println!("case {case}: held");
                0
            }
            Err(v) => {
                if v.key.as_ref().map_or(false, |k| known.contains(k)) {
                    println!("KNOWN-FINDING: property={} {}: {}", prop.id, v.key.unwrap(), v.msg);
                    return 0;
                }
                println!("case {case}: {}", v.msg);
                let p = write_replay(a, Some(case), &v.msg, &cx.desc);
                println!("VIOLATION property={} replay={}", prop.id, p.display());
                1
            }
        };
    }

    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<(u64, Viol)>>> = Arc::new(Mutex::new(vec![]));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..THREADS).map(|_| AtomicU64::new(0)).collect());
    let progress = std::env::var("BSMON_PROGRESS").ok().and_then(|p| fs::OpenOptions::new().write(true).open(p).ok());
    let progress = Arc::new(progress);
    let cap = Duration::from_secs(if thorough { 1500 } else { 420 } / if a.build.is_empty() { 1 } else { 3 });
    let done = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    let prop = Arc::new(prop);
    for t in 0..THREADS {
        let (next, stop, found, stats, started, progress, done, prop) = (
            next.clone(),
            stop.clone(),
            found.clone(),
            stats.clone(),
            started.clone(),
            progress.clone(),
            done.clone(),
            prop.clone(),
        );
        let seed = a.seed;
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut cx = Ctx::new(seed, prop.id, 0, thorough);
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let c = next.fetch_add(1, Ordering::Relaxed);
                        if c >= total {
                            break;
                        }
                        if let Some(f) = progress.as_ref() {
                            let _ = f.write_at(&c.to_le_bytes(), 8 * t as u64);
                        }
                        started[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        if let Err(v) = run_one(&prop, &mut cx, c) {
                            let mut f = found.lock().unwrap();
                            f.push((c, v));
                            if f.len() >= 2000 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        started[t].store(0, Ordering::Relaxed);
                    }
                    if let Some(f) = progress.as_ref() {
                        let _ = f.write_at(&u64::MAX.to_le_bytes(), 8 * t as u64);
                    }
                    stats.lock().unwrap().merge(cx.stats);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .unwrap(),
        );
    }
    while done.load(Ordering::Relaxed) < THREADS as u64 {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for s in started.iter() {
            let x = s.load(Ordering::Relaxed);
            // a violation was found already: do not wait for a stuck sibling
            let limit = if found.lock().unwrap().is_empty() { 90_000 } else { 20_000 };
            if x != 0 && now > x + limit {
                if found.lock().unwrap().iter().any(|(_, v)| !v.key.as_ref().map_or(false, |k| known.contains(k))) {
                    done.store(THREADS as u64, Ordering::Relaxed);
                } else {
                    return 3;
                }
            }
        }
        // a new violation ends the run soon: the verdict is settled, a few more witnesses suffice
        if !found.lock().unwrap().is_empty() {
            let f = found.lock().unwrap();
            let new = f.iter().filter(|(_, v)| !v.key.as_ref().map_or(false, |k| known.contains(k))).count();
            if new >= 1 {
                stop.store(true, Ordering::Relaxed);
            }
        }
        if t0.elapsed() > cap {
            stop.store(true, Ordering::Relaxed);
        }
    }
    let st = stats.lock().unwrap().clone();
    let mut f = found.lock().unwrap().clone();
    f.sort_by_key(|x| x.0);
    let mut findings: Vec<String> = vec![];
    let mut fresh: Vec<(u64, Viol)> = vec![];
    for (c, v) in f {
        match &v.key {
            Some(k) if known.contains(k) => {
                if !findings.contains(k) {
                    println!("KNOWN-FINDING: property={} {}: {}", prop.id, k, v.msg);
                    findings.push(k.clone());
                }
            }
            _ => fresh.push((c, v)),
        }
    }
    // written-out samples: re-run a few cases with descriptions on
    let mut samples = vec![];
    let mut tail = Stats::default();
    for c in [0u64, total / 3, total / 2, total - 1] {
        if c >= st.cases.max(1) || fresh.len() > 0 {
            continue;
        }
        let mut cx = Ctx::new(a.seed, prop.id, c, thorough);
        cx.verbose = true;
        let _ = run_one(&prop, &mut cx, c);
        let mut s = cx.desc.join(" | ");
        if s.len() > 1500 {
            let mut e = 1500;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
            s.push_str("...");
        }
        samples.push(format!("case {c}: {s}"));
        tail.merge(cx.stats);
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some((c, v)) = fresh.first() {
        let mut cx = Ctx::new(a.seed, prop.id, *c, thorough);
        cx.verbose = true;
        let again = run_one(&prop, &mut cx, *c);
        let p = write_replay(a, Some(*c), &v.msg, &cx.desc);
        for d in &cx.desc {
            println!("{}", if d.len() > 2000 { &d[..d.char_indices().nth(2000).map_or(d.len(), |x| x.0)] } else { d });
        }
        println!("case {c}: {}", v.msg);
        if again.is_ok() {
            println!("note: the case held when replayed alone: the outcome depends on history or threads");
        }
        println!("{} violating case(s) of {} run", fresh.len(), st.cases);
        samples.push(format!("violating case {c}: {}", v.msg));
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        write_evidence(a, &prop, &st, &samples, wall, fresh.len() as u64, "violated", &findings);
        let _ = std::io::stdout().flush();
        return 1;
    }
    let want = a.cases.map(|c| c / 20).unwrap_or(prop.min_nontrivial);
    let conclusive = st.distinct.len() as u64 >= want.min(prop.min_nontrivial) && st.cases >= total.min(want.max(1));
    let verdict = if conclusive { "held on everything observed" } else { "inconclusive: too few observations" };
    write_evidence(a, &prop, &st, &samples, wall, 0, verdict, &findings);
    println!(
        "{}{}: {} ({} cases, {} distinct non-trivial, {} oracle comparisons, {:.1} s, max err/tol {:?})",
        prop.id,
        if a.build.is_empty() { "" } else { " (as shipped)" },
        verdict,
        st.cases,
        st.distinct.len(),
        st.observations,
        wall,
        st.maxima.iter().filter(|(k, _)| k.starts_with("max_error")).collect::<Vec<_>>()
    );
    if conclusive {
        0
    } else {
        2
    }
}

//! Deterministic simulation of ledger-rs-lib: driver.
//!
//! ledger-sim check PROP | replay FILE | gen PROP SEED INDEX | log PROP SEED FROM COUNT WORKERS

#![allow(clippy::all)]

#[cfg(feature = "api")]
mod api;
mod ast;
mod cli;
mod dec;
mod exec;
mod gen;
mod model;
mod props;
mod rng;
mod sys;

use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use ast::Plan;

#[global_allocator]
static ALLOC: sys::SimAlloc = sys::SimAlloc;

/// What one simulated execution reports.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct RunResult {
    bad: Option<String>,
    /// the harness itself failed
    error: Option<String>,
    marks: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    trivial: bool,
    state: u64,
    log: u64,
    events: u64,
    elapsed_us: u64,
    switches: u64,
    reads: u64,
    trace: Vec<String>,
}

fn class_of(bad: &str) -> &str {
    bad.split(':').next().unwrap_or(bad)
}

/// Runs in the forked child: executes the plan and reports through the pipe.
fn child(plan: &Plan, dir: &Path, fd: i32, trace: bool) -> ! {
    let postings: usize = plan.docs.iter().flat_map(|d| &d.items).map(|i| if let ast::Item::X(x) = i { x.posts.len() } else { 1 }).sum();
    unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR, 0);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        // no end: SIGPROF ends the process
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: if postings > 2000 { 200 } else { 30 }, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }));
    sys::world(|w| w.trace = trace.then(Vec::new));
    let mut res = RunResult::default();
    match exec::guard(|| props::check(dir, plan)) {
        Ok(v) => {
            res.bad = v.bad;
            res.marks = v.marks;
            res.trivial = v.trivial;
            res.state = v.state;
            if let Some(b) = &res.bad {
                if let Some(e) = b.strip_prefix("harness: ") {
                    res.error = Some(e.to_string());
                    res.bad = None;
                }
            }
        }
        Err(e) if e.starts_with("scratch") || e.starts_with("LEDGER_") => res.error = Some(e),
        Err(e) => res.bad = Some(format!("observation failed: {}", e)),
    }
    sys::world(|w| {
        res.fired = w.fired.iter().map(|(k, n)| (k.to_string(), *n)).collect();
        res.log = w.log;
        res.events = w.events;
        res.reads = w.total_reads;
        res.trace = w.trace.take().unwrap_or_default();
    });
    for (k, c) in [
        ("allocation_moved", &sys::MOVED),
        ("freed_memory_poisoned", &sys::POISONED),
        ("freed_memory_reused", &sys::REUSED),
    ] {
        let n = c.load(SeqCst);
        if n > 0 {
            res.fired.insert(k.to_string(), n);
        }
    }
    if sys::SWITCHES.load(SeqCst) > 0 {
        res.fired.insert("thread_switch".to_string(), sys::SWITCHES.load(SeqCst));
    }
    res.switches = sys::SWITCHES.load(SeqCst);
    res.elapsed_us = sys::ELAPSED.load(SeqCst) / 1000;
    let text = serde_json::to_vec(&res).unwrap();
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(&text);
    unsafe { libc::_exit(0) }
}

/// One simulated execution, in a process of its own.
fn run_plan(plan: &Plan, dir: &Path, trace: bool) -> RunResult {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            child(plan, dir, fds[1], trace);
        }
        libc::close(fds[1]);
        let mut text = vec![];
        let mut buf = [0u8; 65536];
        let start = Instant::now();
        let mut stuck = false;
        loop {
            let mut p = libc::pollfd {
                fd: fds[0],
                events: libc::POLLIN,
                revents: 0,
            };
            let n = libc::poll(&mut p, 1, 5000);
            if n == 0 {
                if start.elapsed().as_secs() > 240 {
                    stuck = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if let Ok(r) = serde_json::from_slice::<RunResult>(&text) {
            return r;
        }
        let mut r = RunResult::default();
        r.bad = Some(if stuck {
            "no end: the run is stuck".to_string()
        } else if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGPROF => "no end: still running after 30 s (200 s if large) of processor time".to_string(),
                s => format!("crash: the process died of signal {}", s),
            }
        } else {
            match libc::WEXITSTATUS(status) {
                sys::EXIT_READ_BUDGET => "no end: a source is read again and again".to_string(),
                sys::EXIT_ALLOC_BUDGET => "no end: more than 1 GB of memory".to_string(),
                sys::EXIT_DEADLOCK => "no end: all callers wait for each other".to_string(),
                c => format!("crash: the process ended with status {}", c),
            }
        });
        r
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Tally {
    runs: u64,
    trivial: u64,
    bad: Option<(u64, String)>,
    error: Option<String>,
    marks: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    /// runs in which a fault of that kind fired
    fired_runs: BTreeMap<String, u64>,
    logs: Vec<u64>,
    states: Vec<u64>,
    nontrivial_logs: Vec<u64>,
    elapsed_us: u64,
    events: u64,
    reads: u64,
    with_faults: u64,
    log_list: Vec<(u64, u64, u64, String)>,
}

fn worker(prop: &str, seed: u64, from: u64, count: u64, w: u64, n: u64, dir: &Path, until: Instant, keep: bool) -> Tally {
    let mut t = Tally::default();
    let run_dir = dir.join(format!("w{:02}", w)).join("run");
    let mut i = w;
    while i < count {
        if Instant::now() > until {
            break;
        }
        let index = from + i;
        i += n;
        let plan = props::generate(prop, seed, index);
        let r = run_plan(&plan, &run_dir, false);
        t.runs += 1;
        if keep {
            t.log_list.push((index, r.log, r.state, format!("{:?}", r.bad)));
        }
        if let Some(e) = r.error {
            t.error = Some(format!("index {}: {}", index, e));
            break;
        }
        t.trivial += r.trivial as u64;
        for (k, v) in r.marks {
            *t.marks.entry(k).or_default() += v;
        }
        if !r.fired.is_empty() {
            t.with_faults += 1;
        }
        for (k, v) in r.fired {
            *t.fired_runs.entry(k.clone()).or_default() += 1;
            *t.fired.entry(k).or_default() += v;
        }
        let h = rng::mix(r.log ^ rng::mix(r.state));
        t.logs.push(r.log);
        t.states.push(r.state);
        if !r.trivial {
            t.nontrivial_logs.push(h);
        }
        t.elapsed_us += r.elapsed_us;
        t.events += r.events;
        t.reads += r.reads;
        if let Some(b) = r.bad {
            t.bad = Some((index, b));
            if !keep {
                break;
            }
        }
    }
    t
}

fn scratch_base() -> PathBuf {
    let name = format!("lsim-{:08x}", std::process::id());
    for root in ["/dev/shm", "/var/tmp"] {
        let p = Path::new(root).join(&name);
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok() {
            return p;
        }
    }
    eprintln!("no scratch directory");
    std::process::exit(3)
}

fn sweep(prop: &str, seed: u64, from: u64, count: u64, workers: u64, base: &Path, secs: u64, keep: bool) -> Vec<Tally> {
    let until = Instant::now() + std::time::Duration::from_secs(secs);
    let mut pipes = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                let r = exec::guard(|| worker(prop, seed, from, count, w, workers, base, until, keep));
                let t = r.unwrap_or_else(|e| Tally {
                    error: Some(e),
                    ..Default::default()
                });
                let text = serde_json::to_vec(&t).unwrap();
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&text);
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut list = vec![];
    for (pid, fd) in pipes {
        let mut text = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut text);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        list.push(serde_json::from_slice::<Tally>(&text).unwrap_or_else(|_| Tally {
            error: Some("a worker died".into()),
            ..Default::default()
        }));
    }
    list
}

// ------------------------------------------------------------------ minimisation

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn get_mut<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(p)?,
            _ => return None,
        };
    }
    Some(v)
}

struct Shrink<'a> {
    class: String,
    dir: &'a Path,
    tries: usize,
    until: Instant,
}

impl Shrink<'_> {
    fn fails(&mut self, v: &Value) -> bool {
        let Ok(plan) = serde_json::from_value::<Plan>(v.clone()) else { return false };
        if !exec::guard(|| props::valid(&plan)).unwrap_or(false) {
            return false;
        }
        self.tries += 1;
        let r = run_plan(&plan, self.dir, false);
        r.error.is_none() && r.bad.map_or(false, |b| class_of(&b) == self.class)
    }
    fn over(&self) -> bool {
        self.tries > 3000 || Instant::now() > self.until
    }
}

fn minimise(plan: &Plan, bad: &str, dir: &Path, secs: u64) -> (Plan, usize) {
    let mut s = Shrink {
        class: class_of(bad).to_string(),
        dir,
        tries: 0,
        until: Instant::now() + std::time::Duration::from_secs(secs),
    };
    let mut best = serde_json::to_value(plan).unwrap();
    loop {
        let before = best.to_string().len();
        // drop elements of lists, large parts first
        let mut list = vec![];
        paths(&best, &mut vec![], &mut list);
        for path in list {
            if s.over() {
                break;
            }
            let len = match get_mut(&mut best, &path) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut size = len;
            while size >= 1 {
                let mut at = 0;
                loop {
                    let n = match get_mut(&mut best, &path) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if at >= n || s.over() {
                        break;
                    }
                    let mut c = best.clone();
                    if let Some(Value::Array(a)) = get_mut(&mut c, &path) {
                        let end = (at + size).min(a.len());
                        a.drain(at..end);
                    }
                    if s.fails(&c) {
                        best = c;
                    } else {
                        at += size;
                    }
                }
                size /= 2;
            }
        }
        // simpler values
        let mut list = vec![];
        paths(&best, &mut vec![], &mut list);
        for path in list {
            if s.over() {
                break;
            }
            let top = path.first().map(|s| s.as_str()).unwrap_or("");
            if path.is_empty() || ["prop", "seed", "index"].contains(&top) {
                continue;
            }
            let Some(cur) = get_mut(&mut best, &path).cloned() else { continue };
            let mut cands = vec![];
            match &cur {
                Value::Bool(true) => cands.push(json!(false)),
                Value::Number(n) => {
                    if let Some(k) = n.as_i64() {
                        if k != 0 {
                            cands.push(json!(0));
                            if k.abs() > 1 {
                                cands.push(json!(k / 2));
                                cands.push(json!(k - k.signum()));
                            }
                        }
                    }
                }
                Value::String(t) if t.chars().count() > 1 && path.last().map_or(false, |k| k == "payee" || k == "note" || k == "hnote" || k == "C") => {
                    cands.push(json!("p"));
                    cands.push(json!(";"));
                    let half: String = t.chars().take(t.chars().count() / 2).collect();
                    if !half.trim().is_empty() {
                        cands.push(json!(half.trim()));
                    }
                }
                Value::Object(_) => cands.push(Value::Null),
                _ => {}
            }
            if matches!(cur, Value::String(_) | Value::Object(_)) {
                cands.push(Value::Null);
            }
            for c in cands {
                let mut v = best.clone();
                if let Some(x) = get_mut(&mut v, &path) {
                    *x = c;
                }
                if s.fails(&v) {
                    best = v;
                    break;
                }
            }
        }
        if s.over() || best.to_string().len() >= before {
            break;
        }
    }
    (serde_json::from_value(best).unwrap(), s.tries)
}

// ------------------------------------------------------------------ commands

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn sample(plan: &Plan) -> Value {
    let docs: Vec<String> = plan
        .docs
        .iter()
        .take(2)
        .map(|d| {
            let (b, _) = ast::render(d, &|f, _| format!("file{}", f));
            String::from_utf8_lossy(&b).chars().take(400).collect()
        })
        .collect();
    let ops: Vec<String> = plan
        .threads
        .iter()
        .flatten()
        .flatten()
        .take(8)
        .map(|o| format!("{:?}", o).chars().take(200).collect())
        .collect();
    json!({"index": plan.index, "env": plan.env, "documents": docs, "operations": ops,
        "files": plan.files.iter().take(3).map(|f| json!({"name": f.name, "delivery": f.del, "kind": f.kind, "edit": f.edit})).collect::<Vec<_>>(),
        "threads": plan.threads.len(), "schedule": plan.sched.iter().take(12).collect::<Vec<_>>(), "tool_faults": plan.cli})
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "one to three journal documents generated from the seed, loaded as text, reader or file under a generated delivery; non-trivial: at least one transaction, and a history (events and final state) not seen before in this run",
        "C02" => "command or loads over a tree of files with exactly one unreadable source that is reached; non-trivial: distinct history",
        "C03" => "load history with a failure placed at a byte, line or included file; non-trivial: the load failed as planned, distinct history",
        "C04" => "journal cut at a generated byte; non-trivial: distinct history",
        "C05" => "transactions with omitted amounts (and ones that must be refused); non-trivial: at least one amount inferred or transaction refused, distinct history",
        "C07" => "growth history under a hostile allocator with all links checked after each operation; non-trivial: at least two transactions, distinct history",
        "C09" => "tree of included files; non-trivial: at least one include line executed, distinct history",
        "C12" => "journals with prices and costs; non-trivial: at least one price point, distinct history",
        "C14" => "one number of a journal damaged; non-trivial: the damaged text is not a number any more, distinct history",
        "C17" => "the built tool run under generated read and write faults; non-trivial: distinct outcome history",
        "C18" => "journals with stated and implied costs; non-trivial: at least one cost, distinct history",
        _ => "plan generated from the seed; non-trivial: it loads at least one transaction or exercises the property's operation, and its history (events and final state) was not seen before in this run",
    }
}

fn components(prop: &str) -> Value {
    match prop {
        "C17" => json!({"real": ["the ledger-rs-lib binary built from /repo", "kernel files and pipes", "libstd"], "simulated": ["read/write outcomes, randomness and clock (LD_PRELOAD shim)"], "stub": []}),
        "C12" | "C13" => json!({"real": ["ledger-rs-lib (all of it)", "libstd", "chrono", "petgraph", "rust_decimal"], "simulated": ["read/open outcomes", "clock", "hash randomness", "allocator", "thread schedule"], "stub": [], "hooks": ["sim::prices, sim::find_price (read only, cfg ledger_sim)"]}),
        _ => json!({"real": ["ledger-rs-lib (all of it)", "libstd", "chrono", "petgraph", "rust_decimal"], "simulated": ["read/open outcomes", "clock", "hash randomness", "allocator", "thread schedule"], "stub": []}),
    }
}

/// (runs, seconds) of the tiers
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C17" => 6_000,
        "C11" => 16_000,
        _ => 40_000,
    };
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    if let Some(n) = env("SIM_RUNS") {
        return (n, env("SIM_SECS").unwrap_or(36_000));
    }
    if tier == "thorough" {
        (u64::MAX / 4, env("SIM_SECS").unwrap_or(540))
    } else {
        (quick, env("SIM_SECS").unwrap_or(75))
    }
}

fn cmd_check(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    println!("seed {} tier {} property {}", seed, tier, prop);
    let start = Instant::now();
    let (runs, secs) = budget(prop, tier);
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16);
    let base = scratch_base();
    let tallies = sweep(prop, seed, 0, runs, workers, &base, secs, false);
    let sweep_s = start.elapsed().as_secs_f64();

    let mut all = Tally::default();
    let mut bad: Option<(u64, String)> = None;
    for t in tallies {
        all.runs += t.runs;
        all.trivial += t.trivial;
        all.elapsed_us += t.elapsed_us;
        all.events += t.events;
        all.reads += t.reads;
        all.with_faults += t.with_faults;
        all.logs.extend(t.logs);
        all.states.extend(t.states);
        all.nontrivial_logs.extend(t.nontrivial_logs);
        for (k, v) in t.marks {
            *all.marks.entry(k).or_default() += v;
        }
        for (k, v) in t.fired {
            *all.fired.entry(k).or_default() += v;
        }
        for (k, v) in t.fired_runs {
            *all.fired_runs.entry(k).or_default() += v;
        }
        if let Some(e) = t.error {
            all.error = Some(e);
        }
        if let Some(b) = t.bad {
            if bad.as_ref().map_or(true, |x| b.0 < x.0) {
                bad = Some(b);
            }
        }
    }
    let distinct = |v: &Vec<u64>| v.iter().collect::<BTreeSet<_>>().len() as u64;
    let evidence = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": distinct(&all.nontrivial_logs),
            "rule": rule(prop),
            "samples": (0..3).map(|i| sample(&props::generate(prop, seed, i))).collect::<Vec<_>>(),
            "trivial_runs": all.trivial,
            "runs_per_hour": (all.runs as f64 / sweep_s * 3600.0) as u64,
            "simulated_seconds": all.elapsed_us as f64 / 1e6,
            "distinct_interleavings": distinct(&all.logs),
            "distinct_interleavings_measure": "hash of the ordered event log: thread switches, every open/read outcome with its byte range, operation results",
            "distinct_states": distinct(&all.states),
            "distinct_states_measure": "hash of all final journals (transactions, accounts, totals) of a run",
            "events": all.events,
            "source_reads": all.reads,
            "faults_fired": all.fired,
            "runs_with_fault": all.fired_runs,
            "runs_with_any_fault": all.with_faults,
            "reached": all.marks,
            "workers": workers,
            "components": components(prop),
        },
        "assumptions": ["seeded sampling: a clean run is evidence, not proof", "x86-64 Linux, debug build as the repository's own tests"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": bad.is_some() as u64,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("cannot write evidence: {}", e);
        let _ = std::fs::remove_dir_all(&base);
        return 3;
    }
    let code = if let Some((index, text)) = bad {
        let plan = props::generate(prop, seed, index);
        let run_dir = base.join("w00").join("run");
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}.json", prop, seed, index));
        {
            // should minimising not come to an end, the violation is reported as it was found
            let file = json!({"violation": text, "first_seen": text, "seed": seed, "index": index, "minimising_runs": 0, "plan": plan});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap() + "\n");
            let (path, base, prop, text) = (path.clone(), base.clone(), prop.to_string(), text.clone());
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(150));
                let _ = std::fs::remove_dir_all(&base);
                println!("{}", text.chars().take(400).collect::<String>());
                println!("seed {} index {} not minimised", seed, index);
                println!("VIOLATION property={} replay={}", prop, path.display());
                std::process::exit(1);
            });
        }
        let (small, tries) = minimise(&plan, &text, &run_dir, 60);
        let r = run_plan(&small, &run_dir, true);
        let again = r.bad.clone().unwrap_or_default();
        let (small, r) = if again.is_empty() {
            let r = run_plan(&plan, &run_dir, true);
            (plan.clone(), r)
        } else {
            (small, r)
        };
        let what = r.bad.clone().unwrap_or(text.clone());
        let file = json!({"violation": what, "first_seen": text, "seed": seed, "index": index, "minimising_runs": tries,
            "plan": small, "trace": r.trace});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap() + "\n");
        println!("{}", what.chars().take(400).collect::<String>());
        println!("seed {} index {} minimised in {} runs", seed, index, tries);
        println!("VIOLATION property={} replay={}", prop, path.display());
        1
    } else if let Some(e) = all.error {
        eprintln!("harness error: {}", e);
        3
    } else {
        println!(
            "{} held: {} runs, {} distinct, {:.1} s",
            prop,
            all.runs,
            distinct(&all.nontrivial_logs),
            start.elapsed().as_secs_f64()
        );
        0
    };
    let _ = std::fs::remove_dir_all(&base);
    code
}

fn cmd_replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("replay file");
    let plan: Plan = serde_json::from_value(v.get("plan").cloned().unwrap_or(v)).expect("plan");
    let base = scratch_base();
    let r = run_plan(&plan, &base.join("w00").join("run"), true);
    let _ = std::fs::remove_dir_all(&base);
    for t in &r.trace {
        println!("  {}", t);
    }
    match (r.error, r.bad) {
        (Some(e), _) => {
            eprintln!("harness error: {}", e);
            3
        }
        (_, Some(b)) => {
            println!("{}", b);
            println!("VIOLATION property={} replay={}", plan.prop, path);
            1
        }
        _ => {
            println!("no violation");
            0
        }
    }
}

/// Calls of this process's panic hook.
pub static HOOKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::remove_var("RUST_LOG");
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let num = |i: usize, d: u64| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match arg(1).as_str() {
        "check" => cmd_check(&arg(2)),
        "replay" => cmd_replay(&arg(2)),
        "gen" => {
            let p = props::generate(&arg(2), num(3, 1), num(4, 0));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            for d in &p.docs {
                let (b, _) = ast::render(d, &|f, _| format!("file{}", f));
                eprintln!("-----\n{}", String::from_utf8_lossy(&b));
            }
            0
        }
        "log" => {
            // event log hashes, for the determinism check
            let base = scratch_base();
            let t = sweep(&arg(2), num(3, 1), num(4, 0), num(5, 100), num(6, 4), &base, 36_000, true);
            let _ = std::fs::remove_dir_all(&base);
            let mut l: Vec<_> = t.into_iter().flat_map(|t| t.log_list).collect();
            l.sort();
            for (i, a, b, c) in l {
                println!("{} {:016x} {:016x} {}", i, a, b, c);
            }
            0
        }
        _ => {
            eprintln!("usage: ledger-sim check PROP | replay FILE | gen PROP SEED INDEX | log PROP SEED FROM COUNT WORKERS");
            2
        }
    };
    std::process::exit(code);
}

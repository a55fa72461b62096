//! Generates cases, has them executed by worker processes, shrinks failures, writes evidence.

use crate::def::{Def, Outcome, Verdict};
use proptest::{
    strategy::{Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    hash::{Hash, Hasher},
    io::{BufRead, BufReader, Write},
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
        mpsc, Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- worker process

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    served: usize,
    stderr: Arc<Mutex<Vec<String>>>,
}

impl Worker {
    fn spawn(id: &str) -> Self {
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.args(["worker", id]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        cmd.env("RUST_BACKTRACE", "0");
        // die with the driver
        unsafe {
            cmd.pre_exec(|| {
                libc::setpgid(0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let err = child.stderr.take().unwrap();
        let (tx, rx) = mpsc::channel();
        thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        let stderr = Arc::new(Mutex::new(vec![]));
        let se = stderr.clone();
        thread::spawn(move || {
            for l in BufReader::new(err).split(b'\n').map_while(Result::ok) {
                let mut v = se.lock().unwrap();
                if v.len() > 40 {
                    v.remove(0);
                }
                v.push(String::from_utf8_lossy(&l).into_owned());
            }
        });
        Worker { child, stdin, rx, served: 0, stderr }
    }

    fn kill(&mut self) {
        unsafe {
            libc::kill(-(self.child.id() as i32), libc::SIGKILL);
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        self.kill();
    }
}

fn outcome(verdict: Verdict, msg: String) -> Outcome {
    Outcome { verdict, msg, sig: String::new(), nontrivial: true, classes: vec![] }
}

struct Pool<'a> {
    def: &'a Def,
    worker: Option<Worker>,
}

impl Pool<'_> {
    fn run(&mut self, case: &Value) -> Outcome {
        if self.worker.as_ref().is_some_and(|w| w.served >= self.def.recycle) {
            self.worker = None;
        }
        let w = self.worker.get_or_insert_with(|| Worker::spawn(self.def.id));
        w.served += 1;
        let mut line = serde_json::to_string(case).unwrap();
        line.push('\n');
        let sent = w.stdin.write_all(line.as_bytes()).and_then(|_| w.stdin.flush());
        let r = if sent.is_err() {
            Err(mpsc::RecvTimeoutError::Disconnected)
        } else {
            w.rx.recv_timeout(Duration::from_secs(self.def.limit))
        };
        match r {
            Ok(l) => match serde_json::from_str::<Outcome>(&l) {
                Ok(o) => {
                    if matches!(o.verdict, Verdict::Fail | Verdict::Slow | Verdict::Broken) {
                        // don't trust the process any more
                        self.worker = None;
                    }
                    o
                }
                Err(e) => {
                    self.worker = None;
                    outcome(Verdict::Broken, format!("worker said {l:?}: {e}"))
                }
            },
            Err(mpsc::RecvTimeoutError::Timeout) => {
                self.worker = None;
                outcome(Verdict::Slow, format!("the case did not end within {} s", self.def.limit))
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let status = w.child.wait();
                thread::sleep(Duration::from_millis(20));
                let err = w.stderr.lock().unwrap().join(" | ");
                let o = match status {
                    Ok(s) => match s.signal() {
                        Some(libc::SIGKILL) => outcome(Verdict::Broken, "worker was killed (memory?)".into()),
                        Some(sig) => outcome(Verdict::Fail, format!("the process died of signal {sig}: {err}")),
                        None => match s.code() {
                            Some(c) => outcome(Verdict::Broken, format!("the worker exited with code {c}: {err}")),
                            None => outcome(Verdict::Broken, "worker ended strangely".into()),
                        },
                    },
                    Err(e) => outcome(Verdict::Broken, format!("wait: {e}")),
                };
                self.worker = None;
                o
            }
        }
    }

    fn fresh(&mut self) {
        self.worker = None;
    }
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    list: Vec<(String, String, String)>,
}

impl Known {
    /// Lines `known: property=<id> sig=<signature> <what fails>`
    pub fn load(root: &Path) -> Self {
        let mut list = vec![];
        for l in fs::read_to_string(root.join("KNOWN_FINDINGS")).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                if let (Some(p), Some(s), Some(d)) = (it.next(), it.next(), it.next()) {
                    if let Some(s) = s.strip_prefix("sig=") {
                        list.push((p.to_owned(), s.to_owned(), d.to_owned()));
                    }
                }
            }
        }
        Known { list }
    }

    fn find(&self, id: &str, sig: &str) -> Option<&str> {
        self.list.iter().find(|(p, s, _)| p == id && s == sig).map(|(_, _, d)| d.as_str())
    }
}

// ---------------------------------------------------------------- run

#[derive(Default)]
struct Stats {
    evaluations: usize,
    skipped: usize,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    samples: Vec<Value>,
    slow: Vec<(Value, Outcome)>,
    unreproduced: Vec<String>,
    broken: Vec<(Value, String)>,
    known: BTreeMap<String, usize>,
    shrinks: usize,
}

fn hash(v: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, id: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, id, shard, i).hash(&mut h);
        c.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

pub struct Opts {
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<usize>,
}

struct Found {
    case: Value,
    msg: String,
    original: Value,
}

/// A verdict which counts as a violation after confirmation
fn violating(o: &Outcome, known: &Known, id: &str) -> bool {
    match o.verdict {
        Verdict::Fail => true,
        Verdict::Known => known.find(id, &o.sig).is_none(),
        _ => false,
    }
}

pub fn check(def: &Def, opts: &Opts) -> i32 {
    let start = Instant::now();
    let known = Known::load(&opts.root);
    let total = opts.cases.unwrap_or(if opts.thorough { def.cases.1 } else { def.cases.0 });
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let fixed: Vec<Value> = (def.fixed)();
    let next_fixed = AtomicUsize::new(0);

    thread::scope(|s| {
        for shard in 0..def.shards {
            let (stats, found, stop, known, fixed, next_fixed) = (&stats, &found, &stop, &known, &fixed, &next_fixed);
            s.spawn(move || {
                let mut pool = Pool { def, worker: None };
                let strategy = (def.strategy)(opts.thorough);
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(opts.seed, def.id, shard));
                let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);

                let mut one = |case: Value, tree: Option<&mut dyn ValueTree<Value = Value>>, pool: &mut Pool| {
                    let o = pool.run(&case);
                    {
                        let mut st = stats.lock().unwrap();
                        st.evaluations += 1;
                        let h = hash(&case);
                        st.distinct.insert(h);
                        if o.nontrivial && o.verdict != Verdict::Skip {
                            st.nontrivial.insert(h);
                            if st.samples.len() < 4 && st.samples.len() * 7 <= st.nontrivial.len() && case.to_string().len() < 4000 {
                                st.samples.push(case.clone());
                            }
                        }
                        for c in &o.classes {
                            *st.classes.entry(c.clone()).or_default() += 1;
                        }
                        match o.verdict {
                            Verdict::Skip => {
                                st.skipped += 1;
                                let k = format!("skipped: {}", o.msg.chars().take(60).collect::<String>());
                                *st.classes.entry(k).or_default() += 1;
                            }
                            Verdict::Known => *st.known.entry(o.sig.clone()).or_default() += 1,
                            Verdict::Broken | Verdict::Invalid => st.broken.push((case.clone(), o.msg.clone())),
                            _ => {}
                        }
                    }
                    if o.verdict == Verdict::Slow {
                        // only believed when it is reproducible
                        let mut again = 0;
                        for _ in 0..2 {
                            if stop.load(SeqCst) {
                                return;
                            }
                            pool.fresh();
                            let o = pool.run(&case);
                            if o.verdict == Verdict::Slow || violating(&o, known, def.id) {
                                again += 1;
                            }
                        }
                        if again == 2 {
                            if !stop.swap(true, SeqCst) {
                                let (c, msg) = match tree {
                                    Some(t) => shrink(pool, t, &case, &o.msg, known, true, stats),
                                    None => (case.clone(), o.msg.clone()),
                                };
                                *found.lock().unwrap() = Some(Found { case: c, msg, original: case });
                            }
                        } else {
                            let mut st = stats.lock().unwrap();
                            st.slow.push((case.clone(), o.clone()));
                            st.unreproduced.push(o.msg.clone());
                            if st.slow.len() >= 3 && !stop.swap(true, SeqCst) {
                                *found.lock().unwrap() = Some(Found {
                                    case: case.clone(),
                                    msg: format!("{} (one of {} cases, depends on the schedule)", o.msg, st.slow.len()),
                                    original: case,
                                });
                            }
                        }
                    } else if violating(&o, known, def.id) && !stop.swap(true, SeqCst) {
                        let (c, msg) = match tree {
                            Some(t) => shrink(pool, t, &case, &o.msg, known, false, stats),
                            None => (case.clone(), o.msg.clone()),
                        };
                        *found.lock().unwrap() = Some(Found { case: c, msg, original: case });
                    }
                };

                loop {
                    let i = next_fixed.fetch_add(1, SeqCst);
                    if i >= fixed.len() || stop.load(SeqCst) {
                        break;
                    }
                    one(fixed[i].clone(), None, &mut pool);
                }
                let n = total / def.shards + usize::from(shard < total % def.shards);
                for _ in 0..n {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let Ok(mut tree) = strategy.new_tree(&mut runner) else {
                        stats.lock().unwrap().broken.push((Value::Null, "generator rejected".into()));
                        break;
                    };
                    let case = tree.current();
                    one(case, Some(&mut tree), &mut pool);
                }
            });
        }
    });

    let st = stats.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let mut violations = 0;
    let mut replay = None;
    if let Some(f) = &found {
        violations = 1;
        let dir = opts.root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", def.id, hash(&f.case)));
        let doc = json!({"property": def.id, "case": f.case, "msg": f.msg, "seed": opts.seed, "original": f.original});
        fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        replay = Some(path);
    }

    let ev = json!({
        "property": def.id,
        "tier": if opts.thorough { "thorough" } else { "quick" },
        "seed": opts.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "distinct": st.distinct.len(),
            "skipped": st.skipped,
            "rule": def.rule,
            "samples": st.samples,
            "classes": st.classes,
            "fixed_cases": fixed.len(),
            "shrink_runs": st.shrinks,
            "known_findings_hit": st.known,
            "unreproduced_slow_cases": st.unreproduced,
        },
        "assumptions": [
            "Linux code path of ipmb, compiled with overflow checks and debug assertions",
            "endpoints behave as separate processes would although most cases host several in one process"
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = opts.root.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", def.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");

    println!(
        "{}: {} cases, {} distinct non-trivial, {} skipped, {:.1} s",
        def.id,
        st.evaluations,
        st.nontrivial.len(),
        st.skipped,
        start.elapsed().as_secs_f64()
    );
    for (c, n) in &st.classes {
        println!("  {n:6} {c}");
    }
    for m in &st.unreproduced {
        println!("  not reproducible: {m}");
    }
    for (sig, n) in &st.known {
        if let Some(d) = known.find(def.id, sig) {
            println!("KNOWN-FINDING: property={} {d} (seen in {n} cases)", def.id);
        }
    }
    if let Some(p) = replay {
        let f = found.unwrap();
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", def.id, p.display());
        return 1;
    }
    if !st.broken.is_empty() {
        for (c, m) in st.broken.iter().take(3) {
            println!("harness problem: {m} in {c}");
        }
        return 3;
    }
    0
}

fn shrink(
    pool: &mut Pool,
    tree: &mut dyn ValueTree<Value = Value>,
    case: &Value,
    msg: &str,
    known: &Known,
    slow: bool,
    stats: &Mutex<Stats>,
) -> (Value, String) {
    let budget = Duration::from_secs(if slow { 100 } else { 60 });
    let start = Instant::now();
    let mut best = (case.clone(), msg.to_owned());
    let tries = if slow { 1 } else { 2 };
    let mut test = |v: &Value| -> Option<String> {
        for _ in 0..tries {
            stats.lock().unwrap().shrinks += 1;
            let o = pool.run(v);
            if violating(&o, known, pool.def.id) || (slow && o.verdict == Verdict::Slow) {
                return Some(o.msg);
            }
            if o.verdict == Verdict::Invalid {
                break;
            }
        }
        None
    };
    // remove elements of sequences first, the generator's shrinking is slow for long histories
    let mut size = best.0.to_string().len();
    let mut structural = |best: &mut (Value, String), budget: Duration, test: &mut dyn FnMut(&Value) -> Option<String>| {
        let mut progress = true;
        while progress && start.elapsed() < budget {
            progress = false;
            let mut paths = vec![];
            arrays(&best.0, String::new(), &mut paths);
            for (path, _) in paths {
                let Some(len) = best.0.pointer(&path).and_then(|a| a.as_array()).map(|a| a.len()) else { continue };
                let mut chunk = len.div_ceil(2).max(1);
                while chunk > 0 && start.elapsed() < budget {
                    let mut at = 0;
                    loop {
                        let Some(len) = best.0.pointer(&path).and_then(|a| a.as_array()).map(|a| a.len()) else { break };
                        if at >= len || start.elapsed() > budget {
                            break;
                        }
                        let mut v = best.0.clone();
                        let a = v.pointer_mut(&path).unwrap().as_array_mut().unwrap();
                        a.drain(at..(at + chunk).min(len));
                        match test(&v) {
                            Some(m) => {
                                *best = (v, m);
                                progress = true;
                            }
                            None => at += chunk,
                        }
                    }
                    chunk /= 2;
                }
            }
        }
    };
    structural(&mut best, budget / 2, &mut test);
    size = size.min(best.0.to_string().len());
    let mut steps = 0;
    'outer: while start.elapsed() < budget && steps < 300 {
        if !tree.simplify() {
            break;
        }
        steps += 1;
        loop {
            let cur = tree.current();
            match test(&cur) {
                Some(m) => {
                    let l = cur.to_string().len();
                    if l <= size {
                        size = l;
                        best = (cur, m);
                    }
                    break;
                }
                None => {
                    if start.elapsed() > budget || !tree.complicate() {
                        break 'outer;
                    }
                    steps += 1;
                }
            }
        }
    }
    structural(&mut best, budget, &mut test);
    best
}

/// JSON pointers of all arrays
fn arrays(v: &Value, at: String, out: &mut Vec<(String, usize)>) {
    match v {
        Value::Array(a) => {
            out.push((at.clone(), a.len()));
            for (i, x) in a.iter().enumerate() {
                arrays(x, format!("{at}/{i}"), out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                arrays(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        _ => {}
    }
}

pub fn replay(def: &Def, opts: &Opts, file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("read replay")).expect("parse replay");
    let known = Known::load(&opts.root);
    let mut pool = Pool { def, worker: None };
    for _ in 0..5 {
        let o = pool.run(&v["case"]);
        println!("{:?} {}", o.verdict, o.msg);
        if violating(&o, &known, def.id) || o.verdict == Verdict::Slow {
            println!("VIOLATION property={} replay={}", def.id, file.display());
            return 1;
        }
        pool.fresh();
    }
    0
}

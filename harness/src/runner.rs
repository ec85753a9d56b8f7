//! Runs, distributes, shrinks, reports and replays simulated executions.

use crate::ctx::{install_panic_hook, Ctx, Violation};
use crate::props;
use crate::sys;
use crate::tape::{hash64, shrink, splitmix, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const EXIT_ERROR: i32 = 2;
const STACK: usize = 8 << 20;
const CPU_LIMIT: i64 = 40;
const EXIT_CONTAINMENT: i32 = 78;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Engine {
    /// In-process simulated disk.
    Lib,
    /// The real binary under the system-call shim.
    Proc,
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Tape, &mut Ctx) -> Result<(), Violation>,
    pub quick: u64,
    pub thorough: u64,
    pub engine: Engine,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// Probes that must have fired at least once in a full quick run.
    pub must: &'static [&'static str],
}

pub struct Outcome {
    pub viol: Option<Violation>,
    pub tape: Vec<u64>,
    pub ctx: Ctx,
    pub harness_panic: Option<String>,
}

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x =
        seed ^ hash64(prop.as_bytes()).rotate_left(17) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

pub struct Env {
    pub thorough: bool,
    pub scratch: Option<PathBuf>,
}

/// Execute one simulated run in a fresh thread.
pub fn exec(prop: &'static Prop, mut tape: Tape, idx: u64, verbose: bool, env: &Env) -> Outcome {
    let mut ctx = Ctx {
        verbose,
        run_index: idx,
        thorough: env.thorough,
        scratch: env.scratch.clone(),
        ..Ctx::default()
    };
    sys::arm_cpu(CPU_LIMIT);
    // The first draw of every run is the seed of the process' hash randomisation.
    let hs = tape.draw(1 << 20);
    sys::set_hash_seed(hs ^ 0x5eed_0000);
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                (prop.run)(&mut tape, &mut ctx)
            }));
            sys::mem_uncap();
            (r, tape, ctx)
        })
        .expect("spawn");
    let (r, mut tape, ctx) = h.join().expect("run thread");
    let used = tape.used();
    tape.data.truncate(used);
    while tape.data.last() == Some(&0) {
        tape.data.pop();
    }
    let (viol, harness_panic) = match r {
        Ok(Ok(())) => (None, None),
        Ok(Err(v)) => (Some(v), None),
        Err(_) => (
            None,
            Some(format!("harness panic in run {idx} of {}", prop.id)),
        ),
    };
    Outcome {
        viol,
        tape: tape.data,
        ctx,
        harness_panic,
    }
}

fn shrink_inproc(
    prop: &'static Prop,
    tape: Vec<u64>,
    class: &str,
    env: &Env,
    secs: u64,
) -> (Vec<u64>, usize) {
    let deadline = Instant::now() + Duration::from_secs(secs);
    shrink(
        tape,
        |c| {
            let o = exec(prop, Tape::replay(c.to_vec()), 0, false, env);
            match o.viol {
                Some(v) if v.class == class => Some(o.tape),
                _ => None,
            }
        },
        4000,
        deadline,
    )
}

fn verif_dir() -> PathBuf {
    std::env::var_os("SIMREK_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// The file of known findings. Lines "finding: property=<id> class=<class> <what fails>" are
/// violations that are reported but do not fail the check; lines "fixed: ..." suppress nothing.
fn known_findings() -> Vec<(String, String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in s.lines() {
            let Some(x) = l.strip_prefix("finding: property=") else {
                continue;
            };
            let mut it = x.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let c = it.next().and_then(|c| c.strip_prefix("class="));
            if let Some(c) = c {
                out.push((p.into(), c.into(), it.next().unwrap_or("").into()));
            }
        }
    }
    out
}

pub fn main(args: &[String]) -> i32 {
    install_panic_hook();
    let opt = |name: &str| -> Option<String> {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let num = |name: &str, d: u64| opt(name).and_then(|s| s.parse().ok()).unwrap_or(d);
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let seed = num("--seed", seed);
    let thorough = opt("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_default())
        == "thorough";
    let Some(cmd) = args.first() else {
        eprintln!("usage: simrek check|worker|replay|run|selftest ...");
        return EXIT_ERROR;
    };
    let prop = args
        .get(1)
        .and_then(|p| props::all().iter().find(|x| x.id == p));
    match cmd.as_str() {
        "list" => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        "check" => {
            let Some(p) = prop else { return EXIT_ERROR };
            check(
                p,
                seed,
                thorough,
                num("--runs", 0),
                num("--workers", 8),
                num("--cap", if thorough { 3000 } else { 420 }),
            )
        }
        "worker" => {
            let Some(p) = prop else { return EXIT_ERROR };
            worker(
                p,
                seed,
                thorough,
                num("--start", 0),
                num("--stride", 1),
                num("--runs", 100),
                num("--cap", 300),
                args.iter().any(|a| a == "--digests"),
            )
        }
        "run" => {
            let Some(p) = prop else { return EXIT_ERROR };
            let env = Env {
                thorough,
                scratch: make_scratch(p),
            };
            let idx = num("--idx", 0);
            let mut t = Tape::generate(run_seed(seed, p.id, idx));
            if let Some(f) = opt("--sink") {
                t.set_sink(std::fs::File::create(f).expect("sink"));
            }
            let o = exec(p, t, idx, true, &env);
            drop_scratch(&env);
            for l in &o.ctx.log {
                println!("{l}");
            }
            println!(
                "faults={:?}\nprobes={:?} io_ops={} tape_len={}",
                o.ctx.faults,
                o.ctx.probes,
                o.ctx.io_ops,
                o.tape.len()
            );
            if let Some(h) = o.harness_panic {
                println!("{h}");
                return EXIT_ERROR;
            }
            if let Some(v) = o.viol {
                println!("VIOLATION {}: {}", v.class, v.detail);
                return 1;
            }
            0
        }
        "exec" => {
            // Execute a tape file: exit 0 no violation, 10 violation; any death is the caller's.
            let Some(p) = prop else { return EXIT_ERROR };
            let env = Env {
                thorough,
                scratch: make_scratch(p),
            };
            let o = exec(
                p,
                Tape::replay(read_tape(Path::new(&opt("--tape").unwrap()))),
                0,
                false,
                &env,
            );
            drop_scratch(&env);
            if o.harness_panic.is_some() {
                return EXIT_ERROR;
            }
            i32::from(o.viol.is_some()) * 10
        }
        "replay" => {
            let Some(f) = args.get(1) else {
                return EXIT_ERROR;
            };
            replay(Path::new(f))
        }
        "selftest" => {
            let Some(p) = prop else { return EXIT_ERROR };
            selftest(p, seed, num("--runs", 400))
        }
        _ => EXIT_ERROR,
    }
}

/// Always of the same length, so that runs do not depend on where they happen.
fn scratch_names(p: &Prop, pid: u32) -> [PathBuf; 2] {
    [
        format!("/dev/shm/simrek-{}-{pid:010}", p.id).into(),
        format!("/tmp/simrek-0000{}-{pid:010}", p.id).into(),
    ]
}
fn make_scratch(p: &Prop) -> Option<PathBuf> {
    if p.engine != Engine::Proc {
        return None;
    }
    let d = scratch_names(p, std::process::id())[usize::from(!Path::new("/dev/shm").is_dir())].clone();
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    Some(d)
}
fn drop_scratch(env: &Env) {
    if let Some(d) = &env.scratch {
        let _ = std::fs::remove_dir_all(d);
    }
}

fn read_tape(p: &Path) -> Vec<u64> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}
fn write_tape(p: &Path, t: &[u64]) {
    let b: Vec<u8> = t.iter().flat_map(|v| v.to_le_bytes()).collect();
    std::fs::write(p, b).expect("write tape");
}

#[allow(clippy::too_many_arguments)]
fn worker(
    p: &'static Prop,
    seed: u64,
    thorough: bool,
    start: u64,
    stride: u64,
    runs: u64,
    cap: u64,
    digests: bool,
) -> i32 {
    let env = Env {
        thorough,
        scratch: make_scratch(p),
    };
    let known = known_findings();
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut n = 0u64;
    let mut nontrivial = 0u64;
    let mut ops = 0u64;
    let mut samples = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut idx = start;
    let mut code = 0;
    let mut capped = false;
    while idx < runs {
        if t0.elapsed().as_secs() >= cap {
            capped = true;
            break;
        }
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {idx}");
            let _ = o.flush();
        }
        let verbose = samples.len() < 2 && n >= 3;
        let o = exec(
            p,
            Tape::generate(run_seed(seed, p.id, idx)),
            idx,
            verbose,
            &env,
        );
        if let Some(h) = o.harness_panic {
            println!("H {h}");
            code = EXIT_ERROR;
            break;
        }
        n += 1;
        ops += o.ctx.io_ops;
        for (k, v) in &o.ctx.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.ctx.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        if o.ctx.nontrivial {
            nontrivial += 1;
            seen.insert(o.ctx.digest.0);
        }
        if digests {
            println!(
                "D {idx} {:016x} {}",
                o.ctx.digest.0,
                o.viol.as_ref().map_or("", |v| v.class.as_str())
            );
        }
        if verbose && o.ctx.nontrivial {
            let mut l = o.ctx.log.clone();
            l.truncate(40);
            samples.push(json!({"run": idx, "trace": l}));
        }
        if let Some(v) = o.viol {
            if let Some(k) = known.iter().find(|k| k.0 == p.id && k.1 == v.class) {
                *known_hits.entry(k.1.clone()).or_insert(0) += 1;
            } else if !digests {
                let orig = o.tape.len();
                let (small, attempts) = shrink_inproc(p, o.tape, &v.class, &env, 60);
                println!(
                    "V {}",
                    json!({"run": idx, "class": v.class, "detail": v.detail, "tape": small, "orig_len": orig, "shrink_attempts": attempts})
                );
                code = 1;
                break;
            }
        }
        idx += stride;
    }
    drop_scratch(&env);
    let dg: Vec<String> = seen.iter().map(|d| format!("{d:x}")).collect();
    println!(
        "E {}",
        json!({"runs": n, "nontrivial": nontrivial, "ops": ops, "faults": faults, "probes": probes, "samples": samples, "known": known_hits, "digests": dg, "capped": capped})
    );
    code
}

struct Found {
    run: u64,
    class: String,
    detail: String,
    tape: Vec<u64>,
    orig_len: usize,
    attempts: usize,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn spawn_worker(
    p: &Prop,
    seed: u64,
    thorough: bool,
    start: u64,
    stride: u64,
    runs: u64,
    cap: u64,
) -> std::process::Child {
    Command::new(std::env::current_exe().expect("exe"))
        .args([
            "worker",
            p.id,
            "--seed",
            &seed.to_string(),
            "--start",
            &start.to_string(),
            "--stride",
            &stride.to_string(),
        ])
        .args([
            "--runs",
            &runs.to_string(),
            "--cap",
            &cap.to_string(),
            "--tier",
            if thorough { "thorough" } else { "quick" },
        ])
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn worker")
}

fn death_class(status: std::process::ExitStatus) -> Option<&'static str> {
    use std::os::unix::process::ExitStatusExt;
    if status.code() == Some(sys::EXIT_MEMORY) {
        return Some("memory");
    }
    if status.code() == Some(EXIT_CONTAINMENT) {
        return None;
    }
    match status.signal() {
        Some(libc::SIGPROF) => Some("hang"),
        Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL) => Some("abort"),
        _ => None,
    }
}

/// Recover and shrink the tape of a run that kills its process.
fn chase_death(
    p: &'static Prop,
    seed: u64,
    thorough: bool,
    idx: u64,
    class: &'static str,
) -> Option<Found> {
    let tmp = std::env::temp_dir().join(format!("simrek-tape-{}-{}", p.id, std::process::id()));
    let tier = if thorough { "thorough" } else { "quick" };
    let exe = std::env::current_exe().ok()?;
    let st = Command::new(&exe)
        .args([
            "run",
            p.id,
            "--seed",
            &seed.to_string(),
            "--idx",
            &idx.to_string(),
            "--tier",
            tier,
        ])
        .arg("--sink")
        .arg(&tmp)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    if death_class(st) != Some(class) {
        let _ = std::fs::remove_file(&tmp);
        return None;
    }
    let start = read_tape(&tmp);
    let orig_len = start.len();
    let deadline = Instant::now() + Duration::from_secs(if class == "hang" { 100 } else { 60 });
    let (small, attempts) = shrink(
        start,
        |c| {
            write_tape(&tmp, c);
            let st = Command::new(&exe)
                .args(["exec", p.id, "--tier", tier, "--tape"])
                .arg(&tmp)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .ok()?;
            (death_class(st) == Some(class)).then(|| {
                let mut v = c.to_vec();
                while v.last() == Some(&0) {
                    v.pop();
                }
                v
            })
        },
        1500,
        deadline,
    );
    let _ = std::fs::remove_file(&tmp);
    Some(Found {
        run: idx,
        class: class.to_string(),
        detail: format!("the process running the simulation died: {class}"),
        tape: small,
        orig_len,
        attempts,
    })
}

fn check(p: &'static Prop, seed: u64, thorough: bool, runs: u64, workers: u64, cap: u64) -> i32 {
    let t0 = Instant::now();
    let runs = if runs > 0 {
        runs
    } else if thorough {
        p.thorough
    } else {
        p.quick
    };
    println!(
        "simrek {} seed={seed} tier={} runs={runs} workers={workers}",
        p.id,
        if thorough { "thorough" } else { "quick" }
    );
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids = vec![];
    for w in 0..workers {
        let mut c = spawn_worker(p, seed, thorough, w, workers, runs, cap);
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        let wi = w as usize;
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(wi, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Eof(wi));
        });
        kids.push(c);
    }
    drop(tx);
    let mut last: Vec<Option<u64>> = vec![None; workers as usize];
    let mut ended = vec![false; workers as usize];
    let mut open = workers;
    let mut found: Option<Found> = None;
    let mut harness: Option<String> = None;
    let (mut n, mut nontrivial, mut ops) = (0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut capped = false;
    let known = known_findings();
    while open > 0 {
        let Ok(m) = rx.recv() else { break };
        match m {
            Msg::Line(w, l) => {
                if let Some(x) = l.strip_prefix("S ") {
                    last[w] = x.parse().ok();
                } else if let Some(x) = l.strip_prefix("V ") {
                    if let Ok(v) = serde_json::from_str::<Value>(x) {
                        if found.is_none() {
                            found = Some(Found {
                                run: v["run"].as_u64().unwrap_or(0),
                                class: v["class"].as_str().unwrap_or("").into(),
                                detail: v["detail"].as_str().unwrap_or("").into(),
                                tape: v["tape"]
                                    .as_array()
                                    .unwrap()
                                    .iter()
                                    .map(|x| x.as_u64().unwrap())
                                    .collect(),
                                orig_len: v["orig_len"].as_u64().unwrap_or(0) as usize,
                                attempts: v["shrink_attempts"].as_u64().unwrap_or(0) as usize,
                            });
                        }
                    }
                } else if let Some(x) = l.strip_prefix("H ") {
                    harness = Some(x.to_string());
                } else if let Some(x) = l.strip_prefix("E ") {
                    ended[w] = true;
                    if let Ok(v) = serde_json::from_str::<Value>(x) {
                        n += v["runs"].as_u64().unwrap_or(0);
                        nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
                        ops += v["ops"].as_u64().unwrap_or(0);
                        capped |= v["capped"].as_bool().unwrap_or(false);
                        for (m, key) in [
                            (&mut faults, "faults"),
                            (&mut probes, "probes"),
                            (&mut known_hits, "known"),
                        ] {
                            for (k, c) in v[key].as_object().unwrap() {
                                *m.entry(k.clone()).or_insert(0) += c.as_u64().unwrap_or(0);
                            }
                        }
                        for d in v["digests"].as_array().unwrap() {
                            if let Ok(d) = u64::from_str_radix(d.as_str().unwrap_or(""), 16) {
                                seen.insert(d);
                            }
                        }
                        if samples.len() < 3 {
                            samples
                                .extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
                        }
                    }
                }
            }
            Msg::Eof(w) => {
                open -= 1;
                let st = kids[w].wait().ok();
                if !ended[w] && found.is_none() && harness.is_none() {
                    match (st.and_then(death_class), last[w]) {
                        (Some(c), Some(idx)) => {
                            for (i, k) in kids.iter_mut().enumerate() {
                                if i != w {
                                    let _ = k.kill();
                                }
                            }
                            match chase_death(p, seed, thorough, idx, c) {
                                Some(f) => {
                                    if let Some(k) =
                                        known.iter().find(|k| k.0 == p.id && k.1 == f.class)
                                    {
                                        *known_hits.entry(k.1.clone()).or_insert(0) += 1;
                                    }
                                    found = Some(f);
                                }
                                None => {
                                    harness = Some(format!(
                                        "worker died ({c}) in run {idx}, not reproducible"
                                    ))
                                }
                            }
                        }
                        _ => {
                            harness = Some(format!(
                                "worker {w} ended unexpectedly: {st:?} at run {:?}",
                                last[w]
                            ))
                        }
                    }
                }
                if found.is_some() || harness.is_some() {
                    for k in &mut kids {
                        let _ = k.kill();
                    }
                }
            }
        }
    }
    for k in &mut kids {
        let _ = k.wait();
    }
    clean_scratch(p, &kids);
    let wall = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    let mut replay_path = None;
    if let Some(f) = &found {
        match report(p, seed, thorough, f) {
            Ok(path) => {
                println!("violation class: {}", f.class);
                println!("detail: {}", f.detail);
                println!(
                    "tape: {} choices, shrunk from {} in {} attempts",
                    f.tape.len(),
                    f.orig_len,
                    f.attempts
                );
                println!("VIOLATION property={} replay={}", p.id, path.display());
                replay_path = Some(path);
                violations = 1;
                code = 1;
            }
            Err(e) => {
                harness = Some(e);
            }
        }
    }
    if let Some(h) = &harness {
        eprintln!("HARNESS ERROR: {h}");
        code = EXIT_ERROR;
    }
    for k in known.iter().filter(|k| k.0 == p.id) {
        println!(
            "KNOWN-FINDING: property={} {} ({} hits)",
            p.id,
            k.2,
            known_hits.get(&k.1).copied().unwrap_or(0)
        );
    }
    if samples.is_empty() {
        samples.push(json!({"note": "no fault-injected sample recorded", "runs": n}));
    }
    let stuck: Vec<&str> = p
        .must
        .iter()
        .copied()
        .filter(|m| probes.get(*m).copied().unwrap_or(0) == 0)
        .collect();
    if code == 0 && !stuck.is_empty() {
        eprintln!("warning: probes never reached: {stuck:?}");
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": seen.len(),
            "rule": format!("{} Each run draws its own input, history and fault plan from PRNG(seed, property, run index). A run is non-trivial when at least one injected fault, interruption, short transfer, crash, corruption or disturbance actually fired in it; two runs are the same if the digests of their complete event traces (every stream or system call with its arguments, result and injected faults) are equal.", p.rule),
            "nontrivial_runs": nontrivial,
            "samples": samples,
            "runs_per_hour": (n as f64 / wall * 3600.0).round(),
            "seeds_per_hour": (n as f64 / wall * 3600.0).round(),
            "simulated_time": "the system reads no clock; simulated progress is counted in I/O steps",
            "simulated_io_steps": ops,
            "faults_fired": faults,
            "probes": probes,
            "probes_never_reached": stuck,
            "distinct_measure": "distinct event-trace digests among non-trivial runs",
            "real_components": p.real,
            "stubbed_components": p.stub,
            "wall_clock_cap_reached": capped,
            "known_findings_hit": known_hits,
            "replay": replay_path.as_ref().map(|x| x.display().to_string()),
        },
        "assumptions": [
            "sampling: a clean batch is evidence for the sampled runs, not a proof",
            "the simulated stream follows the contracts of std::io::{Read,Write,Seek}"
        ],
        "wall_s": wall,
        "violations": violations
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ) {
        eprintln!("HARNESS ERROR: cannot write evidence: {e}");
        return EXIT_ERROR;
    }
    if code == 0 {
        println!(
            "ok: {n} runs, {} distinct non-trivial, {ops} I/O steps, {wall:.1} s",
            seen.len()
        );
    }
    code
}

fn clean_scratch(p: &Prop, kids: &[std::process::Child]) {
    for k in kids {
        for d in scratch_names(p, k.id()) {
            if d.is_dir() {
                let _ = std::fs::remove_dir_all(&d);
            }
        }
    }
}

/// Write the replay file and make sure a fresh process reproduces the violation from it.
fn report(p: &'static Prop, seed: u64, thorough: bool, f: &Found) -> Result<PathBuf, String> {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-seed{}-run{}.json", p.id, seed, f.run));
    let mut doc = json!({
        "property": p.id, "seed": seed, "run": f.run, "class": f.class, "detail": f.detail,
        "tier": if thorough { "thorough" } else { "quick" }, "tape": f.tape,
    });
    std::fs::write(&path, serde_json::to_string(&doc).unwrap()).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(exe)
        .arg("replay")
        .arg(&path)
        .output()
        .map_err(|e| e.to_string())?;
    let trace: Vec<String> = String::from_utf8_lossy(&o.stdout)
        .lines()
        .map(String::from)
        .collect();
    if o.status.code() != Some(1) {
        return Err(format!(
            "violation '{}' of run {} did not reproduce from {} ({:?}): {}",
            f.class,
            f.run,
            path.display(),
            o.status,
            trace.join(" | ")
        ));
    }
    doc["trace"] = json!(trace);
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n")
        .map_err(|e| e.to_string())?;
    Ok(path)
}

fn replay(f: &Path) -> i32 {
    let Ok(s) = std::fs::read_to_string(f) else {
        return EXIT_ERROR;
    };
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        return EXIT_ERROR;
    };
    let Some(p) = props::all()
        .iter()
        .find(|x| Some(x.id) == v["property"].as_str())
    else {
        return EXIT_ERROR;
    };
    let class = v["class"].as_str().unwrap_or("").to_string();
    let tape: Vec<u64> = v["tape"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect())
        .unwrap_or_default();
    let thorough = v["tier"] == "thorough";
    if ["abort", "memory", "hang"].contains(&class.as_str()) {
        let tmp = std::env::temp_dir().join(format!("simrek-replay-{}", std::process::id()));
        write_tape(&tmp, &tape);
        let o = Command::new(std::env::current_exe().unwrap())
            .args([
                "exec",
                p.id,
                "--tier",
                if thorough { "thorough" } else { "quick" },
                "--tape",
            ])
            .arg(&tmp)
            .output()
            .unwrap();
        let _ = std::fs::remove_file(&tmp);
        println!("{}", String::from_utf8_lossy(&o.stderr));
        let c = death_class(o.status);
        println!("process ended with {:?}: {c:?}", o.status);
        return i32::from(c == Some(class.as_str()));
    }
    let env = Env {
        thorough,
        scratch: make_scratch(p),
    };
    let o = exec(p, Tape::replay(tape), 0, true, &env);
    drop_scratch(&env);
    for l in &o.ctx.log {
        println!("{l}");
    }
    match o.viol {
        Some(x) => {
            println!("violation: {}: {}", x.class, x.detail);
            i32::from(x.class == class)
        }
        None => {
            println!("no violation ({:?})", o.harness_panic);
            0
        }
    }
}

/// Determinism: the same runs in different processes and with different worker counts must
/// have identical event traces.
fn selftest(p: &'static Prop, seed: u64, runs: u64) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let collect = |stride: u64| -> BTreeMap<u64, String> {
        let kids: Vec<_> = (0..stride)
            .map(|w| {
                Command::new(&exe)
                    .args([
                        "worker",
                        p.id,
                        "--digests",
                        "--seed",
                        &seed.to_string(),
                        "--start",
                        &w.to_string(),
                        "--stride",
                        &stride.to_string(),
                        "--runs",
                        &runs.to_string(),
                        "--cap",
                        "600",
                    ])
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap()
            })
            .collect();
        let mut m = BTreeMap::new();
        for k in kids {
            let o = k.wait_with_output().unwrap();
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if let Some(x) = l.strip_prefix("D ") {
                    let mut it = x.splitn(2, ' ');
                    let i: u64 = it.next().unwrap().parse().unwrap();
                    m.insert(i, it.next().unwrap_or("").to_string());
                }
            }
        }
        m
    };
    let a = collect(8);
    let b = collect(3);
    let c = collect(13);
    let bad = a
        .iter()
        .filter(|(k, v)| b.get(k) != Some(v) || c.get(k) != Some(v))
        .count();
    println!(
        "{}: {} runs x 3 process layouts, {} differ, {} missing",
        p.id,
        a.len(),
        bad,
        runs as usize - a.len()
    );
    i32::from(bad > 0 || a.len() != runs as usize)
}

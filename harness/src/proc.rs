//! The process engine: the real command-line tool under the system-call shim (shim/shim.c).

use crate::ctx::Ctx;
use crate::tape::{hash64, Tape};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const EIO: i32 = 5;
pub const ENOSPC: i32 = 28;
pub const EXIT_CRASH: i32 = 137;
const EXIT_BUDGET: i32 = 99;

#[derive(Clone, Debug)]
pub struct Ev {
    pub k: i64,
    pub cls: char,
    pub op: String,
    pub name: String,
    pub res: i64,
    pub fault: String,
}

#[derive(Debug)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub events: Vec<Ev>,
    /// Attempted changes: (call, path relative to the scratch root, or absolute if outside).
    pub muts: Vec<(String, String)>,
    pub denied: Vec<String>,
    pub allocs: u64,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn crashed(&self) -> bool {
        self.code == Some(EXIT_CRASH)
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    /// Ended by the simulator because it does not come to an end.
    pub fn endless(&self) -> bool {
        self.code == Some(EXIT_BUDGET)
            || matches!(
                self.signal,
                Some(libc::SIGALRM | libc::SIGXCPU | libc::SIGKILL)
            )
    }
    pub fn faults_on<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Ev> + 'a {
        self.events
            .iter()
            .filter(move |e| base(&e.name) == name && hard(&e.fault))
    }
    pub fn hard_faults(&self) -> usize {
        self.events.iter().filter(|e| hard(&e.fault)).count()
    }
}

pub fn base(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or(p)
}
/// A fault that may legitimately change the outcome of a command.
pub fn hard(f: &str) -> bool {
    !matches!(f, "" | "short" | "eintr")
}

/// Hash of text that may hold part of the scratch directory's name (which ends with a number).
fn masked(b: &[u8]) -> u64 {
    let v: Vec<u8> = b
        .iter()
        .map(|c| if c.is_ascii_digit() { b'0' } else { *c })
        .collect();
    hash64(&v)
}

/// A scratch world: dev/ is the input, out/ the output, else/ holds files nobody may touch.
pub struct World {
    pub root: PathBuf,
    log: PathBuf,
}

fn open_up(p: &Path) {
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777));
}

impl World {
    pub fn new(ctx: &Ctx) -> World {
        let s = ctx.scratch.clone().expect("scratch directory");
        let root = s.join("root");
        if root.exists() {
            std::fs::remove_dir_all(&root).expect("empty scratch");
        }
        open_up(&s);
        for d in ["", "dev", "else"] {
            std::fs::create_dir_all(root.join(d)).expect("scratch");
            open_up(&root.join(d));
        }
        World {
            log: s.join("log"),
            root,
        }
    }
    pub fn put(&self, rel: &str, bytes: &[u8]) {
        let p = self.root.join(rel);
        let mut d = p.parent().unwrap().to_path_buf();
        std::fs::create_dir_all(&d).expect("mkdir");
        while d != self.root {
            open_up(&d);
            d.pop();
        }
        std::fs::write(&p, bytes).expect("write");
        let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o666));
    }
    pub fn link(&self, rel: &str, target: &str) {
        let _ = std::os::unix::fs::symlink(target, self.root.join(rel));
    }
    pub fn mkdir(&self, rel: &str) {
        std::fs::create_dir_all(self.root.join(rel)).expect("mkdir");
        open_up(&self.root.join(rel));
    }
    /// Every file below a directory with its contents (directories have None).
    pub fn snapshot(&self, rel: &str) -> Vec<(String, Option<Vec<u8>>)> {
        fn walk(base: &Path, p: &Path, out: &mut Vec<(String, Option<Vec<u8>>)>) {
            let Ok(rd) = std::fs::read_dir(p) else {
                return;
            };
            for e in rd.flatten() {
                let q = e.path();
                let name = q.strip_prefix(base).unwrap().to_string_lossy().to_string();
                if q.is_dir() {
                    out.push((name, None));
                    walk(base, &q, out);
                } else {
                    out.push((name, Some(std::fs::read(&q).unwrap_or_default())));
                }
            }
        }
        let b = self.root.join(rel);
        let mut v = vec![];
        walk(&b, &b, &mut v);
        v.sort();
        v
    }
    /// Paths of this world, independent of where it lies.
    pub fn neutral(&self, s: &str) -> String {
        // The name of the scratch directory also appears in names derived from its path.
        let name = self.root.parent().and_then(|p| p.file_name());
        s.replace(name.and_then(|n| n.to_str()).expect("scratch name"), "SCRATCH")
    }

    pub fn run(&self, ctx: &mut Ctx, args: &[String], plan: &str) -> Ran {
        let exe = std::env::current_exe().expect("exe");
        let dir = exe.parent().expect("dir");
        let shim = dir.parent().expect("target").join("shim.so");
        assert!(shim.exists(), "shim.so is missing");
        let o = Command::new(dir.join("rekordcrate"))
            .args(args)
            .current_dir(&self.root)
            .env_clear()
            .env("LD_PRELOAD", &shim)
            .env("SIMSHIM_ROOT", &self.root)
            .env("SIMSHIM_LOG", &self.log)
            .env("SIMSHIM_PLAN", plan)
            .stdin(Stdio::null())
            .output()
            .expect("spawn");
        let text = std::fs::read(&self.log).expect("the shim was not active");
        let text = String::from_utf8_lossy(&text);
        let mut r = Ran {
            code: o.status.code(),
            signal: o.status.signal(),
            out: o.stdout,
            err: String::from_utf8_lossy(&o.stderr).into_owned(),
            events: vec![],
            muts: vec![],
            denied: vec![],
            allocs: 0,
        };
        ctx.say(|| format!("run: rekordcrate {} [{plan}]", self.neutral(&args.join(" "))));
        for l in text.lines() {
            let mut it = l.splitn(2, ' ');
            let first = it.next().unwrap_or("");
            let rest = it.next().unwrap_or("");
            match first {
                "mut" | "deny" => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
                    if first == "deny" {
                        r.denied.push(format!("{a} {b}"));
                    } else if a != "write" {
                        r.muts.push((a.into(), b.into()));
                    }
                    ctx.digest.add(masked(self.neutral(l).as_bytes()));
                }
                "allocs" => r.allocs = rest.parse().unwrap_or(0),
                _ => {
                    // k class op name = result [!fault]
                    let Some((head, tail)) = rest.rsplit_once(" = ") else {
                        continue;
                    };
                    let mut h = head.splitn(3, ' ');
                    let cls = h.next().and_then(|c| c.chars().next()).unwrap_or('?');
                    let op = h.next().unwrap_or("").to_string();
                    let name = h.next().unwrap_or("").to_string();
                    let (res, fault) = match tail.split_once(" !") {
                        Some((a, b)) => (a, b),
                        None => (tail, ""),
                    };
                    ctx.io_ops += 1;
                    ctx.digest.add(hash64(first.as_bytes()));
                    ctx.digest.add(masked(self.neutral(head).as_bytes()));
                    ctx.digest.add(hash64(tail.as_bytes()));
                    if !fault.is_empty() {
                        ctx.fault(&format!("{op}_{fault}"), 1);
                        ctx.say(|| format!("  fault: {l}"));
                    }
                    r.events.push(Ev {
                        k: first.parse().unwrap_or(-1),
                        cls,
                        op,
                        name,
                        res: res.parse().unwrap_or(0),
                        fault: fault.into(),
                    });
                }
            }
        }
        ctx.digest
            .add(masked(self.neutral(&String::from_utf8_lossy(&r.out)).as_bytes()));
        ctx.digest.add_bytes(r.status().as_bytes());
        ctx.say(|| {
            format!(
                "  {} calls, {}, {} bytes of output, stderr {:?}",
                r.events.len(),
                r.status(),
                r.out.len(),
                self.neutral(&r.err).chars().take(300).collect::<String>()
            )
        });
        r
    }
}

/// How the simulated system delivers data, and the hash seed: none of this may matter.
pub fn gen_delivery(t: &mut Tape) -> String {
    let mut s = format!("hash={}", t.draw(1 << 30));
    if t.chance(1, 2) {
        s += &format!(";seed={}", t.draw(1 << 30));
        if t.chance(2, 3) {
            s += &format!(";rshort={}", *t.pick(&[1u64, 3, 16, 100, 4096]));
        }
        if t.chance(1, 2) {
            s += &format!(";reintr={}", *t.pick(&[2u64, 20, 100]));
        }
        if t.chance(1, 2) {
            s += &format!(";wshort={}", *t.pick(&[1u64, 3, 16, 100]));
        }
        if t.chance(1, 2) {
            s += &format!(";weintr={}", *t.pick(&[2u64, 20, 100]));
        }
    }
    s
}

#[derive(Clone, Copy)]
pub struct Menu {
    pub input: bool,
    pub output: bool,
    pub stdout: bool,
    pub crash: bool,
    pub alloc: bool,
}

/// Draw one fault against a call that the fault-free execution is known to make.
pub fn gen_fault(t: &mut Tape, base: &Ran, m: Menu) -> Option<String> {
    if m.alloc && t.chance(1, 12) && base.allocs > 0 {
        return Some(format!(";alloc={}", t.draw(base.allocs)));
    }
    if m.output && t.chance(1, 10) {
        let total: i64 = base
            .events
            .iter()
            .filter(|e| e.cls == 'o' && e.op == "write" && e.res > 0)
            .map(|e| e.res)
            .sum();
        return Some(format!(";ocap={}", t.draw(total.max(0) as u64 + 1)));
    }
    if m.stdout && t.chance(1, 3) {
        return Some(format!(";scap={}", t.draw(base.out.len() as u64 + 1)));
    }
    let want = |e: &&Ev| match e.cls {
        'i' => m.input,
        's' => m.stdout,
        'o' | 'x' => m.output,
        _ => false,
    };
    let mut kinds: Vec<(char, &str)> = vec![];
    for e in base.events.iter().filter(want) {
        if !kinds.contains(&(e.cls, e.op.as_str())) {
            kinds.push((e.cls, &e.op));
        }
    }
    if kinds.is_empty() {
        return None;
    }
    let (cls, op) = *t.pick(&kinds);
    let evs: Vec<&Ev> = base
        .events
        .iter()
        .filter(|e| e.cls == cls && e.op == op)
        .collect();
    let e = evs[match t.draw(4) {
        0 => t.usize(evs.len()),
        1 => t.usize(evs.len().min(4)),
        2 => evs.len() - 1 - t.usize(evs.len().min(4)),
        _ => evs.len() - 1,
    }];
    if m.crash && t.chance(1, 4) {
        let (k, a) = match (op, t.draw(3)) {
            ("write", 1) => ('t', t.draw(100)),
            (_, 2) => ('x', 0),
            _ => ('c', 0),
        };
        return Some(format!(";at={}:0:{k}:{a}:{cls}:{op}", e.k));
    }
    let errs: &[i32] = match op {
        "read" | "lseek" | "close" | "fsync" => &[EIO],
        "open" => &[libc::ENOENT, libc::EACCES, EIO, libc::EMFILE, libc::ELOOP],
        "stat" | "realpath" => &[EIO, libc::EACCES, libc::ENOENT],
        "write" => &[ENOSPC, EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE],
        _ => &[ENOSPC, libc::EACCES, libc::EROFS, EIO, libc::EMFILE, libc::EPERM],
    };
    let sticky = i32::from(if cls == 's' { t.chance(1, 2) } else { t.chance(1, 3) });
    if (op == "read" || op == "write") && t.chance(1, 4) {
        return Some(format!(";at={}:{sticky}:z:0:{cls}:{op}", e.k));
    }
    Some(format!(";at={}:{sticky}:e:{}:{cls}:{op}", e.k, t.pick(errs)))
}

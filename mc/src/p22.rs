//! P22: the schedules of the worker threads. The real binary runs under the controlled scheduler
//! of shim/sched.c; this explores the schedules and judges every run.
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

const BIN: &str = "/verif/target/sched/x86_64-unknown-linux-gnu/release/ludtwig";
const SHIM: &str = "/verif/target/sched.so";

struct Setup {
    name: &'static str,
    entries: Vec<Entry>,
    args: Vec<&'static str>,
}

const NESTED: &str = "{{ (a === (a === (a === (a === (a === (a === (a === (a === (a === (a === (a === a))))))))))) }}\n";

fn setups() -> Vec<Setup> {
    let a = "{{ \"a\" }}{{ x|foo }}\n";
    let b = "<p>\nx\n</p>\n{{ a && b }}\n";
    vec![
        Setup { name: "two files", args: vec!["a.twig", "b.twig"], entries: vec![file("a.twig", a), file("b.twig", b)] },
        Setup { name: "errors", args: vec!["t"], entries: vec![file("t/a.twig", a), file("t/bad.twig", b"{{ a }}\xff\n"), file("t/c.twig", "<p>\n")] },
        Setup { name: "fix", args: vec!["-f", "a.twig", "gives-up.twig", "b.twig"], entries: vec![file("a.twig", a), file("gives-up.twig", NESTED), file("b.twig", b)] },
        Setup { name: "repeated", args: vec!["-f", "a.twig", "./a.twig", "b.twig", "a.twig"], entries: vec![file("a.twig", a), file("b.twig", b)] },
        Setup { name: "missing", args: vec!["missing.twig", "a.twig", "t"], entries: vec![file("a.twig", a), dir("t")] },
        Setup { name: "inspect", args: vec!["-i", "a.twig", "b.twig"], entries: vec![file("a.twig", "{{ a }}\n"), file("b.twig", "{{ \"b\" }}\n")] },
        Setup { name: "nothing", args: vec!["t"], entries: vec![dir("t/x")] },
        Setup { name: "clean", args: vec!["a.twig", "b.twig"], entries: vec![file("a.twig", "{{ a }}\n"), file("b.twig", "")] },
        Setup { name: "long", args: vec!["a.twig", "b.twig"], entries: vec![file("a.twig", a.repeat(45)), file("b.twig", b.repeat(45))] },
        Setup { name: "many", args: vec!["-f", "t"], entries: (0..12).map(|i| file(&format!("t/{i}.twig"), if i % 3 == 2 { "x\n" } else { a })).collect() },
        Setup { name: "directories", args: vec!["-f", "t"], entries: vec![file("t/x/a.twig", a), file("t/y/b.twig", b), file("t/z/c.twig", "x")] },
    ]
}

// ---------------------------------------------------------------- one run

#[derive(Clone, Copy, Debug)]
struct Rec {
    step: u32,
    cur: u8,
    kind: u8,
    enabled: u16,
    addr: u64,
    pc: u64,
}

fn read_log(p: &Path) -> (u64, Vec<Rec>) {
    let Ok(b) = std::fs::read(p) else { return (0, vec![]) };
    if b.len() < 24 {
        return (0, vec![]);
    }
    let rec = |i: usize| {
        let x = &b[i * 24..i * 24 + 24];
        Rec {
            step: u32::from_le_bytes(x[0..4].try_into().unwrap()),
            cur: x[4],
            kind: x[5],
            enabled: u16::from_le_bytes(x[6..8].try_into().unwrap()),
            addr: u64::from_le_bytes(x[8..16].try_into().unwrap()),
            pc: u64::from_le_bytes(x[16..24].try_into().unwrap()),
        }
    };
    let h = rec(0);
    let n = (h.addr as usize).min(b.len() / 24);
    (h.pc, (1..n).map(rec).collect())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Dev {
    step: u32,
    cur: u8,
    to: u8,
}

struct Ran {
    code: Option<i32>,
    stdout: String,
    stderr: String,
    tree: BTreeMap<String, Seen>,
    timed_out: bool,
}

unsafe extern "C" {
    fn personality(p: u64) -> i32;
}

fn spawn(w: &World, args: &[&str], env: &[(&str, String)], bin: &Path) -> Ran {
    let so = w.sc.path.join("stdout");
    let se = w.sc.path.join("stderr");
    let mut cmd = Command::new(bin);
    cmd.current_dir(w.root()).args(args).stdin(Stdio::null()).env_clear();
    cmd.env("NO_COLOR", "1").env("TERM", "dumb").env("HOME", &w.sc.path).env("PATH", "/usr/bin:/bin");
    for (k, v) in env {
        cmd.env(k, v);
    }
    // the same addresses in every run
    unsafe {
        cmd.pre_exec(|| {
            personality(0x0040000);
            Ok(())
        });
    }
    cmd.stdout(std::fs::File::create(&so).unwrap()).stderr(std::fs::File::create(&se).unwrap());
    let mut child = cmd.spawn().unwrap_or_else(|e| panic!("spawn: {e}"));
    let t0 = std::time::Instant::now();
    let mut r = Ran { code: None, stdout: String::new(), stderr: String::new(), tree: BTreeMap::new(), timed_out: false };
    let mut delay = 300u64;
    loop {
        match child.try_wait().unwrap() {
            Some(s) => {
                r.code = s.code();
                break;
            }
            None if t0.elapsed().as_secs() > 60 => {
                let _ = child.kill();
                let _ = child.wait();
                r.timed_out = true;
                break;
            }
            None => {
                std::thread::sleep(std::time::Duration::from_micros(delay));
                delay = (delay + 200).min(2000);
            }
        }
    }
    r.stdout = String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).into_owned();
    r.stderr = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned();
    r.tree = w.look();
    r
}

fn controlled(w: &World, s: &Setup, policy: usize, devs: &[Dev], log: Option<&Path>) -> Ran {
    let mut env = vec![
        ("LD_PRELOAD", SHIM.to_string()),
        ("RAYON_NUM_THREADS", "3".to_string()),
        ("SCHED_CPUS", "2".to_string()),
        ("SCHED_POLICY", policy.to_string()),
        ("SCHED_DEV", devs.iter().map(|d| format!("{}:{}:{}", d.step, d.cur, d.to)).collect::<Vec<_>>().join(",")),
    ];
    if let Some(l) = log {
        env.push(("SCHED_LOG", l.to_string_lossy().into_owned()));
    }
    spawn(w, &s.args, &env, Path::new(BIN))
}

// ---------------------------------------------------------------- the oracle

/// What a sequential run says, cut into the pieces that may come in any order.
struct Expect {
    code: Option<i32>,
    stdout: Vec<String>,      // sorted lines
    pieces: Vec<String>,      // of stderr
    tail: String,             // the end of stderr
    tree: BTreeMap<String, Vec<u8>>,
}

fn norm(s: &str) -> String {
    s.replace("./", "")
}

fn contents(t: &BTreeMap<String, Seen>) -> BTreeMap<String, Vec<u8>> {
    t.iter().map(|(p, s)| (p.clone(), s.bytes.clone())).collect()
}

fn sequential(s: &Setup) -> Expect {
    let one = |args: &[&str]| {
        let w = World::new(&s.entries, None);
        spawn(&w, args, &[("RAYON_NUM_THREADS", "1".into())], &ludtwig_bin())
    };
    let full = one(&s.args);
    let opts: Vec<&str> = s.args.iter().copied().filter(|a| a.starts_with('-')).collect();
    // every file on its own
    let mut names: Vec<String> = s.entries.iter().filter(|e| matches!(e.item, Item::File(_))).map(|e| e.path.clone()).collect();
    names.extend(s.args.iter().filter(|a| a.contains("missing")).map(|a| a.to_string()));
    let mut pieces = vec![];
    let mut rest = norm(&full.stderr);
    for n in &names {
        let r = one(&[opts.clone(), vec![n]].concat());
        let text = norm(&r.stderr);
        let mut piece = text.split("\nFiles scanned:").next().unwrap().to_string();
        if piece.is_empty() {
            continue;
        }
        if !text.contains("Files scanned:") {
            piece = text.clone();
        }
        if let Some(at) = rest.find(&piece) {
            rest.replace_range(at..at + piece.len(), "");
            pieces.push(piece);
        }
    }
    pieces.sort_by_key(|p| std::cmp::Reverse(p.len()));
    let mut lines: Vec<String> = norm(&full.stdout).lines().map(String::from).collect();
    lines.sort();
    Expect { code: full.code, stdout: lines, pieces, tail: rest, tree: contents(&full.tree) }
}

fn judge(e: &Expect, r: &Ran) -> Option<String> {
    match r.code {
        Some(99) => return Some("deadlock".into()),
        Some(98) => return Some("does not end".into()),
        _ => {}
    }
    if r.timed_out {
        return Some("does not end".into());
    }
    if r.code != e.code {
        return Some(format!("exit code {:?} instead of {:?}", r.code, e.code));
    }
    let err = norm(&r.stderr);
    let mut rest = err.as_str();
    let mut left: Vec<&String> = e.pieces.iter().collect();
    while let Some(i) = left.iter().position(|p| rest.starts_with(p.as_str())) {
        rest = &rest[left[i].len()..];
        left.remove(i);
    }
    if !left.is_empty() {
        return Some(format!("findings or errors are missing, incomplete or mixed up: {left:?} not found at {rest:?}"));
    }
    if rest != e.tail {
        return Some(format!("end of the error output is {rest:?} instead of {:?}", e.tail));
    }
    let out = norm(&r.stdout);
    let mut lines: Vec<String> = out.lines().map(String::from).collect();
    lines.sort();
    if lines != e.stdout {
        return Some(format!("standard output is {out:?}"));
    }
    if let Some(at) = out.find("Files scanned:") {
        if out[at..].trim_end().contains('\n') {
            return Some(format!("output behind the summary: {out:?}"));
        }
    }
    let tree = contents(&r.tree);
    if tree != e.tree {
        let d: Vec<_> = tree.iter().filter(|(p, b)| e.tree.get(*p) != Some(b)).map(|x| x.0).collect();
        return Some(format!("files differ: {d:?}"));
    }
    None
}

// ---------------------------------------------------------------- exploration

/// Code of the thread pool and of the directory walk (not of ludtwig and std).
struct Symbols {
    at: Vec<(u64, bool)>,
}
impl Symbols {
    fn new() -> Self {
        let o = Command::new("nm").args(["-C", BIN]).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        let mut at: Vec<(u64, bool)> = o
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, ' ');
                let a = u64::from_str_radix(p.next()?, 16).ok()?;
                let k = p.next()?;
                let n = p.next()?;
                let lib = ["rayon", "crossbeam", "ignore::", "regex", "aho_corasick", "globset", "tracing", "memchr", "hashbrown", "figment", "toml"].iter().any(|x| n.contains(x)) && !n.contains("ludtwig");
                "tTwW".contains(k).then_some((a, lib))
            })
            .collect();
        at.sort();
        Symbols { at }
    }
    fn library(&self, off: u64) -> bool {
        let i = self.at.partition_point(|x| x.0 <= off);
        i > 0 && self.at[i - 1].1
    }
}

struct Point {
    rec: Rec,
    library: bool,
}

/// The points of a run at which another thread could go on instead.
fn points(sy: &Symbols, base: u64, log: &[Rec]) -> Vec<Point> {
    let mut users: HashMap<u64, u32> = HashMap::new();
    for r in log {
        *users.entry(r.addr).or_default() |= 1 << r.cur;
    }
    log.iter()
        .filter(|r| r.enabled & !(1 << r.cur) != 0)
        .filter(|r| !matches!(r.kind, 1..=3) || users[&r.addr].count_ones() > 1)
        .map(|r| Point { rec: *r, library: matches!(r.kind, 1..=6) && sy.library(r.pc.wrapping_sub(base)) })
        .collect()
}

fn others(r: &Rec) -> Vec<Dev> {
    (0..16u8).filter(|t| r.enabled & (1 << t) != 0 && *t != r.cur).map(|to| Dev { step: r.step, cur: r.cur, to }).collect()
}

struct Explorer<'a> {
    ctx: &'a Ctx,
    runs: AtomicU64,
    diverged: AtomicU64,
}

impl Explorer<'_> {
    fn one(&self, w: &World, fresh: bool, s: &Setup, e: &Expect, policy: usize, devs: &[Dev], log: Option<&Path>) {
        let own;
        let w = if fresh {
            own = World::new(&s.entries, None);
            &own
        } else {
            w
        };
        let r = controlled(w, s, policy, devs, log);
        self.runs.fetch_add(1, Ordering::Relaxed);
        self.ctx.state(1);
        self.ctx.trace(1);
        if r.code == Some(95) {
            self.diverged.fetch_add(1, Ordering::Relaxed);
            return;
        }
        self.ctx.outcome(&format!("{} {:?}", s.name, r.code), 1);
        if let Some(why) = judge(e, &r) {
            let sched = devs.iter().map(|d| format!("{}:{}:{}", d.step, d.cur, d.to)).collect::<Vec<_>>().join(",");
            self.ctx.violation(
                &format!("schedule {} policy {policy} {sched}", s.name),
                &format!("ludtwig {} with schedule [policy {policy}, {sched}]: {why}", s.args.join(" ")),
                &format!("replay: RAYON_NUM_THREADS=3 SCHED_CPUS=2 SCHED_POLICY={policy} SCHED_DEV={sched} LD_PRELOAD={SHIM} setarch -R {BIN} {}\nexit code {:?}\nstdout:\n{}\nstderr:\n{}", s.args.join(" "), r.code, r.stdout, r.stderr),
            );
        }
    }
}

pub fn p22(ctx: &Ctx) {
    let sy = Symbols::new();
    let x = Explorer { ctx, runs: AtomicU64::new(0), diverged: AtomicU64::new(0) };
    let max_same = |library: bool| if ctx.quick() { if library { 1 } else { 4 } } else if library { 12 } else { usize::MAX };
    let mut notes = vec![];
    for s in setups() {
        let e = sequential(&s);
        let fix = s.args.contains(&"-f");
        let policies: &[usize] = &[0, 1, 2];
        for &policy in policies {
            if ctx.violation_count() > 50 {
                return;
            }
            let w = World::new(&s.entries, None);
            let log = w.sc.path.join("log");
            x.one(&w, false, &s, &e, policy, &[], Some(&log));
            let (base, recs) = read_log(&log);
            if recs.is_empty() {
                ctx.violation(&format!("no log {}", s.name), "MACHINERY: the scheduler does not work", "");
                return;
            }
            let ps = points(&sy, base, &recs);
            ctx.transition(recs.len() as u64);
            // one preemption (a long run has many slots of the channel that are used in the same way)
            let per_object = !(ctx.quick() && s.name == "long");
            let mut seen: HashMap<(u64, u8, u64), usize> = HashMap::new();
            let mut firsts: Vec<(Dev, bool)> = vec![];
            for p in &ps {
                let n = seen.entry((p.rec.pc, p.rec.cur, if per_object { p.rec.addr } else { 0 })).or_default();
                *n += 1;
                if *n <= max_same(p.library) {
                    firsts.extend(others(&p.rec).into_iter().map(|d| (d, p.library)));
                }
            }
            let before = x.runs.load(Ordering::Relaxed);
            // two preemptions, both in the code of ludtwig and std
            let deep = policy == 0 && if ctx.quick() { matches!(s.name, "two files" | "nothing") } else { matches!(s.name, "two files" | "nothing" | "repeated" | "errors" | "fix") };
            let next: Mutex<Vec<(usize, Dev)>> = Mutex::new(vec![]);
            let worlds: Mutex<Vec<World>> = Mutex::new(vec![]);
            let with_world = |f: &mut dyn FnMut(&World)| {
                let w = worlds.lock().unwrap().pop().unwrap_or_else(|| World::new(&s.entries, None));
                f(&w);
                worlds.lock().unwrap().push(w);
            };
            // the first visits of every modifying, blocking or I/O operation of every thread
            let per = if ctx.quick() { 1 } else { 2 };
            let mut q: HashMap<(u64, u8), usize> = HashMap::new();
            let first_set: BTreeSet<u32> = ps
                .iter()
                .filter(|p| !p.library && !matches!(p.rec.kind, 1 | 3))
                .filter(|p| {
                    let n = q.entry((p.rec.pc, p.rec.cur)).or_default();
                    *n += 1;
                    *n <= per
                })
                .map(|p| p.rec.step)
                .collect();
            par_for(firsts.len(), 4, |i| {
                with_world(&mut |w| {
                    let (d, lib) = &firsts[i];
                    let lg = w.sc.path.join("log");
                    let more = deep && !lib && first_set.contains(&d.step);
                    x.one(w, fix, &s, &e, policy, std::slice::from_ref(d), more.then_some(&lg));
                    if more {
                        let (base, recs) = read_log(&lg);
                        let mut seen: HashMap<(u64, u8), usize> = HashMap::new();
                        let mut out = vec![];
                        for p in points(&sy, base, &recs) {
                            if p.library || matches!(p.rec.kind, 1 | 3) || p.rec.step <= d.step {
                                continue;
                            }
                            let n = seen.entry((p.rec.pc, p.rec.cur)).or_default();
                            *n += 1;
                            if *n <= per {
                                out.extend(others(&p.rec).into_iter().map(|d| (i, d)));
                            }
                        }
                        next.lock().unwrap().extend(out);
                    }
                });
            });
            let one = x.runs.load(Ordering::Relaxed) - before;
            let mut chosen = next.into_inner().unwrap();
            chosen.sort();
            par_for(chosen.len(), 4, |k| {
                with_world(&mut |w| {
                    let (i, d) = &chosen[k];
                    x.one(w, fix, &s, &e, policy, &[firsts[*i].0.clone(), d.clone()], None);
                });
            });
            notes.push(format!("{} policy {policy}: {} points, {} of them contended, {one} schedules with one preemption, {} with two", s.name, recs.len(), ps.len(), chosen.len()));
            if policy == 0 {
                ctx.sample(format!("ludtwig {}: {} steps, threads {:?}", s.args.join(" "), recs.len(), recs.iter().map(|r| r.cur).collect::<BTreeSet<_>>()));
            }
        }
    }
    ctx.note("schedules", notes.join("; "));
    ctx.note("runs", x.runs.load(Ordering::Relaxed).to_string());
    ctx.note("diverged (not judged)", x.diverged.load(Ordering::Relaxed).to_string());
}

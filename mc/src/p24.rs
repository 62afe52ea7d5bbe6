//! P24: the command line, the environment and the standard streams.
use crate::core::{par_for, Ctx};
use crate::cli::{ludtwig_bin, parse_stderr, RunOut};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::os::fd::OwnedFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

const SHIM: &str = "/verif/target/stream.so";
const TEXT: &str = "{{ a && b }}{{ \"q\" }}\n";
const FIXED_ALL: &str = "{{ a and b }}{{ 'q' }}\n";
const FIXED_CFG: &str = "{{ a and b }}{{ \"q\" }}\n";

fn entries() -> Vec<Entry> {
    vec![
        file("a.twig", TEXT),
        file("d/b.twig", TEXT),
        file("clean.twig", "{{ a }}\n"),
        file("cfg.toml", "[general]\nactive-rules = [\"twig-logic-and\"]\n\n[format]\ntwig-quotation = \"single\"\n"),
    ]
}

// ---------------------------------------------------------------- running

/// What a standard stream is connected to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Stream {
    Normal,
    Null,
    Closed,
    Full,
    BrokenPipe,
    ReadOnly,
}
use Stream::*;

struct Done {
    code: Option<i32>,
    timed_out: bool,
    stdout: String,
    stderr: String,
    out: RunOut,
}

fn broken_pipe() -> OwnedFd {
    let (r, w) = std::io::pipe().unwrap();
    drop(r);
    w.into()
}

unsafe extern "C" {
    fn close(fd: i32) -> i32;
}

fn connect(s: Stream, log: &std::path::Path, input: bool) -> Stdio {
    match s {
        Normal if input => Stdio::from(std::fs::File::open("/dev/null").unwrap()),
        Normal => Stdio::from(std::fs::File::create(log).unwrap()),
        Null | Closed => Stdio::null(),
        Full => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        BrokenPipe => Stdio::from(broken_pipe()),
        ReadOnly => Stdio::from(std::fs::File::open("/dev/null").unwrap()),
    }
}

fn run(w: &World, cwd: &str, args: &[&OsStr], env: &[(&OsStr, &OsStr)], streams: [Stream; 3]) -> Done {
    let so = w.sc.path.join("stdout");
    let se = w.sc.path.join("stderr");
    let _ = std::fs::remove_file(&so);
    let _ = std::fs::remove_file(&se);
    let mut cmd = Command::new(ludtwig_bin());
    cmd.current_dir(w.root().join(cwd)).args(args).env_clear();
    cmd.env("NO_COLOR", "1").env("TERM", "dumb").env("HOME", &w.sc.path).env("PATH", "/usr/bin:/bin").env("RAYON_NUM_THREADS", "2");
    for (k, v) in env {
        cmd.env(k, v);
    }
    cmd.stdin(connect(streams[0], &so, true)).stdout(connect(streams[1], &so, false)).stderr(connect(streams[2], &se, false));
    let closed: Vec<i32> = (0..3).filter(|i| streams[*i as usize] == Closed).collect();
    unsafe {
        cmd.pre_exec(move || {
            for f in &closed {
                close(*f);
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().unwrap_or_else(|e| panic!("spawn: {e}"));
    let t0 = std::time::Instant::now();
    let mut d = Done { code: None, timed_out: false, stdout: String::new(), stderr: String::new(), out: RunOut::default() };
    let mut delay = 100u64;
    loop {
        match child.try_wait().unwrap() {
            Some(s) => {
                d.code = s.code();
                break;
            }
            None if t0.elapsed().as_secs() > 30 => {
                let _ = child.kill();
                let _ = child.wait();
                d.timed_out = true;
                break;
            }
            None => {
                std::thread::sleep(std::time::Duration::from_micros(delay));
                delay = (delay * 3 / 2).min(3000);
            }
        }
    }
    let read = |p: &std::path::Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    d.stdout = read(&so);
    d.stderr = read(&se);
    parse_stderr(&d.stderr, &mut d.out);
    if d.out.summary.is_none() {
        let mut o = RunOut::default();
        parse_stderr(&d.stdout, &mut o);
        d.out.summary = o.summary;
    }
    d
}

fn files(w: &World) -> BTreeMap<String, Vec<u8>> {
    w.look().into_iter().map(|(p, s)| (p, s.bytes)).collect()
}

// ---------------------------------------------------------------- what a command line means

#[derive(Clone, Debug, Default, PartialEq)]
struct Opt {
    fix: bool,
    verbose: bool,
    inspect: bool,
    create: bool,
    config: Option<String>,
    files: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Meaning {
    Help,
    Version,
    Rejected,
    Run(Opt),
}

/// The conventions for command lines: options and paths in any order, short options can be joined,
/// values are joined, joined with `=` or separate, `--` ends the options.
fn meaning(args: &[&str]) -> Meaning {
    let mut o = Opt::default();
    let mut given: BTreeSet<char> = BTreeSet::new();
    let mut it = args.iter().copied();
    let mut only_files = false;
    while let Some(a) = it.next() {
        if !only_files && a == "--" {
            only_files = true;
            continue;
        }
        if only_files || !a.starts_with('-') || a == "-" {
            if a.is_empty() {
                return Meaning::Rejected;
            }
            o.files.push(a.to_string());
            continue;
        }
        // (option, value that is joined to it)
        let mut here: Vec<(char, Option<&str>)> = vec![];
        if let Some(l) = a.strip_prefix("--") {
            let (name, value) = l.split_once('=').map_or((l, None), |(n, v)| (n, Some(v)));
            let c = match name {
                "fix" => 'f',
                "verbose" => 'v',
                "inspect" => 'i',
                "config-path" => 'c',
                "create-config" => 'C',
                "help" => 'h',
                "version" => 'V',
                _ => return Meaning::Rejected,
            };
            here.push((c, value));
        } else {
            let mut rest = &a[1..];
            while let Some(c) = rest.chars().next() {
                rest = &rest[c.len_utf8()..];
                match c {
                    'c' => {
                        here.push((c, (!rest.is_empty()).then(|| rest.strip_prefix('=').unwrap_or(rest))));
                        rest = "";
                    }
                    'f' | 'v' | 'i' | 'C' | 'h' | 'V' => here.push((c, None)),
                    _ => here.push(('?', None)),
                }
            }
        }
        for (c, value) in here {
            if c == '?' || (c != 'c' && value.is_some()) {
                return Meaning::Rejected;
            }
            match c {
                'h' => return Meaning::Help,
                'V' => return Meaning::Version,
                _ => {}
            }
            if !given.insert(c) {
                return Meaning::Rejected;
            }
            match c {
                'f' => o.fix = true,
                'v' => o.verbose = true,
                'i' => o.inspect = true,
                'C' => o.create = true,
                _ => {
                    let v = match value {
                        Some(v) => v,
                        None => match it.next() {
                            Some(v) if v == "-" || !v.starts_with('-') => v,
                            _ => return Meaning::Rejected,
                        },
                    };
                    if v.is_empty() {
                        return Meaning::Rejected;
                    }
                    o.config = Some(v.to_string());
                }
            }
        }
    }
    if o.create != o.files.is_empty() {
        return Meaning::Rejected;
    }
    Meaning::Run(o)
}

const TOKENS: &[&str] = &[
    "-f", "--fix", "-v", "--verbose", "-i", "--inspect", "-c", "cfg.toml", "-ccfg.toml", "-c=cfg.toml", "--config-path", "--config-path=cfg.toml", "--config-path=", "-C", "--create-config", "-h", "--help", "-V", "--version", "--", "a.twig", "d", "./a.twig", "clean.twig", "-fv", "-vf", "-fc", "-Cv", "-if", "-ff", "-x",
    "-fx", "--fixx", "--fi", "--fix=1", "", "none.toml", "help", "-viCc", "-hx", "-",
];

fn vectors(ctx: &Ctx) -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&str>> = vec![vec![]];
    for a in TOKENS {
        v.push(vec![a]);
        for b in TOKENS {
            v.push(vec![a, b]);
            for c in TOKENS {
                v.push(vec![a, b, c]);
            }
        }
    }
    // longer ones
    let some: &[&str] = if ctx.quick() { &["-f", "-vi", "-c", "cfg.toml", "a.twig", "--"] } else { &["-f", "-v", "-i", "-C", "-c", "cfg.toml", "-fv", "a.twig", "d", "--", "--fix"] };
    for a in some {
        for b in some {
            for c in some {
                for d in some {
                    v.push(vec![a, b, c, d]);
                    if ctx.quick() || [a, b, c, d].iter().any(|x| **x == "a.twig") {
                        for e in some {
                            v.push(vec![a, b, c, d, e]);
                        }
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// (findings of a file, content after fix)
fn of_file(cfg: bool, path: &str) -> (u64, u64, &'static str) {
    match path {
        "clean.twig" => (0, 0, "{{ a }}\n"),
        _ if cfg => (1, 0, FIXED_CFG),
        _ => (1, 1, FIXED_ALL),
    }
}

fn command_lines(ctx: &Ctx) {
    let vs = vectors(ctx);
    ctx.note("command lines", format!("{} of {} arguments", vs.len(), TOKENS.len()));
    let pool = std::sync::Mutex::new(Vec::<World>::new());
    let before: BTreeMap<String, Vec<u8>> = files(&World::new(&entries(), None));
    let n = vs.len();
    par_for(n, 64, |i| {
        if ctx.violation_count() > 200 {
            return;
        }
        let args = &vs[i];
        let w = pool.lock().unwrap().pop().unwrap_or_else(|| World::new(&entries(), None));
        let m = meaning(args);
        let os: Vec<&OsStr> = args.iter().map(OsStr::new).collect();
        let r = run(&w, "", &os, &[], [Null, Normal, Normal]);
        ctx.state(1);
        ctx.transition(args.len() as u64);
        ctx.trace(1);
        let key = format!("args {args:?}");
        let body = format!("ludtwig {args:?}\nexit code {:?}\nstdout:\n{}\nstderr:\n{}", r.code, r.stdout, r.stderr);
        let fail = |why: String| ctx.violation(&key, &format!("ludtwig {args:?}: {why}"), &body);
        let after = files(&w);
        if r.timed_out || r.code.is_none() || r.stderr.contains("panicked at") {
            return fail(format!("ended with {:?}", r.code));
        }
        let mut want = before.clone();
        let (kind, code) = match &m {
            Meaning::Help => ("help", 0),
            Meaning::Version => ("version", 0),
            Meaning::Rejected => ("rejected", 2),
            Meaning::Run(o) if o.create => {
                let target = o.config.as_deref().map_or("ludtwig-config.toml", |c| c.strip_prefix("./").unwrap_or(c));
                if before.contains_key(target) || target == "d" {
                    ("not created", 1)
                } else {
                    if after.get(target).is_none_or(|b| !b.starts_with(b"#") && b.is_empty()) {
                        return fail("the configuration was not created".into());
                    }
                    want.insert(target.to_string(), after[target].clone());
                    ("created", 0)
                }
            }
            Meaning::Run(o) => {
                let cfg = match o.config.as_deref() {
                    Some("cfg.toml" | "./cfg.toml") => true,
                    Some("d" | "a.twig" | "./a.twig" | "clean.twig") => return judge_bad_config(&r, &after, &before, &fail, w, &pool),
                    _ => false,
                };
                let mut selected: BTreeSet<&str> = BTreeSet::new();
                let mut others = 0;
                let mut missing = 0;
                for f in &o.files {
                    match f.as_str() {
                        "a.twig" | "./a.twig" => {
                            selected.insert("a.twig");
                        }
                        "clean.twig" => {
                            selected.insert("clean.twig");
                        }
                        "d" => {
                            selected.insert("d/b.twig");
                        }
                        "cfg.toml" => others = 1,
                        _ => missing += 1,
                    }
                }
                let mut errors = missing;
                let mut helps = 0;
                for p in &selected {
                    let (e, h, fixed) = of_file(cfg, p);
                    if o.fix {
                        want.insert(p.to_string(), fixed.into());
                    } else {
                        errors += e;
                        helps += h;
                    }
                }
                // (a file that is given itself is always processed; cfg.toml has no twig in it)
                let files = selected.len() as u64 + others;
                let info = if o.inspect { files } else { 0 };
                let Some(s) = r.out.summary else { return fail("no summary".into()) };
                if others == 0 && (s.files, s.errors, s.warnings, s.helps, s.info) != (files, errors, 0, helps, info) {
                    return fail(format!("summary {s:?}, expected are {files} files, {errors} errors, {helps} helps, {info} info"));
                }
                if others == 1 && (s.files, s.info) != (files, info) {
                    return fail(format!("summary {s:?}, expected are {files} files, {info} info"));
                }
                if r.stdout.contains("Used config values") != o.verbose {
                    return fail(format!("the configuration is printed: {}", !o.verbose));
                }
                if r.stderr.matches("SyntaxTree").count() as u64 != info {
                    return fail("syntax trees".into());
                }
                if !r.stdout.contains(if cfg { "Loaded configuration file" } else { "Using default config" }) {
                    return fail("another configuration is used".into());
                }
                if others == 1 {
                    // the findings of the configuration file itself are not judged here
                    ("run", r.code.unwrap())
                } else {
                    ("run", i32::from(errors + helps > 0))
                }
            }
        };
        ctx.outcome(&format!("command line: {kind} {:?}", r.code), 1);
        if r.code != Some(code) {
            return fail(format!("{kind} expected: exit code {:?} instead of {code}", r.code));
        }
        if kind == "rejected" && (r.stderr.trim().is_empty() || r.stdout.contains("Scanning")) {
            return fail("a command line that is rejected needs a message".into());
        }
        if kind == "help" && !["--fix", "--config-path", "--create-config", "--verbose", "--inspect"].iter().all(|x| r.stdout.contains(x)) {
            return fail("help is not complete".into());
        }
        if kind == "version" && !r.stdout.starts_with("ludtwig ") {
            return fail("version is not printed".into());
        }
        if let Meaning::Run(o) = &m {
            if o.fix && o.files.iter().any(|f| f == "cfg.toml") {
                want.insert("cfg.toml".into(), after["cfg.toml"].clone());
            }
        }
        if after != want {
            let d: Vec<&String> = after.iter().filter(|(p, b)| want.get(*p) != Some(b)).map(|x| x.0).collect();
            return fail(format!("{kind}: files differ from the expectation: {d:?}"));
        }
        if i % (n / 8) == 0 {
            ctx.sample(format!("ludtwig {args:?}: {m:?}, exit code {:?}", r.code));
        }
        if after == before {
            pool.lock().unwrap().push(w);
        }
    });
}

fn judge_bad_config(r: &Done, after: &BTreeMap<String, Vec<u8>>, before: &BTreeMap<String, Vec<u8>>, fail: &dyn Fn(String), w: World, pool: &std::sync::Mutex<Vec<World>>) {
    if r.code != Some(1) || r.stderr.trim().is_empty() {
        return fail(format!("the configuration is not valid, exit code {:?}", r.code));
    }
    if after != before {
        return fail("files were changed although the configuration is not valid".into());
    }
    pool.lock().unwrap().push(w);
}

// ---------------------------------------------------------------- streams

const SETUPS: &[(&str, &[&str])] = &[
    ("lint", &["a.twig", "d"]),
    ("lint clean", &["clean.twig"]),
    ("fix", &["-f", "a.twig", "d"]),
    ("verbose", &["-v", "-c", "cfg.toml", "a.twig"]),
    ("inspect", &["-i", "a.twig"]),
    ("missing", &["missing.twig", "a.twig"]),
    ("create", &["-C"]),
    ("create existing", &["-C", "-c", "cfg.toml"]),
    ("invalid configuration", &["-f", "-c", "a.twig", "a.twig"]),
    ("help", &["-h"]),
    ("version", &["-V"]),
    ("usage", &["--nothing"]),
];

fn streams(ctx: &Ctx) {
    let all = [Normal, Null, Closed, Full, BrokenPipe, ReadOnly];
    let ins = [Null, Closed, Normal];
    let n = SETUPS.len() * all.len() * all.len() * ins.len();
    ctx.note("streams", format!("{n} runs with every state of the three streams"));
    let usual: Vec<(Option<i32>, BTreeMap<String, Vec<u8>>, String, String)> = SETUPS
        .iter()
        .map(|(_, a)| {
            let w = World::new(&entries(), None);
            let os: Vec<&OsStr> = a.iter().map(OsStr::new).collect();
            let r = run(&w, "", &os, &[], [Null, Normal, Normal]);
            (r.code, files(&w), r.stdout, r.stderr)
        })
        .collect();
    let sorted = |s: &str| {
        let mut l: Vec<String> = s.lines().map(String::from).collect();
        l.sort();
        l
    };
    let judge = |key: String, k: usize, w: &World, r: &Done, complete: [bool; 2]| {
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(1);
        let (code, tree, so, se) = &usual[k];
        let fail = |why: String| ctx.violation(&key, &format!("{key}: {why}"), &format!("ludtwig {:?}\nexit code {:?}\nstdout:\n{}\nstderr:\n{}", SETUPS[k].1, r.code, r.stdout, r.stderr));
        ctx.outcome(&format!("streams {} {:?}", SETUPS[k].0, r.code), 1);
        if r.timed_out || r.code.is_none() || r.stderr.contains("panicked at") || r.code == Some(101) {
            return fail(format!("crash, exit code {:?}", r.code));
        }
        if r.code != *code {
            return fail(format!("exit code {:?} instead of {code:?}", r.code));
        }
        if files(w) != *tree {
            return fail("files differ".into());
        }
        if complete[0] && sorted(&r.stdout) != sorted(so) {
            return fail("standard output differs".into());
        }
        if complete[1] && sorted(&r.stderr) != sorted(se) {
            return fail("error output differs".into());
        }
    };
    par_for(n, 4, |i| {
        let k = i % SETUPS.len();
        let j = i / SETUPS.len();
        let s = [ins[j / 36], all[j / 6 % 6], all[j % 6]];
        let w = World::new(&entries(), None);
        let os: Vec<&OsStr> = SETUPS[k].1.iter().map(OsStr::new).collect();
        let r = run(&w, "", &os, &[], s);
        judge(format!("streams {}: stdin {:?} stdout {:?} stderr {:?}", SETUPS[k].0, s[0], s[1], s[2]), k, &w, &r, [s[1] == Normal, s[2] == Normal]);
    });
    // every single write fails, or all from there on
    let mut points = vec![];
    for k in 0..SETUPS.len() {
        for fd in [1, 2, 3] {
            let w = World::new(&entries(), None);
            let log = w.sc.path.join("writes");
            let f = fd.to_string();
            let os: Vec<&OsStr> = SETUPS[k].1.iter().map(OsStr::new).collect();
            run(&w, "", &os, &[(OsStr::new("LD_PRELOAD"), OsStr::new(SHIM)), (OsStr::new("STREAM_FD"), OsStr::new(&f)), (OsStr::new("STREAM_LOG"), log.as_os_str())], [Null, Normal, Normal]);
            let writes = std::fs::read(&log).map_or(0, |b| b.len());
            if writes == 0 && fd == 3 {
                ctx.violation("no writes", "MACHINERY: the shim sees no writes", "");
            }
            for from in 0..writes {
                for err in [32, 28, 5, 11, 4, 0] {
                    for once in [false, true] {
                        if err == 4 && !once {
                            continue; // interrupted for ever
                        }
                        points.push((k, fd, from, err, once));
                    }
                }
            }
        }
    }
    ctx.note("failing writes to the streams", points.len().to_string());
    par_for(points.len(), 4, |i| {
        let (k, fd, from, err, once) = points[i];
        let w = World::new(&entries(), None);
        let (f, n, e) = (fd.to_string(), from.to_string(), err.to_string());
        let mut env: Vec<(&OsStr, &OsStr)> = vec![(OsStr::new("LD_PRELOAD"), OsStr::new(SHIM)), (OsStr::new("STREAM_FD"), OsStr::new(&f)), (OsStr::new("STREAM_FROM"), OsStr::new(&n)), (OsStr::new("STREAM_ERR"), OsStr::new(&e))];
        if once {
            env.push((OsStr::new("STREAM_ONCE"), OsStr::new("1")));
        }
        let os: Vec<&OsStr> = SETUPS[k].1.iter().map(OsStr::new).collect();
        let r = run(&w, "", &os, &env, [Null, Normal, Normal]);
        // an interrupted or a short write is continued, nothing is lost
        let harmless = err == 4 || err == 0;
        judge(format!("streams {}: write {from} to {} {} {err}", SETUPS[k].0, ["", "stdout", "stderr", "both"][fd], if once { "fails once:" } else { "and all later ones fail:" }), k, &w, &r, [harmless || fd == 2, harmless || fd == 1]);
    });
}

// ---------------------------------------------------------------- environment

fn environments(ctx: &Ctx) {
    let b = |s: &'static [u8]| OsStr::from_bytes(s).to_os_string();
    let big = OsString::from("x".repeat(100_000));
    let vars: Vec<(OsString, OsString)> = vec![
        (b(b"FOO"), b(b"\xff")),
        (b(b"F\xff\xfe"), b(b"x")),
        (b(b"LUDTWIG_\xff"), b(b"x")),
        (b(b"LUDTWIG_FOO"), b(b"\xff\xfe")),
        (b(b"LUDTWIG_"), b(b"")),
        (b(b"LUDTWIG"), b(b"x")),
        (b(b"LUDTWIGX"), b(b"{")),
        (b(b"ludtwigx"), b(b"{")),
        (b(b"FOO"), b(b"")),
        (b(b"FOO"), big),
        (b(b"LANG"), b(b"de_DE.ISO-8859-1")),
        (b(b"LC_ALL"), b(b"C")),
        (b(b"LC_ALL"), b(b"\xe9")),
        (b(b"TERM"), b(b"")),
        (b(b"TERM"), b(b"xterm-256color")),
        (b(b"TERM"), b(b"\xff")),
        (b(b"NO_COLOR"), b(b"\xff")),
        (b(b"COLUMNS"), b(b"1")),
        (b(b"COLUMNS"), b(b"x")),
        (b(b"LINES"), b(b"0")),
        (b(b"HOME"), b(b"")),
        (b(b"HOME"), b(b"/nonexistent")),
        (b(b"HOME"), b(b"\xff")),
        (b(b"PATH"), b(b"")),
        (b(b"TMPDIR"), b(b"/nonexistent")),
        (b(b"PWD"), b(b"/nonexistent")),
        (b(b"PWD"), b(b"")),
        (b(b"XDG_CONFIG_HOME"), b(b"\xff")),
        (b(b"RAYON_NUM_THREADS"), b(b"1")),
        (b(b"RAYON_NUM_THREADS"), b(b"0")),
        (b(b"RAYON_NUM_THREADS"), b(b"64")),
        (b(b"RAYON_NUM_THREADS"), b(b"abc")),
        (b(b"RAYON_NUM_THREADS"), b(b"-1")),
        (b(b"RAYON_NUM_THREADS"), b(b"\xff")),
        (b(b"RUST_BACKTRACE"), b(b"1")),
        (b(b"RUST_LOG"), b(b"trace")),
        (b(b"CLICOLOR"), b(b"0")),
        (b(b"COLORTERM"), b(b"truecolor")),
        (b(b"GIT_DIR"), b(b"/nonexistent")),
        (b(b"TZ"), b(b"x")),
    ];
    let setups: &[(&str, &[&str])] = &[("lint", &["a.twig", "d"]), ("fix", &["-f", "."]), ("config", &["-v", "-c", "cfg.toml", "clean.twig"]), ("create", &["-C"])];
    let mut sets: Vec<Vec<usize>> = (0..vars.len()).map(|i| vec![i]).collect();
    for i in 0..vars.len() {
        for j in i + 1..vars.len() {
            if vars[i].0 != vars[j].0 {
                sets.push(vec![i, j]);
            }
        }
    }
    ctx.note("environments", format!("{} sets of variables, {} set-ups", sets.len(), setups.len()));
    let visible = |s: &str| {
        let mut l: Vec<String> = s.lines().filter(|l| !l.starts_with("Found environment variable")).map(String::from).collect();
        l.sort();
        l
    };
    let usual: Vec<_> = setups
        .iter()
        .map(|(_, a)| {
            let w = World::new(&entries(), None);
            let os: Vec<&OsStr> = a.iter().map(OsStr::new).collect();
            let r = run(&w, "", &os, &[], [Null, Normal, Normal]);
            (r.code, files(&w), visible(&r.stdout), visible(&r.stderr))
        })
        .collect();
    par_for(sets.len() * setups.len(), 8, |i| {
        let (set, k) = (&sets[i / setups.len()], i % setups.len());
        let w = World::new(&entries(), None);
        let os: Vec<&OsStr> = setups[k].1.iter().map(OsStr::new).collect();
        let env: Vec<(&OsStr, &OsStr)> = set.iter().map(|v| (vars[*v].0.as_os_str(), vars[*v].1.as_os_str())).collect();
        let r = run(&w, "", &os, &env, [Null, Normal, Normal]);
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(1);
        let short = |o: &OsStr| o.as_bytes()[..o.len().min(30)].escape_ascii().to_string();
        let name = env.iter().map(|(k, v)| format!("{}={}", short(k), short(v))).collect::<Vec<_>>().join(" ");
        let key = format!("environment {name} {}", setups[k].0);
        let fail = |why: String| ctx.violation(&key, &format!("{key}: {why}"), &format!("ludtwig {:?}\nexit code {:?}\nstdout:\n{}\nstderr:\n{}", setups[k].1, r.code, r.stdout, r.stderr));
        ctx.outcome(&format!("environment {} {:?}", setups[k].0, r.code), 1);
        if r.timed_out || r.code.is_none() || r.stderr.contains("panicked at") {
            return fail(format!("crash, exit code {:?}", r.code));
        }
        let (code, tree, so, se) = &usual[k];
        if r.code != *code {
            return fail(format!("exit code {:?} instead of {code:?}", r.code));
        }
        if files(&w) != *tree {
            return fail("files differ".into());
        }
        if visible(&r.stdout) != *so || visible(&r.stderr) != *se {
            fail("the output differs".into());
        }
    });
}

pub fn p24(ctx: &Ctx) {
    environments(ctx);
    streams(ctx);
    command_lines(ctx);
}

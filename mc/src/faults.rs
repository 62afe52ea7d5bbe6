//! P20: every single failing file operation, and every sequence of two, of small runs.
//! The operations are intercepted with an LD_PRELOAD shim (shim/fault.c).
use crate::core::{par_for, Ctx};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

struct Setup {
    name: &'static str,
    entries: Vec<Entry>,
    args: Vec<&'static str>,
}

fn setups() -> Vec<Setup> {
    let two = |name, args| Setup {
        name,
        args,
        entries: vec![
            file("a.twig", "{{ \"a\" }}{{ x|nofilter }}\n"),
            file("b.twig", "<p>\nx\n</p>\n"),
            file("d/c.twig", "{{ a && \"c\" }}<a b='c'>x</a>\n"),
            file("d/e/clean.twig", "{{ a }}\n"),
        ],
    };
    let big = format!("{}{{{{ \"a\" }}}}\n", "<p>some text</p>\n".repeat(2000));
    vec![
        two("files-lint", vec!["a.twig", "b.twig"]),
        two("files-fix", vec!["-f", "a.twig", "b.twig"]),
        two("dir-lint", vec!["."]),
        two("dir-fix", vec!["-f", "."]),
        two("mixed-fix", vec!["-f", "b.twig", "d", "d/c.twig"]),
        Setup { name: "big-fix", args: vec!["-f", "big.twig", "a.twig"], entries: vec![file("big.twig", &big), file("a.twig", "{{ \"a\" }}\n")] },
        Setup {
            name: "config-fix",
            args: vec!["-f", "d"],
            entries: vec![
                file("ludtwig-config.toml", "[general]\nactive-rules = [\"twig-string-quotation\"]\n\n[format]\ntwig-quotation = \"single\"\n"),
                file("d/a.twig", "{{ 'a' ~ \"b\" }}{{ a && b }}\n"),
                file("d/b.twig", "{{ \"c\" }}\n"),
            ],
        },
        Setup {
            name: "ignore-fix",
            args: vec!["-f", "."],
            entries: vec![
                file(".ludtwig-ignore", "x.twig\n"),
                file("x.twig", "{{ \"a\" }}\n"),
                file("d/.ludtwig-ignore", "y.twig\n"),
                file("d/y.twig", "{{ \"a\" }}\n"),
                file("d/c.twig", "{{ \"a\" }}\n"),
                file("e/c.twig", "{{ \"a\" }}\n"),
            ],
        },
    ]
}

fn errnos(kind: &str) -> &'static [(&'static str, &'static str)] {
    match kind {
        "open" => &[("EACCES", "13"), ("EIO", "5"), ("ENOENT", "2"), ("EMFILE", "24"), ("EINTR", "4")],
        "openw" => &[("EACCES", "13"), ("EROFS", "30"), ("ENOSPC", "28"), ("ETXTBSY", "26"), ("EINTR", "4")],
        "read" => &[("EIO", "5"), ("EISDIR", "21"), ("EINTR", "4"), ("short", "short")],
        "write" => &[("ENOSPC", "28"), ("EIO", "5"), ("EDQUOT", "122"), ("EINTR", "4"), ("short", "short")],
        "stat" => &[("EACCES", "13"), ("EIO", "5"), ("ENOENT", "2")],
        "realpath" => &[("EACCES", "13"), ("ELOOP", "40")],
        "opendir" => &[("EACCES", "13"), ("EMFILE", "24"), ("EIO", "5")],
        "readdir" => &[("EIO", "5")],
        "close" => &[("EIO", "5"), ("EINTR", "4")],
        _ => &[],
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Op {
    kind: String,
    path: String,
    n: usize,
}
impl Op {
    fn text(&self) -> String {
        format!("{} {} {}", self.kind, self.path, self.n)
    }
}

#[derive(Clone, Debug)]
struct Fault {
    op: Op,
    how: &'static str, // name
    val: &'static str,
}

struct Obs {
    r: Raw,
    tree: BTreeMap<String, Seen>,
    before: BTreeMap<String, Seen>,
    log: Vec<Op>,
    fired: usize,
}

fn run(s: &Setup, faults: &[Fault]) -> Obs {
    let w = World::new(&s.entries, None);
    let before = w.look();
    let root = w.root().to_string_lossy().into_owned();
    let log = w.sc.path.join("log").to_string_lossy().into_owned();
    let at = faults.iter().map(|f| format!("{}={}", f.op.text(), f.val)).collect::<Vec<_>>().join(";");
    let r = w.run("", &s.args, &[("LD_PRELOAD", "/verif/target/fault.so"), ("SHIM_ROOT", &root), ("SHIM_LOG", &log), ("SHIM_AT", &at), ("RAYON_NUM_THREADS", "2")], 60);
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let ops = text
        .lines()
        .filter(|l| !l.starts_with('!'))
        .filter_map(|l| {
            let (kind, rest) = l.split_once(' ')?;
            let (path, n) = rest.rsplit_once(' ')?;
            Some(Op { kind: kind.into(), path: path.into(), n: n.parse().ok()? })
        })
        .collect();
    Obs { r, tree: w.look(), before, log: ops, fired: text.lines().filter(|l| l.starts_with('!')).count() }
}

fn norm(p: &str) -> &str {
    p.strip_prefix("./").unwrap_or(p)
}

fn diags(o: &Obs) -> BTreeMap<String, Vec<(String, char, usize, usize, String)>> {
    let mut m = BTreeMap::new();
    for (p, v) in &o.r.out.diags {
        let mut v: Vec<_> = v.iter().map(|d| (d.rule.clone(), d.sev, d.line, d.col, d.msg.clone())).collect();
        v.sort();
        m.insert(norm(p).to_string(), v);
    }
    m
}

fn is_ignore_file(p: &str) -> bool {
    let name = p.rsplit('/').next().unwrap();
    matches!(name, ".ludtwig-ignore" | ".ignore" | ".gitignore" | ".git" | ".jj" | "exclude") || p.contains(".git/")
}

/// The oracle: what may differ from the run without faults.
fn judge(s: &Setup, clean: &Obs, o: &Obs, faults: &[Fault], fail: &mut dyn FnMut(String, String)) {
    let out = &o.r.out;
    if out.timed_out {
        return fail("".into(), "does not terminate".into());
    }
    if out.signal || !matches!(out.code, Some(0 | 1)) {
        return fail("".into(), format!("ended with {:?}", out.code));
    }
    let soft = |f: &&Fault| f.how == "short" || (f.how == "EINTR" && f.op.kind != "openw") || f.op.kind == "close";
    let hard: Vec<&Fault> = faults.iter().filter(|f| !soft(f) && f.how != "EINTR").collect();
    let on_config = hard.iter().any(|f| f.op.path == "ludtwig-config.toml");
    let has_ignore = s.entries.iter().any(|e| is_ignore_file(&e.path));
    let on_ignore = has_ignore && hard.iter().any(|f| is_ignore_file(&f.op.path));
    let aborted = out.summary.is_none();
    if aborted {
        let why = on_config || hard.iter().any(|f| f.op.path == ".ludtwig-ignore");
        if !why {
            return fail("".into(), "no summary".into());
        }
        if out.code != Some(1) || !o.r.stderr.contains("Error") {
            fail("".into(), format!("gave up with exit code {:?} and without an error", out.code));
        }
        if o.tree != o.before {
            fail("".into(), "gave up, but a file was touched".into());
        }
        return;
    }
    if on_config && s.name == "config-fix" {
        // only a failing stat can make the file look like it is missing
        if hard.iter().any(|f| f.op.path == "ludtwig-config.toml" && f.op.kind != "stat" && f.op.n == 1) {
            fail("".into(), "the configuration could not be read, but the run went on".into());
        }
        return;
    }
    let clean_diags = diags(clean);
    let got_diags = diags(o);
    let twig: Vec<&String> = clean.before.iter().filter(|(p, v)| v.kind == 'f' && p.ends_with(".twig")).map(|(p, _)| p).collect();
    let mut errors = 0;
    for p in &twig {
        let own: Vec<&&Fault> = hard.iter().filter(|f| f.op.path == **p).collect();
        let must = own.iter().any(|f| matches!(f.op.kind.as_str(), "open" | "read" | "openw" | "write"));
        let may = own.iter().any(|f| f.op.kind == "stat");
        let above = hard.iter().any(|f| matches!(f.op.kind.as_str(), "opendir" | "readdir" | "stat") && (f.op.path == "." || p.starts_with(&format!("{}/", f.op.path))));
        let above_named = |l: &str| hard.iter().any(|f| (f.op.path == "." || p.starts_with(&format!("{}/", f.op.path))) && l.contains(&f.op.path));
        let named = out.err_lines.iter().filter(|l| l.starts_with("Error: ") && l.contains(p.as_str())).count();
        errors += named;
        let (b, c, a) = (&o.before[*p], &clean.tree[*p], &o.tree[*p]);
        let as_usual = a.bytes == c.bytes && got_diags.get(*p) == clean_diags.get(*p) && named == 0;
        let untouched = a.bytes == b.bytes;
        let _ = c;
        if must {
            let lost = own.iter().any(|f| f.op.kind == "write");
            if named != 1 {
                fail(p.to_string(), format!("{named} errors name it: {:?}", out.err_lines));
            }
            if !untouched {
                let what = if a.bytes.is_empty() { "is empty now".to_string() } else { format!("is {:?} now", String::from_utf8_lossy(&a.bytes)) };
                fail(format!("{p}{}", if lost && b.bytes != a.bytes { " content" } else { "" }), format!("could not be written, it {what}"));
            }
            if got_diags.contains_key(*p) {
                fail(p.to_string(), "findings were printed".into());
            }
        } else if on_ignore {
            // (which files are selected may change)
            if !(untouched || a.bytes == c.bytes || named > 0 || a.bytes.len() < b.bytes.len() + 10) {
                fail(p.to_string(), "was changed".into());
            }
        } else if !as_usual {
            let ok = (may && (untouched || a.bytes == c.bytes) && named >= 1)
                || (above && untouched && !got_diags.contains_key(*p) && (named > 0 || out.err_lines.iter().any(|l| l.starts_with("Error: ") && above_named(l)) || out.code == Some(1) && out.err_lines.iter().any(|l| l.starts_with("Error: "))));
            if !ok {
                fail(p.to_string(), format!("result differs from the run without faults; errors {:?}, findings {:?}", out.err_lines, got_diags.get(*p)));
            }
        }
        if a.kind != b.kind || a.mode != b.mode || a.ino != o.before[*p].ino {
            fail(p.to_string(), "is another file now".into());
        }
        if untouched && b.bytes == c.bytes && a.mtime != o.before[*p].mtime {
            fail(p.to_string(), "was written".into());
        }
    }
    let _ = errors;
    for p in o.tree.keys() {
        if !o.before.contains_key(p) {
            fail(p.clone(), "was created".into());
        }
    }
    for l in out.err_lines.iter().filter(|l| l.starts_with("Error: ")) {
        if !hard.iter().any(|f| l.contains(&f.op.path)) && !hard.iter().any(|f| matches!(f.op.kind.as_str(), "opendir" | "readdir")) {
            fail("".into(), format!("error about something else: {l}"));
        }
    }
    // counts
    let lines = out.err_lines.iter().filter(|l| l.starts_with("Error: ")).count() as u64;
    let sum = out.summary.unwrap();
    let printed = out.diags.values().flatten().count() as u64;
    if sum.total != printed + lines || sum.errors < lines {
        fail("".into(), format!("summary {sum:?} with {lines} errors and {printed} findings printed"));
    }
    if out.code != Some((sum.errors + sum.warnings + sum.helps > 0) as i32) {
        fail("".into(), format!("exit code {:?} with {sum:?}", out.code));
    }
}

pub fn explore(ctx: &Ctx) {
    let setups = setups();
    let total = Mutex::new(BTreeMap::<String, u64>::new());
    let reached = Mutex::new(BTreeSet::<String>::new());
    for s in &setups {
        let clean = run(s, &[]);
        if clean.log.is_empty() || clean.r.out.summary.is_none() {
            ctx.violation(&format!("fault {} none", s.name), "the run without faults does not work (or is not intercepted)", &clean.r.stderr);
            continue;
        }
        ctx.state(1);
        ctx.transition(clean.log.len() as u64);
        ctx.trace(1);
        let faults_at = |op: &Op| errnos(&op.kind).iter().map(|(how, val)| Fault { op: op.clone(), how, val }).collect::<Vec<_>>();
        let one = |faults: &[Fault]| -> Vec<Op> {
            let o = run(s, faults);
            ctx.state(1);
            ctx.transition(o.log.len() as u64);
            ctx.trace(1);
            let key = format!("{} {}", s.name, faults.iter().map(|f| format!("{}={}", f.op.text(), f.how)).collect::<Vec<_>>().join(" then "));
            *total.lock().unwrap().entry(format!("{} {}", s.name, faults.len())).or_default() += 1;
            let fired: Vec<Fault> = faults.iter().filter(|f| o.log.contains(&f.op)).cloned().collect();
            if o.fired != fired.len() {
                ctx.violation(&format!("fault {key}"), "MACHINERY: a fault was not injected", &o.r.stderr);
            }
            for f in &fired {
                reached.lock().unwrap().insert(format!("{} {}", f.op.kind, f.how));
            }
            judge(s, &clean, &o, &fired, &mut |p, why| {
                // the content is lost by a failing write whatever else fails
                let k = if let Some(p) = p.strip_suffix(" content") {
                    let f = fired.iter().find(|f| f.op.kind == "write" && f.op.path == p).unwrap();
                    format!("fault {} write {p} fails: content lost", s.name).to_string() + if f.op.n > 1 { " later" } else { "" }
                } else {
                    format!("fault {key} {p}")
                };
                ctx.violation(&k, &format!("ludtwig {} with {key}: {p} {why}", s.args.join(" ")), &format!("exit code {:?}\nstdout:\n{}\nstderr:\n{}", o.r.out.code, o.r.out.stdout, o.r.stderr));
            });
            ctx.outcome(&format!("fault {:?} {}", o.r.out.code, if o.r.out.summary.is_some() { "summary" } else { "gave up" }), 1);
            o.log
        };
        let ops: Vec<Op> = clean.log.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
        let singles: Vec<Fault> = ops.iter().flat_map(faults_at).collect();
        let logs = Mutex::new(vec![]);
        par_for(singles.len(), 1, |i| {
            let log = one(&singles[i..=i]);
            logs.lock().unwrap().push((i, log));
        });
        // sequences of two: what is done after the first fault, with one error per operation
        let mut pairs: Vec<(usize, Fault)> = vec![];
        for (i, log) in logs.into_inner().unwrap() {
            if ctx.quick() && singles[i].how != errnos(&singles[i].op.kind)[0].0 && singles[i].how != "short" {
                continue;
            }
            let after: BTreeSet<Op> = log.into_iter().skip_while(|o| *o != singles[i].op).skip(1).collect();
            for op in after {
                let fs = faults_at(&op);
                if ctx.quick() {
                    let uninteresting = matches!(op.kind.as_str(), "stat" | "realpath" | "close") || is_ignore_file(&op.path);
                    let first = matches!(singles[i].op.kind.as_str(), "stat" | "realpath" | "close") || is_ignore_file(&singles[i].op.path);
                    if uninteresting || first {
                        continue;
                    }
                    pairs.extend(fs.into_iter().take(1).map(|f| (i, f)));
                } else {
                    pairs.extend(fs.into_iter().map(|f| (i, f)));
                }
            }
        }
        par_for(pairs.len(), 1, |k| {
            if ctx.violation_count() > 300 {
                return;
            }
            let (i, f) = &pairs[k];
            one(&[singles[*i].clone(), f.clone()]);
        });
        // killed before or after every operation: no file is damaged, except the one being written
        let kills: Vec<Fault> = ops.iter().flat_map(|op| [("kill", "kill"), ("dies", "dies")].map(|(how, val)| Fault { op: op.clone(), how, val })).filter(|f| f.how == "kill" || matches!(f.op.kind.as_str(), "open" | "openw" | "read" | "write" | "close")).collect();
        par_for(kills.len(), 1, |i| {
            let o = run(s, &kills[i..=i]);
            ctx.state(1);
            ctx.transition(o.log.len() as u64);
            ctx.trace(1);
            for (p, b) in &o.before {
                let (Some(a), c) = (o.tree.get(p), &clean.tree[p]) else {
                    ctx.violation(&format!("fault {} {} {p}", s.name, kills[i].op.text()), &format!("{p} disappeared"), "");
                    continue;
                };
                let writing = o.log.iter().filter(|x| x.path == *p && x.kind == "openw").count() > 0;
                let done = o.log.iter().any(|x| x.path == *p && x.kind == "close" && x.n == 2);
                if a.bytes != b.bytes && a.bytes != c.bytes && (done || !writing) {
                    let k = &kills[i];
                    ctx.violation(&format!("fault {} {}={} {p}", s.name, k.op.text(), k.how), &format!("ludtwig {} killed at {}: {p} is damaged", s.args.join(" "), k.op.text()), &String::from_utf8_lossy(&a.bytes));
                }
            }
            ctx.outcome("fault killed", 1);
        });
        *total.lock().unwrap().entry(format!("{} killed", s.name)).or_default() += kills.len() as u64;
    }
    ctx.note("fault runs", total.into_inner().unwrap().iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", "));
    ctx.note("faults reached", reached.into_inner().unwrap().into_iter().collect::<Vec<_>>().join(", "));
}

/// P21: every failing operation and crash point of -C, and a file that appears meanwhile.
pub fn create_config(ctx: &Ctx, default: &[u8]) {
    let setups = [
        Setup { name: "create", args: vec!["-C"], entries: vec![dir("t"), file("a.twig", "{{ \"a\" }}\n")] },
        Setup { name: "create-at", args: vec!["-C", "-c", "t/my.toml"], entries: vec![dir("t"), file("ludtwig-config.toml", "[format]\n")] },
        Setup { name: "create-existing", args: vec!["-C", "-v"], entries: vec![file("ludtwig-config.toml", "[format]\n")] },
    ];
    let mut n = 0;
    for s in &setups {
        let target = if s.name == "create-at" { "t/my.toml" } else { "ludtwig-config.toml" };
        let clean = run(s, &[]);
        let exists = clean.before.contains_key(target);
        let ops: BTreeSet<Op> = clean.log.iter().cloned().collect();
        let mut faults: Vec<Fault> = vec![];
        for op in &ops {
            faults.extend(errnos(&op.kind).iter().map(|(how, val)| Fault { op: op.clone(), how, val }));
            faults.extend([("kill", "kill"), ("dies", "dies"), ("appear", "appear")].map(|(how, val)| Fault { op: op.clone(), how, val }));
        }
        if ops.is_empty() || clean.r.out.code != Some(exists as i32) {
            ctx.violation(&format!("fault {} none", s.name), "the run without faults does not work (or is not intercepted)", &clean.r.stderr);
        }
        let mut sets: Vec<Vec<Fault>> = faults.iter().map(|f| vec![f.clone()]).collect();
        for a in &faults {
            for b in faults.iter().filter(|b| b.op > a.op) {
                sets.push(vec![a.clone(), b.clone()]);
            }
        }
        for set in &sets {
            let o = run(s, set);
            ctx.state(1);
            ctx.transition(o.log.len() as u64);
            ctx.trace(1);
            n += 1;
            let fired: Vec<&Fault> = set.iter().filter(|f| o.log.contains(&f.op)).collect();
            let key = format!("fault {} {}", s.name, set.iter().map(|f| format!("{}={}", f.op.text(), f.how)).collect::<Vec<_>>().join(" then "));
            let fail = |why: String| ctx.violation(&key, &format!("ludtwig {} with {key}: {why}", s.args.join(" ")), &format!("exit code {:?}\n{}\n{}", o.r.out.code, o.r.out.stdout, o.r.stderr));
            for (p, b) in &o.before {
                if o.tree.get(p) != Some(b) {
                    fail(format!("{p} was touched"));
                }
            }
            for p in o.tree.keys() {
                if !o.before.contains_key(p) && p != target {
                    fail(format!("{p} was created"));
                }
            }
            let killed = fired.iter().any(|f| matches!(f.how, "kill" | "dies"));
            let hard = fired.iter().any(|f| f.val.parse::<u32>().is_ok() && f.how != "EINTR" && f.op.kind != "close");
            let wfail = fired.iter().any(|f| f.op.kind == "write");
            let opened = o.log.iter().position(|x| x.kind == "openw");
            let raced = !exists && fired.iter().any(|f| f.how == "appear" && o.log.iter().position(|x| *x == f.op).unwrap() <= opened.unwrap_or(usize::MAX));
            let now = o.tree.get(target).map(|x| x.bytes.clone());
            if killed {
                if !exists && !raced && !now.as_ref().is_none_or(|n| default.starts_with(n)) {
                    fail("the file holds something else".into());
                }
            } else if o.r.out.signal || o.r.out.timed_out || !matches!(o.r.out.code, Some(0 | 1)) {
                fail(format!("ended with {:?}", o.r.out.code));
            } else if o.r.out.code == Some(0) {
                if exists || raced {
                    fail("reports success although something was there".into());
                } else if now.as_deref() != Some(default) {
                    fail("reports success, but the file is not complete".into());
                }
            } else {
                if !exists && !raced && !hard {
                    fail("was not written".into());
                }
                if !exists && !raced && now.is_some() && !wfail {
                    fail("reports an error, but the file was created".into());
                }
                if o.r.stderr.trim().is_empty() {
                    fail("no message".into());
                }
            }
            if raced && now.as_deref() != Some(b"raced\n") {
                fail("the file that appeared meanwhile was overwritten".into());
            }
            ctx.outcome(&format!("fault {:?}", o.r.out.code), 1);
        }
    }
    ctx.note("fault runs", n.to_string());
}

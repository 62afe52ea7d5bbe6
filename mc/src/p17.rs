//! P17: summary and exit code. P20: which files are written, faults stay local.
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::world::*;
use std::collections::BTreeMap;

/// A kind of thing that can be given to ludtwig.
struct Kind {
    name: &'static str,
    text: &'static [u8],
    what: What,
    /// severities of the findings with the default configuration, lint / after --fix
    lint: &'static str,
    fix: &'static str,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    File,
    Unreadable, // no permission
    ReadOnly,
    BadUtf8,
    Dangling,
    Missing,
    EmptyDir,
    NoAccessDir,
    DirNamedLikeAFile,
}

const NESTED: &[u8] = b"{{ (a === (a === (a === (a === (a === (a === (a === (a === (a === (a === (a === (a === a)))))))))))) }}\n";

fn kinds() -> Vec<Kind> {
    let k = |name, text, what, lint, fix| Kind { name, text, what, lint, fix };
    use What::*;
    vec![
        k("clean", b"<p>x</p>\n" as &[u8], File, "", ""),
        k("empty", b"", File, "", ""),
        k("error", b"<p>x\n", File, "E", "E"),
        k("two-errors", b"{% block a_b %}{{ x\n", File, "EEEE", "EEEE"),
        k("warning", b"{{ x|nofilter }}\n", File, "W", "W"),
        k("warning-fixable", b"{% extends 'a' %}\n", File, "W", ""),
        k("help", b"<p>\nx\n</p>\n", File, "H", ""),
        k("mixed", b"{% block fooBar %}\n    {{ a && b }}{{ x|nofilter }}{{ \"q\" }}\n{% endblock %}\n", File, "EWHH", "W"),
        k("unfixable", b"<p id=\"a\"></p><p id=\"a\"></p>{{ nofunc() }}\n", File, "WW", "WW"),
        k("ignored", b"{# ludtwig-ignore-file #}\n<p>\nx{{ \"a\" }}</p>\n", File, "", ""),
        k("partly-ignored", b"{# ludtwig-ignore-file indentation #}\n<p>\nx{{ \"a\" }}</p>\n", File, "H", ""),
        k("gives-up", NESTED, File, "EEEEEEEEEEEE", "!"),
        k("bad-utf8", b"<p>\xff{{ \"a\" }}</p>\n", BadUtf8, "!", "!"),
        k("unreadable", b"{{ \"a\" }}\n", Unreadable, "!", "!"),
        k("read-only", b"{{ \"a\" }}\n", ReadOnly, "H", "!"),
        k("read-only-clean", b"{{ a }}\n", ReadOnly, "", ""),
        k("dangling", b"", Dangling, "!", "!"),
        k("missing", b"", Missing, "!", "!"),
        k("empty-dir", b"", EmptyDir, "", ""),
        k("no-access-dir", b"", NoAccessDir, "!", "!"),
        k("dir.twig", b"", DirNamedLikeAFile, "", ""),
    ]
}

struct Placed {
    kind: usize,
    path: String,
}

fn place(ks: &[Kind], set: &[usize], base: &str) -> (Vec<Entry>, Vec<Placed>) {
    let mut e = vec![];
    let mut p = vec![];
    for (i, k) in set.iter().enumerate() {
        let name = format!("{base}f{i}.twig");
        let kind = &ks[*k];
        match kind.what {
            What::File | What::BadUtf8 => e.push(file(&name, kind.text)),
            What::Unreadable => e.push(file(&name, kind.text).mode(0)),
            What::ReadOnly => e.push(file(&name, kind.text).mode(0o444)),
            What::Dangling => e.push(link(&name, "nowhere")),
            What::Missing => {}
            What::EmptyDir => e.push(dir(&format!("{base}d{i}"))),
            What::NoAccessDir => {
                e.push(file(&format!("{base}d{i}/x.twig"), "{{ \"a\" }}\n"));
                e.push(dir(&format!("{base}d{i}")).mode(0));
            }
            What::DirNamedLikeAFile => e.push(dir(&name)),
        }
        let path = match kind.what {
            What::EmptyDir | What::NoAccessDir => format!("{base}d{i}"),
            _ => name,
        };
        p.push(Placed { kind: *k, path });
    }
    (e, p)
}

fn is_file(w: What) -> bool {
    !matches!(w, What::Missing | What::EmptyDir | What::NoAccessDir | What::DirNamedLikeAFile)
}

struct Single {
    lint: Vec<(String, char, usize, usize, String)>,
    fix: Vec<(String, char, usize, usize, String)>,
    fixed: Vec<u8>,
}

fn sorted(d: Option<&Vec<Diag>>) -> Vec<(String, char, usize, usize, String)> {
    let mut v: Vec<_> = d.into_iter().flatten().map(|d| (d.rule.clone(), d.sev, d.line, d.col, d.msg.clone())).collect();
    v.sort();
    v
}

fn count(v: &[(String, char, usize, usize, String)], sev: char) -> u64 {
    v.iter().filter(|d| d.1 == sev).count() as u64
}

/// the set of things as a readable name
fn title(ks: &[Kind], set: &[usize]) -> String {
    set.iter().map(|k| ks[*k].name).collect::<Vec<_>>().join(" ")
}

pub fn p17(ctx: &Ctx) {
    explore(ctx, true);
    amounts(ctx);
    remove_public_bin();
}

pub fn p20(ctx: &Ctx) {
    explore(ctx, false);
    crate::faults::explore(ctx);
    remove_public_bin();
}

/// `counts`: P17, otherwise P20
fn explore(ctx: &Ctx, counts: bool) {
    let ks = kinds();
    // every kind on its own
    let singles: Vec<Single> = ks
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let (e, p) = place(&ks, &[i], "");
            let mut s = Single { lint: vec![], fix: vec![], fixed: k.text.to_vec() };
            for fix in [false, true] {
                let w = World::new(&e, Some(NOBODY));
                let mut args = vec![p[0].path.as_str()];
                if fix {
                    args.push("-f");
                }
                let r = w.run("", &args, &[], 60);
                ctx.state(1);
                ctx.transition(1);
                ctx.trace(1);
                let got = sorted(r.out.diags.get(&p[0].path));
                let want = if fix { k.fix } else { k.lint };
                let want = want.replace('!', "");
                for sev in ['E', 'W', 'H', 'N'] {
                    if count(&got, sev) != want.matches(sev).count() as u64 {
                        ctx.violation(&format!("single {} fix={fix}", k.name), &format!("{}: printed findings {got:?}, expected severities {want:?}", k.name), &String::from_utf8_lossy(k.text));
                    }
                }
                if fix {
                    s.fix = got;
                    if is_file(k.what) && k.what != What::Dangling {
                        s.fixed = w.look()[&p[0].path].bytes.clone();
                    }
                } else {
                    s.lint = got;
                }
            }
            s
        })
        .collect();

    // all multisets of kinds; how they are given; options
    let max = if ctx.quick() { 3 } else { 4 };
    let mut sets: Vec<Vec<usize>> = vec![];
    for n in 1..=max {
        multisets(ks.len(), n, &mut |s| sets.push(s.to_vec()));
    }
    if counts {
        // many files at once
        for rep in [7, 40] {
            sets.push((0..ks.len()).flat_map(|k| vec![k; rep]).collect());
        }
    }
    #[derive(Clone, Copy, PartialEq)]
    enum Give {
        Each,
        Dir,
        DirAndEach,
    }
    let modes: Vec<(Give, &[&str])> = vec![
        (Give::Each, &[]),
        (Give::Each, &["-f"]),
        (Give::Dir, &[]),
        (Give::Dir, &["-f"]),
        (Give::DirAndEach, &["-v"]),
        (Give::DirAndEach, &["--fix", "-v"]),
        (Give::Dir, &["-i"]),
        (Give::Each, &["-i", "-f"]),
    ];
    ctx.note("kinds of files", ks.iter().map(|k| k.name).collect::<Vec<_>>().join(" "));
    ctx.note("sets", sets.len().to_string());
    ctx.note("ways to give them", modes.len().to_string());
    let n = sets.len() * modes.len();
    par_for(n, 4, |i| {
        let (set, (give, opts)) = (&sets[i / modes.len()], modes[i % modes.len()]);
        if ctx.violation_count() > 300 {
            return;
        }
        let (e, p) = place(&ks, set, "t/");
        let e = [vec![dir("t")], e].concat();
        let w = World::new(&e, Some(NOBODY));
        let mut args: Vec<&str> = opts.to_vec();
        if give != Give::Each {
            args.push("t");
        }
        if give != Give::Dir {
            args.extend(p.iter().map(|p| p.path.as_str()));
        }
        let fix = opts.iter().any(|o| *o == "-f" || *o == "--fix");
        let inspect = opts.contains(&"-i");
        let before = w.look();
        let threads = if i % 3 == 0 { "1" } else { "4" };
        let r = w.run("", &args, &[("RAYON_NUM_THREADS", threads)], 60);
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        let key = format!("{} | {}", title(&ks, set), args.join(" "));
        let body = format!("files: {}\nargs: {args:?}\nexit code: {:?}\nstdout:\n{}\nstderr:\n{}", title(&ks, set), r.out.code, r.out.stdout, r.stderr);
        let fail = |why: String| ctx.violation(&key, &format!("[{}] ludtwig {}: {why}", title(&ks, set), args.join(" ")), &body);
        if i % (n / 5) == 0 {
            ctx.sample(format!("[{}] ludtwig {}: exit code {:?}, {:?}", title(&ks, set), args.join(" "), r.out.code, r.out.summary));
        }
        if r.out.timed_out || r.out.signal || !matches!(r.out.code, Some(0 | 1)) {
            return fail(format!("ended with {:?} (timed out: {})", r.out.code, r.out.timed_out));
        }
        let Some(sum) = r.out.summary else { return fail("no summary".into()) };

        let mut files = 0;
        let (mut e, mut wn, mut h, mut info) = (0u64, 0u64, 0u64, 0u64);
        let mut broken: BTreeMap<&str, u64> = BTreeMap::new(); // path -> number of error lines
        for p in &p {
            let k = &ks[p.kind];
            let missing = k.what == What::Missing && give != Give::Dir;
            // an unreadable directory is reported for every time it is given
            let fails = (if fix { k.fix } else { k.lint }) == "!";
            // (a link to nothing is a missing path if it is given itself)
            if is_file(k.what) && !(k.what == What::Dangling && give == Give::Each) {
                files += 1;
            }
            if fails {
                let n = match k.what {
                    What::Missing => missing as u64,
                    What::NoAccessDir | What::Dangling if give == Give::DirAndEach => 2,
                    _ => 1,
                };
                e += n;
                if n > 0 {
                    broken.insert(&p.path, n);
                }
                // (findings are not printed for files that could not be read or written)
            } else {
                let s = if fix { &singles[p.kind].fix } else { &singles[p.kind].lint };
                let mut want = s.clone();
                if inspect && is_file(k.what) {
                    info += 1;
                }
                e += count(&want, 'E');
                wn += count(&want, 'W');
                h += count(&want, 'H');
                let got = sorted(r.out.diags.get(&p.path));
                want.sort();
                if !counts && got != want {
                    fail(format!("{}: printed findings {got:?}, alone {want:?}", p.path));
                }
            }
        }
        // (a syntax tree is printed without the path)
        let trees = r.out.diags.get("").map_or(0, |v| v.iter().filter(|d| d.rule == "SyntaxTree").count() as u64);
        if trees != info {
            fail(format!("{trees} syntax trees printed, expected {info}"));
        }
        if counts {
            // what is printed
            let mut printed = [0u64; 4];
            for d in r.out.diags.values().flatten() {
                match d.sev {
                    'E' => printed[0] += 1,
                    'W' => printed[1] += 1,
                    'H' => printed[2] += 1,
                    'N' => printed[3] += 1,
                    _ => {}
                }
            }
            let errors = r.out.err_lines.iter().filter(|l| l.starts_with("Error: ")).count() as u64;
            printed[0] += errors;
            let got = [sum.errors, sum.warnings, sum.helps, sum.info];
            if printed != got {
                fail(format!("summary counts {got:?} (errors, warnings, helps, info), printed are {printed:?}"));
            }
            if got != [e, wn, h, info] {
                fail(format!("summary counts {got:?}, expected {:?}", [e, wn, h, info]));
            }
            if sum.files != files {
                fail(format!("summary counts {} files, expected {files}", sum.files));
            }
            if sum.total != got.iter().sum::<u64>() {
                fail(format!("total {} is not the sum of {got:?}", sum.total));
            }
            let bad = e + wn + h > 0;
            if r.out.code != Some(bad as i32) {
                fail(format!("exit code {:?} with {got:?}", r.out.code));
            }
            if r.out.summary_on_stderr != bad || r.stderr.matches("Files scanned: ").count() + r.out.stdout.matches("Files scanned: ").count() != 1 {
                fail("the summary is not printed once where it belongs".into());
            }
            let last = if bad { r.stderr.trim_end() } else { r.out.stdout.trim_end() }.lines().last().unwrap_or("");
            if !last.starts_with("Files scanned: ") {
                fail(format!("the summary is not the last line but {last:?}"));
            }
            ctx.outcome(&format!("{:?} e{} w{} h{} i{}", r.out.code, sum.errors.min(3), sum.warnings.min(3), sum.helps.min(3), sum.info.min(1)), 1);
            return;
        }

        // P20: errors name their file
        for (path, n) in &broken {
            let lines = r.out.err_lines.iter().filter(|l| l.starts_with("Error: ") && l.contains(*path)).count() as u64;
            if lines < *n {
                fail(format!("{path} failed, but {lines} errors name it: {:?}", r.out.err_lines));
            }
        }
        let others = r.out.err_lines.iter().filter(|l| l.starts_with("Error: ") && !broken.keys().any(|p| l.contains(*p))).count();
        if others > 0 {
            fail(format!("errors about other files: {:?}", r.out.err_lines));
        }
        // the tree
        let after = w.look();
        let mut changed = 0;
        for (name, b) in &before {
            let Some(a) = after.get(name) else {
                fail(format!("{name} disappeared"));
                continue;
            };
            let want = match p.iter().find(|p| p.path == *name) {
                Some(p) if fix && is_file(ks[p.kind].what) && ks[p.kind].fix != "!" => &singles[p.kind].fixed,
                _ => &b.bytes,
            };
            if *want == b.bytes {
                if a != b {
                    fail(format!("{name} was touched: {:?} instead of {:?}", a, b));
                }
            } else {
                changed += 1;
                if a.bytes != *want || (a.kind, a.mode) != (b.kind, b.mode) {
                    fail(format!("{name} is {:?} instead of {:?}", String::from_utf8_lossy(&a.bytes), String::from_utf8_lossy(want)));
                }
            }
        }
        for name in after.keys().filter(|n| !before.contains_key(*n)) {
            fail(format!("{name} was created"));
        }
        ctx.outcome(&format!("{:?} changed {changed} failed {}", r.out.code, broken.len()), 1);
    });
}

/// How many findings and files: all small numbers, the numbers around every width of a counter, and products.
fn amounts(ctx: &Ctx) {
    let mut cases: Vec<(usize, [usize; 3])> = vec![]; // files, findings by severity in each
    let some: Vec<usize> = (0..=40).chain(126..=129).chain(254..=258).collect();
    for sev in 0..3 {
        for n in some.iter().copied().chain([511, 512, 1023, 1024, 1025, 4095, 4096, 32767, 32768, 65535, 65536, 65537]) {
            let mut c = [0; 3];
            c[sev] = n;
            cases.push((1, c));
        }
    }
    let few: &[usize] = if ctx.quick() { &[0, 1, 2, 128, 256] } else { &[0, 1, 2, 3, 127, 128, 129, 255, 256, 257] };
    for e in few {
        for w in few {
            for h in few {
                cases.push((1, [*e, *w, *h]));
                cases.push((2, [*e, *w, *h]));
            }
        }
    }
    for n in some {
        for c in [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]] {
            cases.push((n, c));
        }
    }
    let wide: &[usize] = if ctx.quick() { &[1024] } else { &[1024, 4096, 65535, 65536, 65537] };
    for n in wide {
        cases.push((*n, [0, 0, 0]));
        cases.push((*n, [1, 0, 1]));
    }
    ctx.note("amounts", cases.len().to_string());
    par_for(cases.len(), 2, |i| {
        let (files, [e, w, h]) = cases[i];
        let text = format!("{}{}{}", "{{ a && b }}\n".repeat(e), "{{ x|nofilter }}\n".repeat(w), "{{ \"a\" }}\n".repeat(h));
        let mut entries = vec![dir("t")];
        entries.extend((0..files).map(|k| file(&format!("t/f{k}.twig"), &text)));
        let world = World::new(&entries, Some(NOBODY));
        let r = world.run("", &["t"], &[("RAYON_NUM_THREADS", "4")], 200);
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        let want = Summary { files: files as u64, errors: (files * e) as u64, warnings: (files * w) as u64, helps: (files * h) as u64, info: 0, total: (files * (e + w + h)) as u64 };
        let code = i32::from(want.total > 0);
        let printed: [u64; 3] = ['E', 'W', 'H'].map(|s| r.out.diags.values().flatten().filter(|d| d.sev == s).count() as u64);
        let ok = r.out.code == Some(code) && r.out.summary.as_ref() == Some(&want) && printed == [want.errors, want.warnings, want.helps] && !r.out.timed_out;
        ctx.outcome(&format!("amounts {:?}", r.out.code), 1);
        if !ok {
            ctx.violation(
                &format!("amounts {files} files with {e} errors, {w} warnings, {h} helps"),
                &format!("{files} files with {e} errors, {w} warnings and {h} helps each: exit code {:?}, summary {:?}, printed {printed:?}", r.out.code, r.out.summary),
                &text.chars().take(2000).collect::<String>(),
            );
        }
    });
}

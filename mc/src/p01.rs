//! P01 / P02: every text is parsed to a lossless tree, without a crash or hang.
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::gen::*;
use crate::parse::*;
use crate::vocab;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Duration;

/// Calls `f` for every text of the bounded space.
fn all_texts(ctx: &Ctx, f: &(dyn Fn(&str) + Sync)) {
    let q = ctx.quick();
    // 1. characters
    for len in 0..=(if q { 4 } else { 5 }) {
        let n = if len < 5 { CHARS.len() } else { 30 };
        sequences(n, len, &|v| f(&v.iter().map(|i| CHARS[*i]).collect::<String>()));
    }
    // characters inside of constructs
    for len in 0..=(if q { 2 } else { 3 }) {
        for h in HOLES {
            sequences(CHARS.len(), len, &|v| f(&h.replace('◇', &v.iter().map(|i| CHARS[*i]).collect::<String>())));
        }
    }
    // 2. tokens in every kind of position, with and without blanks
    for (len, toks) in [(1, TOKENS), (2, TOKENS), (3, if q { CORE } else { TOKENS })] {
        if len == 3 && !q {
            // the full alphabet in the plain position and in one expression / statement position
            for h in &HOLES[..3] {
                sequences(toks.len(), 3, &|v| f(&h.replace('◇', &v.iter().map(|i| toks[*i]).collect::<Vec<_>>().join(" "))));
            }
        }
        let toks = if len == 3 { CORE } else { toks };
        for h in HOLES {
            sequences(toks.len(), len, &|v| {
                let t: Vec<&str> = v.iter().map(|i| toks[*i]).collect();
                f(&h.replace('◇', &t.join(" ")));
                f(&h.replace('◇', &t.concat()));
            });
        }
    }
    if !q {
        sequences(CORE.len(), 4, &|v| {
            let t: Vec<&str> = v.iter().map(|i| CORE[*i]).collect();
            f(&t.join(" "));
            f(&format!("{{{{ {} }}}}", t.join(" ")));
            f(&format!("{{% {} %}}", t.join(" ")));
        });
    }
    // 3. tags
    for len in 1..=(if q { 3 } else { 4 }) {
        let n = if len < 4 { TAGS.len() } else { 40 };
        sequences(n, len, &|v| f(&v.iter().map(|i| TAGS[*i]).collect::<String>()));
    }
    // 4. every template of the vocabulary with one mutation
    let alg = vocab::all();
    let mut docs = alg.base();
    let one = alg.grow(&docs);
    docs.extend(one);
    let docs: Vec<&str> = docs.iter().filter(|d| d.cats & crate::algebra::N != 0).map(|d| d.text.as_str()).collect();
    let subst: &[&str] = if q {
        &["'", "{{", "%}", "<", "x", "é"]
    } else {
        &["'", "\"", "{{", "}}", "%}", "{%", "<", ">", "</", "x", "é", "\r\n", "{#", "#}", "-", "(", ")", "]", "if", "1"]
    };
    par_for(docs.len(), 16, |i| {
        mutations(docs[i], subst, &mut |t| f(&t));
        f(&docs[i].replace('\n', "\r\n"));
        f(&format!("\u{feff}{}", docs[i]));
        f(&docs[i].replace(' ', "\u{a0}"));
        f(&docs[i].replace('a', "é"));
        f(&docs[i].to_uppercase());
    });
}

fn guarded(ctx: &Ctx, f: impl Fn(&Watchdog) + Sync) {
    let w = Watchdog::new();
    std::thread::scope(|s| {
        s.spawn(|| {
            w.watch(Duration::from_secs(20), |t| {
                ctx.violation(&format!("hang:{t}"), &format!("parsing {t:?} does not end within 20 s"), t);
                ctx.abort();
            })
        });
        f(&w);
        w.done.store(true, Ordering::Relaxed);
    });
    ctx.note("slowest single parse", format!("{} us", w.max_us.load(Ordering::Relaxed)));
}

/// What is wrong with the parse result of this text?
fn p01_problem(text: &str, p: &Parsed) -> Option<String> {
    let mut leaves = String::with_capacity(text.len());
    let mut toks = 0;
    for e in p.tree.descendants_with_tokens() {
        if let Some(t) = e.as_token() {
            if usize::from(t.text_range().start()) != leaves.len() {
                return Some(format!("token {:?} is at {:?}", t.text(), t.text_range()));
            }
            leaves.push_str(t.text());
            toks += 1;
            if t.text().is_empty() {
                return Some("empty token".into());
            }
        }
    }
    if leaves != text {
        return Some(format!("the {toks} leaves of the tree are {leaves:?}"));
    }
    for (a, b, m) in &p.errors {
        if a > b || *b > text.len() || !text.is_char_boundary(*a) || !text.is_char_boundary(*b) {
            return Some(format!("syntax error with range {a}..{b} of {} bytes: {m}", text.len()));
        }
    }
    None
}

pub fn p01(ctx: &Ctx) {
    quiet_panics();
    let errs = std::sync::atomic::AtomicU64::new(0);
    let clean = std::sync::atomic::AtomicU64::new(0);
    guarded(ctx, |w| {
        all_texts(ctx, &|t| {
            ctx.state(1);
            ctx.trace(1);
            ctx.transition(1);
            match w.run(t, || parse(t)) {
                Err(e) => ctx.violation(&format!("text:{t}"), &format!("{t:?}: {e}"), t),
                Ok(p) => {
                    if p.errors.is_empty() { &clean } else { &errs }.fetch_add(1, Ordering::Relaxed);
                    if let Some(e) = p01_problem(t, &p) {
                        ctx.violation(&format!("text:{t}"), &format!("{t:?}: {e}"), t);
                    }
                }
            }
        });
    });
    ctx.outcome("no syntax error", clean.load(Ordering::Relaxed));
    ctx.outcome("syntax errors", errs.load(Ordering::Relaxed));
    for h in HOLES.iter().take(6) {
        ctx.sample(format!("every sequence of tokens at ◇ in {h:?}"));
    }
    // the diagnostics printed by the binary point into the text as well
    let texts = broken_texts(ctx);
    run_all(
        &texts,
        &Cfg::rules(&[]),
        Mode::Lint,
        |i, fo| {
            ctx.state(1);
            ctx.trace(1);
            let lines: Vec<&str> = texts[i].split('\n').collect();
            for d in &fo.diags {
                let ok = d.line >= 1
                    && d.line <= lines.len().max(1)
                    && d.col >= 1
                    && d.col <= lines[d.line - 1].chars().count() + 1;
                if !ok {
                    ctx.violation(
                        &format!("place:{}", texts[i]),
                        &format!("{:?}: a finding is printed at {}:{}", texts[i], d.line, d.col),
                        &d.raw,
                    );
                }
            }
        },
        |c, run, why| crate::expect::batch_error(ctx, c, run, &why),
    );
}

/// Texts for the whole program: tag sequences, token pairs, mutations.
fn broken_texts(ctx: &Ctx) -> Vec<String> {
    let out = Mutex::new(vec![]);
    let q = ctx.quick();
    let push = |t: String| out.lock().unwrap().push(t);
    for len in 0..=2 {
        sequences(CHARS.len(), len, &|v| push(v.iter().map(|i| CHARS[*i]).collect::<String>()));
        let n = if len == 2 && q { 40 } else { TAGS.len() };
        sequences(n, len, &|v| push(v.iter().map(|i| TAGS[*i]).collect::<String>()));
    }
    for h in HOLES {
        sequences(TOKENS.len(), 1, &|v| push(h.replace('◇', TOKENS[v[0]])));
        let n = if q { 36 } else { CORE.len() };
        sequences(n, 2, &|v| push(h.replace('◇', &format!("{} {}", CORE[v[0]], CORE[v[1]]))));
        if !q {
            sequences(n, 2, &|v| push(h.replace('◇', &format!("{}{}", CORE[v[0]], CORE[v[1]]))));
        }
    }
    if !q {
        sequences(40, 3, &|v| push(v.iter().map(|i| TAGS[*i]).collect::<String>()));
    }
    let alg = vocab::all();
    let mut docs = alg.base();
    if !q {
        docs.extend(alg.grow(&docs));
    }
    for d in docs.iter().filter(|d| d.cats & crate::algebra::N != 0) {
        let subst: &[&str] = if q { &["'", "<", "%}", "é"] } else { &["'", "<", "{{", "%}", ">", "é"] };
        mutations(&d.text, subst, &mut |t| push(t));
    }
    // directives with rules in front of everything, also of what is broken
    let dirs = [
        "{# ludtwig-ignore indentation, html-duplicate-id, twig-block-duplicate #}",
        "<!-- ludtwig-ignore indentation, indentation -->",
        "{# ludtwig-ignore-file line-ending #}",
        "{# ludtwig-ignore #}",
        "{# ludtwig-ignore no-rule",
    ];
    for d in dirs {
        for t in TAGS {
            push(format!("{d}{t}"));
            for u in if q { &TAGS[..16] } else { TAGS } {
                push(format!("{t}{d}{u}"));
                push(format!("{d}{t}{d}{u}"));
                push(format!("<div>{d}{t}{u}</div>"));
            }
        }
        for h in HOLES {
            for t in TOKENS {
                push(h.replace('◇', &format!("{d}{t}")));
                push(format!("{d}\n{}", h.replace('◇', t)));
            }
        }
    }
    let mut v = out.into_inner().unwrap();
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------------------------------------

/// Find the files of a failing batch that fail on their own.
fn isolate(ctx: &Ctx, cases: &[String], cfg: &Cfg, mode: Mode, limit: u64) {
    if ctx.violation_count() > 20 {
        return;
    }
    let refs: Vec<&str> = cases.iter().map(|s| s.as_str()).collect();
    let out = run_batch(&refs, cfg, mode, limit);
    let Some(why) = batch_problem(&out.run, cases.len()) else {
        return;
    };
    if cases.len() == 1 {
        ctx.violation(
            &format!("{mode:?}:{}", cases[0]),
            &format!("ludtwig ({mode:?}) on {:?}: {why}", short(&cases[0])),
            &format!("{}\n\n{}", cases[0], out.run.err_lines.join("\n")),
        );
        return;
    }
    let (a, b) = cases.split_at(cases.len() / 2);
    let before = ctx.violation_count();
    isolate(ctx, a, cfg, mode, limit);
    isolate(ctx, b, cfg, mode, limit);
    if ctx.violation_count() == before && cases.len() < 8 {
        ctx.violation(&format!("batch:{}", cases.concat()), &format!("files that fail only together: {why}"), &cases.join("\n----\n"));
    }
}

fn short(s: &str) -> String {
    if s.len() > 300 {
        let mut a = 150;
        while !s.is_char_boundary(a) {
            a += 1;
        }
        format!("{}… ({} bytes)", &s[..a], s.len())
    } else {
        s.to_string()
    }
}

fn whole_program(ctx: &Ctx, texts: &[String], cfg: &Cfg, mode: Mode, limit: u64) {
    let bs = 2500;
    let n = texts.len().div_ceil(bs);
    par_for(n, 1, |b| {
        let c = &texts[b * bs..((b + 1) * bs).min(texts.len())];
        let refs: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        let out = run_batch(&refs, cfg, mode, limit);
        ctx.state(c.len() as u64);
        ctx.trace(c.len() as u64);
        ctx.transition(c.len() as u64);
        ctx.outcome(&format!("{mode:?} exit {:?}", out.run.code), c.len() as u64);
        if batch_problem(&out.run, c.len()).is_some() {
            isolate(ctx, c, cfg, mode, limit);
        }
    });
}

/// repeated constructs: (open, middle, close)
const REPEAT: &[(&str, &str, &str)] = &[
    ("{{ ", "(", ")"),
    ("{{ ", "[", "]"),
    ("{{ ", "{a: ", "}"),
    ("{{ ", "f(", ")"),
    ("{{ ", "a[", "]"),
    ("{{ ", "a.b(", ")"),
    ("{{ ", "a|f(", ")"),
    ("{{ ", "not ", ""),
    ("{{ ", "-", ""),
    ("{{ ", "a ? ", " : c"),
    ("{{ ", "a ?: ", ""),
    ("{{ ", "a ** ", ""),
    ("{{ ", "a ~ ", ""),
    ("{{ ", "a == ", ""),
    ("{{ ", "a and ", ""),
    ("{{ ", "a.", ""),
    ("{{ ", "x => ", ""),
    ("{{ ", "a is defined and ", ""),
    ("{{ ", "\"#{", "}\""),
    ("{{ ", "a, ", ""),
    ("{{ ", "a ", ""),
    ("{{ ", "'", ""),
    ("{{ ", "\"", ""),
    ("{{ a", "|f", ""),
    ("{{ a", "[0]", ""),
    ("", "<div>", "</div>"),
    ("", "<div>", ""),
    ("", "</div>", ""),
    ("", "<div ", ""),
    ("", "<div a=\"", ""),
    ("", "<", ""),
    ("", "<p>x</p>", ""),
    ("", "<br>", ""),
    ("", "{% if a %}", "{% endif %}"),
    ("", "{% if a %}", ""),
    ("", "{% endif %}", ""),
    ("", "{% if a %}{% else %}", "{% endif %}"),
    ("{% if a %}", "{% elseif b %}", ""),
    ("{% if a %}", "{% else %}", ""),
    ("", "{% for a in b %}", "{% endfor %}"),
    ("", "{% block a %}", "{% endblock %}"),
    ("", "{% block a %}", ""),
    ("", "{{ a }}", ""),
    ("", "{{ ", ""),
    ("", "{% ", ""),
    ("", "{# ", ""),
    ("", "<!-- ", ""),
    ("", "{% set a = 1 %}", ""),
    ("", "{% set a %}", "{% endset %}"),
    ("{% set ", "a, ", ""),
    ("<div ", "a=\"b\" ", ">"),
    ("<div ", "{% if a %}", "{% endif %}"),
    ("<div a=\"", "{% if a %}", "{% endif %}"),
    ("<div a=\"", "{{ a }} ", ""),
    ("<script>", "{% if a %}", "{% endif %}"),
    ("<script>", "</p> < ", ""),
    ("", "{{ a && b }}", ""),
    ("", "<p fooBar='x'></p>\n", ""),
    ("", "{% embed 'x' %}", "{% endembed %}"),
    ("", "\n", ""),
    ("", " ", ""),
    ("", "\r\n", ""),
    ("", "word ", ""),
    ("", "é", ""),
    ("", "%}", ""),
    ("", "}}", ""),
    ("", "\"", ""),
    ("", "{% verbatim %}", ""),
    ("", "{# ludtwig-ignore #}", ""),
    ("", "{# ludtwig-ignore twig-logic-and #}<p>", "</p>"),
    ("{# ludtwig-ignore ", "a, ", "#}"),
    ("", "<pre>", "</pre>"),
    ("", "<twig:A>", "</twig:A>"),
    ("{{ {", "'a': 1, ", "} }}"),
    ("", "{% apply a|", ""),
];

fn repeated(r: &(&str, &str, &str), n: usize) -> String {
    let close = if r.0.starts_with("{{ ") && !r.2.contains("}}") { " }}" } else { "" };
    format!("{}{}a{}{}", r.0, r.1.repeat(n), r.2.repeat(n), close)
}

/// Processor time of one run in seconds (None: it was ended after the time limit).
fn processor_time(text: &str, mode: Mode, limit: u64) -> (Option<f64>, Option<i32>) {
    use std::os::unix::process::CommandExt;
    let dir = Scratch::new("cpu");
    std::fs::write(dir.path.join("a.twig"), text).unwrap();
    let mut cmd = std::process::Command::new(ludtwig_bin());
    cmd.current_dir(&dir.path).env("NO_COLOR", "1").env("TERM", "dumb").env("RAYON_NUM_THREADS", "1");
    if mode == Mode::Fix {
        cmd.arg("--fix");
    }
    cmd.arg("a.twig").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    #[allow(clippy::zombie_processes)]
    let child = cmd.spawn().expect("spawn ludtwig");
    let mut status = 0;
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::wait4(child.id() as i32, &mut status, 0, &mut u) };
    let t = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 / 1e6;
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        return if s == libc::SIGXCPU || s == libc::SIGKILL { (None, None) } else { (Some(0.0), None) };
    }
    (Some(t(u.ru_utime) + t(u.ru_stime)), Some(libc::WEXITSTATUS(status)))
}

/// Large templates with many lines of the same kind: the time grows with the size.
fn large(ctx: &Ctx) {
    let alg = vocab::all();
    let mut docs: Vec<String> = alg.base().iter().filter(|d| d.cats & crate::algebra::N != 0 && !d.text.trim().is_empty()).map(|d| d.text.clone()).collect();
    docs.sort();
    docs.dedup();
    for r in REPEAT {
        if r.0.is_empty() && !r.2.is_empty() {
            docs.push(format!("{}a{}", r.1, r.2));
        }
    }
    let (small, big) = (500usize, 4000usize);
    let jobs: Vec<(usize, usize, Mode)> = (0..docs.len())
        .flat_map(|d| (0..if ctx.quick() { 1 } else { 3 }).flat_map(move |c| [(d, c, Mode::Lint), (d, c, Mode::Fix)]))
        .collect();
    let worst = Mutex::new((0f64, String::new()));
    par_for(jobs.len(), 1, |j| {
        let (d, c, mode) = jobs[j];
        let c = if ctx.quick() { (d + usize::from(mode == Mode::Fix)) % 3 } else { c };
        let (a, z) = [("", ""), ("<div>\n", "</div>\n"), ("{% block a %}\n", "{% endblock %}\n")][c];
        let make = |n: usize| format!("{a}{}{z}", format!("{}\n", docs[d]).repeat(n));
        let run = |n: usize| {
            ctx.state(1);
            ctx.trace(1);
            processor_time(&make(n), mode, 60)
        };
        let mut why = None;
        let (t1, c1) = run(small);
        let (t2, c2) = run(big);
        if c1.is_none_or(|c| c > 1) || c2.is_none_or(|c| c > 1) && t2.is_some() {
            why = Some(format!("ends with {c1:?} / {c2:?}"));
        }
        if why.is_none() {
            let (t1, t2) = (t1.unwrap_or(60.0), t2.unwrap_or(60.0));
            let times = t2 / t1.max(0.02);
            {
                let mut g = worst.lock().unwrap();
                if times > g.0 {
                    *g = (times, format!("{:.2} s and {:.2} s for {:?} ({a:?}, {mode:?})", t1, t2, docs[d]));
                }
            }
            if std::env::var_os("MC_TIMES").is_some() {
                println!("TIME {times:.1} {t1:.2} {t2:.2} {:?} {a:?} {mode:?}", docs[d]);
            }
            // eight times the size
            if times > 30.0 && t2 > 1.5 {
                why = Some(format!("{:.1} s instead of {:.2} s for eight times the size", t2, t1));
            }
        }
        if let Some(why) = why {
            ctx.violation(
                &format!("large:{:?} in {a:?}", docs[d]),
                &format!("ludtwig ({mode:?}) on {small} and {big} lines with {:?} (in {a:?}): {why}", docs[d]),
                &short(&make(small)),
            );
        }
    });
    let g = worst.into_inner().unwrap();
    ctx.note("worst growth for eight times the size", format!("{:.1} times: {}", g.0, g.1));
}

pub fn p02(ctx: &Ctx) {
    quiet_panics();
    // the parser on the whole bounded space
    guarded(ctx, |w| {
        all_texts(ctx, &|t| {
            ctx.state(1);
            ctx.trace(1);
            if let Err(e) = w.run(t, || parse(t)) {
                ctx.violation(&format!("text:{t}"), &format!("{t:?}: {e}"), t);
            }
        });
    });
    // the whole program
    let texts = broken_texts(ctx);
    ctx.note("texts for the whole program", texts.len().to_string());
    for t in texts.iter().step_by((texts.len() / 10).max(1)).take(10) {
        ctx.sample(format!("{t:?}"));
    }
    let cfgs = [
        Cfg::default_cfg(),
        Cfg::default_cfg()
            .fmt("line-ending", "\"windows_CRLF\"")
            .fmt("indentation-mode", "\"tab\"")
            .fmt("indentation-count", "1")
            .fmt("twig-quotation", "\"single\"")
            .fmt("html-quotation", "\"single\"")
            .fmt("linebreaks-around-blocks", "false"),
    ];
    for (i, cfg) in cfgs.iter().enumerate() {
        for mode in [Mode::Lint, Mode::Fix] {
            if i == 1 && mode == Mode::Lint && ctx.quick() {
                continue;
            }
            whole_program(ctx, &texts, cfg, mode, 100);
        }
    }
    let crlf: Vec<String> = texts.iter().filter(|t| t.contains('\n')).map(|t| t.replace('\n', "\r\n\r\n")).collect();
    whole_program(ctx, &crlf, &cfgs[0], Mode::Fix, 100);
    // repetitions: time proportionate to the size, no crash
    let sizes: &[usize] = if ctx.quick() { &[30, 400] } else { &[10, 30, 100, 400, 1500] };
    let jobs: Vec<(usize, usize, Mode)> = (0..REPEAT.len())
        .flat_map(|r| sizes.iter().flat_map(move |n| [(r, *n, Mode::Lint), (r, *n, Mode::Fix)]))
        .collect();
    let slowest = Mutex::new((0f64, String::new()));
    par_for(jobs.len(), 1, |j| {
        let (r, n, mode) = jobs[j];
        let t = repeated(&REPEAT[r], n);
        let t0 = std::time::Instant::now();
        let out = run_batch(&[&t], &Cfg::default_cfg(), mode, 60);
        let dt = t0.elapsed().as_secs_f64();
        ctx.state(1);
        ctx.trace(1);
        {
            let mut g = slowest.lock().unwrap();
            if dt > g.0 {
                *g = (dt, format!("{:?} x {n} {mode:?}", REPEAT[r]));
            }
        }
        // generous: linear behaviour takes milliseconds for these sizes
        let limit = 20.0;
        let why = batch_problem(&out.run, 1).or_else(|| (dt > limit).then(|| format!("took {dt:.1} s")));
        if let Some(why) = why {
            ctx.violation(
                &format!("repeat:{:?}x{n}", REPEAT[r]),
                &format!("ludtwig ({mode:?}) on {n} repetitions of {:?}: {why}", REPEAT[r]),
                &short(&t),
            );
        }
    });
    let g = slowest.into_inner().unwrap();
    ctx.note("slowest repetition", format!("{:.2} s for {}", g.0, g.1));
    large(ctx);
    // very deep nesting
    for r in [REPEAT[0], REPEAT[1], REPEAT[7], REPEAT[12], REPEAT[25], REPEAT[33]] {
        let t = repeated(&r, 20_000);
        let out = run_batch(&[&t], &Cfg::rules(&[]), Mode::Lint, 60);
        ctx.state(1);
        ctx.trace(1);
        if let Some(why) = batch_problem(&out.run, 1) {
            ctx.violation(&format!("deep:{}x20000", r.1), &format!("20000 nested {:?}: {why}", r.1), &short(&t));
        }
    }
}

//! P19: where the configuration comes from. P21: -C.
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

struct Opt {
    table: &'static str,
    key: &'static str,
    default: &'static str,
    values: &'static [&'static str], // as TOML
    bad: &'static [&'static str],
}

fn options() -> Vec<Opt> {
    let o = |table, key, default, values, bad| Opt { table, key, default, values, bad };
    vec![
        o("format", "line-ending", "\"unix_LF\"", &["\"unix_LF\"", "\"windows_CRLF\""] as &[_], &["\"unix_lf\"", "\"CRLF\"", "\"\"", "1", "true", "[]"] as &[_]),
        o("format", "indentation-mode", "\"space\"", &["\"space\"", "\"tab\""], &["\"spaces\"", "\"Space\"", "4", "\"\""]),
        o("format", "indentation-count", "4", &["4", "0", "2", "255"], &["-1", "256", "1.5", "\"four\"", "[4]", "99999999999999999999"]),
        o("format", "indent-children-of-blocks", "true", &["true", "false"], &["\"maybe\"", "2", "[true]"]),
        o("format", "linebreaks-around-blocks", "true", &["true", "false"], &["\"x\"", "5"]),
        o("format", "twig-quotation", "\"single\"", &["\"single\"", "\"double\""], &["\"Single\"", "\"'\"", "1"]),
        o("format", "html-quotation", "\"double\"", &["\"double\"", "\"single\""], &["\"both\"", "false"]),
        o("twig", "valid-filters", "", &["[\"upper\", \"foo\"]", "[]"], &["\"foo\"", "[1, [2]]", "{ a = 1 }"]),
        o("twig", "valid-tests", "", &["[\"defined\", \"foo\", \"same as\"]", "[]"], &["\"foo\"", "3"]),
        o("twig", "valid-functions", "", &["[\"block\", \"foo\"]", "[]"], &["\"foo\"", "true"]),
        o("general", "active-rules", "", &["[\"twig-logic-and\", \"indentation\", \"twig-string-quotation\", \"html-string-quotation\", \"twig-block-line-breaks\", \"line-ending\", \"twig-valid-filter\", \"twig-valid-test\"]", "[\"twig-valid-filter\"]", "[]"], &["\"indentation\"", "[\"nope\"]", "[\"indentation\", \"nope\"]", LONG_UNKNOWN, "[\"Indentation\"]", "[\" indentation\"]", "[\"\"]", "[1]", "[\"indentation,line-ending\"]", "true"]),
    ]
}

/// something for every option and every rule
const PROBE: &str = "<!-- ludtwig-ignore twig-logic-or -->\n<p>\n{% block fooBar %}\n  {{ a && b }}{{ c || d }}{{ \"x\" }}{{ 'y' }}\n{% endblock %}\n{% block other %}\n\n\n\n    {{ {'k': 1} }}{{ a === b }}{{ a !== b }}  \n{% endblock %}\n</p>\r\n{% block fooBar %}{% endblock %}\n<div data_A='1' id=\"i\" title=\"z\"></div><div id='i'></div>\n{{ x|upper|foo }}{{ x is foo }}{{ x is defined }}{{ x is same as(y) }}{{ block('b') }}{{ foo() }}{{ nope() }}{{ x|nope }}\n{% set a_b = 1 %}{{ x|json_encode|raw }}\n<p>\n    {# ludtwig-ignore-file nothing #}\n  \n   \n</p>\n<ul>\n    <li>\n    x\n    </li>\n</ul>\n";

/// options the probe cannot show (together with the others) are seen with other probes
const PROBE2: &str = "{% extends 'a' %}\n\n{% block b %}\n\t<p>\n\t\tx\n\t</p>\n{% endblock %}\n<p>\n{{ {\"k\": 1, 'l-m': 2} }}\n</p>\n{{ x or y || z }}{{ \"a\" }}";

type Found = BTreeMap<String, Vec<(String, char, usize, usize, String)>>;

fn found(o: &RunOut) -> Found {
    o.diags
        .iter()
        .map(|(p, v)| {
            let mut v: Vec<_> = v.iter().map(|d| (d.rule.clone(), d.sev, d.line, d.col, d.msg.clone())).collect();
            v.sort();
            (p.clone(), v)
        })
        .collect()
}

/// option index -> TOML value
type Values = BTreeMap<usize, String>;

fn toml(os: &[Opt], v: &Values, style: usize) -> String {
    let mut s = String::new();
    match style {
        0 => {
            for t in ["general", "format", "twig"] {
                let mine: Vec<_> = v.iter().filter(|(i, _)| os[**i].table == t).collect();
                if !mine.is_empty() {
                    s += &format!("[{t}]\n");
                    for (i, x) in mine {
                        s += &format!("{} = {x}\n", os[*i].key);
                    }
                }
            }
        }
        _ => {
            for (i, x) in v {
                s += &format!("{}.{} = {x}\n", os[*i].table, os[*i].key);
            }
        }
    }
    s
}

fn env(os: &[Opt], v: &Values, quoted: bool) -> Vec<(String, String)> {
    v.iter()
        .map(|(i, x)| {
            let k = format!("LUDTWIG_{}__{}", os[*i].table.to_uppercase(), os[*i].key.to_uppercase().replace('-', "_"));
            let x = if quoted { x.clone() } else { x.replace('"', "") };
            (k, x)
        })
        .collect()
}

fn used(out: &str) -> Option<&str> {
    let a = out.find("Used config values:")?;
    let b = out[a..].find("\n}\n")?;
    Some(&out[a..a + b])
}

struct Where {
    path: &'static str,
    args: &'static [&'static str],
    cwd: &'static str,
}

const WHERE: &[Where] = &[
    Where { path: "ludtwig-config.toml", args: &[], cwd: "" },
    Where { path: "sub/my.cfg", args: &["-c", "sub/my.cfg"], cwd: "" },
    Where { path: "sub/x.toml", args: &["--config-path", "./sub/../sub/x.toml"], cwd: "" },
];

struct Run {
    r: Raw,
    untouched: bool,
}

fn run(config: Option<(&str, &[u8])>, args: &[&str], cwd: &str, envs: &[(String, String)]) -> Run {
    let mut e = vec![file("t/a.html.twig", PROBE), file("t/b.html.twig", PROBE2), dir("sub")];
    if let Some((p, t)) = config {
        e.push(file(p, t));
    }
    run_in(e, args, cwd, envs)
}

fn run_in(e: Vec<Entry>, args: &[&str], cwd: &str, envs: &[(String, String)]) -> Run {
    let w = World::new(&e, Some(NOBODY));
    let before = w.look();
    let envs: Vec<(&str, &str)> = envs.iter().map(|(a, b)| (a.as_str(), b.as_str())).chain([("RAYON_NUM_THREADS", "1")]).collect();
    let mut a = vec!["t", "-v"];
    a.extend(args);
    let r = w.run(cwd, &a, &envs, 60);
    Run { r, untouched: w.look() == before }
}

/// the run with one configuration file that holds the effective values
fn reference(os: &[Opt], eff: &Values) -> Run {
    run(Some(("ludtwig-config.toml", toml(os, eff, 0).as_bytes())), &[], "", &[])
}

struct Mix {
    file: Values,
    env: Values,
    place: usize,
    style: usize,
    quoted: bool,
}

pub fn p19(ctx: &Ctx) {
    let os = options();
    let all = |i: usize| os[i].values;
    let other = |i: usize| if os[i].default.is_empty() { all(i)[0] } else { all(i).iter().find(|v| **v != os[i].default).unwrap() };
    let mut mixes: Vec<Mix> = vec![];
    // one option: every value from every source
    for i in 0..os.len() {
        let mut vs: Vec<Option<&str>> = vec![None];
        vs.extend(all(i).iter().map(|v| Some(*v)));
        for f in &vs {
            for e in &vs {
                for place in 0..WHERE.len() {
                    for style in 0..2 {
                        for quoted in [false, true] {
                            let m = |v: &Option<&str>| v.iter().map(|v| (i, v.to_string())).collect::<Values>();
                            mixes.push(Mix { file: m(f), env: m(e), place, style, quoted });
                        }
                    }
                }
            }
        }
    }
    let n1 = mixes.len();
    // two options: every pair of values and sources
    for i in 0..os.len() {
        for j in i + 1..os.len() {
            for vi in all(i) {
                for vj in all(j) {
                    for src in 0..4 {
                        let mut m = Mix { file: Values::new(), env: Values::new(), place: src % 3, style: (src / 2) % 2, quoted: src % 2 == 0 };
                        let (a, b) = ((i, vi.to_string()), (j, vj.to_string()));
                        match src {
                            0 => {
                                m.file.extend([a, b]);
                            }
                            1 => {
                                m.env.extend([a, b]);
                            }
                            2 => {
                                m.file.extend([a]);
                                m.env.extend([b]);
                            }
                            _ => {
                                m.env.extend([a]);
                                m.file.extend([b]);
                            }
                        }
                        mixes.push(m);
                    }
                }
            }
        }
    }
    let n2 = mixes.len() - n1;
    // all options of a table: each absent, in the file or in the environment (not the default value),
    // or in both (the file says the default)
    let mut product = |ids: &[usize], states: usize| {
        let n = states.pow(ids.len() as u32);
        for k in 0..n {
            let mut m = Mix { file: Values::new(), env: Values::new(), place: k % 3, style: k / 3 % 2, quoted: k % 5 == 0 };
            let mut x = k;
            for i in ids {
                let v = other(*i).to_string();
                match x % states {
                    1 => {
                        m.file.insert(*i, v);
                    }
                    2 => {
                        m.env.insert(*i, v);
                    }
                    3 => {
                        m.env.insert(*i, v);
                        m.file.insert(*i, if os[*i].default.is_empty() { "[]".into() } else { os[*i].default.into() });
                    }
                    _ => {}
                }
                x /= states;
            }
            mixes.push(m);
        }
    };
    product(&[0, 1, 2, 3, 4, 5, 6], if ctx.quick() { 3 } else { 4 });
    product(&[7, 8, 9, 10], 4);
    let n3 = mixes.len() - n1 - n2;
    ctx.note("mixes of sources", format!("one option {n1}, two options {n2}, all of a table {n3}"));

    // the reference runs (one file with the effective values), once per set of values
    let eff = |m: &Mix| {
        let mut v = m.file.clone();
        v.extend(m.env.clone());
        v
    };
    let effs: Vec<Values> = mixes.iter().map(eff).collect::<BTreeSet<_>>().into_iter().collect();
    let refs = std::sync::Mutex::new(BTreeMap::new());
    par_for(effs.len(), 4, |i| {
        let r = reference(&os, &effs[i]);
        refs.lock().unwrap().insert(effs[i].clone(), (found(&r.r.out), used(&r.r.out.stdout).unwrap_or("?").to_string(), r.r.out.code));
    });
    let refs = refs.into_inner().unwrap();
    ctx.note("different effective configurations", refs.len().to_string());
    // every option matters, and in the same way whatever the values of the others
    let plain = &refs[&Values::new()];
    for (v, r) in &refs {
        let text: Vec<String> = v.iter().map(|(i, x)| format!("{}={x}", os[*i].key)).collect();
        if r.2 != Some(1) && !v.values().any(|x| x == "[]") {
            ctx.violation(&format!("reference {}", text.join(" ")), "the configuration is not accepted or nothing is found", &text.join("\n"));
        }
        if v.len() == 1 {
            let (i, x) = v.iter().next().unwrap();
            let same = r.1 == plain.1;
            if same != (*x == os[*i].default) {
                ctx.violation(&format!("default {}", text[0]), &format!("{}: configuration is {} the default one", text[0], if same { "like" } else { "not like" }), &r.1);
            }
            if same != (r.0 == plain.0) {
                ctx.violation(&format!("default findings {}", text[0]), &format!("{}: findings are {} with the default configuration", text[0], if same { "not those" } else { "the same as" }), &format!("{:?}", r.0));
            }
        }
    }
    par_for(mixes.len(), 8, |k| {
        if ctx.violation_count() > 200 {
            return;
        }
        let m = &mixes[k];
        let w = &WHERE[m.place];
        let text = toml(&os, &m.file, m.style);
        let cfg = (!m.file.is_empty()).then_some((w.path, text.as_bytes()));
        let mut envs = env(&os, &m.env, m.quoted);
        envs.push(("LUDTWIG".into(), "nonsense".into()));
        envs.push(("OTHER_LUDTWIG_FORMAT__INDENTATION_COUNT".into(), "9".into()));
        let r = run(cfg, w.args, w.cwd, &envs);
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        let want = &refs[&eff(m)];
        let desc = format!("{} {:?} env {:?}", w.path, text, env(&os, &m.env, m.quoted));
        let fail = |why: String| ctx.violation(&desc, &format!("{desc}: {why}"), &format!("{}\n{}", r.r.out.stdout, r.r.stderr));
        if k % (mixes.len() / 6) == 0 {
            ctx.sample(desc.clone());
        }
        ctx.outcome(&format!("{:?} {} findings", r.r.out.code, found(&r.r.out).values().flatten().count() / 5 * 5), 1);
        if r.r.out.code != want.2 {
            return fail(format!("exit code {:?} instead of {:?}", r.r.out.code, want.2));
        }
        let u = used(&r.r.out.stdout).unwrap_or("");
        if u != want.1 {
            let diff: Vec<_> = u.lines().zip(want.1.lines()).filter(|(a, b)| a != b).take(3).collect();
            return fail(format!("configuration used differs from the one written as a file: {diff:?}"));
        }
        if found(&r.r.out) != want.0 {
            return fail("findings differ from those with the configuration written as a file".into());
        }
        if !r.untouched {
            fail("a file was touched".into());
        }
    });

    rules(ctx);
    malformed(ctx, &os);
    remove_public_bin();
}

/// A rule runs exactly if it is listed.
fn rules(ctx: &Ctx) {
    let by_rule = {
        let r = run(None, &[], "", &[]);
        found(&r.r.out)
    };
    let shown: BTreeSet<String> = by_rule.values().flatten().map(|d| d.0.clone()).collect();
    for r in ALL_RULES {
        if !shown.contains(*r) {
            ctx.violation(&format!("probe {r}"), &format!("the probe has no finding of {r}"), &format!("{shown:?}"));
        }
    }
    let mut sets: Vec<Vec<&str>> = vec![vec![]];
    let all: Vec<&str> = ALL_RULES.to_vec();
    let without = |x: &[&str]| all.iter().copied().filter(|r| !x.contains(r)).collect::<Vec<_>>();
    for (i, a) in all.iter().enumerate() {
        sets.push(vec![a]);
        sets.push(vec![a, a]);
        sets.push(without(&[a]));
        for b in &all[i + 1..] {
            sets.push(vec![a, b]);
            sets.push(vec![b, a]);
            sets.push(without(&[a, b]));
            if !ctx.quick() {
                for c in all.iter().filter(|c| *c > b) {
                    sets.push(vec![b, c, a]);
                    sets.push(without(&[a, b, c]));
                }
            }
        }
    }
    let mut rev = all.clone();
    rev.reverse();
    sets.push(rev);
    sets.push(all.iter().chain(&all).copied().collect());
    ctx.note("sets of rules", sets.len().to_string());
    par_for(sets.len(), 4, |i| {
        let s = &sets[i];
        let list = format!("[{}]", s.iter().map(|r| format!("\"{r}\"")).collect::<Vec<_>>().join(", "));
        let by_env = i % 2 == 1;
        let text = format!("[general]\nactive-rules = {list}\n");
        let r = if by_env {
            run(None, &[], "", &[("LUDTWIG_GENERAL__ACTIVE_RULES".into(), list.replace('"', ""))])
        } else {
            run(Some(("ludtwig-config.toml", text.as_bytes())), &[], "", &[])
        };
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        let mut want: Found = by_rule.iter().map(|(p, v)| (p.clone(), v.iter().filter(|d| s.contains(&d.0.as_str()) || d.0 == "SyntaxError").cloned().collect::<Vec<_>>())).collect();
        // (a rule listed twice may report twice or once)
        let mut got = found(&r.r.out);
        for v in got.values_mut() {
            v.dedup();
        }
        for v in want.values_mut() {
            v.dedup();
        }
        want.retain(|_, v| !v.is_empty());
        got.retain(|_, v| !v.is_empty());
        if got != want {
            ctx.violation(&format!("rules {list}"), &format!("active-rules = {list} ({}): findings of {:?}", if by_env { "environment" } else { "file" }, got.values().flatten().map(|d| &d.0).collect::<BTreeSet<_>>()), &r.r.stderr);
        }
    });
}

fn malformed(ctx: &Ctx, os: &[Opt]) {
    struct Bad {
        entry: Option<Entry>,
        args: Vec<&'static str>,
        env: Vec<(String, String)>,
        name: String,
    }
    let mut bad: Vec<Bad> = vec![];
    let at = |p: &'static str| -> Vec<&'static str> { if p == "ludtwig-config.toml" { vec![] } else { vec!["-c", p] } };
    for p in ["ludtwig-config.toml", "sub/my.cfg"] {
        let mut texts: Vec<(String, Vec<u8>)> = vec![];
        for o in os {
            for b in o.bad {
                for style in 0..2 {
                    let t = if style == 0 { format!("[{}]\n{} = {b}\n", o.table, o.key) } else { format!("[format]\nindentation-count = 2\n[{}.{}]\nx = 1\n", o.table, o.key) };
                    let t = if style == 1 && o.table == "format" { format!("[format]\nindentation-count = 2\n{}{} = {b}\n", if o.key == "indentation-count" { "x." } else { "" }, o.key).replace("x.indentation-count", "line-ending = \"x\"\nx") } else { t };
                    texts.push((t.clone(), t.into_bytes()));
                }
            }
        }
        for t in [
            "[format", "[format]\nindentation-count = ", "[format]\nindentation-count = 1\nindentation-count = 2\n", "format = 1\n", "general = []\n", "twig = \"x\"\n", "version = 1\n", "version = true\n", "[version]\na = 1\n", "= 1\n", "a b = 1\n", "\"\n", "[general]\nactive-rules = [\"indentation\"\n",
            "[general]\nactive-rules = [\"indentation\",, \"line-ending\"]\n", "{}\n", "[format]\n[format]\nindentation-count = 1\n",
        ] {
            texts.push((t.to_string(), t.as_bytes().to_vec()));
        }
        texts.push(("not UTF-8".into(), b"[format]\nindentation-count = 2 # \xff\n".to_vec()));
        for (name, t) in texts {
            bad.push(Bad { entry: Some(file(p, t)), args: at(p), env: vec![], name: format!("{p}: {name}") });
        }
        bad.push(Bad { entry: Some(dir(p)), args: at(p), env: vec![], name: format!("{p} is a directory") });
        bad.push(Bad { entry: Some(file(p, "[format]\nindentation-count = 2\n").mode(0)), args: at(p), env: vec![], name: format!("{p} is not readable") });
    }
    for o in os {
        for b in o.bad {
            // (the environment has no types: numbers are also taken as text)
            let x = b.replace('"', "");
            let list = o.default.is_empty();
            for v in [b.to_string(), x] {
                if list && v.starts_with("[1") {
                    continue;
                }
                if o.key == "active-rules" && (v == "[indentation,line-ending]" || v == "[ indentation]" || v == "[]") {
                    continue;
                }
                if o.key == "active-rules" && v == "[]" || !list && v == "[]" && false {
                    continue;
                }
                bad.push(Bad { entry: None, args: vec![], env: vec![(format!("LUDTWIG_{}__{}", o.table.to_uppercase(), o.key.to_uppercase().replace('-', "_")), v.clone())], name: format!("environment {}={v}", o.key) });
            }
        }
    }
    for (k, v) in [("LUDTWIG_FORMAT", "x"), ("LUDTWIG_GENERAL", "1")] {
        bad.push(Bad { entry: None, args: vec![], env: vec![(k.into(), v.into())], name: format!("environment {k}={v}") });
    }
    ctx.note("malformed configurations", bad.len().to_string());
    par_for(bad.len() * 3, 4, |k| {
        let b = &bad[k / 3];
        let mut e = vec![file("t/a.html.twig", PROBE), file("t/b.html.twig", PROBE2), dir("sub")];
        e.extend(b.entry.clone());
        let mut args = b.args.clone();
        match k % 3 {
            1 => args.push("--fix"),
            2 => args.extend(["-i", "-f"]),
            _ => {}
        }
        let r = run_in(e, &args, "", &b.env);
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        let why = if r.r.out.code != Some(1) || r.r.out.signal {
            format!("exit code {:?}", r.r.out.code)
        } else if !r.untouched {
            "a file was touched".into()
        } else if !r.r.out.diags.is_empty() || r.r.out.summary.is_some() {
            "files were checked".into()
        } else if !r.r.stderr.contains("Error") && !r.r.stderr.contains("error") {
            format!("no error is printed: {:?}", r.r.stderr)
        } else {
            ctx.outcome("malformed: rejected", 1);
            return;
        };
        ctx.violation(&format!("malformed {} {}", b.name, args.join(" ")), &format!("malformed configuration ({}): {why}", b.name), &format!("{}\n{}", r.r.out.stdout, r.r.stderr));
    });
}

// ---------------------------------------------------------------- P21

pub fn p21(ctx: &Ctx) {
    // what -C writes
    let w = World::new(&[], Some(NOBODY));
    let r = w.run("", &["-C"], &[], 60);
    let after = w.look();
    let default = after.get("ludtwig-config.toml").map(|s| s.bytes.clone()).unwrap_or_default();
    ctx.state(1);
    ctx.transition(1);
    ctx.trace(1);
    if r.out.code != Some(0) || after.len() != 1 || default.is_empty() {
        ctx.violation("plain -C", &format!("ludtwig -C: exit code {:?}, files {:?}", r.out.code, after.keys().collect::<Vec<_>>()), &r.stderr);
        return remove_public_bin();
    }
    ctx.sample(format!("ludtwig -C writes {} bytes", default.len()));
    // it means the defaults
    let a = run(None, &[], "", &[]);
    for (i, wh) in WHERE.iter().enumerate() {
        let b = run(Some((wh.path, &default)), wh.args, wh.cwd, &[]);
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        if used(&a.r.out.stdout).is_none() || used(&a.r.out.stdout) != used(&b.r.out.stdout) || found(&a.r.out) != found(&b.r.out) || a.r.out.code != b.r.out.code {
            ctx.violation(&format!("default {i}"), "the written configuration does not mean the defaults", &format!("{}\n{}", b.r.out.stdout, b.r.stderr));
        }
        if b.r.stderr.lines().next() != a.r.stderr.lines().next() {
            ctx.violation(&format!("warning {i}"), &format!("the written configuration causes {:?}", b.r.stderr.lines().next()), "");
        }
    }
    // every documented option is in the file, commented values are not used
    let text = String::from_utf8_lossy(&default).into_owned();
    for o in options() {
        if !text.lines().any(|l| l.trim_start().starts_with(&format!("{} =", o.key))) {
            ctx.violation(&format!("option {}", o.key), "the option is not in the written configuration", &text);
        }
    }
    // each option can be edited in the written file
    for o in options() {
        for v in o.values {
            let start = text.find(&format!("\n{} =", o.key)).unwrap() + 1;
            let mut end = start + text[start..].find('\n').unwrap();
            if text[start..end].trim_end().ends_with('[') {
                end = start + text[start..].find("\n]").unwrap() + 2;
            }
            let edited = format!("{}{} = {v}{}", &text[..start], o.key, &text[end..]);
            let small = format!("[{}]\n{} = {v}\n", o.table, o.key);
            let x = run(Some(("ludtwig-config.toml", edited.as_bytes())), &[], "", &[]);
            let y = run(Some(("ludtwig-config.toml", small.as_bytes())), &[], "", &[]);
            ctx.state(1);
            ctx.transition(2);
            ctx.trace(2);
            if used(&x.r.out.stdout).is_none() || used(&x.r.out.stdout) != used(&y.r.out.stdout) || found(&x.r.out) != found(&y.r.out) {
                ctx.violation(&format!("edit {} {v}", o.key), &format!("written configuration with {} = {v} differs from the defaults with that option", o.key), &x.r.stderr);
            }
        }
    }

    // the place it is written to: all states of the place
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum There {
        Nothing,
        File(&'static str),
        ReadOnlyFile,
        UnreadableFile,
        Dir,
        FullDir,
        LinkToFile,
        LinkToDir,
        DanglingLink,
        LinkLoop,
    }
    use There::*;
    let there = [Nothing, File(""), File("[format]\nindentation-count = 2\n"), File("not toml ["), ReadOnlyFile, UnreadableFile, Dir, FullDir, LinkToFile, LinkToDir, DanglingLink, LinkLoop];
    // the directory it is in
    let parents: &[(&str, Option<u32>)] = &[("", None), ("p/", None), ("p/q/", None), ("p/", Some(0o555)), ("p/", Some(0o000)), ("missing/", None), ("afile/", None)];
    let names = ["ludtwig-config.toml", "my config.cfg", "ü.toml"];
    let opts: &[&[&str]] = &[&[], &["-v"], &["-f"], &["-i", "-v"]];
    let mut cases = vec![];
    for t in there {
        for (pi, _) in parents.iter().enumerate() {
            for name in names {
                for o in 0..opts.len() {
                    for form in 0..3 {
                        for other in [false, true] {
                            cases.push((t, pi, name, o, form, other));
                        }
                    }
                }
            }
        }
    }
    ctx.note("places and options", cases.len().to_string());
    par_for(cases.len(), 4, |k| {
        let (t, pi, name, o, form, other) = cases[k];
        let (parent, mode) = parents[pi];
        let impossible = parent == "missing/" || parent == "afile/";
        if impossible && t != Nothing {
            return;
        }
        let path = format!("{parent}{name}");
        let mut e = vec![file("t/a.twig", "{{ \"a\" }}\n"), file("afile", "x"), file("target", "keep me"), dir("tdir")];
        if !parent.is_empty() && !impossible {
            let mut d = dir(parent.trim_end_matches('/'));
            d.mode = mode;
            e.push(d);
        }
        if other && path != "ludtwig-config.toml" {
            e.push(file("ludtwig-config.toml", "[format]\nindentation-count = 3\n"));
        }
        let up = "../".repeat(parent.matches('/').count());
        match t {
            Nothing => {}
            File(x) => e.push(file(&path, x)),
            ReadOnlyFile => e.push(file(&path, "x").mode(0o444)),
            UnreadableFile => e.push(file(&path, "x").mode(0o000)),
            Dir => e.push(dir(&path)),
            FullDir => e.push(file(&format!("{path}/x.toml"), "y")),
            LinkToFile => e.push(link(&path, &format!("{up}target"))),
            LinkToDir => e.push(link(&path, &format!("{up}tdir"))),
            DanglingLink => e.push(link(&path, &format!("{up}newfile"))),
            LinkLoop => e.push(link(&path, name)),
        }
        let w = World::new(&e, Some(NOBODY));
        let before = w.look();
        let abs = w.root().join(&path).to_string_lossy().into_owned();
        let given = match form {
            0 => path.clone(),
            1 => format!("./{path}"),
            _ => abs,
        };
        let mut args = opts[o].to_vec();
        args.push("-C");
        if !(form == 0 && path == "ludtwig-config.toml") {
            args.extend(["-c", &given]);
        }
        let r = w.run("", &args, &[], 60);
        let can = t == Nothing && !impossible && mode.is_none();
        // (the directory must be readable again to look into it)
        if mode.is_some() {
            let _ = std::fs::set_permissions(w.root().join("p"), std::os::unix::fs::PermissionsExt::from_mode(0o755));
        }
        let after = w.look();
        ctx.state(1);
        ctx.transition(1);
        ctx.trace(1);
        let desc = format!("{t:?} at {path:?} (directory {mode:?}{}) ludtwig {}", if other { ", other config" } else { "" }, args.iter().map(|a| if *a == given && form == 2 { "/ABSOLUTE" } else { a }).collect::<Vec<_>>().join(" "));
        let fail = |why: String| ctx.violation(&desc, &format!("{desc}: {why}"), &format!("{}\n{}", r.out.stdout, r.stderr));
        let mut before = before;
        for m in [&mut before] {
            if mode.is_some() {
                // compare without the permissions changed above
                if let Some(s) = m.get_mut("p") {
                    s.mode = after["p"].mode;
                }
            }
        }
        let want_code = if can { 0 } else { 1 };
        ctx.outcome(&format!("{t:?} {} {:?}", if can { "written" } else { "kept" }, r.out.code), 1);
        if r.out.code != Some(want_code) {
            fail(format!("exit code {:?} instead of {want_code}", r.out.code));
        }
        for (p, b) in &before {
            if mode.is_some() && p.starts_with("p/") {
                continue; // (was not visible)
            }
            if after.get(p) != Some(b) {
                fail(format!("{p} was touched"));
            }
        }
        let new: Vec<&String> = after.keys().filter(|p| !before.contains_key(*p)).filter(|p| !(mode == Some(0) && t != Nothing && p.starts_with(&path)) ).collect();
        if can {
            if new != [&path] {
                fail(format!("new files are {new:?}"));
            } else if after[&path].bytes != default {
                fail("the content is not the default configuration".into());
            }
        } else if !new.is_empty() {
            fail(format!("new files are {new:?}"));
        }
        if !can && r.stderr.trim().is_empty() {
            fail("no message".into());
        }
    });
    crate::faults::create_config(ctx, &default);
    remove_public_bin();
}

/// More entries than there are rules, the last one is unknown.
const LONG_UNKNOWN: &str = "[\"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"indentation\", \"nope\"]";

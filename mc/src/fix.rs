//! P09, P10, P11: what --fix does to a file.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::*;
use crate::parse::{self, parse};
use crate::shape::skeleton;
use crate::twigref::{self, Canon, BINARY};
use crate::rules::names;
use crate::vocab;
use std::collections::HashSet;
use std::sync::Mutex;

pub const FIXABLE: &[&str] = &["an", "or", "sa", "ns", "hk", "ex", "je", "sq", "hq", "bn", "kc"];

/// Constructs with a fix and contexts in which the fixes of inner and outer constructs touch or
/// overlap.
fn dense() -> Algebra {
    let mut t = vec![];
    for s in [
        "foo",
        "é",
        "a «!an*»«&&→and» b",
        "a«!an*»«&&→ and »b",
        "a «!or*»«||→or» b",
        "a «!sa*»«=== →is same as(»b«→)»",
        "a «!ns*»«!== →is not same as(»b«→)»",
    ] {
        if s != "é" {
            t.push(Tmpl::snip(E, s));
        }
    }
    for s in [
        "«!sq*»«\"→'»x«\"→'»",
        "«!sq*»«\"→'»«\"→'»",
        "'é'",
        "«!sq*»«\"→'»é 😀«\"→'»",
        "{ «!hk*»«'→»k«'→»: 1 }",
        "{«!hk*»«'→»k«'→»:«!sq*»«\"→'»é«\"→'»,«!hk*»«'→»l«'→»:2}",
        "foo|json_encode|«!je*»«raw→escape('js')»",
    ] {
        t.push(Tmpl::snip(E | P, s));
    }
    for s in [
        "{ «!hk*»«'→»k«'→»: ◆ }",
        "{«!hk*»«'→»k«'→»:◆,«!hk*»«'→»l«'→»:«!sq*»«\"→'»é«\"→'»}",
        "(◆)",
        "[«!sq*»«\"→'»é«\"→'»,◆,«!sq*»«\"→'»x«\"→'»]",
        "date(◆,x)",
    ] {
        t.push(Tmpl::ctx(E, E | P, s));
    }
    for s in [
        "b «!sa*»«=== →is same as(»◆«→)»",
        "◆ «!ns*»«!== →is not same as(»b«→)»",
        "b «!an*»«&&→and» ◆",
        "◆ «!or*»«||→or» b",
        "c ? ◆ : «!sq*»«\"→'»x«\"→'»",
    ] {
        t.push(Tmpl::ctx(P, E, s));
    }
    t.push(Tmpl::ctx(P, E | P, "◆|json_encode|«!je*»«raw→escape('js')»"));
    Algebra::new(t)
}

/// Ways to put an expression into a file: fixes before and behind it, multibyte text, CRLF.
fn holders() -> Vec<Tmpl> {
    [
        "{{ ◆ }}",
        "{{◆}}",
        "é😀\r\n\t{{ ◆ }}",
        "\u{feff}<p «!kc*»«fooBar→foo-bar»=«!hq*»«'→\"»é«'→\"»>ü{{ ◆ }}😀</p>",
        "{{ «!sq*»«\"→'»é«\"→'»«!an*»«&&→ and »x }}{{ ◆ }}{{ «!sq*»«\"→'»é«\"→'» }}",
        "{% block «!bn*»«bl=fooBar>foo_bar»«fooBar→foo_bar» %}\r\n{% if ◆ %}é{% endif %}{% endblock %}",
        "{% set x = ◆ %}{% block «!bn*»«bl=fooBar>foo_bar»«fooBar→foo_bar» %}{% endblock %}",
        "{% set x = ◆ %}<p «!kc*»«fooBar→foo-bar» «!kc*»«a_b→a-b»></p>",
    ]
    .iter()
    .map(|s| Tmpl::ctx(E, N, s))
    .collect()
}

fn relevant(docs: Vec<Doc>) -> Vec<Doc> {
    docs.into_iter().filter(|d| d.cats & N != 0 && !d.nofix && !d.edits.is_empty()).collect()
}

pub fn p09(ctx: &Ctx) {
    let alg = dense();
    let hold = Algebra::new(holders());
    let all = names(&[FIXABLE, &["bd", "di", "vn", "vf", "vt", "vu"]].concat());
    let cfg = Cfg::rules(&all);
    // A: nested fixes
    let mut docs = alg.base();
    let depth = if ctx.quick() { 3 } else { 4 };
    for k in 0..=depth {
        if k > 0 {
            docs = alg.grow(&docs);
        }
        for c in docs.chunks(4000) {
            let full: Vec<Doc> = if k < depth {
                hold.grow(c)
            } else {
                // the last level: each in one of the holders
                c.iter().enumerate().map(|(i, d)| hold.put(hold.ctxs[i % hold.ctxs.len()], d)).collect()
            };
            for d in full.iter().step_by(full.len().max(1)) {
                ctx.sample(format!("{:?} -> {:?}", d.text, d.fixed()));
            }
            let full: Vec<Doc> = full.into_iter().filter(|d| !d.text.contains("}}}")).collect();
            check_fix(ctx, &hold, &full, &cfg, &all, "");
            if ctx.violation_count() > 1000 {
                return;
            }
        }
    }
    // B: neighbours in all orders
    let items: Vec<Doc> = Algebra::new(
        [
            "{{ a«!an*»«&&→ and »b }}",
            "{{ «!sq*»«\"→'»é«\"→'» }}",
            "{{ {«!hk*»«'→»k«'→»:1} }}",
            "{{ a«!sa*»«===→ is same as(»«!sq*»«\"→'»é«\"→'»«→)» }}",
            "{{ x|json_encode|«!je*»«raw→escape('js')» }}",
            "<p «!kc*»«fooBar→foo-bar»=«!hq*»«'→\"»é«'→\"» x=«!hq*»«→\"»y«→\"»></p>",
            "<b x=«!hq*»«→\"»y«→\"»>",
            "<b x=«!hq*»«→\"»{{ y }}«→\"»></b>",
            "{% block «!bn*»«bl=fooBar>foo_bar»«fooBar→foo_bar» %}{% endblock %}",
            "«!ex*»{% «extends→sw_extends» 'é' %}",
            "é",
            "{{ a|«!vf»nofilt }}",
        ]
        .iter()
        .filter(|s| !s.starts_with("<b") || s.ends_with("</b>"))
        .map(|s| Tmpl::snip(N, s))
        .collect(),
    )
    .base();
    let seps: &[&str] = &["", "\n", "é\r\n", " 😀\t"];
    let mut docs = vec![];
    for a in &items {
        for b in &items {
            for s in seps {
                docs.push(concat(&[a, b], s));
                if ctx.quick() && *s != "" {
                    continue;
                }
                for c in &items {
                    docs.push(concat(&[a, b, c], s));
                    if !ctx.quick() && *s == "" {
                        for d in &items {
                            docs.push(concat(&[a, b, c, d], s));
                        }
                    }
                }
            }
        }
    }
    check_fix(ctx, &alg, &docs, &cfg, &all, "");
    // attributes next to each other
    let attrs = Algebra::new(
        [
            "«!kc*»«fooBar→foo-bar»",
            "x=«!hq*»«'→\"»é«'→\"»",
            "x=«!hq*»«→\"»y«→\"»",
            "x=«!hq*»«→\"»{{ y }}«→\"»",
            "«!kc*»«a_b→a-b»=«!hq*»«'→\"»{{ a «!an*»«&&→and» b }}«'→\"»",
            "y=\"{{ «!sq*»«\"→'»é«\"→'» }}\"",
            "z=«!hq»'{{ «!sq*»«\"→'»é«\"→'» }}'",
            "{{ a «!sa*»«=== →is same as(»b«→)» }}",
            "{% if a «!or*»«||→or» b %}«!kc*»«fooBar→foo-bar»{% endif %}",
        ]
        .iter()
        .filter(|s| !s.starts_with("z="))
        .map(|s| Tmpl::snip(A, s))
        .collect(),
    )
    .base();
    let tag = Algebra::new(vec![
        Tmpl::ctx(A, N, "<p ◆>é</p>"),
        Tmpl::ctx(A, N, "é<img\r\n  ◆\r\n/>{{ «!sq*»«\"→'»é«\"→'» }}"),
    ]);
    let mut docs = vec![];
    for a in &attrs {
        for b in &attrs {
            docs.push(concat(&[a, b], " "));
            docs.push(concat(&[a, b], "\r\n\t"));
            for c in &attrs {
                docs.push(concat(&[a, b, c], " "));
            }
        }
    }
    let docs = tag.grow(&docs);
    check_fix(ctx, &tag, &docs, &cfg, &all, "");

    // C: every subset of active rules of size one and two, and all but one
    let mut sets: Vec<Vec<&str>> = vec![];
    for (i, a) in FIXABLE.iter().enumerate() {
        sets.push(vec![a]);
        sets.push(FIXABLE.iter().copied().filter(|x| x != a).collect());
        for b in &FIXABLE[..i] {
            sets.push(vec![a, b]);
        }
    }
    sets.push(vec![]);
    let voc = vocab::all();
    for (n, set) in sets.iter().enumerate() {
        let rules = names(set);
        let mk = |a: Algebra| a.with_rules(&rules);
        let (alg, hold, voc2) = (mk(dense()), mk(Algebra::new(holders())), mk(vocab::all()));
        let one: Vec<Doc> = alg.grow(&alg.base());
        let mut docs = hold.grow(&alg.base());
        docs.extend(one.iter().enumerate().map(|(i, d)| hold.put(hold.ctxs[(i + n) % hold.ctxs.len()], d)));
        docs.retain(|d| !d.text.contains("}}}")); // not supported (a finding of P03)
        let v = voc2.grow(&voc2.base());
        let step = if ctx.quick() { 8 } else { 1 };
        docs.extend(relevant(v).into_iter().skip(n % step).step_by(step));
        check_fix(ctx, &voc, &docs, &Cfg::rules(&rules), &rules, &format!("[{}] ", set.join(" ")));
        if ctx.violation_count() > 1000 {
            return;
        }
    }
}

/// Items and separators of files that are laid out in every possible way.
pub fn messy(ctx: &Ctx, big: bool) -> Vec<Doc> {
    let items: Vec<Doc> = Algebra::new(
        [
            "x",
            "<b>y</b>",
            "<br>",
            "{{ z }}",
            "{% block «bl=b1»b1 %}{% endblock %}",
            "{% block «!bn*»«bl=fooBar>foo_bar»«fooBar→foo_bar» %}x{% endblock %}",
            "<div «!kc*»«aB→a-b»=«!hq*»«'→\"»1«'→\"» b=\"2\"></div>",
            "{# c #}",
            "<!-- d -->",
            "<pre> x\n\ty</pre>",
            "<script>\n if (a) {\n  b }\n</script>",
            "<style>\na { b }</style>",
            "<textarea>\n  a\n b\n</textarea>",
            "{% set a = «!sq*»«\"→'»q«\"→'» %}",
            "{% if a «!an*»«&&→and» b %}x{% else %}y{% endif %}",
            "{% if a %}\nx\n{% elseif b %}\n\n   {% block «bl=b2»b2 %}\nz\n{% endblock %}{% endif %}",
            "<a\n b\n  c=«!hq*»«'→\"»x y«'→\"»\n>t</a>",
            "<a b=\"1\"\nc=\"x\n  y\">t</a>",
            "<a {% if x %}\nb=\"1\" {% endif %}\nc>\nt\n</a>",
            "{{ max(\na,\n      b\n) }}",
            "{% set h = {\n  «!hk*»«'→»k«'→»: 1,\nl: [\n1\n]\n} %}",
            "{{ 'a\n   b' }}",
            "{% verbatim %}x{% endverbatim %}",
            "<p>\n</p>",
            "<p>\ta\n\n \n<i>b</i></p>",
        ]
        .iter()
        .map(|s| Tmpl::snip(N, s))
        .collect(),
    )
    .base();
    let seps: &[&str] = &["", " ", "\n", "\n\n\n", "\r\n", "\n \t \n", "\n\t"];
    let ctxs: &[(&str, &str)] = &[
        ("", ""),
        ("{% block «bl=outer»outer %}", "{% endblock %}"),
        ("<div>", "</div>"),
        ("{% if a %}", "{% endif %}"),
        ("<p a\n  b>", "</p>"),
        ("{% block «bl=outer»outer %}{% block «bl=o2»o2 %}", "{% endblock %}{% endblock %}"),
    ];
    let mut inner: Vec<(Doc, &str)> = vec![];
    for a in &items {
        for s in seps {
            inner.push((a.clone(), s));
        }
        for b in &items {
            for s in seps {
                inner.push((concat(&[a, b], s), s));
                if big {
                    for c in &items {
                        inner.push((concat(&[a, b, c], s), s));
                    }
                }
            }
        }
    }
    let mut out = vec![];
    let mk = |s: String| Tmpl::ctx(N, N, Box::leak(s.into_boxed_str()));
    for (n, (a, b)) in ctxs.iter().enumerate() {
        let tm: Vec<Vec<Tmpl>> = seps
            .iter()
            .map(|s1| seps.iter().map(|s2| mk(format!("{s1}{a}{s1}◆{s2}{b}{s2}"))).collect())
            .collect();
        for (i, (d, s)) in inner.iter().enumerate() {
            let k = seps.iter().position(|x| x == s).unwrap();
            let m = if big { i % seps.len() } else { (i + n) % seps.len() };
            let h = Algebra::new(vec![tm[k][m].clone()]);
            out.push(h.put(0, d));
        }
    }
    ctx.note("laid out documents", out.len().to_string());
    out
}

/// Every combination of the format options.
pub fn format_configs() -> Vec<Cfg> {
    let mut v = vec![];
    for le in ["unix_LF", "windows_CRLF"] {
        for (mode, count) in [("space", "4"), ("space", "2"), ("space", "3"), ("tab", "1"), ("tab", "2")] {
            for ch in ["true", "false"] {
                for lb in ["true", "false"] {
                    for (tq, hq) in [("single", "double"), ("double", "single"), ("single", "single"), ("double", "double")] {
                        v.push(
                            Cfg::default_cfg()
                                .fmt("line-ending", &format!("\"{le}\""))
                                .fmt("indentation-mode", &format!("\"{mode}\""))
                                .fmt("indentation-count", count)
                                .fmt("indent-children-of-blocks", ch)
                                .fmt("linebreaks-around-blocks", lb)
                                .fmt("twig-quotation", &format!("\"{tq}\""))
                                .fmt("html-quotation", &format!("\"{hq}\"")),
                        );
                    }
                }
            }
        }
    }
    v
}

/// lint, fix, lint of the result, fix of the result
struct Cycle {
    before: Vec<Diag>,
    fixed: String,
    after_fix: Vec<Diag>,
    relint: Vec<Diag>,
    again: String,
}

fn cycles(ctx: &Ctx, texts: &[String], cfg: &Cfg, want_before: bool, f: &(dyn Fn(usize, &Cycle) + Sync)) {
    let run = |t: &[String], mode: Mode| -> Vec<FileOut> {
        let out: Mutex<Vec<FileOut>> = Mutex::new(vec![FileOut::default(); t.len()]);
        run_all(
            t,
            cfg,
            mode,
            |i, fo| {
                out.lock().unwrap()[i] = fo.clone();
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
        out.into_inner().unwrap()
    };
    let before = if want_before { run(texts, Mode::Lint) } else { vec![FileOut::default(); texts.len()] };
    let fix = run(texts, Mode::Fix);
    let fixed: Vec<String> = fix.iter().map(|f| f.after.clone().unwrap_or_default()).collect();
    let relint = run(&fixed, Mode::Lint);
    let again = run(&fixed, Mode::Fix);
    for i in 0..texts.len() {
        let c = Cycle {
            before: before[i].diags.clone(),
            fixed: fixed[i].clone(),
            after_fix: fix[i].diags.clone(),
            relint: relint[i].diags.clone(),
            again: again[i].after.clone().unwrap_or_default(),
        };
        f(i, &c);
    }
}

fn short(v: &[Diag]) -> Vec<String> {
    v.iter().map(|d| format!("{}({}) {}:{}", d.rule, d.sev, d.line, d.col)).collect()
}

/// Rules whose findings always carry a suggestion.
const ALWAYS_FIXABLE: &[&str] = &[
    "whitespace-between-line-breaks",
    "line-ending",
    "indentation",
    "twig-block-line-breaks",
    "twig-logic-and",
    "twig-logic-or",
    "twig-use-is-same-as",
    "twig-use-is-not-same-as",
    "twig-hash-key-no-quotes",
    "twig-prefer-shopware-extends",
    "twig-json-encode-escape-js",
];

fn converges(ctx: &Ctx, texts: &[String], cfg: &Cfg, tag: &str) {
    let toml = cfg.toml().replace('\n', " ");
    for c in texts.chunks(40_000) {
        cycles(ctx, c, cfg, false, &|i, cy| {
            ctx.state(1);
            ctx.trace(1);
            ctx.transition(3);
            let t = &c[i];
            let mut why = vec![];
            if cy.again != cy.fixed {
                why.push(format!("--fix gives {:?}, a second --fix {:?}", cy.fixed, cy.again));
            }
            if cy.after_fix != cy.relint {
                why.push(format!("--fix gives {:?} and reports {:?}, a lint of the result reports {:?}", cy.fixed, short(&cy.after_fix), short(&cy.relint)));
            }
            if let Some(d) = cy.relint.iter().find(|d| ALWAYS_FIXABLE.contains(&d.rule.as_str())) {
                why.push(format!("--fix gives {:?}, which still has {}", cy.fixed, short(&[d.clone()])[0]));
            }
            ctx.outcome(if cy.fixed == *t { "unchanged" } else { "fixed" }, 1);
            if !why.is_empty() {
                ctx.violation(&format!("{tag}fix:{t}"), &format!("{t:?}: {} ({toml})", why.join("; ")), &format!("{t}\n\n{}", cfg.toml()));
            }
        });
    }
}

pub fn p10(ctx: &Ctx) {
    let voc = vocab::all();
    let base: Vec<Doc> = voc.base();
    let one = voc.grow(&base);
    let full = |docs: &[Doc]| -> Vec<String> { docs.iter().filter(|d| d.cats & N != 0 && !d.nofix).map(|d| d.text.clone()).collect() };
    let mess: Vec<String> = messy(ctx, !ctx.quick()).into_iter().filter(|d| !d.nofix).map(|d| d.text).collect();
    let plain = {
        let mut v = full(&base);
        v.extend(full(&one));
        v
    };
    for s in mess.iter().step_by(mess.len() / 4) {
        ctx.sample(format!("{s:?}"));
    }
    // all rules, default options
    converges(ctx, &plain, &Cfg::default_cfg(), "");
    converges(ctx, &mess, &Cfg::default_cfg(), "");
    // every combination of the format options
    let cfgs = format_configs();
    ctx.note("format configurations", cfgs.len().to_string());
    let step = if ctx.quick() { 60 } else { 6 };
    for (k, cfg) in cfgs.iter().enumerate() {
        let part: Vec<String> = mess.iter().skip(k % step).step_by(step).chain(plain.iter().skip(k % step).step_by(step)).cloned().collect();
        converges(ctx, &part, cfg, &format!("[{k}] "));
        if ctx.violation_count() > 1000 {
            return;
        }
    }
    // every pair of rules, every single rule, all but one
    let mut sets: Vec<Vec<&'static str>> = vec![];
    for (i, a) in ALL_RULES.iter().enumerate() {
        sets.push(vec![a]);
        sets.push(ALL_RULES.iter().copied().filter(|x| x != a).collect());
        for b in &ALL_RULES[..i] {
            sets.push(vec![a, b]);
        }
    }
    // the order of the rules does not matter either
    sets.push(ALL_RULES.iter().rev().copied().collect());
    sets.push(vec![]);
    ctx.note("rule sets", sets.len().to_string());
    let step = if ctx.quick() { 100 } else { 10 };
    for (k, set) in sets.iter().enumerate() {
        let part: Vec<String> = mess.iter().skip(k % step).step_by(step).chain(plain.iter().skip(k % step).step_by(step)).cloned().collect();
        converges(ctx, &part, &Cfg::rules(set), &format!("[{}] ", if set.len() > 2 { format!("{} rules", set.len()) } else { set.join(" ") }));
        if ctx.violation_count() > 1000 {
            return;
        }
    }
    // broken templates are fixed as far as they are understood
    let mut broken: Vec<String> = vec![];
    let mut seen = HashSet::new();
    for d in base.iter().filter(|d| d.cats & N != 0).chain(one.iter().filter(|d| d.cats & N != 0).step_by(if ctx.quick() { 10 } else { 1 })) {
        if let Some(b) = crate::p04::breakages(&d.text) {
            for b in b {
                if seen.insert(b.text.clone()) {
                    broken.push(b.text);
                }
            }
        }
    }
    converges(ctx, &broken, &Cfg::default_cfg(), "broken ");
    // deeply nested fixes
    let mut docs = vec![];
    for n in 1..=30usize {
        if n < 10 {
            docs.push(format!("{{{{ {}a{} }}}}", "(a === ".repeat(n), ")".repeat(n)));
            docs.push(format!("{{{{ {} }}}}", vec!["a"; n + 1].join(" === ")));
        }
        docs.push(format!("{{{{ {} }}}}", vec!["a"; n + 1].join(" && ")));
        docs.push(format!("{}x{}", "{% block fooBar %}".repeat(n), "{% endblock %}".repeat(n)));
        docs.push(format!("{}x{}", "<div>\n".repeat(n), "</div>".repeat(n)));
        docs.push(format!("{}\n", "<p\nfooBar='a'\n></p>".repeat(n)));
    }
    converges(ctx, &docs, &Cfg::default_cfg(), "");
    // many fixes in one file
    let many: Vec<&Doc> = base.iter().filter(|d| d.cats & N != 0 && !d.nofix && !d.exps.is_empty()).collect();
    let mut docs: Vec<String> = vec![];
    for (i, d) in many.iter().enumerate() {
        for n in if ctx.quick() { vec![3000] } else { vec![300, 1000, 3000, 10_000, 70_000] } {
            docs.push(format!("{}\n", d.text).repeat(n));
            if !ctx.quick() || i % 5 == 0 {
                docs.push(format!("{{% block a %}}\n{}{{% endblock %}}", format!("      {}\n", d.text).repeat(n)));
            }
        }
    }
    for n in [3, 50] {
        docs.push(many.iter().map(|d| format!("{}\n", d.text)).collect::<String>().repeat(n));
    }
    ctx.note("files with many fixes", docs.len().to_string());
    converges(ctx, &docs, &Cfg::rules(&non_layout_rules()), "many ");
    docs.truncate(docs.len() / 3);
    converges(ctx, &docs, &Cfg::default_cfg(), "many ");
    // more fixes inside of each other than rounds (a known finding)
    converges(ctx, &[format!("{{{{ {}a{} }}}}", "(a === ".repeat(12), ")".repeat(12))], &Cfg::default_cfg(), "probe ");
}

fn strip_ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn same(s: &str) -> String {
    s.to_string()
}

/// The structure of a text, or why there is none.
fn structure(t: &str) -> Result<(String, usize), String> {
    let p = parse(t)?;
    Ok((skeleton(&p.tree, &same), p.errors.len()))
}

/// Literals whose content must survive, with the positions they may stand in.
fn literals() -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    for s in [
        "'a\n   b  \n\n \t\nc'",
        "'  '",
        "'\n'",
        "'\t{% block x %}\n{% endblock %}'",
        "'<div>\n<p>\n  x</p>'",
        "\"a \n #{\nfoo\n  } \n\n\n b\"",
        "\"#{ a ~\n' b\n  ' }\"",
    ] {
        for h in ["{{ ◆ }}", "{% set v = ◆ %}", "{{ max(\n◆,\n ◆) }}", "{% if a ==\n◆ %}\nx{% endif %}", "{% set h = {\nk: ◆,\nl: [\n◆ ] } %}", "{% include ◆ with {\na: ◆ } %}"] {
            v.push((s, h));
        }
    }
    for s in [
        "a\n   b  \n\n \t\nc",
        "\n",
        " x ",
        "{% if a %}\n  x\n {% else %}\ny{% endif %} z",
        "{{ a }}\n   {{\n b }}",
        "{% for x in y %}\n\n \n{{ x }}\n{% endfor %}",
        "{% block q1 %}\n x{% endblock %} ",
        "{# a\n   b #}\n c",
    ] {
        for h in ["<p a=\"◆\">x</p>", "<p\na=\"◆\"\n  b=\"◆\"></p>", "<img a=\"◆\">", "<twig:Foo a=\"◆\"\n b=\"c\" />", "<p {% if a %}\nb=\"◆\"{% endif %}\n></p>"] {
            v.push((s, h));
        }
    }
    let raw = ["pre", "textarea", "script", "style", "PRE", "Script"];
    for (i, s) in [
        "a\n   b  \n\n \t\nc",
        "\n",
        "\n\n  x\n",
        "{% if a %}\n  x\n {% else %}\ny{% endif %} z\n",
        "{% block q1 %}\n x{% endblock %}\n{% block q2 %}{% endblock %}  \n\n\n",
        "{{\na\n}}\n  {# x\n  y #} \n \n z",
        "\n{% for x in y %}\n{{ x }}\n   {% endfor %}\nif (a < b) {\n  c\n }\n",
        "  {% set x %}\n a\n{% endset %}\nb\n",
    ]
    .iter()
    .enumerate()
    {
        for n in raw {
            let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            v.push((s, leak(format!("<{n}>◆</{n}>"))));
            v.push((s, leak(format!("<{n} a=\"b\">◆</{n}>\n<p>\nx</p>"))));
            if n.eq_ignore_ascii_case("pre") {
                v.push((s, leak(format!("<{n}>\n<b>\n ◆</b>\n</{n}>"))));
                v.push((s, leak(format!("<{n}><pre>\n x</pre>\n◆</{n}>"))));
                // (a `<` in an attribute value is not supported)
                if !s.contains('<') {
                    v.push((s, leak(format!("<{n}><script>\n x</script>\n◆<p\n a=\"◆\"></p></{n}>"))));
                }
            }
            if i == 0 {
                v.push((s, leak(format!("<div>\n{{% block q %}}<{n}>◆</{n}>\n  {{% endblock %}}</div>\n<{n}>◆</{n}>"))));
            }
        }
    }
    v
}

pub fn p11(ctx: &Ctx) {
    parse::quiet_panics();
    let voc = vocab::all();
    let base = voc.base();
    let one = voc.grow(&base);
    let mut docs: Vec<Doc> = base.iter().chain(&one).filter(|d| d.cats & N != 0 && !d.nofix).cloned().collect();
    docs.extend(messy(ctx, !ctx.quick()));
    if !ctx.quick() {
        docs.extend(one.chunks(5000).flat_map(|c| voc.grow(c)).filter(|d| d.cats & N != 0 && !d.nofix && !d.edits.is_empty()).step_by(3));
    }
    let texts: Vec<String> = docs.iter().map(|d| d.text.clone()).collect();

    // A: all rules: the text becomes the composed text, apart from whitespace
    // B: only the layout rules: the structure stays the same
    let mut layout: Vec<Cfg> = vec![];
    for le in ["unix_LF", "windows_CRLF"] {
        for (mode, count) in [("space", "4"), ("space", "2"), ("tab", "1")] {
            for lb in ["true", "false"] {
                layout.push(
                    Cfg::rules(LAYOUT_RULES)
                        .fmt("line-ending", &format!("\"{le}\""))
                        .fmt("indentation-mode", &format!("\"{mode}\""))
                        .fmt("indentation-count", count)
                        .fmt("indent-children-of-blocks", lb)
                        .fmt("linebreaks-around-blocks", if le == "unix_LF" { lb } else if lb == "true" { "false" } else { "true" }),
                );
            }
        }
    }
    let check = |texts: &[String], cfg: &Cfg, want: &(dyn Fn(usize) -> String + Sync), tag: &str| {
        run_all(
            texts,
            cfg,
            Mode::Fix,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                let t = &texts[i];
                let after = fo.after.as_deref().unwrap_or("");
                let want = want(i);
                let fail = |why: String| {
                    ctx.violation(&format!("{tag}fix:{t}"), &format!("--fix of {t:?} gives {after:?}: {why}"), &format!("{t}\n\n{}", cfg.toml()));
                };
                if let Some(d) = fo.diags.iter().find(|d| d.rule == "SyntaxError") {
                    return fail(format!("syntax error {}", d.raw));
                }
                if strip_ws(after) != strip_ws(&want) {
                    return fail(format!("expected the text of {want:?}"));
                }
                ctx.outcome(if after == t { "unchanged" } else { "fixed" }, 1);
                if after == t && want == *t {
                    return;
                }
                match (structure(after), structure(&want)) {
                    (Ok((a, 0)), Ok((b, 0))) if a == b => {}
                    (Ok((a, 0)), Ok((b, 0))) => fail(format!("its structure is\n  {a}\n  expected\n  {b}")),
                    (a, b) => fail(format!("{a:?} {b:?}")),
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
    };
    for d in docs.iter().step_by(docs.len() / 4) {
        ctx.sample(format!("{:?} -> {:?}", d.text, d.fixed()));
    }
    check(&texts, &Cfg::default_cfg(), &|i| docs[i].fixed(), "");
    for (k, cfg) in layout.iter().enumerate() {
        let part: Vec<String> = if ctx.quick() { texts.iter().skip(k).step_by(layout.len()).cloned().collect() } else { texts.clone() };
        check(&part, cfg, &|i| part[i].clone(), &format!("layout {k} "));
        if ctx.violation_count() > 500 {
            return;
        }
    }

    // C: protected text
    let seps: &[&str] = &["", "\n", "\n\n", "\r\n", " \n\t"];
    let ctxs: &[(&str, &str)] = &[("", ""), ("{% block outer %}", "{% endblock %}"), ("<div>", "</div>"), ("{% if a %}<p>", "</p>{% endif %}"), ("{% block o1 %}{% block o2 %}", "{% endblock %}{% endblock %}")];
    let mut lits: Vec<(String, String, usize)> = vec![];
    for (l, h) in literals() {
        let body = h.replace('◆', l);
        for s1 in seps {
            for s2 in seps {
                for (a, b) in ctxs {
                    lits.push((format!("{s1}{a}{s1}{body}{s2}{b}{s2}"), l.to_string(), h.matches('◆').count()));
                }
            }
        }
    }
    let texts: Vec<String> = lits.iter().map(|x| x.0.clone()).collect();
    for t in texts.iter().step_by(texts.len() / 4) {
        ctx.sample(format!("{t:?}"));
    }
    // (double quotes, so that only the layout changes; line endings are normalised everywhere)
    for (k, cfg) in layout.iter().enumerate() {
        let crlf = cfg.toml().contains("CRLF");
        run_all(
            &texts,
            cfg,
            Mode::Fix,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                let (t, l, n) = &lits[i];
                let after = fo.after.as_deref().unwrap_or("");
                let l = if crlf { l.replace('\n', "\r\n") } else { l.clone() };
                if after.matches(&l).count() < *n {
                    ctx.violation(&format!("literal {k} {t}"), &format!("--fix of {t:?} gives {after:?}: {l:?} was changed"), &format!("{t}\n\n{}", cfg.toml()));
                }
                if fo.diags.iter().any(|d| d.rule == "SyntaxError") {
                    ctx.violation(&format!("literal {k} {t}"), &format!("--fix of {t:?} gives {after:?}: {}", fo.diags[0].raw), t);
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
    }

    // D: grouping of operators under every subset of the operator rules
    let rules = ["an", "or", "sa", "ns"];
    let mut texts: Vec<String> = vec![];
    let ops: Vec<&str> = BINARY.iter().map(|b| b.0).filter(|o| !o.starts_with("is")).collect();
    let special = ["&&", "||", "===", "!=="];
    for a in &ops {
        for b in &ops {
            if special.contains(a) || special.contains(b) {
                for u in ["", "not ", "-"] {
                    texts.push(format!("{u}a {a} b {b} c"));
                    texts.push(format!("a {a} {u}b {b} c"));
                    texts.push(format!("(a {a} b) {b} {u}c"));
                    texts.push(format!("a {a} ({u}b {b} c)"));
                }
                texts.push(format!("a {a} b {b} c ? d {a} e : f {b} g"));
                texts.push(format!("a {a} b is defined {b} c is same as(d {a} e)"));
            }
            for c in special {
                texts.push(format!("a {a} b {b} c {c} d"));
                texts.push(format!("a {c} b {b} c {a} d"));
                texts.push(format!("a {a} b {c} c {b} d"));
            }
        }
    }
    texts.sort();
    texts.dedup();
    let texts: Vec<String> = texts.into_iter().map(|e| format!("{{{{ {e} }}}}")).collect();
    for m in 1u32..16 {
        if ctx.quick() && m.count_ones() != 1 && m != 15 {
            continue;
        }
        let set: Vec<&str> = (0..4).filter(|i| m >> i & 1 == 1).map(|i| rules[i as usize]).collect();
        let cfg = Cfg::rules(&names(&set));
        run_all(
            &texts,
            &cfg,
            Mode::Fix,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                let t = &texts[i];
                let after = fo.after.as_deref().unwrap_or("");
                let e = |s: &str| {
                    let s = s.strip_prefix("{{").and_then(|s| s.strip_suffix("}}")).ok_or("no output")?;
                    twigref::parse(s, Canon::Meaning)
                };
                let (x, y) = (e(t), e(after));
                if x != y || x.is_err() || !fo.diags.is_empty() {
                    ctx.violation(&format!("[{}] group:{t}", set.join(" ")), &format!("--fix of {t:?} ({}) gives {after:?}: means {y:?} instead of {x:?}; findings {:?}", set.join(" "), short(&fo.diags)), t);
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
    }

    // E: damaged templates: no syntax errors where there were none, the layout rules change
    // nothing but whitespace
    let mut broken: Vec<String> = vec![];
    for d in base.iter().filter(|d| d.cats & N != 0).chain(one.iter().filter(|d| d.cats & N != 0).step_by(if ctx.quick() { 12 } else { 1 })) {
        broken.extend(crate::p04::breakages(&d.text).unwrap_or_default().into_iter().map(|b| b.text));
    }
    broken.sort();
    broken.dedup();
    for cfg in [Cfg::default_cfg(), Cfg::rules(LAYOUT_RULES)] {
        let all = cfg.toml() == Cfg::default_cfg().toml();
        cycles(ctx, &broken, &cfg, true, &|i, cy| {
            ctx.state(1);
            ctx.trace(1);
            ctx.transition(1);
            let n = |v: &[Diag]| v.iter().filter(|d| d.rule == "SyntaxError").count();
            let t = &broken[i];
            if n(&cy.before) == 0 && n(&cy.relint) > 0 {
                ctx.violation(&format!("broken:{t}"), &format!("--fix of {t:?} gives {:?} with {} syntax errors, there were none", cy.fixed, n(&cy.relint)), t);
            }
            if !all && strip_ws(t) != strip_ws(&cy.fixed) {
                ctx.violation(&format!("broken:{t}"), &format!("--fix of {t:?} with the layout rules gives {:?}: more than whitespace was changed", cy.fixed), t);
            }
        });
    }

    // G: keys of hashes: every short text in quotes stays the key it was
    let mut keys: Vec<String> = vec![];
    let mut level: Vec<String> = vec![String::new()];
    for _ in 0..if ctx.quick() { 3 } else { 4 } {
        level = level.iter().flat_map(|k| ["a", "B", "_", "0", "-", ".", ":", " ", "é", "$", "/"].map(|c| format!("{k}{c}"))).collect();
        keys.extend(level.iter().cloned());
    }
    let texts: Vec<String> = keys.iter().enumerate().map(|(i, k)| if i % 2 == 0 { format!("{{{{ {{ '{k}': 1 }} }}}}") } else { format!("{{% set x = {{ b: 1, \"{k}\": 2 }} %}}") }).collect();
    cycles(ctx, &texts, &Cfg::default_cfg(), true, &|i, cy| {
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(1);
        let (t, k) = (&texts[i], &keys[i]);
        let n = |v: &[Diag]| v.iter().filter(|d| d.rule == "SyntaxError").count();
        let word = !k.starts_with(|c: char| c.is_ascii_digit()) && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        let flat = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        let q = if i % 2 == 0 { '\'' } else { '"' };
        let mut ok: Vec<String> = ["'", "\""].iter().map(|r| flat(&t.replace(&format!("{q}{k}{q}"), &format!("{r}{k}{r}")))).collect();
        if word {
            ok.push(flat(&t.replace(&format!("{q}{k}{q}"), k)));
        }
        if n(&cy.before) == 0 && (n(&cy.relint) > 0 || !ok.contains(&flat(&cy.fixed))) {
            ctx.violation(&format!("key:{t}"), &format!("--fix of {t:?} gives {:?}: not one of {ok:?} ({:?})", cy.fixed, short(&cy.relint)), t);
        }
    });

    // F: a fix that is known to break a template
    for (t, want) in [("{% extends foo %}", "sw_extends foo")] {
        probe(ctx, t, want);
    }
}

/// the fix of `t` must not cause a syntax error
fn probe(ctx: &Ctx, t: &str, want: &str) {
    let texts = vec![t.to_string()];
    cycles(ctx, &texts, &Cfg::default_cfg(), true, &|_, cy| {
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(1);
        let n = |v: &[Diag]| v.iter().filter(|d| d.rule == "SyntaxError").count();
        if n(&cy.before) > 0 || !cy.fixed.contains(want) && n(&cy.relint) == 0 && cy.fixed != t {
            ctx.violation(&format!("probe:{t}"), &format!("{t:?}: --fix gives {:?}", cy.fixed), t);
        } else if n(&cy.relint) > 0 {
            ctx.violation(&format!("probe fix:{t}"), &format!("{t:?}: --fix gives {:?}, a syntax error", cy.fixed), t);
        }
    });
}

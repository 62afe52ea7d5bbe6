//! P07 / P08: the scope of ludtwig-ignore and ludtwig-ignore-file.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::*;
use crate::rules::*;
use crate::vocab;

const UNKNOWN: &str = "no-such-rule";

/// `rules` empty: all rules
fn directive(form: usize, word: &str, rules: &[&str]) -> String {
    let list = |sep: &str| rules.iter().map(|r| format!(" {r}")).collect::<Vec<_>>().join(sep);
    match form {
        0 => format!("{{# {word}{} #}}", list(",")),
        1 => format!("<!-- {word}{} -->\n", list(",")),
        2 => format!("{{#-{word}{}-#}}\n  ", list("")),
        3 => format!("<!--{word}{}-->", list("")),
        4 => format!("{{#~ {word}{},\n ~#}}", if rules.is_empty() { " no-rule".into() } else { list("\n ,\n ") }),
        _ => unreachable!(),
    }
}
const FORMS: usize = 5;

fn is_html(form: usize) -> bool {
    form == 1 || form == 3
}

/// all forms but 4, which can't name no rule
fn forms_for(rules: &[&str]) -> usize {
    if rules.is_empty() {
        FORMS - 1
    } else {
        FORMS
    }
}

/// the directive in front of one element
fn ignored(d: &Doc, form: usize, rules: &[&'static str]) -> Doc {
    let mut out = Doc {
        cats: if is_html(form) { N } else { d.cats },
        text: directive(form, "ludtwig-ignore", rules),
        trail: d.trail.clone(),
        nofix: d.nofix,
        ..Default::default()
    };
    if rules.is_empty() {
        out.append(d, &["*"]);
    } else {
        out.append(d, rules);
    }
    out
}

fn has_findings(d: &Doc) -> bool {
    !d.exps.is_empty() || !d.defs.is_empty()
}

fn rules_of(d: &Doc) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = d.exps.iter().map(|e| e.rule).collect();
    for x in &d.defs {
        v.push(if x.block { "twig-block-duplicate" } else { "html-duplicate-id" });
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// The rule lists that matter for this document.
fn rule_sets(d: &Doc) -> Vec<Vec<&'static str>> {
    let r = rules_of(d);
    let mut out: Vec<Vec<&'static str>> = vec![vec![], vec![UNKNOWN]];
    for x in &r {
        out.push(vec![x]);
        out.push(vec![UNKNOWN, x]);
    }
    for i in 0..r.len() {
        for j in 0..r.len() {
            if i != j {
                out.push(vec![r[i], r[j]]);
            }
        }
    }
    if let Some(x) = non_layout_rules().iter().find(|x| !r.contains(x)) {
        out.push(vec![x]);
        if let Some(y) = r.first() {
            out.push(vec![x, y]);
            out.push(vec![y, x, UNKNOWN]);
        }
    }
    out
}

fn flush(ctx: &Ctx, alg: &Algebra, docs: &mut Vec<Doc>, min: usize, cfg: &Cfg, rules: &[&'static str], tag: &str) {
    if docs.len() < min || docs.is_empty() {
        return;
    }
    if let Some(d) = docs.get(docs.len() / 3) {
        ctx.sample(format!("{:?} -> {:?}", d.text, d.want().iter().map(|w| w.rule).collect::<Vec<_>>()));
    }
    if ctx.violation_count() < 3000 {
        check_lint(ctx, alg, docs, cfg, rules, tag);
        check_fix(ctx, alg, docs, cfg, rules, tag);
    }
    docs.clear();
}

const MIN: usize = 40_000;

pub fn p07(ctx: &Ctx) {
    let rules = non_layout_rules();
    let cfg = Cfg::rules(&rules);
    let alg = vocab::all().with_rules(&rules);
    let base = alg.base();
    let one = alg.grow(&base);
    let two = if ctx.quick() { vec![] } else { alg.grow(&one) };
    let single = |d: &&Doc| d.single && d.cats & TW != 0 && has_findings(d);
    let targets: Vec<Doc> = base.iter().chain(&one).filter(single).cloned().collect();
    let ctxs: Vec<u16> = alg.ctxs.iter().copied().filter(|c| alg.t[*c as usize].accept & TW != 0).collect();
    let mut out = vec![];
    ctx.note("elements", format!("{} elements with findings behind a directive", targets.len()));

    // 1. directive + element, alone and with siblings that have the same findings
    let sib = alg.base().into_iter().filter(|d| d.text == "{% set «!vn»foo_bar = 1 %}".replace("«!vn»", "")).next();
    let sib = sib.expect("sibling");
    for t in &targets {
        for rs in rule_sets(t) {
            for form in 0..forms_for(&rs) {
                if is_html(form) && t.cats & N == 0 {
                    continue;
                }
                let d = ignored(t, form, &rs);
                if d.cats & N != 0 {
                    // the same element again, not ignored
                    if form < 2 || !ctx.quick() {
                        let again = if t.defs.is_empty() { t.clone() } else { sib.clone() };
                        out.push(concat(&[&again, &d, &again], "\n"));
                    }
                    if t.cats & N != 0 {
                        out.push(concat(&[&d, t], ""));
                        out.push(concat(&[t, &d], "\n"));
                    }
                    out.push(d.clone());
                }
                // 2. inside of every context
                if form == 0 || form == 1 && t.trail.len() == 1 || !ctx.quick() && t.trail.len() == 1 {
                    for c in &ctxs {
                        if ctx.quick() && t.trail.len() > 1 && (*c as usize + t.text.len() + rs.len()) % 4 != 0 && d.cats & N != 0 {
                            continue;
                        }
                        if alg.t[*c as usize].accepts(&d) {
                            let x = alg.put(*c, &d);
                            if x.cats & N != 0 {
                                out.push(x);
                            } else if x.cats & A != 0 {
                                out.extend(alg.grow(&[x]).into_iter().filter(|x| x.cats & N != 0).take(3));
                            }
                        }
                    }
                }
            }
        }
        flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "");
    }
    // deeper elements behind a directive
    for t in two.iter().filter(single).filter(|t| t.cats & N != 0) {
        for rs in rule_sets(t) {
            out.push(ignored(t, 0, &rs));
        }
        flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "");
    }
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "");

    // 3. siblings: [x] directive element [y] for all pairs of small elements, in all positions
    let small: Vec<&Doc> = base.iter().filter(|d| d.single && has_findings(d)).collect();
    for cat in [N, A, V] {
        // expressions are not elements: wrap them
        let els: Vec<Doc> = if cat == N {
            small.iter().filter(|d| d.cats & cat != 0).map(|d| (*d).clone()).collect()
        } else {
            let mut v: Vec<Doc> = small.iter().filter(|d| d.cats & cat != 0).map(|d| (*d).clone()).collect();
            for d in alg.grow(&base) {
                if d.single && d.cats & cat != 0 && has_findings(&d) && d.trail.len() == 2 && d.exps.len() <= 2 {
                    v.push(d);
                }
            }
            let n = if ctx.quick() { 24 } else { 90 };
            let step = (v.len() / n).max(1);
            v.into_iter().step_by(step).collect()
        };
        let wrap = |d: Doc| -> Doc {
            let mut d = d;
            while d.cats & N == 0 {
                let c = alg.ctxs.iter().find(|c| {
                    let t = &alg.t[**c as usize];
                    t.accepts(&d) && t.gives & (A | N) != 0 && !t.same
                });
                d = alg.put(*c.unwrap(), &d);
            }
            d
        };
        for x in &els {
            for t in &els {
                for rs in rule_sets(t) {
                    let d = ignored(t, 0, &rs);
                    out.push(wrap(concat(&[x, &d, x], " ")));
                    out.push(wrap(concat(&[&d, x], if cat == A { " " } else { "" })));
                    if cat == N {
                        out.push(concat(&[&ignored(t, 1, &rs), x, &ignored(x, 0, &rs), t], "\n"));
                    }
                }
            }
            flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "sib ");
        }
    }

    // 4. nested directives: outer directive on a container whose body has directives of its own
    let bodies: Vec<&Doc> = base.iter().filter(|d| d.single && d.cats & N != 0 && !d.exps.is_empty()).collect();
    let containers: Vec<u16> = ctxs
        .iter()
        .copied()
        .filter(|c| {
            let t = &alg.t[*c as usize];
            t.accept & N != 0 && t.gives & N != 0 && t.single
        })
        .collect();
    for a in &bodies {
        for b in &bodies {
            for c in &containers {
                let ra = rules_of(a);
                let rb = rules_of(b);
                let sets: Vec<Vec<&'static str>> =
                    vec![vec![], vec![ra[0]], vec![rb[0]], vec![UNKNOWN], vec![ra[ra.len() - 1], rb[0]]];
                for inner in &sets {
                    let body = concat(&[a, &ignored(b, 0, inner), b, a], "\n");
                    let x = alg.put(*c, &body);
                    for outer in &sets {
                        out.push(concat(&[&ignored(&x, 0, outer), a, b], "\n"));
                    }
                }
            }
            if ctx.quick() && bodies.len() > 12 && a.text.len() % 3 != b.text.len() % 3 {
                out.clear();
                continue;
            }
            flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "nest ");
        }
    }
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "nest ");

    // 5. a directive that is followed by nothing has no effect outside of its parent
    let parents = [
        "<div>◇</div>",
        "<div>x◇</div>",
        "<div ◇>x</div>",
        "<div a ◇></div>",
        "<div class=\"a ◇\">x</div>",
        "<script>◇</script>",
        "{% if a %}◇{% endif %}",
        "{% if a %}◇{% else %}x{% endif %}",
        "{% if a %}x{% elseif b %}◇{% endif %}",
        "{% for a in b %}◇{% else %}{% endfor %}",
        "{% block q %}◇{% endblock %}",
        "{% set a %}◇{% endset %}",
        "{% apply upper %}◇{% endapply %}",
        "{% embed 'x' %}◇{% endembed %}",
        "{% macro m() %}◇{% endmacro %}",
        "<twig:A>◇</twig:A>",
        "<p>{% if a %}x{% endif %}◇</p>",
    ];
    for p in parents {
        for t in base.iter().filter(|d| d.cats & N != 0 && has_findings(d)) {
            for rs in rule_sets(t) {
                for form in 0..forms_for(&rs) {
                    if is_html(form) && (p.contains("<div ") || p.contains("<script")) {
                        continue;
                    }
                    let head = p.replace('◇', &directive(form, "ludtwig-ignore", &rs));
                    let mut d = Doc { cats: N, text: head, ..Default::default() };
                    d.append(t, &[]);
                    out.push(d);
                }
            }
            flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "end ");
        }
    }
    // branches of one statement are separate bodies
    for t in base.iter().filter(|d| d.cats & N != 0 && d.single && has_findings(d) && d.defs.is_empty()) {
        for rs in rule_sets(t) {
            for (a, b, c) in [
                ("{% if a %}", "{% else %}", "{% endif %}"),
                ("{% if a %}", "{% elseif b %}", "{% endif %}"),
                ("{% for a in b %}", "{% else %}", "{% endfor %}"),
                ("<div>", "</div><div>", "</div>"),
                ("{% block a %}", "{% endblock %}{% block b %}", "{% endblock %}"),
            ] {
                let d = ignored(t, 0, &rs);
                let pre = B::new().t(a).done();
                let mid = B::new().t(b).done();
                let post = B::new().t(c).done();
                out.push(concat(&[&pre, &d, &mid, t, &post], ""));
                out.push(concat(&[&pre, t, &mid, &d, &post], ""));
                out.push(concat(&[&pre, &d, &mid, &d, &post, t], ""));
            }
        }
    }
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "branch ");
    lookalikes(ctx, &alg, &base, &cfg, &rules);
    let targets: Vec<&Doc> = base.iter().filter(|d| d.cats & N != 0 && d.single && !d.exps.is_empty()).collect();
    far(&targets, &|rs: &[&str], t: &Doc| {
        let mut o = Doc { cats: N, text: format!("{{# ludtwig-ignore {} #}}", rs.join(", ")), trail: t.trail.clone(), nofix: t.nofix, ..Default::default() };
        let known: Vec<&'static str> = rules_of(t).into_iter().filter(|r| rs.contains(r)).collect();
        o.append(t, &known);
        o
    }, &mut out);
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "far ");
    other_names(&targets, &|n: &str| format!("{{# ludtwig-ignore {n} #}}\n"), &mut out);
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "name ");
    syntax_errors(ctx);
    crate::layout::layout(ctx);
}

const FILLERS: &[&str] = &["<b></b>", "{{ x }}\n", "text\n\n", "{% set zz = 1 %}\n", "{# comment #}\n", "<br>"];

/// Far away from the start, long lists of rules, many directives.
fn far(targets: &[&Doc], with: &dyn Fn(&[&str], &Doc) -> Doc, out: &mut Vec<Doc>) {
    let counts: Vec<usize> = (0..=12).chain([16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    for (j, t) in targets.iter().enumerate() {
        let r = rules_of(t)[0];
        for (i, n) in counts.iter().enumerate() {
            let filler = Doc { cats: N, text: FILLERS[(i + j) % FILLERS.len()].repeat(*n), ..Default::default() };
            let d = with(&[r], t);
            // far from the start, far from the end
            out.push(concat(&[&filler, &d], "\n"));
            out.push(concat(&[&d, &filler], "\n"));
            // many names
            let names: Vec<String> = (0..*n).map(|k| format!("rule-{k}")).collect();
            let mut l: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            l.push(r);
            out.push(with(&l, t));
            l.rotate_right(1);
            out.push(with(&l, t));
            // many directives
            let nothing = with(&["no-such-rule"], &Doc { cats: N, text: "<i></i>".into(), ..Default::default() });
            let mut v: Vec<&Doc> = vec![&nothing; *n];
            v.push(&d);
            out.push(concat(&v, "\n"));
            // deep below
            if *n <= 100 {
                let (a, z) = [("<div>", "</div>"), ("{% if a %}", "{% endif %}"), ("<p>{% for a in b %}", "{% endfor %}</p>")][(i + j) % 3];
                let deep = concat(&[&B::new().t(&a.repeat(*n)).done(), t, &B::new().t(&z.repeat(*n)).done()], "");
                let deep = Doc { single: *n > 0 || t.single, ..deep };
                out.push(with(&[r], &deep));
            }
        }
    }
}

/// Names that are not the name of the rule have no effect.
fn other_names(targets: &[&Doc], with: &dyn Fn(&str) -> String, out: &mut Vec<Doc>) {
    for t in targets {
        for r in rules_of(t) {
            let mut names: Vec<String> = vec![];
            for k in 1..r.len() {
                names.push(r[..k].to_string());
                names.push(r[k..].to_string());
                names.push(format!("{}{}", &r[..k], &r[k + 1..]));
                names.push(format!("{}_{}", &r[..k], &r[k + 1..]));
                names.push(format!("{}{}{}", &r[..k], r[k..=k].to_uppercase(), &r[k + 1..]));
            }
            names.extend([r.to_uppercase(), r.replace('-', "_"), r.replace('-', ""), format!("{r}-"), format!("{r}s"), format!("x{r}"), format!("{r}-{r}")]);
            // a list has words only
            names.retain(|n| n != r && !n.starts_with('-') && n != "extends");
            names.sort();
            names.dedup();
            for n in names {
                if rules_of(t).contains(&n.as_str()) {
                    continue;
                }
                let mut d = Doc { cats: N, text: with(&n), ..Default::default() };
                d.append(t, &[]);
                out.push(d);
            }
        }
    }
}

/// Comments that are no directive have no effect.
fn lookalikes(ctx: &Ctx, alg: &Algebra, base: &[Doc], cfg: &Cfg, rules: &[&'static str]) {
    let mut out = vec![];
    for t in base.iter().filter(|d| d.cats & N != 0 && d.single && has_findings(d)) {
        for r in rules_of(t) {
            for c in [
                format!("{{# see ludtwig-ignore {r} #}}"),
                format!("{{# {r} #}}"),
                "{# ludtwig-ignored #}".to_string(),
                "{# xludtwig-ignore #}".to_string(),
                "{# ludtwig ignore #}".to_string(),
                format!("{{# - ludtwig-ignore {r} #}}"),
                format!("<!-- no ludtwig-ignore {r} -->"),
                "ludtwig-ignore".to_string(),
                "{{ 'ludtwig-ignore' }}".to_string(),
                format!("{{# ludtwig-ignore {r}-x #}}"),
                format!("{{# ludtwig-ignore {} #}}", &r[..r.len() - 1]),
                format!("{{# ludtwig-ignore x-{r}, y #}}"),
            ] {
                let mut d = Doc { cats: N, text: format!("{c}\n"), ..Default::default() };
                d.append(t, &[]);
                out.push(d);
            }
        }
    }
    flush(ctx, alg, &mut out, 0, cfg, rules, "look ");
}

/// Syntax errors are the same behind a directive and behind a plain comment of the same length.
fn syntax_errors(ctx: &Ctx) {
    let rules = non_layout_rules();
    let broken = [
        "<div>", "</div>", "<div", "<p>x</b></p>", "{{ }}", "{{ a", "{{ a + }}", "{{ (a }}", "{% if %}x{% endif %}", "{% if a %}x",
        "{% endif %}", "{% block %}x{% endblock %}", "{% block a %}x", "{% foo %}", "{% set = 1 %}", "{% for in b %}{% endfor %}",
        "{{ 'a }}", "{# x", "<!-- x", "<div a=\"x></div>", "{{ [1, }}", "{{ {a: } }}", "{% include %}", "<div {{ }}></div>",
        "<div class=\"{{ }}\"></div>", "{{ a && }}", "{{ a | }}", "{{ a. }}", "{{ f( }}", "<p>{{ }}</p>", "{% if a %}{{ }}{% endif %}",
        "{% block a %}<div>{% endblock %}", "{% extends %}",
    ];
    let ctxs = ["◇", "<div>◇</div>", "{% block q %}◇{% endblock %}", "{% if a %}◇{% else %}x{% endif %}", "x ◇ <p fooBar>y</p>"];
    let mut a = vec![];
    let mut b = vec![];
    for br in broken {
        for c in ctxs {
            for rs in [vec![], vec!["SyntaxError"], rules.clone()] {
                for form in 0..forms_for(&rs) {
                    let d = directive(form, "ludtwig-ignore", &rs);
                    let f = directive(form, "ludtwig-ignore-file", &rs);
                    a.push(c.replace('◇', &format!("{d}{br}")));
                    b.push(c.replace('◇', &format!("{}{br}", d.replace("ludtwig-ignore", "nothing-ignore"))));
                    a.push(format!("{f}{}", c.replace('◇', br)));
                    b.push(format!("{}{}", f.replace("ludtwig-ignore", "nothing-ignore"), c.replace('◇', br)));
                }
            }
        }
    }
    let cfg = Cfg::rules(&rules);
    let errors = |texts: &[String]| {
        let got = std::sync::Mutex::new(vec![vec![]; texts.len()]);
        run_all(
            texts,
            &cfg,
            Mode::Lint,
            |i, fo| {
                got.lock().unwrap()[i] = fo
                    .diags
                    .iter()
                    .filter(|d| d.rule == "SyntaxError")
                    .map(|d| (d.line, d.col, d.raw.lines().last().unwrap_or("").trim().to_string()))
                    .collect();
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
        got.into_inner().unwrap()
    };
    let (ea, eb) = (errors(&a), errors(&b));
    for i in 0..a.len() {
        ctx.state(1);
        ctx.trace(1);
        ctx.outcome(if eb[i].is_empty() { "broken: no error" } else { "broken: errors" }, 1);
        if ea[i] != eb[i] {
            ctx.violation(
                &format!("syntax:{}", a[i]),
                &format!("syntax errors of {:?}: {:?}, behind a plain comment: {:?}", a[i], ea[i], eb[i]),
                &a[i],
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------
// P08

fn file_directive(form: usize, rules: &[&str]) -> Doc {
    let mut d = B::new().t(&directive(form, "ludtwig-ignore-file", rules)).done();
    d.single = true;
    if !is_html(form) {
        d.cats = TW;
    }
    d
}

fn nested_directive(form: usize, rules: &[&str]) -> Doc {
    let mut d = B::new()
        .f("ludtwig-ignore-file-not-on-top", true)
        .t(&directive(form, "ludtwig-ignore-file", rules))
        .done();
    d.single = true;
    if !is_html(form) {
        d.cats = TW;
    }
    d
}

/// the document with the rules removed everywhere
fn without(d: &Doc, rules: &[&'static str]) -> Doc {
    let mut out = Doc { cats: d.cats, single: d.single, nofix: d.nofix, trail: d.trail.clone(), ..Default::default() };
    out.append(d, if rules.is_empty() { &["*"] } else { rules });
    out
}

pub fn p08(ctx: &Ctx) {
    let rules = non_layout_rules();
    let cfg = Cfg::rules(&rules);
    let alg = vocab::all().with_rules(&rules);
    let base = alg.base();
    let one = alg.grow(&base);
    let targets: Vec<&Doc> = base
        .iter()
        .chain(&one)
        .filter(|d| d.cats & N != 0 && has_findings(d))
        .collect();
    let mut out = vec![];
    // every batch contains files with and without the directives: no effect on other files
    for (n, t) in targets.iter().enumerate() {
        out.push((*t).clone());
        for rs in rule_sets(t) {
            for form in 0..forms_for(&rs) {
                if ctx.quick() && t.trail.len() > 1 && form != n % FORMS {
                    continue;
                }
                let f = file_directive(form, &rs);
                let w = without(t, &rs);
                out.push(concat(&[&f, &w], "\n"));
                out.push(concat(&[&w, &f], "\n"));
                if t.trail.len() == 1 || !ctx.quick() {
                    out.push(concat(&[&w, &f, &w], "\n"));
                    // two directives
                    if let Some(r) = rules_of(t).last() {
                        let w2 = without(&w, &[*r]);
                        out.push(concat(&[&f, &w2, &file_directive(0, &[*r])], "\n"));
                    }
                    // every pair of lists
                    if t.trail.len() == 1 {
                        for (k, rs2) in rule_sets(t).iter().enumerate() {
                            let g = file_directive(k % forms_for(rs2), rs2);
                            out.push(concat(&[&f, &g, &without(&w, rs2)], "\n"));
                        }
                    }
                }
            }
        }
        flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "");
    }
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "");
    // nested anywhere: no effect and an error
    let ctxs: Vec<u16> = alg.ctxs.iter().copied().filter(|c| alg.t[*c as usize].accept & TW != 0 && !alg.t[*c as usize].src.starts_with("x ◆")).collect();
    let small: Vec<&Doc> = base.iter().filter(|d| d.cats & TW != 0 && has_findings(d)).collect();
    let nests = |d: &Doc| d.text.contains(['<', '%']) ;
    for t in &small {
        for rs in rule_sets(t) {
            for form in 0..forms_for(&rs) {
                let f = nested_directive(form, &rs);
                if f.cats & t.cats == 0 {
                    continue;
                }
                let sep = if t.cats & A != 0 && t.cats & N == 0 { " " } else { "" };
                let inner = concat(&[&f, t], sep);
                let inner2 = concat(&[t, &f], " ");
                for c in &ctxs {
                    let tm = &alg.t[*c as usize];
                    // a context that does not nest (only text around) keeps the directive on top
                    let probe = tm.src.replace('◆', "");
                    if !probe.contains(['<', '%', '=']) {
                        continue;
                    }
                    for i in [&inner, &inner2] {
                        if !tm.accepts(i) {
                            continue;
                        }
                        let x = alg.put(*c, i);
                        if !nests(&x) {
                            continue;
                        }
                        if x.cats & N != 0 {
                            out.push(x);
                        } else if x.cats & A != 0 {
                            out.extend(alg.grow(&[x]).into_iter().filter(|x| x.cats & N != 0).take(2));
                        }
                    }
                }
            }
        }
        flush(ctx, &alg, &mut out, MIN, &cfg, &rules, "nested ");
    }
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "nested ");
    // a top level directive switches off the error about nested ones; names a rule that is not active
    for form in 0..FORMS {
        let top = file_directive(form, &["ludtwig-ignore-file-not-on-top"]);
        for body in ["<div>◇</div>", "{% block a %}◇{% endblock %}", "<p {% if a %}{{ x }}{% endif %}>◇</p>"] {
            let x = B::new().t(&body.replace('◇', &directive(0, "ludtwig-ignore-file", &[]))).t("<p ").f("html-attribute-name-kebab-case", false).r("html-attribute-name-kebab-case", "fooBar", "foo-bar").t("></p>").done();
            out.push(concat(&[&top, &x], "\n"));
            out.push(concat(&[&x, &top], "\n"));
        }
    }
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "top ");
    let targets: Vec<&Doc> = base.iter().filter(|d| d.cats & N != 0 && d.single && !d.exps.is_empty()).collect();
    far(&targets, &|rs: &[&str], t: &Doc| {
        let known: Vec<&'static str> = rules_of(t).into_iter().filter(|r| rs.contains(r)).collect();
        concat(&[&file_directive(0, rs), &without(t, &known)], "\n")
    }, &mut out);
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "far ");
    other_names(&targets, &|n: &str| format!("{{# ludtwig-ignore-file {n} #}}\n"), &mut out);
    flush(ctx, &alg, &mut out, 0, &cfg, &rules, "name ");
}

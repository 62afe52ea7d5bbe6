//! P16: duplicate ids and blocks - all forests of blocks and elements up to a number of nodes.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::*;
use crate::forest::*;
use crate::rules::*;
use crate::vocab;

struct Label {
    open: &'static str, // name / id is marked with «..»
    close: &'static str,
    /// kind and value of the definition; None: does not count
    def: Option<(bool, &'static str)>,
}

const fn l(open: &'static str, close: &'static str, def: Option<(bool, &'static str)>) -> Label {
    Label { open, close, def }
}

const LABELS: &[Label] = &[
    l("{% block «a %}", "{% endblock %}", Some((true, "a"))),
    l("{% block «b %}", "{% endblock b %}", Some((true, "b"))),
    l("<div id=\"«a\">", "</div>", Some((false, "a"))),
    l("<p class=\"b\" id=\"«b\">", "</p>", Some((false, "b"))),
    l("{% if x %}", "{% endif %}", None),
    l("<div id=\"a{{ z }}\">", "</div>", None),
    l("{% block «a 'x' %}", "", Some((true, "a"))),
    l("<p id=\"\" class=\"a\" data-id=\"a\">", "</p>", None),
    // 8..
    l("{%- block «a_b -%}", "{%- endblock a_b -%}", Some((true, "a_b"))),
    l("<i id='«a'>", "</i>", Some((false, "a"))),
    l("<img id=«a>", "", Some((false, "a"))),
    l("<b {% if x %}id=\"«a\"{% endif %}>", "</b>", Some((false, "a"))),
    l("<p id=\"{{ a }}\" name=\"a\">", "</p>", None),
    l("<p id=\"{% if a %}a{% endif %}\">", "</p>", None),
    l("<p id>", "</p>", None),
    l("<my-tag id=\"«a b\">", "</my-tag>", Some((false, "a b"))),
    l("<twig:Foo id=\"«a\">", "</twig:Foo>", Some((false, "a"))),
    l("<twig:Foo id=\"«b\" />", "", Some((false, "b"))),
    l("{# block a #}<!-- <p id=\"a\"> -->", "", None),
    l("{% for x in y %}", "{% endfor %}", None),
    l("{% embed 'x' %}", "{% endembed %}", None),
    l("{% set x %}", "{% endset %}", None),
    l("<p {{ x }} id=\"«A\" title=\"b\">", "</p>", Some((false, "A"))),
    l("<script id=\"«b\">x", "</script>", Some((false, "b"))),
    l("{{ block('a') }}", "", None),
];

fn leaf(x: &Label) -> bool {
    x.close.is_empty() || x.open.starts_with("<script")
}

fn render(fo: &Forest, map: &[usize], sep: &str) -> Doc {
    let mut b = B::new();
    walk(fo, |open, i| {
        let x = &LABELS[map[fo[i].1 as usize]];
        let mut d = std::mem::take(&mut b.0);
        if open {
            if i > 0 {
                d.text.push_str(sep);
            }
            let (pre, post) = x.open.split_once('«').unwrap_or((x.open, ""));
            d.text.push_str(pre);
            if let Some((block, name)) = x.def {
                d.defs.push(Def {
                    block,
                    name: name.into(),
                    fname: name.into(),
                    off: d.text.len(),
                });
            }
            d.text.push_str(post);
        } else if !x.close.is_empty() {
            d.text.push_str(sep);
            d.text.push_str(x.close);
        }
        b.0 = d;
    });
    b.done()
}

/// (line, column, length) of the label "first defined here".
fn secondary(raw: &str) -> Option<(usize, usize, usize)> {
    let mut line = 0;
    for l in raw.lines().skip(1) {
        let Some((num, rest)) = l.split_once('│') else { continue };
        if let Ok(n) = num.trim().parse() {
            line = n;
            continue;
        }
        if let Some(a) = rest.find('-') {
            let len = rest[a..].bytes().take_while(|b| *b == b'-').count();
            return Some((line, rest[..a].chars().count(), len));
        }
    }
    None
}

fn check(ctx: &Ctx, docs: &[Doc], rules: &[&'static str]) {
    let cfg = Cfg::rules(rules);
    let texts: Vec<String> = docs.iter().map(|d| d.text.clone()).collect();
    run_all(
        &texts,
        &cfg,
        Mode::Lint,
        |i, fo| {
            let d = &docs[i];
            ctx.state(1);
            ctx.transition(d.defs.len() as u64);
            ctx.trace(1);
            ctx.outcome(&outcome_of(&fo.diags, rules), 1);
            let mut why = diff_findings(&d.text, &d.want(), &fo.diags, rules);
            if why.is_none() {
                for g in fo.diags.iter().filter(|g| rules.contains(&g.rule.as_str())) {
                    // the definition reported, and the first one of that kind and name
                    let Some(me) = d.defs.iter().find(|x| line_col(&d.text, x.off) == (g.line, g.col)) else {
                        continue;
                    };
                    let first = d.defs.iter().find(|x| x.block == me.block && x.name == me.name).unwrap();
                    let (fl, fc) = line_col(&d.text, first.off);
                    let want = Some((fl, fc, me.name.chars().count()));
                    if secondary(&g.raw) != want {
                        why = Some(format!(
                            "{} at {}:{} must refer to the first occurrence at {fl}:{fc}, got {:?}",
                            g.rule,
                            g.line,
                            g.col,
                            secondary(&g.raw)
                        ));
                    } else if caret_len(&g.raw) != Some(me.name.chars().count()) {
                        why = Some(format!("{} at {}:{} does not mark the name", g.rule, g.line, g.col));
                    }
                }
            }
            if let Some(w) = why {
                ctx.violation(
                    &format!("forest:{}", d.text),
                    &format!("lint of {:?}: {w}", d.text),
                    &format!(
                        "template:\n{}\n\nreported:\n{}",
                        d.text,
                        fo.diags.iter().map(|d| d.raw.as_str()).collect::<Vec<_>>().join("\n")
                    ),
                );
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
}

fn all_forests(ctx: &Ctx, n: usize, map: &[usize], sep: &str, rules: &[&'static str]) {
    let leafs: Vec<bool> = map.iter().map(|i| leaf(&LABELS[*i])).collect();
    let mut docs = vec![];
    forests(n, &leafs, n, &mut |f| {
        docs.push(render(f, map, sep));
        if docs.len() == 120_000 {
            check(ctx, &docs, rules);
            docs.clear();
        }
    });
    check(ctx, &docs, rules);
    if let Some(d) = docs.get(docs.len() / 2) {
        ctx.sample(format!("{:?} -> {:?}", d.text, d.want()));
    }
}

/// All names up to a length over an alphabet in one template: once each, and
/// each of them a second time in an other order and spelling.
fn all_names(ctx: &Ctx, rules: &[&'static str]) {
    let n = if ctx.quick() { 3 } else { 4 };
    let values = |alphabet: &[&str], edge: &dyn Fn(&str) -> bool| -> Vec<String> {
        let mut all: Vec<String> = vec![String::new()];
        let mut last = all.clone();
        for _ in 0..n {
            last = last.iter().flat_map(|v| alphabet.iter().map(move |a| format!("{v}{a}"))).collect();
            all.extend(last.clone());
        }
        all.retain(|v| !v.is_empty() && edge(v));
        all
    };
    let ids = values(&["a", "b", "A", " ", "-", "_", ".", ":", "0", "é", "/"], &|v| v.trim() == v);
    let blocks = values(&["a", "b", "A", "_", "0", "x"], &|v| !v.starts_with('0'));
    let mut docs = vec![];
    for (block, vs) in [(false, &ids), (true, &blocks)] {
        for chunk in vs.chunks(if ctx.quick() { 500 } else { 4000 }) {
            for twice in 0..4usize {
                let mut d = Doc { cats: N, ..Default::default() };
                let add = |d: &mut Doc, v: &str, k: usize| {
                    let (a, z) = match (block, k) {
                        (false, 0) => ("<p id=\"", "\"></p>\n"),
                        (false, 1) => ("<i class=\"a\" id='", "'></i>\n"),
                        (false, _) => ("<hr id = \"", "\" />\n"),
                        (true, 0) => ("{% block ", " %}x{% endblock %}\n"),
                        (true, 1) => ("{%- block ", " 'x' -%}\n"),
                        (true, _) => ("{%~block  ", "%}{%endblock%}\n"),
                    };
                    d.text.push_str(a);
                    d.defs.push(Def { block, name: v.into(), fname: v.into(), off: d.text.len() });
                    d.text.push_str(v);
                    d.text.push_str(z);
                };
                for (i, v) in chunk.iter().enumerate() {
                    add(&mut d, v, i % 3);
                    if twice == 1 {
                        add(&mut d, v, (i + 1) % 3);
                    }
                }
                match twice {
                    2 => chunk.iter().rev().for_each(|v| add(&mut d, v, 0)),
                    3 => chunk.iter().enumerate().filter(|x| x.0 % 7 == 3).for_each(|(i, v)| add(&mut d, v, i % 2)),
                    _ => {}
                }
                docs.push(d);
            }
        }
    }
    ctx.note("names in one template", format!("{} ids, {} blocks", ids.len(), blocks.len()));
    check(ctx, &docs, rules);
}

pub fn p16(ctx: &Ctx) {
    let rules = names(DUPS);
    let full: Vec<usize> = (0..LABELS.len()).collect();
    let few: Vec<usize> = (0..8).collect();
    let tiny: Vec<usize> = vec![0, 2, 4, 6];
    for n in 1..=2 {
        for sep in ["", "\n", "\n  x "] {
            all_forests(ctx, n, &full, sep, &rules);
        }
    }
    all_forests(ctx, 3, &full, "\n", &rules);
    all_forests(ctx, 4, &few, "\n", &rules);
    all_forests(ctx, 5, &tiny, "", &rules);
    if !ctx.quick() {
        all_forests(ctx, 3, &full, "", &rules);
        all_forests(ctx, 4, &full[..14], "\n", &rules);
        all_forests(ctx, 5, &few[..6], "\n", &rules);
        all_forests(ctx, 6, &tiny[..3], "", &rules);
        all_forests(ctx, 7, &tiny[..2], "", &rules);
    }
    all_names(ctx, &rules);
    // with all rules active, nothing else changes
    let all = non_layout_rules();
    let leafs: Vec<bool> = few.iter().map(|i| leaf(&LABELS[*i])).collect();
    let mut docs = vec![];
    for n in 1..=3 {
        forests(n, &leafs, n, &mut |f| docs.push(render(f, &few, "\n")));
    }
    let cfg = Cfg::rules(&all);
    check_lint(ctx, &Algebra::new(vec![]), &docs, &cfg, &rules, "all ");
    let alg = vocab::all().with_rules(&rules);
    explore(ctx, &alg, &Cfg::rules(&rules), &rules, depth(ctx), "");
    // two constructs next to each other
    let base: Vec<Doc> = alg.level(1).into_iter().chain(alg.base()).filter(|d| d.cats & N != 0 && !d.defs.is_empty()).collect();
    let mut pairs = vec![];
    for a in &base {
        for b in base.iter().step_by(if ctx.quick() { 7 } else { 1 }) {
            pairs.push(concat(&[a, b], "\n"));
        }
    }
    ctx.note("pairs", format!("{} pairs of constructs", pairs.len()));
    check_lint(ctx, &alg, &pairs, &Cfg::rules(&rules), &rules, "pair ");
}

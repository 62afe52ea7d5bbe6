//! P03: every valid template is accepted, a construct has the same structure everywhere.
use crate::algebra::*;
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::expect::*;
use crate::gen::*;
use crate::parse::*;
use crate::shape::*;
use crate::vocab;
use std::collections::HashMap;

/// the plainest place for every kind of content
const CANON: &[(u16, &str, &str)] = &[
    (N, "", ""),
    (A, "<div ", "></div>"),
    (V, "<div class=\"", "\"></div>"),
    (R, "<script>", "</script>"),
    (E, "{{ ", " }}"),
    (P, "{{ ", " }}"),
];

fn canonical(cat: u16, text: &str) -> Result<String, String> {
    let (_, pre, post) = CANON.iter().find(|c| c.0 == cat).unwrap();
    let t = format!("{pre}{text}{post}");
    let p = parse(&t)?;
    if let Some((a, _, e)) = p.errors.first() {
        return Err(format!("{t:?}: syntax error at byte {a}: {e}"));
    }
    Ok(shape(&p.tree, pre.len(), pre.len() + text.len()))
}

/// text at the edge merges with the text around
fn bare_text(d: &Doc) -> bool {
    !d.text.starts_with(['<', '{']) || !d.text.ends_with(['>', '}']) || d.text.contains("<3")
}

/// `c ? a ? 'x' : 2`: the else part belongs to the inner condition
fn dangling(t: &Tmpl, d: &Doc) -> bool {
    t.src == "c ? ◆ : 2" && d.text.contains("a ? 'x'")
}

pub fn p03(ctx: &Ctx) {
    quiet_panics();
    let alg = vocab::all();
    let base = alg.base();
    let one = alg.grow(&base);
    let bad = |key: String, why: String, d: &Doc| {
        ctx.violation(&key, &why, &format!("{}\n\nconstruction: {}", d.text, alg.describe(d)));
    };
    // every document in every context: accepted, same structure as in the plainest place
    let check = |docs: &[Doc]| {
        par_for(docs.len(), 16, |i| {
            let d = &docs[i];
            let mut canon: HashMap<u16, String> = HashMap::new();
            for cat in [N, A, V, R, E, P] {
                if d.cats & cat == 0 {
                    continue;
                }
                match canonical(cat, &d.text) {
                    Ok(s) => {
                        canon.insert(cat, s);
                    }
                    Err(e) => bad(format!("accept:{}", d.text), e, d),
                }
                ctx.state(1);
                ctx.trace(1);
            }
            for c in &alg.ctxs {
                let t = &alg.t[*c as usize];
                if !t.accepts(d) || dangling(t, d) {
                    continue;
                }
                let x = alg.put(*c, d);
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                // where may the result stand?
                for (cat, pre, post) in CANON {
                    if x.cats & cat == 0 || *cat == P && x.cats & E != 0 {
                        continue;
                    }
                    let full = format!("{pre}{}{post}", x.text);
                    let p = match parse(&full) {
                        Ok(p) => p,
                        Err(e) => {
                            bad(format!("accept:{full}"), format!("{full:?}: {e}"), &x);
                            continue;
                        }
                    };
                    if let Some((a, _, e)) = p.errors.first() {
                        bad(format!("accept:{full}"), format!("{full:?}: syntax error at byte {a}: {e}"), &x);
                        continue;
                    }
                    // the kind of position of the hole
                    let hole = if t.same { *cat } else { t.accept };
                    let Some(want) = [N, A, V, R, P, E].iter().find_map(|k| (hole & k != 0).then(|| canon.get(k)).flatten()) else {
                        continue;
                    };
                    if bare_text(d) && hole & N != 0 {
                        continue; // merges with the text around
                    }
                    let a = pre.len() + t.hole_at();
                    let got = shape(&p.tree, a, a + d.text.len());
                    if got != *want {
                        bad(
                            format!("shape:{full}"),
                            format!("{:?} has another structure in {full:?}:\n  {got}\n  expected\n  {want}", d.text),
                            &x,
                        );
                    }
                }
            }
        });
    };
    ctx.note("documents", format!("{} with 0, {} with 1 context; every one is put into every context", base.len(), one.len()));
    for d in one.iter().step_by(one.len() / 10) {
        ctx.sample(d.text.clone());
    }
    check(&base);
    check(&one);
    if !ctx.quick() {
        for c in one.chunks(2000) {
            let two: Vec<Doc> = alg.grow(c);
            check(&two);
            if ctx.violation_count() > 1000 {
                return;
            }
        }
    }
    // neighbours: every pair (triple) of constructs of the same kind
    for (cat, sep) in [(N, ""), (N, "\n"), (A, " "), (A, "\n"), (V, " "), (R, " ")] {
        let els: Vec<&Doc> = base
            .iter()
            .chain(&one)
            .filter(|d| d.cats & cat != 0 && d.text.len() < 60)
            .collect();
        let n = if ctx.quick() { 220 } else { 1500 };
        let els: Vec<&Doc> = els.iter().step_by((els.len() / n).max(1)).copied().collect();
        let shapes: Vec<Option<String>> = els.iter().map(|d| canonical(cat, &d.text).ok()).collect();
        let (_, pre, post) = CANON.iter().find(|c| c.0 == cat).unwrap();
        par_for(els.len(), 1, |i| {
            for (j, y) in els.iter().enumerate() {
                let x = els[i];
                let full = format!("{pre}{}{sep}{}{post}", x.text, y.text);
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                match parse(&full) {
                    Err(e) => bad(format!("pair:{full}"), format!("{full:?}: {e}"), x),
                    Ok(p) => {
                        if let Some((a, _, e)) = p.errors.first() {
                            bad(format!("pair:{full}"), format!("{full:?}: syntax error at byte {a}: {e}"), x);
                            continue;
                        }
                        if cat == N && (bare_text(x) || bare_text(y)) {
                            continue;
                        }
                        let a = pre.len();
                        let b = a + x.text.len() + sep.len();
                        for (d, s, off) in [(x, &shapes[i], a), (*y, &shapes[j], b)] {
                            let got = shape(&p.tree, off, off + d.text.len());
                            if Some(&got) != s.as_ref() {
                                bad(
                                    format!("pair:{full}"),
                                    format!("{:?} has another structure in {full:?}:\n  {got}\n  expected\n  {s:?}", d.text),
                                    d,
                                );
                            }
                        }
                    }
                }
            }
        });
    }
    // the binary agrees: no SyntaxError is printed
    let docs: Vec<String> = one
        .iter()
        .chain(&base)
        .filter(|d| d.cats & N != 0)
        .map(|d| d.text.clone())
        .collect();
    run_all(
        &docs,
        &Cfg::rules(&[]),
        Mode::Lint,
        |i, fo| {
            ctx.state(1);
            ctx.trace(1);
            if let Some(d) = fo.diags.first() {
                ctx.violation(&format!("run:{}", docs[i]), &format!("{:?}: {}", docs[i], d.msg), &d.raw);
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
    ctx.outcome("accepted", docs.len() as u64);
    for t in MORE {
        accept(ctx, t, "more");
    }
    for t in REJECTED {
        accept(ctx, t, "probe");
    }
    names(ctx);
    free_text(ctx);
    crate::elements::valid(ctx);
}

/// What may be written as plain text in a position.
#[derive(Clone)]
struct Free {
    pre: &'static str,
    post: &'static str,
    /// texts that end the position or start something else
    not: &'static [&'static str],
}

const TWIG_OPEN: [&str; 3] = ["{{", "{%", "{#"];

const FREE: &[Free] = &[
    Free { pre: "", post: " ", not: &["<"] },
    Free { pre: "<p>", post: "</p>", not: &["<"] },
    Free { pre: "{% block foo %}", post: "{% endblock %}", not: &["<"] },
    Free { pre: "{{ x }}", post: "{{ x }}", not: &["<"] },
    Free { pre: "<img b=\"", post: "\">", not: &["\"", ">", "<"] },
    Free { pre: "<img b='", post: "'>", not: &["'", ">", "<"] },
    Free { pre: "<img b=\"{{ x }}", post: "{{ x }}\">", not: &["\"", ">", "<"] },
    Free { pre: "<img b=\"{% if x %}", post: "{% endif %}\">", not: &["\"", ">", "<"] },
    Free { pre: "<script>", post: "</script>", not: &["</script", "</ script", "</\nscript"] },
    Free { pre: "<style>", post: "</style>", not: &["</style", "</ style", "</\nstyle"] },
    Free { pre: "<textarea>{{ x }}", post: "{{ x }}</textarea>", not: &["</textarea"] },
    Free { pre: "<title>{% if a %}", post: "{% endif %}</title>", not: &["</title"] },
    Free { pre: "{# ", post: " #}", not: &["#}"] },
    Free { pre: "<!-- ", post: " -->", not: &["-->"] },
    // the body of verbatim is parsed like the rest of the template
    Free { pre: "{% verbatim %}", post: "{% endverbatim %}", not: &["<"] },
    Free { pre: "{{ '", post: "' }}", not: &["'", "\\"] },
    Free { pre: "{{ \"", post: "\" }}", not: &["\"", "\\", "#{"] },
    Free { pre: "{{ f('x', '", post: "')|g }}", not: &["'", "\\"] },
    Free { pre: "{{ \"#{x} ", post: " #{x}\" }}", not: &["\"", "\\", "#{"] },
    Free { pre: "<img b=\"{{ '", post: "' }}\">", not: &["\"", "'", "\\"] },
];

/// The positions above with the body of every tag in between.
fn free_bodies() -> Vec<Free> {
    let holders: &[(&str, &str, &'static [&'static str])] = &[
        ("<img b=\"", "\">", &["\"", ">", "<"]),
        ("<img b='", "'>", &["'", ">", "<"]),
        ("<img a b=' c ", " d' e>", &["'", ">", "<"]),
        ("<p>", "</p>", &["<"]),
        ("<script>", "</script>", &["</script", "</ script", "</\nscript"]),
        ("<textarea>", "</textarea>", &["</textarea"]),
    ];
    let bodies = [
        ("{% if x %}", "{% endif %}"),
        ("{% if x %}{% else %}", "{% endif %}"),
        ("{% if x %}y{% elseif z %}", "{% endif %}"),
        ("{% if x %}", "{% else %}y{% endif %}"),
        ("{% for x in y %}", "{% endfor %}"),
        ("{% for x in y %}z{% else %}", "{% endfor %}"),
        ("{% block q %}", "{% endblock %}"),
        ("{% set q %}", "{% endset %}"),
        ("{% apply upper %}", "{% endapply %}"),
        ("{% with a %}", "{% endwith %}"),
        ("{% autoescape %}", "{% endautoescape %}"),
        ("{% cache 'k' %}", "{% endcache %}"),
        ("{% if x %}{% if y %}", "{% endif %}{% endif %}"),
        ("{% if x %}{% for a in b %}{% else %}", "{% endfor %}{% endif %}"),
    ];
    let mut v = vec![];
    for (a, z, not) in holders {
        for (b, e) in bodies {
            v.push(Free { pre: format!("{a}{b}").leak(), post: format!("{e}{z}").leak(), not });
        }
    }
    v
}

/// Every token sequence as the text of every position where text may be written: no error, and
/// what follows is not affected.
fn free_text(ctx: &Ctx) {
    let tail = "<i id=\"z\">{{ z.q }}</i>";
    let want = shape(&parse(tail).unwrap().tree, 0, tail.len());
    let run = |pos: &Free, text: &str| {
        let comment = pos.pre == "{# " || pos.pre == "<!-- " || pos.pre.ends_with(['\'', '"']) && pos.pre.contains("{{ ");
        let full = format!("{}{text}{}", pos.pre, pos.post);
        let inner = &full[pos.pre.len()..full.len() - pos.post.len() + pos.post.len().min(1)];
        if pos.not.iter().any(|n| text.to_lowercase().contains(n)) || comment && text.trim_start().starts_with("ludtwig-ignore") || !comment && TWIG_OPEN.iter().any(|t| inner.contains(t)) {
            return;
        }
        // known findings (see REJECTED): `>=` behind a tag
        if pos.pre.ends_with('>') && text.starts_with('=') {
            return;
        }
        // an opening brace in front of the closing part, a closing part that starts early
        if full.find(pos.post.trim_start()).is_none() || pos.pre.ends_with("x }}") && text.starts_with('}') {
            return;
        }
        let doc = format!("{full}{tail}");
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(1);
        match parse(&doc) {
            Err(e) => ctx.violation(&format!("text:{doc}"), &format!("{doc:?}: {e}"), &doc),
            Ok(p) => {
                if let Some((a, _, e)) = p.errors.first() {
                    ctx.violation(&format!("text:{doc}"), &format!("{doc:?}: syntax error at byte {a}: {e}"), &doc);
                    return;
                }
                let got = shape(&p.tree, full.len(), doc.len());
                if got != want {
                    ctx.violation(&format!("text:{doc}"), &format!("the end of {doc:?} has another structure:\n  {got}\n  expected\n  {want}"), &doc);
                }
            }
        }
    };
    let nested = free_bodies();
    for pos in &nested {
        sequences(CHARS.len(), 1, &|v| run(pos, CHARS[v[0]]));
        sequences(TOKENS.len(), 1, &|v| run(pos, TOKENS[v[0]]));
        sequences(CORE.len(), 2, &|v| run(pos, &format!("{} {}", CORE[v[0]], CORE[v[1]])));
        if !ctx.quick() {
            sequences(TOKENS.len(), 2, &|v| run(pos, &format!("{}{}", TOKENS[v[0]], TOKENS[v[1]])));
            sequences(CHARS.len(), 2, &|v| run(pos, &format!("{}{}", CHARS[v[0]], CHARS[v[1]])));
        }
    }
    for pos in FREE {
        sequences(CHARS.len(), 1, &|v| run(pos, CHARS[v[0]]));
        sequences(CHARS.len(), 2, &|v| run(pos, &format!("{}{}", CHARS[v[0]], CHARS[v[1]])));
        for sep in ["", " ", "\n"] {
            sequences(TOKENS.len(), 1, &|v| run(pos, &format!("{sep}{}{sep}", TOKENS[v[0]])));
            sequences(TOKENS.len(), 2, &|v| run(pos, &format!("{}{sep}{}", TOKENS[v[0]], TOKENS[v[1]])));
        }
        if !ctx.quick() {
            sequences(CHARS.len(), 3, &|v| run(pos, &format!("{}{}{}", CHARS[v[0]], CHARS[v[1]], CHARS[v[2]])));
            for sep in ["", " "] {
                sequences(CORE.len(), 3, &|v| run(pos, &format!("{}{sep}{}{sep}{}", CORE[v[0]], CORE[v[1]], CORE[v[2]])));
            }
        }
    }
}

/// Positions of names: every keyword that is no operator may be used as a name there.
const NAME_POS: &[(&str, bool)] = &[
    // (template, also operators)
    ("{{ ◇ }}", false),
    ("{{ ◇.x }}", false),
    ("{{ ◇|upper }}", false),
    ("{{ ◇ + ◇ }}", false),
    ("{{ (◇) }}", false),
    ("{{ [◇, ◇] }}", false),
    ("{{ f(◇) }}", false),
    ("{{ a ? ◇ : ◇ }}", false),
    ("{{ a.◇ }}", true),
    ("{{ a.◇.b }}", true),
    ("{{ a.◇(1) }}", true),
    ("{{ ◇(1) }}", false),
    ("{{ a|◇ }}", false),
    ("{{ a|◇(1)|◇ }}", false),
    ("{{ { ◇: 1 } }}", true),
    ("{{ { a: 1, ◇: ◇◇ } }}", false),
    ("{{ f(◇=1) }}", true),
    ("{{ f(1, ◇ = 1) }}", true),
    ("{{ a|map(◇ => ◇) }}", false),
    ("{{ a|map((◇, b) => ◇) }}", false),
    ("{% block ◇ %}x{% endblock %}", false),
    ("{% block ◇ %}x{% endblock ◇ %}", false),
    ("{% block ◇ 'x' %}", false),
    ("{% set ◇ = 1 %}", false),
    ("{% set ◇, b = 1, 2 %}", false),
    ("{% set ◇ %}x{% endset %}", false),
    ("{% for ◇ in a %}x{% endfor %}", false),
    ("{% for ◇, b in a %}x{% endfor %}", false),
    ("{% for a in ◇ %}x{% endfor %}", false),
    ("{% macro ◇(a) %}x{% endmacro %}", false),
    ("{% macro m(◇, b = 1) %}x{% endmacro %}", false),
    ("{% from 'a' import ◇ %}", false),
    ("{% from 'a' import b as ◇ %}", false),
    ("{% import 'a' as ◇ %}", false),
    ("{% use 'a' with b as ◇ %}", false),
    ("{% if ◇ %}x{% endif %}", false),
    ("{% include ◇ %}", false),
    ("{% apply ◇ %}x{% endapply %}", false),
    ("{% with ◇ %}x{% endwith %}", false),
    ("{% do ◇ %}", false),
    ("<◇>x</◇>", false),
    ("<a ◇></a>", true),
    ("<a ◇=\"x\"></a>", true),
    ("<a data-◇=\"x\"></a>", true),
    ("<a x=\"◇\"></a>", true),
    ("<a x=◇></a>", true),
    ("<a-◇>x</a-◇>", true),
    ("◇", true),
    ("<p>◇</p>", true),
];

/// elements without or with another kind of content
const VOID: &[&str] = &["input", "embed", "script", "style"];
/// operators and literals; `is` and others may not start an expression
const OPERATORS: &[&str] = &["not", "and", "or", "in", "is", "matches", "true", "null", "none"];

fn names(ctx: &Ctx) {
    let mut words: Vec<String> = TOKENS
        .iter()
        .filter(|t| t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !t.starts_with(|c: char| c.is_ascii_digit()))
        .map(|t| t.to_string())
        .collect();
    for w in words.clone() {
        words.push(w.to_uppercase());
        words.push(format!("{w}s"));
        words.push(format!("_{w}"));
        words.push(format!("{w}_1"));
    }
    words.sort();
    words.dedup();
    ctx.note("words in name positions", words.len().to_string());
    par_for(NAME_POS.len(), 1, |i| {
        let (t, ops) = NAME_POS[i];
        for w in &words {
            let l = w.to_lowercase();
            if t.contains("<◇") && w.contains('_') || t.contains("<a-◇") && w.contains('_') || t.contains("<a ◇") && w.starts_with("__") {
                continue; // no names of html
            }
            if !ops && OPERATORS.contains(&l.as_str()) || t.starts_with("<◇") && VOID.contains(&l.as_str()) {
                continue;
            }
            let text = t.replace('◇', w);
            let plain = t.replace('◇', "zz");
            ctx.state(1);
            ctx.trace(1);
            ctx.transition(1);
            match parse(&text) {
                Err(e) => ctx.violation(&format!("name:{text}"), &format!("{text:?}: {e}"), &text),
                Ok(p) => {
                    if let Some((a, _, e)) = p.errors.first() {
                        ctx.violation(&format!("name:{text}"), &format!("{text:?}: syntax error at byte {a}: {e}"), &text);
                        continue;
                    }
                    if t.contains(&l) {
                        continue; // also a keyword of the template
                    }
                    // the same tree as with a plain word
                    let sk = |p: &Parsed, w: &str| skeleton(&p.tree, &|s| s.replace(w, "◇")).replace("TK_WORD", "").to_string();
                    let kinds = |s: String| {
                        let mut o = String::new();
                        for part in s.split(' ') {
                            // a token of any kind
                            o.push(' ');
                            o.push_str(part.find('=').map_or(part, |i| &part[i..]));
                        }
                        o
                    };
                    let got = kinds(sk(&p, w));
                    let want = kinds(sk(&parse(&plain).unwrap(), "zz"));
                    if got != want {
                        ctx.violation(&format!("name:{text}"), &format!("{text:?} has another structure than {plain:?}:\n  {got}\n  expected\n  {want}"), &text);
                    }
                }
            }
        }
    });
}

/// Valid templates that are no composition of the vocabulary.
const MORE: &[&str] = &[
    "{{ f({ a: { b: 1 } }) }}",
    "{{ { a: { b: { c: [1, { d: 2 }] } } } }}",
    "{% set a = { b: { c: 1 } } %}",
    "<a href=\"{{ url('x', { 'a': { 'b': 1 } }) }}\">x</a>",
    "<div {% if a %}class=\"b\"{% else %}class=\"c\"{% endif %} id=\"x\">y</div>",
    "<div class=\"a {% for x in y %}{{ x }} {% endfor %} b\" {{ c }}>z</div>",
    "<input type=\"text\" {% if a %}disabled{% endif %} {% block b %}checked{% endblock %}/>",
    "<script>var a = {{ b|json_encode|raw }}; if (a < 1 && b > 2) { c('<p>{% if d %}e{% endif %}</p>'); }</script>",
    "<style>{% if a %}p { color: {{ b }}; }{% endif %}</style>",
    "<svg viewBox=\"0 0 1 1\"><path d=\"M0 0h1v1z\"/></svg>",
    "<table><tr><td>1</td><td>{{ x }}</td></tr></table>",
    "<!DOCTYPE html>\n<html lang=\"de\">\n<head><title>x {{ y }}</title></head><body>z</body></html>",
    "{% extends 'a' %}{% block b %}{{ parent() }}{% endblock %}",
    "{{ a.b.c[0]['d'].e(1, f=2)|g(h)|i }}",
    "{{ a ? b : c ? d : e }}",
    "{{ a ?: b ?: c }}",
    "{{ \"a #{b ~ \"c\"} d\" }}",
    "{{ 'a\nb' }}",
    "{{ a\n    .b\n    |c\n}}",
    "{{ (a or b) and not (c in [1, 2]) }}",
    "{% for a, b in c|d %}{{ loop.index }}{% else %}e{% endfor %}",
    "{% set a, b = c, [d, e] %}",
    "{% macro a(b, c = 'd', e = { f: 1 }) %}{{ b }}{% endmacro a %}",
    "{% include a ? b : c ignore missing with { d: e } only %}",
    "{% embed 'a' with { b: c } %}{% block d %}e{% endblock %}{% endembed %}",
    "{% for i in 1..10 %}{{ i }}{% endfor %}",
    "{% for c in 'a'..'z' %}{{ c }}{% endfor %}",
    "{{ a|map(b => b.c)|filter((v, k) => v > 1 and k != 'x')|join(', ') }}",
    "{{ a[1:2] }}{{ a[:1] }}{{ a[b:] }}",
    "{{- a -}}{%- if b -%}c{%- endif -%}{#- d -#}",
    "{{~ a ~}}{%~ if b ~%}c{%~ endif ~%}",
    "&nbsp;&amp;&#39;",
    "<a\n    href=\"b\"\n    c\n>d</a>",
    "<a href = \"b\" >d</a >",
    "{% if a %}b{% elseif c %}d{% elseif e %}f{% else %}g{% endif %}",
    "{% block a %}{% block b %}{% block c %}d{% endblock c %}{% endblock b %}{% endblock a %}",
    "{{ a is defined and b is not null and c is same as(d) or e is divisible by(2) }}",
    "{{ a matches '/^[a-z]{2}$/' }}",
    "{{ a starts with 'b' and c ends with \"d\" }}",
    "{{ a b-and b b-or c b-xor d }}",
    "{{ 1.5 + 2 // 3 ** 4 % 5 }}",
    "<template #header=\"{ item }\"><slot :name=\"x\" @click=\"y\" v-if=\"z\"/></template>",
    "<a :b=\"{ c: d }\" @e=\"f()\" v-bind:g=\"h\">i</a>",
];

/// Accepted in the sense of the property, but rejected: listed one by one as known findings.
const REJECTED: &[&str] = &[
    "{{ f({a:{b:1}}) }}",
    "{{ {a:{b:1}} }}",
    "<p>= x</p>",
    "<img alt=\"a > b\">",
    "<img alt='a > b'>",
    "<img alt=\"a < b\">",
    "<a b=c/d>x</a>",
    "<a b=5px>x</a>",
    "<a _>x</a>",
    "<a __>x</a>",
    "<a _1>x</a>",
    "{{ éa }}",
    "{% set é = 1 %}",
    "{{ {é: 1} }}",
    "{{ {...a} }}",
    "<div></DIV>",
    "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">",
];

fn accept(ctx: &Ctx, text: &str, kind: &str) {
    ctx.state(1);
    ctx.trace(1);
    match parse(text) {
        Err(e) => ctx.violation(&format!("{kind}:{text}"), &format!("{text:?}: {e}"), text),
        Ok(p) => {
            if let Some((a, _, e)) = p.errors.first() {
                ctx.violation(&format!("{kind}:{text}"), &format!("{text:?}: syntax error at byte {a}: {e}"), text);
            }
        }
    }
}

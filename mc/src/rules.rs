//! P13 - P16: naming, quotation, usage and duplicate rules, each group on its own.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::*;
use crate::vocab;

pub const NAMING: &[&str] = &["bn", "kc", "vn"];
pub const QUOTES: &[&str] = &["sq", "hq"];
pub const USAGE: &[&str] = &["an", "or", "sa", "ns", "hk", "ex", "je", "vf", "vt", "vu"];
pub const DUPS: &[&str] = &["bd", "di"];

pub fn names(codes: &[&str]) -> Vec<&'static str> {
    codes.iter().map(|c| code(c).0).collect()
}

/// Lint and fix every template composed of at most `depth` contexts.
pub fn explore(ctx: &Ctx, alg: &Algebra, cfg: &Cfg, rules: &[&str], depth: usize, tag: &str) {
    let mut docs = alg.base();
    for d in 0..=depth {
        if d > 0 {
            if docs.len() > 40_000 {
                // stream the last level
                let only_relevant = d > 2;
                let chunk = 6_000;
                for c in docs.chunks(chunk) {
                    let c: Vec<Doc> = c
                        .iter()
                        .filter(|d| !only_relevant || !d.exps.is_empty() || !d.defs.is_empty())
                        .cloned()
                        .collect();
                    let next: Vec<Doc> = alg
                        .grow(&c)
                        .into_iter()
                        .filter(|d| d.cats & N != 0)
                        .collect();
                    check_lint(ctx, alg, &next, cfg, rules, tag);
                    check_fix(ctx, alg, &next, cfg, rules, tag);
                    if ctx.violation_count() > 2000 {
                        return;
                    }
                }
                if d < depth {
                    ctx.note("truncated", format!("depth {depth} requested, {d} completed"));
                }
                return;
            }
            docs = alg.grow(&docs);
        }
        let tw: Vec<Doc> = docs.iter().filter(|d| d.cats & N != 0).cloned().collect();
        for t in tw.iter().step_by((tw.len() / 3).max(1)).take(3) {
            ctx.sample(format!("{:?} -> findings {:?}", t.text, t.want().iter().map(|w| w.rule).collect::<Vec<_>>()));
        }
        check_lint(ctx, alg, &tw, cfg, rules, tag);
        check_fix(ctx, alg, &tw, cfg, rules, tag);
        if ctx.violation_count() > 2000 {
            return;
        }
    }
}

pub fn depth(ctx: &Ctx) -> usize {
    if ctx.quick() {
        2
    } else {
        3
    }
}

/// Hand made documents: lint + fix.
pub fn check_docs(ctx: &Ctx, docs: &[Doc], cfg: &Cfg, rules: &[&str], tag: &str) {
    let alg = Algebra::new(vec![]);
    for d in docs.iter().step_by((docs.len() / 2).max(1)).take(2) {
        ctx.sample(format!("{:?} -> {:?} -> {:?}", d.text, d.want().iter().map(|w| w.rule).collect::<Vec<_>>(), d.fixed()));
    }
    check_lint(ctx, &alg, docs, cfg, rules, tag);
    check_fix(ctx, &alg, docs, cfg, rules, tag);
}

/// A document built from text pieces.
#[derive(Default)]
pub struct B(pub Doc);
impl B {
    pub fn new() -> Self {
        let mut d = Doc::default();
        d.cats = N;
        B(d)
    }
    pub fn t(mut self, s: &str) -> Self {
        self.0.text.push_str(s);
        self
    }
    /// a finding here (stays after --fix or not)
    pub fn f(mut self, rule: &'static str, stays: bool) -> Self {
        self.0.exps.push(Exp {
            rule,
            off: self.0.text.len(),
            stays,
        });
        self
    }
    pub fn r(mut self, rule: &'static str, old: &str, new: &str) -> Self {
        if old != new {
            self.0.edits.push(Edit {
                off: self.0.text.len(),
                len: old.len(),
                new: new.to_string(),
                rule,
            });
        }
        self.0.text.push_str(old);
        self
    }
    pub fn def(mut self, block: bool, name: &str) -> Self {
        self.0.defs.push(Def {
            block,
            name: name.to_string(),
            off: self.0.text.len(),
            fname: name.to_string(),
        });
        self
    }
    pub fn done(self) -> Doc {
        self.0
    }
}

/// All strings over `alphabet` with length in `lo..=hi`.
pub fn strings(alphabet: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for len in 0..=hi {
        if len >= lo {
            out.extend(cur.iter().cloned());
        }
        if len < hi {
            cur = cur
                .iter()
                .flat_map(|s| alphabet.iter().map(move |a| format!("{s}{a}")))
                .collect();
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// P13

fn is_snake(s: &str, upper: bool) -> bool {
    // groups of letters / digits separated by single underscores
    s.split('_').all(|g| {
        !g.is_empty()
            && g.bytes().all(|b| b.is_ascii_digit() || if upper { b.is_ascii_uppercase() } else { b.is_ascii_lowercase() })
    })
}

fn is_kebab(s: &str) -> bool {
    let rest = s.strip_prefix(['@', ':', '#']).unwrap_or(s);
    let prefixed = rest.len() != s.len();
    if rest.is_empty() {
        return prefixed;
    }
    let body = if prefixed { rest.strip_prefix('-').unwrap_or(rest) } else { rest };
    body.split('-').all(|g| {
        !g.is_empty() && g.bytes().all(|b| b.is_ascii_digit() || b.is_ascii_lowercase())
    })
}

fn is_camel(s: &str) -> bool {
    let t = s.trim_start_matches('_');
    t.is_empty() || (t.as_bytes()[0].is_ascii_lowercase() && t.bytes().all(|b| b.is_ascii_alphanumeric()))
}

fn alnum(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_ascii_lowercase()
}

/// Every name over the alphabet in every naming position: reported iff it violates the convention;
/// the fixed name conforms, is not empty and keeps its letters and digits.
fn p13_names(ctx: &Ctx, len: usize) {
    let rules = names(NAMING);
    let cfg = Cfg::rules(&rules);
    let is_word = |s: &str| {
        let b = s.as_bytes();
        b[0].is_ascii_alphabetic() || b[0] == b'_' || ("@#$".contains(b[0] as char) && b.len() > 1 && b[1].is_ascii_alphabetic())
    };
    let block_names: Vec<String> = strings(&["a", "B", "1", "_", "-"], 1, len)
        .into_iter()
        .filter(|s| is_word(s))
        .collect();
    // the parser accepts attribute names with a letter behind an optional prefix
    let mut attr_names: Vec<String> = block_names
        .iter()
        .filter(|s| !s.starts_with('_') || s.as_bytes().get(1).is_some_and(|b| b.is_ascii_alphabetic()))
        .cloned()
        .collect();
    for p in ["@", "#", ":", "$"] {
        for n in strings(&["a", "B", "1", "_", "-"], 1, len.min(4)) {
            if n.as_bytes()[0].is_ascii_alphabetic() {
                attr_names.push(format!("{p}{n}"));
            }
        }
    }
    let var_names: Vec<String> = strings(&["a", "B", "1", "_"], 1, len + 1)
        .into_iter()
        .filter(|s| is_word(s))
        .collect();
    // (prefix, suffix, position kind); NAME is put between
    struct Pos {
        parts: &'static [&'static str], // text, name, text, name, ... (all the same name)
        kind: u8,
    }
    let positions = [
        Pos { parts: &["{% block ", " %}x{% endblock %}"], kind: 0 },
        Pos { parts: &["<div>{%- block ", " -%}x{% endblock ", " %}</div>"], kind: 0 },
        Pos { parts: &["{% block ", " title %}"], kind: 0 },
        Pos { parts: &["<div ", "=\"x\"></div>"], kind: 1 },
        Pos { parts: &["<p class=\"a\" ", " b>x</p>"], kind: 1 },
        Pos { parts: &["<img {% if x %}", "{% endif %} >"], kind: 1 },
        Pos { parts: &["<twig:Foo ", "=\"x\" />"], kind: 2 },
        Pos { parts: &["{% set ", " = 1 %}"], kind: 3 },
        Pos { parts: &["{% set ok, ", " = 1, 2 %}"], kind: 3 },
        Pos { parts: &["{% set ", " %}x{% endset %}"], kind: 3 },
        Pos { parts: &["{% for ", " in x %}x{% endfor %}"], kind: 3 },
        Pos { parts: &["{% for k, ", " in x %}x{% endfor %}"], kind: 3 },
        Pos { parts: &["{% set ", " = constant('X') %}"], kind: 4 },
        Pos { parts: &["{% set ", " = constant('X')|upper %}"], kind: 3 },
        Pos { parts: &["{% set ", " = constants('X') %}"], kind: 3 },
        Pos { parts: &["{% set ", " = aconstant('X') %}"], kind: 3 },
        Pos { parts: &["{% set ", " = Constant('X') %}"], kind: 3 },
        Pos { parts: &["{% set ", " = constant %}"], kind: 3 },
        Pos { parts: &["{% set ", " = constant ~ 'X' %}"], kind: 3 },
        Pos { parts: &["{% set ", " = a.constant('X') %}"], kind: 3 },
        Pos { parts: &["{% set ", " = f(constant('X')) %}"], kind: 3 },
        Pos { parts: &["{% set ", " = [constant('X')] %}"], kind: 3 },
        Pos { parts: &["{% set ", " %}constant('X'){% endset %}"], kind: 3 },
        Pos { parts: &["{{ ", " }}"], kind: 2 },
        Pos { parts: &["{% macro ", "(x) %}y{% endmacro %}"], kind: 2 },
    ];
    for pos in &positions {
        let list = match pos.kind {
            0 => &block_names,
            1 => &attr_names,
            _ => &var_names,
        };
        let texts: Vec<String> = list.iter().map(|n| pos.parts.join(n.as_str())).collect();
        let rule = match pos.kind {
            0 => rules[0],
            1 => rules[1],
            _ => rules[2],
        };
        let valid = |n: &str| match pos.kind {
            0 => is_snake(n, false),
            1 => is_kebab(n),
            2 => true,
            3 => is_camel(n),
            _ => is_snake(n, true),
        };
        run_all(
            &texts,
            &cfg,
            Mode::Lint,
            |i, fo| {
                let ok = valid(&list[i]);
                ctx.state(1);
                ctx.transition(1);
                ctx.trace(1);
                ctx.outcome(if ok { "name accepted" } else { "name rejected" }, 1);
                let want = if ok {
                    vec![]
                } else {
                    vec![Want { off: pos.parts[0].len(), rule }]
                };
                if let Some(d) = diff_findings(&texts[i], &want, &fo.diags, &rules) {
                    ctx.violation(&format!("name:{}", texts[i]), &format!("lint of {:?}: {d}", texts[i]), &texts[i]);
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
        run_all(
            &texts,
            &cfg,
            Mode::Fix,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                let n = &list[i];
                let after = fo.after.as_deref().unwrap_or("");
                let bad = |why: String| {
                    ctx.violation(
                        &format!("namefix:{}", texts[i]),
                        &format!("--fix of {:?} gives {after:?}: {why}", texts[i]),
                        &texts[i],
                    );
                };
                if after == texts[i] {
                    let remaining = fo.diags.iter().any(|d| d.rule == rule);
                    if remaining == valid(n) {
                        bad("finding after the fix does not match the name".into());
                    }
                    return;
                }
                if valid(n) || pos.kind >= 2 {
                    return bad("a name was changed that must not be".into());
                }
                // the new name
                let rest = after.strip_prefix(pos.parts[0]).unwrap_or("");
                let new: String = rest
                    .chars()
                    .enumerate()
                    .take_while(|(j, c)| c.is_ascii_alphanumeric() || *c == '_' || *c == '-' || (*j == 0 && "@#:$".contains(*c)))
                    .map(|x| x.1)
                    .collect();
                if new.is_empty() || !valid(&new) {
                    return bad(format!("suggested name {new:?} does not satisfy the convention"));
                }
                if alnum(&new) != alnum(n) {
                    return bad(format!("suggested name {new:?} loses letters or digits"));
                }
                if after != pos.parts.join(new.as_str()) {
                    return bad("something else than the name was changed, or not all places".into());
                }
                if !fo.diags.is_empty() {
                    bad(format!("finding remains: {}", fo.diags[0].raw));
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
    }
}

pub fn p13(ctx: &Ctx) {
    let rules = names(NAMING);
    let alg = vocab::all().with_rules(&rules);
    p13_names(ctx, if ctx.quick() { 5 } else { 7 });
    explore(ctx, &alg, &Cfg::rules(&rules), &rules, depth(ctx), "");
}

// ---------------------------------------------------------------------------------------------
// P14

/// swap the two quote characters everywhere (the language treats them alike)
fn mirror(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '\'' => '"',
            '"' => '\'',
            c => c,
        })
        .collect()
}

fn p14_twig_strings(ctx: &Ctx, len: usize) {
    let rules = names(QUOTES);
    let pieces = ["a", "\\'", "\\\"", "'", "\"", "\\\\", "#{x}", "#{ y|z }", "{", "#", " ", "é", "\\n", "-", "%}"];
    let all = strings_pieces(&pieces, len);
    for conf in ['\'', '"'] {
        let cfg = Cfg::rules(&rules).fmt("twig-quotation", if conf == '"' { "\"double\"" } else { "\"single\"" });
        let mut docs = vec![];
        for q in ['\'', '"'] {
            for c in &all {
                let raw_q: String = q.to_string();
                if c.iter().any(|p| *p == raw_q) {
                    continue; // would end the string
                }
                let body: String = c.concat();
                // an escape in front of a piece starting with a quote is covered by the pieces
                let interpolated = q == '"' && c.iter().any(|p| p.starts_with("#{"));
                // pieces that join to the start of an interpolation are not well-formed
                if q == '"' && has_broken_interpolation(c) {
                    continue;
                }
                if body.contains("%}") && q == '"' && interpolated {
                    continue;
                }
                let b = B::new().t("{{ ");
                let reported = q != conf && !(conf == '\'' && interpolated);
                let fixable = reported && !body.contains(conf) && !(conf == '"' && body.contains("#{"));
                let mut b = b;
                if reported {
                    b = b.f(rules[0], !fixable);
                }
                let new = if fixable { conf.to_string() } else { raw_q.clone() };
                b = b.r(rules[0], &raw_q, &new).t(&body).r(rules[0], &raw_q, &new).t(" }}");
                docs.push(b.done());
            }
        }
        check_docs(ctx, &docs, &cfg, &rules, &format!("twig={conf} "));
    }
}

fn has_broken_interpolation(c: &[&str]) -> bool {
    // `{#{` is a known finding (see known-findings.txt), probed separately
    c.windows(2).any(|w| (w[0].ends_with('#') && w[1].starts_with('{')) || (w[0].ends_with('{') && w[1].starts_with("#{")))
}

fn strings_pieces<'a>(pieces: &[&'a str], len: usize) -> Vec<Vec<&'a str>> {
    let mut out: Vec<Vec<&str>> = vec![vec![]];
    let mut cur: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..len {
        cur = cur
            .iter()
            .flat_map(|s| {
                pieces.iter().map(move |p| {
                    let mut v = s.clone();
                    v.push(*p);
                    v
                })
            })
            .collect();
        out.extend(cur.iter().cloned());
    }
    out
}

fn p14_html_strings(ctx: &Ctx, len: usize) {
    let rules = names(QUOTES);
    let pieces = [
        "a", "'", "\"", " ", "{{ x }}", "{{ 'y' }}", "{{ \"y\" }}", "{% if x %}b{% endif %}", "/", ">", "é", "\n", "{# c #}", "=",
    ];
    let all = strings_pieces(&pieces, len);
    for conf in ['\'', '"'] {
        // twig strings inside the values: rule switched off here
        let cfg = Cfg::rules(&rules[1..]).fmt("html-quotation", if conf == '"' { "\"double\"" } else { "\"single\"" });
        let mut docs = vec![];
        for q in ['\'', '"'] {
            let raw_q = q.to_string();
            for c in &all {
                if c.iter().any(|p| *p == raw_q) {
                    continue;
                }
                if c.contains(&">") && !ctx_gt_ok() {
                    continue;
                }
                let body: String = c.concat();
                let mut b = B::new().t("<p b c=");
                let reported = q != conf;
                let fixable = reported && !body.contains(conf);
                if reported {
                    b = b.f(rules[1], !fixable);
                }
                let new = if fixable { conf.to_string() } else { raw_q.clone() };
                b = b.r(rules[1], &raw_q, &new).t(&body).r(rules[1], &raw_q, &new).t(" d=").t(&conf.to_string()).t("e").t(&conf.to_string()).t(">x</p>");
                docs.push(b.done());
            }
        }
        // values without quotes
        let c = conf.to_string();
        for (w, after) in [("y", " >"), ("y", ">"), ("{{ y }}", " >"), ("{{ y }}", ">"), ("x-y_1", "\n>"), ("y", " d>")] {
            for pre in ["=", "= ", "=\n"] {
                docs.push(
                    B::new().t("<p b").t(pre).f(rules[1], false).r(rules[1], "", &c).t(w).r(rules[1], "", &c).t(after).t("x</p>").done(),
                );
            }
        }
        check_docs(ctx, &docs, &cfg, &rules, &format!("html={conf} "));
    }
}

/// `>` inside quoted values is a known limitation of the parser (see known-findings.txt)
fn ctx_gt_ok() -> bool {
    false
}

/// Unquoted values that consist of several parts: only the whole of them may be quoted.
fn p14_adjacent(ctx: &Ctx, n: usize) {
    const PARTS: &[&str] = &["y", "{{ z }}", "{# c #}", "{% if a %}w{% endif %}", "-", "1"];
    const AROUND: &[(&str, &str)] = &[("<p b=", ">x</p>"), ("<p b=", " d>x</p>"), ("<p b= ", "\n>x</p>"), ("<br b=", ">"), ("<p c b=", " d=\"e\">x</p>"), ("<p {% if q %}b=", "{% endif %}>x</p>")];
    let mut all: Vec<Vec<&str>> = vec![vec![]];
    let mut values = vec![];
    for _ in 0..n {
        all = all.iter().flat_map(|v| PARTS.iter().map(move |p| v.iter().copied().chain([*p]).collect())).collect();
        // a value begins with text or an output
        values.extend(all.iter().filter(|v| v[0] == "y" || v[0] == "{{ z }}" || v[0] == "1").map(|v| v.concat()));
    }
    let texts: Vec<(usize, String)> = AROUND.iter().enumerate().flat_map(|(i, a)| values.iter().map(move |v| (i, format!("{}{v}{}", a.0, a.1)))).collect();
    for (conf, q) in [("\"double\"", '"'), ("\"single\"", '\'')] {
        let cfg = Cfg::rules(&["html-string-quotation"]).fmt("html-quotation", conf);
        crate::core::par_for(texts.len().div_ceil(1000), 1, |c| {
            let chunk = &texts[c * 1000..((c + 1) * 1000).min(texts.len())];
            let refs: Vec<&str> = chunk.iter().map(|t| t.1.as_str()).collect();
            let b = run_batch(&refs, &cfg, Mode::Fix, 120);
            if let Some(why) = batch_problem(&b.run, refs.len()) {
                crate::expect::batch_error(ctx, &refs.iter().map(|r| r.to_string()).collect::<Vec<_>>(), &b.run, &why);
                return;
            }
            ctx.state(refs.len() as u64);
            ctx.transition(refs.len() as u64);
            ctx.trace(refs.len() as u64);
            for (i, (k, t)) in chunk.iter().enumerate() {
                let (pre, post) = AROUND[*k];
                let bare = |t: &str| t.replace("{# c #}", "");
                let value = bare(&t[pre.len()..t.len() - post.len()]);
                let after = b.files[i].after.clone().unwrap_or_default();
                let post = post.replace("\"e\"", &format!("{q}e{q}"));
                // a value that is a syntax error may take the attribute behind it with it
                let ok = [format!("{pre}{value}{post}"), format!("{pre}{q}{value}{q}{post}"), bare(t)];
                if !ok.contains(&bare(&after)) {
                    ctx.violation(&format!("adjacent:{t}"), &format!("{t:?} becomes {after:?}: the value is another one"), "");
                }
                ctx.outcome(if bare(&after) == ok[0] { "unquoted value kept" } else { "unquoted value quoted" }, 1);
            }
        });
    }
}

pub fn p14(ctx: &Ctx) {
    let rules = names(QUOTES);
    let d = depth(ctx);
    p14_twig_strings(ctx, if ctx.quick() { 3 } else { 4 });
    p14_html_strings(ctx, if ctx.quick() { 3 } else { 4 });
    p14_adjacent(ctx, if ctx.quick() { 4 } else { 5 });
    let known = B::new().t("{{ \"{#{x}\" }}").done();
    probe(ctx, &known, &Cfg::rules(&rules), &rules);
    let alg = vocab::all().with_rules(&rules);
    explore(ctx, &alg, &Cfg::rules(&rules), &rules, d, "");
    // the mirrored world: every quote swapped, the configuration swapped
    let m = vocab::all_mapped(&mirror).with_rules(&rules);
    let cfg = Cfg::rules(&rules).fmt("twig-quotation", "\"double\"").fmt("html-quotation", "\"single\"");
    explore(ctx, &m, &cfg, &rules, if ctx.quick() { 2 } else { 3 }, "mirrored ");
}

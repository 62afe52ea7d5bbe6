//! P27: the findings of a rule don't depend on the other rules that are active.
use crate::algebra::*;
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::vocab;
use std::collections::HashSet;

/// The findings of the selected rules and the syntax errors, in a canonical order.
fn pick(f: &[Diag], keep: impl Fn(&str) -> bool) -> Vec<Diag> {
    let mut v: Vec<Diag> = f.iter().filter(|d| d.rule == "SyntaxError" || keep(&d.rule)).cloned().collect();
    v.sort_by(|a, b| (a.line, a.col, &a.rule, &a.raw).cmp(&(b.line, b.col, &b.rule, &b.raw)));
    v
}

fn lint(ctx: &Ctx, texts: &[String], cfg: &Cfg) -> Option<Vec<Vec<Diag>>> {
    let refs: Vec<&str> = texts.iter().map(String::as_str).collect();
    let b = run_batch(&refs, cfg, Mode::Lint, 120);
    if let Some(why) = batch_problem(&b.run, refs.len()) {
        crate::expect::batch_error(ctx, texts, &b.run, &why);
        return None;
    }
    ctx.trace(texts.len() as u64);
    ctx.transition(texts.len() as u64);
    Some(b.files.into_iter().map(|f| f.diags).collect())
}

const LAYOUTS: &[&str] = &[
    "<div>\n◆<p>\n x</p>\n\t</div>\n\n\n\n◆\n",
    "<DIV A=b\n◆c='d'>\n\n \n\n{% block A %}{{ a===b }}◆{% endblock %}\n</DIV>\n",
    "<pre>\n◆\n\n\n {{ 'a' }}\n</pre>\n<p>\r\n◆</p>\r\n",
    "{% block a %}◆{% endblock %}{% block a %}<i>\n◆</i>{% endblock %}\n",
    "{# ludtwig-ignore indentation #}\n  <p>\n◆</p>\n   <b>\n◆</b>\n",
    "{# ludtwig-ignore #}\n  <p Ab='c'>\n◆</p>\n   <b Ab='c'>{{ a|zz }}\n◆</b>\n",
    "{# ludtwig-ignore-file twig-string-quotation, indentation #}\n  <p Ab='c'>\n◆{{ 'a' }}\n◆</p>\n",
    "<p>{# ludtwig-ignore-file #}</p>\n  <p Ab='c'>\n◆{{ 'a' }}\n◆</p>\n",
    "<textarea>\n◆\n\n\n</textarea>\n<i id='a'>\n◆</i><i id=\"a\">\n</i>",
    "{% set A_b = 1 %}\n◆{% set aB = constant('x') %}\n\n\n{{ a && b || c|raw|json_encode|raw }}",
];

pub fn p27(ctx: &Ctx) {
    let alg = vocab::all().with_rules(ALL_RULES);
    let base = alg.base();
    let mut docs = alg.grow(&base);
    let step = if ctx.quick() { 41 } else { 11 };
    let two: Vec<Doc> = docs.chunks(500).flat_map(|c| alg.grow(c).into_iter().step_by(step)).collect();
    docs.extend(two);
    docs.extend(base);
    let mut seen = HashSet::new();
    let mut texts: Vec<String> = vec![];
    let mut add = |t: String| {
        if seen.insert(t.clone()) {
            texts.push(t);
        }
    };
    for (i, d) in docs.iter().enumerate() {
        if d.cats & N == 0 {
            continue;
        }
        add(d.text.clone());
        if d.trail.len() <= 1 {
            let r = ALL_RULES[i % ALL_RULES.len()];
            add(format!("<p>\n{}\n  </p>\n\n\n{}", d.text, d.text));
            add(format!("{{# ludtwig-ignore {r} #}}{}\n{}", d.text, d.text));
            add(format!("{{# ludtwig-ignore-file {r} #}}\n{}", d.text));
            for b in crate::p04::breakages(&d.text).unwrap_or_default().into_iter().step_by(if ctx.quick() { 3 } else { 1 }) {
                add(b.text);
            }
        }
    }
    let gaps = ["", " ", "\n", "\n    ", "\n\t\n\n ", "\r\n", "{{ 'x' }}", "{% block b %}y{% endblock %}", "{# ludtwig-ignore #}", "<p>"];
    for t in LAYOUTS {
        for a in gaps {
            for b in gaps {
                add(t.replacen('◆', a, 1).replace('◆', b));
            }
        }
    }
    ctx.note("templates", texts.len().to_string());
    for t in texts.iter().step_by(texts.len() / 6) {
        ctx.sample(format!("{t:?}"));
    }
    // every rule alone, all without it, all of them in other orders and twice, every pair of neighbours
    let all = ALL_RULES.to_vec();
    let mut sets: Vec<Vec<&'static str>> = vec![all.iter().rev().copied().collect(), all.iter().chain(&all).copied().collect(), vec![]];
    for (i, r) in all.iter().enumerate() {
        sets.push(vec![r]);
        sets.push(all.iter().copied().filter(|x| x != r).collect());
        if !ctx.quick() {
            for s in &all[i + 1..] {
                sets.push(vec![s, r]);
            }
        }
        let mut rot = all.clone();
        rot.rotate_left(i);
        sets.push(rot);
    }
    let sets = &sets;
    let chunks: Vec<&[String]> = texts.chunks(1000).collect();
    par_for(chunks.len(), 1, |c| {
        let texts = chunks[c];
        let Some(want) = lint(ctx, texts, &Cfg::rules(ALL_RULES)) else { return };
        ctx.state(texts.len() as u64);
        for set in sets {
            let Some(got) = lint(ctx, texts, &Cfg::rules(set)) else { return };
            for (i, t) in texts.iter().enumerate() {
                let w = pick(&want[i], |r| set.contains(&r));
                let g = pick(&got[i], |_| true);
                if w != g {
                    let name = if set.len() == 1 { format!("only {}", set[0]) } else { format!("{} rules ({} first)", set.len(), set.first().unwrap_or(&"-")) };
                    ctx.violation(&format!("rules:{t:?}"), &format!("{t:?}: with {name} active the findings are others than with all rules"), &format!("{:#?}\n{:#?}", w.iter().filter(|d| !g.contains(d)).collect::<Vec<_>>(), g.iter().filter(|d| !w.contains(d)).collect::<Vec<_>>()));
                }
                if set.len() == 1 && !g.is_empty() {
                    ctx.outcome(&format!("findings of {}", set[0]), 1);
                }
            }
        }
    });
}

//! Compare the real binary with the expectations composed by the algebra.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;

/// Compare wanted findings with the reported ones (restricted to `rules`).
/// Returns a description of the difference.
pub fn diff_findings(text: &str, want: &[Want], got: &[Diag], rules: &[&str]) -> Option<String> {
    let mut rest: Vec<&Diag> = got.iter().filter(|d| rules.contains(&d.rule.as_str())).collect();
    let mut missing = vec![];
    for w in want {
        if !rules.contains(&w.rule) {
            continue;
        }
        let (l, c) = line_col(text, w.off);
        let sev = severity(w.rule);
        let found = rest.iter().position(|d| {
            if d.rule != w.rule || d.sev != sev {
                return false;
            }
            if (d.line, d.col) == (l, c) {
                return caret_len(&d.raw) == token_len(w.rule, &text[w.off..]) || token_len(w.rule, "").is_none();
            }
            false
        });
        match found {
            Some(i) => {
                rest.swap_remove(i);
            }
            None => missing.push(format!("missing {} ({}) at {}:{}", w.rule, sev, l, c)),
        }
    }
    for d in rest {
        missing.push(format!("unexpected {} ({}) at {}:{}: {}", d.rule, d.sev, d.line, d.col, d.msg));
    }
    if missing.is_empty() {
        None
    } else {
        Some(missing.join("; "))
    }
}

/// Length of the primary label (`^^^`) of a printed diagnostic.
pub fn caret_len(raw: &str) -> Option<usize> {
    raw.lines().skip(1).find_map(|l| {
        let l = l.split_once('│').map_or("", |x| x.1);
        let a = l.find('^')?;
        Some(l[a..].bytes().take_while(|b| *b == b'^').count())
    })
}

/// Length of the token a finding of this rule must mark (for rules that mark a single token).
fn token_len(rule: &str, at: &str) -> Option<usize> {
    match rule {
        "twig-logic-and" | "twig-logic-or" => Some(2),
        "twig-use-is-same-as" | "twig-use-is-not-same-as" => Some(3),
        "twig-block-name-snake-case"
        | "html-attribute-name-kebab-case"
        | "twig-json-encode-escape-js"
        | "twig-variable-definition-naming"
        | "twig-valid-filter"
        | "twig-valid-function"
        | "twig-block-duplicate" => {
            let dash = matches!(rule, "html-attribute-name-kebab-case" | "twig-block-name-snake-case" | "twig-block-duplicate");
            let delim = ["-%}", "-}}", "-#}"].iter().filter_map(|d| at.find(d)).min().unwrap_or(at.len());
            Some(
                at[..delim]
                    .chars()
                    .enumerate()
                    .take_while(|(i, c)| c.is_alphanumeric() || *c == '_' || (*c == '-' && dash) || (*i == 0 && "@#:$".contains(*c)))
                    .count(),
            )
        }
        _ => None,
    }
}

pub fn outcome_of(got: &[Diag], rules: &[&str]) -> String {
    let mut v: Vec<&str> = got
        .iter()
        .filter(|d| rules.contains(&d.rule.as_str()))
        .map(|d| d.rule.as_str())
        .collect();
    v.sort_unstable();
    v.join(",")
}

pub fn batch_error(ctx: &Ctx, cases: &[String], run: &RunOut, why: &str) {
    ctx.violation(
        &format!("batch:{why}:{}", cases.first().map_or("", |s| s.as_str())),
        &format!("processing a batch of {} generated files went wrong: {why}", cases.len()),
        &format!(
            "exit={:?} signal={} timeout={}\nstdout tail:\n{}\nother output:\n{}",
            run.code,
            run.signal,
            run.timed_out,
            tail(&run.stdout, 2000),
            tail(&run.err_lines.join("\n"), 2000)
        ),
    );
}

pub fn tail(s: &str, n: usize) -> &str {
    let mut i = s.len().saturating_sub(n);
    while !s.is_char_boundary(i) {
        i += 1;
    }
    &s[i..]
}

/// Lint all documents: exactly the composed findings of `rules`, nothing else of these rules.
pub fn check_lint(ctx: &Ctx, alg: &Algebra, docs: &[Doc], cfg: &Cfg, rules: &[&str], tag: &str) {
    let texts: Vec<String> = docs.iter().map(|d| d.text.clone()).collect();
    run_all(
        &texts,
        cfg,
        Mode::Lint,
        |i, fo| {
            let d = &docs[i];
            let want = d.want();
            ctx.state(1);
            ctx.transition(d.trail.len() as u64);
            ctx.trace(1);
            ctx.outcome(&outcome_of(&fo.diags, rules), 1);
            if let Some(diff) = diff_findings(&d.text, &want, &fo.diags, rules) {
                ctx.violation(
                    &format!("{tag}lint:{}", d.text),
                    &format!("lint of {:?}: {diff}", d.text),
                    &format!(
                        "template:\n{}\n\nconstruction: {}\n\nreported:\n{}\n\nconfig:\n{}\n\nreplay: write the template to x.html.twig, run `ludtwig -c cfg.toml x.html.twig`",
                        d.text,
                        alg.describe(d),
                        fo.diags.iter().map(|d| d.raw.as_str()).collect::<Vec<_>>().join("\n"),
                        cfg.toml()
                    ),
                );
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
}

/// Fix all documents: the file becomes exactly the composed fixed text and exactly the composed
/// remaining findings are reported.
pub fn check_fix(ctx: &Ctx, alg: &Algebra, docs: &[Doc], cfg: &Cfg, rules: &[&str], tag: &str) {
    let docs: Vec<&Doc> = docs.iter().filter(|d| !d.nofix).collect();
    let texts: Vec<String> = docs.iter().map(|d| d.text.clone()).collect();
    run_all(
        &texts,
        cfg,
        Mode::Fix,
        |i, fo| {
            let d = docs[i];
            let fixed = d.fixed();
            ctx.state(1);
            ctx.transition(d.trail.len() as u64);
            ctx.trace(1);
            let after = fo.after.as_deref().unwrap_or("");
            let mut diff = None;
            if after != fixed {
                diff = Some(format!("file became {after:?}, expected {fixed:?}"));
            } else if let Some(x) = diff_findings(&fixed, &d.want_fixed(), &fo.diags, rules) {
                diff = Some(format!("after the fix: {x}"));
            }
            ctx.outcome(
                if d.text == fixed { "fix: unchanged" } else { "fix: changed" },
                1,
            );
            if let Some(diff) = diff {
                ctx.violation(
                    &format!("{tag}fix:{}", d.text),
                    &format!("--fix of {:?}: {diff}", d.text),
                    &format!(
                        "template:\n{}\n\nafter --fix:\n{}\n\nexpected:\n{}\n\nconstruction: {}\n\nreported:\n{}\n\nconfig:\n{}\n",
                        d.text,
                        after,
                        fixed,
                        alg.describe(d),
                        fo.diags.iter().map(|d| d.raw.as_str()).collect::<Vec<_>>().join("\n"),
                        cfg.toml()
                    ),
                );
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
}

/// A single input that is (or was) broken in a known way: lint and fix must do exactly what the
/// document says. One key for both, so that it can be listed as a known finding.
pub fn probe(ctx: &Ctx, d: &Doc, cfg: &Cfg, rules: &[&str]) {
    ctx.state(1);
    ctx.trace(1);
    let mut why = vec![];
    let l = run_batch(&[&d.text], cfg, Mode::Lint, 30);
    why.extend(batch_problem(&l.run, 1));
    let f = run_batch(&[&d.text], cfg, Mode::Fix, 30);
    why.extend(batch_problem(&f.run, 1));
    let mut all: Vec<&str> = rules.to_vec();
    all.push("SyntaxError");
    if let Some(x) = diff_findings(&d.text, &d.want(), &l.files[0].diags, &all) {
        why.push(x);
    }
    let after = f.files[0].after.as_deref().unwrap_or("");
    if after != d.fixed() {
        why.push(format!("--fix gives {after:?}, expected {:?}", d.fixed()));
    } else if let Some(x) = diff_findings(&d.fixed(), &d.want_fixed(), &f.files[0].diags, &all) {
        why.push(format!("after --fix: {x}"));
    }
    if !why.is_empty() {
        ctx.violation(
            &format!("probe:{}", d.text),
            &format!("{:?}: {}", d.text, why.join("; ")),
            &d.text,
        );
    }
}

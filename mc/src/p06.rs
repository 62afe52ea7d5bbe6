//! P06: whitespace control and formatting change neither the structure nor the findings.
use crate::algebra::*;
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::expect::*;
use crate::parse::*;
use crate::shape::*;
use crate::vary::*;
use crate::vocab;

pub fn styles() -> Vec<Style> {
    let mut v = vec![];
    for open in ["", "-", "~"] {
        for close in ["", "-", "~"] {
            let mut s = Style::plain(&format!("delimiters {open:?} {close:?}"));
            s.open = open;
            s.close = close;
            v.push(s.clone());
            s.name += " tight";
            s.tight = true;
            v.push(s);
        }
    }
    for b in ["  ", "\n", "\t", "\r\n    ", "\n\n", " \n "] {
        let mut s = Style::plain(&format!("blanks {b:?}"));
        s.blank = Some(b);
        v.push(s);
    }
    for b in [" ", "\n"] {
        let mut s = Style::plain(&format!("inserted blanks {b:?}"));
        s.insert = Some(b);
        v.push(s.clone());
        s.name += " everywhere";
        s.blank = Some("\n");
        s.open = "-";
        s.close = "-";
        v.push(s);
    }
    v
}

/// a variant of the document: text and expectations
fn vary(d: &Doc, sc: &Scan, st: &Style) -> Option<Doc> {
    let (text, map) = sc.render(&d.text, st)?;
    let mut x = d.clone();
    x.text = text;
    for e in &mut x.exps {
        e.off = map[e.off];
    }
    for e in &mut x.edits {
        let end = map[e.off + e.len];
        e.off = map[e.off];
        e.len = end.checked_sub(e.off)?;
    }
    for e in &mut x.defs {
        e.off = map[e.off];
    }
    Some(x)
}

fn norm(s: &str) -> String {
    let t = s.trim_matches(['-', '~']);
    if ["{{", "}}", "{%", "%}", "{#", "#}"].contains(&t) {
        format!("◆{t}")
    } else {
        s.to_string()
    }
}

/// kinds and texts without trivia; the forms of a delimiter are one
fn skel(p: &Parsed) -> String {
    let s = skeleton(&p.tree, &norm);
    // TK_…="◆{{" -> ◆{{
    let mut o = String::new();
    for part in s.split(" TK_") {
        if let Some(i) = part.find("=\"◆") {
            o.push_str(&part[i + 1..]);
        } else {
            o.push_str(" TK_");
            o.push_str(part);
        }
    }
    o
}

pub fn p06(ctx: &Ctx) {
    quiet_panics();
    let mut alg = vocab::all();
    // directives are comments with whitespace control, too
    let mut t = alg.t.clone();
    for s in ["{# ludtwig-ignore #}◆", "<i>{#- ludtwig-ignore -#}\n◆</i>"] {
        t.push(Tmpl::ctx(N, N, s).suppress(&["*"]).needs_single());
    }
    t.push(Tmpl::ctx(N, N, "{# ludtwig-ignore twig-logic-and, twig-string-quotation #}◆").suppress(&["an", "sq"]).needs_single());
    alg = Algebra::new(t);
    let base = alg.base();
    let one = alg.grow(&base);
    let rules = non_layout_rules();
    let styles = styles();
    ctx.note("styles", styles.iter().map(|s| s.name.clone()).collect::<Vec<_>>().join("; "));

    // full documents
    let full = |docs: &[Doc]| -> Vec<Doc> {
        let (_, hold) = (0, alg.ctxs.iter().find(|c| alg.t[**c as usize].src == "{{ ◆ }}").unwrap());
        docs.iter()
            .filter(|d| d.cats & (N | E | P) != 0)
            .map(|d| if d.cats & N != 0 { d.clone() } else { alg.put(*hold, d) })
            .collect()
    };
    let plain = full(&base);
    let nested = full(&one);

    // in-process: structure
    let structure = |docs: &[Doc], single: bool| {
        par_for(docs.len(), 8, |i| {
            let d = &docs[i];
            let Some(sc) = scan(&d.text) else {
                ctx.outcome("not scanned", 1);
                return;
            };
            let Ok(p0) = parse(&d.text) else { return };
            let want = skel(&p0);
            let go = |st: &Style| {
                let Some((text, _)) = sc.render(&d.text, st) else {
                    ctx.outcome("not rendered", 1);
                    return;
                };
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                match parse(&text) {
                    Err(e) => ctx.violation(&format!("form:{text}"), &format!("{text:?}: {e}"), &text),
                    Ok(p) => {
                        if let Some((a, _, e)) = p.errors.first() {
                            ctx.violation(
                                &format!("form:{text}"),
                                &format!("{:?} is accepted, {text:?} ({}) is not: syntax error at byte {a}: {e}", d.text, st.name),
                                &text,
                            );
                            return;
                        }
                        let got = skel(&p);
                        if got != want {
                            ctx.violation(
                                &format!("form:{text}"),
                                &format!("{text:?} ({}) has another structure than {:?}:\n  {got}\n  expected\n  {want}", st.name, d.text),
                                &text,
                            );
                        }
                    }
                }
            };
            for st in &styles {
                go(st);
            }
            if single {
                for n in 0..sc.delimiters() {
                    for m in ["-", "~"] {
                        let mut st = Style::plain("one delimiter");
                        st.open = m;
                        st.close = m;
                        st.only = Some(n);
                        go(&st);
                    }
                }
                for n in 0..sc.gaps() {
                    for (b, ins, tight) in [(Some("\n"), Some(" "), false), (Some("  "), Some("\n\t"), false), (None, None, true)] {
                        let mut st = Style::plain("one gap");
                        st.blank = b;
                        st.insert = ins;
                        st.tight = tight;
                        st.gap = Some(n);
                        go(&st);
                    }
                }
            }
        });
    };
    structure(&plain, true);
    structure(&nested, true);
    if !ctx.quick() {
        for c in one.chunks(1000) {
            structure(&full(&alg.grow(c)), false);
            if ctx.violation_count() > 500 {
                return;
            }
        }
    }

    // the real binary: findings (and fixes, if no blanks are changed)
    for (k, st) in styles.iter().enumerate() {
        let mut docs = vec![];
        for (i, d) in plain.iter().chain(&nested).enumerate() {
            // quick: every nested document with a part of the styles
            if ctx.quick() && i >= plain.len() && (i + k) % styles.len() >= 10 {
                continue;
            }
            let Some(sc) = scan(&d.text) else { continue };
            docs.extend(vary(d, &sc, st));
        }
        for d in docs.iter().step_by((docs.len() / 2).max(1)) {
            ctx.sample(d.text.clone());
        }
        check_lint(ctx, &alg, &docs, &Cfg::rules(&rules), &rules, "");
        if st.blank.is_none() && st.insert.is_none() && !st.tight {
            check_fix(ctx, &alg, &docs, &Cfg::rules(&rules), &rules, "");
        }
    }

    // inside of two-word names: listed one by one (known findings)
    for (text, plain) in [
        ("{{ a is same  as(b) }}", "{{ a is same as(b) }}"),
        ("{{ a is divisible  by(3) }}", "{{ a is divisible by(3) }}"),
        ("{{ a starts  with b }}", "{{ a starts with b }}"),
        ("{{ a ends  with b }}", "{{ a ends with b }}"),
        ("{{ a not  in b }}", "{{ a not in b }}"),
        ("{{ a is  not b }}", "{{ a is not b }}"),
        ("{{ a not\nin b }}", "{{ a not in b }}"),
        ("{{ a is\n  not defined }}", "{{ a is not defined }}"),
        ("{% include 'a' ignore  missing %}", "{% include 'a' ignore missing %}"),
        ("{{ a starts\nwith b }}", "{{ a starts with b }}"),
        ("{{ a ends\nwith b }}", "{{ a ends with b }}"),
        ("{{ a is same\nas(b) }}", "{{ a is same as(b) }}"),
        ("{{ a is divisible\nby(3) }}", "{{ a is divisible by(3) }}"),
        ("{% include 'a' ignore\nmissing %}", "{% include 'a' ignore missing %}"),
    ] {
        ctx.state(1);
        ctx.trace(1);
        let lint = |t: &str| {
            let b = run_batch(&[t], &Cfg::rules(&rules), Mode::Lint, 30);
            b.files[0].diags.iter().map(|d| format!("{}: {}", d.rule, d.msg)).collect::<Vec<_>>()
        };
        let (a, b) = (lint(text), lint(plain));
        let sk = |t: &str| parse(t).map(|p| skeleton(&p.tree, &|s| s.split_whitespace().collect::<Vec<_>>().join(" "))).unwrap_or_else(|e| e);
        if a != b || sk(text) != sk(plain) {
            ctx.violation(&format!("probe:{text}"), &format!("{text:?}: findings {a:?}, {plain:?}: {b:?}"), text);
        }
    }

    // every row of blanks and tabs inside of two-word names
    let mut blanks = vec![];
    let mut row = vec![String::new()];
    for _ in 0..if ctx.quick() { 4 } else { 6 } {
        row = row.iter().flat_map(|r| [format!("{r} "), format!("{r}\t")]).collect();
        blanks.extend(row.iter().cloned());
    }
    const AT: &[&str] = &[
        "{{ a starts◇with b }}", "{{ a ends◇with b }}", "{{ a not◇in b }}", "{{ a is◇not b }}", "{{ a is◇not defined }}", "{{ a is same◇as(b) }}", "{{ a is not same◇as(b) }}", "{{ a is◇not same as(b) }}",
        "{{ a is divisible◇by(3) }}", "{{ a is not divisible◇by(3) }}", "{% include 'a' ignore◇missing %}", "{% include a ignore◇missing with b only %}", "{% if a starts◇with 'b' and c ends◇with 'd' or e not◇in f %}g{% endif %}",
        "<p a=\"{{ b is◇not empty ? c ends◇with d }}\" {% if e not◇in f %}g{% endif %}></p>", "{% embed 'a' ignore◇missing %}{% endembed %}", "{{ a(b starts◇with c, [d not◇in e]) }}", "{% sw_include 'a' ignore◇missing %}",
    ];
    let keep = |d: &Diag| !(d.rule == "twig-valid-test" && (d.msg.contains("same") || d.msg.contains("divisible")));
    for at in AT {
        let texts: Vec<String> = blanks.iter().map(|b| at.replace('◇', b)).collect();
        let refs: Vec<&str> = texts.iter().map(String::as_str).collect();
        let b = run_batch(&refs, &Cfg::rules(&rules), Mode::Lint, 60);
        if let Some(why) = batch_problem(&b.run, refs.len()) {
            batch_error(ctx, &texts, &b.run, &why);
            continue;
        }
        let told = |k: usize| b.files[k].diags.iter().filter(|d| keep(d)).map(|d| format!("{}: {}", d.rule, d.msg)).collect::<Vec<_>>();
        let sk = |t: &str| parse(t).map(|p| skeleton(&p.tree, &|s| s.split_whitespace().collect::<Vec<_>>().join(" "))).unwrap_or_else(|e| e);
        let want = (told(0), sk(&texts[0]));
        for (k, t) in texts.iter().enumerate() {
            ctx.state(1);
            ctx.trace(1);
            if (told(k), sk(t)) != want {
                ctx.violation(&format!("words:{t}"), &format!("{t:?} has other findings or another structure than {:?}: {:?} instead of {:?}", texts[0], told(k), want.0), "");
            }
        }
    }
}

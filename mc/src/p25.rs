//! P25: findings are located at the text they are about, whatever is written around it.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::batch_error;
use crate::vocab;
use std::collections::{BTreeSet, HashSet};

/// One row of the source excerpt.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Row {
    Src(usize, String),
    Mark(String),
    Note(String),
}

/// A finding as it is printed, without the width of the gutter.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct View {
    head: String,
    line: usize,
    col: usize,
    rows: Vec<Row>,
}

fn view(d: &Diag) -> View {
    let mut rows = vec![];
    for l in d.raw.lines().skip(1) {
        if l.trim_start().starts_with('┌') {
            continue;
        }
        match l.split_once('│') {
            Some((num, rest)) => {
                let rest = rest.strip_prefix(' ').unwrap_or(rest).trim_end().to_string();
                match num.trim().parse() {
                    Ok(n) => rows.push(Row::Src(n, rest)),
                    Err(_) if num.trim().is_empty() => rows.push(Row::Mark(rest)),
                    Err(_) => rows.push(Row::Note(l.trim().to_string())),
                }
            }
            None => rows.push(Row::Note(l.trim().to_string())),
        }
    }
    View { head: format!("{} {} {}", d.sev, d.rule, d.msg), line: d.line, col: d.col, rows }
}

fn wide(c: char) -> usize {
    match c {
        '\u{300}'..='\u{36f}' | '\u{200d}' | '\u{feff}' => 0,
        '日' | '本' | '👩' | '👧' => 2,
        _ => 1,
    }
}

/// A line as it is shown (tabs up to the next multiple of four) and its width.
fn shown(line: &str) -> (String, usize) {
    let mut o = String::new();
    let mut w = 0;
    for c in line.chars() {
        if c == '\t' {
            let n = 4 - w % 4;
            o.push_str(&" ".repeat(n));
            w += n;
        } else {
            o.push(c);
            w += wide(c);
        }
    }
    (o, w)
}

fn lines(text: &str) -> Vec<&str> {
    text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}

fn has_bars(v: &View) -> bool {
    v.rows.iter().any(|r| matches!(r, Row::Mark(t) | Row::Src(_, t) if t.contains(['╭', '╰', '│'])))
}

/// What must hold for every finding of a file.
fn absolute(text: &str, v: &View) -> Option<String> {
    let ls = lines(text);
    if v.line == 0 || v.line > ls.len() {
        return Some(format!("line {} of {}", v.line, ls.len()));
    }
    let l = ls[v.line - 1];
    if v.col == 0 || v.col > text.split('\n').nth(v.line - 1).unwrap().chars().count() + 1 {
        return Some(format!("column {} of {:?}", v.col, l));
    }
    if !v.head.contains("SyntaxError") && l.chars().nth(v.col - 1).is_none_or(|c| c.is_whitespace()) {
        return Some(format!("{}:{} is not the beginning of a token", v.line, v.col));
    }
    if has_bars(v) {
        return None;
    }
    let mut marked = false;
    for (i, r) in v.rows.iter().enumerate() {
        if let Row::Src(n, t) = r {
            let want = ls.get(n - 1).map(|l| shown(l).0.trim_end().to_string());
            if want.as_deref() != Some(t.as_str()) {
                return Some(format!("line {n} is quoted as {t:?} instead of {want:?}"));
            }
            if *n == v.line {
                let before: String = l.chars().take(v.col - 1).collect();
                let at = shown(&before).1;
                if let Some(Row::Mark(m)) = v.rows.get(i + 1) {
                    marked = m.chars().nth(at) == Some('^') && (at == 0 || m.chars().nth(at - 1) != Some('^'));
                }
            }
        }
    }
    if !marked {
        return Some(format!("{}:{} is not underlined", v.line, v.col));
    }
    None
}

/// The finding behind the prefix.
fn moved(v: &View, prefix: &str) -> View {
    let n = prefix.matches('\n').count();
    let last = prefix.rsplit('\n').next().unwrap();
    let (text, w) = shown(last);
    let mut o = v.clone();
    o.line += n;
    if v.line == 1 {
        o.col += last.chars().count();
    }
    let mut first = false;
    for r in &mut o.rows {
        match r {
            Row::Src(k, t) => {
                first = *k == 1;
                if first {
                    *t = format!("{text}{t}").trim_end().to_string();
                }
                *k += n;
            }
            Row::Mark(t) => {
                if first && !t.trim().is_empty() {
                    *t = format!("{}{t}", " ".repeat(w));
                }
            }
            Row::Note(_) => {}
        }
    }
    o
}

/// Findings that span lines are drawn with lines whose length depends on the position.
fn plain(v: &View, prefix: &str) -> View {
    let mut o = v.clone();
    if has_bars(v) {
        let last = shown(prefix.rsplit('\n').next().unwrap()).0;
        for r in &mut o.rows {
            match r {
                Row::Src(_, t) => {
                    *t = t.replacen(&last, "", usize::from(!last.is_empty()));
                    *t = t.chars().filter(|c| !"╭╰│─ ".contains(*c)).collect();
                }
                Row::Mark(t) => *t = t.chars().filter(|c| !"╭╰│─ ".contains(*c)).collect(),
                Row::Note(_) => {}
            }
        }
        // (the drawing may need more or less rows)
        o.rows.retain(|r| !matches!(r, Row::Mark(t) if t.is_empty()));
    }
    o
}

const PREFIXES: &[&str] = &[
    "\n",
    "é\n",
    "日本 \r\n",
    "\t\n\n",
    "{# c #}\n",
    "{{ 'é' }}\r\n\r\n",
    "<b>é</b>\n",
    "{% set a = 'e\u{301}' %}\n\n\n",
    "{{ a && b }}\n",
    "<i class='x'></i>\n{{ a || b }} é\n",
    "{# c\n\n\n\n\n\n\n\n\n #}\n",
    "é ",
    "日 ",
    "\t",
    "x\t",
    "{{ 'é' }}",
    "<b>日</b>",
    "{# e\u{301} #}",
    "👩\u{200d}👧 ",
    "<b\n>\té</b> ",
    "é\r\n日 ",
    "<!-- 日本\n é -->\t\t",
    " ",
];

const MORE: &[&str] = &[
    "<div>\n  {# ludtwig-ignore-file #}\n</div>",
    "<div>{#- ludtwig-ignore-file twig-valid-filter -#}</div>",
    "{% block a %}\n\n  <!-- ludtwig-ignore-file -->\n{% endblock %}",
    "<p {# ludtwig-ignore-file #}></p>",
    "<p\n  {# ludtwig-ignore-file #} a></p>",
    "<p class=\"a {# ludtwig-ignore-file #}\"></p>",
    "{% if a %} {# ludtwig-ignore-file #} {% endif %}",
    "\n\n{% extends 'a' %}",
    "x {% extends 'a' %} y",
    "{%- extends 'a' -%}",
    "<b>日本 é</b> {{ a && b }} 日 {{ c || d }}",
    "日\n é {% block fooBar %}{% endblock %}\n日本{% block fooBar %}\n{% endblock %}",
    "<p é='x' 日=y fooBar></p>",
    "{{ '日' ~ a|nofilt }} {{ f('é', x and not y is same as('é')) }}",
    "{{ { 'é': 1, 'a': 2, '日本': 3 }['a'] === 'x' }}",
    "<p id='日'></p>\n <i id='日'></i>",
    "é {# e\u{301} 👩\u{200d}👧 #} {{ x and y && z }}",
    "{{ a }",
    "<p>日</div> é {% endif %}",
    "{% block é %}{% endblock %}",
    "{{ é }}",
    "{% 日 %}",
    "<日></日>",
    "é {{ 'x",
    "日 <!-- x",
    "é {# x",
    "日 {% if a %} é",
    "<a b=\"日",
];

const SUFFIXES: &[&str] = &["\n", "\n<b>é</b>\n", "\r\n{{ 'é' }}", "\n{{ a && b }}\n日", "\n{# c #}"];

fn judge(ctx: &Ctx, texts: &[String], keys: &[(usize, usize)], refs: &[Option<Vec<View>>], extra: &[Vec<View>], cfg: &Cfg, suffix: bool, docs: &[String]) {
    run_all(
        texts,
        cfg,
        Mode::Lint,
        |i, fo| {
            let (d, k) = keys[i];
            let Some(want) = &refs[d] else { return };
            ctx.state(1);
            ctx.trace(1);
            ctx.transition(want.len() as u64);
            let all: Vec<View> = fo.diags.iter().map(view).collect();
            for v in &all {
                if let Some(why) = absolute(&texts[i], v) {
                    ctx.violation(&format!("at:{}", texts[i]), &format!("lint of {:?}: {}: {why}", texts[i], v.head), &format!("{:#?}", fo.diags.iter().map(|d| &d.raw).collect::<Vec<_>>()));
                    return;
                }
            }
            let (got, want): (Vec<View>, Vec<View>) = if suffix {
                let n = docs[d].matches('\n').count();
                let w = want.iter().cloned().chain(extra[k].iter().map(|v| {
                    let mut v = v.clone();
                    v.line += n;
                    v.rows.iter_mut().for_each(|r| {
                        if let Row::Src(k, _) = r {
                            *k += n;
                        }
                    });
                    v
                }));
                (all, w.collect())
            } else {
                let p = PREFIXES[k];
                let w = extra[k].iter().cloned().chain(want.iter().map(|v| plain(&moved(v, p), p)));
                let n = p.matches('\n').count();
                (all.into_iter().map(|v| if v.line > n { plain(&v, p) } else { v }).collect(), w.collect())
            };
            let (mut got, mut want) = (got, want);
            got.sort();
            want.sort();
            if got != want {
                let m: Vec<&View> = want.iter().filter(|w| !got.contains(w)).collect();
                let x: Vec<&View> = got.iter().filter(|w| !want.contains(w)).collect();
                let short = |v: &[&View]| v.iter().map(|v| format!("{} at {}:{}", v.head, v.line, v.col)).collect::<Vec<_>>().join("; ");
                ctx.violation(
                    &format!("{}:{}", if suffix { "suffix" } else { "prefix" }, texts[i]),
                    &format!("lint of {:?} (from {:?}): expected [{}], got [{}]", texts[i], docs[d], short(&m), short(&x)),
                    &format!("expected\n{m:#?}\ngot\n{x:#?}"),
                );
            } else {
                ctx.outcome(&format!("{} findings", want.len().min(9)), 1);
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
}

pub fn p25(ctx: &Ctx) {
    let rules = non_layout_rules();
    let cfg = Cfg::rules(&rules);
    let alg = vocab::all().with_rules(&rules);
    let base = alg.base();
    let one = alg.grow(&base);
    let mut seen = HashSet::new();
    let mut docs: Vec<String> = vec![];
    let mut valid = BTreeSet::new();
    let mut add = |t: &str, ok: bool, docs: &mut Vec<String>| {
        // the tabulators of the template itself depend on the position
        if !t.contains('\t') && seen.insert(t.to_string()) {
            if ok {
                valid.insert(docs.len());
            }
            docs.push(t.to_string());
        }
    };
    let q = ctx.quick();
    let two: Vec<Doc> = if q { vec![] } else { one.chunks(500).flat_map(|c| alg.grow(c).into_iter().filter(|d| d.cats & N != 0 && !d.exps.is_empty()).step_by(7)).collect() };
    for (i, d) in base.iter().chain(&one).chain(&two).enumerate() {
        if d.cats & N == 0 {
            continue;
        }
        if !d.exps.is_empty() || d.text.contains('\n') {
            add(&d.text, true, &mut docs);
        }
        if q && d.trail.len() > 1 && i % 4 != 0 {
            continue;
        }
        if d.trail.len() > 2 {
            continue;
        }
        for (k, b) in crate::p04::breakages(&d.text).unwrap_or_default().into_iter().enumerate() {
            if q && d.trail.len() > 1 && k % 3 != 0 {
                continue;
            }
            add(&b.text, false, &mut docs);
        }
    }
    for d in MORE {
        add(d, true, &mut docs);
    }
    ctx.note("templates", format!("{}, {} of them with syntax errors", docs.len(), docs.len() - valid.len()));
    for d in docs.iter().step_by(docs.len() / 8) {
        ctx.sample(format!("{d:?}"));
    }
    let lint = |texts: &[String]| -> Vec<Option<Vec<View>>> {
        let out: Vec<std::sync::Mutex<Option<Vec<View>>>> = texts.iter().map(|_| Default::default()).collect();
        run_all(
            texts,
            &cfg,
            Mode::Lint,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                let v: Vec<View> = fo.diags.iter().map(view).collect();
                for x in &v {
                    if let Some(why) = absolute(&texts[i], x) {
                        ctx.violation(&format!("at:{}", texts[i]), &format!("lint of {:?}: {}: {why}", texts[i], x.head), &format!("{:#?}", fo.diags.iter().map(|d| &d.raw).collect::<Vec<_>>()));
                        return;
                    }
                }
                *out[i].lock().unwrap() = Some(v);
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
        out.into_iter().map(|m| m.into_inner().unwrap()).collect()
    };
    let refs = lint(&docs);
    let own = |l: &[&str]| -> Vec<Vec<View>> { lint(&l.iter().map(|s| s.to_string()).collect::<Vec<_>>()).into_iter().map(|v| v.unwrap_or_default()).collect() };
    let before = own(PREFIXES);
    let after = own(SUFFIXES);
    let step = 1;
    for chunk in (0..docs.len()).collect::<Vec<_>>().chunks(20_000) {
        let (mut texts, mut keys) = (vec![], vec![]);
        for &d in chunk {
            for k in 0..PREFIXES.len() {
                // every template behind a part of the prefixes, small templates behind all of them
                if step > 1 && docs[d].len() > 40 && (d + k) % step != 0 {
                    continue;
                }
                texts.push(format!("{}{}", PREFIXES[k], docs[d]));
                keys.push((d, k));
            }
        }
        judge(ctx, &texts, &keys, &refs, &before, &cfg, false, &docs);
        let (mut texts, mut keys) = (vec![], vec![]);
        for &d in chunk.iter().filter(|d| valid.contains(d) && refs[**d].as_ref().is_some_and(|v| !v.iter().any(|v| v.head.contains("SyntaxError")))) {
            for k in 0..SUFFIXES.len() {
                if step > 1 && docs[d].len() > 40 && (d + k) % step != 0 {
                    continue;
                }
                texts.push(format!("{}{}", docs[d], SUFFIXES[k]));
                keys.push((d, k));
            }
        }
        judge(ctx, &texts, &keys, &refs, &after, &cfg, true, &docs);
        if ctx.violation_count() > 3000 {
            return;
        }
    }
    // other blanks between the tokens: the findings stay at their tokens
    let place = |text: &str, v: &[View]| -> Vec<(String, usize)> {
        let ls: Vec<&str> = text.split('\n').collect();
        let mut o: Vec<(String, usize)> = v
            .iter()
            .map(|v| {
                let n: usize = ls[..v.line - 1].iter().map(|l| l.chars().filter(|c| !c.is_whitespace()).count()).sum();
                (v.head.clone(), n + ls[v.line - 1].chars().take(v.col - 1).filter(|c| !c.is_whitespace()).count())
            })
            .collect();
        o.sort();
        o
    };
    for (k, st) in crate::p06::styles().iter().filter(|s| s.open.is_empty() && s.close.is_empty()).enumerate() {
        let (mut texts, mut of) = (vec![], vec![]);
        for &d in &valid {
            let Some(v) = &refs[d] else { continue };
            if v.is_empty() || q && (d + k) % 3 != 0 && docs[d].len() > 30 || v.iter().any(|v| v.head.contains("SyntaxError")) {
                continue;
            }
            let Some((t, _)) = crate::vary::scan(&docs[d]).and_then(|s| s.render(&docs[d], st)) else { continue };
            // (the form of the delimiters stays the same)
            let solid = |t: &str| t.chars().filter(|c| !c.is_whitespace()).count();
            if t != docs[d] && solid(&t) == solid(&docs[d]) {
                texts.push(t);
                of.push(d);
            }
        }
        for (i, g) in lint(&texts).iter().enumerate() {
            let Some(g) = g else { continue };
            ctx.transition(g.len() as u64);
            let (a, b) = (place(&docs[of[i]], refs[of[i]].as_ref().unwrap()), place(&texts[i], g));
            if a != b {
                ctx.violation(&format!("blanks:{}", texts[i]), &format!("the findings of {:?} ({}) are not at the places they have in {:?}", texts[i], st.name, docs[of[i]]), &format!("{a:#?}\n{b:#?}\n{g:#?}"));
            }
        }
    }
    // after a fix the findings that are left have their place in the written file
    let mut texts = vec![];
    for (i, d) in docs.iter().enumerate() {
        for k in [8, 9, 16] {
            if !q || (i + k) % 3 != 0 {
                texts.push(format!("{}{d}", PREFIXES[k]));
            }
        }
    }
    let fixed: Vec<std::sync::Mutex<(String, Vec<View>)>> = texts.iter().map(|_| Default::default()).collect();
    run_all(
        &texts,
        &cfg,
        Mode::Fix,
        |i, fo| {
            ctx.state(1);
            ctx.trace(1);
            *fixed[i].lock().unwrap() = (fo.after.clone().unwrap_or_else(|| texts[i].clone()), fo.diags.iter().map(view).collect());
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
    let fixed: Vec<(String, Vec<View>)> = fixed.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let again = lint(&fixed.iter().map(|f| f.0.clone()).collect::<Vec<_>>());
    for (i, (t, v)) in fixed.iter().enumerate() {
        if let Some(a) = &again[i] {
            if a != v {
                ctx.violation(&format!("fixed:{}", texts[i]), &format!("the findings after --fix of {:?} are not those of the written {t:?}", texts[i]), &format!("{v:#?}\n{a:#?}"));
            }
        }
    }
    // the kind of line ending does not matter
    let with: Vec<usize> = (0..docs.len()).filter(|d| docs[*d].contains('\n') && !docs[*d].contains('\r')).collect();
    let texts: Vec<String> = with.iter().map(|d| docs[*d].replace('\n', "\r\n")).collect();
    let got = lint(&texts);
    for (i, g) in got.iter().enumerate() {
        if let (Some(a), Some(b)) = (&refs[with[i]], g) {
            if a != b {
                ctx.violation(&format!("crlf:{}", texts[i]), &format!("lint of {:?} differs from {:?}", texts[i], docs[with[i]]), &format!("{a:#?}\n{b:#?}"));
            }
        }
    }
}

//! P26: what the report says is what was found and done: the printed syntax tree (--inspect), the
//! names and replacements in the findings, the 'fixed' lines.
use crate::algebra::*;
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::parse::parse;
use crate::vocab;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Mutex;

/// The printed lines of the tree of a text: (depth, kind, range, text of a token).
fn tree_lines(text: &str) -> Option<Vec<(usize, String, usize, usize, Option<String>)>> {
    let p = parse(text).ok()?;
    let mut v = vec![];
    for e in p.tree.descendants_with_tokens() {
        let depth = e.parent().map_or(0, |p| p.ancestors().count());
        let r = e.text_range();
        let t = e.as_token().map(|t| t.text().to_string());
        v.push((depth, format!("{:?}", e.kind()), r.start().into(), r.end().into(), t));
    }
    Some(v)
}

/// Rust's escaped form of a string back to the string.
fn unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            'u' => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            c => o.push(c),
        }
    }
    Some(o)
}

/// Is the note the tree of the text?
fn is_tree_of(note: &str, text: &str) -> Result<(), String> {
    let Some(want) = tree_lines(text) else { return Err("the text can't be parsed".into()) };
    let body: Vec<&str> = note.lines().skip(1).collect();
    if body.len() != want.len() {
        return Err(format!("{} lines are printed for a tree of {} elements", body.len(), want.len()));
    }
    for (l, (depth, kind, a, b, t)) in body.iter().zip(&want) {
        // ` = ` in front of the first line, three blanks in front of the others
        let l = l.strip_prefix(" = ").or_else(|| l.strip_prefix("   ")).unwrap_or(l);
        let ind = l.len() - l.trim_start_matches(' ').len();
        let head = format!("{kind}@{a}..{b}");
        let rest = l.trim_start_matches(' ');
        let Some(rest) = rest.strip_prefix(head.as_str()) else {
            return Err(format!("{l:?} instead of {head}"));
        };
        if ind != 2 * depth {
            return Err(format!("{l:?} is indented by {ind} instead of {}", 2 * depth));
        }
        match t {
            None if rest.is_empty() => {}
            None => return Err(format!("{l:?} instead of {head}")),
            Some(t) => {
                let q = rest.trim_start().strip_prefix('"').and_then(|r| r.strip_suffix('"'));
                let got = q.and_then(unescape).unwrap_or_default();
                // long texts are cut
                let ok = got == *t || (t.len() >= 25 && got.strip_suffix(" ...").is_some_and(|g| g.len() > 20 && t.starts_with(g)));
                if !ok {
                    return Err(format!("{l:?} instead of the text {t:?}"));
                }
            }
        }
    }
    Ok(())
}

const NAMED: &[(&str, &str)] = &[
    ("twig-valid-filter", "unknown twig filter '"),
    ("twig-valid-test", "unknown twig test '"),
    ("twig-valid-function", "unknown twig function '"),
    ("twig-block-duplicate", "'"),
    ("html-duplicate-id", "'"),
    ("twig-variable-definition-naming", "'"),
];

struct Case {
    text: String,
    /// replacement texts by the offset of the only finding of a rule
    new: Vec<(&'static str, Vec<String>)>,
}

/// Run one batch with and without --inspect and judge everything that is printed.
fn judge(ctx: &Ctx, cases: &[Case], fix: bool, rules: &[&'static str]) {
    let refs: Vec<&str> = cases.iter().map(|c| c.text.as_str()).collect();
    let cfg = Cfg::rules(rules);
    let mode = if fix { Mode::Fix } else { Mode::Lint };
    let plain = run_batch(&refs, &cfg, mode, 120);
    let run = run_batch_with(&refs, &cfg, mode, &["-i"], 120);
    for (b, extra) in [(&plain, 0), (&run, cases.len() as u64)] {
        if let Some(why) = batch_problem(&b.run, cases.len()) {
            crate::expect::batch_error(ctx, &cases.iter().map(|c| c.text.clone()).collect::<Vec<_>>(), &b.run, &why);
            return;
        }
        let s = b.run.summary.unwrap();
        if s.info != extra {
            ctx.violation(&format!("info:{}", cases[0].text), &format!("{} infos are counted for {extra} printed trees", s.info), &format!("{s:?}"));
        }
    }
    ctx.state(cases.len() as u64);
    ctx.trace(2 * cases.len() as u64);
    ctx.transition(2 * cases.len() as u64);
    // the trees: they carry no file name, every file has exactly one
    let mut trees: HashMap<String, Vec<&str>> = HashMap::new();
    let mut n_trees = 0;
    for d in run.run.diags.get("").into_iter().flatten() {
        if d.rule == "SyntaxTree" {
            n_trees += 1;
            let mut text = String::new();
            for l in d.raw.lines().skip(1) {
                if let Some((_, t)) = l.split_once(" \"") {
                    text.push_str(&t.strip_suffix('"').and_then(unescape).unwrap_or_default());
                }
            }
            trees.entry(text).or_default().push(&d.raw);
        }
    }
    if n_trees != cases.len() {
        ctx.violation(&format!("trees:{}", cases[0].text), &format!("{n_trees} syntax trees are printed for {} files", cases.len()), "");
    }
    for (i, c) in cases.iter().enumerate() {
        let now = if fix { run.files[i].after.clone().unwrap_or_default() } else { c.text.clone() };
        let what = if fix { "after --fix" } else { "in lint mode" };
        // (the text in the note is cut for long tokens: take the same key)
        let key: String = tree_lines(&now).into_iter().flatten().filter_map(|l| l.4).map(|t| cut(&t)).collect();
        match trees.get(&key) {
            Some(v) => {
                if let Err(e) = is_tree_of(v[0], &now) {
                    ctx.violation(&format!("tree:{}", c.text), &format!("{:?} {what}: the printed tree is wrong: {e}", c.text), v[0]);
                }
            }
            None => ctx.violation(&format!("tree:{}", c.text), &format!("{:?} {what}: no tree with the content of the file ({now:?}) is printed", c.text), ""),
        }
        if run.files[i].diags != plain.files[i].diags || run.files[i].after != plain.files[i].after {
            ctx.violation(&format!("inspect:{}", c.text), &format!("{:?} {what}: --inspect changes the findings or the file", c.text), &format!("{:#?}\n{:#?}", plain.files[i], run.files[i]));
        }
        // names in the findings are those of the place
        let off_of = |l: usize, col: usize| -> usize {
            let mut off = 0;
            for (k, line) in now.split_inclusive('\n').enumerate() {
                if k + 1 == l {
                    off += line.char_indices().nth(col - 1).map_or(line.len(), |x| x.0);
                    break;
                }
                off += line.len();
            }
            off
        };
        for d in &plain.files[i].diags {
            if let Some((_, intro)) = NAMED.iter().find(|n| n.0 == d.rule) {
                let at = &now[off_of(d.line, d.col).min(now.len())..];
                let named = d.raw.split(intro).skip(1).any(|r| {
                    let name = r.split('\'').next().unwrap_or("");
                    !name.is_empty() && at.starts_with(name) && !at[name.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
                });
                if !named {
                    ctx.violation(&format!("name:{}:{}", d.rule, c.text), &format!("{:?} {what}: {} at {}:{} doesn't name what is there", c.text, d.rule, d.line, d.col), &d.raw);
                }
                ctx.outcome(&format!("named {}", d.rule), 1);
            }
        }
        if !fix {
            for (rule, new) in &c.new {
                let ds: Vec<&Diag> = plain.files[i].diags.iter().filter(|d| d.rule == *rule).collect();
                if ds.len() != 1 {
                    continue;
                }
                for n in new {
                    let tail = format!(": {n}");
                    // `===` is replaced together with its right operand
                    let whole = rule.ends_with("same-as");
                    if !ds[0].raw.lines().any(|l| l.trim_end().ends_with(tail.trim_end()) || whole && l.contains(": is ") && l.contains(n.trim())) {
                        ctx.violation(&format!("offer:{rule}:{}", c.text), &format!("{:?}: the finding of {rule} doesn't tell its replacement {n:?}", c.text), &ds[0].raw);
                    }
                }
                ctx.outcome(&format!("offered {rule}"), 1);
            }
        }
    }
    // the `fixed` lines
    for b in [&plain, &run] {
        let mut said: BTreeMap<String, usize> = BTreeMap::new();
        for l in b.run.stdout.lines() {
            if let Some((p, n)) = l.strip_prefix("fixed ").and_then(|l| l.split_once(" in ")) {
                *said.entry(p.to_string()).or_default() += 1;
                let n = n.strip_suffix(" iterations").and_then(|n| n.parse::<usize>().ok()).unwrap_or(0);
                if n == 0 {
                    ctx.violation(&format!("fixed:{l}"), &format!("unexpected line {l:?}"), "");
                }
            }
        }
        for (i, c) in cases.iter().enumerate() {
            let n = said.remove(&format!("t/{}", case_name(i))).unwrap_or(0);
            let changed = b.files[i].after.as_ref().is_some_and(|a| *a != c.text);
            if n != usize::from(changed) {
                ctx.violation(&format!("fixed:{}", c.text), &format!("{:?}: {n} lines say that the file was fixed, the file was {}changed", c.text, if changed { "" } else { "not " }), &format!("{:?}", b.files[i].after));
            }
            ctx.outcome(if changed { "fixed and said" } else { "unchanged" }, 1);
        }
        if let Some((p, n)) = said.into_iter().next() {
            ctx.violation(&format!("fixed:{p}"), &format!("{n} lines say that {p:?} was fixed, there is no such file"), "");
        }
    }
}

/// A token text as it is shown in the tree.
fn cut(t: &str) -> String {
    if t.len() < 25 {
        return t.to_string();
    }
    (21..25).find(|i| t.is_char_boundary(*i)).map_or_else(|| t.to_string(), |i| format!("{} ...", &t[..i]))
}

pub fn p26(ctx: &Ctx) {
    let rules = ALL_RULES.to_vec();
    let usual = non_layout_rules();
    let alg = vocab::all().with_rules(&usual);
    let base = alg.base();
    let mut docs = alg.grow(&base);
    if !ctx.quick() {
        let two: Vec<Doc> = docs.chunks(500).flat_map(|c| alg.grow(c).into_iter().step_by(3)).collect();
        docs.extend(two);
    }
    docs.extend(base);
    let mut seen = HashSet::new();
    let cases = Mutex::new(vec![]);
    for d in &docs {
        if d.cats & N == 0 || !seen.insert(d.text.clone()) {
            continue;
        }
        let mut new = vec![];
        for rule in &usual {
            // several findings of a rule can't be told apart
            if d.nofix || d.exps.iter().filter(|e| e.rule == *rule).count() != 1 {
                continue;
            }
            let v: Vec<String> = d.edits.iter().filter(|e| e.rule == *rule && !e.new.is_empty() && !e.new.contains('\n')).map(|e| e.new.clone()).collect();
            if !v.is_empty() {
                new.push((*rule, v));
            }
        }
        cases.lock().unwrap().push(Case { text: d.text.clone(), new });
    }
    // broken and unusual texts
    let broken = Mutex::new(vec![]);
    for (i, d) in docs.iter().enumerate() {
        if d.cats & N != 0 && (d.trail.len() <= 1 || (!ctx.quick() && i % 5 == 0)) {
            for b in crate::p04::breakages(&d.text).unwrap_or_default() {
                if seen.insert(b.text.clone()) {
                    broken.lock().unwrap().push(Case { text: b.text, new: vec![] });
                }
            }
            for t in [d.text.replace('\n', "\r\n"), format!("{0}\n\n\t \n{0}", d.text), format!("é{}😀\u{a0}\0", d.text), format!("<p>\n{}\n  </p>", d.text)] {
                if seen.insert(t.clone()) {
                    broken.lock().unwrap().push(Case { text: t, new: vec![] });
                }
            }
        }
    }
    // names of every form in every finding that quotes one
    for n in ["A", "AB", "aB", "Ab_c", "a_B", "a1", "A1_", "_a", "long_name_of_Something", "foo_foo", "x", "sw_Foo"] {
        for t in [
            "<p id=\"◆\"></p><p id=\"◆\"></p>",
            "<p id='x-◆'></p>\n<b id='x-◆'>\n</b>",
            "<p id=◆></p><i><p id=◆></p></i>",
            "<p id=\"◆ é 'b'\"></p><p id=\"◆ é 'b'\"></p>",
            "{% block ◆ %}{% endblock %}{% block ◆ %}{% endblock ◆ %}",
            "{% block ◆ %}{% block ◆ %}{% block y %}{% endblock %}{% endblock %}{% endblock %}",
            "{{ a|◆ }}",
            "{{ a|upper|◆(1)|lower }}",
            "{% apply ◆ %}b{% endapply %}",
            "{{ a is ◆ }}",
            "{{ a is not ◆(b) }}",
            "{{ ◆(a) }}",
            "{{ a(◆(b)) }}",
            "{% set ◆ = 1 %}",
            "{% set ◆, y_z = 1, 2 %}",
            "{% set ◆ %}y{% endset %}",
            "{% set ◆ = constant('a') %}",
            "{% for ◆, v_w in z %}{% endfor %}",
        ] {
            let t = t.replace('◆', n);
            if seen.insert(t.clone()) {
                broken.lock().unwrap().push(Case { text: t, new: vec![] });
            }
        }
    }
    let cases = cases.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    ctx.note("templates", format!("{}, broken and unusual ones {}", cases.len(), broken.len()));
    for c in cases.iter().step_by(cases.len() / 6) {
        ctx.sample(format!("{:?}", c.text));
    }
    let chunks: Vec<(&[Case], &[&'static str])> = cases
        .chunks(1500)
        .map(|c| (c, usual.as_slice()))
        .chain(broken.chunks(1500).map(|c| (c, rules.as_slice())))
        .chain(if ctx.quick() { &cases[..cases.len().min(6000)] } else { &cases[..] }.chunks(1500).map(|c| (c, rules.as_slice())))
        .collect();
    numbers(ctx);
    par_for(chunks.len(), 1, |i| {
        judge(ctx, chunks[i].0, false, chunks[i].1);
        judge(ctx, chunks[i].0, true, chunks[i].1);
    });
}

/// First number behind a text.
fn number(raw: &str, intro: &str) -> Option<usize> {
    let (_, r) = raw.split_once(intro)?;
    r.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

const INDENTED: &[&str] = &[
    "<div>\n◆<p>\n◆x\n◆</p>\n◆</div>\n",
    "<div\n◆a=\"b\"\n◆c>\n◆x\n</div>\n",
    "<p>\n◆<custom-element é\n◆{{ a }}\n◆b=\"c\"></custom-element>\n◆</p>\n",
    "{% block é %}\n◆<p>\n◆y</p>\n◆{{ z }}\n{% endblock %}\n",
    "{% if a %}\n◆b\n◆{% else %}\n◆c\n◆{% endif %}\n",
    "{{ f({\n◆a: 1,\n◆b: [\n◆2\n◆] }) }}\n",
    "<p>\n◆<b>\n◆{% for x in y %}\n◆<i>\n</i>\n{% endfor %}\n</b>\n</p>\n",
    "<input {% if a %}\n◆b\n◆{% endif %}\n◆c>\n",
];
const BROKEN_LINES: &[&str] = &[
    "{% block a %}◆x◆{% endblock %}◆y",
    "w◆{% block a %}◆{% block b %}x{% endblock %}◆{% endblock %}◆y",
    "<p>◆{% block a %}x{% endblock %}◆{% block b %}y{% endblock %}◆</p>",
    "{% block a %}x{% endblock %}◆{% block b %}◆<p></p>◆{% endblock %}◆{{ z }}",
];

/// The numbers in the findings about the layout are those of the file and of the fixed file.
fn numbers(ctx: &Ctx) {
    let fill = |t: &str, with: &[&str]| -> Vec<String> {
        let parts: Vec<&str> = t.split('◆').collect();
        let n = parts.len() - 1;
        let total = with.len().pow(n as u32);
        (0..total)
            .map(|mut k| {
                let mut s = parts[0].to_string();
                for p in &parts[1..] {
                    s.push_str(with[k % with.len()]);
                    k /= with.len();
                    s.push_str(p);
                }
                s
            })
            .collect()
    };
    let indents: &[&str] = if ctx.quick() { &["", "  ", "    ", "\t", " \t "] } else { &["", " ", "  ", "    ", "\t", "\t\t", "\t ", " \t ", "        "] };
    let mut jobs: Vec<(Vec<String>, Cfg, char, usize)> = vec![];
    for (mode, c, count) in [("space", ' ', 4), ("space", ' ', 1), ("tab", '\t', 1), ("tab", '\t', 3)] {
        for t in INDENTED {
            let all = fill(t, indents);
            for chunk in all.chunks(2000) {
                let cfg = Cfg::rules(&["indentation"]).fmt("indentation-mode", &format!("\"{mode}\"")).fmt("indentation-count", &count.to_string());
                jobs.push((chunk.to_vec(), cfg, c, count));
            }
        }
    }
    let breaks: &[&str] = if ctx.quick() { &["", "\n", "\n\n", "\n\n\n"] } else { &["", "\n", "\n\n", "\n\n\n", "\n\n\n\n\n", " \n  ", "\r\n"] };
    for ending in ["unix_LF", "windows_CRLF"] {
        for t in BROKEN_LINES {
            for chunk in fill(t, breaks).chunks(2000) {
                jobs.push((chunk.to_vec(), Cfg::rules(&["twig-block-line-breaks"]).fmt("linebreaks-around-blocks", "true").fmt("line-ending", &format!("\"{ending}\"")), 'b', 0));
            }
        }
    }
    par_for(jobs.len(), 1, |j| {
        let (texts, cfg, unit, _) = &jobs[j];
        let refs: Vec<&str> = texts.iter().map(String::as_str).collect();
        let lint = run_batch(&refs, cfg, Mode::Lint, 120);
        let fix = run_batch(&refs, cfg, Mode::Fix, 120);
        for b in [&lint, &fix] {
            if let Some(why) = batch_problem(&b.run, refs.len()) {
                crate::expect::batch_error(ctx, texts, &b.run, &why);
                return;
            }
        }
        ctx.state(refs.len() as u64);
        ctx.transition(2 * refs.len() as u64);
        ctx.trace(2 * refs.len() as u64);
        for (i, t) in texts.iter().enumerate() {
            let after = fix.files[i].after.clone().unwrap_or_default();
            let wrong = |d: &Diag, why: &str| ctx.violation(&format!("number:{t:?}:{}:{}", d.rule, cfg.toml()), &format!("{t:?}: {} at {}:{} {why}", d.rule, d.line, d.col), &format!("{}\n{after}", d.raw));
            if *unit != 'b' {
                for d in &lint.files[i].diags {
                    let lead = |s: &str| s.split('\n').nth(d.line - 1).map(|l| l.chars().take_while(|c| [' ', '\t'].contains(c)).collect::<String>()).unwrap_or_default();
                    let (was, is) = (lead(t), lead(&after));
                    let say = if let Some(x) = number(&d.raw, "Found ") {
                        if x != was.matches(' ').count() || number(&d.raw, " spaces and ") != Some(was.matches('\t').count()) {
                            wrong(d, "doesn't count the blanks of the line");
                        }
                        (number(&d.raw, "expected indentation of "), number(&d.raw, "Change indentation to "))
                    } else {
                        if !was.is_empty() {
                            wrong(d, "says that there is no indentation");
                        }
                        (number(&d.raw, "Expected indentation of "), number(&d.raw, "Add "))
                    };
                    let sub = number(&d.raw, "(+").unwrap_or(0);
                    let n = say.0.unwrap_or(usize::MAX);
                    if say.0 != say.1 || n > 1000 || is != format!("{}{}", unit.to_string().repeat(n), " ".repeat(sub)) {
                        wrong(d, "expects another indentation than --fix makes");
                    }
                    if !d.raw.contains(if *unit == ' ' { " spaces" } else { " tabs" }) {
                        wrong(d, "doesn't tell the unit");
                    }
                    ctx.outcome("indentation in numbers", 1);
                }
            } else if t.chars().all(|c| c != ' ' || !t.contains(" \n")) {
                // the line breaks which --fix adds are those the findings ask for
                let mut want = t.matches('\n').count() as i64;
                let mut odd = false;
                for d in &lint.files[i].diags {
                    let rest = {
                        let mut off = 0;
                        for (k, line) in t.split_inclusive('\n').enumerate() {
                            if k + 1 == d.line {
                                off += line.char_indices().nth(d.col - 1).map_or(line.trim_end_matches(['\r', '\n']).len(), |x| x.0);
                                break;
                            }
                            off += line.len();
                        }
                        &t[off..]
                    };
                    let here: i64 = if d.raw.contains(" here") { rest.chars().take_while(|c| ['\r', '\n'].contains(c)).filter(|c| *c == '\n').count() as i64 } else { 0 };
                    let asked = number(&d.raw, "Expected ");
                    let offered = if d.raw.contains(" here") { number(&d.raw, "Change to ") } else { number(&d.raw, "Add ") };
                    odd |= asked.is_none() || asked != offered;
                    want += asked.unwrap_or(0) as i64 - here;
                }
                let n = after.matches('\n').count() as i64;
                let passes = fix.run.stdout.lines().find_map(|l| l.strip_prefix(&format!("fixed t/{} in ", case_name(i)))).and_then(|l| l.split(' ').next()?.parse::<usize>().ok()).unwrap_or(0);
                if odd || passes <= 1 && n != want {
                    ctx.violation(&format!("breaks:{t:?}:{}", cfg.toml()), &format!("{t:?}: the findings ask for {want} line breaks, --fix makes {n}"), &format!("{:#?}\n{after}", lint.files[i].diags));
                }
                ctx.outcome("line breaks in numbers", lint.files[i].diags.len() as u64);
            }
        }
    });
}

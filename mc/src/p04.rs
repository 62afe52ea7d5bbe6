//! P04: a template that lost a required part is reported.
use crate::algebra::*;
use crate::cli::*;
use crate::core::{par_for, Ctx};
use crate::parse::*;
use crate::vary::*;
use crate::vocab;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Broken {
    pub text: String,
    /// start of the construct that was broken
    pub from: usize,
    pub what: String,
}

#[derive(Debug)]
struct Holder {
    start: usize,
    end: usize,
    open: &'static str,
    word: String,
    word_at: usize,
    toks: Vec<(usize, String)>,
    close_at: usize,
}

#[derive(Debug)]
struct Tag {
    start: usize,
    end: usize,
    name: String,
    closing: bool,
    selfclosing: bool,
    quotes: Vec<usize>,
}

const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr",
];

fn holders(text: &str) -> Option<Vec<Holder>> {
    let sc = scan(text)?;
    let mut v: Vec<Holder> = vec![];
    let mut i = 0;
    let mut open = false;
    for s in &sc.segs {
        match s {
            Seg::Open(d) => {
                v.push(Holder { start: i, end: 0, open: d, word: String::new(), word_at: 0, toks: vec![], close_at: 0 });
                open = true;
                i += 2;
                if text[i..].starts_with(['-', '~']) {
                    i += 1;
                }
            }
            Seg::Close(d) => {
                let h = v.last_mut()?;
                h.close_at = i;
                if !text[i..].starts_with(d) {
                    i += 1;
                }
                i += 2;
                h.end = i;
                open = false;
            }
            Seg::Tok(t) => {
                if open {
                    let h = v.last_mut()?;
                    if h.toks.is_empty() {
                        h.word = t.clone();
                        h.word_at = i;
                    }
                    h.toks.push((i, t.clone()));
                }
                i += t.len();
            }
            Seg::Text(t) | Seg::Gap(t) | Seg::HGap(t, _) => i += t.len(),
        }
    }
    (i == text.len()).then_some(v)
}

/// Start and end of comments and doctypes.
fn tags(text: &str, hs: &[Holder]) -> (Vec<Tag>, Vec<(usize, usize)>) {
    // twig code is masked
    let mut m: Vec<u8> = text.as_bytes().to_vec();
    for h in hs {
        m[h.start..h.end].fill(b'_');
    }
    let mut v: Vec<Tag> = vec![];
    let mut others = vec![];
    let mut i = 0;
    let mut raw: Option<String> = None;
    while i < m.len() {
        let r = &m[i..];
        if r.starts_with(b"<!--") {
            let n = r.windows(3).position(|w| w == b"-->").map_or(r.len(), |x| x + 3);
            if raw.is_none() {
                others.push((i, i + n));
            }
            i += n;
            continue;
        }
        if raw.is_none() && r.starts_with(b"<!") {
            let n = r.iter().position(|w| *w == b'>').map_or(r.len(), |x| x + 1);
            others.push((i, i + n));
            i += n;
            continue;
        }
        let closing = r.starts_with(b"</");
        let s = if closing { 2 } else { 1 };
        if r[0] != b'<' || r.len() <= s || !r[s].is_ascii_alphabetic() {
            i += 1;
            continue;
        }
        let n = (s..r.len()).find(|k| !(r[*k].is_ascii_alphanumeric() || b"-:_".contains(&r[*k]))).unwrap_or(r.len());
        let name = String::from_utf8_lossy(&r[s..n]).into_owned();
        if raw.as_ref().is_some_and(|x| !closing || !x.eq_ignore_ascii_case(&name)) {
            i += 1;
            continue;
        }
        raw = None;
        let mut k = n;
        let mut quotes = vec![];
        let mut q = 0u8;
        while k < r.len() {
            let c = r[k];
            if q != 0 {
                if c == q {
                    q = 0;
                    quotes.push(i + k);
                }
            } else if c == b'"' || c == b'\'' {
                q = c;
                quotes.push(i + k);
            } else if c == b'>' {
                break;
            }
            k += 1;
        }
        let selfclosing = k > 0 && r.get(k - 1) == Some(&b'/') || VOID.contains(&name.to_lowercase().as_str());
        if !closing && !selfclosing && ["script", "style", "textarea", "title"].contains(&name.to_lowercase().as_str()) {
            raw = Some(name.clone());
        }
        v.push(Tag { start: i, end: i + k + 1, name, closing, selfclosing, quotes });
        i += k + 1;
    }
    (v, others)
}

fn cut(t: &str, a: usize, b: usize, with: &str) -> String {
    format!("{}{with}{}", &t[..a], &t[b..])
}

fn is_end(w: &str) -> bool {
    w.starts_with("end") || w == "sw_end_embed"
}

/// Whether a tag with this word is written with a body.
fn has_body(h: &Holder) -> bool {
    let t: Vec<&str> = h.toks.iter().map(|t| t.1.as_str()).collect();
    match h.word.as_str() {
        "set" => !t.contains(&"="),
        "block" => t.len() <= 2,
        _ => true,
    }
}

/// Every way to break the template.
pub fn breakages(text: &str) -> Option<Vec<Broken>> {
    let hs = holders(text)?;
    let (ts, others) = tags(text, &hs);
    let mut v = vec![];
    let mut add = |text: String, from: usize, what: String| v.push(Broken { text, from, what });

    // twig pairs
    let mut pair: Vec<Option<usize>> = vec![None; hs.len()];
    let mut stack: Vec<usize> = vec![];
    for (i, h) in hs.iter().enumerate() {
        if h.open == "{%" && is_end(&h.word) {
            // the opening tag is the last one of this kind
            let name = if h.word == "sw_end_embed" { "sw_embed" } else { &h.word[3..] };
            let p = stack.iter().rposition(|s| hs[*s].word == name)?;
            let o = stack[p];
            stack.truncate(p);
            pair[i] = Some(o);
            pair[o] = Some(i);
        } else if h.open == "{%" && has_body(h) {
            stack.push(i);
        }
    }
    for (i, h) in hs.iter().enumerate() {
        let close = &text[h.close_at..h.end];
        let from = match pair[i] {
            Some(p) if is_end(&h.word) => hs[p].start,
            _ => h.start,
        };
        add(cut(text, h.close_at, h.end, ""), h.start, format!("without {close}"));
        for c in ["}}", "%}", "#}"] {
            if !close.ends_with(c) && h.open != "{#" {
                add(cut(text, h.close_at, h.end, c), h.start, format!("{c} instead of {close}"));
            }
        }
        // an else without its delimiter is plain text (and the template is
        // valid without it)
        if h.open == "{%" && pair[i].is_some() {
            let bytes = h.word_at - h.start;
            add(cut(text, h.start, h.start + bytes, ""), from, format!("without the {{% of {}", h.word));
            add(cut(text, h.start, h.start + bytes, "{{ "), from, format!("{{{{ instead of the {{% of {}", h.word));
        }
        if pair[i].is_some() {
            if is_end(&h.word) {
                add(cut(text, h.start, h.end, ""), from, format!("without {}", &text[h.start..h.end]));
                for w in ["endif", "endfor", "endblock", "endset", "endfoo", "foo", "if", ""] {
                    if w != h.word {
                        add(cut(text, h.word_at, h.word_at + h.word.len(), w), from, format!("{w:?} instead of {}", h.word));
                    }
                }
                // a second one behind it
                add(cut(text, h.end, h.end, &text[h.start..h.end]), from, format!("{} twice", &text[h.start..h.end]));
            } else {
                add(cut(text, h.start, h.end, ""), h.start, format!("without {}", &text[h.start..h.end]));
            }
        }
        for (at, t) in h.toks.iter() {
            let e = at + t.len();
            match t.as_str() {
                "(" | "[" | "{" => {
                    add(cut(text, *at, e, ""), h.start, format!("without {t} in {:?}", &text[h.start..h.end]));
                }
                ")" | "]" | "}" => {
                    add(cut(text, *at, e, ""), h.start, format!("without {t} in {:?}", &text[h.start..h.end]));
                    for o in [")", "]", "}"] {
                        if o != t {
                            add(cut(text, *at, e, &format!("{o} ")), h.start, format!("{o} instead of {t} in {:?}", &text[h.start..h.end]));
                        }
                    }
                    add(cut(text, e, e, t), h.start, format!("{t}{t} in {:?}", &text[h.start..h.end]));
                }
                x if x.starts_with(['\'', '"']) => {
                    add(cut(text, *at, at + 1, ""), h.start, format!("without the first quote of {x}"));
                    add(cut(text, e - 1, e, ""), h.start, format!("without the last quote of {x}"));
                    let o = if x.starts_with('\'') { "\"" } else { "'" };
                    add(cut(text, e - 1, e, o), h.start, format!("{o} as the last quote of {x}"));
                }
                _ => {}
            }
        }
    }
    // html comments and doctypes; without a part of its start it is a text
    for (a, b) in &others {
        let close = if text[*a..].starts_with("<!--") { "-->" } else { ">" };
        if !text[*a..*b].ends_with(close) {
            continue;
        }
        // the next one would end it
        if !text[*b..].contains(close) {
            for n in 1..=close.len() {
                add(cut(text, b - n, *b, ""), *a, format!("without the last {n} characters of {close}"));
                add(cut(text, b - n, *b, " }"), *a, format!("}} instead of the last {n} characters of {close}"));
            }
        }
    }
    // html pairs
    let mut stack: Vec<usize> = vec![];
    let mut pair: Vec<Option<usize>> = vec![None; ts.len()];
    for (i, t) in ts.iter().enumerate() {
        if t.closing {
            let o = stack.pop()?;
            if ts[o].name != t.name {
                return None;
            }
            pair[i] = Some(o);
            pair[o] = Some(i);
        } else if !t.selfclosing {
            stack.push(i);
        }
    }
    for (i, t) in ts.iter().enumerate() {
        let src = &text[t.start..t.end];
        let n = t.name.len();
        if t.closing {
            let from = ts[pair[i]?].start;
            add(cut(text, t.start, t.end, ""), from, format!("without {src}"));
            add(cut(text, t.start, t.start + 2, ""), from, format!("without the </ of {src}"));
            add(cut(text, t.start, t.start + 2, "<"), from, format!("< instead of </ in {src}"));
            add(cut(text, t.end - 1, t.end, ""), from, format!("without the > of {src}"));
            for w in ["zz", "i", "br", ""] {
                if w != t.name {
                    add(cut(text, t.start + 2, t.start + 2 + n, w), from, format!("{w:?} instead of the name in {src}"));
                }
            }
            add(cut(text, t.end, t.end, src), from, format!("{src} twice"));
        } else {
            if !t.selfclosing {
                add(cut(text, t.start, t.end, ""), t.start, format!("without {src}"));
                add(cut(text, t.start, t.start + 1, ""), t.start, format!("without the < of {src}"));
                for w in ["zz", "i"] {
                    if w != t.name {
                        add(cut(text, t.start + 1, t.start + 1 + n, w), t.start, format!("{w:?} instead of the name in {src}"));
                    }
                }
            }
            add(cut(text, t.end - 1, t.end, ""), t.start, format!("without the > of {src}"));
            for q in &t.quotes {
                add(cut(text, *q, q + 1, ""), t.start, format!("without the quote at {} of {src}", q - t.start));
            }
        }
    }
    Some(v)
}

pub fn p04(ctx: &Ctx) {
    quiet_panics();
    let alg = vocab::all();
    let base = alg.base();
    let one = alg.grow(&base);
    let kept: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    crate::elements::broken(ctx);
    let check = |docs: &[Doc], keep: usize| {
        par_for(docs.len(), 4, |i| {
            let d = &docs[i];
            if d.cats & N == 0 {
                return;
            }
            let Some(bs) = breakages(&d.text) else {
                ctx.outcome("not analysed", 1);
                return;
            };
            for (k, b) in bs.iter().enumerate() {
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                match parse(&b.text) {
                    Err(e) => ctx.violation(&format!("broken:{}", b.text), &format!("{:?}: {e}", b.text), &b.text),
                    Ok(p) => match p.errors.first() {
                        None => ctx.violation(
                            &format!("broken:{}", b.text),
                            &format!("{:?} ({:?} {}) is accepted", b.text, d.text, b.what),
                            &b.text,
                        ),
                        Some(_) => {
                            let (a, _, e) = p.errors.iter().min_by_key(|e| e.0).unwrap();
                            if *a < b.text[..b.from.min(b.text.len())].trim_end().len() {
                                ctx.violation(
                                    &format!("early:{}", b.text),
                                    &format!("{:?} ({:?} {}): the broken part starts at byte {}, the first error is at {a}: {e}", b.text, d.text, b.what, b.from),
                                    &b.text,
                                );
                            } else if keep > 0 && (i + k) % keep == 0 {
                                kept.lock().unwrap().push((b.text.clone(), b.what.clone()));
                            }
                        }
                    },
                }
            }
        });
    };
    check(&base, 1);
    check(&one, if ctx.quick() { 20 } else { 2 });
    if !ctx.quick() {
        for c in one.chunks(2000) {
            check(&alg.grow(c), 0);
            if ctx.violation_count() > 500 {
                return;
            }
        }
    }

    // the real binary
    let mut kept = kept.into_inner().unwrap();
    kept.sort();
    kept.dedup();
    for (t, w) in kept.iter().step_by((kept.len() / 10).max(1)) {
        ctx.sample(format!("{t}   [{w}]"));
    }
    let texts: Vec<String> = kept.iter().map(|x| x.0.clone()).collect();
    run_all(
        &texts,
        &Cfg::rules(&[]),
        Mode::Lint,
        |i, fo| {
            ctx.state(1);
            ctx.trace(1);
            let n = fo.diags.iter().filter(|d| d.rule == "SyntaxError" && d.sev == 'E').count();
            ctx.outcome(&format!("{} errors printed", n.min(5)), 1);
            if n == 0 {
                ctx.violation(&format!("run:{}", texts[i]), &format!("ludtwig reports no SyntaxError for {:?}", texts[i]), &texts[i]);
            }
        },
        |c, run, why| {
            crate::expect::batch_error(ctx, c, run, &why);
        },
    );
    // exit code of single runs
    let n = if ctx.quick() { 1500 } else { 20000 };
    let single: Vec<&String> = texts.iter().step_by((texts.len() / n).max(1)).collect();
    par_for(single.len(), 4, |i| {
        for mode in [Mode::Lint, Mode::Fix] {
            let b = run_batch(&[single[i]], &Cfg::rules(&[]), mode, 20);
            ctx.state(1);
            ctx.trace(1);
            if b.run.code != Some(1) {
                ctx.violation(&format!("exit:{}", single[i]), &format!("exit code {:?} ({mode:?}) for {:?}", b.run.code, single[i]), single[i]);
            }
        }
    });
}

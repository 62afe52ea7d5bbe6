//! P12: the layout rules accept exactly the documented layout, and --fix produces it.
//!
//! A template is a sequence of atoms (text without whitespace) with a gap between every two of
//! them. The model knows for every gap how deep it is nested, whether it belongs to protected
//! text, which rules are switched off there and how many line breaks a block demands. It then
//! predicts all findings and the fixed text for an arbitrary choice of whitespace in the gaps.
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::batch_error;
use crate::forest::{forests, Forest};
use std::sync::Mutex;

#[derive(Clone, Debug)]
struct Fmt {
    crlf: bool,
    tab: bool,
    count: usize,
    children: bool,
    around: bool,
}

impl Fmt {
    fn cfg(&self) -> Cfg {
        Cfg::rules(LAYOUT_RULES)
            .fmt("line-ending", if self.crlf { "\"windows_CRLF\"" } else { "\"unix_LF\"" })
            .fmt("indentation-mode", if self.tab { "\"tab\"" } else { "\"space\"" })
            .fmt("indentation-count", &self.count.to_string())
            .fmt("indent-children-of-blocks", if self.children { "true" } else { "false" })
            .fmt("linebreaks-around-blocks", if self.around { "true" } else { "false" })
    }
    fn nl(&self) -> &'static str {
        if self.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
    fn name(&self) -> String {
        format!("{}{}{}{}{}", if self.crlf { "crlf " } else { "lf " }, if self.tab { "tab" } else { "space" }, self.count, if self.children { " children" } else { "" }, if self.around { " around" } else { "" })
    }
}

fn formats() -> Vec<Fmt> {
    let mut v = vec![];
    for (tab, count) in [(false, 4), (true, 1), (false, 2), (false, 0), (true, 2), (false, 11)] {
        for crlf in [false, true] {
            for children in [true, false] {
                for around in [true, false] {
                    v.push(Fmt { crlf, tab, count, children, around });
                }
            }
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Leaf,
    Comment,
    Block,
}

/// (source, kind, rules switched off for the next sibling)
///
/// `_` gap (not empty), `·` gap, `⇥ ⇤` one level deeper, `⇒ ⇐` the same for the children of
/// blocks, `⊕n; ⊖n;` aligned n characters further, `« »` protected text, `◆` the children
type Label = (&'static str, Kind, Option<&'static [&'static str]>);

const NONE: Option<&[&str]> = None;

fn core_labels() -> Vec<Label> {
    use Kind::*;
    vec![
        ("·x", Leaf, NONE),
        ("·<hr·>", Leaf, NONE),
        ("·{#_c_#}", Comment, NONE),
        ("·{%_block_q_%}⇒◆⇐·{%_endblock_%}", Block, NONE),
        ("·<div·>⇥◆⇤·</div·>", Leaf, NONE),
        ("·{%_if_a_%}⇥◆⇤·{%_endif_%}", Leaf, NONE),
        ("«·<pre·>◆·</pre·>»", Leaf, NONE),
    ]
}

fn labels() -> Vec<Label> {
    use Kind::*;
    let mut v = core_labels();
    v.extend([
        ("·{{_f⇥(·a·,·b·)⇤·}}", Leaf, NONE),
        ("·{{_[⇥·1·,·{⇥·k·:·v⇤·}·,·2⇤·]·|·g⇥(·(·c·)·)⇤·}}", Leaf, NONE),
        ("·{{_'«·a_b·»'·~_\"«·#{·c·}·»\"·}}", Leaf, NONE),
        ("·{{_a·?_b·:_c_and_d·}}", Leaf, NONE),
        ("·<!--_c_d_-->", Comment, NONE),
        ("·<a⊕3;_b=\"«·c_d·»\"_e⊖3;·>⇥◆⇤·</a·>", Leaf, NONE),
        ("·<img⊕5;_b=\"c\"_{{·d·}}_{%_if_a_%}⇥·e=\"«{{_f⇥(·g·)⇤·}}»\"⇤·{%_else_%}⇥·h⇤·{%_endif_%}⊖5;·/>", Leaf, NONE),
        ("·<twig:foo⊕10;_a=\"b\"⊖10;·>⇥◆⇤·</twig:foo·>", Leaf, NONE),
        ("·<Di-V2⊕7;_b-c=\"d\"_e⊖7;·>⇥◆⇤·</Di-V2·>", Leaf, NONE),
        ("·<twig:A:Bc⊕11;_:d=\"«e»\"_{#_c_#}_@f⊖11;·/>", Leaf, NONE),
        ("·{%_if_a_%}⇥·y⇤·{%_elseif_b_%}⇥◆⇤·{%_else_%}⇥◆⇤·{%_endif_%}", Leaf, NONE),
        ("·{%_for_x_in_y_%}⇥◆⇤·{%_else_%}⇥·z⇤·{%_endfor_%}", Leaf, NONE),
        ("·{%_set_x_%}⇥◆⇤·{%_endset_%}", Leaf, NONE),
        ("·{%_set_x·=·{⇥·a·:·1·,·b·:·[⇥·c⇤·]⇤·}_%}", Leaf, NONE),
        ("·{%_macro_m⇥(·a·,·b·=·1·)⇤_%}⇥◆⇤·{%_endmacro_%}", Leaf, NONE),
        ("·{%_embed_'e'_with_{⇥·a·:·1⇤·}_%}⇥◆⇤·{%_endembed_%}", Leaf, NONE),
        ("·{%_include_'e'_with_{⇥·a·:·1⇤·}_only_%}", Leaf, NONE),
        ("·{%_apply_upper_%}⇥◆⇤·{%_endapply_%}", Leaf, NONE),
        ("·{%_verbatim_%}⇥◆⇤·{%_endverbatim_%}", Leaf, NONE),
        ("·{%_sw_silent_feature_call_'x'_%}⇥◆⇤·{%_endsw_silent_feature_call_%}".replace_sw(), Leaf, NONE),
        ("·{%_props⇥_a⇤·,⇥_b·=·1⇤_%}", Leaf, NONE),
        ("«·<script·>·a_b·;·</script·>»", Leaf, NONE),
        ("«·<style_c=\"d\"·>·a_{·b·}·</style·>»", Leaf, NONE),
        ("«·<textarea·>·a_{%_if_b_%}·c·{%_endif_%}·</textarea·>»", Leaf, NONE),
        ("·{%_block_q_'a'_%}", Leaf, NONE),
        ("·{#_ludtwig-ignore_#}", Comment, Some(&[])),
        ("·{#_ludtwig-ignore_indentation_#}", Comment, Some(&["indentation"])),
        ("·{#_ludtwig-ignore_twig-block-line-breaks,_line-ending_#}", Comment, Some(&["twig-block-line-breaks", "line-ending"])),
        ("·{#_ludtwig-ignore_whitespace-between-line-breaks_#}", Comment, Some(&["whitespace-between-line-breaks"])),
        ("·<!--_ludtwig-ignore_indentation,_line-ending_-->", Comment, Some(&["indentation", "line-ending"])),
        ("·{#_ludtwig-ignore-file_html-string-quotation_#}", Comment, NONE),
        ("·<!--_ludtwig-ignore-file_twig-string-quotation_-->", Comment, NONE),
    ]);
    v
}

trait ReplaceSw {
    fn replace_sw(self) -> &'static str;
}
impl ReplaceSw for &'static str {
    /// names with underscores
    fn replace_sw(self) -> &'static str {
        let s = self.replace("sw_silent_feature_call", "sw\u{1}silent\u{1}feature\u{1}call");
        Box::leak(s.into_boxed_str())
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Gap {
    needs: bool, // at least one blank
    level: usize,
    block_level: usize, // levels that depend on indent-children-of-blocks
    sub: usize,
    sensitive: bool,
    off: Vec<&'static str>, // rules switched off here
    all_off: bool,
    want: Option<usize>, // 1: one line break, 2: one or two (linebreaks-around-blocks)
}

#[derive(Clone, Debug, Default)]
struct Model {
    gaps: Vec<Gap>, // gaps[i] is in front of atoms[i], the last one is at the end of the file
    atoms: Vec<String>,
}

struct Build<'a> {
    fo: &'a Forest,
    lab: &'a [Label],
    m: Model,
    cur: Gap,
    text: String,
}

impl Build<'_> {
    fn children(&self, parent: Option<usize>) -> Vec<usize> {
        let (from, depth) = match parent {
            None => (0, 0),
            Some(p) => (p + 1, self.fo[p].0 + 1),
        };
        let mut v = vec![];
        for i in from..self.fo.len() {
            if self.fo[i].0 < depth {
                break;
            }
            if self.fo[i].0 == depth {
                v.push(i);
            }
        }
        v
    }

    fn flush(&mut self) {
        if !self.text.is_empty() {
            let t = std::mem::take(&mut self.text).replace('\u{1}', "_");
            self.m.atoms.push(t);
        }
    }

    fn body(&mut self, parent: Option<usize>) {
        let kids = self.children(parent);
        let kind = |i: usize| self.lab[self.fo[kids[i]].1 as usize].1;
        // the gaps in front of / behind the children with the demand of a block
        let n = kids.len();
        let mut want: Vec<Option<usize>> = vec![None; n + 1];
        let disabled: Vec<bool> = (0..n)
            .map(|i| {
                i > 0
                    && match self.lab[self.fo[kids[i - 1]].1 as usize].2 {
                        Some(r) => r.is_empty() || r.contains(&"twig-block-line-breaks"),
                        None => false,
                    }
            })
            .collect();
        for i in 0..n {
            if kind(i) != Kind::Block || disabled[i] || self.cur.all_off || self.cur.off.contains(&"twig-block-line-breaks") || self.cur.sensitive {
                continue;
            }
            let comment_before = i > 0 && kind(i - 1) == Kind::Comment;
            let prev = if comment_before { i.checked_sub(2) } else { i.checked_sub(1) };
            if parent.is_none() && prev.is_none() {
                continue;
            }
            let at = if comment_before { i - 1 } else { i };
            want[at] = Some(if prev.is_some() { 2 } else { 1 });
            let comment_after = i + 1 < n && kind(i + 1) == Kind::Comment;
            let next = if comment_after { i + 2 } else { i + 1 };
            if next < n && kind(next) == Kind::Block {
                continue;
            }
            want[i + 1] = Some(if i + 1 < n { 2 } else { 1 });
        }
        for (k, i) in kids.iter().enumerate() {
            let save = (self.cur.off.clone(), self.cur.all_off);
            if k > 0 {
                if let Some(r) = self.lab[self.fo[kids[k - 1]].1 as usize].2 {
                    if r.is_empty() {
                        self.cur.all_off = true;
                    } else {
                        self.cur.off.extend(r);
                    }
                }
            }
            self.cur.want = want[k];
            self.node(*i);
            (self.cur.off, self.cur.all_off) = save;
        }
        // (consumed by the next gap)
        self.cur.want = want[n];
    }

    fn node(&mut self, i: usize) {
        let src = self.lab[self.fo[i].1 as usize].0;
        let mut it = src.chars();
        while let Some(c) = it.next() {
            match c {
                '⊕' | '⊖' => {
                    let d: String = it.by_ref().take_while(|c| *c != ';').collect();
                    let d: usize = d.parse().unwrap();
                    if c == '⊕' {
                        self.cur.sub += d
                    } else {
                        self.cur.sub -= d
                    }
                }
                '⇥' => self.cur.level += 1,
                '⇤' => self.cur.level -= 1,
                '⇒' => self.cur.block_level += 1,
                '⇐' => self.cur.block_level -= 1,
                '«' => self.cur.sensitive = true,
                '»' => self.cur.sensitive = self.outer_sensitive(i),
                '_' | '·' => {
                    self.flush();
                    let mut g = self.cur.clone();
                    g.needs = c == '_';
                    self.cur.want = None;
                    self.m.gaps.push(g);
                }
                '◆' => self.body(Some(i)),
                c => self.text.push(c),
            }
        }
        self.flush();
    }

    fn outer_sensitive(&self, i: usize) -> bool {
        // inside of another protected element?
        let mut d = self.fo[i].0;
        for j in (0..i).rev() {
            if self.fo[j].0 < d {
                d = self.fo[j].0;
                if self.lab[self.fo[j].1 as usize].0.starts_with('«') {
                    return true;
                }
            }
        }
        // strings inside of a protected element are followed by more of the element
        false
    }
}

fn model(fo: &Forest, lab: &[Label]) -> Model {
    let mut b = Build { fo, lab, m: Model::default(), cur: Gap::default(), text: String::new() };
    b.body(None);
    b.flush();
    let last = Gap { want: b.cur.want, ..Gap::default() };
    b.m.gaps.push(last);
    assert_eq!(b.m.gaps.len(), b.m.atoms.len() + 1, "{fo:?}");
    b.m
}

#[derive(Clone, PartialEq, Debug)]
enum Piece {
    Ws(String),
    Lb(String),
}

fn pieces(g: &str) -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    for c in g.chars() {
        let lb = c == '\n' || c == '\r';
        match (v.last_mut(), lb) {
            (Some(Piece::Lb(s)), true) => s.push(c),
            (Some(Piece::Ws(s)), false) => s.push(c),
            (_, true) => v.push(Piece::Lb(c.to_string())),
            (_, false) => v.push(Piece::Ws(c.to_string())),
        }
    }
    v
}

impl Model {
    fn indent(&self, i: usize, f: &Fmt) -> String {
        let g = &self.gaps[i];
        let n = (g.level + if f.children { g.block_level } else { 0 }) * f.count;
        let c = if f.tab { "\t" } else { " " };
        c.repeat(n) + &" ".repeat(g.sub)
    }
    fn want(&self, i: usize, f: &Fmt) -> Option<usize> {
        self.gaps[i].want.map(|w| if w == 2 && !f.around { 1 } else { w })
    }
    fn is_last(&self, i: usize) -> bool {
        i == self.atoms.len()
    }
    fn off(&self, i: usize, rule: &str) -> bool {
        let g = &self.gaps[i];
        g.all_off || g.off.contains(&rule)
    }

    fn render(&self, gaps: &[String]) -> String {
        let mut s = String::new();
        for i in 0..gaps.len() {
            s.push_str(&gaps[i]);
            if i < self.atoms.len() {
                s.push_str(&self.atoms[i]);
            }
        }
        s
    }

    /// All findings (rule, offset).
    fn findings(&self, gaps: &[String], f: &Fmt) -> Vec<(&'static str, usize)> {
        let mut out = vec![];
        let mut at = 0;
        for (i, gap) in gaps.iter().enumerate() {
            let g = &self.gaps[i];
            let ps = pieces(gap);
            if let Some(n) = self.want(i, f) {
                // (at the end of the file: nothing demanded if there is nothing)
                let ok = match ps.first() {
                    Some(Piece::Lb(s)) => *s == f.nl().repeat(n),
                    Some(_) => false,
                    None => self.is_last(i),
                };
                if !ok {
                    out.push(("twig-block-line-breaks", at));
                }
            }
            let mut line_start = i == 0;
            let mut o = at;
            for (k, p) in ps.iter().enumerate() {
                match p {
                    Piece::Lb(s) => {
                        line_start = true;
                        if !self.off(i, "line-ending") {
                            let mut prev = ' ';
                            for (j, c) in s.char_indices() {
                                if c == '\n' && (prev == '\r') != f.crlf {
                                    out.push(("line-ending", o + j - (prev == '\r') as usize));
                                }
                                prev = c;
                            }
                        }
                        if !g.sensitive && !self.off(i, "whitespace-between-line-breaks") && matches!(ps.get(k + 2), Some(Piece::Lb(_))) {
                            out.push(("whitespace-between-line-breaks", o + s.len()));
                        }
                        o += s.len();
                    }
                    Piece::Ws(s) => {
                        if line_start && !g.sensitive && !self.off(i, "indentation") && *s != self.indent(i, f) {
                            out.push(("indentation", o));
                        }
                        line_start = false;
                        o += s.len();
                    }
                }
            }
            if line_start && !self.is_last(i) && !g.sensitive && !self.off(i, "indentation") && !self.indent(i, f).is_empty() {
                out.push(("indentation", o));
            }
            at += gap.len();
            if i < self.atoms.len() {
                at += self.atoms[i].len();
            }
        }
        out
    }

    /// The whitespace after --fix.
    fn fixed_gap(&self, i: usize, gap: &str, f: &Fmt) -> String {
        let g = &self.gaps[i];
        let mut cur = gap.to_string();
        loop {
            let mut ps = pieces(&cur);
            if let Some(n) = self.want(i, f) {
                let nl = f.nl().repeat(n);
                match ps.first_mut() {
                    Some(Piece::Lb(s)) => *s = nl,
                    Some(_) => ps.insert(0, Piece::Lb(nl)),
                    None if self.is_last(i) => {}
                    None => ps.push(Piece::Lb(nl)),
                }
            }
            if !self.off(i, "line-ending") {
                for p in &mut ps {
                    if let Piece::Lb(s) = p {
                        *s = s.replace('\r', "").replace('\n', f.nl());
                    }
                }
            }
            if !g.sensitive && !self.off(i, "whitespace-between-line-breaks") {
                for k in 1..ps.len().saturating_sub(1) {
                    if matches!((&ps[k - 1], &ps[k + 1]), (Piece::Lb(_), Piece::Lb(_))) {
                        ps[k] = Piece::Ws(String::new());
                    }
                }
            }
            if !g.sensitive && !self.off(i, "indentation") {
                // every line that has something on it (blanks or the next atom)
                let ind = self.indent(i, f);
                let mut start = i == 0;
                let mut res: Vec<Piece> = vec![];
                for p in ps {
                    match p {
                        Piece::Lb(_) => {
                            start = true;
                            res.push(p);
                        }
                        Piece::Ws(s) if s.is_empty() => res.push(Piece::Ws(s)),
                        Piece::Ws(_) if start => {
                            res.push(Piece::Ws(ind.clone()));
                            start = false;
                        }
                        Piece::Ws(_) => res.push(p),
                    }
                }
                if start && !self.is_last(i) {
                    res.push(Piece::Ws(ind));
                }
                ps = res;
            }
            let next: String = ps
                .iter()
                .map(|p| match p {
                    Piece::Ws(s) | Piece::Lb(s) => s.as_str(),
                })
                .collect();
            if next == cur {
                return cur;
            }
            cur = next;
        }
    }

    fn fixed(&self, gaps: &[String], f: &Fmt) -> String {
        let g: Vec<String> = gaps.iter().enumerate().map(|(i, s)| self.fixed_gap(i, s, f)).collect();
        self.render(&g)
    }

    /// The gaps of a tidy file: nodes on lines of their own.
    fn tidy(&self, f: &Fmt, multi: bool) -> Vec<String> {
        (0..self.gaps.len())
            .map(|i| {
                let g = &self.gaps[i];
                if i == 0 {
                    return String::new();
                }
                if let Some(n) = self.want(i, f) {
                    return f.nl().repeat(n) + &self.indent(i, f).repeat((!self.is_last(i)) as usize);
                }
                if self.is_last(i) {
                    return f.nl().to_string();
                }
                if multi {
                    return f.nl().to_string() + &self.indent(i, f);
                }
                if g.needs {
                    " ".into()
                } else {
                    String::new()
                }
            })
            .collect()
    }
}

struct Case {
    text: String,
    want: Vec<(&'static str, usize)>,
    fixed: String,
}

fn fill(m: &Model, g: &[String]) -> Vec<String> {
    g.iter().enumerate().map(|(i, s)| if s.is_empty() && m.gaps[i].needs { " ".to_string() } else { s.clone() }).collect()
}

fn check(ctx: &Ctx, cases: &[Case], f: &Fmt) {
    let cfg = f.cfg();
    let texts: Vec<String> = cases.iter().map(|c| c.text.clone()).collect();
    let positions = |t: &str, w: &[(&'static str, usize)]| -> Vec<(usize, usize, String)> {
        let mut v: Vec<(usize, usize, String)> = w
            .iter()
            .map(|(r, o)| {
                let (l, c) = line_col(t, *o);
                (l, c, r.to_string())
            })
            .collect();
        v.sort();
        v
    };
    let fail = |i: usize, why: String| {
        let t = &texts[i];
        ctx.violation(&format!("{}: {t:?}", f.name()), &format!("{t:?} ({}): {why}", f.name()), &format!("{t}\n\n{}", cfg.toml()));
    };
    run_all(
        &texts,
        &cfg,
        Mode::Lint,
        |i, fo| {
            ctx.state(1);
            ctx.transition(1);
            ctx.trace(1);
            let want = positions(&texts[i], &cases[i].want);
            let mut got: Vec<(usize, usize, String)> = fo.diags.iter().map(|d| (d.line, d.col, d.rule.clone())).collect();
            got.sort();
            let mut kinds: Vec<&str> = cases[i].want.iter().map(|w| w.0).collect();
            kinds.sort();
            kinds.dedup();
            ctx.outcome(&kinds.join(" "), 1);
            // (warnings for line endings, help for everything else)
            if let Some(d) = fo.diags.iter().find(|d| d.sev != if d.rule == "line-ending" { 'W' } else { 'H' }) {
                fail(i, format!("severity of {:?}", d.raw));
            }
            if got != want {
                let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
                let more: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
                fail(i, format!("missing {miss:?}, unexpected {more:?}"));
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
    run_all(
        &texts,
        &cfg,
        Mode::Fix,
        |i, fo| {
            ctx.transition(1);
            ctx.trace(1);
            let after = fo.after.as_deref().unwrap_or("");
            if after != cases[i].fixed {
                fail(i, format!("--fix gives {after:?}\n   instead of {:?}", cases[i].fixed));
            }
            if !fo.diags.is_empty() {
                fail(i, format!("--fix leaves findings {:?}", fo.diags[0].raw));
            }
        },
        |c, run, why| batch_error(ctx, c, run, &why),
    );
}

const GAPS: &[&str] = &[
    "", " ", "\t", "\n", "\n\n", "\n ", "\n    ", "\n\t", "\r\n", "\r\n\r\n", "\n\r\n ", " \n", "\n \n", "\n\t\n\n    ", "  \n\n\n        ", "\r\n  \r\n\t",
];

pub fn p12(ctx: &Ctx) {
    let all = labels();
    let core = core_labels();
    let leafs = |l: &[Label]| -> Vec<bool> { l.iter().map(|l| !l.0.contains('◆')).collect() };
    let usable = |fo: &Forest, lab: &[Label]| -> bool {
        // two neighbouring texts are one text
        let text = |i: usize| lab[fo[i].1 as usize].0 == "·x";
        // a directive without anything behind it
        if lab[fo[(0..fo.len()).rev().find(|i| fo[*i].0 == 0).unwrap()].1 as usize].2.is_some() {
            return false;
        }
        for i in 0..fo.len() {
            if text(i) {
                if let Some(j) = (i + 1..fo.len()).find(|j| fo[*j].0 <= fo[i].0) {
                    if fo[j].0 == fo[i].0 && text(j) {
                        return false;
                    }
                }
            }
        }
        true
    };
    let collect = |n: usize, lab: &[Label], depth: usize| -> Vec<Model> {
        let mut v = vec![];
        forests(n, &leafs(lab), depth, &mut |fo| {
            if usable(fo, lab) {
                v.push(model(fo, lab));
            }
        });
        v
    };
    let quick = ctx.quick();
    let fmts = formats();
    let buf: Mutex<Vec<Vec<Case>>> = Mutex::new(fmts.iter().map(|_| vec![]).collect());
    let flush = |min: usize| {
        let mut b = buf.lock().unwrap();
        for (k, v) in b.iter_mut().enumerate() {
            if v.len() > min {
                check(ctx, v, &fmts[k]);
                v.clear();
            }
        }
    };
    let add = |m: &Model, gaps: &[String], k: usize| {
        let f = &fmts[k];
        let gaps = fill(m, gaps);
        let text = m.render(&gaps);
        if text.len() > 4000 {
            return;
        }
        let c = Case { want: m.findings(&gaps, f), fixed: m.fixed(&gaps, f), text };
        buf.lock().unwrap()[k].push(c);
    };
    let n_f = fmts.len();

    // A: every label alone, every pair: every format, uniform gaps, every single gap
    let one = collect(1, &all, 1);
    let two = collect(2, &all, 2);
    for (k, m) in one.iter().enumerate().step_by(4) {
        let f = &fmts[k % n_f];
        ctx.sample(format!("{:?} ({})", m.render(&m.tidy(f, true)), f.name()));
    }
    // `per` formats (rotating) for every single other gap
    let vary = |s: usize, m: &Model, per: usize, pick: &dyn Fn(usize, usize) -> bool, multis: &[bool]| {
        for multi in multis {
            let tidy: Vec<Vec<String>> = fmts.iter().map(|f| m.tidy(f, *multi)).collect();
            for i in 0..m.gaps.len() {
                for (x, g) in GAPS.iter().enumerate() {
                    if !pick(i, x) {
                        continue;
                    }
                    for r in 0..per {
                        let k = (s * 7 + i * 5 + x * 11 + r * (n_f / per)) % n_f;
                        let mut u = tidy[k].clone();
                        u[i] = g.to_string();
                        add(m, &u, k);
                    }
                }
            }
        }
    };
    let uniform = |s: usize, m: &Model, per: usize, pick: &dyn Fn(usize) -> bool| {
        for (x, g) in GAPS.iter().enumerate().filter(|x| pick(x.0)) {
            for r in 0..per {
                let k = (s * 7 + x * 11 + r * (n_f / per)) % n_f;
                let u: Vec<String> = m.gaps.iter().map(|_| g.to_string()).collect();
                add(m, &u, k);
            }
        }
        for r in 0..per {
            let k = (s * 7 + r * (n_f / per)) % n_f;
            for multi in [false, true] {
                add(m, &m.tidy(&fmts[k], multi), k);
            }
        }
    };
    for (s, m) in one.iter().chain(&two).enumerate() {
        let per = if s < one.len() { n_f } else if quick { 1 } else { 8 };
        vary(s, m, per, &|_, _| true, &[false, true]);
        uniform(s, m, per.max(2), &|_| true);
        flush(30000);
        if ctx.violation_count() > 1000 {
            return;
        }
    }
    flush(0);
    // every sequence of line breaks, in every gap of single labels
    let mut runs: Vec<String> = vec![];
    let mut row = vec![String::new()];
    for _ in 0..if quick { 6 } else { 7 } {
        row = row.iter().flat_map(|r| [format!("{r}\n"), format!("{r}\r\n")]).collect();
        runs.extend(row.iter().cloned());
    }
    for (s, m) in one.iter().enumerate() {
        if s % if quick { 5 } else { 2 } > 0 {
            continue;
        }
        for i in 0..m.gaps.len() {
            for (x, g) in runs.iter().enumerate() {
                let k = (s * 7 + i * 5 + x * 11) % n_f;
                let mut u = m.tidy(&fmts[k], x % 2 == 0);
                u[i] = g.clone();
                add(m, &u, k);
            }
        }
        flush(30000);
    }
    // two neighbouring gaps at once
    for (s, m) in one.iter().enumerate() {
        for i in 1..m.gaps.len() {
            for (x, g) in GAPS.iter().enumerate() {
                for (y, h) in GAPS.iter().enumerate() {
                    let k = (s * 7 + i * 5 + x * 11 + y * 13) % n_f;
                    let mut u = m.tidy(&fmts[k], (x + y) % 2 == 0);
                    u[i - 1] = g.to_string();
                    u[i] = h.to_string();
                    add(m, &u, k);
                }
            }
        }
        flush(30000);
    }
    flush(0);

    // B: forests of the core labels: uniform gaps, tidy with one other gap
    let max = if quick { 4 } else { 5 };
    for n in 3..=max {
        let forests = collect(n, &core, if n == 5 { 5 } else { 3 });
        ctx.note(&format!("forests of {n} nodes"), forests.len().to_string());
        for (s, m) in forests.iter().enumerate() {
            // demands of blocks and the gaps next to them
            let near = |i: usize| (i.saturating_sub(1)..=i + 1).any(|j| m.gaps.get(j).is_some_and(|g| g.want.is_some()));
            if n == 3 {
                vary(s, m, if quick { 1 } else { 6 }, &|_, _| true, &[false, true]);
                uniform(s, m, if quick { 1 } else { 6 }, &|_| true);
            } else if n == 4 {
                vary(s, m, 1, &|i, x| if quick { near(i) && (x + s + i) % 16 == 0 } else { (x + s + i) % 4 == 0 }, &[true]);
                uniform(s, m, 1, &|x| (x + s) % (if quick { 8 } else { 2 }) == 0);
            } else {
                vary(s, m, 1, &|i, x| near(i) && (x + s + i) % 64 == 0, &[true]);
                uniform(s, m, 1, &|x| (x + s) % 16 == 0);
            }
            flush(30000);
            if ctx.violation_count() > 1000 {
                return;
            }
        }
    }
    flush(0);

    // C: every kind of comment between blocks, texts and elements
    for comment in all.iter().filter(|l| l.1 == Kind::Comment) {
        let lab: Vec<Label> = vec![core[0], core[4], core[3], *comment];
        for n in 3..=4 {
            let forests = collect(n, &lab, 3);
            ctx.note(&format!("forests of {n} nodes with {}", comment.0), forests.len().to_string());
            for (s, m) in forests.iter().enumerate() {
                let near = |i: usize| (i.saturating_sub(1)..=i + 1).any(|j| m.gaps.get(j).is_some_and(|g| g.want.is_some()));
                let sparse = if n == 3 { 1 } else { 32 } * if quick { 4 } else { 1 };
                vary(s, m, 1, &|i, x| near(i) && (x + s + i) % sparse == 0, &[true]);
                uniform(s, m, 1, &|x| (x + s) % sparse == 0);
                flush(30000);
            }
        }
    }
    flush(0);
}

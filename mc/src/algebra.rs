//! Compositional reference model of Twig/HTML templates.
//!
//! A *snippet* is a piece of template text that carries, in mark-up, everything the linter must say
//! about it (rule, position), what `--fix` must turn it into, and which ids / blocks it defines.
//! A *context* is a snippet with a hole.  Composing both composes text and expectations, so the
//! expected outcome of every generated template is known by construction, independent of the code.
//!
//! Mark-up:  ◆ hole   «!rr» finding that stays after --fix   «!rr*» finding removed by --fix
//! «!rr?» finding removed by --fix iff the hole's fixed text contains no `"`
//! «old→new» text replaced by --fix   «old→?new» the same, under the same condition
//! «id=x» the next bytes are a static id value   «bl=x» / «bl=x>y» block name (y after --fix)

pub const E: u16 = 1; // any twig expression
pub const P: u16 = 2; // expression usable as an operand
pub const N: u16 = 4; // node content
pub const A: u16 = 8; // attribute list item
pub const V: u16 = 16; // html attribute value content
pub const R: u16 = 32; // raw text content
pub const TW: u16 = N | A | V | R;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Exp {
    pub rule: &'static str,
    pub off: usize,
    pub stays: bool,
}

/// A piece of text that `--fix` must replace, and the rule responsible for it.
#[derive(Clone, Debug)]
pub struct Edit {
    pub off: usize,
    pub len: usize,
    pub new: String,
    pub rule: &'static str,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub block: bool,
    pub name: String,
    pub off: usize,
    pub fname: String,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub cats: u16,
    pub text: String,
    pub exps: Vec<Exp>,
    pub edits: Vec<Edit>,
    pub defs: Vec<Def>,
    /// number of top level syntax elements is exactly one (needed for ludtwig-ignore scoping)
    pub single: bool,
    /// contains a construct whose fix is a known finding (probed separately)
    pub nofix: bool,
    /// names of what it was composed of (for the reports)
    pub trail: Vec<u16>,
}

#[derive(Clone, Debug)]
enum Piece {
    Text(String),
    Repl(String, String, bool), // old, new, conditional
    Exp(&'static str, u8),      // 0 stays, 1 gone, 2 conditional
    Def(bool, String, String),
    Hole,
}

#[derive(Clone, Debug)]
pub struct Tmpl {
    pub src: &'static str,
    pieces: Vec<Piece>,
    pub accept: u16,
    /// result categories; if `same`, intersected with the hole's
    pub gives: u16,
    pub same: bool,
    pub is_ctx: bool,
    /// rules whose findings inside the hole are suppressed by this context ("*" = all)
    pub suppress: Vec<&'static str>,
    pub needs_single: bool,
    pub single: bool,
    pub nofix: bool,
}

pub fn code(c: &str) -> (&'static str, char) {
    match c {
        "bn" => ("twig-block-name-snake-case", 'H'),
        "kc" => ("html-attribute-name-kebab-case", 'H'),
        "an" => ("twig-logic-and", 'E'),
        "or" => ("twig-logic-or", 'E'),
        "sq" => ("twig-string-quotation", 'H'),
        "hq" => ("html-string-quotation", 'H'),
        "hk" => ("twig-hash-key-no-quotes", 'H'),
        "sa" => ("twig-use-is-same-as", 'E'),
        "ns" => ("twig-use-is-not-same-as", 'E'),
        "ex" => ("twig-prefer-shopware-extends", 'W'),
        "bd" => ("twig-block-duplicate", 'E'),
        "je" => ("twig-json-encode-escape-js", 'W'),
        "di" => ("html-duplicate-id", 'W'),
        "vn" => ("twig-variable-definition-naming", 'H'),
        "vf" => ("twig-valid-filter", 'W'),
        "vt" => ("twig-valid-test", 'W'),
        "vu" => ("twig-valid-function", 'W'),
        "if" => ("ludtwig-ignore-file-not-on-top", 'E'),
        _ => panic!("unknown rule code {c}"),
    }
}

pub fn severity(rule: &str) -> char {
    for c in [
        "bn", "kc", "an", "or", "sq", "hq", "hk", "sa", "ns", "ex", "bd", "je", "di", "vn", "vf",
        "vt", "vu", "if",
    ] {
        let (r, s) = code(c);
        if r == rule {
            return s;
        }
    }
    panic!("no severity for {rule}")
}

impl Tmpl {
    fn parse(src: &'static str) -> Self {
        let mut pieces = vec![];
        let mut rest = src;
        let mut buf = String::new();
        let mut is_ctx = false;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix('◆') {
                if !buf.is_empty() {
                    pieces.push(Piece::Text(std::mem::take(&mut buf)));
                }
                pieces.push(Piece::Hole);
                is_ctx = true;
                rest = r;
            } else if let Some(r) = rest.strip_prefix('«') {
                if !buf.is_empty() {
                    pieces.push(Piece::Text(std::mem::take(&mut buf)));
                }
                let (m, r) = r.split_once('»').expect("unclosed mark-up");
                rest = r;
                if let Some(c) = m.strip_prefix('!').filter(|_| !m.contains('→')) {
                    let (c, k) = if let Some(c) = c.strip_suffix('*') {
                        (c, 1)
                    } else if let Some(c) = c.strip_suffix('?') {
                        (c, 2)
                    } else {
                        (c, 0)
                    };
                    pieces.push(Piece::Exp(code(c).0, k));
                } else if let Some(n) = m.strip_prefix("id=") {
                    pieces.push(Piece::Def(false, n.to_string(), n.to_string()));
                } else if let Some(n) = m.strip_prefix("bl=") {
                    let (a, b) = n.split_once('>').unwrap_or((n, n));
                    pieces.push(Piece::Def(true, a.to_string(), b.to_string()));
                } else if let Some((a, b)) = m.split_once('→') {
                    if let Some(b) = b.strip_prefix('?') {
                        pieces.push(Piece::Repl(a.to_string(), b.to_string(), true));
                    } else {
                        pieces.push(Piece::Repl(a.to_string(), b.to_string(), false));
                    }
                } else {
                    panic!("bad mark-up {m} in {src}");
                }
            } else {
                let c = rest.chars().next().unwrap();
                buf.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
        if !buf.is_empty() {
            pieces.push(Piece::Text(buf));
        }
        Tmpl {
            src,
            pieces,
            accept: 0,
            gives: 0,
            same: false,
            is_ctx,
            suppress: vec![],
            needs_single: false,
            single: true,
            nofix: false,
        }
    }

    pub fn snip(cats: u16, src: &'static str) -> Self {
        let mut t = Self::parse(src);
        assert!(!t.is_ctx, "{src}");
        t.gives = cats;
        t
    }

    pub fn ctx(accept: u16, gives: u16, src: &'static str) -> Self {
        let mut t = Self::parse(src);
        assert!(t.is_ctx, "{src}");
        t.accept = accept;
        t.gives = gives;
        t
    }

    /// context usable in all positions of `cats`, the hole being in the same kind of position
    pub fn same(cats: u16, src: &'static str) -> Self {
        let mut t = Self::ctx(cats, cats, src);
        t.same = true;
        t
    }

    /// the same template with its source text mapped (mark-up included)
    pub fn mapped(&self, f: &dyn Fn(&str) -> String) -> Self {
        let t = Self::parse(Box::leak(f(self.src).into_boxed_str()));
        Tmpl {
            src: t.src,
            pieces: t.pieces,
            ..self.clone()
        }
    }

    pub fn suppress(mut self, r: &[&str]) -> Self {
        self.suppress = r
            .iter()
            .map(|c| if *c == "*" { "*" } else { code(c).0 })
            .collect();
        self
    }

    /// byte offset of the hole in the composed text
    pub fn hole_at(&self) -> usize {
        let mut n = 0;
        for p in &self.pieces {
            match p {
                Piece::Text(t) => n += t.len(),
                Piece::Repl(a, _, _) => n += a.len(),
                Piece::Hole => return n,
                _ => {}
            }
        }
        n
    }

    pub fn multi(mut self) -> Self {
        self.single = false;
        self
    }
    pub fn nofix(mut self) -> Self {
        self.nofix = true;
        self
    }
    pub fn needs_single(mut self) -> Self {
        self.needs_single = true;
        self
    }

    pub fn accepts(&self, d: &Doc) -> bool {
        d.cats & self.accept != 0 && (!self.needs_single || d.single)
    }

    /// plain text of the template with the hole replaced
    pub fn apply(&self, hole: Option<&Doc>, id: u16, active: &dyn Fn(&str) -> bool) -> Doc {
        let mut out = Doc {
            cats: self.gives,
            single: self.single,
            nofix: self.nofix,
            ..Default::default()
        };
        if let Some(h) = hole {
            out.nofix |= h.nofix;
            let usable = h.cats & self.accept;
            if self.same {
                out.cats = usable & self.gives;
            }
            out.trail.reserve(h.trail.len() + 1);
        }
        out.trail.push(id);
        if let Some(h) = hole {
            out.trail.extend_from_slice(&h.trail);
        }
        let cond = hole.is_none_or(|h| !h.text.contains('"') || !h.fixed().contains('"'));
        let mut cur = "";
        for p in &self.pieces {
            match p {
                Piece::Text(t) => {
                    out.text.push_str(t);
                }
                Piece::Repl(a, b, c) => {
                    if (!*c || cond) && active(cur) {
                        out.edits.push(Edit {
                            off: out.text.len(),
                            len: a.len(),
                            new: b.clone(),
                            rule: cur,
                        });
                    }
                    out.text.push_str(a);
                }
                Piece::Exp(rule, k) => {
                    cur = rule;
                    if active(rule) {
                        out.exps.push(Exp {
                            rule,
                            off: out.text.len(),
                            stays: *k == 0 || (*k == 2 && !cond),
                        });
                    }
                }
                Piece::Def(block, a, b) => {
                    if active(if *block { "twig-block-duplicate" } else { "html-duplicate-id" }) {
                        out.defs.push(Def {
                            block: *block,
                            name: a.clone(),
                            off: out.text.len(),
                            fname: if active("twig-block-name-snake-case") { b } else { a }.clone(),
                        });
                    }
                }
                Piece::Hole => {
                    out.append(hole.expect("context needs a hole"), &self.suppress);
                }
            }
        }
        out
    }
}

/// Concatenate documents of the same category (siblings).
pub fn concat(parts: &[&Doc], sep: &str) -> Doc {
    let mut out = Doc {
        cats: parts.iter().fold(u16::MAX, |a, d| a & d.cats),
        single: parts.len() == 1 && parts[0].single,
        ..Default::default()
    };
    for (i, h) in parts.iter().enumerate() {
        if i > 0 {
            out.text.push_str(sep);
        }
        out.trail.extend_from_slice(&h.trail);
        out.nofix |= h.nofix;
        out.append(h, &[]);
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Want {
    pub off: usize,
    pub rule: &'static str,
}

impl Doc {
    /// Append the content of `h`; findings of suppressed rules disappear (with their fixes).
    pub fn append(&mut self, h: &Doc, suppress: &[&'static str]) {
        let o = self.text.len();
        self.text.push_str(&h.text);
        if suppress.contains(&"*") {
            return;
        }
        for e in &h.exps {
            if !suppress.contains(&e.rule) {
                self.exps.push(Exp {
                    off: e.off + o,
                    ..e.clone()
                });
            }
        }
        for e in &h.edits {
            if !suppress.contains(&e.rule) {
                self.edits.push(Edit {
                    off: e.off + o,
                    ..e.clone()
                });
            }
        }
        for d in &h.defs {
            if suppress.contains(if d.block { &"twig-block-duplicate" } else { &"html-duplicate-id" }) {
                continue;
            }
            let mut d = d.clone();
            d.off += o;
            if suppress.contains(&"twig-block-name-snake-case") {
                d.fname = d.name.clone();
            }
            self.defs.push(d);
        }
    }

    /// the text after `--fix`
    pub fn fixed(&self) -> String {
        let mut s = String::with_capacity(self.text.len() + 16);
        let mut pos = 0;
        for e in &self.edits {
            s.push_str(&self.text[pos..e.off]);
            s.push_str(&e.new);
            pos = e.off + e.len;
        }
        s.push_str(&self.text[pos..]);
        s
    }

    fn foff(&self, p: usize) -> usize {
        let mut r = p;
        for e in &self.edits {
            if e.off + e.len <= p {
                r = r + e.new.len() - e.len;
            }
        }
        r
    }

    /// all findings the linter must report for the original text, sorted by offset
    pub fn want(&self) -> Vec<Want> {
        let mut w: Vec<Want> = self
            .exps
            .iter()
            .map(|e| Want {
                off: e.off,
                rule: e.rule,
            })
            .collect();
        let mut defs: Vec<(usize, bool, &str)> = self
            .defs
            .iter()
            .map(|d| (d.off, d.block, d.name.as_str()))
            .collect();
        dup_wants(&mut defs, &mut w);
        w.sort();
        w
    }

    /// all findings that must remain after `--fix`
    pub fn want_fixed(&self) -> Vec<Want> {
        let mut w: Vec<Want> = self
            .exps
            .iter()
            .filter(|e| e.stays)
            .map(|e| Want {
                off: self.foff(e.off),
                rule: e.rule,
            })
            .collect();
        let mut defs: Vec<(usize, bool, &str)> = self
            .defs
            .iter()
            .map(|d| (self.foff(d.off), d.block, d.fname.as_str()))
            .collect();
        dup_wants(&mut defs, &mut w);
        w.sort();
        w
    }
}

fn dup_wants(defs: &mut [(usize, bool, &str)], w: &mut Vec<Want>) {
    defs.sort();
    let mut seen = std::collections::HashSet::new();
    for (off, block, name) in defs.iter() {
        if !seen.insert((*block, *name)) {
            w.push(Want {
                off: *off,
                rule: if *block {
                    "twig-block-duplicate"
                } else {
                    "html-duplicate-id"
                },
            });
        }
    }
}

pub struct Algebra {
    pub t: Vec<Tmpl>,
    pub snips: Vec<u16>,
    pub ctxs: Vec<u16>,
    /// active rules; `None` = all
    pub active: Option<Vec<&'static str>>,
}

impl Algebra {
    pub fn new(t: Vec<Tmpl>) -> Self {
        let snips = (0..t.len() as u16).filter(|i| !t[*i as usize].is_ctx).collect();
        let ctxs = (0..t.len() as u16).filter(|i| t[*i as usize].is_ctx).collect();
        Algebra {
            t,
            snips,
            ctxs,
            active: None,
        }
    }

    pub fn with_rules(mut self, rules: &[&'static str]) -> Self {
        self.active = Some(rules.to_vec());
        self
    }

    fn is_active(&self, rule: &str) -> bool {
        self.active.as_ref().is_none_or(|a| a.iter().any(|r| *r == rule))
    }

    pub fn base(&self) -> Vec<Doc> {
        self.snips
            .iter()
            .map(|i| self.t[*i as usize].apply(None, *i, &|r| self.is_active(r)))
            .collect()
    }

    pub fn put(&self, c: u16, d: &Doc) -> Doc {
        self.t[c as usize].apply(Some(d), c, &|r| self.is_active(r))
    }

    pub fn grow(&self, docs: &[Doc]) -> Vec<Doc> {
        let mut out = vec![];
        for d in docs {
            for c in &self.ctxs {
                if self.t[*c as usize].accepts(d) {
                    out.push(self.put(*c, d));
                }
            }
        }
        out
    }

    /// all documents with exactly `depth` contexts around a snippet
    pub fn level(&self, depth: usize) -> Vec<Doc> {
        let mut d = self.base();
        for _ in 0..depth {
            d = self.grow(&d);
        }
        d
    }

    pub fn describe(&self, d: &Doc) -> String {
        d.trail
            .iter()
            .map(|i| self.t.get(*i as usize).map_or("…", |t| t.src))
            .collect::<Vec<_>>()
            .join("  ∘  ")
    }
}

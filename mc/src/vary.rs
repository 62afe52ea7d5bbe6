//! Rewrites a (valid) template without changing its meaning: whitespace-control forms of the
//! delimiters, other whitespace between tokens. Works on the text alone, with its own scanner.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    /// copied as it is
    Text(String),
    /// opening / closing delimiter without modifier
    Open(&'static str),
    Close(&'static str),
    /// token of twig code
    Tok(String),
    /// blanks (possibly none) between two parts of twig code
    Gap(String),
    /// blanks between the attributes of an html tag / in front of its end; never empty unless `true`
    HGap(String, bool),
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub segs: Vec<Seg>,
}

const OPS: &[&str] = &[
    "...", "===", "!==", "<=>", "..", "**", "//", "==", "!=", "<=", ">=", "&&", "||", "??", "?:", "=>",
];
const TWO_WORDS: &[(&str, &str)] = &[
    ("not", "in"),
    ("is", "not"),
    ("starts", "with"),
    ("ends", "with"),
    ("same", "as"),
    ("divisible", "by"),
    ("ignore", "missing"),
    ("has", "some"),
    ("has", "every"),
];
const RAW: &[&str] = &["script", "style", "textarea", "title"];

pub fn scan(text: &str) -> Option<Scan> {
    let mut s = Scan { segs: vec![] };
    let end = s.text(text, 0, &|_| false)?;
    (end == text.len()).then_some(s)
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

impl Scan {
    fn push(&mut self, t: &str) {
        if let Some(Seg::Text(x)) = self.segs.last_mut() {
            x.push_str(t);
        } else {
            self.segs.push(Seg::Text(t.to_string()));
        }
    }

    /// template text up to the position where `stop` holds
    fn text(&mut self, t: &str, mut i: usize, stop: &dyn Fn(&str) -> bool) -> Option<usize> {
        while i < t.len() {
            let r = &t[i..];
            if stop(r) {
                return Some(i);
            }
            if r.starts_with("{#") || r.starts_with("{{") || r.starts_with("{%") {
                i = self.twig(t, i)?;
            } else if r.starts_with("<!--") {
                let e = r.find("-->")? + 3;
                self.push(&r[..e]);
                i += e;
            } else if r.starts_with("</") || r.starts_with('<') && r[1..].starts_with(|c: char| c.is_ascii_alphabetic()) {
                i = self.tag(t, i)?;
            } else {
                let c = r.chars().next()?;
                self.push(&r[..c.len_utf8()]);
                i += c.len_utf8();
            }
        }
        Some(i)
    }

    fn tag(&mut self, t: &str, i: usize) -> Option<usize> {
        let r = &t[i..];
        let closing = r.starts_with("</");
        let start = if closing { 2 } else { 1 };
        let n = r[start..].find(|c: char| !(c.is_alphanumeric() || c == '-' || c == ':' || c == '_'))? + start;
        let name = r[start..n].to_lowercase();
        self.push(&r[..n]);
        let mut i = i + n;
        loop {
            let r = &t[i..];
            let ws = r.len() - r.trim_start().len();
            if ws > 0 {
                let opt = r.trim_start().starts_with(['>', '=']) || r.trim_start().starts_with("/>") || t[..i].ends_with('=');
                self.segs.push(Seg::HGap(r[..ws].to_string(), opt));
                i += ws;
                continue;
            }
            if r.starts_with("/>") {
                self.hgap0();
                self.push("/>");
                return Some(i + 2);
            }
            if r.starts_with('>') {
                self.hgap0();
                self.push(">");
                i += 1;
                break;
            }
            if r.starts_with("{{") || r.starts_with("{%") || r.starts_with("{#") {
                i = self.twig(t, i)?;
                continue;
            }
            let c = r.chars().next()?;
            if c == '=' {
                // blanks around the equals sign
                self.hgap0();
                self.push("=");
                i += 1;
                if !t[i..].starts_with(char::is_whitespace) {
                    self.hgap0();
                }
                continue;
            }
            if c == '"' || c == '\'' {
                self.push(&r[..1]);
                i = self.value(t, i + 1, c)?;
                continue;
            }
            self.push(&r[..c.len_utf8()]);
            i += c.len_utf8();
        }
        if !closing && RAW.contains(&name.as_str()) {
            // raw text: only twig inside
            let end = format!("</{name}");
            while i < t.len() {
                let r = &t[i..];
                if r.len() >= end.len() && r.is_char_boundary(end.len()) && r[..end.len()].eq_ignore_ascii_case(&end) && !is_word(r[end.len()..].chars().next().unwrap_or(' ')) {
                    break;
                }
                if r.starts_with("{#") || r.starts_with("{{") || r.starts_with("{%") {
                    i = self.twig(t, i)?;
                } else {
                    let c = r.chars().next()?;
                    self.push(&r[..c.len_utf8()]);
                    i += c.len_utf8();
                }
            }
        }
        Some(i)
    }

    fn hgap0(&mut self) {
        if !matches!(self.segs.last(), Some(Seg::HGap(..))) {
            self.segs.push(Seg::HGap(String::new(), true));
        }
    }

    fn value(&mut self, t: &str, mut i: usize, q: char) -> Option<usize> {
        loop {
            let r = &t[i..];
            let c = r.chars().next()?;
            if c == q {
                self.push(&r[..1]);
                return Some(i + 1);
            }
            if r.starts_with("{{") || r.starts_with("{%") || r.starts_with("{#") {
                i = self.twig(t, i)?;
                continue;
            }
            self.push(&r[..c.len_utf8()]);
            i += c.len_utf8();
        }
    }

    fn twig(&mut self, t: &str, i: usize) -> Option<usize> {
        let r = &t[i..];
        let (open, close) = match &r[..2] {
            "{{" => ("{{", "}}"),
            "{%" => ("{%", "%}"),
            _ => ("{#", "#}"),
        };
        let mut i = i + 2;
        self.segs.push(Seg::Open(open));
        if t[i..].starts_with(['-', '~']) && !(open == "{#" && t[i..].starts_with("-#}")) {
            i += 1;
        }
        if open == "{#" {
            let e = t[i..].find("#}")?;
            let mut body = &t[i..i + e];
            if body.ends_with(['-', '~']) {
                body = &body[..body.len() - 1];
            }
            self.segs.push(Seg::Text(body.to_string()));
            self.segs.push(Seg::Close(close));
            return Some(i + e + 2);
        }
        let mut depth = 0;
        let mut prev: Option<String> = None;
        loop {
            let r = &t[i..];
            let ws = r.len() - r.trim_start().len();
            let after = &r[ws..];
            let plain = after.strip_prefix(['-', '~']).filter(|x| x.starts_with(close)).unwrap_or(after);
            let ends = depth == 0 && plain.starts_with(close);
            let tok = if ends { String::new() } else { token(after)? };
            // words that belong together
            let fixed = prev.as_ref().is_some_and(|p| TWO_WORDS.contains(&(p.as_str(), tok.as_str())));
            if fixed {
                let n = self.segs.len();
                if let Seg::Tok(x) = &mut self.segs[n - 1] {
                    x.push_str(&r[..ws]);
                    x.push_str(&tok);
                }
            } else {
                self.segs.push(Seg::Gap(r[..ws].to_string()));
            }
            if ends {
                self.segs.push(Seg::Close(close));
                return Some(t.len() - plain.len() + 2);
            }
            match tok.as_str() {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => depth -= 1,
                _ => {}
            }
            i += ws + tok.len();
            if !fixed {
                self.segs.push(Seg::Tok(tok.clone()));
                prev = Some(tok);
            } else {
                prev = None;
            }
        }
    }
}

/// first token of twig code; a string is one token
fn token(r: &str) -> Option<String> {
    let c = r.chars().next()?;
    if c == '"' || c == '\'' {
        let mut it = r.char_indices().skip(1).peekable();
        let mut inter = 0;
        while let Some((k, x)) = it.next() {
            if x == '\\' {
                it.next();
            } else if c == '"' && r[k..].starts_with("#{") {
                inter += 1;
            } else if inter > 0 {
                if x == '}' {
                    inter -= 1;
                }
            } else if x == c {
                return Some(r[..k + 1].to_string());
            }
        }
        return None;
    }
    if c.is_ascii_digit() {
        let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        if r[n..].starts_with('.') && r[n + 1..].starts_with(|c: char| c.is_ascii_digit()) {
            let m = r[n + 1..].find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len() - n - 1);
            return Some(r[..n + 1 + m].to_string());
        }
        return Some(r[..n].to_string());
    }
    for w in ["b-and", "b-or", "b-xor"] {
        if r.starts_with(w) && !r[w.len()..].starts_with(is_word) {
            return Some(w.to_string());
        }
    }
    if is_word(c) {
        let n = r.find(|c: char| !is_word(c)).unwrap_or(r.len());
        return Some(r[..n].to_string());
    }
    if let Some(o) = OPS.iter().find(|o| r.starts_with(**o)) {
        return Some(o.to_string());
    }
    Some(r[..c.len_utf8()].to_string())
}

/// May the blanks between these two parts of twig code be left out without changing the tokens?
/// `None` stands for a delimiter.
fn tight(a: Option<&str>, b: Option<&str>, modifier: bool) -> bool {
    let wordy = |s: &str| s.chars().all(is_word) || s.starts_with(['\'', '"']);
    let kw = |s: &str| matches!(s, "not" | "in" | "is" | "and" | "or" | "matches" | "b-and" | "b-or" | "b-xor") || s.contains(' ');
    match (a, b) {
        (None, Some(x)) | (Some(x), None) => wordy(x) && !kw(x) && (!modifier || !x.is_empty()),
        (Some(a), Some(b)) => {
            if kw(a) || kw(b) || wordy(a) == wordy(b) {
                return false;
            }
            let p = if wordy(a) { b } else { a };
            matches!(p, "(" | ")" | "[" | "]" | "," | "|" | "+" | "*" | "==" | "!=" | "===" | "!==" | "&&" | "||" | "=" | "~" | "?" | "??" | "%")
        }
        _ => false,
    }
}

#[derive(Clone, Debug)]
pub struct Style {
    pub name: String,
    /// modifier of the opening / closing delimiters
    pub open: &'static str,
    pub close: &'static str,
    /// only the n-th delimiter
    pub only: Option<usize>,
    /// what becomes of blanks
    pub blank: Option<&'static str>,
    /// what is put where no blanks are
    pub insert: Option<&'static str>,
    /// leave blanks out where possible
    pub tight: bool,
    /// only the n-th gap
    pub gap: Option<usize>,
}

impl Style {
    pub fn plain(name: &str) -> Self {
        Style { name: name.to_string(), open: "", close: "", only: None, blank: None, insert: None, tight: false, gap: None }
    }
}

impl Scan {
    pub fn delimiters(&self) -> usize {
        self.segs.iter().filter(|s| matches!(s, Seg::Open(_) | Seg::Close(_))).count()
    }
    pub fn gaps(&self) -> usize {
        self.segs.iter().filter(|s| matches!(s, Seg::Gap(_) | Seg::HGap(..))).count()
    }

    /// the new text and the new position of every byte of the old one
    pub fn render(&self, old: &str, st: &Style) -> Option<(String, Vec<usize>)> {
        let mut out = String::new();
        let mut map = vec![usize::MAX; old.len() + 1];
        let mut i = 0;
        let (mut nd, mut ng) = (0, 0);
        let copy = |t: &str, i: &mut usize, out: &mut String, map: &mut Vec<usize>| {
            for k in 0..t.len() {
                map[*i + k] = out.len() + k;
            }
            *i += t.len();
            out.push_str(t);
        };
        for (k, s) in self.segs.iter().enumerate() {
            match s {
                Seg::Text(t) | Seg::Tok(t) => copy(t, &mut i, &mut out, &mut map),
                Seg::Open(d) => {
                    copy(d, &mut i, &mut out, &mut map);
                    // modifier of the original
                    let had = old[i..].starts_with(['-', '~']) && !(*d == "{#" && old[i..].starts_with("-#}"));
                    let next_minus = matches!(self.segs.get(k + 2), Some(Seg::Tok(t)) if old[i..].starts_with(['-','~']) && matches!(self.segs.get(k+1), Some(Seg::Gap(g)) if g.is_empty()) && t.starts_with(['-','~']));
                    if had && !next_minus {
                        map[i] = out.len();
                        i += 1;
                    }
                    let m = if st.only.is_none_or(|n| n == nd) { st.open } else { "" };
                    out.push_str(m);
                    nd += 1;
                }
                Seg::Close(d) => {
                    if !old[i..].starts_with(d) {
                        map[i] = out.len();
                        i += 1;
                    }
                    let m = if st.only.is_none_or(|n| n == nd) { st.close } else { "" };
                    out.push_str(m);
                    copy(d, &mut i, &mut out, &mut map);
                    nd += 1;
                }
                Seg::Gap(g) => {
                    let a = if let Seg::Tok(t) = &self.segs[k - 1] { Some(t.as_str()) } else { None };
                    let b = if let Seg::Tok(t) = &self.segs[k + 1] { Some(t.as_str()) } else { None };
                    let here = st.gap.is_none_or(|n| n == ng);
                    ng += 1;
                    let new = if !here {
                        g.as_str()
                    } else if g.is_empty() {
                        // a number and its fraction, a delimiter and a modifier
                        st.insert.unwrap_or("")
                    } else if st.tight && tight(a, b, !st.open.is_empty() || !st.close.is_empty()) {
                        ""
                    } else {
                        st.blank.unwrap_or(g)
                    };
                    for x in 0..g.len() {
                        map[i + x] = out.len();
                    }
                    i += g.len();
                    out.push_str(new);
                }
                Seg::HGap(g, opt) => {
                    let here = st.gap.is_none_or(|n| n == ng);
                    ng += 1;
                    let new = if !here {
                        g.as_str()
                    } else if g.is_empty() {
                        st.insert.unwrap_or("")
                    } else if st.tight && *opt {
                        ""
                    } else {
                        st.blank.unwrap_or(g)
                    };
                    for x in 0..g.len() {
                        map[i + x] = out.len();
                    }
                    i += g.len();
                    out.push_str(new);
                }
            }
        }
        if i != old.len() {
            return None;
        }
        map[i] = out.len();
        Some((out, map))
    }
}

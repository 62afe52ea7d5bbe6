//! Independent reference for Twig expressions: a tokenizer and a precedence parser written from
//! Twig's documentation. Produces canonical s-expressions.
//!
//! Also converts ludtwig's syntax tree into the same canonical form.
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxKind, SyntaxNode};

/// binary operators with (precedence, right associative)
pub const BINARY: &[(&str, u32, bool)] = &[
    ("or", 10, false),
    ("||", 10, false),
    ("and", 15, false),
    ("&&", 15, false),
    ("b-or", 16, false),
    ("b-xor", 17, false),
    ("b-and", 18, false),
    ("==", 20, false),
    ("!=", 20, false),
    ("<=>", 20, false),
    ("<", 20, false),
    (">", 20, false),
    (">=", 20, false),
    ("<=", 20, false),
    ("not in", 20, false),
    ("in", 20, false),
    ("matches", 20, false),
    ("starts with", 20, false),
    ("ends with", 20, false),
    ("===", 20, false),
    ("!==", 20, false),
    ("..", 25, false),
    ("+", 30, false),
    ("-", 30, false),
    ("~", 40, false),
    ("*", 60, false),
    ("/", 60, false),
    ("//", 60, false),
    ("%", 60, false),
    ("is", 100, false),
    ("is not", 100, false),
    ("**", 200, true),
    ("??", 300, true),
];

pub const UNARY: &[(&str, u32)] = &[("not", 50), ("-", 500), ("+", 500)];

/// how the reference canonicalises
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Canon {
    /// operators as written
    Exact,
    /// the operators that ludtwig rewrites are canonicalised: `&&` = `and`, `a === b` = `a is same as(b)`
    Meaning,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Word(String),
    Num(String),
    Str(String),
    Op(&'static str),
    Punct(char),
}

const PUNCT_OPS: &[&str] = &[
    "<=>", "===", "!==", "...", "==", "!=", "<=", ">=", "&&", "||", "??", "**", "//", "..", "=>", "<", ">", "+", "-",
    "~", "*", "/", "%",
];

pub fn tokenize(s: &str) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    let word_end = |mut j: usize| {
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
            j += 1;
        }
        j
    };
    let skip_ws = |mut j: usize| {
        while j < b.len() && b[j].is_ascii_whitespace() {
            j += 1;
        }
        j
    };
    'outer: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            for w in ["b-or", "b-xor", "b-and"] {
                if s[i..].starts_with(w) && word_end(i + w.len()) == i + w.len() {
                    out.push(Tok::Op(BINARY.iter().find(|o| o.0 == w).unwrap().0));
                    i += w.len();
                    continue 'outer;
                }
            }
            let e = word_end(i);
            let w = &s[i..e];
            let after_dot = matches!(out.last(), Some(Tok::Punct('.')));
            let after_pipe = matches!(out.last(), Some(Tok::Punct('|')));
            let n = skip_ws(e);
            let ne = word_end(n);
            let next = &s[n..ne];
            if !after_dot && !after_pipe {
                let two = match (w, next) {
                    ("not", "in") => Some("not in"),
                    ("is", "not") => Some("is not"),
                    ("starts", "with") => Some("starts with"),
                    ("ends", "with") => Some("ends with"),
                    _ => None,
                };
                if let Some(op) = two {
                    out.push(Tok::Op(op));
                    i = ne;
                    continue;
                }
                if let Some(op) = ["or", "and", "in", "matches", "is", "not"].iter().find(|o| **o == w) {
                    out.push(Tok::Op(op));
                    i = e;
                    continue;
                }
            }
            out.push(Tok::Word(w.to_string()));
            i = e;
            continue;
        }
        if c.is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j + 1 < b.len() && b[j] == b'.' && b[j + 1].is_ascii_digit() {
                j += 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
            }
            out.push(Tok::Num(s[i..j].to_string()));
            i = j;
            continue;
        }
        if c == b'\'' || c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != c {
                if b[j] == b'\\' {
                    j += 1;
                }
                j += 1;
            }
            if j >= b.len() {
                return Err("unclosed string".into());
            }
            out.push(Tok::Str(s[i + 1..j].to_string()));
            i = j + 1;
            continue;
        }
        for p in PUNCT_OPS {
            if s[i..].starts_with(p) {
                out.push(Tok::Op(p));
                i += p.len();
                continue 'outer;
            }
        }
        if "()[]{},.:|?".contains(c as char) {
            out.push(Tok::Punct(c as char));
            i += 1;
            continue;
        }
        return Err(format!("unknown character {:?}", &s[i..]));
    }
    Ok(out)
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    canon: Canon,
}

/// Canonical s-expression of an expression source text.
pub fn parse(s: &str, canon: Canon) -> Result<String, String> {
    let t = tokenize(s)?;
    let mut p = P { t: &t, i: 0, canon };
    let r = p.top()?;
    if p.i != t.len() {
        return Err(format!("unexpected {:?}", &t[p.i..]));
    }
    Ok(r)
}

fn quote(s: &str) -> String {
    format!("{s:?}")
}

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn at(&self, c: char) -> bool {
        self.peek() == Some(&Tok::Punct(c))
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if self.at(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {c} at {:?}", &self.t[self.i.min(self.t.len())..]))
        }
    }

    fn top(&mut self) -> Result<String, String> {
        let c = self.prec(0)?;
        if !self.at('?') {
            return Ok(c);
        }
        self.i += 1;
        if self.at(':') {
            self.i += 1;
            let f = self.top()?;
            return Ok(format!("(?: {c} {f})"));
        }
        let t = self.top()?;
        if self.at(':') {
            self.i += 1;
            let f = self.top()?;
            return Ok(format!("(? {c} {t} {f})"));
        }
        Ok(format!("(? {c} {t})"))
    }

    fn prec(&mut self, min: u32) -> Result<String, String> {
        let mut lhs = self.unary()?;
        while let Some(Tok::Op(op)) = self.peek() {
            let Some((_, p, right)) = BINARY.iter().find(|o| o.0 == *op) else {
                break;
            };
            if *p < min {
                break;
            }
            let op = *op;
            self.i += 1;
            if op == "is" || op == "is not" {
                let t = self.test()?;
                lhs = format!("({op} {lhs} {t})");
                continue;
            }
            let rhs = self.prec(if *right { *p } else { *p + 1 })?;
            lhs = match (self.canon, op) {
                (Canon::Meaning, "&&") => format!("(and {lhs} {rhs})"),
                (Canon::Meaning, "||") => format!("(or {lhs} {rhs})"),
                (Canon::Meaning, "===") => format!("(is {lhs} (call same as {rhs}))"),
                (Canon::Meaning, "!==") => format!("(is not {lhs} (call same as {rhs}))"),
                _ => format!("({op} {lhs} {rhs})"),
            };
        }
        Ok(lhs)
    }

    fn test(&mut self) -> Result<String, String> {
        let Some(Tok::Word(w)) = self.peek() else {
            return Err("expected test name".into());
        };
        let mut name = w.clone();
        self.i += 1;
        if let Some(Tok::Word(w2)) = self.peek() {
            if (name == "same" && w2 == "as") || (name == "divisible" && w2 == "by") {
                name = format!("{name} {w2}");
                self.i += 1;
            }
        }
        if self.at('(') {
            let args = self.args()?;
            return Ok(format!("(call {name}{args})"));
        }
        if name.contains(' ') {
            // the argument may be given without parentheses, it is a single operand then
            let arg = self.unary()?;
            return Ok(format!("(call {name} {arg})"));
        }
        Ok(name)
    }

    fn args(&mut self) -> Result<String, String> {
        self.eat('(')?;
        let mut s = String::new();
        while !self.at(')') {
            s.push(' ');
            let a = self.top()?;
            s.push_str(&a);
            if self.at(',') {
                self.i += 1;
            } else if !self.at(')') {
                return Err("expected , or )".into());
            }
        }
        self.i += 1;
        Ok(s)
    }

    fn unary(&mut self) -> Result<String, String> {
        if let Some(Tok::Op(op)) = self.peek() {
            if let Some((name, p)) = UNARY.iter().find(|u| u.0 == *op) {
                self.i += 1;
                let x = self.prec(*p)?;
                return Ok(format!("({name} {x})"));
            }
        }
        let mut x = self.primary()?;
        loop {
            if self.at('|') {
                self.i += 1;
                let Some(Tok::Word(w)) = self.peek().cloned() else {
                    return Err("filter name".into());
                };
                self.i += 1;
                let args = if self.at('(') { self.args()? } else { String::new() };
                x = format!("(filter {x} {w}{args})");
            } else if self.at('.') {
                self.i += 1;
                x = match self.peek() {
                    Some(Tok::Word(w)) => format!("(. {x} {w})"),
                    Some(Tok::Num(w)) => format!("(index {x} {w})"),
                    _ => return Err("accessor".into()),
                };
                self.i += 1;
            } else if self.at('(') {
                let args = self.args()?;
                x = format!("(call {x}{args})");
            } else if self.at('[') {
                self.i += 1;
                let i = self.top()?;
                self.eat(']')?;
                x = format!("(index {x} {i})");
            } else {
                return Ok(x);
            }
        }
    }

    fn primary(&mut self) -> Result<String, String> {
        match self.peek().cloned() {
            Some(Tok::Word(w)) => {
                self.i += 1;
                Ok(w)
            }
            Some(Tok::Num(w)) => {
                self.i += 1;
                Ok(w)
            }
            Some(Tok::Str(w)) => {
                self.i += 1;
                Ok(quote(&w))
            }
            Some(Tok::Punct('(')) => {
                self.i += 1;
                let x = self.top()?;
                self.eat(')')?;
                Ok(x)
            }
            Some(Tok::Punct('[')) => {
                self.i += 1;
                let mut s = String::from("(array");
                while !self.at(']') {
                    s.push(' ');
                    s.push_str(&self.top()?);
                    if self.at(',') {
                        self.i += 1;
                    }
                }
                self.i += 1;
                s.push(')');
                Ok(s)
            }
            t => Err(format!("unexpected {t:?}")),
        }
    }
}

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Canonical form of a node of ludtwig's syntax tree (an expression).
pub fn of_tree(n: &SyntaxNode) -> Result<String, String> {
    use SyntaxKind::*;
    let kids: Vec<SyntaxElement> = n
        .children_with_tokens()
        .filter(|e| !e.kind().is_trivia())
        .collect();
    let sub = |i: usize| -> Result<String, String> {
        kids.get(i)
            .and_then(|e| e.as_node())
            .ok_or(format!("child {i} of {:?} is no node: {:?}", n.kind(), n.text().to_string()))
            .and_then(of_tree)
    };
    let tok = |i: usize| -> String {
        kids.get(i)
            .and_then(|e| e.as_token())
            .map_or_else(|| "<no token>".to_string(), |t| norm(t.text()))
    };
    match n.kind() {
        TWIG_EXPRESSION => {
            if kids.len() != 1 {
                return Err(format!("expression with {} children", kids.len()));
            }
            sub(0)
        }
        TWIG_BINARY_EXPRESSION => {
            if kids.len() != 3 {
                return Err(format!("binary expression with {} children", kids.len()));
            }
            Ok(format!("({} {} {})", tok(1), sub(0)?, sub(2)?))
        }
        TWIG_UNARY_EXPRESSION => Ok(format!("({} {})", tok(0), sub(1)?)),
        TWIG_PARENTHESES_EXPRESSION => {
            if kids.len() != 3 {
                return Err("parentheses".into());
            }
            sub(1)
        }
        TWIG_CONDITIONAL_EXPRESSION => match kids.len() {
            3 => Ok(format!("(? {} {})", sub(0)?, sub(2)?)),
            4 => Ok(format!("(?: {} {})", sub(0)?, sub(3)?)),
            5 => Ok(format!("(? {} {} {})", sub(0)?, sub(2)?, sub(4)?)),
            k => Err(format!("conditional with {k} children")),
        },
        TWIG_OPERAND => sub(0),
        TWIG_LITERAL_NAME | TWIG_LITERAL_NUMBER | TWIG_LITERAL_BOOLEAN | TWIG_LITERAL_NULL => {
            Ok(norm(&n.text().to_string()))
        }
        TWIG_LITERAL_STRING => {
            let inner = kids
                .get(1)
                .and_then(|e| e.as_node())
                .map_or(String::new(), |x| x.text().to_string());
            Ok(quote(&inner))
        }
        TWIG_FUNCTION_CALL => {
            let name = sub(0)?;
            let args = kids[1].as_node().ok_or("no args")?;
            Ok(format!("(call {name}{})", args_of(args)?))
        }
        TWIG_FILTER => {
            // operand | (name args?)
            let x = sub(0)?;
            let f = kids.get(2).and_then(|e| e.as_node()).ok_or("no filter name")?;
            let mut parts = f.children();
            let name = of_tree(&parts.next().ok_or("no filter name")?)?;
            let args = match parts.next() {
                Some(a) => args_of(&a)?,
                None => String::new(),
            };
            Ok(format!("(filter {x} {name}{args})"))
        }
        TWIG_ACCESSOR => Ok(format!("(. {} {})", sub(0)?, sub(2)?)),
        TWIG_INDEX_LOOKUP => Ok(format!("(index {} {})", sub(0)?, sub(2)?)),
        TWIG_INDEX => sub(0),
        TWIG_LITERAL_ARRAY => {
            let mut s = String::from("(array");
            if let Some(inner) = kids.get(1).and_then(|e| e.as_node()) {
                for c in inner.children() {
                    s.push(' ');
                    s.push_str(&of_tree(&c)?);
                }
            }
            s.push(')');
            Ok(s)
        }
        k => Err(format!("unexpected node {k:?} {:?}", n.text().to_string())),
    }
}

fn args_of(n: &SyntaxNode) -> Result<String, String> {
    let mut s = String::new();
    for c in n.children() {
        s.push(' ');
        s.push_str(&of_tree(&c)?);
    }
    Ok(s)
}

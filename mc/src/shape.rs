//! The syntactic structure of a part of a template, independent of the whitespace around it and of
//! the nodes around it.
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode};
use std::fmt::Write;

fn trivia(kind: &str) -> bool {
    kind == "TK_WHITESPACE" || kind == "TK_LINE_BREAK"
}

/// range from the first to the last non-trivia token
fn range(n: &SyntaxNode) -> Option<(usize, usize)> {
    let mut r: Option<(usize, usize)> = None;
    let mut t = n.first_token();
    let end = usize::from(n.text_range().end());
    while let Some(x) = t {
        if usize::from(x.text_range().start()) >= end {
            break;
        }
        if !x.kind().is_trivia() {
            r = Some((usize::from(x.text_range().start()), 0));
            break;
        }
        t = x.next_token();
    }
    let mut t = n.last_token();
    let start = usize::from(n.text_range().start());
    while let Some(x) = t {
        if usize::from(x.text_range().end()) <= start {
            break;
        }
        if !x.kind().is_trivia() {
            if let Some(r) = r.as_mut() {
                r.1 = usize::from(x.text_range().end());
            }
            break;
        }
        t = x.prev_token();
    }
    r
}

fn print(e: &SyntaxElement, o: &mut String, tok: &dyn Fn(&str) -> String) {
    match e {
        SyntaxElement::Node(n) => {
            let _ = write!(o, "({:?}", n.kind());
            for c in n.children_with_tokens() {
                print(&c, o, tok);
            }
            o.push(')');
        }
        SyntaxElement::Token(t) => {
            if !t.kind().is_trivia() {
                let _ = write!(o, " {:?}={:?}", t.kind(), tok(t.text()));
            }
        }
    }
}

/// The structure of the text range `a..b`: the trees of the elements inside of it. Nodes that only
/// wrap the whole range are left out (they belong to the position, not to the construct).
pub fn shape(tree: &SyntaxNode, a: usize, b: usize) -> String {
    let mut o = String::new();
    collect(tree, a, b, &mut o, true);
    o
}

fn collect(n: &SyntaxNode, a: usize, b: usize, o: &mut String, top: bool) {
    for c in n.children_with_tokens() {
        let r = match &c {
            SyntaxElement::Node(n) => range(n),
            SyntaxElement::Token(t) => {
                if t.kind().is_trivia() {
                    None
                } else {
                    Some((usize::from(t.text_range().start()), usize::from(t.text_range().end())))
                }
            }
        };
        let Some((x, y)) = r else { continue };
        if y <= a || x >= b {
            continue;
        }
        if x >= a && y <= b {
            if let SyntaxElement::Node(k) = &c {
                // a node that wraps exactly one node is skipped
                if top {
                    let mut inner = k.clone();
                    loop {
                        let mut kids = inner.children_with_tokens().filter(|c| match c {
                            SyntaxElement::Node(_) => true,
                            SyntaxElement::Token(t) => !t.kind().is_trivia(),
                        });
                        match (kids.next(), kids.next()) {
                            (Some(SyntaxElement::Node(x)), None) => {
                                inner = x;
                            }
                            _ => break,
                        }
                    }
                    // a wrapper of several elements that covers the whole range
                    let name = format!("{:?}", inner.kind());
                    if (x, y) == full(n, a, b) && wrapper(&name) {
                        collect(&inner, a, b, o, true);
                        continue;
                    }
                    print(&SyntaxElement::Node(inner), o, &|s| s.to_string());
                    continue;
                }
            }
            print(&c, o, &|s| s.to_string());
        } else if let SyntaxElement::Node(k) = &c {
            collect(k, a, b, o, top);
        } else if let SyntaxElement::Token(t) = &c {
            let _ = write!(o, " PART:{:?}={:?}", t.kind(), t.text());
        }
    }
}

/// lists of elements
fn wrapper(name: &str) -> bool {
    matches!(
        name,
        "BODY" | "HTML_ATTRIBUTE_LIST" | "HTML_STRING_INNER" | "HTML_RAW_TEXT" | "ROOT" | "TWIG_ARGUMENTS"
    )
}

/// non-trivia range of a..b
fn full(n: &SyntaxNode, a: usize, b: usize) -> (usize, usize) {
    let t = n.ancestors().last().unwrap().text().to_string();
    let s = &t[a..b];
    let x = s.len() - s.trim_start().len();
    (a + x, a + s.trim_end().len())
}

/// Kinds and texts of a whole tree without trivia, token texts normalised.
pub fn skeleton(tree: &SyntaxNode, tok: &dyn Fn(&str) -> String) -> String {
    let mut o = String::new();
    print(&SyntaxElement::Node(tree.clone()), &mut o, tok);
    let _ = trivia;
    o
}

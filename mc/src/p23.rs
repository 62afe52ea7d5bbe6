//! P23: typed accessors return exactly the parts that were written.
//!
//! Templates carry marks: `⟦KIND …⟧` is a construct, `⟦.accessor …⟧` the part of the innermost
//! construct around it which that accessor has to return. `«a»` is a name. `◆E ◆P ◆N ◆A ◆V` are
//! holes for expressions, operands, nodes, attributes and attribute values. `␣` is an optional,
//! `·` a necessary blank.
use crate::core::{par_for, Ctx};
use crate::gen;
use crate::parse::{parse, quiet_panics};
use crate::twigref::BINARY;
use ludtwig_parser::syntax::typed::*;
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxToken};
use std::collections::{BTreeMap, HashSet};

type R = (usize, usize);
/// what an accessor returns: the ranges (without the blanks around), or a flag
type Parts = Vec<R>;

fn trim(text: &str, a: usize, b: usize) -> R {
    let s = &text[a..b];
    let l = s.len() - s.trim_start().len();
    if l == s.len() {
        return (usize::MAX, usize::MAX); // blank
    }
    (a + l, a + s.trim_end().len())
}

// ---------------------------------------------------------------- what the implementation says

struct Acc {
    name: &'static str,
    /// returned elements
    got: Vec<SyntaxElement>,
    /// found below the construct itself, never in a nested one
    own: bool,
    /// is an ancestor
    up: bool,
}

fn n<T: AstNode<Language = ludtwig_parser::syntax::untyped::TemplateLanguage>>(x: Option<T>) -> Vec<SyntaxElement> {
    x.into_iter().map(|x| x.syntax().clone().into()).collect()
}
fn t(x: Option<SyntaxToken>) -> Vec<SyntaxElement> {
    x.into_iter().map(|x| x.into()).collect()
}

fn ws(x: Option<WhitespaceTrimming>) -> &'static str {
    match x {
        None => "",
        Some(WhitespaceTrimming::RemoveAll) => "-",
        Some(WhitespaceTrimming::RemoveExceptNewLines) => "~",
    }
}

/// (accessors, flags)
#[allow(clippy::type_complexity)]
fn accessors(x: &SyntaxNode) -> (Vec<Acc>, Vec<(&'static str, String)>) {
    let mut v: Vec<Acc> = vec![];
    let mut f: Vec<(&'static str, String)> = vec![];
    let mut add = |name, got| v.push(Acc { name, got, own: true, up: false });
    let mut ups: Vec<(&'static str, Vec<SyntaxElement>)> = vec![];
    let mut through: Vec<(&'static str, Vec<SyntaxElement>)> = vec![];
    macro_rules! on {
        ($ty:ident, $v:ident, $b:block) => {
            if let Some($v) = $ty::cast(x.clone()) {
                $b
            }
        };
    }
    on!(TwigBlock, c, {
        through.push(("name", t(c.name())));
        add("starting_block", n(c.starting_block()));
        add("body", n(c.body()));
        add("ending_block", n(c.ending_block()));
    });
    on!(TwigStartingBlock, c, {
        add("name", t(c.name()));
        ups.push(("twig_block", n(c.twig_block())));
    });
    on!(TwigEndingBlock, c, {
        add("name", t(c.name()));
        ups.push(("twig_block", n(c.twig_block())));
    });
    on!(HtmlTag, c, {
        through.push(("name", t(c.name())));
        through.push(("attributes", c.attributes().map(|a| a.syntax().clone().into()).collect()));
        add("starting_tag", n(c.starting_tag()));
        add("body", n(c.body()));
        add("ending_tag", n(c.ending_tag()));
        f.push(("is_self_closing", c.is_self_closing().to_string()));
        f.push(("is_twig_component", c.is_twig_component().to_string()));
    });
    on!(HtmlStartingTag, c, {
        add("name", t(c.name()));
        add("attributes", c.attributes().map(|a| a.syntax().clone().into()).collect());
        ups.push(("html_tag", n(c.html_tag())));
        f.push(("is_twig_component", c.is_twig_component().to_string()));
    });
    on!(HtmlEndingTag, c, {
        add("name", t(c.name()));
        ups.push(("html_tag", n(c.html_tag())));
        f.push(("is_twig_component", c.is_twig_component().to_string()));
    });
    on!(HtmlAttribute, c, {
        add("name", t(c.name()));
        add("value", n(c.value()));
        ups.push(("html_tag", n(c.html_tag())));
    });
    on!(TwigBinaryExpression, c, {
        add("operator", t(c.operator()));
        // the left operand is only wrapped if it is not a binary expression itself
        let mut l = n(c.lhs_expression());
        l.extend(n(c.lhs_binary_expression()));
        add("lhs", l);
        add("rhs", n(c.rhs_expression()));
    });
    on!(LudtwigDirectiveFileIgnore, c, {
        f.push(("get_rules", c.get_rules().join("|")));
    });
    on!(LudtwigDirectiveIgnore, c, {
        f.push(("get_rules", c.get_rules().join("|")));
    });
    on!(TwigLiteralString, c, {
        add("get_inner", n(c.get_inner()));
        add("get_opening_quote", t(c.get_opening_quote()));
        add("get_closing_quote", t(c.get_closing_quote()));
        through.push((
            "get_interpolations",
            c.get_inner().into_iter().flat_map(|i| i.get_interpolations()).map(|i| i.syntax().clone().into()).collect(),
        ));
    });
    on!(HtmlString, c, {
        add("get_inner", n(c.get_inner()));
        add("get_opening_quote", t(c.get_opening_quote()));
        add("get_closing_quote", t(c.get_closing_quote()));
    });
    on!(TwigExtends, c, {
        add("get_extends_keyword", t(c.get_extends_keyword()));
    });
    on!(TwigVar, c, {
        add("get_expression", n(c.get_expression()));
    });
    on!(TwigLiteralName, c, {
        add("get_name", t(c.get_name()));
    });
    on!(TwigFilter, c, {
        add("operand", n(c.operand()));
        add("filter", n(c.filter()));
    });
    on!(TwigFunctionCall, c, {
        add("name_operand", n(c.name_operand()));
        add("arguments", n(c.arguments()));
    });
    for (name, got) in through {
        v.push(Acc { name, got, own: false, up: false });
    }
    for (name, got) in ups {
        v.push(Acc { name, got, own: false, up: true });
    }
    macro_rules! control {
        ($($ty:ident)*) => { $( on!($ty, c, {
            f.push(("leading_ws_control", ws(c.leading_ws_control()).to_string()));
            f.push(("trailing_ws_control", ws(c.trailing_ws_control()).to_string()));
        }); )* };
    }
    control!(TwigStartingBlock TwigEndingBlock TwigIfBlock TwigElseIfBlock TwigElseBlock TwigEndIfBlock TwigSetBlock TwigEndSetBlock
        TwigForBlock TwigForElseBlock TwigEndForBlock TwigInclude TwigUse TwigApplyStartingBlock TwigApplyEndingBlock
        TwigAutoescapeStartingBlock TwigAutoescapeEndingBlock TwigDeprecated TwigDo TwigEmbedStartingBlock TwigEmbedEndingBlock TwigFlush
        TwigFrom TwigImport TwigExtends TwigSandboxStartingBlock TwigSandboxEndingBlock TwigVerbatimStartingBlock TwigVerbatimEndingBlock
        TwigMacroStartingBlock TwigMacroEndingBlock TwigWithStartingBlock TwigWithEndingBlock TwigCacheStartingBlock TwigCacheEndingBlock
        TwigProps TwigComponentStartingBlock TwigComponentEndingBlock TwigTransStartingBlock TwigTransEndingBlock
        ShopwareTwigExtends ShopwareTwigInclude ShopwareSilentFeatureCallStartingBlock ShopwareSilentFeatureCallEndingBlock ShopwareReturn
        ShopwareIcon TwigVar TwigComment);
    (v, f)
}

/// these have delimiters of their own
const CONTROL: &[&str] = &[
    "TWIG_STARTING_BLOCK", "TWIG_ENDING_BLOCK", "TWIG_IF_BLOCK", "TWIG_ELSE_IF_BLOCK", "TWIG_ELSE_BLOCK", "TWIG_ENDIF_BLOCK", "TWIG_SET_BLOCK",
    "TWIG_ENDSET_BLOCK", "TWIG_FOR_BLOCK", "TWIG_FOR_ELSE_BLOCK", "TWIG_ENDFOR_BLOCK", "TWIG_INCLUDE", "TWIG_USE", "TWIG_APPLY_STARTING_BLOCK",
    "TWIG_APPLY_ENDING_BLOCK", "TWIG_AUTOESCAPE_STARTING_BLOCK", "TWIG_AUTOESCAPE_ENDING_BLOCK", "TWIG_DEPRECATED", "TWIG_DO",
    "TWIG_EMBED_STARTING_BLOCK", "TWIG_EMBED_ENDING_BLOCK", "TWIG_FLUSH", "TWIG_FROM", "TWIG_IMPORT", "TWIG_EXTENDS",
    "TWIG_SANDBOX_STARTING_BLOCK", "TWIG_SANDBOX_ENDING_BLOCK", "TWIG_VERBATIM_STARTING_BLOCK", "TWIG_VERBATIM_ENDING_BLOCK",
    "TWIG_MACRO_STARTING_BLOCK", "TWIG_MACRO_ENDING_BLOCK", "TWIG_WITH_STARTING_BLOCK", "TWIG_WITH_ENDING_BLOCK", "TWIG_CACHE_STARTING_BLOCK",
    "TWIG_CACHE_ENDING_BLOCK", "TWIG_PROPS", "TWIG_COMPONENT_STARTING_BLOCK", "TWIG_COMPONENT_ENDING_BLOCK", "TWIG_TRANS_STARTING_BLOCK",
    "TWIG_TRANS_ENDING_BLOCK", "SHOPWARE_TWIG_SW_EXTENDS", "SHOPWARE_TWIG_SW_INCLUDE", "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK",
    "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK", "SHOPWARE_RETURN", "SHOPWARE_ICON", "TWIG_VAR", "TWIG_COMMENT",
];

/// constructs whose every occurrence is marked in the templates
const PLAIN: &[&str] = &[
    "TWIG_BLOCK", "HTML_TAG", "HTML_STARTING_TAG", "HTML_ENDING_TAG", "HTML_ATTRIBUTE", "TWIG_BINARY_EXPRESSION",
    "LUDTWIG_DIRECTIVE_FILE_IGNORE", "LUDTWIG_DIRECTIVE_IGNORE", "TWIG_LITERAL_STRING", "HTML_STRING", "TWIG_LITERAL_NAME", "TWIG_FILTER",
    "TWIG_FUNCTION_CALL",
];

// ---------------------------------------------------------------- what was written

struct Reg {
    kind: String,
    at: R,
    raw: R,
    parts: BTreeMap<String, Parts>,
    parent: Option<usize>,
}

/// The text without marks and the marked constructs.
fn render(src: &str) -> (String, Vec<Reg>) {
    let mut text = String::with_capacity(src.len());
    let mut regs: Vec<Reg> = vec![];
    // open marks: construct (index) or part (construct, name, start)
    enum Open {
        Reg(usize),
        Part(usize, String, usize),
    }
    let mut st: Vec<Open> = vec![];
    let mut it = src.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        match c {
            '⟦' => {
                let rest = &src[i + c.len_utf8()..];
                let e = rest.find(' ').unwrap();
                let name = rest[..e].to_string();
                while let Some((j, _)) = it.peek() {
                    if *j <= i + c.len_utf8() + e {
                        it.next();
                    } else {
                        break;
                    }
                }
                let cur = st.iter().rev().find_map(|o| if let Open::Reg(r) = o { Some(*r) } else { None });
                if let Some(p) = name.strip_prefix('.') {
                    st.push(Open::Part(cur.unwrap(), p.to_string(), text.len()));
                } else {
                    regs.push(Reg { kind: name, at: (0, 0), raw: (text.len(), 0), parts: BTreeMap::new(), parent: cur });
                    st.push(Open::Reg(regs.len() - 1));
                }
            }
            '⟧' => match st.pop().unwrap() {
                Open::Reg(r) => {
                    regs[r].raw.1 = text.len();
                    regs[r].at = trim(&text, regs[r].raw.0, text.len());
                }
                Open::Part(r, p, a) => {
                    let at = trim(&text, a, text.len());
                    regs[r].parts.entry(p).or_default().push(at);
                }
            },
            c => text.push(c),
        }
    }
    assert!(st.is_empty(), "unbalanced marks: {src}");
    (text, regs)
}

fn expected_control(s: &str) -> (&'static str, &'static str) {
    let pick = |c: Option<char>| match c {
        Some('-') => "-",
        Some('~') => "~",
        _ => "",
    };
    (pick(s.chars().nth(2)), pick(s.chars().rev().nth(2)))
}

/// flags and parts that the written text calls for
#[allow(clippy::type_complexity)]
fn expected(text: &str, regs: &[Reg], i: usize) -> (BTreeMap<String, Parts>, BTreeMap<&'static str, String>) {
    let r = &regs[i];
    let mut parts = r.parts.clone();
    let mut flags: BTreeMap<&'static str, String> = BTreeMap::new();
    let child = |kind: &str| regs.iter().find(|x| x.parent == Some(i) && x.kind == kind);
    let up = |kind: &str| {
        let mut p = r.parent;
        while let Some(j) = p {
            if regs[j].kind == kind {
                return vec![regs[j].at];
            }
            p = regs[j].parent;
        }
        vec![]
    };
    let component = |x: &Reg| x.parts.get("name").is_some_and(|n| text[n[0].0..n[0].1].starts_with("twig:")).to_string();
    match r.kind.as_str() {
        "TWIG_BLOCK" => {
            if let Some(s) = child("TWIG_STARTING_BLOCK") {
                parts.insert("name".into(), s.parts["name"].clone());
            }
        }
        "TWIG_STARTING_BLOCK" | "TWIG_ENDING_BLOCK" => {
            parts.insert("twig_block".into(), up("TWIG_BLOCK"));
        }
        "HTML_TAG" => {
            let s = child("HTML_STARTING_TAG").unwrap();
            parts.insert("name".into(), s.parts["name"].clone());
            parts.insert("attributes".into(), s.parts.get("attributes").cloned().unwrap_or_default());
            flags.insert("is_self_closing", child("HTML_ENDING_TAG").is_none().to_string());
            flags.insert("is_twig_component", component(s));
        }
        "HTML_STARTING_TAG" | "HTML_ENDING_TAG" => {
            parts.insert("html_tag".into(), up("HTML_TAG"));
            flags.insert("is_twig_component", component(r));
        }
        "HTML_ATTRIBUTE" => {
            parts.insert("html_tag".into(), up("HTML_STARTING_TAG"));
        }
        "LUDTWIG_DIRECTIVE_FILE_IGNORE" | "LUDTWIG_DIRECTIVE_IGNORE" => {
            let l: Vec<&str> = parts.remove("rule").unwrap_or_default().into_iter().map(|(a, b)| &text[a..b]).collect();
            flags.insert("get_rules", l.join("|"));
        }
        _ => {}
    }
    if CONTROL.contains(&r.kind.as_str()) {
        let (l, t) = expected_control(&text[r.at.0..r.at.1]);
        flags.insert("leading_ws_control", l.to_string());
        flags.insert("trailing_ws_control", t.to_string());
    }
    (parts, flags)
}

struct Kinds {
    modelled: HashSet<String>,
}

fn show(text: &str, p: &Parts) -> String {
    if p.is_empty() {
        return "nothing".into();
    }
    p.iter()
        .map(|(a, b)| if *a == usize::MAX { "\"\"".to_string() } else { format!("{:?} at {a}..{b}", &text[*a..*b]) })
        .collect::<Vec<_>>()
        .join(", ")
}

/// Compare every accessor of every construct of this marked template. Returns the number of
/// accessor results that were compared.
fn check(k: &Kinds, src: &str, ctx: Option<&Ctx>) -> Result<u64, (String, String)> {
    let (text, regs) = render(src);
    let p = parse(&text).map_err(|e| (text.clone(), e))?;
    if let Some(e) = p.errors.first() {
        return Err((text.clone(), format!("valid template, but: {} at {}..{}", e.2, e.0, e.1)));
    }
    let mut nodes: BTreeMap<(String, R), SyntaxNode> = BTreeMap::new();
    for d in p.tree.descendants() {
        let kind = format!("{:?}", d.kind());
        if k.modelled.contains(&kind) {
            let r = d.text_range();
            nodes.insert((kind, trim(&text, r.start().into(), r.end().into())), d);
        }
    }
    let mut count = 0;
    let mut seen = 0;
    for (i, r) in regs.iter().enumerate() {
        if !k.modelled.contains(&r.kind) {
            continue;
        }
        let key = (r.kind.clone(), r.at);
        let Some(node) = nodes.get(&key) else {
            return Err((text.clone(), format!("no {} for {:?}", r.kind, &text[r.raw.0..r.raw.1])));
        };
        seen += 1;
        let (mut parts, mut flags) = expected(&text, &regs, i);
        let (acc, got_flags) = accessors(node);
        for a in acc {
            let want = parts.remove(a.name).unwrap_or_default();
            let got: Parts = a
                .got
                .iter()
                .map(|e| trim(&text, e.text_range().start().into(), e.text_range().end().into()))
                .collect();
            count += 1;
            if let Some(ctx) = ctx {
                ctx.outcome(&format!("{}::{} -> {}", r.kind, a.name, got.len().min(4)), 1);
            }
            if want != got {
                return Err((
                    text.clone(),
                    format!("{}::{} of {:?} is {}, written is {}", r.kind, a.name, &text[r.at.0..r.at.1], show(&text, &got), show(&text, &want)),
                ));
            }
        }
        for (name, got) in got_flags {
            let want = flags.remove(name).unwrap_or_default();
            count += 1;
            if let (Some(ctx), true) = (ctx, got.len() < 8) {
                ctx.outcome(&format!("{}::{} -> {got:?}", r.kind, name), 1);
            }
            if want != got {
                return Err((text.clone(), format!("{}::{} of {:?} is {got:?}, written is {want:?}", r.kind, name, &text[r.at.0..r.at.1])));
            }
        }
        assert!(parts.is_empty(), "unused marks {parts:?} in {src}");
        assert!(flags.is_empty(), "unused flags {flags:?} in {src}");
    }
    if seen != nodes.len() {
        let marked: HashSet<(String, R)> = regs.iter().map(|r| (r.kind.clone(), r.at)).collect();
        if let Some(((kind, at), _)) = nodes.iter().find(|(key, _)| !marked.contains(key)) {
            return Err((text.clone(), format!("{kind} for {}, which is none", show(&text, &vec![*at]))));
        }
    }
    Ok(count)
}

// ---------------------------------------------------------------- templates

/// `«a»` is a name
fn expand(s: &str) -> String {
    s.replace('«', "⟦TWIG_LITERAL_NAME ⟦.get_name ").replace('»', "⟧⟧")
}

fn string(q: &str, inner: &str) -> String {
    let inner = inner.replace("#{", "⟦.get_interpolations #{");
    // an interpolation ends with its brace
    let inner = inner.replace("❵", "}⟧");
    format!("⟦TWIG_LITERAL_STRING ⟦.get_opening_quote {q}⟧⟦.get_inner {inner}⟧⟦.get_closing_quote {q}⟧⟧")
}
fn sq(inner: &str) -> String {
    string("'", inner)
}
fn dq(inner: &str) -> String {
    string("\"", inner)
}
fn bin(l: &str, op: &str, r: &str) -> String {
    let word = op.chars().next().unwrap().is_alphabetic() || op == "-" || op == "+";
    let s = if word { "·" } else { "␣" };
    format!("⟦TWIG_BINARY_EXPRESSION ⟦.lhs {l}⟧{s}⟦.operator {}⟧{s}⟦.rhs {r}⟧⟧", op)
}
fn filter(x: &str, f: &str) -> String {
    format!("⟦TWIG_FILTER ⟦.operand {x}⟧␣|␣⟦.filter {f}⟧⟧")
}
fn call(name: &str, args: &str) -> String {
    format!("⟦TWIG_FUNCTION_CALL ⟦.name_operand {name}⟧⟦.arguments ({args})⟧⟧")
}

#[derive(Clone)]
struct T {
    /// sorts: E expression, P operand (is an expression too), N node, A attribute, V attribute value
    sort: &'static str,
    src: String,
    /// sorts of the holes
    holes: Vec<char>,
}

fn templates() -> Vec<T> {
    let mut v: Vec<T> = vec![];
    let mut add = |sort: &'static str, src: String| {
        let src = expand(&src);
        let holes = src.match_indices('◆').map(|(i, m)| src[i + m.len()..].chars().next().unwrap()).collect();
        v.push(T { sort, src, holes });
    };
    // operands
    for s in ["«x»", "1", "1.5", "true", "null", "«_self»", "«set»", "«blockquote»", "[]", "{}"] {
        add("P", s.into());
    }
    add("P", sq(""));
    add("P", dq(""));
    add("P", sq("s"));
    add("P", sq(" a \"b\" "));
    add("P", sq("it\\'s"));
    add("P", dq("a 'b' \\\" #c"));
    add("P", sq("#x {y}"));
    add("P", dq("#{·◆E·❵"));
    add("P", dq("a #{·◆E·❵ b #{·◆E·❵c"));
    add("P", "(␣◆E␣)".into());
    add("P", "[◆E,␣◆E]".into());
    add("P", format!("{{␣a:·◆E,␣{}:·◆E,␣(◆E):·◆E,␣1:·2␣}}", sq("b")));
    add("P", "«a».«b»".into());
    add("P", "◆P.«b»".into());
    add("P", "◆P[␣◆E␣]".into());
    add("P", "◆P[◆E:◆E]".into());
    add("P", call("«f»", ""));
    add("P", call("«f»", "◆E,·◆E"));
    add("P", call("«f»", "◆E,·n=◆E"));
    add("P", call("◆P.«m»", "◆E"));
    add("P", call("«a».«m»", ""));
    add("P", filter("◆P", "«f»"));
    add("P", filter("◆P", "«f»(◆E,·◆E)"));
    add("P", filter(&filter("◆P", "«f»"), "«g»(◆E)"));
    add("P", filter(&filter("«a»", "«f»(◆E)"), "«g»"));
    add("P", filter("◆P", "«filter»(«v»·=>·◆E)"));
    add("P", filter("◆P", "«reduce»((«c»,·«v»)·=>·◆E,·◆E)"));
    // expressions
    for op in ["+", "-", "*", "~", "..", "==", "<", "and", "or", "??", "in", "not in", "starts with", "ends with", "matches", "b-and", "//", "<=>", "===", "&&"] {
        add("E", bin("◆P", op, "◆P"));
    }
    add("E", bin("◆P", "is", "«defined»"));
    add("E", bin("◆P", "is not", "«even»"));
    add("E", bin("◆P", "is", &call("«same as»", "◆E")));
    add("E", bin("◆P", "is not", &call("«divisible by»", "◆E")));
    add("E", bin(&bin("◆P", "+", "◆P"), "-", "◆P"));
    add("E", bin("◆P", "+", &bin("◆P", "*", "◆P")));
    add("E", bin(&bin(&bin("◆P", "*", "◆P"), "+", "◆P"), "or", &bin("◆P", "==", "◆P")));
    add("E", "not·◆P".into());
    add("E", "-◆P".into());
    add("E", "◆P·?·◆E·:·◆E".into());
    add("E", "◆P·?:·◆E".into());
    add("E", "◆P·?·◆E".into());
    add("E", format!("{}·?·{}·:·◆E", bin("◆P", "and", "◆P"), bin("◆P", "or", "◆P")));
    // attributes
    let attr = |name: &str, value: Option<String>| {
        format!(
            "⟦HTML_ATTRIBUTE ⟦.name {name}⟧{}⟧",
            value.map_or(String::new(), |v| format!("␣=␣⟦.value {v}⟧"))
        )
    };
    let value = |q: &str, inner: &str| {
        if q.is_empty() {
            format!("⟦HTML_STRING ⟦.get_inner {inner}⟧⟧")
        } else {
            format!("⟦HTML_STRING ⟦.get_opening_quote {q}⟧⟦.get_inner {inner}⟧⟦.get_closing_quote {q}⟧⟧")
        }
    };
    let own = |a: String| format!("⟦.attributes {a}⟧");
    let mut attrs: Vec<String> = vec![
        attr("a", None),
        attr("data-a1", None),
        attr("@click", None),
        attr(":foo", Some(value("\"", "x"))),
        attr("a", Some(value("\"", ""))),
        attr("a", Some(value("'", ""))),
        attr("a", Some(value("'", "x \"y\" z"))),
        attr("a", Some(value("\"", "it's"))),
        attr("a", Some(value("\"", " ◆V "))),
        attr("a", Some(value("'", "◆V"))),
        attr("class", Some(value("\"", "x ◆V y ◆V"))),
        attr("a", Some(value("", "x"))),
        attr("a", Some(value("", "⟦TWIG_VAR {{·⟦.get_expression ◆E⟧·}}⟧"))),
        attr("id", Some(value("\"", "⟦TWIG_VAR {{·⟦.get_expression ◆E⟧·}}⟧"))),
    ];
    for a in attrs.drain(..) {
        // an attribute of the tag itself, or nested in twig syntax
        add("A", own(a.clone()));
        add("D", a);
    }
    // an attribute whose name is a variable
    let dynamic = "⟦HTML_ATTRIBUTE ⟦TWIG_VAR {{·⟦.get_expression ◆E⟧·}}⟧⟧";
    add("A", own(dynamic.into()));
    add("D", dynamic.into());
    add("V", "⟦TWIG_VAR {{·⟦.get_expression ◆E⟧·}}⟧".into());
    for s in [
        "⟦TWIG_COMMENT {# c #}⟧",
        "⟦LUDTWIG_DIRECTIVE_IGNORE {#·ludtwig-ignore·⟦.rule a⟧,␣⟦.rule b-c⟧·#}⟧",
        "⟦TWIG_IF_BLOCK {%·if·◆E·%}⟧␣◆D␣⟦TWIG_ENDIF_BLOCK {%·endif·%}⟧",
        "⟦TWIG_IF_BLOCK {%·if·◆E·%}⟧␣◆D·◆D␣⟦TWIG_ELSE_IF_BLOCK {%·elseif·◆E·%}⟧␣◆D␣⟦TWIG_ELSE_BLOCK {%·else·%}⟧␣◆D␣⟦TWIG_ENDIF_BLOCK {%·endif·%}⟧",
        "⟦TWIG_FOR_BLOCK {%·for·«x»·in·◆E·%}⟧␣◆D␣⟦TWIG_ENDFOR_BLOCK {%·endfor·%}⟧",
        "⟦TWIG_BLOCK ⟦.starting_block ⟦TWIG_STARTING_BLOCK {%·block·⟦.name q⟧·%}⟧⟧⟦.body ␣◆D␣⟧⟦.ending_block ⟦TWIG_ENDING_BLOCK {%·endblock·⟦.name q⟧·%}⟧⟧⟧",
        "⟦TWIG_SET_BLOCK {%·set·«a»·=·◆E·%}⟧",
    ] {
        add("A", s.into());
        add("D", s.into());
        add("V", s.replace("◆D", "◆V"));
    }
    for s in ["x", "a b", "1px;", "x-{y}"] {
        add("V", s.into());
    }
    // html
    let tag = |name: &str, attrs: &str, close: &str, body: Option<&str>| {
        format!(
            "⟦HTML_TAG ⟦.starting_tag ⟦HTML_STARTING_TAG <⟦.name {name}⟧{attrs}{close}⟧⟧{}⟧",
            body.map_or(String::new(), |b| format!("⟦.body {b}⟧⟦.ending_tag ⟦HTML_ENDING_TAG </⟦.name {name}⟧␣>⟧⟧"))
        )
    };
    for name in ["div", "my-el", "h1", "twig:Foo", "twig:Foo:Bar", "pre", "form"] {
        add("N", tag(name, "", "␣>", Some("◆N")));
        add("N", tag(name, "·◆A", "␣>", Some("◆N")));
        add("N", tag(name, "·◆A·◆A␣", "/>", None));
    }
    add("N", tag("div", "·◆A·⟦.attributes ⟦HTML_ATTRIBUTE ⟦.name z⟧⟧⟧", "␣>", Some("")));
    add("N", tag("div", "", ">", Some(" ◆N ◆N ")));
    add("N", tag("br", "", ">", None));
    add("N", tag("hr", "␣", "/>", None));
    add("N", tag("img", "·◆A·⟦.attributes ⟦HTML_ATTRIBUTE ⟦.name alt⟧⟧⟧", "␣>", None));
    add("N", tag("script", "·◆A", ">", Some("if (a < b) { x('</div>'); }")));
    add("N", tag("style", "", ">", Some("a > b {}")));
    add("N", tag("textarea", "", ">", Some(" <b> ")));
    add("N", tag("title", "", ">", Some("◆V")));
    add("N", tag("div", "", ">", Some(&tag("div", "·◆A", ">", Some(&tag("div", "", ">", Some("◆N")))))));
    for s in ["text", "<!-- c <div> -->", "a < b", "<!DOCTYPE html>"] {
        add("N", s.into());
    }
    // twig
    let block = |name: &str, end: &str, body: &str| {
        format!(
            "⟦TWIG_BLOCK ⟦.starting_block ⟦TWIG_STARTING_BLOCK {{%·block·⟦.name {name}⟧·%}}⟧⟧⟦.body {body}⟧⟦.ending_block ⟦TWIG_ENDING_BLOCK {{%·endblock·{}%}}⟧⟧⟧",
            if end.is_empty() { String::new() } else { format!("⟦.name {end}⟧·") }
        )
    };
    add("N", block("a", "", "◆N"));
    add("N", block("a_b", "a_b", "◆N"));
    add("N", block("b", "", ""));
    add("N", block("b", "b", " x ◆N y "));
    add("N", block("a", "", &block("a", "a", &block("c", "", "◆N"))));
    add("N", "⟦TWIG_BLOCK ⟦.starting_block ⟦TWIG_STARTING_BLOCK {%·block·⟦.name s⟧·◆E·%}⟧⟧⟧".into());
    let pair = |a: &str, atext: &str, b: &str, btext: &str| format!("⟦{a} {{%·{atext}·%}}⟧◆N⟦{b} {{%·{btext}·%}}⟧");
    let pairs = [
        ("TWIG_IF_BLOCK", "if·◆E", "TWIG_ENDIF_BLOCK", "endif"),
        ("TWIG_FOR_BLOCK", "for·«k»,␣«v»·in·◆E", "TWIG_ENDFOR_BLOCK", "endfor"),
        ("TWIG_SET_BLOCK", "set·«a»", "TWIG_ENDSET_BLOCK", "endset"),
        ("TWIG_APPLY_STARTING_BLOCK", "apply·«upper»", "TWIG_APPLY_ENDING_BLOCK", "endapply"),
        ("TWIG_APPLY_STARTING_BLOCK", "apply·⟦TWIG_FILTER ⟦.operand «upper»⟧|⟦.filter «slice»(◆E)⟧⟧", "TWIG_APPLY_ENDING_BLOCK", "endapply"),
        ("TWIG_AUTOESCAPE_STARTING_BLOCK", "autoescape", "TWIG_AUTOESCAPE_ENDING_BLOCK", "endautoescape"),
        ("TWIG_SANDBOX_STARTING_BLOCK", "sandbox", "TWIG_SANDBOX_ENDING_BLOCK", "endsandbox"),
        ("TWIG_VERBATIM_STARTING_BLOCK", "verbatim", "TWIG_VERBATIM_ENDING_BLOCK", "endverbatim"),
        ("TWIG_MACRO_STARTING_BLOCK", "macro·m(«a»,·b·=·◆E)", "TWIG_MACRO_ENDING_BLOCK", "endmacro·m"),
        ("TWIG_WITH_STARTING_BLOCK", "with·◆E·only", "TWIG_WITH_ENDING_BLOCK", "endwith"),
        ("TWIG_CACHE_STARTING_BLOCK", "cache·◆E", "TWIG_CACHE_ENDING_BLOCK", "endcache"),
        ("TWIG_CACHE_STARTING_BLOCK", "cache·◆E·ttl(◆E)·tags(◆E)", "TWIG_CACHE_ENDING_BLOCK", "endcache"),
        ("TWIG_TRANS_STARTING_BLOCK", "trans", "TWIG_TRANS_ENDING_BLOCK", "endtrans"),
        ("TWIG_COMPONENT_STARTING_BLOCK", "component·«Foo»·with·{·a:·◆E·}", "TWIG_COMPONENT_ENDING_BLOCK", "endcomponent"),
        ("SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK", "sw_silent_feature_call·{sq}", "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK", "endsw_silent_feature_call"),
    ];
    for (a, at, b, bt) in pairs {
        add("N", pair(a, &at.replace("{sq}", &sq("F")), b, bt));
    }
    add("N", format!("⟦TWIG_EMBED_STARTING_BLOCK {{%·embed·◆E·with·◆E·only·%}}⟧{}⟦TWIG_EMBED_ENDING_BLOCK {{%·endembed·%}}⟧", block("e", "", "◆N")));
    add("N", "⟦TWIG_IF_BLOCK {%·if·◆E·%}⟧◆N⟦TWIG_ELSE_IF_BLOCK {%·elseif·◆E·%}⟧◆N⟦TWIG_ELSE_BLOCK {%·else·%}⟧◆N⟦TWIG_ENDIF_BLOCK {%·endif·%}⟧".into());
    add("N", "⟦TWIG_FOR_BLOCK {%·for·«x»·in·◆E·%}⟧◆N⟦TWIG_FOR_ELSE_BLOCK {%·else·%}⟧◆N⟦TWIG_ENDFOR_BLOCK {%·endfor·%}⟧".into());
    for s in [
        "⟦TWIG_VAR {{·⟦.get_expression ◆E⟧·}}⟧",
        "⟦TWIG_SET_BLOCK {%·set·«a»,␣«b»·=·◆E,·◆E·%}⟧",
        "⟦TWIG_INCLUDE {%·include·◆E·%}⟧",
        "⟦TWIG_INCLUDE {%·include·◆E·ignore missing·with·◆E·only·%}⟧",
        "⟦TWIG_DEPRECATED {%·deprecated·{sq}·%}⟧",
        "⟦TWIG_DO {%·do·◆E·%}⟧",
        "⟦TWIG_FLUSH {%·flush·%}⟧",
        "⟦TWIG_FROM {%·from·{sq}·import·«a»·as·«b»,␣«c»·%}⟧",
        "⟦TWIG_IMPORT {%·import·{sq}·as·«f»·%}⟧",
        "⟦TWIG_PROPS {%·props·«a»,␣«b»·=·◆E·%}⟧",
        "⟦TWIG_COMMENT {#·c·#}⟧",
        "⟦TWIG_COMMENT {#·a {{ b }} {% c %} <d>·#}⟧",
        "⟦LUDTWIG_DIRECTIVE_IGNORE {#·ludtwig-ignore·#}⟧",
        "⟦LUDTWIG_DIRECTIVE_IGNORE {#·ludtwig-ignore·⟦.rule a⟧·#}⟧",
        "⟦LUDTWIG_DIRECTIVE_IGNORE {#·ludtwig-ignore·⟦.rule a⟧␣,␣⟦.rule b-c⟧,␣⟦.rule d⟧·#}⟧",
        "⟦SHOPWARE_TWIG_SW_INCLUDE {%·sw_include·◆E·%}⟧",
        "⟦SHOPWARE_RETURN {%·return·◆E·%}⟧",
        "⟦SHOPWARE_RETURN {%·return·%}⟧",
        "⟦SHOPWARE_ICON {%·sw_icon·◆E·style·{·a:·◆E·}·%}⟧",
        "{% sw_thumbnails {sq} with { a: ◆E } %}",
        "⟦TWIG_USE {%·use·{sq}·with·«a»·as·«b»·%}⟧",
    ] {
        let s = s.replace("{sq}", &sq("x"));
        add("N", s);
    }
    // documents
    for s in [
        "◆N",
        "◆N\n◆N",
        "⟦LUDTWIG_DIRECTIVE_FILE_IGNORE {#·ludtwig-ignore-file·#}⟧\n◆N",
        "⟦LUDTWIG_DIRECTIVE_FILE_IGNORE {#·ludtwig-ignore-file·⟦.rule a-b⟧,␣⟦.rule c⟧·#}⟧\n◆N",
        "⟦TWIG_EXTENDS {%·⟦.get_extends_keyword extends⟧·◆E·%}⟧\n◆N",
        "⟦SHOPWARE_TWIG_SW_EXTENDS {%·sw_extends·{sq}·%}⟧\n◆N",
    ] {
        let s = s.replace("{sq}", &sq("x"));
        add("X", s);
    }
    v
}

fn is(sort: &str, hole: char) -> bool {
    sort.starts_with(hole) || (hole == 'E' && sort == "P")
}

fn default(hole: char) -> String {
    expand(match hole {
        'E' | 'P' => "«x»",
        'N' => "t",
        'A' => "⟦.attributes ⟦HTML_ATTRIBUTE ⟦.name c⟧⟧⟧",
        'D' => "⟦HTML_ATTRIBUTE ⟦.name c⟧⟧",
        _ => "v",
    })
}

/// put `fill[i]` (or the default) into the i-th hole
fn fill(t: &T, at: &[(usize, &str)]) -> String {
    let mut out = String::new();
    let mut rest = t.src.as_str();
    let mut i = 0;
    while let Some(p) = rest.find('◆') {
        out.push_str(&rest[..p]);
        let hole = t.holes[i];
        match at.iter().find(|x| x.0 == i) {
            Some((_, s)) => out.push_str(s),
            None => out.push_str(&default(hole)),
        }
        rest = &rest[p + '◆'.len_utf8() + hole.len_utf8()..];
        i += 1;
    }
    out.push_str(rest);
    out
}

#[derive(Clone)]
struct Style {
    opt: &'static str,
    must: &'static str,
    left: &'static str,
    right: &'static str,
    /// this delimiter (counted) is written in another way
    one: Option<(usize, &'static str)>,
}

/// blanks and whitespace control
fn styled(src: &str, st: &Style) -> (String, usize) {
    let mut out = String::with_capacity(src.len() + 32);
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut nth = 0;
    let mut pick = |d: &'static str| {
        let r = match st.one {
            Some((k, m)) if k == nth => m,
            _ => d,
        };
        nth += 1;
        r
    };
    while i < b.len() {
        let three: String = b[i..(i + 3).min(b.len())].iter().collect();
        match three.as_str() {
            "{{·" | "{%·" | "{#·" => {
                out.push_str(&three[..2]);
                out.push_str(pick(st.left));
                out.push_str(st.must);
                i += 3;
                continue;
            }
            "·}}" | "·%}" | "·#}" => {
                out.push_str(st.must);
                out.push_str(pick(st.right));
                out.push_str(&three[2..]);
                i += 3;
                continue;
            }
            _ => {}
        }
        match b[i] {
            '·' => out.push_str(st.must),
            '␣' => out.push_str(st.opt),
            c => out.push(c),
        }
        i += 1;
    }
    (out, nth)
}

fn styles(src: &str, level: u32) -> Vec<Style> {
    let base = Style { opt: "", must: " ", left: "", right: "", one: None };
    let mut v = vec![base.clone()];
    if level == 0 {
        v.push(Style { opt: "\n  ", must: " ", left: "~", right: "-", one: None });
        return v;
    }
    v.push(Style { opt: " ", must: "\n", ..base.clone() });
    v.push(Style { opt: "\t", must: " \r\n ", left: "-", right: "~", one: None });
    for l in ["", "-", "~"] {
        for r in ["", "-", "~"] {
            if !(l.is_empty() && r.is_empty()) {
                v.push(Style { opt: " ", left: l, right: r, ..base.clone() });
            }
        }
    }
    if level >= 2 {
        let n = styled(src, &base).1;
        for k in 0..n {
            for m in ["-", "~"] {
                v.push(Style { opt: " ", one: Some((k, m)), ..base.clone() });
            }
        }
    }
    v
}

// ---------------------------------------------------------------- operator chains

/// the expression with the grouping that the precedences ask for
fn chain(ops: &[&(&str, u32, bool)], operands: &[String]) -> String {
    if ops.is_empty() {
        return operands[0].clone();
    }
    let min = ops.iter().map(|o| o.1).min().unwrap();
    let right = ops.iter().any(|o| o.1 == min && o.2);
    let at = if right {
        ops.iter().position(|o| o.1 == min).unwrap()
    } else {
        ops.iter().rposition(|o| o.1 == min).unwrap()
    };
    bin(&chain(&ops[..at], &operands[..=at]), ops[at].0, &chain(&ops[at + 1..], &operands[at + 1..]))
}

fn chains(ctx: &Ctx, k: &Kinds) {
    let q = ctx.quick();
    let nops = BINARY.len();
    for len in 1..=(if q { 3 } else { 4 }) {
        gen::sequences(nops, len, &|v| {
            let ops: Vec<&(&str, u32, bool)> = v.iter().map(|i| &BINARY[*i]).collect();
            // the right side of `is` is a test: what binds stronger has no operand there
            if ops.windows(2).any(|w| w[0].0.starts_with("is") && w[1].1 > w[0].1) {
                return;
            }
            let mut operands = vec![expand("«a»")];
            for (i, o) in ops.iter().enumerate() {
                operands.push(if o.0.starts_with("is") {
                    expand("«defined»")
                } else {
                    match (i + len) % 3 {
                        0 => filter(&expand("«b»"), &expand("«f»")),
                        1 => expand("«c».«d»"),
                        _ => format!("({})", bin(&expand("«p»"), "or", &expand("«q»"))),
                    }
                });
            }
            let e = chain(&ops, &operands);
            let src = format!("⟦TWIG_VAR {{{{·⟦.get_expression {e}⟧·}}}}⟧");
            judge(ctx, k, &src, 0);
        });
        ctx.note("operator chains", format!("all sequences of {len} of {nops} operators"));
    }
}

// ---------------------------------------------------------------- any text

/// On every tree, also of broken templates: what an accessor returns is a part of the construct
/// itself and not of a nested one, in the order of the text; links up lead back.
fn invariant(text: &str) -> Result<u64, String> {
    let p = parse(text)?;
    let mut count = 0;
    for d in p.tree.descendants() {
        let (acc, _) = accessors(&d);
        if acc.is_empty() {
            continue;
        }
        let r = d.text_range();
        let what = |name: &str, why: String| format!("{:?}::{name} of {:?} {why}", d.kind(), d.text().to_string());
        let get = |n: &str| acc.iter().find(|a| a.name == n).and_then(|a| a.got.first());
        for a in &acc {
            for e in &a.got {
                count += 1;
                if a.up {
                    let by_parent = d.ancestors().skip(1).find(|x| x.kind() == e.kind());
                    if by_parent.as_ref().map(|x| SyntaxElement::from(x.clone())).as_ref() != Some(e) {
                        return Err(what(a.name, format!("is {:?}, not the construct around it", e.to_string())));
                    }
                    continue;
                }
                if !r.contains_range(e.text_range()) {
                    return Err(what(a.name, format!("is {:?} outside of it", e.to_string())));
                }
                if a.own {
                    let anc = match e {
                        SyntaxElement::Node(x) => x.parent(),
                        SyntaxElement::Token(x) => x.parent(),
                    };
                    let owner = anc.and_then(|x| x.ancestors().find(|y| y.kind() == d.kind()));
                    if owner.as_ref() != Some(&d) {
                        return Err(what(a.name, format!("is {:?} of a nested one", e.to_string())));
                    }
                }
            }
        }
        for order in [
            &["starting_block", "body", "ending_block"][..],
            &["starting_tag", "body", "ending_tag"],
            &["lhs", "operator", "rhs"],
            &["get_opening_quote", "get_inner", "get_closing_quote"],
            &["name", "value"],
            &["operand", "filter"],
            &["name_operand", "arguments"],
        ] {
            let mut end = r.start();
            for o in order {
                if let Some(e) = get(o) {
                    if e.text_range().start() < end {
                        return Err(what(o, format!("is {:?}, which is not in the order of the text", e.to_string())));
                    }
                    end = e.text_range().end();
                }
            }
        }
        if let (Some(a), Some(b)) = (get("get_opening_quote"), get("get_closing_quote")) {
            if a.to_string() != b.to_string() {
                return Err(what("get_closing_quote", format!("is {:?}, opened with {:?}", b.to_string(), a.to_string())));
            }
        }
        // links down and up belong together
        for (down, up) in [("starting_block", "twig_block"), ("ending_block", "twig_block"), ("starting_tag", "html_tag"), ("ending_tag", "html_tag"), ("attributes", "html_tag")] {
            for a in acc.iter().filter(|a| a.name == down && a.own) {
                for e in &a.got {
                    let Some(e) = e.as_node() else { continue };
                    let back = accessors(e).0.into_iter().find(|b| b.name == up).and_then(|b| b.got.into_iter().next());
                    count += 1;
                    if back != Some(SyntaxElement::from(d.clone())) {
                        return Err(what(down, format!("{:?} does not lead back with {up}", e.text().to_string())));
                    }
                }
            }
        }
    }
    Ok(count)
}

fn any_text(ctx: &Ctx) {
    let q = ctx.quick();
    let go = |t: &str| {
        ctx.state(1);
        match invariant(t) {
            Ok(n) => {
                ctx.transition(n);
                ctx.trace(1);
            }
            Err(e) => ctx.violation(&format!("any:{t}"), &format!("in {t:?}: {e}"), t),
        }
    };
    for len in 1..=(if q { 3 } else { 4 }) {
        let m = if len < 4 { gen::TAGS.len() } else { 40 };
        gen::sequences(m, len, &|v| go(&v.iter().map(|i| gen::TAGS[*i]).collect::<String>()));
    }
    for h in gen::HOLES {
        for len in 1..=2 {
            gen::sequences(gen::TOKENS.len(), len, &|v| {
                let t: Vec<&str> = v.iter().map(|i| gen::TOKENS[*i]).collect();
                go(&h.replace('◇', &t.join(" ")));
            });
        }
        gen::sequences(gen::CORE.len(), if q { 2 } else { 3 }, &|v| {
            let t: Vec<&str> = v.iter().map(|i| gen::CORE[*i]).collect();
            go(&h.replace('◇', &t.concat()));
        });
    }
    ctx.note("any text", "all sequences of tags (68) up to 3 and of tokens (150) up to 2 in 20 positions");
}

fn judge(ctx: &Ctx, k: &Kinds, src: &str, level: u32) {
    for st in styles(src, level) {
        let (s, _) = styled(src, &st);
        ctx.state(1);
        match check(k, &s, (level == 2 && st.one.is_none()).then_some(ctx)) {
            Ok(n) => {
                ctx.transition(n);
                ctx.trace(1);
                if level == 2 && st.left == "-" {
                    ctx.sample(s.clone());
                }
            }
            Err((text, e)) => ctx.violation(&format!("text:{text}"), &format!("in {text:?}: {e}"), &format!("{text}\n\n{e}\n\nmarked template:\n{s}")),
        }
    }
}

pub fn p23(ctx: &Ctx) {
    quiet_panics();
    let k = Kinds { modelled: CONTROL.iter().chain(PLAIN).map(|s| s.to_string()).collect() };
    let ts = templates();
    let q = ctx.quick();
    // fillers by depth: one hole filled, or two neighbours at depth 1
    let holes = ['E', 'P', 'N', 'A', 'D', 'V'];
    let mut depth: Vec<BTreeMap<char, Vec<String>>> = vec![];
    let mut first: BTreeMap<char, Vec<String>> = BTreeMap::new();
    for h in holes {
        first.insert(h, ts.iter().filter(|t| is(t.sort, h)).map(|t| fill(t, &[])).collect());
    }
    depth.push(first);
    for d in 1..(if q { 2 } else { 3 }) {
        let prev = &depth[d - 1];
        let mut m: BTreeMap<char, Vec<String>> = BTreeMap::new();
        for h in holes {
            let mut v = vec![];
            for t in ts.iter().filter(|t| is(t.sort, h)) {
                for (i, hole) in t.holes.iter().enumerate() {
                    for x in &prev[hole] {
                        v.push(fill(t, &[(i, x)]));
                    }
                }
            }
            m.insert(h, v);
        }
        depth.push(m);
    }
    for t in ts.iter().filter(|t| t.sort == "X") {
        judge(ctx, &k, &fill(t, &[]), 2);
    }
    // every template in every hole of every other
    let docs: Vec<&T> = ts.iter().filter(|t| t.sort == "X").collect();
    for (d, fillers) in depth.iter().enumerate() {
        for t in &docs {
            for (i, hole) in t.holes.iter().enumerate() {
                let fs = &fillers[hole];
                par_for(fs.len(), 16, |j| {
                    // delimiters one by one for the small ones only
                    let simple = t.src == docs[0].src;
                    let level = match (d, simple) {
                        (0, _) => 2,
                        (1, true) => 2,
                        (1, false) => 0,
                        _ => 0,
                    };
                    judge(ctx, &k, &fill(t, &[(i, &fs[j])]), level);
                });
            }
        }
        ctx.note("documents", format!("depth {}: {}", d + 1, holes.map(|h| format!("{h} {}", fillers[&h].len())).join(", ")));
    }
    // one more level in the plain document
    let top = depth.last().unwrap();
    let ns: Vec<&T> = ts.iter().filter(|t| t.sort == "N").collect();
    for t in &ns {
        for (i, hole) in t.holes.iter().enumerate() {
            let fs = &top[hole];
            par_for(fs.len(), 16, |j| judge(ctx, &k, &fill(t, &[(i, &fs[j])]), 0));
        }
    }
    // two holes at once
    let f0 = &depth[0];
    for t in &ts {
        for a in 0..t.holes.len() {
            for b in a + 1..t.holes.len() {
                let (x, y) = (&f0[&t.holes[a]], &f0[&t.holes[b]]);
                par_for(x.len(), 4, |i| {
                    for s in y {
                        let f = fill(t, &[(a, &x[i]), (b, s)]);
                        let f = match t.sort {
                            "E" | "P" => format!("⟦TWIG_VAR {{{{·⟦.get_expression {f}⟧·}}}}⟧"),
                            "A" => format!("⟦HTML_TAG ⟦.starting_tag ⟦HTML_STARTING_TAG <⟦.name img⟧·{f}·>⟧⟧⟧"),
                            "D" | "V" => continue,
                            _ => f,
                        };
                        judge(ctx, &k, &f, 0);
                    }
                });
            }
        }
    }
    chains(ctx, &k);
    any_text(ctx);
}

//! Names of elements and attributes (parts of P03 and P04).
use crate::core::{par_for, Ctx};
use crate::parse::*;

/// elements without an end tag (HTML standard and the obsolete ones listed by it)
pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr",
];

/// elements whose content is only text
const RAW: &[&str] = &["script", "style", "textarea", "title"];

const NORMAL: &[&str] = &[
    "a", "abbr", "address", "article", "aside", "audio", "b", "bdi", "bdo", "blockquote", "body", "button", "canvas", "caption", "cite", "code", "colgroup",
    "data", "datalist", "dd", "del", "details", "dfn", "dialog", "div", "dl", "dt", "em", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2",
    "h6", "head", "header", "hgroup", "html", "i", "iframe", "ins", "kbd", "label", "legend", "li", "main", "map", "mark", "math", "menu", "meter", "nav",
    "noscript", "object", "ol", "optgroup", "option", "output", "p", "picture", "pre", "progress", "q", "rp", "rt", "ruby", "s", "samp", "search", "section",
    "select", "slot", "small", "span", "strong", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "tfoot", "th", "thead", "time", "tr", "u",
    "ul", "var", "video", // names of other vocabularies, custom elements, and words of Twig
    "g", "path", "linearGradient", "foreignObject", "x-y", "x-y-z", "sw-icon", "a-b", "x1", "block", "for", "if", "set", "in", "is", "not", "and", "or", "with",
    "only", "include", "extends", "endblock", "else", "true", "null", "twig", "import", "imgs", "brr", "hrs", "inputs", "metas", "links", "colg", "scripts",
    "styles", "titles", "textareas", "twig:A", "twig:AB", "twig:A:B", "twig:a", "twig:block", "twig:a-b", "twig:a_b", "twig:A1", "twig:1", "twig:a-b:c_d:E9", "twig:_", "twig:-",
];

fn accept(ctx: &Ctx, text: &str) {
    ctx.state(1);
    ctx.trace(1);
    ctx.transition(1);
    match parse(text) {
        Err(e) => ctx.violation(&format!("element:{text}"), &format!("{text:?}: {e}"), text),
        Ok(p) => {
            if let Some((a, _, e)) = p.errors.first() {
                ctx.violation(&format!("element:{text}"), &format!("{text:?}: syntax error at byte {a}: {e}"), text);
            }
        }
    }
}

fn reject(ctx: &Ctx, text: &str) {
    ctx.state(1);
    ctx.trace(1);
    ctx.transition(1);
    match parse(text) {
        Err(e) => ctx.violation(&format!("element:{text}"), &format!("{text:?}: {e}"), text),
        Ok(p) => {
            if p.errors.is_empty() {
                ctx.violation(&format!("element:{text}"), &format!("{text:?} is accepted"), text);
            }
        }
    }
}

const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("<p>", "</p>"),
    ("<svg>x", "y</svg>"),
    ("{% block a %}", "{% endblock %}"),
    ("{% if a %}\n  ", "\n{% else %}x{% endif %}"),
];

/// the spellings of a name: as it is, upper case, capitalised
fn spellings(n: &str) -> Vec<String> {
    if n.contains(':') {
        return vec![n.into()];
    }
    let mut v = vec![n.to_string(), n.to_uppercase()];
    let mut c = n.chars();
    let first = c.next().unwrap().to_uppercase();
    v.push(format!("{first}{}", c.as_str()));
    v.dedup();
    v
}

pub fn valid(ctx: &Ctx) {
    par_for(VOID.len(), 1, |i| {
        for n in spellings(VOID[i]) {
            for (a, b) in AROUND {
                for t in ["<◇>", "<◇/>", "<◇ />", "<◇ x=\"y\">", "<◇ x='{{ y }}' z>", "<◇><◇>", "<◇>text<p>z</p>", "<◇\n  x=y\n>"] {
                    accept(ctx, &format!("{a}{}{b}", t.replace('◇', &n)));
                }
            }
        }
    });
    let all: Vec<String> = NORMAL.iter().chain(RAW).flat_map(|n| spellings(n)).collect();
    let firsts: Vec<&str> = NORMAL.iter().chain(RAW).copied().collect();
    par_for(all.len(), 1, |i| {
        let n = &all[i];
        for (a, b) in AROUND {
            for t in ["<◇></◇>", "<◇>x</◇>", "<◇/>", "<◇ x=\"y\"></◇>", "<◇ ></◇ >", "<◇>\n  {{ x }}\n</◇\n>", "<◇>{% if x %}y{% endif %}</◇>", "<◇></◇><◇></◇>"] {
                accept(ctx, &format!("{a}{}{b}", t.replace('◇', n)));
            }
        }
        // the end tag belongs to the innermost element with its name
        if !RAW.contains(&n.to_lowercase().as_str()) {
            for m in firsts.iter().chain(VOID) {
                let end = if VOID.contains(m) { String::new() } else { format!("</{m}>") };
                accept(ctx, &format!("<{n}><{m}>{end}</{n}>"));
                accept(ctx, &format!("<{n}>x<{m} y=\"z\">{end}{{{{ x }}}}</{n}>"));
            }
        } else {
            for m in firsts.iter().chain(VOID) {
                if !m.eq_ignore_ascii_case(n) {
                    for t in ["<◇", "<◇>", "</◇>", "a</◇", "<◇></x>"] {
                        accept(ctx, &format!("<{n}>{}</{n}>", t.replace('◇', m)));
                    }
                }
            }
        }
    });
    attributes(ctx);
}

/// every name of an attribute up to a length over one character per class
fn attributes(ctx: &Ctx) {
    let letters = ["a", "Z"];
    let rest = ["a", "Z", "1", "-", "_"];
    let mut names: Vec<String> = vec![];
    for p in ["", ":", "@", "#", "_", "$"] {
        for l in letters {
            let mut level = vec![format!("{p}{l}")];
            for _ in 0..3 {
                names.extend(level.clone());
                level = level.iter().flat_map(|x| rest.iter().map(move |r| format!("{x}{r}"))).collect();
            }
            if !ctx.quick() {
                names.extend(level);
            }
        }
    }
    // `-->` ends a comment
    names.retain(|n| !n.ends_with('-'));
    ctx.note("names of attributes", names.len().to_string());
    par_for(names.len(), 4, |i| {
        let n = &names[i];
        for t in [
            "<p ◇>x</p>",
            "<p ◇=\"b\">x</p>",
            "<p ◇='b'/>",
            "<p ◇=b c>x</p>",
            "<p ◇ = \"b\">x</p>",
            "<p z ◇ y>x</p>",
            "<p z=\"1\" ◇={{ x }}>x</p>",
            "<p\n    ◇=\"b\"\n    {% if x %}◇{% endif %}>x</p>",
            "<p {% if x %}◇=\"1\"{% else %}◇{% endif %}>x</p>",
            "<twig:A ◇=\"b\"/>",
            "<twig:A:B ◇>x</twig:A:B>",
            "<input ◇>",
        ] {
            let text = t.replace('◇', n);
            accept(ctx, &text);
            let Ok(p) = parse(&text) else { continue };
            // the name is one token of the attribute
            let count = p
                .tree
                .descendants_with_tokens()
                .filter(|e| e.as_token().is_some_and(|t| t.text() == n && t.parent().is_some_and(|p| format!("{:?}", p.kind()) == "HTML_ATTRIBUTE")))
                .count();
            if count != text.matches(n.as_str()).count() && !["b", "c", "x", "y", "z"].contains(&n.as_str()) && n.len() > 1 {
                ctx.violation(&format!("attribute:{text}"), &format!("{text:?}: {n:?} is not the name of an attribute"), &text);
            }
        }
    });
}

/// an end tag which belongs to another element
/// Names of blocks and macros: parts of each other, other case, keywords.
const NAMES: &[&str] = &["a", "b", "ab", "ba", "aa", "aab", "A", "aB", "AB", "a_b", "_a", "a_", "a1", "a2", "a12", "_", "if", "endblock", "block", "set", "macro", "ab_ab"];

pub fn broken(ctx: &Ctx) {
    let names: Vec<&str> = NORMAL.iter().chain(RAW).copied().collect();
    par_for(names.len(), 1, |i| {
        let n = names[i];
        for m in names.iter().chain(VOID) {
            if m.eq_ignore_ascii_case(n) {
                continue;
            }
            for t in ["<◇>x</◆>", "<p><◇></◆></p>", "<◇ a=\"b\">x</◆>y", "{% block a %}<◇></◆>{% endblock %}", "<◆><◇></◆>"] {
                if t.starts_with("<◆>") && (VOID.contains(m) || RAW.contains(m)) {
                    continue;
                }
                if t.starts_with("<p>") && *m == "p" {
                    // `<p><x></p></p>`: still broken
                }
                reject(ctx, &t.replace('◇', n).replace('◆', m));
            }
        }
        reject(ctx, &format!("<{n}>"));
        reject(ctx, &format!("</{n}>"));
        reject(ctx, &format!("<p><{n}></p>"));
        reject(ctx, &format!("<{n}></{n}></{n}>"));
        reject(ctx, &format!("<{n}></ {n}x>"));
    });
    separators(ctx);
    // blocks and macros that are closed by another name
    for (i, n) in NAMES.iter().enumerate() {
        for (j, m) in NAMES.iter().enumerate() {
            for t in [
                "{% block ◇ %}x{% endblock ◆ %}",
                "{%- block ◇ -%}x{%- endblock ◆ -%}y",
                "<p>{% block ◇ %}{% block x %}{% endblock x %}{% endblock ◆ %}</p>",
                "{% macro ◇(x) %}y{% endmacro ◆ %}",
                "{% macro ◇() %}{% block x %}{% endblock %}{% endmacro ◆ %}",
            ] {
                let t = t.replace('◇', n).replace('◆', m);
                if i != j {
                    reject(ctx, &t);
                } else {
                    accept(ctx, &t);
                }
            }
        }
    }
    for n in VOID {
        reject(ctx, &format!("<{n}></{n}>"));
        reject(ctx, &format!("</{n}>"));
        reject(ctx, &format!("<p><{n}>x</{n}></p>"));
    }
}

/// Two operands without anything between them.
fn separators(ctx: &Ctx) {
    const FIRST: &[&str] = &[
        "1", "'s'", "\"s\"", "\"#{s}\"", "a", "a.b", "a[0]", "[1]", "[]", "{c: 1}", "{}", "(d)", "f()", "f(e)", "g|h", "g|h(1)", "-2", "not i", "a + 1", "a is b", "a is same as(b)", "true", "null", "1.5", "1..2",
        "a ? b : c", "a ?? b", "a in b", "x == y",
    ];
    const SECOND: &[&str] = &["1", "'t'", "\"t\"", "\"#{t}\"", "z", "z.b", "{z: 1}", "{}", "h()", "z|h", "true", "none", "2.5", "z + 1"];
    const HOLD: &[(&str, &str)] = &[
        ("{{ [◇, ◆] }}", "{{ [◇ ◆] }}"),
        ("{{ [0, ◇, ◆] }}", "{{ [0, ◇ ◆] }}"),
        ("{{ [◇, ◆, 0] }}", "{{ [◇ ◆, 0] }}"),
        ("{{ [[◇, ◆]] }}", "{{ [[◇ ◆]] }}"),
        ("{{ fn(◇, ◆) }}", "{{ fn(◇ ◆) }}"),
        ("{{ fn(0, ◇, ◆) }}", "{{ fn(0, ◇ ◆) }}"),
        ("{{ fn(n = ◇, m = ◆) }}", "{{ fn(n = ◇ m = ◆) }}"),
        ("{{ fn(n = ◇, m = ◆) }}", "{{ fn(n = ◇, m ◆) }}"),
        ("{{ v.fn(◇, ◆) }}", "{{ v.fn(◇ ◆) }}"),
        ("{{ v|fl(◇, ◆) }}", "{{ v|fl(◇ ◆) }}"),
        ("{{ v|fl(0, ◇, ◆)|k }}", "{{ v|fl(0, ◇ ◆)|k }}"),
        ("{{ v is same as(◇) }}", "{{ v is same as(◇ ◆) }}"),
        ("{{ {k: ◇, l: ◆} }}", "{{ {k: ◇ l: ◆} }}"),
        ("{{ {k: ◇, l: ◆} }}", "{{ {k: ◇, l ◆} }}"),
        ("{{ {k: ◇, 'l': ◆} }}", "{{ {k: ◇ 'l': ◆} }}"),
        ("{{ {'k': ◇, 'l': ◆} }}", "{{ {'k' ◇, 'l': ◆} }}"),
        ("{{ {k: {l: ◇, m: ◆}} }}", "{{ {k: {l: ◇ m: ◆}} }}"),
        ("{{ (◇) }}", "{{ (◇ ◆) }}"),
        ("{{ ◇ }}", "{{ ◇ ◆ }}"),
        ("{{- ◇ -}}", "{{- ◇ ◆ -}}"),
        ("{{ v ? ◇ : ◆ }}", "{{ v ? ◇ ◆ : 0 }}"),
        ("{{ v ? 0 : ◇ }}", "{{ v ? 0 : ◇ ◆ }}"),
        ("{{ v[◇] }}", "{{ v[◇ ◆] }}"),
        ("{{ v[1:◇] }}", "{{ v[1:◇ ◆] }}"),
        ("{{ \"#{◇}\" }}", "{{ \"#{◇ ◆}\" }}"),
        ("{% if ◇ %}y{% endif %}", "{% if ◇ ◆ %}y{% endif %}"),
        ("{% if v %}{% elseif ◇ %}y{% endif %}", "{% if v %}{% elseif ◇ ◆ %}y{% endif %}"),
        ("{% for v in ◇ %}y{% endfor %}", "{% for v in ◇ ◆ %}y{% endfor %}"),
        ("{% set v = ◇ %}", "{% set v = ◇ ◆ %}"),
        ("{% set v, w = ◇, ◆ %}", "{% set v, w = ◇ ◆ %}"),
        ("{% do ◇ %}", "{% do ◇ ◆ %}"),
        ("{% include 'f' with {k: ◇, l: ◆} %}", "{% include 'f' with {k: ◇ l: ◆} %}"),
        ("{% macro m(v = 1, w = 2) %}y{% endmacro %}", "{% macro m(v = 1 w = 2) %}y{% endmacro %}"),
        ("{% macro m(v, w) %}y{% endmacro %}", "{% macro m(v w) %}y{% endmacro %}"),
        ("{% for v, w in u %}y{% endfor %}", "{% for v w in u %}y{% endfor %}"),
        ("{% set v, w = 1, 2 %}", "{% set v w = 1, 2 %}"),
        ("{% from 'f' import v, w %}", "{% from 'f' import v w %}"),
        ("{{ v|map((v, w) => 1) }}", "{{ v|map((v w) => 1) }}"),
        ("{% use 'f' with v as w, y as z %}", "{% use 'f' with v as w y as z %}"),
        ("{{ v|map(v => ◇) }}", "{{ v|map(v => ◇ ◆) }}"),
        ("{% with {k: ◇, l: ◆} %}y{% endwith %}", "{% with {k: ◇ l: ◆} %}y{% endwith %}"),
        ("<p id=\"{{ ◇ }}\">y</p>", "<p id=\"{{ ◇ ◆ }}\">y</p>"),
    ];
    par_for(HOLD.len(), 1, |h| {
        let (ok, bad) = HOLD[h];
        for a in FIRST {
            for b in SECOND {
                let fill = |t: &str| t.replace('◇', a).replace('◆', b);
                // `}}` of nested hashes and `#{{` are known findings (of P03 and P06)
                let braces = |t: &str| t.contains("#{{") || t.matches("}}").count() > t.matches("{{").count() || t.contains("}}}");
                if !braces(&fill(ok)) {
                    accept(ctx, &fill(ok));
                }
                if !braces(&fill(bad)) {
                    reject(ctx, &fill(bad));
                }
            }
        }
    });
}

//! P15: usage rules.
use crate::algebra::*;
use crate::cli::*;
use crate::core::Ctx;
use crate::expect::*;
use crate::p05::{join, Ws};
use crate::rules::*;
use crate::twigref::{self, Canon, BINARY};
use crate::vocab;

/// the documented defaults
pub const FILTERS: &[&str] = &[
    "abs", "batch", "capitalize", "column", "convert_encoding", "country_name", "currency_name", "currency_symbol", "data_uri",
    "date", "date_modify", "default", "escape", "e", "filter", "find", "first", "format", "format_currency", "format_date",
    "format_datetime", "format_number", "format_time", "html_attr_merge", "html_attr_type", "html_to_markdown", "inline_css",
    "inky_to_html", "invoke", "join", "json_encode", "keys", "language_name", "last", "length", "locale_name", "lower", "map",
    "markdown_to_html", "merge", "nl2br", "number_format", "plural", "raw", "reduce", "replace", "reverse", "round", "shuffle",
    "singular", "slice", "slug", "sort", "spaceless", "split", "striptags", "timezone_name", "title", "trim", "u", "upper",
    "url_encode",
];
pub const TESTS: &[&str] = &[
    "constant", "defined", "divisible by", "empty", "even", "iterable", "mapping", "null", "none", "odd", "same as", "sequence",
];
pub const FUNCTIONS: &[&str] = &[
    "attribute", "block", "constant", "country_names", "country_timezones", "currency_names", "cycle", "date", "dump", "enum",
    "enum_cases", "html_attr", "html_classes", "html_cva", "include", "language_names", "locale_names", "max", "min", "parent",
    "random", "range", "script_names", "source", "template_from_string", "timezone_names",
];

fn mutate(list: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = list.iter().map(|s| s.to_string()).collect();
    for n in list {
        v.push(format!("{n}x"));
        v.push(format!("x{n}"));
        v.push(format!("{n}_"));
        let mut c = n.chars();
        let f = c.next().unwrap().to_ascii_uppercase();
        v.push(format!("{f}{}", c.as_str()));
        let mut s = n.to_string();
        s.pop();
        if !s.is_empty() {
            v.push(s.trim_end().to_string());
        }
    }
    v.retain(|s| {
        // words that are two separate tokens only in the list
        !s.contains(' ') || list.contains(&s.as_str())
    });
    v.sort();
    v.dedup();
    v
}

fn quoted_list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", "))
}

/// Every entry of the lists and its mutations in every position of such a name.
fn lists(ctx: &Ctx) {
    let rules = names(USAGE);
    let (vf, vt, vu) = ("twig-valid-filter", "twig-valid-test", "twig-valid-function");
    let base = [Cfg::rules(&rules),
        // own lists: every second default entry and own names
        Cfg::rules(&rules)
            .twig("valid-filters", &quoted_list(&["uppe", "my_filter", "Upper", "e"]))
            .twig("valid-tests", &quoted_list(&["defin", "myTest", "same as"]))
            .twig("valid-functions", &quoted_list(&["my_fn", "rang", "x1"])),
        Cfg::rules(&rules).twig("valid-filters", "[]").twig("valid-tests", "[]").twig("valid-functions", "[]")];
    for (k, cfg) in base.iter().enumerate() {
        let own = |d: &'static [&'static str], o: &'static [&'static str]| -> &'static [&'static str] {
            match k {
                0 => d,
                1 => o,
                _ => &[],
            }
        };
        let filters = own(FILTERS, &["uppe", "my_filter", "Upper", "e"]);
        let tests = own(TESTS, &["defin", "myTest", "same as"]);
        let functions = own(FUNCTIONS, &["my_fn", "rang", "x1"]);
        let mut docs = vec![];
        let mut fnames = mutate(FILTERS);
        fnames.extend(["my_filter", "order", "is_x", "not_a", "in_y"].map(String::from));
        for n in &fnames {
            let ok = filters.contains(&n.as_str());
            for parts in [
                ["{{ a|", " }}"],
                ["{{ a|", "(1, 'x') }}"],
                ["{{ a.b | ", "|upper }}"],
                ["{{ 'x'|upper|", " }}"],
                ["{{ [1, a|", "] }}"],
                ["{{ (a ~ b)|", " }}"],
                ["{% apply ", " %}x{% endapply %}"],
                ["{% set x = a is defined ? a|", " : 1 %}"],
                ["<p class=\"{{ a|", " }}\">x</p>"],
                ["{{ range(a|", ") }}"],
            ] {
                // the filters before in the text are in the default list only
                if parts[0].contains("upper") || parts[1].contains("upper") {
                    if !filters.contains(&"upper") {
                        continue;
                    }
                }
                if (parts[0].contains("range") && !functions.contains(&"range")) || (parts[0].contains("defined") && !tests.contains(&"defined")) {
                    continue;
                }
                if parts[0].contains("apply") && n == "e" && false {
                    continue;
                }
                let mut b = B::new().t(parts[0]);
                if !ok {
                    b = b.f(vf, true);
                }
                docs.push(b.t(n).t(parts[1]).done());
            }
        }
        let mut tnames = mutate(TESTS);
        tnames.extend(["myTest", "order", "weird"].map(String::from));
        // literals of the parser (the core tests null and none always exist)
        tnames.retain(|n| !["null", "none", "true", "false"].contains(&n.to_ascii_lowercase().as_str()));
        for n in &tnames {
            let ok = tests.contains(&n.as_str());
            for parts in [
                ["{{ a is ", " }}"],
                ["{{ a is not ", " }}"],
                ["{% if a is ", " and b %}x{% endif %}"],
                ["{{ a is ", "(1) }}"],
                ["{{ a.b is not ", "('x', y) }}"],
                ["{{ not a is ", " }}"],
                ["{{ (a is ", ") }}"],
                ["{{ [a is ", ", b] }}"],
            ] {
                let mut b = B::new().t(parts[0]);
                if !ok {
                    b = b.f(vt, true);
                }
                docs.push(b.t(n).t(parts[1]).done());
            }
        }
        let mut unames = mutate(FUNCTIONS);
        unames.extend(["my_fn", "x1", "order", "upper", "defined"].map(String::from));
        for n in &unames {
            let ok = functions.contains(&n.as_str());
            for parts in [
                ["{{ ", "() }}"],
                ["{{ ", "(a, 'x') }}"],
                ["{{ a ~ ", "(b) }}"],
                ["{{ ", "(a).b }}"],
                ["{{ ", "(1)[0] }}"],
                ["{{ [", "(a)] }}"],
                ["{{ not ", "(a) }}"],
                ["{% for x in ", "(a) %}x{% endfor %}"],
                ["{% if ", "(a) %}x{% endif %}"],
                ["{{ a ? ", "(b) : c }}"],
                ["{{ ", "(a) == b }}"],
                ["{{ b == ", "(a) }}"],
            ] {
                let mut b = B::new().t(parts[0]);
                if !ok {
                    b = b.f(vu, true);
                }
                docs.push(b.t(n).t(parts[1]).done());
            }
            // methods, properties and macros of an object are no functions
            for parts in [["{{ a.", "(1) }}"], ["{{ _self.", "() }}"], ["{{ a.", " }}"]] {
                docs.push(B::new().t(parts[0]).t(n).t(parts[1]).done());
            }
        }
        check_docs(ctx, &docs, cfg, &rules, &format!("lists{k} "));
    }
}

/// Filter chains: raw is reported exactly if json_encode is applied before it.
fn json(ctx: &Ctx, len: usize) {
    let rules = names(USAGE);
    let pieces = ["json_encode", "json_encode(1)", "raw", "upper", "default(y|raw)", "merge(z|json_encode)", "e('html')"];
    let mut docs = vec![];
    for c in strings(&["0", "1", "2", "3", "4", "5", "6"], 1, len) {
        for (pre, post) in [("{{ a|", " }}"), ("{{ f.g(1)|", " }}"), ("{% if 'x'|", " %}x{% endif %}"), ("{{ [b, a|", "] }}")] {
            let mut b = B::new().t(pre);
            let mut seen = false;
            for (i, d) in c.bytes().enumerate() {
                let p = pieces[(d - b'0') as usize];
                if i > 0 {
                    b = b.t("|");
                }
                if p == "raw" && seen {
                    b = b.f("twig-json-encode-escape-js", false).r("twig-json-encode-escape-js", "raw", "escape('js')");
                } else {
                    b = b.t(p);
                }
                seen |= p.starts_with("json_encode");
            }
            docs.push(b.t(post).done());
        }
    }
    for c in strings(&["0", "1", "2", "3", "4", "5", "6"], 1, len.min(4)) {
        let mut b = B::new().t("{% apply ");
        let mut seen = false;
        for (i, d) in c.bytes().enumerate() {
            let p = pieces[(d - b'0') as usize];
            if i > 0 {
                b = b.t("|");
            }
            if p == "raw" && seen {
                b = b.f("twig-json-encode-escape-js", false).r("twig-json-encode-escape-js", "raw", "escape('js')");
            } else {
                b = b.t(p);
            }
            seen |= p.starts_with("json_encode");
        }
        docs.push(b.t(" %}x{% endapply %}").done());
    }
    // inside arguments the chain is its own
    for (t, hit) in [
        ("{{ a|default(y|json_encode|«) }}", true),
        ("{{ a|json_encode|default(y|«) }}", false),
        ("{{ a|default(y|json_encode)|« }}", false),
        ("{{ f(a|json_encode|«) }}", true),
        ("{{ f(a|json_encode)|« }}", false),
        ("{{ [a|json_encode]|« }}", false),
        ("{{ a|json_encode ~ b|« }}", false),
        ("{{ b ~ a|json_encode|« }}", true),
        ("{{ (c ? a : b)|json_encode|« }}", true),
        ("{{ a|json_encode ? b|« : c }}", false),
        ("{{ a.raw|json_encode|« }}", true),
        ("{{ raw|json_encode|« }}", true),
        ("{{ json_encode|« }}", false),
        ("{{ a.json_encode|« }}", false),
        ("{{ json_encode(a)|« }}", false),
    ] {
        let (pre, post) = t.split_once('«').unwrap();
        let mut b = B::new();
        if pre.contains("f(") {
            b = b.t("{{ ").f("twig-valid-function", true).t(pre.strip_prefix("{{ ").unwrap());
        } else if pre.contains("json_encode(") {
            b = b.t("{{ ").f("twig-valid-function", true).t(pre.strip_prefix("{{ ").unwrap());
        } else {
            b = b.t(pre);
        }
        b = if hit {
            b.f("twig-json-encode-escape-js", false).r("twig-json-encode-escape-js", "raw", "escape('js')")
        } else {
            b.t("raw")
        };
        docs.push(b.t(post).done());
    }
    check_docs(ctx, &docs, &Cfg::rules(&rules), &rules, "json ");
}

/// Hash keys over an alphabet, both quotes, several positions of the entry.
fn hash_keys(ctx: &Ctx, len: usize) {
    let rule = "twig-hash-key-no-quotes";
    let rules = names(USAGE);
    let mut keys = strings(&["a", "B", "1", "_", "-", " ", ".", "é"], 0, len);
    for k in ["if", "in", "is", "not", "or", "and", "true", "null", "block", "with", "for", "b-or", "same as", "starts with", "is not", "class", "data-x", "@x", "x:y", "#x", "$x"] {
        keys.push(k.to_string());
    }
    let plain = |k: &str| {
        let b = k.as_bytes();
        !k.is_empty() && (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
    };
    let mut docs = vec![];
    for k in &keys {
        for q in ["'", "\""] {
            for (pre, post) in [
                ("{{ { ", ": 1 } }}"),
                ("{{ {", ":1} }}"),
                ("{{ { a: 1, ", ": 2, b: 3 } }}"),
                ("{% set x = { (y): 1, ", " : 'z', } %}"),
                ("{% include 'x' with { ", ": { c: 1 } } %}"),
                ("<p class=\"{{ x({ ", ": 1 }) }}\">y</p>"),
            ] {
                let mut b = B::new();
                if let Some(r) = pre.strip_prefix("<p class=\"{{ ") {
                    b = b.t("<p class=\"{{ ").f("twig-valid-function", true).t(r);
                } else {
                    b = b.t(pre);
                }
                if plain(k) {
                    b = b.f(rule, false).r(rule, q, "").t(k).r(rule, q, "");
                } else {
                    b = b.t(q).t(k).t(q);
                }
                docs.push(b.t(post).done());
            }
        }
    }
    // strings that are no keys
    for t in ["{{ 'a' }}", "{{ ['a'] }}", "{{ { a: 'b' } }}", "{{ { ('a'): 1 } }}", "{{ x['a'] }}", "{{ { 1: 'a' } }}", "{{ { a, b } }}"] {
        docs.push(B::new().t(t).done());
    }
    check_docs(ctx, &docs, &Cfg::rules(&rules), &rules, "keys ");
}

/// All chains of operators: the four pseudo operators are reported at their place; after --fix the
/// expression has the same meaning (reference parser) and none of them is left.
fn chains(ctx: &Ctx, n: usize, styles: &[Ws], wraps: &[(&str, &str)]) {
    let rules = names(&["an", "or", "sa", "ns"]);
    let rule_of = |op: &str| match op {
        "&&" => Some(rules[0]),
        "||" => Some(rules[1]),
        "===" => Some(rules[2]),
        "!==" => Some(rules[3]),
        _ => None,
    };
    let nb = BINARY.len();
    let un_all: &[&str] = if n <= 2 { &["", "not", "-"] } else { &[""] };
    let mut texts: Vec<String> = vec![];
    let mut meta: Vec<(usize, usize, Vec<Want>)> = vec![]; // start, end of the expression, findings
    let operands = ["a", "b.c", "d|upper", "(e or f)", "g"];
    let flush = |texts: &mut Vec<String>, meta: &mut Vec<(usize, usize, Vec<Want>)>| {
        let cfg = Cfg::rules(&rules);
        run_all(
            texts,
            &cfg,
            Mode::Lint,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                ctx.outcome(&outcome_of(&fo.diags, &rules), 1);
                let mut r = rules.clone();
                r.push("SyntaxError");
                if let Some(d) = diff_findings(&texts[i], &meta[i].2, &fo.diags, &r) {
                    ctx.violation(&format!("chain lint:{}", texts[i]), &format!("lint of {:?}: {d}", texts[i]), &texts[i]);
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
        run_all(
            texts,
            &cfg,
            Mode::Fix,
            |i, fo| {
                ctx.state(1);
                ctx.trace(1);
                let (s, e, _) = meta[i];
                let t = &texts[i];
                let after = fo.after.as_deref().unwrap_or("");
                let fail = |why: String| {
                    ctx.violation(&format!("chain fix:{t}"), &format!("--fix of {t:?} gives {after:?}: {why}"), t);
                };
                if !fo.diags.is_empty() {
                    return fail(format!("finding remains: {}", fo.diags[0].raw));
                }
                let (pre, expr, post) = (&t[..s], &t[s..e], &t[e..]);
                let Some(got) = after.strip_prefix(pre).and_then(|x| x.strip_suffix(post)) else {
                    return fail("text around the expression changed".into());
                };
                match (twigref::parse(expr, Canon::Meaning), twigref::parse(got, Canon::Meaning)) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Ok(a), Ok(b)) => return fail(format!("means {b} instead of {a}")),
                    (a, b) => return fail(format!("reference parser: {a:?} {b:?}")),
                }
                let toks = twigref::tokenize(got).unwrap_or_default();
                if toks.iter().any(|t| matches!(t, twigref::Tok::Op("&&" | "||" | "===" | "!=="))) {
                    fail("a pseudo operator is left".into());
                }
            },
            |c, run, why| batch_error(ctx, c, run, &why),
        );
        texts.clear();
        meta.clear();
    };
    let special: Vec<usize> = (0..nb).filter(|o| rule_of(BINARY[*o].0).is_some()).collect();
    for i in 0..nb.pow(n as u32) {
        let mut x = i;
        let ops: Vec<usize> = (0..n)
            .map(|_| {
                let d = x % nb;
                x /= nb;
                d
            })
            .collect();
        if !ops.iter().any(|o| special.contains(o)) {
            continue;
        }
        ctx.transition(n as u64);
        for u in 0..un_all.len().pow(n as u32 + 1) {
            let mut x = u;
            let un: Vec<&str> = (0..=n)
                .map(|_| {
                    let d = x % un_all.len();
                    x /= un_all.len();
                    un_all[d]
                })
                .collect();
            if (0..n).any(|k| BINARY[ops[k]].0.starts_with("is") && !un[k + 1].is_empty()) {
                continue;
            }
            let mut toks: Vec<&str> = vec![];
            for k in 0..=n {
                if k > 0 {
                    toks.push(BINARY[ops[k - 1]].0);
                    if BINARY[ops[k - 1]].0.starts_with("is") {
                        toks.push(["defined", "same as(x)", "even"][(i + k) % 3]);
                        continue;
                    }
                }
                if !un[k].is_empty() {
                    toks.push(un[k]);
                }
                toks.push(operands[(k + i) % operands.len()]);
            }
            for w in styles {
                let e = join(&toks, *w);
                for (pre, post) in wraps {
                    let text = format!("{pre}{e}{post}");
                    let mut want = vec![];
                    let mut from = 0;
                    for t in &toks {
                        let off = from + e[from..].find(t).unwrap();
                        if let Some(r) = rule_of(t) {
                            want.push(Want { off: pre.len() + off, rule: r });
                        }
                        from = off + t.len();
                    }
                    meta.push((pre.len(), pre.len() + e.len(), want));
                    texts.push(text);
                }
            }
        }
        if texts.len() >= 48_000 {
            flush(&mut texts, &mut meta);
            if ctx.violation_count() > 500 {
                return;
            }
        }
    }
    flush(&mut texts, &mut meta);
}

pub fn p15(ctx: &Ctx) {
    let rules = names(USAGE);
    lists(ctx);
    json(ctx, if ctx.quick() { 4 } else { 6 });
    hash_keys(ctx, if ctx.quick() { 3 } else { 4 });
    let simple = [("{{ ", " }}")];
    chains(ctx, 1, &[Ws::Space, Ws::Minimal, Ws::Wide], &[("{{ ", " }}"), ("{{", "}}"), ("{%- if ", " -%}x{% endif %}"), ("{{ f(", ") }}"), ("{{ [1, ", "] }}"), ("{{ x ? ", " : 2 }}"), ("<p class=\"{{ ", " }}\"></p>")]);
    chains(ctx, 2, &[Ws::Space, Ws::Minimal], &simple);
    if ctx.quick() {
        chains(ctx, 3, &[Ws::Space], &simple);
    } else {
        chains(ctx, 2, &[Ws::Space, Ws::Minimal, Ws::Wide], &[("{% if ", " %}x{% endif %}"), ("{{ x ? ", " : 2 }}")]);
        chains(ctx, 3, &[Ws::Space, Ws::Minimal, Ws::Wide], &simple);
        chains(ctx, 4, &[Ws::Space], &simple);
    }
    let alg = vocab::all().with_rules(&rules);
    explore(ctx, &alg, &Cfg::rules(&rules), &rules, depth(ctx), "");
}

//! P05: operator precedence, checked for every chain of operators against `twigref`.
use crate::core::{par_for, Ctx};
use crate::parse::*;
use crate::twigref::{self, Canon, BINARY};
use ludtwig_parser::syntax::untyped::SyntaxKind;

const TESTS: &[&str] = &["defined", "even", "weird", "same as(x)", "divisible by(3)", "constant('X')", "my_test(y, z)", "empty", "iterable", "same as 0", "divisible by k", "same as k.m|f(1)", "same as -1"];
const KEYWORDS: &[&str] = &[
    "or", "and", "not", "in", "is", "matches", "starts", "ends", "with", "only", "as", "by", "same", "divisible", "if",
    "else", "elseif", "endif", "for", "endfor", "block", "endblock", "set", "endset", "extends", "include", "embed",
    "import", "from", "macro", "use", "verbatim", "apply", "autoescape", "cache", "do", "flush", "sandbox", "trans",
    "deprecated", "props", "component", "ignore", "missing", "ttl", "tags", "true", "false", "null", "none", "even",
    "odd", "defined", "constant", "empty", "iterable", "max", "min", "range", "cycle", "random", "date", "source",
    "return", "style", "sw_icon", "sw_include", "sw_extends", "b", "DOCTYPE", "twig", "parent", "loop", "_self",
    "between", "reduce",
];

/// Check one expression; `holder` contains `◆`.
pub fn check(ctx: &Ctx, expr: &str, want: Option<&str>, holder: &str) {
    let text = holder.replace('◆', expr);
    ctx.state(1);
    ctx.trace(1);
    let fail = |why: String| {
        ctx.violation(
            &format!("expr:{text}"),
            &format!("{text:?}: {why}"),
            &format!("template: {text}\nexpression: {expr}\n{why}\nreplay: ludtwig_parser::parse(template)"),
        );
    };
    let want = match want {
        Some(w) => w.to_string(),
        None => match twigref::parse(expr, Canon::Exact) {
            Ok(w) => w,
            Err(e) => return fail(format!("reference parser: {e}")),
        },
    };
    let p = match parse(&text) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    if let Some(e) = p.errors.first() {
        return fail(format!("syntax error {}", e.2));
    }
    let trimmed = expr.trim();
    let Some(n) = find_text(&p.tree, SyntaxKind::TWIG_EXPRESSION, trimmed) else {
        return fail("no expression node with this text".into());
    };
    match twigref::of_tree(&n) {
        Ok(got) if got == want => {
            if expr.len() < 12 {
                ctx.outcome(got.split(' ').next().unwrap_or("").trim_start_matches('('), 1);
            }
        }
        Ok(got) => fail(format!("grouped as {got}, expected {want}")),
        Err(e) => fail(format!("{e}, expected {want}")),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ws {
    Space,
    Minimal,
    Wide,
}

/// Join tokens of an expression with the given whitespace style.
pub fn join(toks: &[&str], ws: Ws) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let a = s.chars().last().unwrap_or(' ');
            let b = t.chars().next().unwrap_or(' ');
            let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
            let tight = ws == Ws::Minimal
                && !(word(a) && word(b))
                // a name directly followed by '-' is lexed as one word (known finding)
                && !(word(a) && b == '-')
                && !(a == '-' && b == '-')
                // digits and dots
                && !(a.is_ascii_digit() && b == '.')
                // two symbols that would join to another operator
                && !(!word(a) && !word(b) && joins(a, b));
            if !tight {
                s.push_str(match ws {
                    Ws::Wide => ["  ", "\t", "\n ", " \r\n\t"][i % 4],
                    _ => " ",
                });
            }
        }
        s.push_str(t);
    }
    s
}

fn joins(a: char, b: char) -> bool {
    !(matches!(b, '-' | '+' | '(' | '[' | '\'' | '"') && matches!(a, '(' | '[' | '=' | '*' | '+' | '<' | '>' | '~' | '&' | '|' | '/' | ':' | '?'))
        && !matches!((a, b), (')', _) | (']', _) | ('\'', _) | ('"', _))
}

const OPERANDS: &[&str] = &["a", "b", "c", "d", "e"];

/// all chains with `n` operators; `unary[i]` index into "", not, -, +
fn chain<'x>(ops: &[usize], unary: &[usize], tests: &[usize]) -> Vec<&'x str> {
    let mut v: Vec<&'x str> = vec![];
    let un = ["", "not", "-", "+"];
    for i in 0..=ops.len() {
        if i > 0 {
            v.push(BINARY[ops[i - 1]].0);
            if BINARY[ops[i - 1]].0.starts_with("is") {
                v.push(TESTS[tests[i - 1]]);
                continue;
            }
        }
        if unary[i] > 0 {
            v.push(un[unary[i]]);
        }
        v.push(OPERANDS[i]);
    }
    v
}

fn digits(mut x: usize, base: usize, n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for d in v.iter_mut() {
        *d = x % base;
        x /= base;
    }
    v
}

fn chains(ctx: &Ctx, n: usize, unary_base: usize, tests: usize, styles: &[Ws], holder: &str) {
    let nb = BINARY.len();
    let total = nb.pow(n as u32);
    par_for(total, 64, |i| {
        let ops = digits(i, nb, n);
        ctx.transition(n as u64);
        let is_count = ops.iter().filter(|o| BINARY[**o].0.starts_with("is")).count();
        for u in 0..unary_base.pow(n as u32 + 1) {
            let un = digits(u, unary_base, n + 1);
            // unary in front of a test is no expression
            if (0..n).any(|k| BINARY[ops[k]].0.starts_with("is") && un[k + 1] > 0) {
                continue;
            }
            for t in 0..if is_count > 0 { tests } else { 1 } {
                let ts: Vec<usize> = (0..n).map(|k| (t + k * 2) % TESTS.len()).collect();
                let toks = chain(&ops, &un, &ts);
                for w in styles {
                    check(ctx, &join(&toks, *w), None, holder);
                }
            }
        }
    });
}

/// one unary operator at any position of a chain
fn chains_one_unary(ctx: &Ctx, n: usize, holder: &str) {
    let nb = BINARY.len();
    par_for(nb.pow(n as u32), 64, |i| {
        let ops = digits(i, nb, n);
        ctx.transition(n as u64);
        for pos in 0..=n {
            if pos > 0 && BINARY[ops[pos - 1]].0.starts_with("is") {
                continue;
            }
            for u in 1..4 {
                let mut un = vec![0; n + 1];
                un[pos] = u;
                let ts = vec![i % TESTS.len(); n];
                check(ctx, &join(&chain(&ops, &un, &ts), Ws::Space), None, holder);
            }
        }
        let un = vec![0; n + 1];
        let ts = vec![(i / 7) % TESTS.len(); n];
        let toks = chain(&ops, &un, &ts);
        check(ctx, &join(&toks, Ws::Space), None, holder);
    });
}

fn ternaries(ctx: &Ctx, full: bool) {
    let nb = BINARY.len();
    let mk = |o: usize, k: usize| -> String {
        let op = BINARY[o].0;
        if op.starts_with("is") {
            format!("{} {op} defined", OPERANDS[k])
        } else {
            format!("{} {op} {}", OPERANDS[k], OPERANDS[k + 1])
        }
    };
    par_for(nb * nb, 8, |i| {
        let (x, y) = (i % nb, i / nb);
        ctx.transition(1);
        check(ctx, &format!("{} ? {} : z", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("{} ? z : {}", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("z ? {} : {}", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("{} ?: {}", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("{} ? {}", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("{} ? {} ? 1 : 2 : 3", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("{} ? 1 : {} ? 2 : 3", mk(x, 0), mk(y, 2)), None, "{{ ◆ }}");
        check(ctx, &format!("({} ? 1 : 2) {} y", "a", "=="), None, "{{ ◆ }}");
        if full {
            for z in 0..nb {
                check(ctx, &format!("{} ? {} : {}", mk(x, 0), mk(y, 2), mk(z, 1)), None, "{{ ◆ }}");
            }
        }
    });
}

/// richer operands: postfix chains, parentheses, literals in every operand position
fn operands(ctx: &Ctx) {
    let rich = [
        "a.b", "a.b.c(1)", "a|upper", "a|slice(1, b)", "a.b|upper|lower", "f(x)", "f(x, 1 + 2)", "a[0]", "a[b + 1].c", "(a)", "(a + b)", "(a or b)",
        "(a ? b : c)", "((a))", "[1, a]", "'s t'", "1", "1.5", "(not a)", "a.or", "a.in", "a.and", "(a)|upper", "(a or b).c", "[a, b][0]", "'x'|upper", "a.0",
        "-a|upper", "not a.b", "not (a)", "- 1", "(-a)|abs",
    ];
    let nb = BINARY.len();
    par_for(rich.len() * nb, 4, |i| {
        let r = rich[i % rich.len()];
        let op = BINARY[i / rich.len()].0;
        ctx.transition(1);
        let is = op.starts_with("is");
        let rhs = if is { "defined" } else { "y" };
        check(ctx, &format!("{r} {op} {rhs}"), None, "{{ ◆ }}");
        for o2 in BINARY {
            let is2 = o2.0.starts_with("is");
            let third = if is2 { "even" } else { "z" };
            check(ctx, &format!("{r} {op} {rhs} {} {third}", o2.0), None, "{{ ◆ }}");
            if !is {
                check(ctx, &format!("y {op} {r} {} {third}", o2.0), None, "{{ ◆ }}");
                if !is2 {
                    check(ctx, &format!("y {op} z {} {r}", o2.0), None, "{{ ◆ }}");
                }
            }
        }
    });
}

/// names that merely contain a keyword are plain names
fn names(ctx: &Ctx) {
    let mut names: Vec<String> = vec![];
    for k in KEYWORDS {
        for n in [
            format!("{k}x"),
            format!("x{k}"),
            format!("{k}_y"),
            format!("y_{k}"),
            format!("x{k}y"),
            format!("{k}1"),
            format!("_{k}"),
            format!("{k}_"),
            format!("{k}{k}"),
            format!("{}X", k.to_uppercase()),
            format!("is{k}"),
            format!("not{k}"),
            format!("in{k}"),
        ] {
            if !KEYWORDS.contains(&n.as_str()) && !names.contains(&n) {
                names.push(n);
            }
        }
    }
    for a in ["same", "divisible", "ends", "starts"] {
        names.push(a.to_string());
    }
    par_for(names.len(), 8, |i| {
        let n = names[i].as_str();
        ctx.transition(1);
        check(ctx, n, None, "{{ ◆ }}");
        check(ctx, n, None, "{% if ◆ %}x{% endif %}");
        check(ctx, &format!("{n}.{n}"), None, "{{ ◆ }}");
        check(ctx, &format!("{n}({n})"), None, "{{ ◆ }}");
        check(ctx, &format!("a|{n}"), None, "{{ ◆ }}");
        check(ctx, &format!("a ? {n} : {n}"), None, "{{ ◆ }}");
        check(ctx, &format!("not {n}"), None, "{{ ◆ }}");
        check(ctx, &format!("[{n}, {n}]"), None, "{{ ◆ }}");
        for (op, _, _) in BINARY {
            if op.starts_with("is") {
                if !n.starts_with("same") && !n.starts_with("divisible") {
                    check(ctx, &format!("a {op} {n}"), None, "{{ ◆ }}");
                    check(ctx, &format!("a {op} {n}(1)"), None, "{{ ◆ }}");
                }
                check(ctx, &format!("{n} {op} defined"), None, "{{ ◆ }}");
                continue;
            }
            check(ctx, &format!("{n} {op} y"), None, "{{ ◆ }}");
            check(ctx, &format!("y {op} {n}"), None, "{{ ◆ }}");
            check(ctx, &format!("{n} {op} {n}"), None, "{{ ◆ }}");
        }
    });
}

pub fn p05(ctx: &Ctx) {
    quiet_panics();
    let all = [Ws::Space, Ws::Minimal, Ws::Wide];
    chains(ctx, 1, 4, TESTS.len(), &all, "{{ ◆ }}");
    for h in [
        "{% if ◆ %}x{% endif %}",
        "{% set q = ◆ %}",
        "{% for q in ◆ %}x{% endfor %}",
        "{% do ◆ %}",
        "{{ f(◆) }}",
        "{{ [◆] }}",
        "{{ { k: ◆ } }}",
        "{{ (◆) }}",
        "{{ q|f(◆) }}",
        "{{ q[◆] }}",
        "<p class=\"{{ ◆ }}\" {% if ◆ %}x{% endif %}></p>",
        "<script>{{ ◆ }}</script>",
        "{% block b %}{{ ◆ }}{% endblock %}",
        "{{- ◆ -}}",
        "{% include 'x' with ◆ only %}",
        "{{ \"a #{◆} b\" }}",
        "{{ f(q => ◆) }}",
        "{{ f((q, r) => ◆) }}",
        "{{ q|f(r => ◆, s) }}",
        "{{ f(k=◆) }}",
        "{{ q|f(r, k=◆) }}",
        "{{ q.f(r, ◆) }}",
        "{{ q[◆:] }}",
        "{{ q[:◆] }}",
        "{{ q[r:◆] }}",
        "{{ [q, ◆, r] }}",
        "{{ {(◆): 1} }}",
        "{{ {q, k: ◆, r: s} }}",
        "{{ {'k': ◆} }}",
        "{{ q ? ◆ : r }}",
        "{{ q ? r : ◆ }}",
        "{{ q ? ◆ }}",
        "{{ q is g(◆) }}",
        "{{ q is same as(◆) }}",
        "{{ ((◆)) }}",
        "{{ 'x' ~ (◆) ~ 'y' }}",
        "{% if q %}{% elseif ◆ %}x{% endif %}",
        "{% if (◆) %}x{% endif %}",
        "{% set q, r = s, ◆ %}",
        "{% set q, r = ◆, s %}",
        "{% macro q(r = ◆) %}x{% endmacro %}",
        "{% macro q(r, s = ◆, t = 1) %}x{% endmacro %}",
        "{% cache ◆ %}x{% endcache %}",
        "{% cache 'q' ttl(◆) tags(r) %}x{% endcache %}",
        "{% cache 'q' ttl(1) tags(◆) %}x{% endcache %}",
        "{% with ◆ only %}x{% endwith %}",
        "{% with ◆ %}x{% endwith %}",
        "{% embed ◆ with q %}{% endembed %}",
        "{% embed 'x' with ◆ only %}{% endembed %}",
        "{% apply q(◆)|r %}x{% endapply %}",
        "{% apply q|r(◆) %}x{% endapply %}",
        "{% props q = ◆, r %}",
        "{% return ◆ %}",
        "{% sw_include ◆ with q %}",
        "{% include ◆ ignore missing with q only %}",
        "{% import ◆ as q %}",
        "{% from ◆ import q %}",
        "{% extends ◆ %}",
        "{% block q ◆ %}",
        "{% component q with {r: ◆} %}{% endcomponent %}",
        "<a {{ ◆ }} {{ q }}=\"{{ ◆ }}\" b={{ ◆ }}></a>",
    ] {
        chains(ctx, 1, 4, 1, &[Ws::Space], h);
        chains(ctx, 2, 1, 1, &[Ws::Space], h);
        // a condition is taken as a whole as well (a slice has colons of its own)
        if !(h.contains("[◆:") || h.contains("? ◆")) {
            for e in ["a ? b : c", "a or b ? c : d", "a ? b : c or d", "a ? b ? c : d : e", "a ?: b", "a ? b", "a ? b : c ? d : e"] {
                check(ctx, e, None, h);
            }
        }
    }
    chains(ctx, 2, 4, TESTS.len(), &all, "{{ ◆ }}");
    chains_one_unary(ctx, 3, "{{ ◆ }}");
    chains(ctx, 3, 1, 1, &[Ws::Minimal, Ws::Wide], "{{ ◆ }}");
    ternaries(ctx, !ctx.quick());
    operands(ctx);
    names(ctx);
    if !ctx.quick() {
        chains(ctx, 3, 4, 2, &[Ws::Space], "{{ ◆ }}");
        chains(ctx, 3, 2, 1, &all, "{% if ◆ %}x{% endif %}");
        chains(ctx, 4, 1, 1, &[Ws::Space, Ws::Minimal], "{{ ◆ }}");
        chains_one_unary(ctx, 4, "{{ ◆ }}");
    }
    // known findings: a name directly followed by '-' is one word
    for e in ["a-b", "i-1", "f(a-1)"] {
        check(ctx, e, None, "{{ ◆ }}");
    }
    for e in ["a + b * c ** d ?? e", "not a in b", "a or b and c", "a is defined ?? b"] {
        ctx.sample(format!("{e} -> {}", twigref::parse(e, Canon::Exact).unwrap_or_default()));
    }
}

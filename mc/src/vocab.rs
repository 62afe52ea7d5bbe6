//! The vocabulary: every construct of the language, as snippets and contexts of the algebra.
use crate::algebra::*;

/// Expression snippets. `P` may stand as an operand, the others need an expression position.
pub fn exprs() -> Vec<Tmpl> {
    let mut v = vec![];
    let p = |s| Tmpl::snip(E | P, s);
    let e = |s| Tmpl::snip(E, s);
    for s in [
        "foo",
        "_x1",
        "order",
        "notice",
        "android",
        "inner",
        "isActive",
        "starts_x",
        "42",
        "1.5",
        "'str'",
        "''",
        "'é ü'",
        r"'a\'b'",
        r#"«!sq*»«"→'»dq«"→'»"#,
        r#"«!sq*»«"→'»«"→'»"#,
        r#"«!sq»"it's""#,
        r##""a #{b} c""##,
        r##""#{b|upper}""##,
        "'plain {{ x }} {% y %} <b>'",
        "true",
        "false",
        "null",
        "none",
        "[]",
        "[1, foo]",
        "[1, [2, 3],]",
        "[...foo, 1]",
        "{}",
        "{ a: 1 }",
        "{ «!hk*»«'→»k«'→»: 1 }",
        "{ «!hk*»«'→»k1«'→»: 1, l: 2, «!hk*»«'→»m«'→»: 3 }",
        "{ 'a-b': 1 }",
        "{ 'a b': 1 }",
        "{ '1a': 1 }",
        "{ '': 1 }",
        "{ (foo): 1 }",
        "{ a, b }",
        "{ 1: 2 }",
        "{ a: 1, }",
        "foo.bar",
        "foo.bar.baz",
        "foo.0",
        "foo['x']",
        "foo[1]",
        "foo[1:2]",
        "foo[:2]",
        "foo[1:]",
        "foo.bar(1, x).baz",
        "foo.if",
        "foo.block",
        "«!vu»myFn()",
        "«!vu»my_fn(1, «!vu»other())",
        "range(1, 3)",
        "parent()",
        "block('x')",
        "date(a, timezone='x')",
        "max(...foo)",
        "foo|upper",
        "foo|«!vf»nofilt",
        "foo|«!vf»nofilt(1, 'x')",
        "foo|slice(0, 3)",
        "foo|upper|«!vf»nofilt|lower",
        "foo|json_encode|«!je*»«raw→escape('js')»",
        "foo|json_encode(1)|«!je*»«raw→escape('js')»",
        "foo|json_encode|upper|«!je*»«raw→escape('js')»",
        "foo|raw",
        "foo|raw|json_encode",
        "foo|e('html')",
        "foo|date('Y-m-d')|length",
        "foo|filter(x => x.y)",
        "foo|map((k, v) => k)",
        "foo.bar|default('x')",
        "(foo)",
        "(1 + 2)",
        "(a «!an*»«&&→and» b)",
    ] {
        v.push(p(s));
    }
    for s in [
        "not foo",
        "-foo",
        "+1",
        "not not foo",
        "a «!an*»«&&→and» b",
        "a «!or*»«||→or» b",
        "a «!an*»«&&→and» b «!or*»«||→or» c «!an*»«&&→and» d",
        "a and b",
        "a or b",
        "a «!sa*»«=== →is same as(»b«→)»",
        "a «!sa*»«=== →is same as(»b.c|upper«→)»",
        "a «!ns*»«!== →is not same as(»b«→)»",
        "a is defined",
        "a is not defined",
        "a is «!vt»weird",
        "a is not «!vt»weird",
        "a is «!vt»weird(1)",
        "a is same as(b)",
        "a is not same as(b)",
        "a is divisible by(3)",
        "a is constant('X')",
        "a is not «!vt»«weird→weird»(«!vu»fn())",
        "a is iterable and b is even",
        "a in b",
        "a not in b",
        "a in [1, 2]",
        "a matches '/x/'",
        "a starts with 'b'",
        "a ends with 'b'",
        "a b-and b",
        "a b-or b",
        "a b-xor b",
        "1..3",
        "a ~ 'b' ~ c",
        "a ?? b",
        "a ** 2",
        "a // 2",
        "a % 2",
        "a * 2 + 1",
        "a - 1",
        "a / 2",
        "a <=> b",
        "a == b",
        "a != b",
        "a < b",
        "a > b",
        "a <= b",
        "a >= b",
        "a ? 1 : 2",
        "a ? 'x'",
        "a ?: b",
        "a ? b ? 1 : 2 : 3",
        "a has some b",
    ] {
        if s == "a has some b" || s.contains("weird→weird") {
            continue;
        }
        v.push(e(s));
    }
    v
}

/// Contexts whose hole and result are expressions.
pub fn expr_ctxs() -> Vec<Tmpl> {
    let mut v = vec![];
    for s in [
        "(◆)",
        "[◆]",
        "[1, ◆, 2]",
        "{ a: ◆ }",
        "{ a: 1, b: ◆, }",
        "{ (◆): 1 }",
        "range(◆)",
        "range(1, ◆)",
        "date(x, timezone=◆)",
        "«!vu»myFn(◆)",
        "foo|slice(◆)",
        "foo|«!vf»nofilt(1, ◆)",
        "foo[◆]",
        "foo.call(◆)",
        "foo|filter(x => ◆)",
        "foo|reduce((c, v) => ◆, 0)",
    ] {
        v.push(Tmpl::ctx(E, E | P, s));
    }
    for s in [
        "c ? ◆ : 2",
        "c ? 1 : ◆",
        "c ?: ◆",
        "c is same as(◆)",
        "c is divisible by(◆)",
        "c is «!vt»weird(◆)",
    ] {
        v.push(Tmpl::ctx(E, E, s));
    }
    for s in [
        "◆|upper",
        "◆|«!vf»nofilt",
        "◆|default('x')",
        "◆|json_encode|«!je*»«raw→escape('js')»",
        "◆.x",
        "◆[0]",
        "\"a #{ ◆ } b\"",
    ] {
        v.push(Tmpl::ctx(P, E | P, s));
    }
    for s in [
        "◆ + 1",
        "1 + ◆",
        "not ◆",
        "-◆",
        "◆ ? 1 : 2",
        "◆ ?: 2",
        "◆ ?? 1",
        "a ?? ◆",
        "◆ and b",
        "b or ◆",
        "◆ «!an*»«&&→and» b",
        "b «!or*»«||→or» ◆",
        "b «!sa*»«=== →is same as(»◆«→)»",
        "◆ «!ns*»«!== →is not same as(»b«→)»",
        "◆ is defined",
        "◆ is not «!vt»weird",
        "◆ in b",
        "b not in ◆",
        "◆ ~ 'x'",
        "1..◆",
        "◆ starts with 'a'",
        "b matches ◆",
    ] {
        v.push(Tmpl::ctx(P, E, s));
    }
    v
}

/// Twig constructs holding an expression.
pub fn expr_holders() -> Vec<Tmpl> {
    let mut v = vec![];
    let mut tw = |s| v.push(Tmpl::ctx(E, TW, s));
    tw("{{ ◆ }}");
    tw("{{- ◆ -}}");
    tw("{% if ◆ %}x{% endif %}");
    tw("{% if a %}x{% elseif ◆ %}y{% else %}z{% endif %}");
    tw("{% for x in ◆ %}x{% endfor %}");
    tw("{% for k, v in ◆ %}x{% else %}y{% endfor %}");
    tw("{% set x = ◆ %}");
    tw("{% set x, y = 1, ◆ %}");
    tw("{% include ◆ %}");
    tw("{% include 'a.twig' with ◆ %}");
    tw("{% include ◆ ignore missing with b only %}");
    tw("{% do ◆ %}");
    tw("{% with ◆ %}x{% endwith %}");
    tw("{% cache ◆ %}x{% endcache %}");
    tw("{% cache 'k' ttl(◆) tags(t) %}x{% endcache %}");
    tw("{% cache 'k' tags(◆) %}x{% endcache %}");
    tw("{% apply replace(◆) %}x{% endapply %}");
    tw("{% block «bl=sc»sc ◆ %}");
    v.push(Tmpl::ctx(E, N, "«!ex»{% extends ◆ %}").nofix());
    let mut n = |s| v.push(Tmpl::ctx(E, N, s));
    n("{% embed ◆ %}{% block «bl=eb»eb %}x{% endblock %}{% endembed %}");
    n("{% embed 'a.twig' with ◆ only %}{% endembed %}");
    n("{% import ◆ as x %}");
    n("{% from ◆ import x %}");
    n("{% macro m(a = ◆) %}x{% endmacro %}");
    n("{% props x = ◆ %}");
    n("{% component Foo with { a: ◆ } %}x{% endcomponent %}");
    n("{% sw_include ◆ %}");
    n("{% return ◆ %}");
    n("{% sw_icon ◆ %}");
    n("{% sw_icon 'x' style ◆ %}");
    n("{% sw_thumbnails ◆ with { a: 1 } %}");
    n("{% sw_thumbnails 'x' with ◆ %}");
    v
}

/// Node, attribute, value and raw text snippets without an expression of interest.
pub fn nodes() -> Vec<Tmpl> {
    let mut v = vec![];
    let mut n = |s| v.push(Tmpl::snip(N, s));
    n("text");
    n("some <3 text & more > x");
    n("<br>");
    n("<hr/>");
    n("<IMG src=\"a.png\" alt=\"\">");
    n("<div></div>");
    n("<p class=\"a b\" id=\"«id=main»main\">x</p>");
    n("<p id=\"«id=other»other\">x</p>");
    n("<p id=\"a{{ b }}\">x</p>");
    n("<p id=\"\">x</p>");
    n("<p id=«!hq*»«'→\"»«id=main»main«'→\"»>x</p>");
    n("<my-element foo>x</my-element>");
    n("<h1>x</h1>");
    n("<twig:Foo />");
    n("<twig:Foo:Bar fooBar=\"x\">y</twig:Foo:Bar>");
    n("<!-- comment -->");
    n("<!DOCTYPE html>");
    n("<script>if (a < b && c) { x('</div>'); }</script>");
    n("<style>a > b { color: red; }</style>");
    n("<pre>\n  a\n b </pre>");
    n("<textarea> x <b> </textarea>");
    n("{% block «bl=foo»foo %}x{% endblock %}");
    n("{% block «bl=foo»foo %}x{% endblock foo %}");
    n("{% block «bl=bar»bar %}{% endblock %}");
    n("{% block «!bn*»«bl=fooBar>foo_bar»«fooBar→foo_bar» %}x{% endblock %}");
    n("{% block «bl=foo_bar»foo_bar %}x{% endblock %}");
    n("«!ex*»{% «extends→sw_extends» 'base.twig' %}");
    n("{% sw_extends 'base.twig' %}");
    n("{% use 'a.twig' %}");
    n("{% use 'a.twig' with x as y %}");
    n("{% sw_use 'a.twig' with x as y, z as w %}");
    n("{% from 'a.twig' import x as y, z %}");
    n("{% sw_from 'a.twig' import x %}");
    n("{% import _self as forms %}");
    n("{% sw_import 'a.twig' as forms %}");
    n("{% macro m(a, b = 1) %}x{% endmacro %}");
    n("{% macro m() %}x{% endmacro m %}");
    n("{% deprecated 'x' %}");
    n("{% flush %}");
    n("{% sandbox %}{% include 'x' %}{% endsandbox %}");
    n("{% autoescape %}x{% endautoescape %}");
    n("{% autoescape 'html' %}x{% endautoescape %}");
    n("{% autoescape false %}x{% endautoescape %}");
    n("{% trans %}x{% endtrans %}");
    n("{% props icon, type = 'primary' %}");
    n("{% component Foo %}x{% endcomponent %}");
    n("{% sw_embed 'x' %}{% block «bl=eb»eb %}x{% endblock %}{% sw_end_embed %}");
    n("{% sw_silent_feature_call 'F' %}x{% endsw_silent_feature_call %}");
    n("{% sw_icon 'x' style { size: 'xs' } %}");
    n("{% return %}");
    n("{% with %}x{% endwith %}");
    n("{% with a only %}x{% endwith %}");
    n("{% set «!vn»foo_bar = 1 %}");
    n("{% set «!vn»FooBar, ok, «!vn»a_b = 1, 2, 3 %}");
    n("{% set fooBar %}x{% endset %}");
    n("{% set «!vn»foo_bar %}x{% endset %}");
    n("{% set FOO_BAR = constant('X') %}");
    n("{% set «!vn»fooBar = constant('X') %}");
    n("{% set __ = 1 %}");
    n("{% for «!vn»a_b in c %}x{% endfor %}");
    n("{% for k, «!vn»a_b in c %}x{% endfor %}");
    n("{% apply upper %}x{% endapply %}");
    n("{% apply upper|«!vf»nofilt %}x{% endapply %}");
    n("{% verbatim %}x{% endverbatim %}");
    let mut tw = |s| v.push(Tmpl::snip(TW, s));
    tw("{# comment #}");
    tw("{##}");
    tw("{# ' \" {{ %} <div #}");
    tw("{{ x }}");
    let mut vr = |s| v.push(Tmpl::snip(V | R, s));
    vr("word");
    vr("a-b c: d;");
    let mut r = |s| v.push(Tmpl::snip(R, s));
    r("x = 'a' + \"b\"; <i>");
    v
}

pub fn attrs() -> Vec<Tmpl> {
    let mut v = vec![];
    let mut a = |s| v.push(Tmpl::snip(A, s));
    a("disabled");
    a("class=\"x y\"");
    a("title=\"\"");
    a("data-a1=\"it's\"");
    a("id=\"«id=main»main\"");
    a("id=\"«id=other»other\"");
    a("id=\"x{{ y }}\"");
    a("«!kc*»«fooBar→foo-bar»=\"x\"");
    a("«!kc*»«foo_bar→foo-bar»");
    a("@click=\"x\"");
    a(":foo=\"x\"");
    a("#ref");
    a("x=«!hq*»«'→\"»y z«'→\"»");
    a("x=«!hq»'y \"q\"'");
    a("x=«!hq*»«→\"»y«→\"»");
    a("x=«!hq*»«→\"»{{ y }}«→\"»");
    a("{{ attrs }}");
    a("{{ attr }}=\"b\"");
    a("x=\"a / b, c\"");
    v
}

pub fn attr_ctxs() -> Vec<Tmpl> {
    let mut v = vec![];
    let mut n = |s| v.push(Tmpl::ctx(A, N, s));
    n("<div ◆></div>");
    n("<div a=\"b\" ◆ c></div>");
    n("<img ◆>");
    n("<img ◆ />");
    n("<a\n  ◆\n>x</a>");
    n("<script ◆>x</script>");
    v.push(Tmpl::ctx(A, N, "<twig:Foo ◆></twig:Foo>").suppress(&["kc"]));
    v.push(Tmpl::ctx(A, N, "<twig:Foo b ◆ />").suppress(&["kc"]));
    v
}

pub fn value_ctxs() -> Vec<Tmpl> {
    let mut v = vec![];
    for s in [
        "class=\"◆\"",
        "class=\" a ◆ b \"",
        "style=«!hq?»«'→?\"»x: ◆;«'→?\"»",
        "«!kc*»«fooBar→foo-bar»=\"◆\"",
    ] {
        v.push(Tmpl::ctx(V, A, s));
    }
    v
}

pub fn raw_ctxs() -> Vec<Tmpl> {
    let mut v = vec![];
    for s in [
        "<script>◆</script>",
        "<style>a { ◆ }</style>",
        "<textarea>\n◆\n</textarea>",
        "<title>◆ x</title>",
        "<SCRIPT type=\"a\">f('◆');</SCRIPT>",
    ] {
        v.push(Tmpl::ctx(R, N, s));
    }
    v
}

/// Twig tags with a body: the body has the kind of the surrounding position.
pub fn body_ctxs() -> Vec<Tmpl> {
    let mut v = vec![];
    for s in [
        "{% if a %}◆{% endif %}",
        "{% if a %}x{% else %}◆{% endif %}",
        "{% if a %}x{% elseif b %}◆{% else %}x{% endif %}",
        "{% for x in y %}◆{% endfor %}",
        "{% for x in y %}x{% else %}◆{% endfor %}",
        "{% block «bl=outer»outer %}◆{% endblock %}",
        "{% set x %}◆{% endset %}",
        "{% apply upper %}◆{% endapply %}",
        "{% with { a: 1 } %}◆{% endwith %}",
        "{% autoescape 'html' %}◆{% endautoescape %}",
        "{% cache 'k' %}◆{% endcache %}",
    ] {
        v.push(Tmpl::same(TW, s));
    }
    for s in [
        "{% sandbox %}◆{% endsandbox %}",
        "{% macro m(a) %}◆{% endmacro %}",
        "{% trans %}◆{% endtrans %}",
        "{% embed 'x' %}{% block «bl=eb»eb %}◆{% endblock %}{% endembed %}",
        "{% sw_embed 'x' %}{% block «bl=eb»eb %}◆{% endblock %}{% sw_end_embed %}",
        "{% component Foo %}◆{% endcomponent %}",
        "{% sw_silent_feature_call 'F' %}◆{% endsw_silent_feature_call %}",
        "<div>◆</div>",
        "<div class=\"a\">\n    ◆\n</div>",
        "<pre>◆</pre>",
        "<p>a ◆ b</p>",
        "<twig:Foo>◆</twig:Foo>",
        "<twig:Foo><twig:block name=\"x\">◆</twig:block></twig:Foo>",
        "<ul><li>◆</li></ul>",
    ] {
        v.push(Tmpl::ctx(N, N, s));
    }
    for s in ["x ◆ y", "◆\n", "\n\n◆"] {
        v.push(Tmpl::ctx(N, N, s).multi());
    }
    v
}

pub fn all() -> Algebra {
    let mut t = exprs();
    t.extend(expr_ctxs());
    t.extend(expr_holders());
    t.extend(nodes());
    t.extend(attrs());
    t.extend(attr_ctxs());
    t.extend(value_ctxs());
    t.extend(raw_ctxs());
    t.extend(body_ctxs());
    Algebra::new(t)
}

/// The same vocabulary with every template source mapped; templates with an interpolated string
/// are left out (only double quoted strings interpolate).
pub fn all_mapped(f: &dyn Fn(&str) -> String) -> Algebra {
    let t = all()
        .t
        .into_iter()
        .filter(|t| !t.src.contains("#{"))
        .map(|t| t.mapped(f))
        .collect();
    Algebra::new(t)
}

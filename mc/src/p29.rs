//! P29: a syntax error stays where it is: what is written around the broken construct is still checked.
use crate::cli::*;
use crate::core::{par_for, Ctx};
use std::collections::HashSet;

/// Constructs whose delimiters stay as they are; `·` separates tokens, `‹…›` are the tokens that may break.
const BODY: &[&str] = &[
    "{{ ‹a·+·b› }}",
    "{{ ‹a·.·b·|·c·(·d·,·e·)·[·1·:·2·]› }}",
    "{{ ‹[·a·,·b·]·~·{·c·:·d·}› }}",
    "{{ ‹a·?·b·:·c·is·not·same as·(·d·)› }}",
    "{{ ‹a·|·map·(·(·b·,·c·)·=>·b·)› }}",
    "{{ ‹not·a·in·1·..·2› -}}",
    "{% ‹set·a·,·b·=·c·,·d› %}",
    "{% ‹set·a› %}x{% ‹endset› %}",
    "{% ‹if·a·and·b› %}x{% ‹elseif·c› %}y{% ‹else› %}z{% ‹endif› %}",
    "{% ‹for·a·,·b·in·c› %}x{% ‹else› %}y{% ‹endfor› %}",
    "{% ‹block·a› %}x{% ‹endblock·a› %}",
    "{% ‹block·a·b› %}",
    "{% ‹apply·upper·|·lower› %}x{% ‹endapply› %}",
    "{% ‹autoescape·'html'› %}x{% ‹endautoescape› %}",
    "{% ‹embed·'a'·with·b·only› %}{% ‹block·c› %}x{% ‹endblock› %}{% ‹endembed› %}",
    "{% ‹include·'a'·ignore missing·with·b·only› %}",
    "{% ‹extends·a› %}",
    "{% ‹use·'a'·with·b·as·c·,·d·as·e› %}",
    "{% ‹import·'a'·as·b› %}",
    "{% ‹from·'a'·import·b·as·c·,·d› %}",
    "{% ‹macro·a·(·b·,·c·=·d·)› %}x{% ‹endmacro·a› %}",
    "{% ‹with·a·only› %}x{% ‹endwith› %}",
    "{% ‹sandbox› %}x{% ‹endsandbox› %}",
    "{% ‹flush› %}",
    "{% ‹do·a·+·b› %}",
    "{% ‹deprecated·'a'› %}",
    "{% ‹form_theme·a·with·[·b·]·only› %}",
    "{% ‹cache·'a'·tags·(·b·)·ttl·(·c·)› %}x{% ‹endcache› %}",
    "{% ‹props·a·,·b·=·c› %}",
    "{% ‹component·a·with·{·b·:·c·}·only› %}x{% ‹endcomponent› %}",
    "{% ‹trans› %}x{% ‹endtrans› %}",
    "{% ‹sw_extends·'a'› %}",
    "{% ‹sw_include·'a'·with·b› %}",
    "{% ‹sw_icon·'a'·style·b› %}",
    "{% ‹sw_thumbnails·'a'·with·b› %}",
    "{% ‹return·a› %}",
    "{% ‹sw_silent_feature_call·'a'› %}x{% ‹endsw_silent_feature_call› %}",
    "{% ‹foo·bar› %}",
    "{% ‹endfoo› %}",
    "<a ‹b·=·c·d·e·=·\"f\"·g› >x</a>",
    "<a b=\"c{{ ‹d·+·e› }}f\" {{ ‹g·|·h› }} {% ‹if·i› %}j{% ‹else› %}k=l{% ‹endif› %}>x</a ‹› >",
    "<br ‹b·=·'c'› />",
    "<twig:A ‹b·=·\"c\"·:·d·=·\"e\"› />",
    "</a>",
    // an end tag without its element in every body
    "{% if a %}</u>x{% elseif b %}</u>y{% else %}</u>z{% endif %}",
    "{% if a %}<u>x</b></u>{% else %}<u>z</b></u></u>{% endif %}",
    "{% for a in b %}</u>x{% else %}</u>y{% endfor %}",
    "{% block a %}</u>x{% endblock %}",
    "{% set a %}</u>x{% endset %}",
    "{% macro a() %}</u>x{% endmacro %}",
    "{% with a %}</u>x{% endwith %}",
    "{% apply upper %}</u>x{% endapply %}",
    "{% autoescape %}</u>x{% endautoescape %}",
    "{% sandbox %}</u>x{% endsandbox %}",
    "{% cache 'a' %}</u>x{% endcache %}",
    "{% component a %}</u>x{% endcomponent %}",
    "{% embed 'a' %}{% block b %}</u>x{% endblock %}{% endembed %}",
    "{% trans %}</u>x{% endtrans %}",
    "{% verbatim %}</u>x{% endverbatim %}",
    "{% sw_silent_feature_call 'a' %}</u>x{% endsw_silent_feature_call %}",
    "<twig:A></u>x</twig:A>",
    "<p><i></u>x</i></p>",
];

const GARBAGE: &[&str] = &["=", "]", ")", "|", ":", "?", "+", "1", "x", ",", ".", "not", "is", "in", "=>", "only", "with", "as", "&", ";", "*", "$", "é", "..", "endif", "else", "\\"];

const GOOD: &[&str] = &[
    "<p Ab=\"c\"></p>",
    "{{ a && b }}",
    "{% block aB %}{{ 1 || 2 }}{% endblock %}",
    "{% set a_b = zz() %}",
    "<i id=\"t\">{{ x|zz }}</i>",
    "{{ \"t\" }}",
    "{{- a && b -}}",
    "{{~ \"t\" ~}}",
    "{%- set a_b = zz() -%}",
    "{%~ set a_b = zz() ~%}",
    "{# c #}{{ a && b }}",
    "{#- c -#}{{ a && b }}",
    "{#~ c ~#}{{ a && b }}",
    "<!-- c --><p Ab=\"c\"></p>",
    "<!DOCTYPE html><p Ab=\"c\"></p>",
];

/// where the three are written: every part has a line of its own
const WHERE: &[(&str, &str)] = &[
    ("\n", "\n"),
    ("<div>\n", "\n</div>"),
    ("{% block k %}\n", "\n{% endblock %}"),
    ("{% if q %}\n", "\n{% else %}y{% endif %}"),
    ("{% if q %}y{% else %}\n", "\n{% endif %}"),
    ("{% for q in r %}\n", "\n{% endfor %}"),
    ("<div>{% if q %}<b>\n", "\n</b>{% endif %}</div>"),
    ("{% set q %}\n", "\n{% endset %}"),
    ("{% macro q() %}\n", "\n{% endmacro %}"),
    ("{% embed 'q' %}{% block k %}\n", "\n{% endblock %}{% endembed %}"),
    ("{% with q %}\n", "\n{% endwith %}"),
    ("<twig:Q>\n", "\n</twig:Q>"),
    ("<table><tr>\n", "\n</tr></table>"),
    ("{% apply upper %}\n", "\n{% endapply %}"),
    ("{% sw_silent_feature_call 'q' %}\n", "\n{% endsw_silent_feature_call %}"),
    ("{% cache 'q' %}\n", "\n{% endcache %}"),
    ("{% component q %}\n", "\n{% endcomponent %}"),
    ("{% autoescape %}\n", "\n{% endautoescape %}"),
];

/// The construct, and with one token less, another one, or one more.
fn broken(t: &str) -> Vec<String> {
    let mut segs: Vec<(bool, &str)> = vec![];
    let mut rest = t;
    while let Some(i) = rest.find('‹') {
        segs.push((false, &rest[..i]));
        rest = &rest[i + '‹'.len_utf8()..];
        let j = rest.find('›').unwrap();
        segs.push((true, &rest[..j]));
        rest = &rest[j + '›'.len_utf8()..];
    }
    segs.push((false, rest));
    let make = |k: usize, toks: &[&str]| -> String { segs.iter().enumerate().map(|(i, (_, s))| if i == k { toks.join(" ") } else { s.replace('·', " ") }).collect() };
    let mut v = vec![make(usize::MAX, &[])];
    for (k, (open, s)) in segs.iter().enumerate() {
        if !open {
            continue;
        }
        let toks: Vec<&str> = if s.is_empty() { vec![] } else { s.split('·').collect() };
        for i in 0..toks.len() {
            // without the opening bracket etc.; strings stay complete
            let mut w = toks.clone();
            w.remove(i);
            v.push(make(k, &w));
            for g in GARBAGE {
                let mut w = toks.clone();
                w[i] = g;
                v.push(make(k, &w));
            }
        }
        for i in 0..=toks.len() {
            for g in GARBAGE {
                let mut w = toks.clone();
                w.insert(i, g);
                v.push(make(k, &w));
            }
        }
    }
    v
}

struct Case {
    text: String,
    /// first and last line of the construct
    from: usize,
    to: usize,
    good: (usize, usize),
    what: usize,
    cut: bool,
}

type Found = (usize, usize, String, String);

fn found(d: &[Diag], keep: impl Fn(usize) -> bool, less: usize) -> Vec<Found> {
    let mut v: Vec<Found> = d.iter().filter(|d| keep(d.line)).map(|d| (d.line.wrapping_sub(less), d.col, d.rule.clone(), d.msg.clone())).collect();
    v.sort();
    v
}

pub fn p29(ctx: &Ctx) {
    let rules = non_layout_rules();
    let cfg = Cfg::rules(&rules);
    // the findings of the good parts
    let alone: Vec<String> = GOOD.iter().map(|g| g.to_string()).collect();
    let refs: Vec<&str> = alone.iter().map(String::as_str).collect();
    let b = run_batch(&refs, &cfg, Mode::Lint, 120);
    let want: Vec<Vec<Found>> = b.files.iter().map(|f| found(&f.diags, |_| true, 1)).collect();
    if want.iter().any(Vec::is_empty) {
        ctx.violation("good", "a good part has no finding", &format!("{want:?}"));
        return;
    }
    let b = run_batch(&refs, &cfg, Mode::Fix, 120);
    let fixed: Vec<String> = b.files.iter().zip(GOOD).map(|(f, g)| f.after.clone().unwrap_or(g.to_string())).collect();
    let mut cases: Vec<Case> = vec![];
    let mut seen = HashSet::new();
    for (what, t) in BODY.iter().enumerate() {
        for (n, b) in broken(t).into_iter().enumerate() {
            if !seen.insert(b.clone()) {
                continue;
            }
            for (w, (open, close)) in WHERE.iter().enumerate() {
                for k in 0..if ctx.quick() { 1 } else { GOOD.len() - 1 } {
                    let g1 = (n + w) % GOOD.len();
                    let g2 = (g1 + 1 + (w + k) % (GOOD.len() - 1)) % GOOD.len();
                    cases.push(Case { text: format!("{open}{}\n{b}\n{}{close}", GOOD[g1], GOOD[g2]), from: 3, to: 3, good: (g1, g2), what, cut: false });
                }
            }
        }
    }
    // cut off: only what is in front of it
    for (what, t) in BODY.iter().enumerate() {
        let t = &broken(t)[0];
        for (n, (i, _)) in t.char_indices().enumerate().skip(1) {
            for (w, (open, close)) in WHERE.iter().enumerate() {
                let g1 = (n + w) % GOOD.len();
                // the next construct begins anew, if nothing but an expression or a tag is open
                if !t.contains('<') && t[..i].matches(['"', '\'']).count() % 2 == 0 {
                    for k in 0..if ctx.quick() { 2 } else { GOOD.len() - 1 } {
                        let g2 = (g1 + 1 + (n + w + k) % (GOOD.len() - 1)) % GOOD.len();
                        if GOOD[g2].starts_with('<') && !GOOD[g2].starts_with("<!") {
                            continue; // an operator
                        }
                        cases.push(Case { text: format!("{open}{}\n{}\n{}{close}", GOOD[g1], &t[..i], GOOD[g2]), from: 3, to: 3, good: (g1, g2), what, cut: false });
                    }
                }
                // an element around it ends: so does the construct
                if !t.contains('<') && t[..i].matches(['"', '\'']).count() % 2 == 0 {
                    for (e1, e2) in [("<div>", "</div>"), ("<div><b>x", "</b></div>")] {
                        let g2 = (g1 + 1 + (n + w) % (GOOD.len() - 1)) % GOOD.len();
                        if GOOD[g2].starts_with('<') && t[..i].contains("( (") {
                            continue; // an operator
                        }
                        cases.push(Case { text: format!("{open}{}\n{e1}{} {e2}\n{}{close}", GOOD[g1], &t[..i], GOOD[g2]), from: 3, to: 3, good: (g1, g2), what, cut: false });
                    }
                }
                for end in ["", "\n", "\n{{ 'x' }}\n", "x\n<p>'x'</p>\n%}}}</div>\n"] {
                    cases.push(Case { text: format!("{open}{}\n{}{end}{}", GOOD[g1], &t[..i], if end.is_empty() { "" } else { close }), from: 3, to: 3, good: (g1, g1), what, cut: true });
                }
            }
        }
    }
    let want = &want;
    let lint = Mode::Lint;
    for mode in [lint, Mode::Fix] {
    par_for(cases.len().div_ceil(1000), 1, |c| {
        let chunk = &cases[c * 1000..((c + 1) * 1000).min(cases.len())];
        let refs: Vec<&str> = chunk.iter().map(|t| t.text.as_str()).collect();
        let b = run_batch(&refs, &cfg, mode, 120);
        if let Some(why) = batch_problem(&b.run, refs.len()) {
            crate::expect::batch_error(ctx, &refs.iter().map(|r| r.to_string()).collect::<Vec<_>>(), &b.run, &why);
            return;
        }
        ctx.state(refs.len() as u64);
        ctx.transition(refs.len() as u64);
        ctx.trace(refs.len() as u64);
        for (case, f) in chunk.iter().zip(&b.files) {
            if mode == Mode::Fix {
                // what is in front and behind is fixed, as if it were alone
                let after = f.after.as_deref().unwrap_or(&case.text);
                let lines: Vec<&str> = after.split('\n').collect();
                let wanted = [fixed[case.good.0].as_str(), fixed[case.good.1].as_str()];
                let last = case.text.split('\n').count() - lines.len();
                if last != 0 || lines[1] != wanted[0] {
                    ctx.violation(&format!("fix front:{}", case.text), &format!("{:?} is fixed to {after:?}", case.text), "");
                } else if !case.cut && lines[3] != wanted[1] {
                    ctx.violation(&format!("fix behind:{}", case.text), &format!("{:?} is fixed to {after:?}", case.text), "");
                }
                ctx.outcome("fix", 1);
                continue;
            }
            let front = found(&f.diags, |l| l < case.from, 2);
            // what is not closed may be reported later
            let rules: Vec<Diag> = f.diags.iter().filter(|d| d.rule != "SyntaxError").cloned().collect();
            let behind = found(&rules, |l| l > case.to, case.to + 1);
            let inside = f.diags.iter().filter(|d| d.rule == "SyntaxError").count();
            if front != want[case.good.0] {
                ctx.violation(&format!("front:{}", case.text), &format!("{:?}: the findings in front of the construct {:?} are {front:?} instead of {:?}", case.text, BODY[case.what], want[case.good.0]), "");
            }
            if !case.cut && behind != want[case.good.1] {
                ctx.violation(&format!("behind:{}", case.text), &format!("{:?}: the findings behind of the construct {:?} are {behind:?} instead of {:?}", case.text, BODY[case.what], want[case.good.1]), "");
            }
            ctx.outcome(&format!("{} syntax errors", inside.min(3)), 1);
        }
    });
    }
    for c in cases.iter().step_by(cases.len() / 20) {
        ctx.sample(format!("{:?}", c.text));
    }
}

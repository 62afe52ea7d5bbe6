//! P07 for the layout rules: ludtwig-ignore in front of elements whose lines are laid out badly.
//! Metamorphic: the same file with names that aren't names of rules (of the same length) has no
//! ignored findings; the expected findings are those of it that are not below a directive.
use crate::cli::*;
use crate::core::Ctx;
use crate::forest::*;
use std::sync::Mutex;

const RULES: [&str; 4] = ["indentation", "line-ending", "twig-block-line-breaks", "whitespace-between-line-breaks"];
const KINDS: [(&str, &str, bool); 6] = [
    ("<div>", "</div>", false),
    ("{% block «i» %}", "{% endblock %}", false),
    ("{% if a %}", "{% endif %}", false),
    ("{{ x }}", "", true),
    ("<br>", "", true),
    ("<p a\n  b>", "</p>", false),
];
/// layouts: (gap in front of the n-th line, ...)
const GAPS: [&[&str]; 3] = [
    &["\n     ", "\r\n ", "\n  \n ", "\n", "\r\n\r\n \t"],
    &["", "\n", " ", "\r\n   ", "\n \n"],
    &["\n \r\n ", "\n\n  "],
];

#[derive(Clone)]
struct Item {
    /// offset behind the previous item
    start: usize,
    end: usize,
    /// the element the finding in here belongs to; usize::MAX: no element
    owner: usize,
    /// the block the line breaks here belong to
    block: usize,
}

const NONE: usize = usize::MAX;

struct Case {
    base: String,
    text: String,
    items: Vec<Item>,
    parent: Vec<usize>,
    /// names in front of every element (None: no directive; empty: all rules)
    lists: Vec<Option<Vec<&'static str>>>,
    /// region of elements
    region: Vec<(usize, usize)>,
}

impl Case {
    fn off(&self, mut i: usize, rule: &str) -> bool {
        while i != NONE {
            if self.lists[i].as_ref().is_some_and(|l| l.is_empty() || l.contains(&rule)) {
                return true;
            }
            i = self.parent[i];
        }
        false
    }
}

fn directive(form: usize, list: &[&'static str], unknown: bool) -> String {
    let names: Vec<String> = list.iter().map(|n| if unknown { format!("x{}", &n[1..]) } else { n.to_string() }).collect();
    let body = match (list.is_empty(), unknown) {
        (true, false) => "          ".to_string(),
        (true, true) => " no-rule  ".to_string(),
        _ => format!(" {}", names.join([", ", " ", " ,"][form % 3])),
    };
    if form % 2 == 0 {
        format!("{{# ludtwig-ignore{body} #}}")
    } else {
        format!("<!-- ludtwig-ignore{body} -->")
    }
}

fn build(fo: &Forest, lists: Vec<Option<Vec<&'static str>>>, g: &[&str], form: usize) -> Case {
    let n = fo.len();
    let mut parent = vec![NONE; n];
    let mut prev = vec![NONE; n];
    let mut last: Vec<usize> = vec![NONE; n + 1]; // last child, [n]: of the root
    let mut stack: Vec<usize> = vec![];
    for i in 0..n {
        while stack.len() > fo[i].0 as usize {
            stack.pop();
        }
        parent[i] = stack.last().copied().unwrap_or(NONE);
        let p = if parent[i] == NONE { n } else { parent[i] };
        prev[i] = last[p];
        last[p] = i;
        stack.push(i);
    }
    let is_block = |i: usize| i != NONE && fo[i].1 == 1;
    let mut c = Case { base: String::new(), text: String::new(), items: vec![], parent: parent.clone(), lists, region: vec![(0, 0); n] };
    let mut line = 0;
    let mut add = |c: &mut Case, real: String, base: String, owner: usize, block: usize| {
        let gap = if c.text.is_empty() { "  " } else { g[line % g.len()] };
        line += 1;
        let start = c.text.len();
        c.text += gap;
        c.base += gap;
        c.text += &real;
        c.base += &base;
        c.items.push(Item { start, end: c.text.len(), owner, block });
    };
    walk(fo, |open, i| {
        let (a, z, leaf) = KINDS[fo[i].1 as usize];
        if open {
            // line breaks in front of the element: the demand of the block, or of the one in front
            let mut block = if is_block(i) { i } else if is_block(prev[i]) { prev[i] } else { NONE };
            if let Some(l) = c.lists[i].clone() {
                add(&mut c, directive(form + i, &l, false), directive(form + i, &l, true), parent[i], block);
                block = NONE;
            }
            let s = a.replace("«i»", &format!("b{i}"));
            c.region[i].0 = c.text.len();
            add(&mut c, s.clone(), s, i, block);
        } else if !leaf {
            let block = if is_block(last[i]) { last[i] } else { NONE };
            add(&mut c, z.into(), z.into(), i, block);
        }
        if !open {
            c.region[i].1 = c.text.len();
        }
    });
    // end of the file: the trivia belongs to no element
    let start = c.text.len();
    c.text += "\r\n \n";
    c.base += "\r\n \n";
    let block = if is_block(last[n]) { last[n] } else { NONE };
    c.items.push(Item { start, end: c.text.len() + 1, owner: NONE, block });
    c
}

fn offset(text: &str, line: usize, col: usize) -> usize {
    let start: usize = text.split_inclusive('\n').take(line - 1).map(|l| l.len()).sum();
    start + col - 1
}

fn check(ctx: &Ctx, cases: &[Case]) {
    let cfg = Cfg::rules(&RULES);
    let bases: Vec<String> = cases.iter().map(|c| c.base.clone()).collect();
    let texts: Vec<String> = cases.iter().map(|c| c.text.clone()).collect();
    let err = |c: &[String], run: &RunOut, why: String| crate::expect::batch_error(ctx, c, run, &why);
    let want: Mutex<Vec<Vec<(String, char, usize, usize)>>> = Mutex::new(vec![vec![]; cases.len()]);
    run_all(
        &bases,
        &cfg,
        Mode::Lint,
        |i, fo| {
            let c = &cases[i];
            let mut v = vec![];
            for d in &fo.diags {
                let o = offset(&c.base, d.line, d.col);
                let Some(it) = c.items.iter().find(|it| it.start <= o && o < it.end) else {
                    ctx.violation(&c.base, &format!("{:?}: location of {:?}", c.base, d.raw), &c.base);
                    continue;
                };
                let owner = if d.rule == "twig-block-line-breaks" { it.block } else { it.owner };
                if !c.off(owner, &d.rule) {
                    v.push(d.short());
                }
            }
            v.sort();
            want.lock().unwrap()[i] = v;
        },
        |c, run, why| err(c, run, why),
    );
    let want = want.into_inner().unwrap();
    run_all(
        &texts,
        &cfg,
        Mode::Lint,
        |i, fo| {
            ctx.state(1);
            ctx.transition(2);
            ctx.trace(1);
            let mut got: Vec<_> = fo.diags.iter().map(|d| d.short()).collect();
            got.sort();
            ctx.outcome(if got.is_empty() { "layout: nothing left" } else { "layout: findings left" }, 1);
            if got != want[i] {
                let miss: Vec<_> = want[i].iter().filter(|w| !got.contains(w)).collect();
                let more: Vec<_> = got.iter().filter(|w| !want[i].contains(w)).collect();
                let t = &texts[i];
                ctx.violation(&format!("layout {t:?}"), &format!("layout {t:?}: missing {miss:?}, unexpected {more:?}"), t);
            }
        },
        |c, run, why| err(c, run, why),
    );
    run_all(
        &texts,
        &cfg,
        Mode::Fix,
        |i, fo| {
            ctx.transition(1);
            let c = &cases[i];
            let after = fo.after.as_deref().unwrap_or("");
            let fail = |why: String| ctx.violation(&format!("layout fix {:?}", c.text), &format!("layout {:?}: --fix {why}", c.text), &c.text);
            if !fo.diags.is_empty() {
                return fail(format!("leaves {:?}", fo.diags[0].raw));
            }
            let words = |t: &str| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            if words(after) != words(&c.text) {
                return fail(format!("changes more than whitespace: {after:?}"));
            }
            // what is ignored completely stays as it is
            for k in 0..c.lists.len() {
                if RULES.iter().all(|r| c.off(k, r)) {
                    let (a, z) = c.region[k];
                    if !after.contains(&c.text[a..z]) {
                        return fail(format!("changes the ignored {:?}: {after:?}", &c.text[a..z]));
                    }
                } else if c.off(k, "indentation") && c.region[k].1 > 0 && !c.text[c.region[k].0..c.region[k].1].contains("b>") {
                    // the same blanks in front of the lines of it
                    let (a, z) = c.region[k];
                    let tag = c.text[a..z].trim_start();
                    let first = &tag[..tag.find("%}").map_or(0, |x| x + 2)];
                    if first.starts_with("{% block ") {
                        let blanks = |t: &str| -> Option<String> {
                            let at = t.find(first)?;
                            let line = &t[..at];
                            let l = line.rfind('\n').map_or(0, |x| x + 1);
                            Some(line[l..].to_string())
                        };
                        if c.text[a..z].starts_with(['\n', '\r']) && blanks(&c.text) != blanks(after) {
                            return fail(format!("changes the indentation of {first:?}: {after:?}"));
                        }
                    }
                }
            }
        },
        |c, run, why| err(c, run, why),
    );
}

pub fn layout(ctx: &Ctx) {
    let full: [Vec<&'static str>; 9] = [
        vec![],
        vec![RULES[0]],
        vec![RULES[1]],
        vec![RULES[2]],
        vec![RULES[3]],
        vec!["no-rule", RULES[0]],
        vec![RULES[0], "no-rule"],
        vec![RULES[3], RULES[2], RULES[1]],
        RULES.to_vec(),
    ];
    let few: [Vec<&'static str>; 4] = [vec![], vec![RULES[0], "no-rule"], vec![RULES[2], RULES[1]], RULES.to_vec()];
    let buf: Mutex<Vec<Case>> = Mutex::new(vec![]);
    let flush = |min: usize| {
        let mut b = buf.lock().unwrap();
        if b.len() > min && ctx.violation_count() < 2000 {
            check(ctx, &b);
            b.clear();
        }
    };
    let mut s = 0usize;
    let mut go = |n: usize, kinds: usize, lists: &[Vec<&'static str>], depth: usize, step: usize| {
        let leaf: Vec<bool> = KINDS[..kinds].iter().map(|k| k.2).collect();
        let mut all = vec![];
        forests(n, &leaf, depth, &mut |fo| all.push(fo.clone()));
        let opts = lists.len() + 1;
        for fo in &all {
            for code in 1..opts.pow(n as u32) {
                s += 1;
                if s % step != 0 {
                    continue;
                }
                let mut x = code;
                let l: Vec<Option<Vec<&'static str>>> = (0..n)
                    .map(|_| {
                        let k = x % opts;
                        x /= opts;
                        (k > 0).then(|| lists[k - 1].clone())
                    })
                    .collect();
                if n < 3 || step == 1 && !ctx.quick() {
                    for (k, g) in GAPS.iter().enumerate() {
                        buf.lock().unwrap().push(build(fo, l.clone(), g, s + k));
                    }
                } else {
                    buf.lock().unwrap().push(build(fo, l, GAPS[s % GAPS.len()], s / 7));
                }
            }
            flush(30000);
        }
    };
    go(1, KINDS.len(), &full, 1, 1);
    go(2, KINDS.len(), &full, 2, 1);
    if ctx.quick() {
        go(3, 5, &few, 3, 1);
    } else {
        go(3, KINDS.len(), &few, 3, 1);
        go(3, 3, &full, 3, 1);
        go(4, 3, &few, 4, 3);
    }
    flush(0);
}

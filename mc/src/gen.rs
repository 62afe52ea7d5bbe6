//! Exhaustive generators of (mostly broken) texts: characters, tokens, tags, mutations.
use crate::core::par_for;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// single characters with a meaning for the lexer, and characters of every UTF-8 length
pub const CHARS: &[&str] = &[
    "{", "}", "%", "#", "<", ">", "/", "\"", "'", "-", "~", "=", "a", " ", "\n", "!", "\\", "&", "1", ".", "|", "(", ")", "é", "?", ":", ",", "[",
    "]", "*", "@", "_", ";", "\r", "+", "$", "\t", "`", "😀", "\u{0}", "\u{feff}", "\u{a0}",
];

pub const TOKENS: &[&str] = &[
    // delimiters
    "{{", "}}", "{%", "%}", "{#", "#}", "<", ">", "</", "/>", "<!--", "-->", "<!", "{{-", "-}}", "{%-", "-%}", "{#-", "-#}", "{%~", "~%}", "'", "\"", "(", ")", "[",
    "]", "{", "}", ",", ":", "|", ".", "=", "#{", "\n", "word", "1",
    // operators
    "+", "-", "*", "/", "%", "~", "?", "??", "?:", "..", "...", "=>", "==", "===", "!==", "!=", "<=>", "<=", ">=", "&&", "||", "&", "**", "//", "\\", "!", "not",
    "and", "or", "in", "not in", "is", "is not", "matches", "starts with", "ends with", "has some", "b-and", "same as", "divisible by", "defined", "even",
    // literals
    "true", "null", "none", "1.5", "'s'", "\"s\"", "''", "`", "é", "&amp;", "@x", "twig:Foo",
    // keywords
    "block", "endblock", "if", "elseif", "else", "endif", "apply", "endapply", "autoescape", "endautoescape", "cache", "endcache", "ttl", "tags", "deprecated", "do",
    "embed", "endembed", "extends", "flush", "for", "endfor", "from", "import", "macro", "endmacro", "sandbox", "endsandbox", "set", "endset", "use", "verbatim",
    "endverbatim", "only", "with", "endwith", "include", "ignore missing", "as", "props", "component", "endcomponent", "trans", "endtrans", "sw_extends",
    "sw_silent_feature_call", "endsw_silent_feature_call", "sw_include", "return", "sw_icon", "style", "sw_thumbnails", "sw_embed", "sw_end_embed", "sw_use",
    "sw_import", "sw_from", "ludtwig-ignore", "ludtwig-ignore-file", "DOCTYPE", "html", "script", "pre", "div", "/div", "input", "id", "class", "date", "range", "max",
    "constant", "raw", "json_encode", "escape", "_self",
];

/// the most important ones for longer sequences
pub const CORE: &[&str] = &[
    "{{", "}}", "{%", "%}", "{#", "#}", "<", ">", "</", "/>", "<!--", "-->", "'", "\"", "(", ")", "[", "]", "{", "}", ",", ":", "|", ".", "=", "#{", "\n", "word", "1",
    "-", "?", "=>", "is", "not", "in", "if", "else", "endif", "block", "endblock", "for", "endfor", "set", "div", "script", "with", "'s'",
];

pub const HOLES: &[&str] = &[
    "◇", "{{ ◇ }}", "{% ◇ %}", "<div ◇>", "<div a=\"◇\">", "{# ◇ #}", "<!-- ◇ -->", "<script>◇</script>", "{{ '◇' }}", "{{ ◇", "{% ◇", "<div ◇", "<div a=\"◇", "{% if ◇ %}x{% endif %}",
    "{% block a %}◇{% endblock %}", "{{ \"#{◇}\" }}", "{{ f(◇) }}", "{{ {a: ◇} }}", "{% set ◇ = 1 %}", "{% for ◇ in x %}y{% endfor %}",
];

pub const TAGS: &[&str] = &[
    "{% if a %}", "{% else %}", "{% endif %}", "{% block b %}", "{% endblock %}", "<div>", "</div>", "{{ x }}", "text", "<p ", ">", "{% for a in b %}", "{% endfor %}",
    "{# c #}", "<!-- c -->", "<br>", "{% elseif b %}", "{% set x %}", "{% endset %}", "\n", "</p>", "<script>", "</script>", "{% verbatim %}", "{% endverbatim %}",
    "{% set x = 1 %}", "{% macro m() %}", "{% endmacro %}", "{% embed 'x' %}", "{% endembed %}", "{% apply upper %}", "{% endapply %}", "{% trans %}", "{% endtrans %}",
    "{% with %}", "{% endwith %}", "{% cache 'x' %}", "{% endcache %}", "{% component A %}", "{% endcomponent %}", "{% autoescape %}", "{% endautoescape %}",
    "{% sandbox %}", "{% endsandbox %}", "{% sw_embed 'x' %}", "{% sw_end_embed %}", "{% sw_silent_feature_call 'x' %}", "{% endsw_silent_feature_call %}", "<pre>", "</pre>",
    "<style>", "</style>", "<textarea>", "</textarea>", "<twig:A>", "</twig:A>", "<input/>", "{% foo %}", "{{", "{%", "<", "a=\"b\"", "{% include 'x' %}", "{# ludtwig-ignore #}",
    "{# ludtwig-ignore-file #}", "&amp;", "{% raw %}", "{% endfoo %}",
];

/// Every sequence of exactly `len` items, in parallel; `f` gets the indices.
pub fn sequences(n: usize, len: usize, f: &(dyn Fn(&[usize]) + Sync)) {
    if len == 0 {
        return f(&[]);
    }
    let head = len.min(2);
    let total = n.pow(head as u32);
    par_for(total, 8, |i| {
        let mut v = vec![0usize; len];
        let mut x = i;
        for h in v.iter_mut().take(head) {
            *h = x % n;
            x /= n;
        }
        let rest = len - head;
        let m = n.pow(rest as u32);
        for r in 0..m {
            let mut x = r;
            for h in v.iter_mut().skip(head) {
                *h = x % n;
                x /= n;
            }
            f(&v);
        }
    });
}

/// Every single mutation of a text made of tokens (split by the rough tokenizer below):
/// deletion, duplication, swap with the next one, truncation before / behind, replacement by one
/// of `subst`.
pub fn mutations(text: &str, subst: &[&str], f: &mut dyn FnMut(String)) {
    let toks = rough_tokens(text);
    let join = |v: &[&str]| v.concat();
    for i in 0..toks.len() {
        let mut v = toks.clone();
        v.remove(i);
        f(join(&v));
        let mut v = toks.clone();
        v.insert(i, toks[i]);
        f(join(&v));
        f(join(&toks[..i]));
        f(join(&toks[i..]));
        if i + 1 < toks.len() {
            let mut v = toks.clone();
            v.swap(i, i + 1);
            f(join(&v));
        }
        for s in subst {
            let mut v = toks.clone();
            v[i] = s;
            f(join(&v));
            let mut v = toks.clone();
            v.insert(i, s);
            f(join(&v));
        }
    }
}

/// Words, runs of blanks and single delimiters of a template (not ludtwig's lexer).
pub fn rough_tokens(text: &str) -> Vec<&str> {
    let two = [
        "{{-", "{%-", "{#-", "{{~", "{%~", "{#~", "-}}", "-%}", "-#}", "~}}", "~%}", "~#}", "{{", "}}", "{%", "%}", "{#", "#}", "</", "/>", "<!--", "-->", "#{", "&&", "||",
        "===", "!==", "==", "!=", "=>", "??", "?:", "..", "**", "//",
    ];
    let mut out = vec![];
    let mut i = 0;
    while i < text.len() {
        let r = &text[i..];
        let c = r.chars().next().unwrap();
        let len = if let Some(t) = two.iter().find(|t| r.starts_with(**t)) {
            t.len()
        } else if c.is_alphanumeric() || c == '_' {
            r.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(r.len())
        } else if c.is_whitespace() {
            r.find(|c: char| !c.is_whitespace()).unwrap_or(r.len())
        } else {
            c.len_utf8()
        };
        out.push(&r[..len]);
        i += len;
    }
    out
}

/// Guards a long exploration against an endless loop of the code under test: `enter` / `leave`
/// around every call, `on_hang` is called once if one call takes longer than `limit`.
pub struct Watchdog {
    slots: Vec<Mutex<Option<(Instant, String)>>>,
    pub done: AtomicBool,
    pub max_us: AtomicU64,
}

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
static NEXT_SLOT: AtomicU64 = AtomicU64::new(0);

impl Watchdog {
    pub fn new() -> Self {
        Watchdog { slots: (0..256).map(|_| Mutex::new(None)).collect(), done: AtomicBool::new(false), max_us: AtomicU64::new(0) }
    }
    fn slot(&self) -> usize {
        SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT_SLOT.fetch_add(1, Ordering::Relaxed) as usize % 256);
            }
            s.get()
        })
    }
    pub fn run<R>(&self, text: &str, f: impl FnOnce() -> R) -> R {
        let s = self.slot();
        let t0 = Instant::now();
        *self.slots[s].lock().unwrap() = Some((t0, text.to_string()));
        let r = f();
        *self.slots[s].lock().unwrap() = None;
        self.max_us.fetch_max(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
        r
    }
    /// Runs until `done`; calls `on_hang` with the text that takes too long.
    pub fn watch(&self, limit: Duration, on_hang: impl Fn(&str)) {
        while !self.done.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(50));
            for s in &self.slots {
                let g = s.lock().unwrap();
                if let Some((t, text)) = g.as_ref() {
                    if t.elapsed() > limit {
                        let text = text.clone();
                        drop(g);
                        on_hang(&text);
                        return;
                    }
                }
            }
        }
    }
}

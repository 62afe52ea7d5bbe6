//! P18: which files are processed. An independent model of ignore files, hidden files, file types
//! and overlapping arguments against the real binary.
use crate::core::{par_for, Ctx};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- the model

/// One line of an ignore file: None: no match, Some(true): ignored, Some(false): whitelisted.
struct Pat {
    neg: bool,
    dir_only: bool,
    anchored: bool,
    parts: Vec<String>,
}

fn pat(line: &str) -> Option<Pat> {
    let line = line.trim_end_matches([' ', '\r']);
    if line.is_empty() || line.starts_with('#') {
        return None;
    }
    let (neg, rest) = match line.strip_prefix('!') {
        Some(r) => (true, r),
        None => (false, line),
    };
    let (dir_only, rest) = match rest.strip_suffix('/') {
        Some(r) => (true, r),
        None => (false, rest),
    };
    let anchored = rest.contains('/');
    let rest = rest.strip_prefix('/').unwrap_or(rest);
    Some(Pat { neg, dir_only, anchored, parts: rest.split('/').map(String::from).collect() })
}

/// a single path component
fn glob(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && glob(&p[1..], &s[1..]),
        Some('[') => {
            let end = p.iter().position(|c| *c == ']').unwrap();
            let (not, set) = if p[1] == '!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
            !s.is_empty() && set.contains(&s[0]) != not && glob(&p[end + 1..], &s[1..])
        }
        Some('\\') => s.first() == p.get(1) && glob(&p[2..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}

fn globs(p: &[String], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(x) if x == "**" => {
            if p.len() == 1 {
                return !s.is_empty(); // everything inside
            }
            (0..=s.len()).any(|i| globs(&p[1..], &s[i..]))
        }
        Some(x) => {
            let x: Vec<char> = x.chars().collect();
            s.first().is_some_and(|n| glob(&x, &n.chars().collect::<Vec<_>>())) && globs(&p[1..], &s[1..])
        }
    }
}

/// `rel`: path below the directory of the ignore file
fn verdict(text: &str, rel: &[&str], is_dir: bool) -> Option<bool> {
    let mut v = None;
    for p in text.lines().filter_map(pat) {
        if p.dir_only && !is_dir {
            continue;
        }
        let hit = if p.anchored { globs(&p.parts, rel) } else { globs(&p.parts, &rel[rel.len() - 1..]) };
        if hit {
            v = Some(!p.neg);
        }
    }
    v
}

struct Model<'a> {
    /// absolute-like paths ("w/..." without the root): text of the files, None: directory
    tree: BTreeMap<String, Option<&'a str>>,
    links: BTreeMap<String, String>, // path -> target path (resolved, within the tree)
    cwd: String,
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() { b.to_string() } else if b.is_empty() { a.to_string() } else { format!("{a}/{b}") }
}

impl<'a> Model<'a> {
    fn new(entries: &'a [Entry], cwd: &str) -> Self {
        let mut tree = BTreeMap::new();
        let mut links = BTreeMap::new();
        tree.insert(String::new(), None);
        for e in entries {
            let parts: Vec<&str> = e.path.split('/').collect();
            for i in 1..parts.len() {
                tree.insert(parts[..i].join("/"), None);
            }
            match &e.item {
                Item::File(b) => {
                    tree.insert(e.path.clone(), Some(std::str::from_utf8(b).unwrap()));
                }
                Item::Dir => {
                    tree.insert(e.path.clone(), None);
                }
                Item::Link(t) => {
                    links.insert(e.path.clone(), t.clone());
                }
            }
        }
        Model { tree, links, cwd: cwd.into() }
    }

    fn has(&self, p: &str) -> bool {
        self.tree.contains_key(p)
    }

    /// is the entry (below an argument) left out?
    fn skipped(&self, path: &str, is_dir: bool, is_link: bool) -> bool {
        let parts: Vec<&str> = path.split('/').collect();
        let mut found: [Option<bool>; 4] = [None; 4];
        // inside of a repository the files up to its root are used
        let in_repo = (0..parts.len()).any(|i| self.has(&join(&parts[..i].join("/"), ".git")));
        let mut saw_git = false;
        for i in (0..parts.len()).rev() {
            let d = parts[..i].join("/");
            let rel = &parts[i..];
            let get = |name: &str| self.tree.get(&join(&d, name)).copied().flatten().and_then(|t| verdict(t, rel, is_dir));
            found[0] = found[0].or(get(".ludtwig-ignore"));
            found[1] = found[1].or(get(".ignore"));
            if in_repo && !saw_git {
                found[2] = found[2].or(get(".gitignore"));
                found[3] = found[3].or(get(".git/info/exclude"));
            }
            saw_git |= self.has(&join(&d, ".git"));
        }
        let mut v = found[0].or(found[1]).or(found[2]).or(found[3]);
        // the one of the current directory is used for other directories, too
        if v.is_none() && !(path.starts_with(&format!("{}/", self.cwd)) || self.cwd.is_empty()) {
            if let Some(Some(t)) = self.tree.get(&join(&self.cwd, ".ludtwig-ignore")) {
                let t: String = t.lines().filter(|l| pat(l).is_some_and(|p| !p.anchored || p.parts[0] == "**")).map(|l| format!("{l}\n")).collect();
                v = verdict(&t, &parts, is_dir);
            }
        }
        if v == Some(true) {
            return true;
        }
        let name = parts[parts.len() - 1];
        if !is_dir || is_link {
            let ext = name.rsplit_once('.').map(|x| x.1);
            if !matches!(ext, Some("twig" | "html" | "htm" | "ejs")) {
                return true;
            }
        }
        // (a hidden file of a selected type is used, a hidden directory is not entered)
        v.is_none() && is_dir && name.starts_with('.')
    }

    fn walk(&self, dir: &str, out: &mut BTreeSet<String>) {
        let names: Vec<String> = self
            .tree
            .keys()
            .chain(self.links.keys())
            .filter(|p| !p.is_empty() && p.rsplit_once('/').map_or("", |x| x.0) == dir)
            .cloned()
            .collect();
        for p in names {
            let is_link = self.links.contains_key(&p);
            let is_dir = !is_link && self.tree[&p].is_none();
            if self.skipped(&p, is_dir, is_link) {
                continue;
            }
            if is_dir {
                self.walk(&p, out);
            } else {
                let p = self.links.get(&p).cloned().unwrap_or(p);
                out.insert(p);
            }
        }
    }

    /// the argument as a path in the tree
    fn resolve(&self, arg: &str) -> String {
        let mut v: Vec<&str> = if arg.starts_with('/') { vec![] } else { self.cwd.split('/').filter(|s| !s.is_empty()).collect() };
        for c in arg.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        let p = v.join("/");
        self.links.get(&p).cloned().unwrap_or(p)
    }

    fn selected(&self, args: &[String]) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for a in args {
            let p = self.resolve(a);
            match self.tree.get(&p) {
                Some(None) => self.walk(&p, &mut out),
                Some(Some(_)) => {
                    out.insert(p);
                }
                None => panic!("missing argument {a}"),
            }
        }
        out
    }
}

// ---------------------------------------------------------------- the enumeration

const TEXT: &str = "{{ x|nofilter }}{{ \"s\" }}\n";

fn base() -> Vec<Entry> {
    ["a.twig", "b.html", "c.txt", ".h.twig", "d/a.twig", "d/b.twig", "d/x.htm", "d/e/a.twig", "d/e/f.html", "d/.hd/a.twig", "g.twig/a.twig", "q/a.twig", "q/d/e/a.twig", "d/A.TWIG", "d/twig", "d/.twig", "d/a.twig.bak", "d/y.html.twig", "q/z.ejs"]
        .iter()
        .map(|p| file(p, TEXT))
        .collect()
}

const PATTERNS: &[&str] = &[
    "a.twig", "*.twig", "/a.twig", "d", "d/", "/d", "/d/", "d/a.twig", "e/a.twig", "**/a.twig", "d/**", "**/e", "**/e/", "*", "!a.twig", "!d", "# a.twig", "?.twig", "[ab].*", ".h.twig", "!.h.twig", "!.hd\n!.hd/*", "a.twig  ", "\\#a", "d/*/a.twig",
    "*.twig\n!a.twig", "!a.twig\n*.twig", "*\n!d\n!*.html", "*\n!d/\n!/d/a.twig", "/*\n!/d", "d/*\n!d/e", "a.*\n!*.html\nb*", "e\n!d/e", "\r\na.twig\r\nq\r\n",
];

const PLACES: &[(&str, &str)] = &[
    ("", ".ludtwig-ignore"),
    ("", ".ignore"),
    ("", ".gitignore"),
    ("", ".git/info/exclude"),
    ("d", ".ludtwig-ignore"),
    ("d", ".ignore"),
    ("d", ".gitignore"),
    ("d/e", ".ludtwig-ignore"),
    ("d/e", ".gitignore"),
    ("q", ".ludtwig-ignore"),
];

/// (current directory, arguments)
const ARGS: &[(&str, &[&str])] = &[
    ("", &["."]),
    ("", &["d", "q"]),
    ("", &["./d/", "a.twig"]),
    ("", &["d/e", "d"]),
    ("", &["/", "d"]),
    ("d", &[".."]),
    ("d", &[".", "e/a.twig"]),
    ("d", &["../q", "e"]),
    ("d/e", &["/d/e", "../../d/b.twig", "../../c.txt"]),
];

struct Case {
    extra: Vec<Entry>,
    cwd: &'static str,
    args: Vec<String>,
    fix: bool,
}

fn run_case(ctx: &Ctx, c: &Case, sample: bool) {
    let mut e = base();
    e.extend(c.extra.iter().cloned());
    let m = Model::new(&e, c.cwd);
    let want = m.selected(&c.args);
    let w = World::new(&e, None);
    let root = w.root().canonicalize().unwrap();
    let rs = root.to_string_lossy().into_owned();
    // absolute arguments are relative to the root of the scratch directory
    let args: Vec<String> = c.args.iter().map(|a| if a.starts_with('/') { format!("{rs}{a}") } else { a.clone() }).collect();
    let mut a: Vec<&str> = args.iter().map(String::as_str).collect();
    if c.fix {
        a.push("-f");
    }
    let r = w.run(c.cwd, &a, &[("RAYON_NUM_THREADS", "2")], 60);
    ctx.state(1);
    ctx.transition(want.len() as u64);
    ctx.trace(1);
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    for (p, v) in &r.out.diags {
        let full = if p.starts_with('/') { std::path::PathBuf::from(p) } else { root.join(c.cwd).join(p) };
        let full = full.canonicalize().unwrap_or(full);
        let rel = full.strip_prefix(&root).map_or(p.clone(), |x| x.to_string_lossy().into_owned());
        *got.entry(rel).or_default() += v.iter().filter(|d| d.rule == "twig-valid-filter").count();
    }
    let desc = format!("{}cwd={} ludtwig {}{}", c.extra.iter().map(|e| match &e.item {
        Item::File(b) => format!("{}={:?} ", e.path, String::from_utf8_lossy(b)),
        Item::Link(t) => format!("{}->{t} ", e.path),
        Item::Dir => format!("{}/ ", e.path),
    }).collect::<String>(), if c.cwd.is_empty() { "." } else { c.cwd }, c.args.join(" "), if c.fix { " -f" } else { "" });
    let fail = |why: String| ctx.violation(&desc, &format!("{desc}: {why}"), &format!("{}\n{}", r.out.stdout, r.stderr));
    if sample {
        ctx.sample(format!("{desc}: {}", want.iter().cloned().collect::<Vec<_>>().join(" ")));
    }
    ctx.outcome(&format!("{} files", want.len()), 1);
    let gs: BTreeSet<String> = got.keys().cloned().collect();
    if gs != want {
        return fail(format!("not processed {:?}, should not be processed {:?}", want.difference(&gs).collect::<Vec<_>>(), gs.difference(&want).collect::<Vec<_>>()));
    }
    if let Some((p, n)) = got.iter().find(|x| *x.1 != 1) {
        return fail(format!("{p} was processed {n} times"));
    }
    match r.out.summary {
        Some(s) if s.files == want.len() as u64 && s.errors == 0 => {}
        s => fail(format!("summary {s:?}, {} files are selected", want.len())),
    }
    if c.fix {
        let changed: BTreeSet<String> = w.look().into_iter().filter(|(_, s)| s.kind == 'f' && s.bytes == TEXT.replace('"', "'").as_bytes()).map(|x| x.0).collect();
        if changed != want {
            fail(format!("changed are {changed:?}, selected {want:?}"));
        }
    }
}

pub fn p18(ctx: &Ctx) {
    let mut cases: Vec<Case> = vec![];
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let git = |on: bool| if on { vec![dir(".git")] } else { vec![] };
    let needs_git = |n: &str| n.contains("git/") || n == ".gitignore";
    // every ignore file
    let mut singles = vec![];
    for (d, n) in PLACES {
        for p in PATTERNS {
            for g in [false, true] {
                if g && !needs_git(n) || !g && n.contains("git/") {
                    continue;
                }
                singles.push([git(g), vec![file(&join(d, n), format!("{p}\n"))]].concat());
            }
        }
    }
    for e in &singles {
        for (cwd, args) in ARGS {
            for fix in [false, true] {
                if fix && *cwd != "" {
                    continue;
                }
                cases.push(Case { extra: e.clone(), cwd, args: s(args), fix });
            }
        }
    }
    let n_single = cases.len();
    // two ignore files
    let few: Vec<&str> = if ctx.quick() { vec!["a.twig", "*.twig", "!a.twig", "d/", "!d", "*", "/d/a.twig", "!*.html"] } else { PATTERNS.to_vec() };
    let args: &[usize] = if ctx.quick() { &[0, 3] } else { &[0, 3, 5] };
    for (i, (d1, n1)) in PLACES.iter().enumerate() {
        for (d2, n2) in &PLACES[i + 1..] {
            for p1 in &few {
                for p2 in &few {
                    for k in args {
                        let g = needs_git(n1) || needs_git(n2);
                        let (cwd, a) = ARGS[*k];
                        cases.push(Case { extra: [git(g), vec![file(&join(d1, n1), format!("{p1}\n")), file(&join(d2, n2), format!("{p2}\n"))]].concat(), cwd, args: s(a), fix: false });
                    }
                }
            }
        }
    }
    let n_pairs = cases.len() - n_single;
    // repositories inside of repositories: which .gitignore counts
    for g in 0..8u32 {
        for (d, n) in [("", ".gitignore"), ("d", ".gitignore"), ("d/e", ".gitignore"), ("", ".ludtwig-ignore"), ("", ".ignore"), ("d", ".git/info/exclude")] {
            for p in ["a.twig", "*.twig", "!a.twig", "d/", "d/e/a.twig"] {
                for second in [None, Some(("d/e", ".gitignore", "!a.twig"))] {
                    for (cwd, a) in ARGS {
                        let mut e = vec![];
                        for (bit, dd) in [(1, ""), (2, "d"), (4, "d/e")] {
                            if g & bit != 0 {
                                e.push(dir(&join(dd, ".git")));
                            }
                        }
                        if n.contains("git/") && g & 2 == 0 {
                            continue;
                        }
                        e.push(file(&join(d, n), format!("{p}\n")));
                        if let Some((d2, n2, p2)) = second {
                            if (d2, n2) == (d, n) {
                                continue;
                            }
                            e.push(file(&join(d2, n2), format!("{p2}\n")));
                        }
                        cases.push(Case { extra: e, cwd, args: s(a), fix: false });
                    }
                }
            }
        }
    }
    let n_repos = cases.len() - n_single - n_pairs;
    // all argument lists
    let spell: &[&str] = &[".", "./", "d", "d/", "./d", "d/e", "d/../d", "d//e", "a.twig", "./a.twig", "d/e/../a.twig", "/", "/d", "/d/e/a.twig", "c.txt", ".h.twig", "d/.hd", "lf.twig", "ld", "g.twig", "d/twig"];
    let worlds: Vec<Vec<Entry>> = vec![
        vec![link("lf.twig", "a.twig"), link("ld", "d")],
        vec![link("lf.twig", "a.twig"), link("ld", "d"), file(".ludtwig-ignore", "a.twig\n"), file("d/.ludtwig-ignore", "!a.twig\nx.*\n")],
        vec![link("lf.twig", "a.twig"), link("ld", "d"), dir(".git"), file(".gitignore", "e\n"), file("d/e/.ignore", "a.twig\n")],
    ];
    for e in &worlds {
        for a in spell {
            for fix in [false, true] {
                cases.push(Case { extra: e.clone(), cwd: "", args: s(&[a]), fix });
            }
            for b in spell {
                cases.push(Case { extra: e.clone(), cwd: "", args: s(&[a, b]), fix: false });
                for c in spell {
                    if !ctx.quick() || (a != b && b != c && [".", "./d", "d/e", "/d/e/a.twig", "lf.twig"].contains(a) && [".", "d", "/"].contains(c)) {
                        cases.push(Case { extra: e.clone(), cwd: "", args: s(&[a, b, c]), fix: false });
                    }
                }
            }
        }
    }
    // many arguments
    for k in [3, 8, 16, 31, 32, 33, 64, 100] {
        for (many, last) in [("d", "a.twig"), ("d/e", "/d/e/a.twig"), ("a.twig", "d"), ("d/e/a.twig", ".")] {
            let mut a = vec![many; k];
            a.push(last);
            cases.push(Case { extra: vec![], cwd: "", args: s(&a), fix: false });
            a.rotate_right(1);
            cases.push(Case { extra: vec![], cwd: "", args: s(&a), fix: true });
        }
    }
    let n_args = cases.len() - n_single - n_pairs - n_repos;
    ctx.note("cases", format!("one ignore file: {n_single}, two ignore files: {n_pairs}, repositories: {n_repos}, argument lists: {n_args}"));
    let n = cases.len();
    par_for(n, 16, |i| {
        if ctx.violation_count() < 300 {
            run_case(ctx, &cases[i], i % (n / 6) == 0);
        }
    });
    appearances(ctx);
}

// ---------------------------------------------------------------- what the files are like

/// Size, name, depth, mode and number of the files do not matter.
fn appearances(ctx: &Ctx) {
    let padded = |n: usize| {
        let mut t = TEXT.to_string();
        while t.len() < n {
            let k = (n - t.len()).min(80);
            t.push_str(&"x".repeat(k - 1));
            t.push('\n');
        }
        t.into_bytes()
    };
    // files with one finding each, files that only count
    let mut worlds: Vec<(String, Vec<Entry>, usize)> = vec![];
    let mut sizes: Vec<usize> = (10..=13).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    sizes.extend([65535, 65536, 65537, 1 << 17, 1_000_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 1, 5_000_001, (1 << 23) + 1]);
    if !ctx.quick() {
        sizes.extend([10_000_001, (1 << 24) + 1, (1 << 25) + 1]);
    }
    for n in sizes {
        worlds.push((format!("a file of {n} bytes"), vec![file("t/a.twig", padded(n)), file("t/b.html", TEXT)], 0));
    }
    worlds.push(("an empty file".into(), vec![file("t/a.twig", ""), file("t/b.html", TEXT)], 1));
    let long = format!("{}.twig", "n".repeat(250));
    for name in [
        "sp ace.twig", "ü.twig", "日本.html", "a.b.c.twig", "(x).html", "[x].twig", "[ab].html", "*.twig", "?.twig", "{a,b}.twig", "!x.twig", "#x.twig", "~.twig", "%41.twig", "a'b.twig", "a\"b.twig", "a&b.html", "a;b.twig", "$HOME.twig", "a.twig.html", "a.html.twig", "1.twig",
        "-.twig", "--fix.twig", "con.twig", "node_modules.twig", "target.html", "a.min.html", "test.twig", "vendor.twig", "index.html", "README.html", "a~.twig", "a.twig.twig", "..a.twig", "Makefile.twig", " .twig", "a .twig", "a,b.twig", "a=b.twig", "a+b@c.twig", "a:b.twig", "\u{1F600}.twig", &long,
    ] {
        worlds.push((format!("a file named {name:?}"), vec![file(&format!("t/{name}"), TEXT), file("t/z.html", TEXT)], 0));
    }
    for name in ["sp ace", "ü", "node_modules", "vendor", "target", "build", "dist", "var", "tests", "a.twig", "b.html", "c.txt", "[x]", "*", "{a}", "!x", "#x", "~", "git", "tmp", "cache", "a'b", "-x", "1"] {
        worlds.push((format!("a directory named {name:?}"), vec![file(&format!("t/{name}/a.twig"), TEXT), file(&format!("t/{name}/u/b.html"), TEXT)], 0));
    }
    for n in (1..=if ctx.quick() { 40 } else { 100 }).chain([200]) {
        worlds.push((format!("{n} directories deep"), vec![file(&format!("t/{}a.twig", "d/".repeat(n)), TEXT), file("t/b.html", TEXT)], 0));
    }
    for m in [0o400, 0o444, 0o600, 0o700, 0o755, 0o777, 0o4755, 0o2755, 0o1644] {
        worlds.push((format!("mode {m:o}"), vec![file("t/a.twig", TEXT).mode(m), file("t/u/b.html", TEXT).mode(m)], 0));
    }
    for n in (0..=if ctx.quick() { 40 } else { 300 }).chain([100, 255, 256, 257, 1000]) {
        worlds.push((format!("{n} files in a directory"), std::iter::once(dir("t")).chain((0..n).map(|i| file(&format!("t/{i}.twig"), TEXT))).collect(), 0));
        worlds.push((format!("{n} directories with a file"), std::iter::once(dir("t")).chain((0..n).map(|i| file(&format!("t/{i}/a.twig"), TEXT))).collect(), 0));
    }
    let threads = ["1", "2", "8"];
    let ways = 5;
    ctx.note("appearances", format!("{} worlds, {ways} ways to give them, {} numbers of threads", worlds.len(), threads.len()));
    par_for(worlds.len() * ways * threads.len(), 8, |i| {
        let (name, e, empty) = &worlds[i / ways / threads.len()];
        let way = i % ways;
        let th = threads[i / ways % threads.len()];
        let files: Vec<&str> = e.iter().filter(|e| matches!(e.item, Item::File(_))).map(|e| e.path.as_str()).collect();
        let w = World::new(e, None);
        let inner: Vec<&str> = files.iter().map(|f| &f[2..]).collect();
        let dotted: Vec<String> = inner.iter().map(|f| format!("./{f}")).collect();
        let (cwd, args): (&str, Vec<&str>) = match way {
            0 => ("", vec!["t"]),
            1 => ("t", vec!["."]),
            2 => ("", files.clone()),
            3 => ("t", dotted.iter().map(String::as_str).chain(["../t"]).collect()),
            _ => ("", vec!["t", "-f"]),
        };
        if args.is_empty() {
            return;
        }
        let r = w.run(cwd, &args, &[("RAYON_NUM_THREADS", th)], 120);
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(files.len() as u64);
        let findings = r.out.diags.values().flatten().filter(|d| d.rule == "twig-valid-filter").count();
        let per_file = r.out.diags.values().map(|v| v.iter().filter(|d| d.rule == "twig-valid-filter").count()).max().unwrap_or(0);
        let key = format!("{name} way {way} threads {th}");
        let fail = |why: String| ctx.violation(&key, &format!("{name}, ludtwig {} in {cwd:?}: {why}", if args.len() > 5 { "<the files>".into() } else { args.join(" ") }), &format!("{}\n{}", r.out.stdout.chars().take(2000).collect::<String>(), r.stderr.chars().take(2000).collect::<String>()));
        ctx.outcome(&format!("appearances {:?}", r.out.code), 1);
        if r.out.summary.is_none_or(|s| s.files != files.len() as u64 || s.errors != 0) {
            return fail(format!("summary {:?}, {} files are selected", r.out.summary, files.len()));
        }
        if findings != files.len() - empty || per_file > 1 {
            return fail(format!("{findings} findings in {} files", files.len()));
        }
        if way == 4 {
            let fixed = TEXT.replace('"', "'");
            if let Some((p, _)) = w.look().iter().find(|(p, s)| s.kind == 'f' && files.contains(&p.as_str()) && !s.bytes.is_empty() && !s.bytes.starts_with(fixed.as_bytes())) {
                fail(format!("{p} was not fixed"));
            }
        }
    });
}

//! Black-box driver for the real `ludtwig` binary: many generated files per process.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub const ALL_RULES: &[&str] = &[
    "ludtwig-ignore-file-not-on-top",
    "whitespace-between-line-breaks",
    "line-ending",
    "indentation",
    "twig-block-line-breaks",
    "twig-block-name-snake-case",
    "html-attribute-name-kebab-case",
    "twig-logic-and",
    "twig-logic-or",
    "twig-string-quotation",
    "html-string-quotation",
    "twig-hash-key-no-quotes",
    "twig-use-is-same-as",
    "twig-use-is-not-same-as",
    "twig-prefer-shopware-extends",
    "twig-block-duplicate",
    "twig-json-encode-escape-js",
    "html-duplicate-id",
    "twig-variable-definition-naming",
    "twig-valid-filter",
    "twig-valid-test",
    "twig-valid-function",
];

pub const LAYOUT_RULES: &[&str] = &[
    "whitespace-between-line-breaks",
    "line-ending",
    "indentation",
    "twig-block-line-breaks",
];

pub fn non_layout_rules() -> Vec<&'static str> {
    ALL_RULES
        .iter()
        .copied()
        .filter(|r| !LAYOUT_RULES.contains(r))
        .collect()
}

pub fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let base = if shm.is_dir() && std::fs::create_dir_all(shm.join("ludtwig-mc")).is_ok() {
        shm.join("ludtwig-mc")
    } else {
        std::env::temp_dir().join("ludtwig-mc")
    };
    let _ = std::fs::create_dir_all(&base);
    base
}

/// A scratch directory that is removed on drop.
pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new(tag: &str) -> Self {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let path = scratch_base().join(format!("{}-{}-{}", tag, std::process::id(), n));
        let _ = std::fs::remove_dir_all(&path);
        std::fs::create_dir_all(&path).expect("scratch dir");
        Scratch { path }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

pub fn ludtwig_bin() -> PathBuf {
    std::env::var_os("LUDTWIG_BIN")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif/target/repo/release/ludtwig"))
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Diag {
    pub rule: String,
    pub sev: char, // E W H N
    pub line: usize,
    pub col: usize,
    pub msg: String,
    pub raw: String,
}

impl Diag {
    pub fn short(&self) -> (String, char, usize, usize) {
        (self.rule.clone(), self.sev, self.line, self.col)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Summary {
    pub files: u64,
    pub errors: u64,
    pub warnings: u64,
    pub helps: u64,
    pub info: u64,
    pub total: u64,
}

#[derive(Debug, Default)]
pub struct RunOut {
    pub code: Option<i32>,
    pub signal: bool,
    pub stdout: String,
    /// stderr lines that do not belong to a diagnostic
    pub err_lines: Vec<String>,
    pub summary: Option<Summary>,
    pub summary_on_stderr: bool,
    /// diagnostics by path as printed
    pub diags: HashMap<String, Vec<Diag>>,
    pub timed_out: bool,
}

fn parse_summary(line: &str) -> Option<Summary> {
    let rest = line.strip_prefix("Files scanned: ")?;
    let nums: Vec<u64> = rest
        .split(|c: char| !c.is_ascii_digit())
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap_or(u64::MAX))
        .collect();
    if nums.len() != 6 {
        return None;
    }
    Some(Summary {
        files: nums[0],
        errors: nums[1],
        warnings: nums[2],
        helps: nums[3],
        info: nums[4],
        total: nums[5],
    })
}

fn header(line: &str) -> Option<(char, &str, &str)> {
    for (p, c) in [
        ("error[", 'E'),
        ("warning[", 'W'),
        ("help[", 'H'),
        ("note[", 'N'),
        ("bug[", 'B'),
    ] {
        if let Some(rest) = line.strip_prefix(p) {
            if let Some((rule, msg)) = rest.split_once("]: ") {
                return Some((c, rule, msg));
            }
        }
    }
    None
}

/// Parse the diagnostics that ludtwig prints. `paths`: every line `<ws>┌─ path:line:col`.
pub fn parse_stderr(stderr: &str, out: &mut RunOut) {
    struct Cur<'a> {
        sev: char,
        rule: &'a str,
        msg: &'a str,
        path: Option<&'a str>,
        line: usize,
        col: usize,
        start: usize,
    }
    fn flush<'a>(cur: &mut Option<Cur<'a>>, end: usize, stderr: &str, out: &mut RunOut) {
        if let Some(c) = cur.take() {
            let d = Diag {
                rule: c.rule.to_string(),
                sev: c.sev,
                line: c.line,
                col: c.col,
                msg: c.msg.to_string(),
                raw: stderr[c.start..end].trim_end().to_string(),
            };
            out.diags
                .entry(c.path.unwrap_or("").to_string())
                .or_default()
                .push(d);
        }
    }
    let mut cur: Option<Cur> = None;
    let mut pos = 0;
    for line_nl in stderr.split_inclusive('\n') {
        let start = pos;
        pos += line_nl.len();
        let line = line_nl.strip_suffix('\n').unwrap_or(line_nl);
        if let Some((sev, rule, msg)) = header(line) {
            flush(&mut cur, start, stderr, out);
            cur = Some(Cur {
                sev,
                rule,
                msg,
                path: None,
                line: 0,
                col: 0,
                start,
            });
            continue;
        }
        if let Some(s) = parse_summary(line) {
            flush(&mut cur, start, stderr, out);
            out.summary = Some(s);
            out.summary_on_stderr = true;
            continue;
        }
        // lines of a diagnostic: location, source, gutter, notes
        let t = line.trim_start();
        if let Some(c) = cur.as_mut() {
            if c.path.is_none() {
                if let Some(loc) = t.strip_prefix("┌─ ") {
                    let mut it = loc.rsplitn(3, ':');
                    let col = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let ln = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    c.path = it.next();
                    c.line = ln;
                    c.col = col;
                    continue;
                }
            }
            if line.is_empty()
                || line.starts_with(' ')
                || t.starts_with('│')
                || t.starts_with('·')
                || t.starts_with('=')
                || line.starts_with(|c: char| c.is_ascii_digit())
            {
                continue;
            }
            flush(&mut cur, start, stderr, out);
        }
        if !line.trim().is_empty() {
            out.err_lines.push(line.to_string());
        }
    }
    flush(&mut cur, pos, stderr, out);
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub rules: Option<Vec<&'static str>>,
    pub extra_format: Vec<(&'static str, String)>,
    pub extra_twig: Vec<(&'static str, String)>,
}

impl Cfg {
    pub fn default_cfg() -> Self {
        Cfg {
            rules: None,
            extra_format: vec![],
            extra_twig: vec![],
        }
    }
    pub fn rules(r: &[&'static str]) -> Self {
        Cfg {
            rules: Some(r.to_vec()),
            ..Self::default_cfg()
        }
    }
    pub fn fmt(mut self, k: &'static str, v: &str) -> Self {
        self.extra_format.push((k, v.to_string()));
        self
    }
    pub fn twig(mut self, k: &'static str, v: &str) -> Self {
        self.extra_twig.push((k, v.to_string()));
        self
    }
    pub fn toml(&self) -> String {
        let mut s = String::new();
        s.push_str("# version intentionally inherited\n");
        if let Some(r) = &self.rules {
            s.push_str("[general]\nactive-rules = [");
            for x in r {
                s.push_str(&format!("\"{x}\", "));
            }
            s.push_str("]\n");
        }
        if !self.extra_format.is_empty() {
            s.push_str("[format]\n");
            for (k, v) in &self.extra_format {
                s.push_str(&format!("{k} = {v}\n"));
            }
        }
        if !self.extra_twig.is_empty() {
            s.push_str("[twig]\n");
            for (k, v) in &self.extra_twig {
                s.push_str(&format!("{k} = {v}\n"));
            }
        }
        s
    }
}

/// Run the binary with a time limit; stdout / stderr go to files (so no pipe can fill up).
pub fn run_bin(cwd: &Path, args: &[&str], envs: &[(&str, &str)], timeout_s: u64) -> RunOut {
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let base = scratch_base();
    let so = base.join(format!("out-{}-{}", std::process::id(), n));
    let se = base.join(format!("err-{}-{}", std::process::id(), n));
    let fo = std::fs::File::create(&so).unwrap();
    let fe = std::fs::File::create(&se).unwrap();
    let mut cmd = Command::new(ludtwig_bin());
    cmd.current_dir(cwd).args(args).stdin(std::process::Stdio::null());
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().starts_with("LUDTWIG") {
            cmd.env_remove(k);
        }
    }
    for (k, v) in envs {
        cmd.env(k, v);
    }
    cmd.env("NO_COLOR", "1").env("TERM", "dumb");
    cmd.stdout(fo).stderr(fe);
    let mut child = cmd.spawn().expect("spawn ludtwig");
    let t0 = std::time::Instant::now();
    let mut out = RunOut::default();
    let mut delay = 200u64;
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None => {
                if t0.elapsed().as_secs() >= timeout_s {
                    let _ = child.kill();
                    let _ = child.wait();
                    out.timed_out = true;
                    break None;
                }
                std::thread::sleep(std::time::Duration::from_micros(delay));
                delay = (delay * 2).min(5000);
            }
        }
    };
    if let Some(s) = status {
        out.code = s.code();
        out.signal = s.code().is_none();
    }
    out.stdout = String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).into_owned();
    let stderr = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&so);
    let _ = std::fs::remove_file(&se);
    parse_stderr(&stderr, &mut out);
    if out.summary.is_none() {
        for l in out.stdout.lines() {
            if let Some(s) = parse_summary(l) {
                out.summary = Some(s);
            }
        }
    }
    out
}

/// Result for one generated file.
#[derive(Debug, Clone, Default)]
pub struct FileOut {
    pub diags: Vec<Diag>,
    pub after: Option<String>,
}

pub struct Batch {
    pub files: Vec<FileOut>,
    pub run: RunOut,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Lint,
    Fix,
}

pub fn case_name(i: usize) -> String {
    format!("d{}/c{}.html.twig", i / 500, i)
}

/// Lint (or fix) all `cases` in one process of the real binary.
pub fn run_batch(cases: &[&str], cfg: &Cfg, mode: Mode, timeout_s: u64) -> Batch {
    run_batch_with(cases, cfg, mode, &[], timeout_s)
}

/// The same with further options.
pub fn run_batch_with(cases: &[&str], cfg: &Cfg, mode: Mode, options: &[&str], timeout_s: u64) -> Batch {
    let sc = Scratch::new("b");
    let root = sc.path.join("t");
    std::fs::create_dir_all(&root).unwrap();
    let cfgp = sc.path.join("cfg.toml");
    std::fs::write(&cfgp, cfg.toml()).unwrap();
    for (i, c) in cases.iter().enumerate() {
        if i % 500 == 0 {
            std::fs::create_dir_all(root.join(format!("d{}", i / 500))).unwrap();
        }
        std::fs::write(root.join(case_name(i)), c).unwrap();
    }
    let mut args = vec!["-c", cfgp.to_str().unwrap()];
    if mode == Mode::Fix {
        args.push("-f");
    }
    args.extend(options);
    args.push("t");
    let mut run = run_bin(&sc.path, &args, &[("RAYON_NUM_THREADS", "4")], timeout_s);
    let mut files = Vec::with_capacity(cases.len());
    for i in 0..cases.len() {
        let name = format!("t/{}", case_name(i));
        let mut diags = run.diags.remove(&name).unwrap_or_default();
        diags.sort_by(|a, b| (a.line, a.col, &a.rule).cmp(&(b.line, b.col, &b.rule)));
        let after = if mode == Mode::Fix {
            Some(
                std::fs::read(sc.path.join(&name))
                    .map(|b| String::from_utf8_lossy(&b).into_owned())
                    .unwrap_or_else(|e| format!("<unreadable: {e}>")),
            )
        } else {
            None
        };
        files.push(FileOut { diags, after });
    }
    Batch { files, run }
}

/// Run all cases in several processes (batches), calling `f(index, result)` for each case.
/// `on_batch_error(range, run)` is called when the process itself misbehaved
/// (crash, hang, missing summary, wrong file count).
pub fn run_all<'a>(
    cases: &'a [String],
    cfg: &Cfg,
    mode: Mode,
    f: impl Fn(usize, &FileOut) + Sync,
    on_batch_error: impl Fn(&[String], &RunOut, String) + Sync,
) {
    let bs = 4000.min(cases.len().div_ceil(8).max(1));
    let nb = cases.len().div_ceil(bs);
    crate::core::par_for(nb, 1, |b| {
        let lo = b * bs;
        let hi = (lo + bs).min(cases.len());
        let refs: Vec<&str> = cases[lo..hi].iter().map(|s| s.as_str()).collect();
        let out = run_batch(&refs, cfg, mode, 120);
        if let Some(why) = batch_problem(&out.run, hi - lo) {
            on_batch_error(&cases[lo..hi], &out.run, why);
        }
        for (i, fo) in out.files.iter().enumerate() {
            f(lo + i, fo);
        }
    });
}

/// Generic well-formedness of one process run: terminated by itself, summary, file count, counts.
pub fn batch_problem(run: &RunOut, n_files: usize) -> Option<String> {
    if run.timed_out {
        return Some("ludtwig did not terminate".into());
    }
    if run.signal {
        return Some("ludtwig was killed by a signal".into());
    }
    match run.code {
        Some(0) | Some(1) => {}
        c => return Some(format!("ludtwig exited with {c:?}")),
    }
    let Some(s) = run.summary else {
        return Some("no summary printed".into());
    };
    if s.files != n_files as u64 {
        return Some(format!("summary counts {} files, expected {}", s.files, n_files));
    }
    None
}

/// (line, column) as printed by the diagnostics for a byte offset.
pub fn line_col(text: &str, off: usize) -> (usize, usize) {
    let off = off.min(text.len());
    let line_start = text[..off].rfind('\n').map_or(0, |i| i + 1);
    let line = text[..off].bytes().filter(|b| *b == b'\n').count() + 1;
    (line, text[line_start..off].chars().count() + 1)
}

//! Small file trees in a scratch directory, runs of the real binary on them, comparison of the
//! tree before and after.
use crate::cli::*;
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub enum Item {
    File(Vec<u8>),
    Dir,
    Link(String),
}

/// (path, what, permissions)
#[derive(Clone, Debug)]
pub struct Entry {
    pub path: String,
    pub item: Item,
    pub mode: Option<u32>,
}

pub fn file(path: &str, text: impl AsRef<[u8]>) -> Entry {
    Entry { path: path.into(), item: Item::File(text.as_ref().to_vec()), mode: None }
}
pub fn dir(path: &str) -> Entry {
    Entry { path: path.into(), item: Item::Dir, mode: None }
}
pub fn link(path: &str, to: &str) -> Entry {
    Entry { path: path.into(), item: Item::Link(to.into()), mode: None }
}
impl Entry {
    pub fn mode(mut self, m: u32) -> Self {
        self.mode = Some(m);
        self
    }
}

pub const NOBODY: u32 = 65534;

/// A copy of the binary that an unprivileged user can execute.
pub fn public_bin() -> PathBuf {
    static BIN: OnceLock<PathBuf> = OnceLock::new();
    BIN.get_or_init(|| {
        let d = scratch_base().join(format!("bin-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::set_permissions(scratch_base(), std::fs::Permissions::from_mode(0o755)).unwrap();
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap();
        let p = d.join("ludtwig");
        std::fs::copy(ludtwig_bin(), &p).unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        p
    })
    .clone()
}

pub fn remove_public_bin() {
    let _ = std::fs::remove_dir_all(scratch_base().join(format!("bin-{}", std::process::id())));
}

/// What a file looks like: kind, content, mode, inode, modification time.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub kind: char,
    pub bytes: Vec<u8>,
    pub mode: u32,
    pub ino: u64,
    pub mtime: (i64, i64),
}

pub struct World {
    pub sc: Scratch,
    pub uid: Option<u32>,
}

impl World {
    pub fn root(&self) -> PathBuf {
        self.sc.path.join("w")
    }

    pub fn new(entries: &[Entry], uid: Option<u32>) -> Self {
        let w = World { sc: Scratch::new("w"), uid };
        std::fs::create_dir_all(w.root()).unwrap();
        if uid.is_some() {
            std::fs::set_permissions(&w.sc.path, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        for e in entries {
            w.put(e);
        }
        if let Some(u) = uid {
            let mut v = vec![];
            collect(&w.root(), &mut v);
            v.push(w.root());
            for p in v {
                let _ = std::os::unix::fs::lchown(p, Some(u), Some(u));
            }
        }
        for e in entries {
            if let Some(m) = e.mode {
                let _ = std::fs::set_permissions(w.root().join(&e.path), std::fs::Permissions::from_mode(m));
            }
        }
        w
    }

    fn put(&self, e: &Entry) {
        let p = self.root().join(&e.path);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        match &e.item {
            Item::File(b) => std::fs::write(&p, b).unwrap(),
            Item::Dir => std::fs::create_dir_all(&p).unwrap(),
            Item::Link(t) => std::os::unix::fs::symlink(t, &p).unwrap(),
        }
    }

    pub fn look(&self) -> BTreeMap<String, Seen> {
        let mut v = vec![];
        collect(&self.root(), &mut v);
        v.into_iter()
            .map(|p| {
                let m = std::fs::symlink_metadata(&p).unwrap();
                let (kind, bytes) = if m.is_symlink() {
                    ('l', std::fs::read_link(&p).unwrap().to_string_lossy().as_bytes().to_vec())
                } else if m.is_dir() {
                    ('d', vec![])
                } else {
                    ('f', std::fs::read(&p).unwrap_or_default())
                };
                let name = p.strip_prefix(self.root()).unwrap().to_string_lossy().into_owned();
                let dir = kind == 'd';
                (
                    name,
                    Seen {
                        kind,
                        bytes,
                        mode: m.mode(),
                        ino: m.ino(),
                        mtime: if dir { (0, 0) } else { (m.mtime(), m.mtime_nsec()) },
                    },
                )
            })
            .collect()
    }

    pub fn run(&self, cwd: &str, args: &[&str], envs: &[(&str, &str)], timeout_s: u64) -> Raw {
        run_raw(&self.sc.path, &self.root().join(cwd), args, envs, self.uid, timeout_s)
    }
}

impl Drop for World {
    fn drop(&mut self) {
        // (directories without permissions)
        let mut v = vec![];
        collect(&self.root(), &mut v);
        for p in v {
            if std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_dir()) {
                let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
            }
        }
    }
}

fn collect(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            out.push(p.clone());
            if std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_dir()) {
                collect(&p, out);
            }
        }
    }
}

#[derive(Debug, Default)]
pub struct Raw {
    pub out: RunOut,
    pub stderr: String,
}

pub fn run_raw(tmp: &Path, cwd: &Path, args: &[&str], envs: &[(&str, &str)], uid: Option<u32>, timeout_s: u64) -> Raw {
    let so = tmp.join("stdout");
    let se = tmp.join("stderr");
    let mut cmd = Command::new(if uid.is_some() { public_bin() } else { ludtwig_bin() });
    cmd.current_dir(cwd).args(args).stdin(Stdio::null());
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().starts_with("LUDTWIG") {
            cmd.env_remove(k);
        }
    }
    cmd.env("NO_COLOR", "1").env("TERM", "dumb").env("HOME", tmp).env_remove("XDG_CONFIG_HOME");
    for (k, v) in envs {
        cmd.env(k, v);
    }
    if let Some(u) = uid {
        cmd.uid(u).gid(u);
    }
    cmd.stdout(std::fs::File::create(&so).unwrap()).stderr(std::fs::File::create(&se).unwrap());
    let mut child = cmd.spawn().unwrap_or_else(|e| panic!("spawn ludtwig: {e}"));
    let t0 = std::time::Instant::now();
    let mut out = RunOut::default();
    let mut delay = 100u64;
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None => {
                if t0.elapsed().as_secs() >= timeout_s {
                    let _ = child.kill();
                    let _ = child.wait();
                    out.timed_out = true;
                    break None;
                }
                std::thread::sleep(std::time::Duration::from_micros(delay));
                delay = (delay * 3 / 2).min(5000);
            }
        }
    };
    if let Some(s) = status {
        out.code = s.code();
        out.signal = s.code().is_none();
    }
    out.stdout = String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).into_owned();
    let stderr = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned();
    parse_stderr(&stderr, &mut out);
    if out.summary.is_none() {
        let mut o = RunOut::default();
        parse_stderr(&out.stdout, &mut o);
        out.summary = o.summary;
    }
    Raw { out, stderr }
}

/// Multisets of size `n` of `0..k` (sorted index lists).
pub fn multisets(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(k: usize, n: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if n == 0 {
            return f(cur);
        }
        for i in from..k {
            cur.push(i);
            go(k, n - 1, i, cur, f);
            cur.pop();
        }
    }
    go(k, n, 0, &mut vec![], f);
}

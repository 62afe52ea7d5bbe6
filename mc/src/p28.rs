//! P28: what is found in a file and made of it depends on its content only.
use crate::cli::*;
use crate::core::{par_for, Ctx};
use std::collections::BTreeMap;

const NAMES: &[&str] = &["a.twig", "b.html", "c.html.twig", "sub/d.twig", "é x.html", "z.twig.twig", "sub/a.twig", "vendor/node_modules/test/views/storefront/component/_a.html.twig", "base.html.twig", "-c.twig", "{{ x }}.twig"];

fn contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "<p>fine</p>\n",
        "<P Ab='c'>{{ 'a' && b|zz }}\n  \n\n\n\n</P>\n",
        "<p>{{ a\n",
        "{# ludtwig-ignore-file #}\n<p Ab='c'></p>\n{{ a",
        "{# ludtwig-ignore-file html-attribute-name-kebab-case #}\n<p Ab='c'></p>\n",
        "<p Ab='c'></p>{# ludtwig-ignore #}",
        "<p Ab='c'></p>\n{# ludtwig-ignore indentation, html-attribute-name-kebab-case, html-string-quotation #}\n",
        "",
        "\u{feff}<p Ab='c'></p>",
        "{% block x %}{% endblock %}\n<p id=\"a\"></p>",
        "{% block x %}\n{% block x %}{% endblock %}{% endblock %}\n<p id=\"a\"></p><i id=\"a\"></i>",
        "<pre>\n   {{ \"a\" === b }}\n",
        "<script>\n{{ a !== 'b' }}",
        "<p Ab='c'>\r\n\r\n \r\n   x</p>\r\n",
        "{% extends 'a' %}{% set a_b = 1 %}{% set AB = constant('c') %}",
        "{{ a === (b === (c === (d === (e === (f === (g === (h === (i === (j === (k === (l === m))))))))))) }}",
        "  <div\na='b'\n    c>\n{% if a %}\n<p\n",
        "{#",
        "{% verbatim %}<p Ab='c'>",
        "{% foo %}</div>{% endif %}",
    ]
    .iter()
    .map(|t| t.as_bytes().to_vec())
    .collect();
    v.push(b"<p Ab='\xff\xfe'></p>".to_vec());
    v.push("<p Ab='c'>{{ \"a\" || b|zz }}</p>\n".repeat(300).into_bytes());
    v
}

/// What is said about every file (without its name) and what it is afterwards.
#[derive(Clone, PartialEq, Debug)]
struct Told {
    findings: Vec<(String, String)>,
    other: Vec<String>,
    after: Vec<u8>,
}

struct Got {
    files: Vec<Told>,
    summary: Option<Summary>,
    code: Option<i32>,
    odd: bool,
}

fn plain(raw: &str) -> String {
    // the gutter line with the path
    raw.lines().map(|l| if l.trim_start().starts_with("┌─ ") { l.rsplitn(3, ':').take(2).collect::<Vec<_>>().join(":") } else { l.to_string() }).collect::<Vec<_>>().join("\n")
}

/// How the files are given: as arguments, by the directory, by absolute paths, from below.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Args,
    Dir,
    Absolute,
    Up,
}

fn run(files: &[(&str, &[u8])], fix: bool, how: How, threads: &str) -> Got {
    let sc = Scratch::new("i");
    let t = sc.path.join("t");
    std::fs::create_dir_all(t.join("sub")).unwrap();
    for (n, c) in files {
        std::fs::create_dir_all(t.join(n).parent().unwrap()).unwrap();
        std::fs::write(t.join(n), c).unwrap();
    }
    let cfg = sc.path.join("cfg.toml");
    std::fs::write(&cfg, Cfg::default_cfg().toml()).unwrap();
    let base = match how {
        How::Args | How::Dir => "t".to_string(),
        How::Absolute => t.to_string_lossy().into_owned(),
        How::Up => "..".to_string(),
    };
    let paths: Vec<String> = if how == How::Dir { vec![base.clone()] } else { files.iter().map(|f| format!("{base}/{}", f.0)).collect() };
    let mut args = vec!["-c", cfg.to_str().unwrap()];
    if fix {
        args.push("-f");
    }
    args.extend(paths.iter().map(String::as_str));
    let cwd = if how == How::Up { t.join("sub") } else { sc.path.clone() };
    let mut out = run_bin(&cwd, &args, &[("RAYON_NUM_THREADS", threads)], 60);
    let mut told = vec![];
    let mut lines: Vec<String> = std::mem::take(&mut out.err_lines);
    lines.extend(out.stdout.lines().filter(|l| l.starts_with("fixed ")).map(str::to_string));
    for (n, _) in files {
        let name = format!("{base}/{n}");
        let mut findings: Vec<(String, String)> = out.diags.remove(&name).unwrap_or_default().into_iter().map(|d| (format!("{} {}", d.rule, d.sev), plain(&d.raw))).collect();
        findings.sort();
        let mut other = vec![];
        lines.retain(|l| {
            let mine = l.contains(&name);
            if mine {
                other.push(l.replace(&name, "F"));
            }
            !mine
        });
        other.sort();
        told.push(Told { findings, other, after: std::fs::read(t.join(n)).unwrap_or_default() });
    }
    let odd = out.timed_out || out.signal || out.summary.is_none() || !out.diags.is_empty() || lines.iter().any(|l| l.contains("rror"));
    Got { files: told, summary: out.summary, code: out.code, odd }
}

pub fn p28(ctx: &Ctx) {
    let c = contents();
    let n = c.len();
    let show = |k: usize| String::from_utf8_lossy(&c[k][..c[k].len().min(60)]).into_owned();
    // alone
    let mut alone: BTreeMap<(usize, bool), Got> = BTreeMap::new();
    for k in 0..n {
        for fix in [false, true] {
            alone.insert((k, fix), run(&[(NAMES[0], &c[k])], fix, How::Args, "1"));
            ctx.state(1);
            ctx.trace(1);
        }
        ctx.sample(format!("{:?}", show(k)));
    }
    let alone = &alone;
    let judge = |ks: &[usize], names: &[&str], fix: bool, how: How, threads: &str| {
        let files: Vec<(&str, &[u8])> = ks.iter().zip(names).map(|(k, n)| (*n, c[*k].as_slice())).collect();
        let got = run(&files, fix, how, threads);
        ctx.state(1);
        ctx.transition(ks.len() as u64);
        ctx.trace(1);
        let key = format!("files:{:?}:{names:?}:{fix}:{how:?}", ks);
        let what = format!("{:?} as {names:?} ({how:?}{})", ks.iter().map(|k| show(*k)).collect::<Vec<_>>(), if fix { ", --fix" } else { "" });
        if got.odd {
            ctx.violation(&key, &format!("{what}: the run was not completed or tells about something else"), &format!("{:?}", got.files.iter().map(|f| &f.other).collect::<Vec<_>>()));
            return;
        }
        let (mut sum, mut code) = ([0u64; 6], 0);
        for (i, k) in ks.iter().enumerate() {
            let want = &alone[&(*k, fix)];
            if got.files[i] != want.files[0] {
                ctx.violation(&key, &format!("{what}: the findings in file {i} (or the file) are others than those of the file alone"), &format!("{:#?}\n{:#?}", want.files[0], got.files[i]));
            }
            let s = want.summary.unwrap();
            for (a, b) in sum.iter_mut().zip([s.files, s.errors, s.warnings, s.helps, s.info, s.total]) {
                *a += b;
            }
            code = code.max(want.code.unwrap_or(99));
            ctx.outcome(&format!("{} {}", if want.files[0].findings.is_empty() { "clean" } else { "findings" }, if want.files[0].after == c[*k] { "kept" } else { "fixed" }), 1);
        }
        let s = got.summary.unwrap();
        if [s.files, s.errors, s.warnings, s.helps, s.info, s.total] != sum || got.code != Some(code) {
            ctx.violation(&key, &format!("{what}: the summary or exit code is not the sum of those of the files alone"), &format!("{s:?} {:?}, {sum:?} {code}", got.code));
        }
    };
    // every name and every way to give it
    par_for(n, 1, |k| {
        for name in NAMES {
            for how in [How::Args, How::Dir, How::Absolute, How::Up] {
                for fix in [false, true] {
                    judge(&[k], &[name], fix, how, "1");
                }
            }
        }
    });
    // every sequence of two files: names in both orders
    par_for(n * n, 1, |i| {
        let (a, b) = (i / n, i % n);
        for (x, y) in [(0, 1), (1, 0), (3, 0), (2, 4), (0, 6), (6, 0)] {
            for fix in [false, true] {
                for how in [How::Args, How::Dir] {
                    judge(&[a, b], &[NAMES[x], NAMES[y]], fix, how, "1");
                }
            }
            judge(&[a, b], &[NAMES[x], NAMES[y]], false, How::Args, "4");
        }
    });
    // every sequence of three
    par_for(n * n * n, 4, |i| {
        let ks = [i / n / n, i / n % n, i % n];
        for fix in [false, true] {
            if ctx.quick() && fix == (i % 2 == 0) {
                continue;
            }
            judge(&ks, &["a.twig", "b.html", "sub/d.twig"], fix, if ctx.quick() || i % 3 > 0 { How::Args } else { How::Dir }, if i % 5 == 0 { "3" } else { "1" });
        }
    });
    // all files together
    let names: Vec<String> = (0..n).map(|k| format!("f{k:02}.twig")).collect();
    for r in 0..n {
        let ks: Vec<usize> = (0..n).map(|k| (k + r) % n).collect();
        let names: Vec<&str> = names.iter().map(String::as_str).collect();
        for fix in [false, true] {
            for how in [How::Args, How::Dir, How::Absolute] {
                judge(&ks, &names, fix, how, if r % 2 == 0 { "1" } else { "8" });
            }
        }
    }
}

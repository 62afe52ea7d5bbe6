//! Shared machinery of every check: tier handling, violation / known-finding reporting, evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Known {
    property: String,
    key: String,
    what: String,
}

/// One run of one check.
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    known: Vec<Known>,
    hit_known: Mutex<BTreeSet<usize>>,
    violations: Mutex<Vec<(usize, String, String, String)>>, // weight, key, headline, replay body
    n_violations: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<Vec<(String, String)>>,
    pub vacuous: AtomicBool,
}

pub fn json_escape(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = vec![];
        let file = format!("{VERIF}/known-findings.txt");
        for line in std::fs::read_to_string(&file).unwrap_or_default().lines() {
            // known: property=<id> key=<json string> <what fails>
            let Some(rest) = line.strip_prefix("known: property=") else {
                continue;
            };
            let Some((p, rest)) = rest.split_once(" key=") else {
                continue;
            };
            if p != prop {
                continue;
            }
            let Some((key, what)) = rest.split_once(" :: ") else {
                continue;
            };
            known.push(Known {
                property: p.to_string(),
                key: key.to_string(),
                what: what.to_string(),
            });
        }
        Ctx {
            prop,
            tier,
            seed,
            start: Instant::now(),
            known,
            hit_known: Mutex::new(BTreeSet::new()),
            violations: Mutex::new(vec![]),
            n_violations: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(vec![]),
            vacuous: AtomicBool::new(false),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn transition(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 12 {
            g.push(s.into());
        }
    }

    /// Count a distinct observed outcome class (so that a collapsed exploration is visible).
    pub fn outcome(&self, s: &str, n: u64) {
        let mut g = self.outcomes.lock().unwrap();
        if let Some(x) = g.get_mut(s) {
            *x += n;
        } else if g.len() < 4000 {
            g.insert(s.to_string(), n);
        }
    }

    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.notes.lock().unwrap().push((k.to_string(), v.into()));
    }

    /// Report a violation. `key` identifies the specific failing input / history (single line);
    /// if the known-findings file lists it, it is a known finding instead.
    pub fn violation(&self, key: &str, headline: &str, body: &str) {
        let key1: String = key
            .replace('\\', "\\\\")
            .replace('\n', "\\n")
            .replace('\r', "\\r")
            .replace('\t', "\\t");
        for (i, k) in self.known.iter().enumerate() {
            if k.key == key1 {
                self.hit_known.lock().unwrap().insert(i);
                return;
            }
        }
        self.n_violations.fetch_add(1, Ordering::Relaxed);
        let mut g = self.violations.lock().unwrap();
        g.push((key1.len(), key1, headline.to_string(), body.to_string()));
        if g.len() > 4000 {
            g.sort();
            g.truncate(400);
        }
    }

    pub fn violation_count(&self) -> u64 {
        self.n_violations.load(Ordering::Relaxed)
    }

    /// Report what is known so far and end the process (the code under test hangs in a thread).
    pub fn abort(&self) -> ! {
        std::process::exit(self.finish())
    }

    /// Write evidence, print the verdict and return the exit code.
    pub fn finish(&self) -> i32 {
        let wall = self.elapsed();
        let outcomes = std::mem::take(&mut *self.outcomes.lock().unwrap());
        let samples = std::mem::take(&mut *self.samples.lock().unwrap());
        let states = self.states.load(Ordering::Relaxed);
        let transitions = self.transitions.load(Ordering::Relaxed);
        let traces = self.traces.load(Ordering::Relaxed);
        let mut viol = std::mem::take(&mut *self.violations.lock().unwrap());
        viol.sort();
        viol.dedup_by(|a, b| a.1 == b.1);

        let mut ev = String::new();
        ev.push_str("{\n");
        let _ = writeln!(ev, "  \"property\": {},", json_escape(self.prop));
        let _ = writeln!(
            ev,
            "  \"tier\": \"{}\",",
            if self.tier == Tier::Quick { "quick" } else { "thorough" }
        );
        let _ = writeln!(ev, "  \"seed\": {},", self.seed);
        let _ = writeln!(ev, "  \"level\": \"model_checking\",");
        let _ = writeln!(ev, "  \"coverage\": {{");
        let _ = writeln!(ev, "    \"states\": {states},");
        let _ = writeln!(ev, "    \"transitions\": {transitions},");
        let _ = writeln!(ev, "    \"traces_validated_against_impl\": {traces},");
        let _ = writeln!(ev, "    \"distinct_outcomes\": {},", outcomes.len());
        let mut top: Vec<_> = outcomes.iter().collect();
        top.sort_by(|a, b| b.1.cmp(a.1));
        let _ = write!(ev, "    \"outcome_histogram\": {{");
        for (i, (k, v)) in top.iter().take(40).enumerate() {
            let _ = write!(ev, "{}{}: {}", if i > 0 { ", " } else { "" }, json_escape(k), v);
        }
        ev.push_str("},\n");
        for (k, v) in self.notes.lock().unwrap().drain(..) {
            let _ = writeln!(ev, "    {}: {},", json_escape(&k), json_escape(&v));
        }
        let _ = write!(ev, "    \"samples\": [");
        for (i, s) in samples.iter().enumerate() {
            let _ = write!(ev, "{}{}", if i > 0 { ", " } else { "" }, json_escape(s));
        }
        ev.push_str("]\n  },\n");
        let _ = writeln!(ev, "  \"violations\": {},", viol.len());
        let _ = writeln!(ev, "  \"wall_s\": {wall:.3}");
        ev.push_str("}\n");
        let dir = PathBuf::from(format!("{VERIF}/evidence"));
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), ev).expect("write evidence");

        println!(
            "{}: tier={:?} states={} transitions={} traces_validated={} distinct_outcomes={} wall={:.1}s",
            self.prop, self.tier, states, transitions, traces, outcomes.len(), wall
        );
        for i in self.hit_known.lock().unwrap().iter() {
            let k = &self.known[*i];
            println!("KNOWN-FINDING: property={} {} [{}]", k.property, k.what, k.key);
        }
        if viol.is_empty() {
            if states == 0 || traces == 0 {
                eprintln!("{}: check explored nothing - this is an error of the check", self.prop);
                return 3;
            }
            return 0;
        }
        let rdir = PathBuf::from(format!("{VERIF}/replay"));
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (_, key, headline, body)) in viol.iter().take(8).enumerate() {
            let path = rdir.join(format!("{}-{}.txt", self.prop, i));
            let mut f = std::fs::File::create(&path).expect("replay file");
            let _ = writeln!(f, "property: {}\nkey: {}\n{}\n\n{}", self.prop, key, headline, body);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            println!("  {headline}");
            println!("  key: {key}");
        }
        if std::env::var("MC_ALL").is_ok() {
            for v in &viol {
                println!("ALL {} || {}", v.1, v.2.lines().next().unwrap_or(""));
            }
        }
        if viol.len() > 8 {
            println!("  ... {} distinct violations in total", viol.len());
        }
        1
    }
}

/// Run `f(i)` for all i in 0..n on all cores (work stealing by chunk).
pub fn par_for(n: usize, chunk: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get());
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= n {
                        break;
                    }
                    for i in a..(a + chunk).min(n) {
                        f(i);
                    }
                })
                .unwrap();
        }
    });
}

//! The exploration engine: indexable finite spaces, parallel exhaustive enumeration, comparison with the model on every
//! execution, counting of distinct model configurations, confirmation of discrepancies on the real binary, evidence.

use crate::exec::*;
use crate::model::{self, Outcome, Trace};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type Set = HashSet<u64, BuildHasherDefault<Ident>>;

const SHARDS: usize = 256;
const STATE_CAP: u64 = 30_000_000;

#[derive(Clone)]
pub struct Paths {
    pub repo: PathBuf,
    pub c8s: PathBuf,
    pub dev: PathBuf,
    pub shim: PathBuf,
    pub worker: Option<PathBuf>,
    pub opc: Option<PathBuf>,
    pub scratch: PathBuf,
    pub evidence: PathBuf,
    pub verif: PathBuf,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    /// The real binary through the fork server.
    Cli,
    /// The in-process worker; if it is unavailable, `n` cases run on the real binary instead.
    Inproc { cli_n: u64 },
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// The j-th of m cases picked from n: the first half of them from the front, the others spread over the space by a
/// fixed stride coprime to n (no randomness: the same cases every time).
fn pick(j: u64, m: u64, n: u64) -> u64 {
    if m >= n || j < m / 2 {
        return j;
    }
    let mut step = (n as f64 * 0.618_033_988_75) as u64 | 1;
    while gcd(step, n) != 1 {
        step += 2;
    }
    ((j as u128 * step as u128) % n as u128) as u64
}

pub struct Case<'a> {
    pub idx: u64,
    pub src: &'a [u8],
    pub want: &'a Outcome,
    pub got: &'a RunResult,
}

pub type Gen<'a> = &'a (dyn Fn(u64) -> Vec<u8> + Sync);
pub type Judge<'a> = &'a (dyn Fn(&Case) -> Result<(), String> + Sync);

#[derive(Clone, Debug)]
pub struct SpaceReport {
    pub name: String,
    pub what: String,
    pub via: String,
    pub size: u64,
    pub explored: u64,
    pub distinct_results: u64,
    /// What the model says of the cases: accepted, colliding, rejected by kind of mistake.
    pub outcomes: Vec<(String, u64)>,
    pub exhaustive: bool,
    pub wall_s: f64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub idx: u64,
    pub why: String,
    pub files: Vec<(String, Vec<u8>)>,
}

pub struct Session {
    pub paths: Paths,
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub level: String,
    pub start: Instant,
    pub threads: usize,
    pub budget_s: f64,
    states: Vec<Mutex<Set>>,
    nstates: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub cli_runs: AtomicU64,
    pub inproc_runs: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub spaces: Mutex<Vec<SpaceReport>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
    pub notes: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub extra: Mutex<Vec<(String, String)>>,
    pub stop: AtomicBool,
    pub errors: AtomicU64,
    pub known: Vec<(String, String)>,
    pub known_hits: Mutex<Vec<String>>,
}

pub fn standard_request(dir: &Path) -> Request {
    Request {
        argv: vec![b"c8s".to_vec(), b"-o".to_vec(), b"-".to_vec(), b"in.S".to_vec()],
        env: vec![b"PATH=/usr/bin:/bin".to_vec(), b"RUST_BACKTRACE=0".to_vec()],
        cwd: dir.to_path_buf(),
        seed: Some(1),
        faults: vec![],
        timeout_ms: 20_000,
        as_mb: 8192,
        want_calls: false,
        world: Default::default(),
    }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 200 {
            o.push_str("...");
            break;
        }
        match c {
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if c.is_control() => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn status_text(s: &Status) -> String {
    match s {
        Status::Exit(c) => format!("exit {}", c),
        Status::Signal(n) => format!("signal {}", n),
        Status::Timeout => "no termination within the time limit".into(),
    }
}

pub fn outcome_text(o: &Outcome) -> String {
    match o {
        Outcome::Accept(s) => format!("accept, {} section(s), {} byte(s)", s.len(), s.iter().map(|s| s.data.len()).sum::<usize>()),
        Outcome::Collide(s, p) => format!("collision, {} section(s), {} pair(s)", s.len(), p.len()),
        Outcome::Reject(r) => format!("reject {:?} at {:?}", r.kind, r.loc.map(|l| l.show("in.S"))),
    }
}

impl Session {
    pub fn quick(&self) -> bool {
        self.tier != "thorough"
    }
    /// Picks a bound by tier.
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.budget_s
    }
    pub fn add_states(&self, v: &[u64]) {
        if self.nstates.load(Relaxed) > STATE_CAP {
            return;
        }
        let mut by: Vec<Vec<u64>> = vec![Vec::new(); SHARDS];
        for s in v {
            by[(s >> 56) as usize].push(*s);
        }
        for (i, l) in by.iter().enumerate() {
            if l.is_empty() {
                continue;
            }
            let mut set = self.states[i].lock().unwrap();
            let before = set.len();
            set.extend(l.iter());
            self.nstates.fetch_add((set.len() - before) as u64, Relaxed);
        }
    }
    pub fn states(&self) -> u64 {
        self.nstates.load(Relaxed)
    }
    pub fn count_outcome(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 60 {
            v.push(s)
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into())
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into())
    }
    pub fn violate(&self, v: Violation) {
        let key = v.files.iter().find(|(n, _)| n == "in.S").map(|(_, b)| show(b)).unwrap_or_default();
        if let Some((_, what)) = self.known.iter().find(|(k, _)| *k == key) {
            let mut h = self.known_hits.lock().unwrap();
            if !h.contains(what) {
                h.push(what.clone());
            }
            return;
        }
        self.violations.lock().unwrap().push(v);
        self.stop.store(true, Relaxed);
    }

    pub fn server(&self, tag: &str) -> Server {
        let dir = self.paths.scratch.join(tag);
        std::fs::create_dir_all(&dir).expect("scratch");
        make_public(&dir);
        Server::new(&self.paths.c8s, &self.paths.shim, &dir).expect("fork server")
    }
    pub fn dev_server(&self, tag: &str) -> Server {
        let dir = self.paths.scratch.join(tag);
        std::fs::create_dir_all(&dir).expect("scratch");
        make_public(&dir);
        Server::new(&self.paths.dev, &self.paths.shim, &dir).expect("fork server")
    }

    pub fn cli(&self, srv: &mut Server, src: &[u8]) -> RunResult {
        std::fs::write(srv.dir.join("in.S"), src).expect("write input");
        let req = standard_request(&srv.dir.clone());
        self.cli_runs.fetch_add(1, Relaxed);
        srv.run(&req).expect("run")
    }

    /// Runs `f` for every index below n on all cores; `init` makes the per-thread executor. Returns indices done.
    pub fn par<S, I, F>(&self, n: u64, chunk: u64, init: I, f: F) -> u64
    where
        I: Fn(usize) -> S + Sync,
        F: Fn(&mut S, u64, u64) + Sync,
    {
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let (next, done, init, f) = (&next, &done, &init, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut s: Option<S> = None;
                        loop {
                            if self.stop.load(Relaxed) || self.out_of_time() {
                                break;
                            }
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= n {
                                break;
                            }
                            let b = (a + chunk).min(n);
                            f(s.get_or_insert_with(|| init(t)), a, b);
                            done.fetch_add(b - a, Relaxed);
                        }
                    })
                    .expect("thread");
            }
        });
        done.load(Relaxed)
    }

    /// Exhaustively explores one space of source texts.
    pub fn space(&self, name: &str, what: &str, n: u64, via: Via, gen: Gen, judge: Judge) {
        if self.stop.load(Relaxed) {
            return;
        }
        if let Via::Inproc { cli_n } = via {
            if self.paths.worker.is_some() && !self.divergent() {
                self.explore(name, what, n, n, true, gen, judge);
                if !self.stop.load(Relaxed) && !self.divergent() {
                    // Conformance: the same judgement on the real binary for cases spread over the space.
                    let m = n.min(self.t(4_000, 40_000)).min(cli_n.max(self.t(1_000, 10_000)));
                    if n > m {
                        self.explore(&format!("{}-conformance", name), "cases of the space before (the first ones, and others at a fixed stride) on the binary", m, n, false, gen, judge);
                    } else {
                        self.explore(&format!("{}-conformance", name), "all cases of the space before on the binary", n, n, false, gen, judge);
                    }
                }
                if !self.divergent() {
                    return;
                }
            }
            self.explore(name, what, n.min(cli_n.saturating_mul(5)), n, false, gen, judge);
            return;
        }
        self.explore(name, what, n, n, false, gen, judge);
    }

    /// The in-process worker does not behave like the binary of this tree (its main program does something else now).
    fn divergent(&self) -> bool {
        self.errors.load(Relaxed) >= 3
    }

    #[allow(clippy::too_many_arguments)]
    fn explore(&self, name: &str, what: &str, limit: u64, n: u64, use_worker: bool, gen: Gen, judge: Judge) {
        let t0 = Instant::now();
        let kinds: Mutex<std::collections::BTreeMap<String, u64>> = Mutex::new(Default::default());
        let results: Vec<Mutex<Set>> = (0..16).map(|_| Mutex::new(Set::default())).collect();
        enum Ex {
            W(Worker),
            S(Server),
        }
        let probe = [0, 1, n / 3, n / 2, n.saturating_sub(1)];
        let chunk = if use_worker { 200 } else { 16 }.min((limit / self.threads as u64).max(1));
        let done = self.par(
            limit,
            chunk,
            |t| {
                if use_worker {
                    Ex::W(Worker::new(self.paths.worker.as_ref().unwrap(), &self.paths.shim).expect("worker"))
                } else {
                    Ex::S(self.server(&format!("w{}", t)))
                }
            },
            |ex, a, b| {
                if use_worker && self.divergent() {
                    return;
                }
                let ids: Vec<u64> = (a..b).map(|j| if use_worker { j } else { pick(j, limit, n) }).collect();
                let srcs: Vec<Vec<u8>> = ids.iter().map(|i| gen(*i)).collect();
                let runs: Vec<RunResult> = match ex {
                    Ex::W(w) => {
                        self.inproc_runs.fetch_add(b - a, Relaxed);
                        w.batch(&srcs).expect("worker batch")
                    }
                    Ex::S(s) => srcs.iter().map(|x| self.cli(s, x)).collect(),
                };
                let mut tr = Trace { steps: 0, states: Vec::new(), record: self.states() <= STATE_CAP };
                let mut acc = [0u64; 3];
                let mut local: std::collections::BTreeMap<String, u64> = Default::default();
                let mut seen: Vec<u64> = Vec::new();
                for (k, (src, got)) in srcs.iter().zip(&runs).enumerate() {
                    let idx = ids[k];
                    let want = model::run(src, &mut tr);
                    match &want {
                        Outcome::Accept(_) => acc[0] += 1,
                        Outcome::Collide(..) => acc[1] += 1,
                        Outcome::Reject(_) => acc[2] += 1,
                    }
                    let kind = match &want {
                        Outcome::Accept(_) => "accepted".into(),
                        Outcome::Collide(..) => "colliding".into(),
                        Outcome::Reject(r) => format!("rejected: {:?}", r.kind),
                    };
                    *local.entry(kind).or_insert(0) += 1;
                    seen.push(model::mix_bytes(matches!(got.status, Status::Exit(0)) as u64, &got.out));
                    if probe.contains(&idx) {
                        self.sample(format!("{}[{}]: {} => model: {}; c8s: {}", name, idx, show(src), outcome_text(&want), status_text(&got.status)));
                    }
                    if let Err(why) = judge(&Case { idx, src, want: &want, got }) {
                        self.confirm(name, idx, src, &want, got, &why, judge, use_worker);
                    }
                }
                self.transitions.fetch_add(tr.steps, Relaxed);
                self.traces.fetch_add(b - a, Relaxed);
                self.add_states(&tr.states);
                {
                    let mut m = kinds.lock().unwrap();
                    for (k, v) in local {
                        *m.entry(k).or_insert(0) += v;
                    }
                }
                for (k, v) in ["model accepts", "model finds a collision", "model rejects"].iter().zip(acc) {
                    if v > 0 {
                        self.count_outcome(k, v);
                    }
                }
                seen.sort();
                seen.dedup();
                for s in seen {
                    let mut set = results[(s >> 60) as usize].lock().unwrap();
                    if set.len() < 200_000 {
                        set.insert(s);
                    }
                }
            },
        );
        let wall = t0.elapsed().as_secs_f64();
        let r = SpaceReport {
            name: name.into(),
            what: what.into(),
            via: if use_worker { "in-process worker (same source files), discrepancies confirmed on the binary".into() } else { "c8s binary".into() },
            size: if name.ends_with("-conformance") { limit } else { n },
            explored: done,
            distinct_results: results.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
            outcomes: kinds.into_inner().unwrap().into_iter().collect(),
            exhaustive: done == n || name.ends_with("-conformance") && done == limit,
            wall_s: wall,
        };
        eprintln!("  {} {}: {}/{} cases, {} distinct results, {:.1}s", self.prop, r.name, r.explored, r.size, r.distinct_results, wall);
        self.spaces.lock().unwrap().push(r);
    }

    pub fn report_space(&self, name: &str, what: &str, via: &str, size: u64, explored: u64, distinct: u64, t0: Instant) {
        let r = SpaceReport {
            name: name.into(),
            what: what.into(),
            via: via.into(),
            size,
            explored,
            distinct_results: distinct,
            outcomes: vec![],
            exhaustive: explored == size,
            wall_s: t0.elapsed().as_secs_f64(),
        };
        eprintln!("  {} {}: {}/{} cases, {} distinct results, {:.1}s", self.prop, r.name, r.explored, r.size, r.distinct_results, r.wall_s);
        self.spaces.lock().unwrap().push(r);
    }

    #[allow(clippy::too_many_arguments)]
    fn confirm(&self, space: &str, idx: u64, src: &[u8], want: &Outcome, first: &RunResult, why: &str, judge: Judge, inproc: bool) {
        // Replay on the real binary, twice, in a fresh server.
        let mut srv = self.server(&format!("confirm-{}", idx % 1_000_003));
        std::fs::write(srv.dir.join("in.S"), src).expect("write input");
        let mut req = standard_request(&srv.dir.clone());
        let mut last = None;
        'seeds: for seed in 1..=32u64 {
            req.seed = Some(seed);
            for _ in 0..2 {
                let got = srv.run(&req).expect("run");
                self.cli_runs.fetch_add(1, Relaxed);
                match judge(&Case { idx, src, want, got: &got }) {
                    Err(w) => last = Some((w, got, seed)),
                    Ok(()) => {
                        last = None;
                        continue 'seeds;
                    }
                }
            }
            break;
        }
        let Some((w, got, seed)) = last else {
            let what = if inproc { "in-process discrepancy not confirmed on the binary" } else { "not reproducible" };
            self.note(format!("{}: {}[{}]: {} ({})", what, space, idx, show(src), why));
            self.errors.fetch_add(1, Relaxed);
            return;
        };
        let w = if seed > 1 { format!("{} (with hash seed {})", w, seed) } else { w };
        let _ = first;
        self.violate(Violation {
            space: space.into(),
            idx,
            why: w,
            files: vec![
                ("in.S".into(), src.to_vec()),
                ("expected.txt".into(), expected_text(want).into_bytes()),
                ("observed.txt".into(), [format!("{}\n", status_text(&got.status)).into_bytes(), got.out.clone(), got.err.clone()].concat()),
                ("replay.sh".into(), b"#!/bin/bash\n# Replays the case on the c8s binary built from /repo (bash /opt/vp/build.sh first).\n\"${C8S:-/repo/target/debug/c8s}\" -o - \"$(dirname \"$0\")/in.S\"; echo \"exit status $?\"\n".to_vec()),
            ],
        });
    }
}

pub fn expected_text(want: &Outcome) -> String {
    match want {
        Outcome::Accept(s) => format!("exit 0\n{}", model::hex_text(s)),
        Outcome::Collide(s, p) => {
            let mut t = String::from("exit 1, collision report of exactly these pairs\n");
            for (a, b) in p {
                for k in [a, b] {
                    let x = &s[*k];
                    t.push_str(&format!("  ${:03X}...${:03X} ({} bytes)\n", x.start, x.start as usize + x.data.len() - 1, x.data.len()));
                }
            }
            t
        }
        Outcome::Reject(r) => format!("exit 1, {:?} at {} naming {:?}\n", r.kind, r.loc.map(|l| l.show("in.S")).unwrap_or("(no position)".into()), r.names),
    }
}

pub fn make_public(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777));
}

// ---------------------------------------------------------------- indexable enumeration helpers

/// Number of sequences of length lo..=hi over k symbols.
pub fn seqs(k: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|l| k.pow(l)).sum()
}

/// The i-th such sequence in shortlex order.
pub fn seq(k: u64, lo: u32, mut i: u64) -> Vec<usize> {
    let mut l = lo;
    loop {
        let n = k.pow(l);
        if i < n {
            break;
        }
        i -= n;
        l += 1;
    }
    let mut v = vec![0usize; l as usize];
    for d in v.iter_mut().rev() {
        *d = (i % k) as usize;
        i /= k;
    }
    v
}

/// Mixed-radix digits of i, first radix varying slowest.
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    let mut v = vec![0usize; radices.len()];
    for (d, r) in v.iter_mut().zip(radices).rev() {
        *d = (i % r) as usize;
        i /= r;
    }
    v
}

// ---------------------------------------------------------------- evidence

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "))
}

impl Session {
    pub fn new(paths: Paths, prop: &str, tier: &str, seed: u64, level: &str, known: Vec<(String, String)>) -> Session {
        Session {
            paths,
            prop: prop.into(),
            tier: tier.into(),
            seed,
            level: level.into(),
            start: Instant::now(),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            budget_s: if tier == "thorough" { 780.0 } else { 420.0 },
            states: (0..SHARDS).map(|_| Mutex::new(Set::default())).collect(),
            nstates: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            cli_runs: AtomicU64::new(0),
            inproc_runs: AtomicU64::new(0),
            outcomes: Default::default(),
            spaces: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            notes: Default::default(),
            assumptions: Default::default(),
            extra: Default::default(),
            stop: AtomicBool::new(false),
            errors: AtomicU64::new(0),
            known,
            known_hits: Default::default(),
        }
    }

    /// Writes replay artefacts and evidence; returns the exit status.
    pub fn finish(&self) -> i32 {
        let mut vs = self.violations.lock().unwrap().clone();
        vs.sort_by(|a, b| (&a.space, a.idx).cmp(&(&b.space, b.idx)));
        for k in self.known_hits.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        let mut replay = None;
        if let Some(v) = vs.first() {
            let dir = self.paths.evidence.join("replays").join(&self.prop).join(format!("{}-{}", v.space, v.idx));
            let _ = std::fs::remove_dir_all(&dir);
            let _ = std::fs::create_dir_all(&dir);
            for (n, b) in &v.files {
                let _ = std::fs::write(dir.join(n), b);
            }
            let _ = std::fs::write(dir.join("why.txt"), format!("property {}\nspace {} case {}\n{}\n", self.prop, v.space, v.idx, v.why));
            replay = Some(dir);
        }
        let spaces = self.spaces.lock().unwrap();
        let exhaustive = spaces.iter().all(|s| s.exhaustive) && vs.is_empty();
        let sp: Vec<String> = spaces
            .iter()
            .map(|s| {
                format!(
                    "{{\"space\": {}, \"what\": {}, \"executor\": {}, \"size\": {}, \"explored\": {}, \"distinct_results\": {}, \"model_outcomes\": {{{}}}, \"complete\": {}, \"wall_s\": {:.2}}}",
                    jstr(&s.name), jstr(&s.what), jstr(&s.via), s.size, s.explored, s.distinct_results, s.outcomes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "), s.exhaustive, s.wall_s
                )
            })
            .collect();
        let oc: Vec<String> = self.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        let mut cov = String::new();
        if self.level != "fault_enumeration" {
            cov.push_str(&format!(
                "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ",
                self.states(),
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed)
            ));
        }
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.push_str(&format!("{}: {}, ", jstr(k), v));
        }
        cov.push_str(&format!(
            "\"executions_of_binary\": {}, \"executions_in_process\": {}, \"exhaustive\": {}, \"outcomes\": {{{}}}, \"spaces\": [{}], \"samples\": {}, \"notes\": {}",
            self.cli_runs.load(Relaxed),
            self.inproc_runs.load(Relaxed),
            exhaustive,
            oc.join(", "),
            sp.join(", "),
            jlist(&self.samples.lock().unwrap()),
            jlist(&self.notes.lock().unwrap())
        ));
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": {}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
            jstr(&self.prop),
            jstr(&self.tier),
            self.seed,
            jstr(&self.level),
            cov,
            jlist(&self.assumptions.lock().unwrap()),
            self.start.elapsed().as_secs_f64(),
            vs.len()
        );
        let _ = std::fs::create_dir_all(&self.paths.evidence);
        if let Err(e) = std::fs::write(self.paths.evidence.join(format!("{}.json", self.prop)), ev) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
        eprintln!(
            "{} {}: states={} transitions={} executions compared={} exhaustive={} {:.1}s",
            self.prop,
            self.tier,
            self.states(),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            exhaustive,
            self.start.elapsed().as_secs_f64()
        );
        if let Some(v) = vs.first() {
            println!("{}: {}", self.prop, v.why);
            println!("VIOLATION property={} replay={}", self.prop, replay.unwrap().display());
            return 1;
        }
        if self.errors.load(Relaxed) > 0 {
            eprintln!("{}: {} discrepancies did not reproduce; see the evidence notes", self.prop, self.errors.load(Relaxed));
        }
        0
    }
}

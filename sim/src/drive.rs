//! Command line, worker processes, minimisation, evidence.

use crate::run::*;
use crate::scen;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => match args.get(1) {
            Some(f) => replay(f),
            None => 2,
        },
        Some("one") => one(&args),
        Some("determinism") => determinism(&args),
        Some("list") => {
            for p in scen::all() {
                println!("{}", p);
            }
            0
        }
        _ => {
            eprintln!("usage: tsim check --property ID [--tier quick|thorough] [--seed N] [--runs N] [--secs N] [--workers N] | replay FILE | one --property ID --seed N | determinism | list");
            2
        }
    }
}

fn prop_num(p: &str) -> u64 {
    p.bytes().fold(7u64, |a, b| a * 131 + b as u64)
}

fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, prop_num(prop)), i)
}

fn viols(v: &Value) -> Vec<(String, String)> {
    v["viols"]
        .as_array()
        .map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect())
        .unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------
// Known findings

struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}

fn verif_dir() -> std::path::PathBuf {
    match std::env::var("TSIM_VERIF") {
        Ok(d) => d.into(),
        Err(_) => "/verif".into(),
    }
}

fn known() -> Vec<Known> {
    let mut out = vec![];
    let txt = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for l in txt.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            if let Ok(v) = serde_json::from_str::<Value>(rest) {
                let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
                out.push(Known { property: s("property"), class: s("class"), contains: s("contains"), what: s("what") });
            }
        }
    }
    out
}

fn is_known<'a>(k: &'a [Known], prop: &str, class: &str, msg: &str) -> Option<&'a Known> {
    k.iter().find(|k| k.property == prop && k.class == class && msg.contains(&k.contains))
}

/// The first violation of this property in a run that is not a listed finding.
fn first_viol(v: &Value, prop: &str, k: &[Known]) -> Option<(String, String)> {
    viols(v).into_iter().find(|(c, m)| scen::relevant(prop, c) && is_known(k, prop, c, m).is_none())
}

// ---------------------------------------------------------------------------------------------
// Workers

#[derive(Default)]
struct Agg {
    runs: u64,
    sim_ns: f64,
    polls: u64,
    calls: u64,
    invs: u64,
    conns: u64,
    bytes: u64,
    stats: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    known: BTreeMap<String, u64>,
    errors: u64,
}

fn u(v: &Value) -> u64 {
    v.as_u64().unwrap_or(0)
}

impl Agg {
    fn add(&mut self, v: &Value) {
        self.runs += 1;
        self.sim_ns += u(&v["sim_ns"]) as f64;
        self.polls += u(&v["polls"]);
        self.calls += u(&v["calls"]);
        self.invs += u(&v["invs"]);
        self.conns += u(&v["conns"]);
        self.bytes += u(&v["bytes"]);
        if let Some(m) = v["stats"].as_object() {
            for (k, n) in m {
                *self.stats.entry(k.clone()).or_insert(0) += u(n);
                *self.runs_with.entry(k.clone()).or_insert(0) += 1;
            }
        }
        if let Some(m) = v["probes"].as_object() {
            for (k, n) in m {
                *self.probes.entry(k.clone()).or_insert(0) += u(n);
            }
        }
        self.hashes.insert(u(&v["hash"]));
        if v["nontrivial"].as_bool().unwrap_or(false) {
            self.nontrivial.insert(u(&v["hash"]));
        }
        if v.get("error").is_some() {
            self.errors += 1;
        }
    }
    fn to_json(&self) -> Value {
        json!({"runs": self.runs, "sim_ns": self.sim_ns, "polls": self.polls, "calls": self.calls, "invs": self.invs,
            "conns": self.conns, "bytes": self.bytes, "stats": self.stats, "runs_with": self.runs_with, "probes": self.probes,
            "hashes": self.hashes, "nontrivial": self.nontrivial, "known": self.known, "errors": self.errors})
    }
    fn merge(&mut self, v: &Value) {
        self.runs += u(&v["runs"]);
        self.sim_ns += v["sim_ns"].as_f64().unwrap_or(0.0);
        self.polls += u(&v["polls"]);
        self.calls += u(&v["calls"]);
        self.invs += u(&v["invs"]);
        self.conns += u(&v["conns"]);
        self.bytes += u(&v["bytes"]);
        self.errors += u(&v["errors"]);
        let add = |m: &mut BTreeMap<String, u64>, x: &Value| {
            if let Some(o) = x.as_object() {
                for (k, n) in o {
                    *m.entry(k.clone()).or_insert(0) += u(n);
                }
            }
        };
        add(&mut self.stats, &v["stats"]);
        add(&mut self.runs_with, &v["runs_with"]);
        add(&mut self.probes, &v["probes"]);
        add(&mut self.known, &v["known"]);
        for h in v["hashes"].as_array().unwrap_or(&vec![]) {
            self.hashes.insert(u(h));
        }
        for h in v["nontrivial"].as_array().unwrap_or(&vec![]) {
            self.nontrivial.insert(u(h));
        }
    }
}

struct Job {
    prop: String,
    scn: Scenario,
    seed: u64,
    tier: u32,
    runs: u64,
    secs: u64,
    workers: u64,
}

fn worker(j: &Job, w: u64, fd: i32) -> ! {
    let mut out = unsafe { std::fs::File::from_raw_fd(fd) };
    let k = known();
    let start = Instant::now();
    let mut agg = Agg::default();
    let mut i = w;
    while i < j.runs && start.elapsed() < Duration::from_secs(j.secs) {
        let rs = run_seed(j.seed, &j.prop, i);
        let v = fork_run(j.scn, &Input::Seed(rs), j.tier, false);
        agg.add(&v);
        for (c, m) in viols(&v) {
            if let Some(kf) = is_known(&k, &j.prop, &c, &m) {
                *agg.known.entry(kf.what.clone()).or_insert(0) += 1;
            }
        }
        if let Some((class, msg)) = first_viol(&v, &j.prop, &k) {
            let mut line = serde_json::to_vec(&json!({"viol": {"run": i, "seed": rs, "class": class, "msg": msg, "result": v}})).unwrap();
            line.push(b'\n');
            let _ = out.write_all(&line);
            break;
        }
        i += j.workers;
    }
    let mut line = serde_json::to_vec(&json!({"agg": agg.to_json()})).unwrap();
    line.push(b'\n');
    let _ = out.write_all(&line);
    drop(out);
    unsafe { libc::_exit(0) }
}

/// Runs the search; returns what was covered and the violation of the lowest run number that was found.
fn search(j: &Job) -> (Agg, Option<Value>) {
    let mut readers = vec![];
    let mut pids = vec![];
    for w in 0..j.workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                worker(j, w, fds[1]);
            }
            libc::close(fds[1]);
            readers.push(fds[0]);
            pids.push(pid);
        }
    }
    let mut bufs: Vec<Vec<u8>> = readers.iter().map(|_| vec![]).collect();
    let mut open: Vec<bool> = readers.iter().map(|_| true).collect();
    let mut agg = Agg::default();
    let mut viol: Option<Value> = None;
    let mut stop_at: Option<Instant> = None;
    while open.iter().any(|o| *o) {
        if let Some(t) = stop_at {
            if Instant::now() >= t {
                for p in &pids {
                    unsafe {
                        libc::kill(*p, libc::SIGKILL);
                    }
                }
                break;
            }
        }
        let mut pf: Vec<libc::pollfd> = readers
            .iter()
            .zip(&open)
            .map(|(fd, o)| libc::pollfd { fd: if *o { *fd } else { -1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        let n = unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 100) };
        if n <= 0 {
            continue;
        }
        for (i, p) in pf.iter().enumerate() {
            if p.revents == 0 || !open[i] {
                continue;
            }
            let mut chunk = vec![0u8; 1 << 16];
            let n = unsafe { libc::read(readers[i], chunk.as_mut_ptr() as *mut libc::c_void, chunk.len()) };
            if n <= 0 {
                open[i] = false;
                continue;
            }
            bufs[i].extend_from_slice(&chunk[..n as usize]);
            while let Some(p) = bufs[i].iter().position(|b| *b == b'\n') {
                let line: Vec<u8> = bufs[i].drain(..=p).collect();
                if let Ok(v) = serde_json::from_slice::<Value>(&line) {
                    if v.get("agg").is_some() {
                        agg.merge(&v["agg"]);
                    }
                    if v.get("viol").is_some() {
                        let x = v["viol"].clone();
                        if viol.as_ref().map(|o| u(&x["run"]) < u(&o["run"])).unwrap_or(true) {
                            viol = Some(x);
                        }
                        stop_at.get_or_insert(Instant::now() + Duration::from_millis(300));
                    }
                }
            }
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe {
            libc::waitpid(p, &mut st, 0);
        }
    }
    for r in readers {
        unsafe {
            libc::close(r);
        }
    }
    (agg, viol)
}

// ---------------------------------------------------------------------------------------------
// Minimisation

struct Min<'a> {
    job: &'a Job,
    k: &'a [Known],
    class: String,
    end: Instant,
    tries: u64,
    entropy: u64,
}

#[derive(Clone)]
struct Cand {
    g: Vec<u32>,
    s: Vec<u32>,
    spans: Vec<(u32, u32)>,
}

fn vec32(v: &Value) -> Vec<u32> {
    v.as_array().map(|a| a.iter().map(|x| u(x) as u32).collect()).unwrap_or_default()
}

fn spans_of(v: &Value) -> Vec<(u32, u32)> {
    v["spans"].as_array().map(|a| a.iter().map(|x| (u(&x[0]) as u32, u(&x[1]) as u32)).collect()).unwrap_or_default()
}

impl<'a> Min<'a> {
    fn over(&self) -> bool {
        Instant::now() >= self.end
    }
    /// Runs the candidate; when the same kind of violation shows, returns the candidate as actually used.
    fn test(&mut self, g: Vec<u32>, s: Vec<u32>) -> Option<Cand> {
        if self.over() {
            return None;
        }
        self.tries += 1;
        let v = fork_run(self.job.scn, &Input::Logs { g, s, entropy: self.entropy }, self.job.tier, false);
        match first_viol(&v, &self.job.prop, self.k) {
            Some((c, _)) if c == self.class && v.get("noresult").is_none() => {
                let mut g = vec32(&v["g"]);
                let mut s = vec32(&v["s"]);
                while g.last() == Some(&0) {
                    g.pop();
                }
                while s.last() == Some(&0) {
                    s.pop();
                }
                Some(Cand { g, s, spans: spans_of(&v) })
            }
            _ => None,
        }
    }

    fn size(c: &Cand) -> (usize, u64) {
        let sum: u64 = c.g.iter().map(|x| *x as u64).sum::<u64>() + c.s.iter().map(|x| *x as u64).sum::<u64>();
        (c.g.len() + c.s.len(), sum)
    }

    fn accept(&mut self, cur: &mut Cand, g: Vec<u32>, s: Vec<u32>) -> bool {
        match self.test(g, s) {
            Some(c) if Self::size(&c) < Self::size(cur) => {
                *cur = c;
                true
            }
            _ => false,
        }
    }

    fn run(&mut self, g: Vec<u32>, s: Vec<u32>) -> Option<Cand> {
        let mut cur = self.test(g, s)?;
        loop {
            let before = Self::size(&cur);
            // schedule: as plain as possible
            if !cur.s.is_empty() {
                let g = cur.g.clone();
                self.accept(&mut cur, g, vec![]);
            }
            // whole operations away, large ones first
            let mut tried: BTreeSet<(u32, u32)> = BTreeSet::new();
            loop {
                let mut sp: Vec<(u32, u32)> =
                    cur.spans.iter().cloned().filter(|(a, b)| b > a && (*b as usize) <= cur.g.len() && !tried.contains(&(*a, *b))).collect();
                sp.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
                let mut progress = false;
                for (a, b) in sp {
                    if self.over() {
                        break;
                    }
                    tried.insert((a, b));
                    let mut g = cur.g.clone();
                    g.drain(a as usize..b as usize);
                    let s = cur.s.clone();
                    if self.accept(&mut cur, g, s) {
                        progress = true;
                        break;
                    }
                    let mut g = cur.g.clone();
                    if g[a as usize..b as usize].iter().any(|x| *x != 0) {
                        for x in &mut g[a as usize..b as usize] {
                            *x = 0;
                        }
                        let s = cur.s.clone();
                        if self.accept(&mut cur, g, s) {
                            progress = true;
                            break;
                        }
                    }
                }
                if !progress || self.over() {
                    break;
                }
            }
            // shorter and plainer schedule
            let mut n = cur.s.len() / 2;
            while n >= 1 && !self.over() {
                let s = cur.s[..cur.s.len().saturating_sub(n)].to_vec();
                let g = cur.g.clone();
                if !self.accept(&mut cur, g, s) {
                    n /= 2;
                }
                n = n.min(cur.s.len());
            }
            let mut chunk = (cur.s.len() / 2).max(1);
            while chunk >= 1 && !cur.s.is_empty() && !self.over() {
                let mut p = 0;
                while p < cur.s.len() && !self.over() {
                    let e = (p + chunk).min(cur.s.len());
                    if cur.s[p..e].iter().any(|x| *x != 0) {
                        let mut s = cur.s.clone();
                        for x in &mut s[p..e] {
                            *x = 0;
                        }
                        let g = cur.g.clone();
                        self.accept(&mut cur, g, s);
                    }
                    p += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 4).max(1);
                if chunk == 1 && cur.s.len() > 400 {
                    break;
                }
            }
            // smaller values
            let mut i = 0;
            while i < cur.g.len() && !self.over() {
                let v = cur.g[i];
                if v > 0 {
                    for cand in [0, v / 2, v - 1] {
                        if cand < v {
                            let mut g = cur.g.clone();
                            g[i] = cand;
                            let s = cur.s.clone();
                            if self.accept(&mut cur, g, s) {
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
            if self.over() || Self::size(&cur) >= before {
                break;
            }
        }
        Some(cur)
    }
}

fn write_replay(j: &Job, class: &str, msg: &str, seed: u64, run: u64, input: Value, v: &Value, tries: u64) -> std::path::PathBuf {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", j.prop, class));
    let doc = json!({
        "property": j.prop,
        "violation": {"class": class, "message": msg},
        "verif_seed": j.seed,
        "run": run,
        "run_seed": seed,
        "tier": j.tier,
        "input": input,
        "minimisation_runs": tries,
        "scenario": v["desc"],
        "calls": v["call_list"],
        "hash": v["hash"],
        "all_violations": v["viols"],
        "trace": v["trace"],
        "how_to_replay": "cd /verif && ./check.sh replay <this file>",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    path
}

fn check(args: &[String]) -> i32 {
    let prop = match arg(args, "--property") {
        Some(p) => p,
        None => return 2,
    };
    let scn = match scen::find(&prop) {
        Some(s) => s,
        None => {
            eprintln!("no scenario for {}", prop);
            return 2;
        }
    };
    let tier = arg(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = arg(args, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (r, s) = if thorough { (100_000_000, 600) } else { (scen::quick_runs(&prop), 45) };
    let runs = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(r);
    let secs = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(s);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let workers = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(cores.clamp(2, 16));
    let j = Job { prop: prop.clone(), scn, seed, tier: thorough as u32, runs, secs, workers };
    let start = Instant::now();
    let (agg, viol) = search(&j);
    let search_s = start.elapsed().as_secs_f64();
    let k = known();
    let mut code = 0;
    let mut nviol = 0;
    let mut lines: Vec<String> = vec![];
    for kf in k.iter().filter(|x| x.property == prop) {
        // a listed finding is reported whether or not this run met it
        lines.push(format!("KNOWN-FINDING: property={} {}", prop, kf.what));
    }
    if let Some(x) = viol {
        let class = x["class"].as_str().unwrap().to_string();
        let msg = x["msg"].as_str().unwrap().to_string();
        let rs = u(&x["seed"]);
        let run = u(&x["run"]);
        eprintln!("{}: run {} (seed {:#x}) violates: {}: {}", prop, run, rs, class, msg);
        let v0 = &x["result"];
        let entropy = Input::Seed(rs).entropy();
        let mut reported = None;
        if v0.get("noresult").is_none() && v0.get("g").is_some() {
            let slow = class == "endless-loop" || class == "blocked";
            let budget = if slow { 0 } else if thorough { 120 } else { 40 };
            let mut m = Min { job: &j, k: &k, class: class.clone(), end: Instant::now() + Duration::from_secs(budget), tries: 0, entropy };
            let best = m.run(vec32(&v0["g"]), vec32(&v0["s"]));
            let tries = m.tries;
            let cand = best.unwrap_or(Cand { g: vec32(&v0["g"]), s: vec32(&v0["s"]), spans: vec![] });
            let inp = Input::Logs { g: cand.g.clone(), s: cand.s.clone(), entropy };
            let a = fork_run(scn, &inp, j.tier, true);
            let b = if slow { a.clone() } else { fork_run(scn, &inp, j.tier, true) };
            let (fa, fb) = (first_viol(&a, &prop, &k), first_viol(&b, &prop, &k));
            if fa.is_some() && fa == fb && a["hash"] == b["hash"] {
                let (c, mm) = fa.unwrap();
                let input = json!({"g": cand.g, "s": cand.s, "entropy": entropy.to_string()});
                let p = write_replay(&j, &c, &mm, rs, run, input, &a, tries);
                reported = Some((p, c, mm));
            }
        }
        if reported.is_none() {
            // whole run by its seed
            let a = fork_run(scn, &Input::Seed(rs), j.tier, true);
            if let Some((c, mm)) = first_viol(&a, &prop, &k) {
                let p = write_replay(&j, &c, &mm, rs, run, json!({"seed": rs.to_string()}), &a, 0);
                reported = Some((p, c, mm));
            }
        }
        match reported {
            Some((p, c, m)) => {
                lines.push(format!("{}: {}", c, m));
                lines.push(format!("VIOLATION property={} replay={}", prop, p.display()));
                nviol = 1;
                code = 1;
            }
            None => {
                lines.push(format!("ERROR: run {} of {} reported '{}: {}' but does not reproduce", run, prop, class, msg));
                code = 2;
            }
        }
    }
    if code == 0 && (agg.errors > 0 || agg.runs == 0) {
        lines.push(format!("ERROR: {} of {} runs could not be performed", agg.errors, agg.runs));
        code = 2;
    }
    evidence(&j, &tier, &agg, search_s, start.elapsed().as_secs_f64(), nviol);
    for l in lines {
        println!("{}", l);
    }
    println!(
        "{}: {} runs, {} distinct executions ({} non-trivial), {:.0} s simulated, {:.1} s",
        prop,
        agg.runs,
        agg.hashes.len(),
        agg.nontrivial.len(),
        agg.sim_ns / 1e9,
        search_s
    );
    code
}

fn evidence(j: &Job, tier: &str, a: &Agg, search_s: f64, wall: f64, nviol: u64) {
    let mut samples = vec![];
    for i in 0..3 {
        let rs = run_seed(j.seed, &j.prop, i);
        let v = fork_run(j.scn, &Input::Seed(rs), j.tier, true);
        let mut tr = v["trace"].as_array().cloned().unwrap_or_default();
        tr.truncate(60);
        samples.push(json!({"run": i, "run_seed": rs.to_string(), "scenario": v["desc"], "calls": v["call_list"], "hash": v["hash"], "first_events": tr}));
    }
    let mut faults = Map::new();
    let mut net = Map::new();
    for (k, n) in &a.stats {
        let e = json!({"count": n, "in_runs": a.runs_with.get(k)});
        if k.starts_with("fault.") {
            faults.insert(k[6..].to_string(), e);
        } else {
            net.insert(k.clone(), e);
        }
    }
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let doc = json!({
        "property": j.prop,
        "tier": tier,
        "seed": j.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": scen::rule(&j.prop),
            "samples": samples,
            "distinct_executions": a.hashes.len(),
            "distinct_measure": "hash over the sequence of task polls, network deliveries, connection events and their virtual times",
            "runs_per_hour": per_h(a.runs),
            "seeds_per_hour": per_h(a.runs),
            "simulated_seconds": a.sim_ns / 1e9,
            "task_polls": a.polls,
            "calls_issued": a.calls,
            "handler_invocations": a.invs,
            "connections": a.conns,
            "bytes_delivered": a.bytes,
            "faults_injected": faults,
            "schedule_and_network_events": net,
            "probes": a.probes,
            "known_findings_met": a.known,
            "workers": j.workers,
            "real_components": ["tchannel_rs (all of it, unmodified, from /repo)", "bb8", "tokio 1.17 scheduler, timers, sync and channel code", "tokio-util codec", "tokio-stream", "futures", "bytes", "serde_json"],
            "stub_components": ["the library's std atomics and locks and bb8's parking_lot mutex (same semantics, with a scheduling point)", "TCP sockets, listeners and the network between hosts", "clock and timer driver", "choice of the next ready task", "randomness", "kernel behaviour on process kill and power loss"],
        },
        "assumptions": [
            "the simulated network follows TCP: bytes of a direction arrive in order and unaltered or not at all",
            "tasks of a host are interleaved at await points, at forced yields there, and at the library's own atomic and lock operations; memory is sequentially consistent",
            "a clean search is evidence from the sampled runs, not a proof"
        ],
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", j.prop)), serde_json::to_string_pretty(&doc).unwrap());
}

fn load_input(doc: &Value) -> Input {
    let i = &doc["input"];
    let num = |v: &Value| v.as_str().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    if i.get("seed").is_some() {
        Input::Seed(num(&i["seed"]))
    } else {
        Input::Logs { g: vec32(&i["g"]), s: vec32(&i["s"]), entropy: num(&i["entropy"]) }
    }
}

fn replay(file: &str) -> i32 {
    let mut txt = String::new();
    if std::fs::File::open(file).and_then(|mut f| f.read_to_string(&mut txt)).is_err() {
        eprintln!("cannot read {}", file);
        return 2;
    }
    let doc: Value = match serde_json::from_str(&txt) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let prop = doc["property"].as_str().unwrap_or("").to_string();
    let scn = match scen::find(&prop) {
        Some(s) => s,
        None => return 2,
    };
    let v = fork_run(scn, &load_input(&doc), u(&doc["tier"]) as u32, true);
    for l in v["trace"].as_array().unwrap_or(&vec![]) {
        println!("{}", l.as_str().unwrap_or(""));
    }
    match first_viol(&v, &prop, &[]) {
        Some((c, m)) => {
            println!("{}: {}", c, m);
            let same = doc["violation"]["class"] == json!(c) && doc["violation"]["message"] == json!(m);
            println!("{}", if same { "reproduced exactly" } else { "a different violation than recorded" });
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        None => {
            println!("{}: no violation with this file on the current tree", prop);
            0
        }
    }
}

fn one(args: &[String]) -> i32 {
    let prop = arg(args, "--property").unwrap_or("C01".into());
    let scn = scen::find(&prop).expect("scenario");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let rs = match arg(args, "--run").and_then(|s| s.parse::<u64>().ok()) {
        Some(i) => run_seed(seed, &prop, i),
        None => seed,
    };
    let v = fork_run(scn, &Input::Seed(rs), 0, true);
    for k in ["desc", "call_list", "trace"] {
        for l in v[k].as_array().unwrap_or(&vec![]) {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    println!("{}", json!({"stats": v["stats"], "probes": v["probes"], "hash": v["hash"], "sim_ns": v["sim_ns"], "polls": v["polls"]}));
    for (c, m) in viols(&v) {
        println!("{}: {}", c, m);
    }
    0
}

/// Runs seeds twice in different processes and compares the executions.
fn determinism(args: &[String]) -> i32 {
    let n: u64 = arg(args, "--n").and_then(|s| s.parse().ok()).unwrap_or(50);
    let only = arg(args, "--property");
    let mut bad = 0;
    for p in scen::all() {
        if only.as_deref().map(|o| o != p).unwrap_or(false) {
            continue;
        }
        let scn = scen::find(p).unwrap();
        let mut diff = 0;
        for i in 0..n {
            let rs = run_seed(77, p, i);
            let a = fork_run(scn, &Input::Seed(rs), 0, i % 2 == 0);
            // other heap layout, other environment
            let ballast: Vec<Vec<u8>> = (0..(i % 7) * 10).map(|k| vec![0u8; (k * 333 + 1) as usize]).collect();
            let b = fork_run(scn, &Input::Seed(rs), 0, true);
            drop(ballast);
            let mut ok = a["hash"] == b["hash"] && a["viols"] == b["viols"] && a["stats"] == b["stats"] && a["polls"] == b["polls"];
            // and the recorded choices give the same run again
            if b.get("g").is_some() {
                let inp = Input::Logs { g: vec32(&b["g"]), s: vec32(&b["s"]), entropy: Input::Seed(rs).entropy() };
                let c = fork_run(scn, &inp, 0, true);
                ok &= c["hash"] == b["hash"] && c["viols"] == b["viols"] && c["trace"] == b["trace"];
            }
            if !ok {
                diff += 1;
                println!("{} run {} (seed {}) differs: {} {} / {} {}", p, i, rs, a["hash"], a["polls"], b["hash"], b["polls"]);
            }
        }
        println!("{}: {} seeds, {} differ", p, n, diff);
        bad += diff;
    }
    (bad > 0) as i32
}

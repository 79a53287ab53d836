//! The command line: campaigns over many seeds in several processes, minimising, replaying.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};

use mentat::Queryable;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::props::Prop;
use crate::scn::{Outcome, Scn};
use crate::{props, scn, sys};

const MARK: char = '\u{1}';

fn emit(s: &str) {
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{}{}", MARK, s);
    let _ = o.flush();
}

/// A failure, as written to disk.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub tag: String,
    pub what: String,
    pub step: u32,
    pub profile: String,
    pub seed: u64,
    pub fingerprint: String,
    pub scenario: Scn,
    pub minimised_from_steps: usize,
    pub trace: Vec<String>,
}

fn verdict(o: &Outcome) -> Option<(String, String, u32)> {
    o.violation.as_ref().map(|v| (v.tag.clone(), v.what.clone(), v.step))
}

// -------------------------------------------------------------------------------------------------
// Worker.

fn worker(prop: &Prop, vseed: u64, from: u64, stride: u64, until_ns: i64, known: &[Known]) -> i32 {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut sim_ns, mut runs) = (0i64, 0u64);
    let mut i = from;
    let mut last_flush = sys::real_now_ns();
    while sys::real_now_ns() < until_ns {
        let (profile, seed, s) = prop.scenario(vseed, i);
        emit(&format!("S {}", i));
        let o = scn::run(&s, false);
        runs += 1;
        sim_ns += o.cov.sim_ns;
        for (k, n) in &o.cov.counts {
            *counts.entry(k.clone()).or_insert(0) += n;
        }
        *counts.entry(format!("runs.{}", profile)).or_insert(0) += 1;
        emit(&format!("R {} {} {} {}", i, o.cov.sig, o.fingerprint, o.cov.sched));
        let mut stop = false;
        if let Some((tag, what, step)) = verdict(&o) {
            let listed = known.iter().any(|k| k.matches(prop.id, &tag, &what));
            let class = if listed {
                "known"
            } else if prop.in_scope(&tag) {
                stop = true;
                "violation"
            } else {
                "foreign"
            };
            emit(&format!(
                "V {}",
                json!({"class": class, "index": i, "seed": seed, "profile": profile, "tag": tag, "what": what, "step": step,
                       "fp": format!("{:016x}", o.fingerprint)})
            ));
        }
        if stop || sys::real_now_ns() - last_flush > 2_000_000_000 {
            emit(&format!("E {}", json!({"counts": counts, "sim_ns": sim_ns, "runs": runs})));
            counts.clear();
            sim_ns = 0;
            runs = 0;
            last_flush = sys::real_now_ns();
        }
        if stop {
            return 0;
        }
        i += stride;
    }
    emit(&format!("E {}", json!({"counts": counts, "sim_ns": sim_ns, "runs": runs})));
    0
}

// -------------------------------------------------------------------------------------------------
// Known findings.

#[derive(Clone, Debug)]
pub struct Known {
    property: String,
    tag: String,
    has: String,
    text: String,
}

impl Known {
    fn matches(&self, property: &str, tag: &str, what: &str) -> bool {
        self.property == property && tag == self.tag && !self.has.is_empty() && what.contains(&self.has)
    }
}

fn home() -> String {
    std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".to_string())
}

/// Lines `known: property=ID tag=TAG match=TEXT :: what fails`; other lines suppress nothing.
fn known() -> Vec<Known> {
    let mut out = vec![];
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", home())).unwrap_or_default();
    for l in s.lines() {
        let l = match l.strip_prefix("known: ") {
            Some(l) => l,
            None => continue,
        };
        let (head, text) = match l.find(" :: ") {
            Some(i) => (&l[..i], &l[i + 4..]),
            None => continue,
        };
        let mut k = Known { property: String::new(), tag: String::new(), has: String::new(), text: text.to_string() };
        if let Some(i) = head.find(" match=") {
            k.has = head[i + 7..].to_string();
            for w in head[..i].split(' ') {
                if let Some(x) = w.strip_prefix("property=") {
                    k.property = x.to_string();
                }
                if let Some(x) = w.strip_prefix("tag=") {
                    k.tag = x.to_string();
                }
            }
            out.push(k);
        }
    }
    out
}

// -------------------------------------------------------------------------------------------------
// The campaign.

enum Msg {
    Line(usize, u64, String),
    Eof(usize, u64),
}

struct W {
    child: Child,
    gen: u64,
    last: Option<u64>,
    last_at: i64,
    /// The next index to hand out should this worker be replaced.
    done: bool,
    next: u64,
    excuse: Option<(String, String)>,
}

fn spawn(prop: &Prop, vseed: u64, from: u64, stride: u64, until: i64, id: usize, gen: u64, tx: Sender<Msg>) -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(&["worker", prop.id, &vseed.to_string(), &from.to_string(), &stride.to_string(), &until.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let out = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        let mut r = std::io::BufReader::new(out);
        let mut buf = vec![];
        loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => break,
                Ok(_) => {}
            }
            let l = String::from_utf8_lossy(&buf);
            if let Some(p) = l.find(MARK) {
                let _ = tx.send(Msg::Line(id, gen, l[p + 1..].trim_end().to_string()));
            }
        }
        let _ = tx.send(Msg::Eof(id, gen));
    });
    W { child, gen, last: None, last_at: sys::real_now_ns(), done: false, next: from, excuse: None }
}

fn put_down(w: &mut W) {
    let _ = w.child.kill();
    let _ = w.child.wait();
}

struct Found {
    index: u64,
    profile: String,
    seed: u64,
    tag: String,
    what: String,
}

/// Run one scenario in a process of its own: what came of it, and its fingerprint.
fn once(s: &Scn, verbose: bool, limit_s: u64) -> (Option<(String, String, u32)>, String, Vec<String>) {
    let dir = std::env::temp_dir();
    let f = dir.join(format!("mentat-sim-once-{}-{}.json", std::process::id(), sys::real_now_ns()));
    std::fs::write(&f, serde_json::to_string(s).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(&["once", f.to_str().unwrap(), if verbose { "v" } else { "q" }])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut b = vec![];
        let _ = std::io::Read::read_to_end(&mut out, &mut b);
        let _ = tx.send(b);
    });
    let got = rx.recv_timeout(std::time::Duration::from_secs(limit_s));
    let hung = got.is_err();
    let _ = child.kill();
    let st = child.wait();
    let _ = std::fs::remove_file(&f);
    if hung {
        return (Some(("hang".into(), "the run does not end".into(), 0)), String::new(), vec![]);
    }
    let b = got.unwrap();
    let text = String::from_utf8_lossy(&b);
    let mut excuse = None;
    for l in text.lines() {
        if let Some(p) = l.find(MARK) {
            let l = &l[p + 1..];
            if let Some(j) = l.strip_prefix("O ") {
                let v: Value = serde_json::from_str(j).unwrap_or(Value::Null);
                let t = v["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
                let fp = v["fp"].as_str().unwrap_or("").to_string();
                return if v["tag"].is_null() {
                    (None, fp, t)
                } else {
                    (
                        Some((
                            v["tag"].as_str().unwrap_or("").to_string(),
                            v["what"].as_str().unwrap_or("").to_string(),
                            v["step"].as_u64().unwrap_or(0) as u32,
                        )),
                        fp,
                        t,
                    )
                };
            }
        } else if let Some(x) = l.strip_prefix("X ") {
            excuse = Some(excused(x));
        }
    }
    let (tag, what) = excuse.unwrap_or(("abort".into(), format!("the process died ({:?})", st.map(|s| s.to_string()))));
    (Some((tag, what, 0)), String::new(), vec![])
}

fn excused(x: &str) -> (String, String) {
    let (k, m) = match x.find(' ') {
        Some(i) => (&x[..i], &x[i + 1..]),
        None => (x, ""),
    };
    match k {
        "deadlock" => ("stuck".to_string(), m.to_string()),
        k => (k.to_string(), m.to_string()),
    }
}

fn steps(s: &Scn) -> usize {
    s.len()
}

/// Shorten a failing scenario, in a process of its own.
fn shorten(s: &Scn, tag: &str, budget_s: i64) -> Scn {
    let dir = std::env::temp_dir();
    let stamp = format!("{}-{}", std::process::id(), sys::real_now_ns());
    let (f, g) = (dir.join(format!("mentat-sim-min-{}.json", stamp)), dir.join(format!("mentat-sim-min-{}.out", stamp)));
    std::fs::write(&f, serde_json::to_string(s).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let slow = tag == "hang" || tag == "abort" || tag == "stuck";
    let mut out = None;
    if slow {
        let (m, _) = scn::minimise(s, budget_s, |c| once(c, false, 8).0.map_or(false, |v| v.0 == tag));
        out = Some(m);
    } else if let Ok(mut child) = Command::new(exe)
        .args(&["minimise", f.to_str().unwrap(), g.to_str().unwrap(), tag, &budget_s.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        let t0 = sys::real_now_ns();
        while sys::real_now_ns() - t0 < (budget_s + 15) * 1_000_000_000 {
            match child.try_wait() {
                Ok(Some(_)) => break,
                Ok(None) => std::thread::sleep(std::time::Duration::from_millis(50)),
                Err(_) => break,
            }
        }
        let _ = child.kill();
        let _ = child.wait();
        if let Ok(t) = std::fs::read_to_string(&g) {
            out = serde_json::from_str(&t).ok();
        }
    }
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&g);
    out.unwrap_or_else(|| s.clone())
}

#[derive(Default)]
struct Totals {
    counts: BTreeMap<String, u64>,
    sim_ns: i64,
    runs: u64,
    sigs: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    prints: BTreeMap<u64, u64>,
    foreign: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    anomalies: Vec<String>,
}

fn check(prop: &Prop, tier: &str, vseed: u64) -> i32 {
    let t0 = sys::real_now_ns();
    let def = if tier == "thorough" { 660 } else { 32 };
    let budget: i64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(def);
    let nw: usize = std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16));
    let kn = known();
    let until = t0 + budget * 1_000_000_000;
    let (tx, rx) = channel();
    let mut ws: Vec<W> =
        (0..nw).map(|i| spawn(prop, vseed, i as u64, nw as u64, until, i, 0, tx.clone())).collect();
    let mut t = Totals::default();
    let mut found: Option<Found> = None;
    let mut gen = 0;
    let mut harness = 0;
    while found.is_none() && ws.iter().any(|w| !w.done) {
        match rx.recv_timeout(std::time::Duration::from_millis(500)) {
            Ok(Msg::Line(id, g, l)) => {
                if ws[id].gen == g {
                    line(prop, &mut ws[id], &l, &mut t, &mut found, nw as u64);
                }
            }
            Ok(Msg::Eof(id, g)) => {
                if ws[id].gen != g {
                    continue;
                }
                let st = ws[id].child.wait();
                let ok = st.as_ref().map(|s| s.success()).unwrap_or(false);
                if ok {
                    ws[id].done = true;
                    continue;
                }
                let last = ws[id].last;
                let (tag, what) = ws[id].excuse.take().unwrap_or((
                    "abort".into(),
                    format!("the process running it died: {}", st.map(|s| s.to_string()).unwrap_or_default()),
                ));
                trouble(prop, vseed, last, tag, what, &mut t, &mut found, &mut harness);
                gen += 1;
                if sys::real_now_ns() < until && found.is_none() && harness < 20 {
                    let from = ws[id].next;
                    ws[id] = spawn(prop, vseed, from, nw as u64, until, id, gen, tx.clone());
                } else {
                    ws[id].done = true;
                }
            }
            Err(_) => {}
        }
        let now = sys::real_now_ns();
        for id in 0..ws.len() {
            if !ws[id].done && ws[id].last.is_some() && now - ws[id].last_at > 60_000_000_000 {
                put_down(&mut ws[id]);
                let last = ws[id].last;
                trouble(prop, vseed, last, "hang".into(), "the run does not end".into(), &mut t, &mut found, &mut harness);
                gen += 1;
                if now < until && found.is_none() {
                    let from = ws[id].next;
                    ws[id] = spawn(prop, vseed, from, nw as u64, until, id, gen, tx.clone());
                } else {
                    ws[id].done = true;
                }
            }
        }
        if harness >= 20 {
            break;
        }
    }
    // Let what was still on its way in; then stop everything.
    if found.is_some() {
        for w in ws.iter_mut() {
            put_down(w);
        }
    }
    drain(prop, &rx, &mut ws, &mut t, nw as u64);
    for w in ws.iter_mut() {
        put_down(w);
    }
    let explore_s = (sys::real_now_ns() - t0) as f64 / 1e9;
    let mut bad = None;
    if let Some(f) = found {
        bad = report(prop, &f, &mut t);
    }
    // The same seeds again, in another process: the same executions?
    let (again, differ) = if bad.is_none() { recheck(prop, vseed, &t) } else { (0, vec![]) };
    let samples = sample(prop, vseed);
    evidence(prop, tier, vseed, &t, explore_s, (sys::real_now_ns() - t0) as f64 / 1e9, again, &differ, samples, bad.is_some(), nw);
    for k in kn.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
    }
    for a in &t.anomalies {
        eprintln!("anomaly: {}", a);
    }
    for (k, n) in &t.foreign {
        eprintln!("outside this property: {} x{}", k, n);
    }
    eprintln!(
        "{}: {} runs in {:.1} s, {} distinct, {} schedules, repeated {} ({} differ)",
        prop.id, t.runs, explore_s, t.sigs.len(), t.scheds.len(), again, differ.len()
    );
    match bad {
        Some(path) => {
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
        None if harness >= 20 || t.runs == 0 => {
            eprintln!("the simulator itself does not work here: {:?}", t.anomalies.first());
            2
        }
        None => 0,
    }
}

fn line(prop: &Prop, w: &mut W, l: &str, t: &mut Totals, found: &mut Option<Found>, stride: u64) {
    let mut it = l.splitn(2, ' ');
    let (k, rest) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    match k {
        "S" => {
            w.last = rest.parse().ok();
            w.last_at = sys::real_now_ns();
            if let Some(i) = w.last {
                w.next = i + stride;
            }
        }
        "R" => {
            let n: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
            if n.len() == 4 {
                t.runs += 1;
                t.sigs.insert(n[1]);
                if t.prints.len() < 4096 {
                    t.prints.insert(n[0], n[2]);
                }
                t.scheds.insert(n[3]);
            }
        }
        "V" => {
            let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
            let tag = v["tag"].as_str().unwrap_or("").to_string();
            let what = v["what"].as_str().unwrap_or("").to_string();
            match v["class"].as_str().unwrap_or("") {
                "violation" => {
                    if found.is_none() {
                        *found = Some(Found {
                            index: v["index"].as_u64().unwrap_or(0),
                            profile: v["profile"].as_str().unwrap_or("").to_string(),
                            seed: v["seed"].as_u64().unwrap_or(0),
                            tag,
                            what,
                        });
                    }
                }
                "known" => *t.known.entry(tag).or_insert(0) += 1,
                _ => {
                    let s: String = format!("{} (seed {} of {}): {}", tag, v["seed"], v["profile"].as_str().unwrap_or(""), what);
                    let key: String = s.chars().take(220).collect();
                    if t.foreign.len() < 20 || t.foreign.contains_key(&key) {
                        *t.foreign.entry(key).or_insert(0) += 1
                    }
                }
            }
        }
        "E" => {
            let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
            
            t.sim_ns += v["sim_ns"].as_i64().unwrap_or(0);
            if let Some(o) = v["counts"].as_object() {
                for (k, n) in o {
                    *t.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
        }
        "X" => w.excuse = Some(excused(rest)),
        _ => {}
    }
    let _ = prop;
}

fn drain(prop: &Prop, rx: &Receiver<Msg>, ws: &mut Vec<W>, t: &mut Totals, stride: u64) {
    let mut ignore = None;
    while let Ok(m) = rx.recv_timeout(std::time::Duration::from_millis(50)) {
        if let Msg::Line(id, g, l) = m {
            if ws[id].gen == g {
                line(prop, &mut ws[id], &l, t, &mut ignore, stride);
            }
        }
    }
}

/// A worker came to grief.
fn trouble(
    prop: &Prop,
    vseed: u64,
    last: Option<u64>,
    tag: String,
    what: String,
    t: &mut Totals,
    found: &mut Option<Found>,
    harness: &mut u32,
) {
    if tag == "harness" {
        *harness += 1;
        t.anomalies.push(format!("harness at run {:?}: {}", last, what));
        return;
    }
    let index = last.unwrap_or(0);
    let (profile, seed, _) = if tag == "golden" {
        ("base", 0, None)
    } else {
        let (p, s, x) = prop.scenario(vseed, index);
        (p, s, Some(x))
    };
    if prop.in_scope(&tag) {
        *found = Some(Found { index, profile: profile.to_string(), seed, tag, what });
    } else {
        *t.foreign.entry(tag).or_insert(0) += 1;
    }
}

/// Minimise, write the replay file, and make sure it fails again in a fresh process.
fn report(prop: &Prop, f: &Found, t: &mut Totals) -> Option<String> {
    let scenario = if f.tag == "golden" { Scn::nothing() } else { props::make(&f.profile, f.seed) };
    let min_s: i64 = std::env::var("VERIF_MIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let n0 = steps(&scenario);
    let same = |s: &Scn| {
        let (v, fp, trace) = once(s, true, 70);
        match v {
            Some((tag, what, step)) if tag == f.tag => Some((what, step, fp, trace)),
            _ => None,
        }
    };
    let small = if f.tag == "golden" { scenario.clone() } else { shorten(&scenario, &f.tag, min_s) };
    let (s, r) = match same(&small) {
        Some(r) => (small, r),
        None => match same(&scenario) {
            Some(r) => (scenario, r),
            None => {
                t.anomalies.push(format!(
                    "run {} (profile {}, seed {}) failed with {} ({}) but does not when run alone",
                    f.index, f.profile, f.seed, f.tag, f.what
                ));
                return None;
            }
        },
    };
    let rep = Replay {
        property: prop.id.to_string(),
        tag: f.tag.clone(),
        what: r.0,
        step: r.1,
        profile: f.profile.clone(),
        seed: f.seed,
        fingerprint: r.2,
        scenario: s,
        minimised_from_steps: n0,
        trace: r.3,
    };
    let dir = format!("{}/replays", home());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{:016x}.json", dir, prop.id, exec_slug(&f.tag), f.seed);
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    eprintln!("{}: {}", rep.tag, rep.what);
    eprintln!("profile {}, seed {}, {} steps (from {})", rep.profile, rep.seed, steps(&rep.scenario), n0);
    Some(path)
}

fn exec_slug(s: &str) -> String {
    crate::exec::slug(s).chars().take(24).collect()
}

/// Run the first runs again in one other process, in another order.
fn recheck(prop: &Prop, vseed: u64, t: &Totals) -> (usize, Vec<u64>) {
    let mut ids: Vec<u64> = t.prints.keys().cloned().take(12).collect();
    ids.reverse();
    if ids.is_empty() {
        return (0, vec![]);
    }
    let exe = std::env::current_exe().unwrap();
    let list = ids.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    let out = Command::new(exe)
        .args(&["prints", prop.id, &vseed.to_string(), &list])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output();
    let mut n = 0;
    let mut differ = vec![];
    if let Ok(o) = out {
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if let Some(p) = l.find(MARK) {
                let v: Vec<u64> = l[p + 1..].split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
                if v.len() == 2 {
                    n += 1;
                    if t.prints.get(&v[0]) != Some(&v[1]) {
                        differ.push(v[0]);
                    }
                }
            }
        }
    }
    (n, differ)
}

/// A run, written out.
fn sample(prop: &Prop, vseed: u64) -> Vec<Value> {
    let mut out = vec![];
    for i in 0..2 {
        let (profile, seed, s) = prop.scenario(vseed, i);
        let (v, fp, trace) = once(&s, true, 30);
        let lines: Vec<String> = trace
            .into_iter()
            .filter(|l| l.starts_with(' ') || l.starts_with("step"))
            .map(|l| l.chars().take(400).collect())
            .take(60)
            .collect();
        out.push(json!({"profile": profile, "seed": seed, "fingerprint": fp, "outcome": v.map(|v| v.0).unwrap_or_else(|| "held".into()), "trace": lines}));
    }
    out
}

fn evidence(
    prop: &Prop,
    tier: &str,
    vseed: u64,
    t: &Totals,
    explore_s: f64,
    wall_s: f64,
    again: usize,
    differ: &[u64],
    samples: Vec<Value>,
    bad: bool,
    nw: usize,
) {
    let pick = |p: &str| -> BTreeMap<String, u64> {
        t.counts.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, n)| (k[p.len()..].to_string(), *n)).collect()
    };
    let rest: BTreeMap<String, u64> = t
        .counts
        .iter()
        .filter(|(k, _)| !["injected.", "runs.", "io.", "sched."].iter().any(|p| k.starts_with(p)))
        .map(|(k, n)| (k.clone(), *n))
        .collect();
    let e = json!({
        "property": prop.id,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.sigs.len(),
            "rule": "One evaluation is one simulated run: a seeded plan of steps (transactions, queries, restarts, crashes, faults, clock jumps, background threads) carried out by the real code under the simulator's scheduler, clock and disk, and judged step by step against the reference model. Two runs are the same if they had the same sequence of outcomes: which calls succeeded, were refused or failed by a fault, which facts each transaction asserted and retracted, how many rows each query gave, and what each restart recovered to.",
            "samples": samples,
            "seeds_per_hour": (t.runs as f64 * 3600.0 / explore_s.max(0.001)) as u64,
            "workers": nw,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "faults_injected": pick("injected."),
            "runs_by_profile": pick("runs."),
            "io": pick("io."),
            "scheduling": pick("sched."),
            "distinct_schedules": {"count": t.scheds.len(), "measure": "hash over every scheduling decision of a run: which thread ran next, at which scheduling point"},
            "events": rest,
            "violations_of_other_properties_seen": t.foreign,
            "known_findings_seen": t.known,
            "anomalies": t.anomalies,
            "determinism": {"runs_repeated_in_another_process": again, "with_a_different_fingerprint": differ.len(), "fingerprint": "hash over every scheduling decision and every disk operation"},
            "real_components": ["mentat and all its crates, unmodified", "SQLite 3 (the bundled C source), including its pager, write-ahead log and FTS extension", "the Rust standard library's threads, channels, mutexes and condition variables, over simulated futexes"],
            "simulated_components": ["disk, page cache and shared memory (a SQLite VFS)", "memory allocation failures (SQLite's allocator)", "thread scheduling (futex, yield, sleep)", "wall and monotonic clocks", "randomness", "process death and power failure", "the remote transaction log, where there is one"],
        },
        "wall_s": wall_s,
        "violations": if bad { 1 } else { 0 },
        "assumptions": [
            "The simulated disk keeps what was synced and may keep, lose or tear what was not; it does not corrupt synced data.",
            "Within one statement SQLite's C code runs without being preempted except where it calls the VFS or takes a mutex.",
            "What the reference model leaves open (listed in DESIGN.md) is not judged.",
        ],
    });
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, prop.id), serde_json::to_string_pretty(&e).unwrap() + "\n");
}

// -------------------------------------------------------------------------------------------------
// Replaying.

fn replay(path: &str) -> i32 {
    let rep: Replay = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let (v, fp, trace) = once(&rep.scenario, true, 70);
    for l in &trace {
        println!("{}", l);
    }
    match v {
        None => {
            println!("no violation; recorded: {}: {}", rep.tag, rep.what);
            0
        }
        Some((tag, what, step)) => {
            println!("{} at step {}: {}", tag, step, what);
            let exact = tag == rep.tag && what == rep.what && fp == rep.fingerprint;
            println!("{}", if exact { "exactly as recorded" } else { "not exactly as recorded" });
            println!("VIOLATION property={} replay={}", rep.property, path);
            1
        }
    }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = match a.get(2).and_then(|s| props::prop(s)) {
                Some(p) => p,
                None => {
                    eprintln!("no such property");
                    return 2;
                }
            };
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            check(p, &tier, seed)
        }
        Some("worker") => {
            let p = props::prop(&a[2]).unwrap();
            worker(p, num(3), num(4), num(5), num(6) as i64, &known())
        }
        Some("prints") => {
            let p = props::prop(&a[2]).unwrap();
            for i in a[4].split(',').filter_map(|x| x.parse().ok()) {
                let (_, _, s) = p.scenario(num(3), i);
                let o = scn::run(&s, false);
                emit(&format!("P {} {}", i, o.fingerprint));
            }
            0
        }
        Some("once") => {
            let s: Scn = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let verbose = a.get(3).map_or(false, |x| x == "v");
            crate::vfs::set_log(verbose);
            let o = scn::run(&s, verbose);
            crate::vfs::set_log(false);
            let v = verdict(&o);
            emit(&format!(
                "O {}",
                json!({"tag": v.as_ref().map(|v| v.0.clone()), "what": v.as_ref().map(|v| v.1.clone()), "step": v.as_ref().map(|v| v.2),
                       "fp": format!("{:016x}", o.fingerprint), "trace": o.trace})
            ));
            0
        }
        Some("minimise") => {
            let s: Scn = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let tag = a[4].clone();
            let out = a[3].clone();
            // What there is so far is on disk, should a candidate bring the process down.
            let (m, _) = scn::minimise(&s, num(5) as i64, |c| {
                let bad = scn::run(c, false).violation.map_or(false, |x| x.tag == tag);
                if bad {
                    let _ = std::fs::write(&out, serde_json::to_string(c).unwrap());
                }
                bad
            });
            let _ = std::fs::write(&out, serde_json::to_string(&m).unwrap());
            0
        }
        Some("replay") => replay(&a[2]),
        Some("try") => {
            let (from, n) = (num(3), num(4));
            let t0 = sys::real_now_ns();
            let mut bad = 0;
            let mut tags = BTreeMap::new();
            let mut cov = BTreeMap::new();
            for seed in from..from + n {
                let s = props::make(&a[2], seed);
                let o = scn::run(&s, false);
                for (k, n) in o.cov.counts {
                    *cov.entry(k).or_insert(0) += n;
                }
                if let Some(v) = o.violation {
                    bad += 1;
                    let key = format!("{} {}", v.tag, v.what.chars().take(if std::env::var("LONG").is_ok() { 3000 } else { 90 }).collect::<String>());
                    let e = tags.entry(v.tag.clone()).or_insert((0, 0, String::new()));
                    e.0 += 1;
                    e.1 = seed;
                    e.2 = key;
                }
            }
            for (k, v) in tags {
                println!("{} x{} seed {}: {}", k, v.0, v.1, v.2);
            }
            for (k, v) in cov {
                print!("{}={} ", k, v);
            }
            println!("\n{} bad of {}, {} ms", bad, n, (sys::real_now_ns() - t0) / 1_000_000);
            0
        }
        Some("edn") => {
            // A scratch pad: transactions and queries from standard input, one per line.
            let mut st = mentat::Store::open("").unwrap();
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                if l.starts_with("[:find") {
                    println!("{:?}", st.begin_read().unwrap().q_once(l.as_str(), None).map(|o| o.results).map_err(|e| e.to_string()));
                    if std::env::var("EXPLAIN").is_ok() { use mentat::Queryable; if let Ok(mentat::QueryExplanation::ExecutionPlan{query,steps}) = st.begin_read().unwrap().q_explain(l.as_str(), None) { println!("{} {:?}\n{}", query.sql, query.args, steps.iter().map(|x| x.detail.clone()).collect::<Vec<_>>().join("\n")); } }
                } else if !l.is_empty() {
                    match st.transact(l.as_str()) {
                        Ok(r) => {
                            println!("tx {} {:?}", r.tx_id, r.tempids);
                            for c in crate::exec::log_of(st.sqlite_mut(), r.tx_id).unwrap() {
                                println!("   {:?}", c);
                            }
                        }
                        Err(e) => println!("{}", e),
                    }
                }
            }
            0
        }
        Some("show") => {
            let s = props::make(&a[2], num(3));
            let o = scn::run(&s, false);
            let v = match o.violation {
                Some(v) => v,
                None => {
                    println!("no violation");
                    return 0;
                }
            };
            println!("{:?}", v);
            let (m, n) = scn::minimise(&s, 20, |c| scn::run(c, false).violation.map_or(false, |x| x.tag == v.tag));
            println!("minimised in {} tries", n);
            crate::vfs::set_log(true);
            let o = scn::run(&m, true);
            crate::vfs::set_log(false);
            let all = std::env::var("IO").is_ok();
            for l in o.trace.iter().filter(|l| all || l.starts_with(' ') || l.starts_with("step")) {
                println!("{}", l);
            }
            println!("{:?}", o.violation);
            println!("{}", serde_json::to_string(&m).unwrap());
            0
        }
        _ => 2,
    }
}

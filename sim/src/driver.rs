//! Batches of runs in worker processes, minimisation, replay, evidence.

use crate::choice::Source;
use crate::ctx::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res<()>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const WORKERS: u64 = 8;
const HANG: Duration = Duration::from_secs(30);

pub fn verif_dir() -> PathBuf {
    match std::env::var("VERIF_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")),
    }
}

fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(mix(0x5eed, seed), hash_bytes(prop.as_bytes())), index)
}

/// `known: property=<id> id=<finding> <text>` lines of the findings file.
fn listed(prop: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let mut w = l.split_whitespace();
        if w.next() != Some("known:") {
            continue;
        }
        if w.next() != Some(&format!("property={}", prop)) {
            continue;
        }
        if let Some(id) = w.next().and_then(|x| x.strip_prefix("id=")) {
            let rest: Vec<&str> = w.collect();
            v.push((id.to_string(), rest.join(" ")));
        }
    }
    v
}

fn leak_listed(prop: &str) -> &'static [String] {
    let v: Vec<String> = listed(prop).into_iter().map(|x| x.0).collect();
    Box::leak(v.into_boxed_slice())
}

fn execute(p: &Prop, src: Source, trace: bool, listed: &'static [String]) -> (Ctx, Res<()>) {
    let mut c = Ctx::new(src, trace);
    c.listed = listed;
    let r = (p.run)(&mut c);
    (c, r)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        if ch == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some(x) => out.push(x),
                None => {}
            }
        } else {
            out.push(ch);
        }
    }
    out
}

// ---------------------------------------------------------------- worker

pub fn worker(p: &Prop, args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let start: u64 = args[1].parse().unwrap();
    let stride: u64 = args[2].parse().unwrap();
    let end: u64 = args[3].parse().unwrap();
    let dir = PathBuf::from(&args[4]);
    let deadline = Instant::now() + Duration::from_secs(args[5].parse().unwrap());
    let tag = &args[6];
    let progress = fs::File::create(dir.join(format!("progress{}", tag))).unwrap();
    let mut hashes: Vec<u8> = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut violations = 0;
    let l = leak_listed(p.id);
    let mut i = start;
    let mut n = 0u64;
    while i < end {
        progress.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
        let (c, r) = execute(p, Source::seeded(run_seed(seed, p.id, i)), false, l);
        n += 1;
        let mut add = |k: String, v: u64| *counts.entry(k).or_insert(0) += v;
        add("runs".into(), 1);
        add("events".into(), c.events);
        add("compared".into(), c.compared);
        add("draws".into(), c.src.rec.len() as u64);
        add("sim_ns".into(), c.sim_ns);
        for (k, v) in &c.faults {
            add(format!("fault.{}", k), *v);
            add(format!("fault_runs.{}", k), 1);
        }
        for (k, v) in &c.probes {
            add(format!("probe.{}", k), *v);
        }
        for (k, v) in &c.findings {
            add(format!("finding.{}", k), *v);
        }
        if c.compared > 0 {
            add("nontrivial".into(), 1);
            hashes.extend_from_slice(&c.hash.to_le_bytes());
        } else {
            hashes.extend_from_slice(&0u64.to_le_bytes());
        }
        if samples.len() < 2 && c.compared > 0 && start == 0 {
            samples.push(format!(
                "{} seed={} index={} events={} comparisons={} faults={:?} fingerprint={:016x}",
                p.id, seed, i, c.events, c.compared, c.faults, c.hash
            ));
        }
        if let Err(v) = r {
            violations += 1;
            println!("V {} {} {}", i, v.class, esc(&v.msg));
            if violations >= 3 {
                break;
            }
        }
        if n % 64 == 0 && Instant::now() > deadline {
            println!("T {}", i);
            break;
        }
        i += stride;
    }
    fs::write(dir.join(format!("hashes{}", tag)), &hashes).unwrap();
    for (k, v) in counts {
        println!("C {} {}", k, v);
    }
    for s in samples {
        println!("S {}", esc(&s));
    }
    println!("END");
}

// ---------------------------------------------------------------- one run

/// A run to be executed in a process of its own: the runs executed before it
/// in the same process (their seeds), and the run, as a seed or as a tape.
#[derive(Clone)]
struct Spec {
    before: Vec<u64>,
    seed: Option<u64>,
    tape: Vec<u64>,
}

impl Spec {
    fn text(&self) -> String {
        let mut s = String::new();
        if !self.before.is_empty() {
            s.push_str("before\n");
            s.push_str(&tape_text(&self.before));
            s.push_str("\nafter\n");
        }
        match self.seed {
            Some(n) => s.push_str(&format!("seed {}\n", n)),
            None => s.push_str(&format!("tape\n{}\nend\n", tape_text(&self.tape))),
        }
        s
    }

    fn read(text: &str) -> Spec {
        let part = |a: &str, b: &str| -> Option<Vec<u64>> {
            let t = format!("\n{}", text);
            let i = t.find(&format!("\n{}\n", a))? + a.len() + 2;
            let j = t[i..].find(&format!("\n{}\n", b)).unwrap_or(t.len() - i);
            Some(read_tape(&t[i..i + j]))
        };
        let tape = part("tape", "end");
        Spec {
            before: part("before", "after").unwrap_or_default(),
            seed: match tape {
                Some(_) => None,
                None => text
                    .lines()
                    .find_map(|l| l.strip_prefix("seed "))
                    .and_then(|x| x.parse().ok()),
            },
            tape: tape.unwrap_or_default(),
        }
    }

    fn source(&self) -> Source {
        match self.seed {
            Some(n) => Source::seeded(n),
            None => Source::tape(self.tape.clone()),
        }
    }

    /// Executes it in this process.
    fn execute(&self, p: &Prop, trace: bool, log: Option<fs::File>) -> (Ctx, Res<()>) {
        let l = leak_listed(p.id);
        for s in &self.before {
            let _ = execute(p, Source::seeded(*s), false, l);
        }
        let mut src = self.source();
        src.log = log;
        execute(p, src, trace, l)
    }
}

/// What came of a run in a process of its own.
#[derive(Clone, PartialEq)]
struct Outcome {
    /// Empty when the property held.
    class: String,
    hash: String,
    msg: String,
}

/// One run, described by a file, in this process; `rec <file>` records every
/// draw at once, for runs that end the process.
pub fn one(p: &Prop, args: &[String]) {
    let spec = Spec::read(&fs::read_to_string(&args[0]).unwrap());
    let log = match args.get(1).map(|s| s.as_str()) {
        Some("rec") => Some(fs::File::create(&args[2]).unwrap()),
        _ => None,
    };
    let (c, r) = spec.execute(p, false, log);
    match r {
        Ok(()) => println!("OK {:016x}", c.hash),
        Err(v) => println!("V {:016x} {} {}", c.hash, v.class, esc(&v.msg)),
    }
}

/// Executes a run in a process of its own.
fn alone(p: &Prop, spec: &Spec, dir: &Path, rec: Option<&Path>, limit: Duration) -> Outcome {
    let f = dir.join("spec");
    fs::write(&f, spec.text()).unwrap();
    let mut args = vec!["one", p.id, f.to_str().unwrap()];
    if let Some(r) = rec {
        args.extend(["rec", r.to_str().unwrap()]);
    }
    let of = |class: &str| Outcome {
        class: class.into(),
        hash: String::new(),
        msg: String::new(),
    };
    match wait(me(&args), limit) {
        Ended::Abort => of("abort"),
        Ended::Hang => of("hang"),
        Ended::Said(s) => match s.lines().find_map(|l| l.strip_prefix("V ")) {
            None => of(""),
            Some(l) => {
                let mut it = l.splitn(3, ' ');
                let hash = it.next().unwrap_or("").to_string();
                Outcome {
                    class: it.next().unwrap_or("").to_string(),
                    hash,
                    msg: unesc(it.next().unwrap_or("")),
                }
            }
        },
    }
}

fn read_tape(s: &str) -> Vec<u64> {
    s.split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect()
}

fn tape_text(t: &[u64]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        s.push_str(&x.to_string());
        s.push(if i % 24 == 23 { '\n' } else { ' ' });
    }
    s
}

// ---------------------------------------------------------------- shrink

/// Minimises a tape while `fails` holds.
fn minimise(
    mut best: Vec<u64>,
    budget: Duration,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    mut improved: impl FnMut(&[u64]),
) -> Vec<u64> {
    let t0 = Instant::now();
    let out = |t0: Instant| t0.elapsed() > budget;
    let mut again = true;
    while again && !out(t0) {
        again = false;
        // Drop spans.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && !out(t0) {
                let mut t = best.clone();
                let to = (at + size).min(t.len());
                t.drain(at..to);
                match fails(&t) {
                    Some(rec) if rec.len() < best.len() => {
                        best = rec;
                        again = true;
                        improved(&best);
                    }
                    _ => at += size,
                }
            }
            if size == 1 || out(t0) {
                break;
            }
            size /= 2;
        }
        // Zero spans.
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && !out(t0) {
                let to = (at + size).min(best.len());
                if best[at..to].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[at..to] {
                        *x = 0;
                    }
                    if let Some(rec) = fails(&t) {
                        if weight(&rec) < weight(&best) {
                            best = rec;
                            again = true;
                            improved(&best);
                        }
                    }
                }
                at += size;
            }
            if size == 1 || out(t0) {
                break;
            }
            size /= 4;
            size = size.max(1);
        }
        // Smaller numbers.
        let mut at = 0;
        while at < best.len() && !out(t0) {
            let mut v = best[at];
            let mut step = v / 2;
            while v > 0 && step > 0 && !out(t0) {
                let mut t = best.clone();
                t[at] = v - step;
                match fails(&t) {
                    Some(rec) if weight(&rec) < weight(&best) => {
                        best = rec;
                        again = true;
                        improved(&best);
                        if at >= best.len() {
                            break;
                        }
                        v = best[at];
                        step = v / 2;
                    }
                    _ => step /= 2,
                }
            }
            at += 1;
        }
    }
    best
}

fn weight(t: &[u64]) -> (usize, u128) {
    (t.len(), t.iter().map(|x| *x as u128).sum())
}

/// In this process; the caller gives it a time limit.
pub fn shrink(p: &Prop, args: &[String]) {
    let tape = read_tape(&fs::read_to_string(&args[0]).unwrap());
    let class = args[1].clone();
    let out = args[2].clone();
    let l = leak_listed(p.id);
    minimise(
        tape,
        Duration::from_secs(20),
        |t| {
            let (c, r) = execute(p, Source::tape(t.to_vec()), false, l);
            match r {
                Err(v) if v.class == class => Some(c.src.rec),
                _ => None,
            }
        },
        |t| {
            fs::write(format!("{}.new", out), tape_text(t)).unwrap();
            fs::rename(format!("{}.new", out), &out).unwrap();
        },
    );
}

enum Ended {
    Said(String),
    Abort,
    Hang,
}

fn wait(mut ch: Child, limit: Duration) -> Ended {
    let t0 = Instant::now();
    let mut out = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let s = reader.join().unwrap();
            return if st.success() {
                Ended::Said(s)
            } else {
                Ended::Abort
            };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = reader.join();
            return Ended::Hang;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

fn me(args: &[&str]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a worker")
}

// ---------------------------------------------------------------- check

struct Found {
    index: u64,
    /// Of the worker.
    stride: u64,
    class: String,
    msg: String,
}

pub fn check(p: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("RTPS_DST_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let runs = if tier == "thorough" { p.thorough } else { p.quick };
    let runs = ((runs as f64 * scale) as u64).max(WORKERS);
    let cap = if tier == "thorough" { 780 } else { 300 };
    println!("property={} seed={} tier={} runs={}", p.id, seed, tier, runs);
    let dir = std::env::temp_dir().join(format!("rtps-dst-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let d = dir.to_str().unwrap().to_string();
    let mut found: Vec<Found> = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut truncated = false;
    let mut broken: Option<String> = None;

    let spawn = |tag: u64, start: u64, stride: u64, end: u64| {
        me(&[
            "worker",
            p.id,
            &seed.to_string(),
            &start.to_string(),
            &stride.to_string(),
            &end.to_string(),
            &d,
            &cap.to_string(),
            &tag.to_string(),
        ])
    };
    struct W {
        tag: u64,
        ch: Option<Child>,
        out: Option<std::thread::JoinHandle<String>>,
        last: u64,
        since: Instant,
    }
    let mut ws: Vec<W> = vec![];
    let add = |ws: &mut Vec<W>, tag: u64, mut ch: Child| {
        let mut o = ch.stdout.take().unwrap();
        let h = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = o.read_to_string(&mut s);
            s
        });
        ws.push(W {
            tag,
            ch: Some(ch),
            out: Some(h),
            last: 0,
            since: Instant::now(),
        });
    };
    for w in 0..WORKERS {
        add(&mut ws, w, spawn(w, w, WORKERS, runs));
    }
    // The determinism probe: the first runs again, in another process, in
    // another order of execution (one worker instead of eight).
    let again = runs.min(400);
    add(&mut ws, 100, spawn(100, 0, 1, again));

    let stride_of = |tag: u64| if tag == 100 { 1 } else { WORKERS };
    let read_progress = |tag: u64| -> u64 {
        let mut b = [0u8; 8];
        match fs::File::open(dir.join(format!("progress{}", tag))) {
            Ok(f) => match f.read_at(&mut b, 0) {
                Ok(8) => u64::from_le_bytes(b),
                _ => 0,
            },
            Err(_) => 0,
        }
    };
    while ws.iter().any(|w| w.ch.is_some()) {
        std::thread::sleep(Duration::from_millis(10));
        for w in ws.iter_mut() {
            let Some(ch) = w.ch.as_mut() else { continue };
            if let Some(st) = ch.try_wait().unwrap() {
                w.ch = None;
                let text = w.out.take().unwrap().join().unwrap();
                let finished = text.lines().any(|l| l == "END");
                if !st.success() || !finished {
                    let at = read_progress(w.tag);
                    if at == 0 {
                        broken = Some(format!("worker {} ended at once: {:?}", w.tag, st));
                    } else {
                        use std::os::unix::process::ExitStatusExt;
                        if st.code() == Some(101) {
                            broken = Some(format!(
                                "the harness panicked in run {} (seed {})",
                                at - 1,
                                run_seed(seed, p.id, at - 1)
                            ));
                        } else {
                            found.push(Found {
                                index: at - 1,
                                stride: stride_of(w.tag),
                                class: "abort".into(),
                                msg: format!(
                                    "the process was ended while the real code ran (signal {:?})",
                                    st.signal()
                                ),
                            });
                        }
                    }
                }
                for l in text.lines() {
                    let mut it = l.splitn(4, ' ');
                    match it.next() {
                        Some("V") => found.push(Found {
                            stride: stride_of(w.tag),
                            index: it.next().unwrap().parse().unwrap(),
                            class: it.next().unwrap().to_string(),
                            msg: unesc(it.next().unwrap_or("")),
                        }),
                        Some("C") if w.tag != 100 => {
                            let k = it.next().unwrap().to_string();
                            let v: u64 = it.next().unwrap().parse().unwrap();
                            *counts.entry(k).or_insert(0) += v;
                        }
                        Some("S") if w.tag != 100 => samples.push(unesc(&l[2..])),
                        Some("T") => truncated = true,
                        _ => {}
                    }
                }
                continue;
            }
            let now = read_progress(w.tag);
            if now != w.last {
                w.last = now;
                w.since = Instant::now();
            } else if w.since.elapsed() > HANG {
                let _ = ch.kill();
                let _ = ch.wait();
                w.ch = None;
                if now == 0 {
                    broken = Some("a worker did not start".into());
                } else {
                    found.push(Found {
                        index: now - 1,
                        stride: stride_of(w.tag),
                        class: "hang".into(),
                        msg: "the real code did not return".into(),
                    });
                }
            }
        }
    }
    // Distinct runs, and the determinism comparison.
    let mut all: Vec<u64> = vec![];
    let mut by_worker: Vec<Vec<u64>> = vec![];
    for w in 0..WORKERS {
        let b = fs::read(dir.join(format!("hashes{}", w))).unwrap_or_default();
        let v: Vec<u64> = b
            .chunks_exact(8)
            .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
            .collect();
        all.extend(v.iter().filter(|h| **h != 0));
        by_worker.push(v);
    }
    all.sort_unstable();
    all.dedup();
    let redo: Vec<u64> = fs::read(dir.join("hashes100"))
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
        .collect();
    let mut repeated = 0u64;
    let mut differ = 0u64;
    for (i, h) in redo.iter().enumerate() {
        let w = i % WORKERS as usize;
        if let Some(x) = by_worker[w].get(i / WORKERS as usize) {
            repeated += 1;
            if x != h {
                differ += 1;
            }
        }
    }
    if differ > 0 {
        println!("WARNING: {} of {} repeated runs differ", differ, repeated);
    }

    let mut code = 0;
    let mut nviol = 0u64;
    if let Some(b) = &broken {
        eprintln!("harness error: {}", b);
        code = 2;
    }
    if !found.is_empty() {
        found.sort_by_key(|f| (f.index, f.stride == 1));
        let mut seen: Vec<String> = vec![];
        for f in &found {
            if seen.contains(&f.class) || seen.len() >= 3 {
                continue;
            }
            seen.push(f.class.clone());
            nviol += 1;
            let left = Duration::from_secs(860).saturating_sub(t0.elapsed());
            let path = report(p, seed, f, &dir, left / 3);
            println!("{}: {}", f.class, clip(&f.msg));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            code = 1;
        }
    }
    for (id, text) in listed(p.id) {
        if counts.get(&format!("finding.{}", id)).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={} {} ({})", p.id, text, id);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(
        p,
        tier,
        seed,
        &counts,
        &samples,
        all.len() as u64,
        (repeated, differ),
        truncated,
        wall,
        nviol,
    );
    let _ = fs::remove_dir_all(&dir);
    let g = |k: &str| counts.get(k).copied().unwrap_or(0);
    println!(
        "property={} runs={} distinct={} comparisons={} wall={:.1}s {}",
        p.id,
        g("runs"),
        all.len(),
        g("compared"),
        wall,
        if code == 0 { "held" } else { "FAILED" }
    );
    code
}

fn clip(s: &str) -> String {
    s.chars().take(1500).collect()
}

/// Minimises a violation and writes its replay file. Whatever the file claims
/// was seen in a process which did nothing else.
fn report(p: &Prop, seed: u64, f: &Found, dir: &Path, limit: Duration) -> PathBuf {
    let rs = run_seed(seed, p.id, f.index);
    let secs = |n: u64| Duration::from_secs(n).min(limit / 4);
    let recf = dir.join("tape");
    let best = dir.join("best");
    let _ = fs::remove_file(&best);
    let fatal = f.class == "abort" || f.class == "hang";
    let each = Duration::from_secs(if fatal { 5 } else { 30 });
    let recorded = || read_tape(&fs::read_to_string(&recf).unwrap_or_default());

    let mut spec = Spec {
        before: vec![],
        seed: Some(rs),
        tape: vec![],
    };
    let first = alone(p, &spec, dir, Some(&recf), Duration::from_secs(15));
    if first.class != f.class {
        // It depends on state that outlived earlier runs: the earlier runs of
        // that worker belong to the history.
        spec.before = needed(p, seed, f, dir, secs(120));
        alone(p, &spec, dir, Some(&recf), Duration::from_secs(60));
    }
    spec.seed = None;
    spec.tape = recorded();
    let fails = |s: &Spec| alone(p, s, dir, None, each).class == f.class;
    let mut done = f.class == "hang";
    if !fatal && spec.before.is_empty() {
        // Quickly first, in one process.
        fs::write(&recf, tape_text(&spec.tape)).unwrap();
        wait(
            me(&[
                "shrink",
                p.id,
                recf.to_str().unwrap(),
                &f.class,
                best.to_str().unwrap(),
            ]),
            secs(30),
        );
        if let Ok(s) = fs::read_to_string(&best) {
            let short = Spec {
                tape: read_tape(&s),
                ..spec.clone()
            };
            if fails(&short) {
                spec = short;
                done = true;
            }
        } else {
            done = true;
        }
    }
    if !done {
        let t = spec.clone();
        spec.tape = minimise(
            spec.tape.clone(),
            secs(20),
            |x| {
                let s = Spec {
                    tape: x.to_vec(),
                    ..t.clone()
                };
                let o = alone(p, &s, dir, Some(&recf), each);
                if o.class != f.class {
                    return None;
                }
                let r = recorded();
                Some(if fatal && r.len() > x.len() { x.to_vec() } else { r })
            },
            |_| {},
        );
    }
    let o = if f.class == "hang" {
        Outcome {
            class: "hang".into(),
            hash: String::new(),
            msg: String::new(),
        }
    } else {
        alone(p, &spec, dir, None, Duration::from_secs(60))
    };
    let mut text = format!(
        "property {}\nseed {}\nindex {}\nrunseed {}\nclass {}\n",
        p.id, seed, f.index, rs, f.class
    );
    if fatal {
        text.push_str(&format!("message {}\n", esc(&f.msg)));
    } else {
        text.push_str(&format!("message {}\nfingerprint {}\n", esc(&o.msg), o.hash));
    }
    text.push_str(&format!(
        "draws {}\nruns_before {}\n{}",
        spec.tape.len(),
        spec.before.len(),
        spec.text()
    ));
    if !fatal {
        let specf = dir.join("spec");
        fs::write(&specf, spec.text()).unwrap();
        if let Ended::Said(s) = wait(
            me(&["trace", p.id, specf.to_str().unwrap()]),
            Duration::from_secs(60),
        ) {
            text.push_str("trace\n");
            text.push_str(&s);
        }
    }
    let out = verif_dir().join("replays");
    fs::create_dir_all(&out).unwrap();
    let out = out.canonicalize().unwrap();
    let path = out.join(format!("{}-{}-{}-{}.txt", p.id, seed, f.index, f.class));
    fs::write(&path, text).unwrap();
    path
}

/// The earlier runs of the worker without which a violation does not show:
/// as few of the last ones as bring it about, then without those not needed.
fn needed(p: &Prop, seed: u64, f: &Found, dir: &Path, limit: Duration) -> Vec<u64> {
    let t0 = Instant::now();
    let mut all = vec![];
    let mut i = f.index % f.stride;
    while i < f.index {
        all.push(run_seed(seed, p.id, i));
        i += f.stride;
    }
    let last = run_seed(seed, p.id, f.index);
    let fails = |before: &[u64]| {
        let s = Spec {
            before: before.to_vec(),
            seed: Some(last),
            tape: vec![],
        };
        let left = limit.saturating_sub(t0.elapsed()) + Duration::from_secs(5);
        alone(p, &s, dir, None, left).class == f.class
    };
    let mut n = 1;
    while n < all.len() && t0.elapsed() < limit && !fails(&all[all.len() - n..]) {
        n *= 2;
    }
    if n >= all.len() || t0.elapsed() >= limit {
        // All of them, as it happened.
        return all;
    }
    let mut kept: Vec<u64> = all[all.len() - n..].to_vec();
    let mut size = (kept.len() / 2).max(1);
    loop {
        let mut at = 0;
        while at < kept.len() && t0.elapsed() < limit {
            let mut t = kept.clone();
            t.drain(at..(at + size).min(t.len()));
            if fails(&t) {
                kept = t;
            } else {
                at += size;
            }
        }
        if size == 1 || t0.elapsed() >= limit {
            return kept;
        }
        size /= 2;
    }
}

/// The events of one run, described by a file.
pub fn trace(p: &Prop, args: &[String]) {
    let spec = Spec::read(&fs::read_to_string(&args[0]).unwrap());
    let (c, _) = spec.execute(p, true, None);
    for l in c.trace.unwrap() {
        println!("{}", l);
    }
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let text = fs::read_to_string(path).expect("no such replay file");
    let text = text.split("\ntrace\n").next().unwrap();
    let field = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{} ", k)))
            .unwrap_or("")
            .to_string()
    };
    let id = field("property");
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let class = field("class");
    let spec = Spec::read(text);
    if class == "abort" || class == "hang" {
        let dir = std::env::temp_dir().join(format!("rtps-dst-replay-{}", std::process::id()));
        fs::create_dir_all(&dir).unwrap();
        let o = alone(p, &spec, &dir, None, Duration::from_secs(20));
        let _ = fs::remove_dir_all(&dir);
        return if o.class == class {
            println!("reproduced: {}", class);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        } else if o.class.is_empty() {
            println!("not reproduced: the property holds on this schedule");
            0
        } else {
            println!("ended differently: {} {}", o.class, o.msg);
            2
        };
    }
    let (c, r) = spec.execute(p, true, None);
    for l in c.trace.as_ref().unwrap() {
        println!("  {}", l);
    }
    match r {
        Ok(()) => {
            println!("not reproduced: the property holds on this schedule");
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.msg);
            let same = v.class == class
                && esc(&v.msg) == field("message")
                && format!("{:016x}", c.hash) == field("fingerprint");
            println!(
                "{}",
                if same {
                    "reproduced exactly"
                } else {
                    "violated, but not identically"
                }
            );
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
    }
}

/// Fingerprints of runs, for comparing executions of the harness.
pub fn prints(p: &Prop, seed: u64, n: u64) {
    let l = leak_listed(p.id);
    for i in 0..n {
        let (c, r) = execute(p, Source::seeded(run_seed(seed, p.id, i)), false, l);
        println!("{} {:016x} {} {}", i, c.hash, c.events, r.is_ok());
    }
}

/// The trace of one run, to look at.
pub fn show(p: &Prop, seed: u64, index: u64) {
    let (c, r) = execute(
        p,
        Source::seeded(run_seed(seed, p.id, index)),
        true,
        leak_listed(p.id),
    );
    for l in c.trace.unwrap() {
        println!("{}", l);
    }
    println!("faults {:?} probes {:?}", c.faults, c.probes);
    println!("{:?}", r);
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[&str]) -> String {
    let q: Vec<String> = v.iter().map(|s| js(s)).collect();
    format!("[{}]", q.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    counts: &BTreeMap<String, u64>,
    samples: &[String],
    distinct: u64,
    det: (u64, u64),
    truncated: bool,
    wall: f64,
    violations: u64,
) {
    let g = |k: &str| counts.get(k).copied().unwrap_or(0);
    let sub = |prefix: &str| -> String {
        let v: Vec<String> = counts
            .iter()
            .filter_map(|(k, v)| {
                k.strip_prefix(prefix)
                    .map(|n| format!("{}: {}", js(n), v))
            })
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let runs = g("runs");
    let per_hour = if wall > 0.0 {
        (runs as f64 / wall * 3600.0) as u64
    } else {
        0
    };
    let samples: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"comparisons_with_the_oracle\": {},\n  \"simulated_events\": {},\n  \"choices_drawn\": {},\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_seconds\": {:.3},\n  \"faults_injected\": {},\n  \"runs_with_fault\": {},\n  \"rare_conditions_reached\": {},\n  \"known_findings_met\": {},\n  \"determinism\": {{\"runs_repeated_in_another_process\": {}, \"that_differed\": {}}},\n  \"stopped_by_time_cap\": {},\n  \"components_real\": {},\n  \"components_stubbed\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(p.id),
        js(tier),
        seed,
        runs,
        distinct,
        js(p.rule),
        samples.join(", "),
        g("compared"),
        g("events"),
        g("draws"),
        per_hour,
        per_hour,
        g("sim_ns") as f64 / 1e9,
        sub("fault."),
        sub("fault_runs."),
        sub("probe."),
        sub("finding."),
        det.0,
        det.1,
        truncated,
        list(p.real),
        list(p.stub),
        list(p.assumptions),
        wall,
        violations
    );
    let dir = verif_dir().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    let mut f = fs::File::create(dir.join(format!("{}.json", p.id))).unwrap();
    f.write_all(text.as_bytes()).unwrap();
}

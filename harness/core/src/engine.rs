//! Runs a check: worker processes generate and judge cases, failures are shrunk and written as replay files,
//! and the evidence file is written from what was counted.
use crate::json;
use crate::src::{hash, Rng, Src};
use crate::types::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// One generated case. What the fields mean is up to the check.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case { pub texts: Vec<String>, pub args: Vec<String> }
impl Case {
    pub fn text(t: impl Into<String>) -> Case { Case { texts: vec![t.into()], args: vec![] } }
    pub fn entry(t: impl Into<String>, e: Entry) -> Case { Case { texts: vec![t.into()], args: vec![entry_name(e).into()] } }
}
pub fn entry_name(e: Entry) -> &'static str { match e { Entry::File => "file", Entry::Single => "single", Entry::Eval => "eval", Entry::FuncType => "functype" } }
pub fn entry_of(s: &str) -> Entry { match s { "single" => Entry::Single, "eval" => Entry::Eval, "functype" => Entry::FuncType, _ => Entry::File } }

/// What a check reports besides its verdict.
#[derive(Default)]
pub struct Cx { pub nontrivial: bool, pub tags: Vec<&'static str>, pub verbose: bool }
impl Cx { pub fn tag(&mut self, t: &'static str) { if !self.tags.contains(&t) { self.tags.push(t) } } }

#[derive(Clone, Copy)]
pub struct Check {
    pub id: &'static str,
    /// how cases are made and which are non-trivial
    pub rule: &'static str,
    pub cases: u64,
    pub gen: fn(&mut Src) -> Case,
    pub check: fn(&Case, &Subject, &mut Cx) -> Result<(), String>,
    pub corpus: fn() -> Vec<Case>,
    /// the verdict is meaningful for any text, so failing texts may be edited to shrink them
    pub free_text: bool,
    /// tags that a run must have seen (guards against a generator that has gone blind)
    pub must_see: &'static [&'static str],
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
fn limit_mem(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); setrlimit(4, &[0, 0]); } }
fn limit_cpu(secs: u64) { unsafe { setrlimit(0, &[secs, secs]); } }
fn die_with_parent() { unsafe { prctl(1, 9, 0, 0, 0); } }

const STACK: usize = 1 << 30;
const STALL_CPU: u64 = 20;

pub fn guarded(ck: &Check, c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ck.check)(c, sub, cx))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            if m.starts_with("HARNESS") { eprintln!("{}", m); std::process::exit(3) }
            Err(format!("the code under test panicked: {}", m))
        }
    }
}
fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ hash(id) ^ idx.wrapping_mul(0xA24B_AED4_963E_E407));
    r.next()
}
/// What does not depend on the seed: the check's own cases, the inputs of graded size, and the enumerated sequences.
struct Fixed { list: Vec<Case>, plan: crate::enumer::Plan, enumerated: u64 }
fn fixed_of(ck: &Check) -> Fixed {
    let mut list = (ck.corpus)();
    list.extend(crate::scale::cases(ck.id));
    let plan = crate::enumer::plan(ck.id);
    let enumerated = plan.count();
    Fixed { list, plan, enumerated }
}
/// The first cases are the fixed ones, the others are generated.
fn case_at(ck: &Check, fixed: &Fixed, sd: u64, idx: u64) -> (Case, Vec<u32>) {
    if let Some(c) = fixed.list.get(idx as usize) { return (c.clone(), vec![]) }
    if let Some(c) = fixed.plan.at(idx - fixed.list.len() as u64) { return (c, vec![]) }
    let mut s = Src::random(case_seed(sd, ck.id, idx));
    let c = (ck.gen)(&mut s);
    (c, s.rec)
}
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1) }
/// development aid: report the first failure as it was found
fn unshrunk() -> bool { std::env::var("VERIF_NO_SHRINK").is_ok() }
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false) }

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

// ---------------------------------------------------------------- shrinking
fn fails(ck: &Check, c: &Case, sub: &Subject) -> Option<String> { guarded(ck, c, sub, &mut Cx::default()).err() }

fn shrink(ck: &Check, choices: &[u32], first: Case, msg: String, sub: &Subject) -> (Case, String) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if unshrunk() { 0 } else { 10 });
    let (mut best, mut best_msg, mut cur) = (first, msg, choices.to_vec());
    let size = |c: &Case| c.texts.iter().map(|t| t.chars().count()).sum::<usize>();
    if !cur.is_empty() {
        let mut attempt = |cand: Vec<u32>, cur: &mut Vec<u32>, best: &mut Case, msg: &mut String| -> bool {
            let mut s = Src::replay(cand);
            let c = (ck.gen)(&mut s);
            if s.rec.len() > cur.len() || (s.rec.len() == cur.len() && s.rec >= *cur) { return false }
            match fails(ck, &c, sub) { Some(m) => { *cur = s.rec; *best = c; *msg = m; true } None => false }
        };
        loop {
            let before = cur.clone();
            for block in [64usize, 16, 8, 4, 3, 2, 1] {
                let mut i = cur.len();
                while i > 0 && t0.elapsed() < limit {
                    i = i.min(cur.len());
                    if i == 0 { break }
                    let a = i.saturating_sub(block);
                    let mut cand = cur.clone();
                    cand.drain(a..i);
                    if !attempt(cand, &mut cur, &mut best, &mut best_msg) {
                        let mut z = cur.clone();
                        for x in &mut z[a..i] { *x = 0 }
                        attempt(z, &mut cur, &mut best, &mut best_msg);
                        i = if block > 1 { i - (block / 2).max(1).min(i) } else { i - 1 };
                    }
                }
            }
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < limit {
                let mut step = cur[i] / 2 + cur[i] % 2;
                while step > 0 && i < cur.len() && cur[i] > 0 {
                    let mut cand = cur.clone();
                    cand[i] -= step.min(cand[i]);
                    if !attempt(cand, &mut cur, &mut best, &mut best_msg) { step /= 2 }
                }
                i += 1;
            }
            if cur == before || t0.elapsed() >= limit { break }
        }
    }
    if ck.free_text {
        // delete stretches of characters, then simplify characters
        let t1 = Instant::now();
        for ti in 0..best.texts.len() {
            loop {
                let before = size(&best);
                for block in [256usize, 64, 16, 8, 4, 2, 1] {
                    let mut i = 0;
                    while t1.elapsed() < limit {
                        let chars: Vec<char> = best.texts[ti].chars().collect();
                        if i >= chars.len() { break }
                        let mut c = best.clone();
                        c.texts[ti] = chars[..i].iter().chain(chars[(i + block).min(chars.len())..].iter()).collect();
                        match fails(ck, &c, sub) { Some(m) => { best = c; best_msg = m } None => i += block }
                    }
                }
                if size(&best) == before { break }
            }
        }
    }
    (best, best_msg)
}

// ---------------------------------------------------------------- worker
/// Lines on stdout: `F <idx> <json case> <json msg>`; at the end `D <json summary>`.
fn worker(ck: Check, sub: Subject, wi: u64, wn: u64, from: u64, total: u64, cell: std::fs::File, deadline: Instant) {
    let mut cell = cell;
    let sd = seed();
    let fixed = fixed_of(&ck);
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = vec![];
    let mut timed_out = false;
    let mut idx = from;
    while idx < total {
        if idx % wn != wi { idx += 1; continue }
        if evals % 64 == 0 && Instant::now() > deadline { timed_out = true; break }
        let mut b = [0u8; 8];
        b.copy_from_slice(&idx.to_le_bytes());
        let _ = cell.seek(SeekFrom::Start(wi * 8));
        let _ = cell.write_all(&b);
        let s0 = case_seed(sd, ck.id, idx);
        let (c, choices) = case_at(&ck, &fixed, sd, idx);
        let mut cx = Cx::default();
        let r = guarded(&ck, &c, &sub, &mut cx);
        evals += 1;
        if let Err(m) = r {
            let (best, msg) = shrink(&ck, &choices, c, m, &sub);
            println!("F {} {{\"texts\": {}, \"args\": {}, \"message\": {}}}", idx, json::arr(&best.texts), json::arr(&best.args), json::esc(&msg));
            return;
        }
        if cx.nontrivial {
            let mut h = 0u64;
            for t in c.texts.iter().chain(&c.args) { h = h.rotate_left(13) ^ hash(t) }
            if hashes.insert(h) {
                let slot = hashes.len() as u64;
                // reservoir of a few samples, deterministic
                if samples.len() < 3 { samples.push((idx, show(&c))) }
                else if Rng::new(s0 ^ slot).next() % slot < 3 { let k = (Rng::new(s0).next() % 3) as usize; samples[k] = (idx, show(&c)) }
            }
        }
        for t in cx.tags { *tags.entry(t).or_insert(0) += 1 }
        idx += 1;
    }
    let mut o = format!("D {} {} {}", evals, timed_out as u8, hashes.len());
    for h in &hashes { o.push_str(&format!(" {:x}", h)) }
    println!("{}", o);
    for (t, n) in tags { println!("T {} {}", n, t) }
    for (i, t) in samples { println!("S {} {}", i, json::esc(&t)) }
}
fn show(c: &Case) -> String {
    let cut = |t: &str| -> String { if t.chars().count() > 400 { format!("{}…", t.chars().take(400).collect::<String>()) } else { t.to_string() } };
    let mut v: Vec<String> = c.texts.iter().map(|t| cut(t)).collect();
    if !c.args.is_empty() { v.push(format!("({})", cut(&c.args.join(" ")))) }
    v.join("  |  ")
}

// ---------------------------------------------------------------- known findings
pub struct Finding { pub prop: String, pub key: String, pub expect: String, pub entry: String, pub input: String, pub what: String }
/// `finding: property=<id> key=<K> expect=<accept|positions|deep> entry=<entry> input=<json string> :: <what fails>`
pub fn findings(root: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let f = |k: &str| -> String { r.split_whitespace().find_map(|w| w.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string() };
        let Some(p) = r.find("input=") else { continue };
        let Some((input, rest)) = json::parse_str(&r[p + 6..]) else { continue };
        v.push(Finding { prop: f("property"), key: f("key"), expect: f("expect"), entry: f("entry"), input, what: rest.trim().trim_start_matches("::").trim().to_string() });
    }
    v
}
fn still_fails(expect: &str, entry: &str, input: &str, sub: &Subject) -> bool {
    match expect {
        "accept" => (sub.parse)(input, entry_of(entry)).is_err(),
        "positions" => { let n = input.chars().count() as u32; (sub.lex)(input, 0).toks.iter().any(|t| t.e != NOPOS && t.e > n) }
        // '…' stands for twenty thousand opening brackets; the failure is a stack overflow, which ends this process
        "deep" => { let t = input.replace('…', &"(".repeat(20_000)); let _ = (sub.parse)(&t, entry_of(entry)); false }
        _ => false,
    }
}

// ---------------------------------------------------------------- parent
fn write_replay(root: &str, ck: &Check, c: &Case, msg: &str, tag: &str) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.json", dir, ck.id, tag);
    let body = format!("{{\n  \"property\": \"{}\",\n  \"texts\": {},\n  \"args\": {},\n  \"message\": {},\n  \"replay\": \"./run.sh {} --replay {}\"\n}}\n",
        ck.id, json::arr(&c.texts), json::arr(&c.args), json::esc(msg), ck.id, p);
    let _ = std::fs::write(&p, body);
    p
}

/// Runs one case in a fresh process under a CPU limit; Some(why) if the check fails or that process dies.
fn confirm_death(ck: &Check, c: &Case, root: &str, cpu: u64) -> Option<String> {
    let p = format!("{}/replays/.confirm-{}-{}.json", root, ck.id, std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/replays", root));
    let _ = std::fs::write(&p, format!("{{\"texts\": {}, \"args\": {}}}", json::arr(&c.texts), json::arr(&c.args)));
    let st = Command::new(std::env::current_exe().unwrap()).args(["one", ck.id, &p, &cpu.to_string()]).stderr(Stdio::null()).output();
    let _ = std::fs::remove_file(&p);
    match st {
        Ok(o) if o.status.code() == Some(1) => Some(String::from_utf8_lossy(&o.stdout).into_owned()),
        Ok(o) => match o.status.signal() {
            Some(24) | Some(9) => Some(format!("the code under test did not finish within {} s of CPU time", cpu)),
            Some(11) | Some(6) | Some(7) | Some(4) => Some(format!("the process running the code under test died (signal {}: stack or memory exhausted)", o.status.signal().unwrap_or(0))),
            _ => None,
        },
        Err(_) => None,
    }
}
fn shrink_death(ck: &Check, c: Case, why: String, root: &str) -> (Case, String) {
    if !ck.free_text || c.texts.is_empty() || unshrunk() { return (c, why) }
    let t0 = Instant::now();
    let (mut best, mut why) = (c, why);
    let stall = why.contains("did not finish");
    for block in [512usize, 128, 32, 8, 2, 1] {
        let mut i = 0;
        while t0.elapsed() < Duration::from_secs(if stall { 60 } else { 40 }) {
            let chars: Vec<char> = best.texts[0].chars().collect();
            if i >= chars.len() { break }
            let mut d = best.clone();
            d.texts[0] = chars[..i].iter().chain(chars[(i + block).min(chars.len())..].iter()).collect();
            match confirm_death(ck, &d, root, if stall { 3 } else { STALL_CPU }) { Some(w) => { best = d; why = w } None => i += block }
        }
    }
    (best, why)
}

pub fn run(checks: &[Check], sub: Subject) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let find = |id: &str| checks.iter().find(|c| c.id == id).copied();
    match args.get(1).map(|x| x.as_str()) {
        Some("worker") => {
            die_with_parent();
            limit_mem(7 << 29);
            let ck = find(&args[2]).expect("check");
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let (wi, wn, from, total, secs) = (n(3), n(4), n(5), n(6), n(7));
            let cell = std::fs::OpenOptions::new().write(true).open(&args[8]).expect("cell");
            on_big_stack(move || worker(ck, sub, wi, wn, from, total, cell, Instant::now() + Duration::from_secs(secs)));
            0
        }
        Some("one") => {
            die_with_parent();
            limit_mem(7 << 29);
            limit_cpu(args.get(4).and_then(|x| x.parse().ok()).unwrap_or(STALL_CPU));
            let ck = find(&args[2]).expect("check");
            let t = std::fs::read_to_string(&args[3]).unwrap_or_default();
            let c = Case { texts: json::get_strs(&t, "texts").unwrap_or_default(), args: json::get_strs(&t, "args").unwrap_or_default() };
            on_big_stack(move || match guarded(&ck, &c, &sub, &mut Cx::default()) { Ok(()) => 0, Err(m) => { print!("{}", m); 1 } })
        }
        Some("probe") => {
            die_with_parent();
            limit_mem(7 << 29);
            limit_cpu(STALL_CPU);
            let a = args.clone();
            // eight megabytes: the usual main thread
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || still_fails(&a[2], &a[3], &a[4], &sub)).unwrap().join().unwrap_or(true);
            r as i32
        }
        Some("gen") => {
            // print generated cases (development aid)
            let ck = find(&args[2]).expect("check");
            let n: u64 = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(10);
            on_big_stack(move || for i in 0..n {
                let mut s = Src::random(case_seed(seed(), ck.id, i));
                let c = (ck.gen)(&mut s);
                println!("{{\"texts\": {}, \"args\": {}}}", json::arr(&c.texts), json::arr(&c.args));
            });
            0
        }
        Some("ref") => {
            // reference verdict for each {"texts":[..],"args":[entry]} line on stdin (development aid)
            let mut t = String::new();
            let _ = std::io::stdin().read_to_string(&mut t);
            on_big_stack(move || for l in t.lines() {
                let (tx, ar) = (json::get_strs(l, "texts").unwrap_or_default(), json::get_strs(l, "args").unwrap_or_default());
                let e = entry_of(ar.first().map(|x| x.as_str()).unwrap_or("file"));
                let r = crate::common::reference(&tx[0], e);
                let v = match r.out { crate::refparse::Ref::Accept(_) => "accept".to_string(), crate::refparse::Ref::Reject(i) => format!("reject {}", i), crate::refparse::Ref::Unknown(w) => format!("unknown {}", w) };
                println!("{} subject={}", v, (sub.parse)(&tx[0], e).is_ok());
            });
            0
        }
        Some("show") => {
            let t = args[2].clone();
            let e = entry_of(args.get(3).map(|x| x.as_str()).unwrap_or("file"));
            on_big_stack(move || {
                let l = (sub.lex)(&t, 0);
                for t in &l.toks { println!("{}", t.show()) }
                println!("lexical error: {}", l.err);
                let r = crate::reflex::lex(&t);
                if r.toks != l.toks { println!("reference:"); for t in &r.toks { println!("  {}", t.show()) } println!("  err {:?} unknown {:?}", r.err, r.unknown); }
                match (sub.parse)(&t, e) { Ok(n) => println!("{}", n.dump()), Err(m) => println!("rejected: {}", m) }
                match crate::common::reference(&t, e).out {
                    crate::refparse::Ref::Accept(n) => println!("reference: {}", n.dump()),
                    crate::refparse::Ref::Reject(i) => println!("reference rejects at token {}", i),
                    crate::refparse::Ref::Unknown(w) => println!("reference: unknown: {}", w),
                }
            });
            0
        }
        Some("list") => { for c in checks { println!("{}", c.id) } 0 }
        Some(id) => {
            let Some(ck) = find(id) else { eprintln!("no check {}", id); return 2 };
            if args.get(2).map(|x| x == "--replay").unwrap_or(false) {
                let t = std::fs::read_to_string(&args[3]).unwrap_or_default();
                let c = Case { texts: json::get_strs(&t, "texts").unwrap_or_default(), args: json::get_strs(&t, "args").unwrap_or_default() };
                if let Some(w) = confirm_death(&ck, &c, &root, STALL_CPU) { println!("{}", w); println!("VIOLATION property={} replay={}", ck.id, args[3]); return 1 }
                let p = args[3].clone();
                return on_big_stack(move || match guarded(&ck, &c, &sub, &mut Cx { verbose: true, ..Default::default() }) {
                    Ok(()) => { println!("property={} holds on {}", ck.id, p); 0 }
                    Err(m) => { println!("{}", m); println!("VIOLATION property={} replay={}", ck.id, p); 1 }
                });
            }
            parent(ck, sub, &root)
        }
        None => { eprintln!("usage: pcr-run <property> [--replay FILE]"); 2 }
    }
}

fn parent(ck: Check, sub: Subject, root: &str) -> i32 {
    let t0 = Instant::now();
    let scale = if thorough() { 20 } else { 1 };
    let fixed = fixed_of(&ck);
    let (ncorpus, nenum) = (fixed.list.len(), fixed.enumerated);
    let enumeration = fixed.plan.describe();
    drop(fixed);
    let total = std::env::var("VERIF_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(ncorpus as u64 + nenum + ck.cases * scale);
    let secs = if thorough() { 5400 } else { 240 };
    let known: Vec<Finding> = findings(root).into_iter().filter(|f| f.prop == ck.id).collect();

    // listed findings
    for f in &known {
        let fails = Command::new(std::env::current_exe().unwrap()).args(["probe", &f.expect, &f.entry, &f.input]).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| !s.success()).unwrap_or(false);
        if fails { println!("KNOWN-FINDING: property={} {} ({})", ck.id, f.what, f.key) }
    }

    let mut viol: Option<(Case, String, String)> = None;
    let wn = 8u64;
    let cellp = std::env::temp_dir().join(format!("pcr-cell-{}-{}", ck.id, std::process::id()));
    std::fs::write(&cellp, vec![0xffu8; 8 * wn as usize]).expect("cell file");
    let mut from = vec![0u64; wn as usize];
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut timed_out = false;
    let mut broken: Option<String> = None;
    let mut skipped_deaths = 0;
    let mut todo: Vec<u64> = if viol.is_some() { vec![] } else { (0..wn).collect() };
    while !todo.is_empty() && viol.is_none() && broken.is_none() {
        let mut kids: Vec<(u64, std::process::Child, std::thread::JoinHandle<String>, u64, u64)> = vec![];
        for wi in todo.drain(..) {
            let mut ch = Command::new(std::env::current_exe().unwrap())
                .args(["worker", ck.id, &wi.to_string(), &wn.to_string(), &from[wi as usize].to_string(), &total.to_string(), &secs.to_string()]).arg(&cellp)
                .stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("worker");
            let mut so = ch.stdout.take().unwrap();
            let h = std::thread::spawn(move || { let mut b = vec![]; let _ = so.read_to_end(&mut b); String::from_utf8_lossy(&b).into_owned() });
            kids.push((wi, ch, h, u64::MAX, 0));
        }
        let cells = |wi: u64| -> u64 { let b = std::fs::read(&cellp).unwrap_or_default(); b.get(wi as usize * 8..wi as usize * 8 + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(u64::MAX) };
        let mut fails: Vec<(u64, Case, String)> = vec![];
        let mut dead: Vec<(u64, u64)> = vec![];
        let mut stop_at: Option<Instant> = None;
        while !kids.is_empty() {
            std::thread::sleep(Duration::from_millis(20));
            let mut rest = vec![];
            for (wi, mut ch, h, mut last, mut since) in kids {
                match ch.try_wait() {
                    Ok(Some(st)) => {
                        let out = h.join().unwrap_or_default();
                        let mut done = false;
                        for l in out.lines() {
                            if let Some(r) = l.strip_prefix("F ") {
                                done = true;
                                let (i, j) = r.split_once(' ').unwrap_or(("0", ""));
                                let c = Case { texts: json::get_strs(j, "texts").unwrap_or_default(), args: json::get_strs(j, "args").unwrap_or_default() };
                                let m = json::get_strs(j, "message").and_then(|x| x.into_iter().next()).unwrap_or_default();
                                fails.push((i.parse().unwrap_or(0), c, m));
                            } else if let Some(r) = l.strip_prefix("D ") {
                                done = true;
                                let mut w = r.split(' ');
                                evals += w.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                                if w.next() == Some("1") { timed_out = true }
                                w.next();
                                for x in w { if let Ok(v) = u64::from_str_radix(x, 16) { hashes.insert(v); } }
                            } else if let Some(r) = l.strip_prefix("T ") {
                                if let Some((n, t)) = r.split_once(' ') { *tags.entry(t.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0) }
                            } else if let Some(r) = l.strip_prefix("S ") {
                                if let Some((_, t)) = r.split_once(' ') { if let Some((s, _)) = json::parse_str(t) { if samples.len() < 12 { samples.push(s) } } }
                            }
                        }
                        if st.code() == Some(3) { broken = Some("internal error of the harness".into()) }
                        else if !done { let c = cells(wi); if c == u64::MAX { broken = Some(format!("worker ended early: {:?}", st)) } else { dead.push((wi, c)) } }
                    }
                    _ => {
                        let c = cells(wi);
                        let ticks = cpu_ticks(ch.id());
                        if c != last { last = c; since = ticks }
                        // a worker that has spent long on one case (shrinking prints a line at its end, so it is given more)
                        if ticks.saturating_sub(since) > 100 * (STALL_CPU + 15) { let _ = ch.kill(); }
                        // a failure elsewhere: stop the others soon
                        if let Some(t) = stop_at { if Instant::now() > t { let _ = ch.kill(); } }
                        rest.push((wi, ch, h, last, since));
                    }
                }
            }
            if !fails.is_empty() && stop_at.is_none() { stop_at = Some(Instant::now() + Duration::from_secs(!unshrunk() as u64)) }
            kids = rest;
        }
        if !fails.is_empty() {
            fails.sort_by_key(|f| (f.1.texts.iter().map(|t| t.len()).sum::<usize>(), f.0));
            fails.retain(|f| !known.iter().any(|k| f.1.texts.first() == Some(&k.input)));
            if let Some((i, c, m)) = fails.into_iter().next() { viol = Some((c, m, format!("s{}-{}", seed(), i))) }
            break;
        }
        for (wi, idx) in dead {
            let ckc = ck;
            let c = on_big_stack(move || case_at(&ckc, &fixed_of(&ckc), seed(), idx).0);
            match confirm_death(&ck, &c, root, STALL_CPU) {
                Some(why) => { let (c, why) = shrink_death(&ck, c, why, root); viol = Some((c, why, format!("s{}-{}", seed(), idx))); break }
                None => { skipped_deaths += 1; if skipped_deaths > 20 { broken = Some("workers keep dying without a confirmed cause".into()) } from[wi as usize] = idx + 1; todo.push(wi) }
            }
        }
    }
    let _ = std::fs::remove_file(&cellp);
    let wall = t0.elapsed().as_secs_f64();
    let nviol = viol.is_some() as u32;
    let tagj: Vec<String> = tags.iter().map(|(k, v)| format!("{}: {}", json::esc(k), v)).collect();
    if samples.is_empty() { if let Some((c, _, _)) = &viol { samples.push(show(c)) } }
    let ev = format!("{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n      {}\n    ],\n    \"fixed_cases\": {},\n    \"enumerated_cases\": {},\n    \"enumerated\": {},\n    \"planned_cases\": {},\n    \"stopped_by_time\": {},\n    \"unconfirmed_worker_deaths\": {},\n    \"observed\": {{{}}}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        ck.id, if thorough() { "thorough" } else { "quick" }, seed(), evals, hashes.len(), json::esc(ck.rule),
        samples.iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(",\n      "), ncorpus, nenum, json::arr(&enumeration), total, timed_out, skipped_deaths, tagj.join(", "),
        json::arr(&["The reference tokenizer and parser in /verif/harness/core state the language (cross-checked against CPython during development).".to_string(),
            "Inputs in the areas listed in known_findings.txt and under 'not claimed' in DESIGN.md are generated seldom or not judged.".to_string()]),
        wall, nviol);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if std::env::var("VERIF_NO_EVIDENCE").is_err() { std::fs::write(format!("{}/evidence/{}.json", root, ck.id), ev).expect("evidence"); }
    if let Some(b) = broken { println!("ERROR property={} {}", ck.id, b); return 2 }
    if let Some((c, m, tag)) = viol {
        let p = write_replay(root, &ck, &c, &m, &tag);
        for (i, t) in c.texts.iter().enumerate() { println!("input {}: {}", i, json::esc(t)) }
        if !c.args.is_empty() { println!("with: {}", c.args.join(" ")) }
        println!("{}", m);
        println!("VIOLATION property={} replay={}", ck.id, p);
        return 1;
    }
    if !timed_out && std::env::var("VERIF_CASES").is_err() {
        for t in ck.must_see { if !tags.contains_key(*t) { println!("ERROR property={} the generator never produced: {}", ck.id, t); return 2 } }
    }
    println!("property={} held on {} cases ({} distinct non-trivial) in {:.1} s", ck.id, evals, hashes.len(), wall);
    0
}
fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let r = s.rsplit_once(')').map(|x| x.1).unwrap_or("");
    let v: Vec<&str> = r.split_whitespace().collect();
    v.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + v.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

//! Case enumeration inside a worker process, and the driver that shards the cases over worker processes.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{ Path, PathBuf };
use std::process::{ Child, Command, Stdio };

use crate::{ alloc, sys };

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

/// What went wrong; `key` identifies the failing input for the known-findings file.
pub struct Fail { pub key: String, pub msg: String }

impl From<String> for Fail { fn from(msg: String) -> Fail { Fail { key: String::new(), msg } } }
impl From<&str>   for Fail { fn from(msg: &str)   -> Fail { Fail { key: String::new(), msg: msg.to_string() } } }

pub type Res = Result<(), Fail>;

#[derive(Default)]
pub struct Stats {
    pub cases:       u64,   // cases run by this worker
    pub executions:  u64,   // executions of the real code
    pub transitions: u64,   // operations or hook actions applied
    pub states:      HashSet<u64>,
    pub states_over: u64,   // states seen after the set was full
    pub samples:     Vec<String>,
    pub outcomes:    HashSet<u64>,
    pub families:    Vec<(String, u64)>
}

pub struct Ctx {
    pub tier:   Tier,
    pub seed:   u64,
    shard:      u64,
    nshards:    u64,
    only:       Option<u64>,
    describe:   bool,
    verify_all: bool,
    idx:        u64,
    pub st:     Stats,
    progress:   *mut u64,          // [0]: current case, [1]: heartbeat
    deadline:   u64,
    pub capped: bool,
    pub fails:  Vec<(u64, String, Fail)>,
    known:      Vec<String>        // keys of the known findings, which do not end the exploration
}

pub const MAX_STATES: usize = 1_500_000;

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &b in bytes { h ^= b as u64; h = h.wrapping_mul(0x0100_0000_01b3); }
    h ^= h >> 29; h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9); h ^ (h >> 32)
}

impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }

    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.quick() { quick } else { thorough } }

    pub fn family(&mut self, name: &str) { self.st.families.push((name.to_string(), self.idx)); }

    pub fn state(&mut self, fingerprint: u64) {
        if self.st.states.len() < MAX_STATES { self.st.states.insert(fingerprint); } else { self.st.states_over += 1; }
    }

    pub fn state_str(&mut self, s: &str) { self.state(fnv(s.as_bytes())); }

    pub fn outcome(&mut self, s: &str) { if self.st.outcomes.len() < 100_000 { self.st.outcomes.insert(fnv(s.as_bytes())); } }

    /// Whether the worker still has to run anything at all.
    pub fn done(&mut self) -> bool {
        if let Some(only) = self.only { if self.idx > only { return true; } }
        if self.fails.iter().filter(|f| !self.known.contains(&f.2.key)).count() >= 3 { return true; }
        if self.idx & 0x3F == 0 && self.only.is_none() && sys::real_ns() > self.deadline { self.capped = true; }
        self.capped
    }

    /// Skips a block of cases if none of them is to be run by this worker (cheap positioning).
    pub fn skip(&mut self, n: u64) { self.idx += n; }

    /// Enumerates one case; runs it if it belongs to this worker.
    pub fn case(&mut self, label: impl Fn() -> String, body: impl FnOnce(&mut Ctx) -> Res) {
        let idx: u64 = self.idx;
        self.idx += 1;
        match self.only {
            Some(only) => if idx != only { return },
            None       => if idx % self.nshards != self.shard || self.done() { return }
        }
        unsafe {
            self.progress.write_volatile(idx);
            self.progress.add(1).write_volatile(self.progress.add(1).read_volatile() + 1);
        }
        if self.describe {
            let _ = fs::write(scratch_file("label"), label());
            return;
        }
        self.st.cases += 1;
        if self.st.samples.len() < 4 || (self.st.cases % 5003 == 0 && self.st.samples.len() < 12) { self.st.samples.push(label()); }

        LAST_PANIC.with(|p| p.borrow_mut().clear());
        let res: Result<Res, _> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(self)));
        match res {
            Ok(Ok(()))    => (),
            Ok(Err(fail)) => if !(self.known.contains(&fail.key) && self.fails.iter().any(|f| f.2.key == fail.key)) { self.fails.push((idx, label(), fail)) },
            Err(_)        => {
                let msg: String = LAST_PANIC.with(|p| p.borrow().clone());
                self.fails.push((idx, label(), Fail { key: "panic".into(), msg: format!("unexpected panic: {msg}") }));
            }
        }
        if self.verify_all || self.only.is_some() || self.st.cases % 256 == 0 { alloc::verify(); }
    }

    /// Signals life from inside a long case.
    pub fn beat(&self) { unsafe { self.progress.add(1).write_volatile(self.progress.add(1).read_volatile() + 1); } }
}

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let mut s: String = String::new();
        let _ = write!(s, "{info}");
        let _ = LAST_PANIC.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { if p.is_empty() { *p = s; } });
    }));
}

fn scratch_file(name: &str) -> PathBuf { PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| ".".into())).join(name) }

fn json(s: &str) -> String {
    let mut o: String = String::from("\"");
    for c in s.chars() {
        match c {
            '"'  => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => { let _ = write!(o, "\\u{:04x}", c as u32); },
            c => o.push(c)
        }
    }
    o.push('"');
    o
}

fn map_progress(path: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f: fs::File = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
    f.set_len(4096).expect("progress file");
    unsafe {
        let p: *mut libc::c_void = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}

/*
 * Worker
 */

pub struct WorkerArgs {
    pub tier: Tier, pub seed: u64, pub shard: u64, pub nshards: u64, pub only: Option<u64>,
    pub describe: bool, pub verify_all: bool, pub budget_s: u64
}

pub fn worker(a: WorkerArgs, body: impl FnOnce(&mut Ctx) + Send + 'static) -> i32 {
    unsafe {
        let lim: libc::rlimit = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim: libc::rlimit = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    install_panic_hook();
    sys::use_virtual_clock();
    alloc::enable();
    let handle = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let progress: *mut u64 = map_progress(&scratch_file(&format!("progress.{}", a.shard)));
        unsafe { progress.write_volatile(u64::MAX); }
        let mut ctx: Ctx = Ctx {
            tier: a.tier, seed: a.seed, shard: a.shard, nshards: a.nshards, only: a.only, describe: a.describe, verify_all: a.verify_all,
            idx: 0, st: Stats::default(), progress, deadline: sys::real_ns() + a.budget_s * 1_000_000_000, capped: false, fails: Vec::new(), known: std::env::var("MC_KNOWN").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
        };
        body(&mut ctx);
        let total: u64 = ctx.idx;
        let mut out: String = String::new();
        let s: &Stats = &ctx.st;
        let _ = writeln!(out, "total {total}\ncases {}\nexec {}\ntrans {}\nover {}\noutcomes {}\ncapped {}", s.cases, s.executions, s.transitions, s.states_over, s.outcomes.len(), ctx.capped as u8);
        for (n, at) in &s.families { let _ = writeln!(out, "family {at} {n}"); }
        for l in &s.samples { let _ = writeln!(out, "sample {}", l.replace('\n', "\\n")); }
        for (i, l, f) in &ctx.fails { let _ = writeln!(out, "fail {i}\t{}\t{}\t{}", f.key.replace(['\n', '\t'], " "), l.replace('\n', "\\n").replace('\t', " "), f.msg.replace('\n', "\\n").replace('\t', " ")); }
        let mut bytes: Vec<u8> = Vec::with_capacity(s.states.len() * 8);
        for h in &s.states { bytes.extend_from_slice(&h.to_le_bytes()); }
        fs::write(scratch_file(&format!("states.{}", a.shard)), bytes).expect("states");
        fs::write(scratch_file(&format!("stats.{}", a.shard)), out).expect("stats");
    }).expect("thread");
    // Leave without running destructors: trees and scenes under test may be in any condition.
    let code: i32 = if handle.join().is_ok() { 0 } else { 3 };
    unsafe { libc::_exit(code) }
}

/*
 * Driver
 */

pub struct Meta {
    pub id:          &'static str,
    pub rule:        &'static str,
    pub bounds:      fn(Tier) -> String,
    pub assumptions: &'static [&'static str]
}

enum Exit { Done, Crash(String), Hang }

struct Drv { id: String, tier: Tier, seed: u64, scratch: PathBuf, nshards: u64, budget: u64, known: Vec<String> }

impl Drv {
    fn spawn(&self, shard: u64, extra: &[String]) -> Child {
        let mut c: Command = Command::new(std::env::current_exe().expect("exe"));
        c.arg("worker").arg(&self.id)
            .arg(if self.tier == Tier::Quick { "quick" } else { "thorough" })
            .arg(self.seed.to_string()).arg(shard.to_string()).arg(self.nshards.to_string()).arg(self.budget.to_string())
            .args(extra)
            .env("MC_SCRATCH", &self.scratch).env("MC_KNOWN", self.known.join("\n"))
            .stdin(Stdio::null()).stdout(Stdio::null())
            .stderr(fs::File::create(self.scratch.join(format!("stderr.{shard}"))).expect("stderr"));
        c.spawn().expect("spawn")
    }

    fn stderr(&self, shard: u64) -> String {
        let s: Vec<u8> = fs::read(self.scratch.join(format!("stderr.{shard}"))).unwrap_or_default();
        let s: String = String::from_utf8_lossy(&s).to_string();
        s.lines().rev().take(3).collect::<Vec<_>>().join(" / ")
    }

    /// Waits for the workers; a worker without a heartbeat for `patience` seconds of its own CPU time is hung.
    fn wait(&self, mut kids: Vec<(u64, Child)>, patience: f64) -> Vec<(u64, Exit, u64)> {
        let mut out: Vec<(u64, Exit, u64)> = Vec::new();
        let maps: Vec<(u64, *mut u64)> = kids.iter().map(|(s, _)| (*s, map_progress(&self.scratch.join(format!("progress.{s}"))))).collect();
        let mut last: Vec<(u64, f64)> = vec![(0, 0.0); maps.len()];
        while !kids.is_empty() {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let mut left: Vec<(u64, Child)> = Vec::new();
            for (s, mut k) in kids {
                let mi: usize = maps.iter().position(|(x, _)| *x == s).unwrap();
                let (cur, beat): (u64, u64) = unsafe { (maps[mi].1.read_volatile(), maps[mi].1.add(1).read_volatile()) };
                match k.try_wait().expect("wait") {
                    Some(st) => {
                        let e: Exit = if st.code() == Some(0) { Exit::Done } else {
                            Exit::Crash(match st.signal() { Some(n) => format!("killed by signal {n} ({})", self.stderr(s)), None => format!("exit code {:?} ({})", st.code(), self.stderr(s)) })
                        };
                        out.push((s, e, cur));
                    },
                    None => {
                        let cpu: f64 = cpu_seconds(k.id());
                        if beat != last[mi].0 { last[mi] = (beat, cpu); }
                        if cpu - last[mi].1 > patience && cur != u64::MAX {
                            let _ = k.kill(); let _ = k.wait();
                            out.push((s, Exit::Hang, cur));
                        } else {
                            left.push((s, k));
                        }
                    }
                }
            }
            kids = left;
        }
        out
    }

    fn label(&self, idx: u64) -> String {
        let _ = fs::remove_file(self.scratch.join("label"));
        let k: Child = self.spawn(900, &[format!("only={idx}"), "describe".into()]);
        self.wait(vec![(900, k)], 60.0);
        fs::read_to_string(self.scratch.join("label")).unwrap_or_else(|_| "?".into())
    }
}

fn cpu_seconds(pid: u32) -> f64 {
    let s: String = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    if f.len() < 13 { return 0.0; }
    let ticks: f64 = f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0);
    ticks / 100.0
}

struct Found { idx: u64, key: String, label: String, msg: String }

pub struct KnownFindings { pub keys: Vec<(String, String)> }   // (key, description)

pub fn known_findings(verif: &Path, id: &str) -> KnownFindings {
    let mut keys: Vec<(String, String)> = Vec::new();
    for l in fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
            let (k, d) = r.split_once(' ').unwrap_or((r, ""));
            keys.push((k.to_string(), d.to_string()));
        }
    }
    KnownFindings { keys }
}

pub fn drive(m: &Meta, tier: Tier, seed: u64, verif: &Path, replay: Option<u64>) -> i32 {
    let t0: u64 = sys::real_ns();
    let scratch: PathBuf = verif.join("target").join(format!("run-{}-{}", m.id, std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch");
    let cpus:  u64 = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let drv:   Drv = Drv { id: m.id.into(), tier, seed, scratch: scratch.clone(), nshards: cpus, budget: if tier == Tier::Quick { 420 } else { 7200 }, known: known_findings(verif, m.id).keys.into_iter().map(|k| k.0).collect() };
    let mut found:  Vec<Found>  = Vec::new();
    let mut errors: Vec<String> = Vec::new();

    let confirm = |drv: &Drv, idx: u64, how: &str| -> Option<Found> {
        let k: Child = drv.spawn(901, &[format!("only={idx}")]);
        match drv.wait(vec![(901, k)], 60.0).pop() {
            Some((_, Exit::Done, _)) => read_fails(&drv.scratch, 901).pop().map(|(idx, key, label, msg)| Found { idx, key, label, msg }),
            Some((_, Exit::Crash(c), _)) => Some(Found { idx, key: "crash".into(), label: drv.label(idx), msg: format!("the process crashed: {c}") }),
            Some((_, Exit::Hang, _))     => Some(Found { idx, key: "hang".into(), label: drv.label(idx), msg: format!("no end ({how})") }),
            None => None
        }
    };

    let results: Vec<(u64, Exit, u64)> = if let Some(idx) = replay {
        if let Some(f) = confirm(&drv, idx, "replay") { found.push(f); }
        Vec::new()
    } else {
        drv.wait((0..cpus).map(|s| (s, drv.spawn(s, &[]))).collect(), 40.0)
    };

    let mut sick: Vec<(u64, String, u64)> = Vec::new();
    for (shard, exit, cur) in results {
        match exit {
            Exit::Done => for (idx, key, label, msg) in read_fails(&scratch, shard) {
                // A reported violation has to reproduce in a process of its own.
                if found.iter().filter(|f| !drv.known.contains(&f.key)).count() >= 6 { break; }
                if drv.known.contains(&key) && found.iter().any(|f| f.key == key) { continue; }
                match confirm(&drv, idx, "violation") {
                    Some(f) => found.push(f),
                    None    => match rerun(&drv, shard) {
                        Some(f) => found.push(f),
                        None    => errors.push(format!("case {idx} failed once and not again: {key} {label}: {msg}"))
                    }
                }
            },
            Exit::Crash(c) => sick.push((shard, c, cur)),
            Exit::Hang     => sick.push((shard, "hang".into(), cur))
        }
    }
    for (shard, why, cur) in sick {
        if !found.is_empty() { break; }
        if cur != u64::MAX && let Some(f) = confirm(&drv, cur, &why) { found.push(f); continue; }
        match rerun(&drv, shard) {
            Some(f) => found.push(f),
            None    => errors.push(format!("worker {shard} died once and not again: {why}"))
        }
    }

    // Aggregate.
    let (mut cases, mut exec, mut trans, mut over, mut total, mut capped, mut outcomes): (u64, u64, u64, u64, u64, bool, u64) = Default::default();
    let mut states:   HashSet<u64> = HashSet::new();
    let mut samples:  Vec<String>  = Vec::new();
    let mut families: Vec<(String, u64)> = Vec::new();
    for s in 0..cpus {
        for l in fs::read_to_string(scratch.join(format!("stats.{s}"))).unwrap_or_default().lines() {
            let (k, v): (&str, &str) = l.split_once(' ').unwrap_or((l, ""));
            let n = || v.parse::<u64>().unwrap_or(0);
            match k {
                "total" => total = total.max(n()), "cases" => cases += n(), "exec" => exec += n(), "trans" => trans += n(),
                "over" => over += n(), "capped" => capped |= n() == 1, "outcomes" => outcomes = outcomes.max(n()),
                "sample" => if samples.len() < 24 { samples.push(v.to_string()) },
                "family" => if s == 0 { let (a, b) = v.split_once(' ').unwrap(); families.push((b.to_string(), a.parse().unwrap())) },
                _ => ()
            }
        }
        for c in fs::read(scratch.join(format!("states.{s}"))).unwrap_or_default().chunks_exact(8) { states.insert(u64::from_le_bytes(c.try_into().unwrap())); }
    }
    let _ = fs::remove_dir_all(&scratch);

    let known: KnownFindings = known_findings(verif, m.id);
    let mut violations: Vec<Found> = Vec::new();
    let mut known_hit:  Vec<String> = Vec::new();
    for f in found {
        match known.keys.iter().find(|(k, _)| !f.key.is_empty() && *k == f.key) {
            Some((k, d)) => if !known_hit.contains(k) { println!("KNOWN-FINDING: property={} {d}", m.id); known_hit.push(k.clone()); },
            None => violations.push(f)
        }
    }

    let wall: f64 = (sys::real_ns() - t0) as f64 / 1e9;
    if replay.is_none() {
        let mut fam: String = String::new();
        for (i, (n, at)) in families.iter().enumerate() {
            let end: u64 = families.get(i + 1).map(|f| f.1).unwrap_or(total);
            let _ = write!(fam, "{}{}: {}", if i > 0 { ", " } else { "" }, json(n), end - at);
        }
        let sample_json: String = samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
        let assume_json: String = m.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
        let ev: String = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"rule\": {},\n  \"bounds\": {},\n  \"cases\": {},\n  \"states\": {},\n  \"states_beyond_table\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"cases_by_family\": {{ {} }},\n  \"exhaustive\": {},\n  \"capped\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json(m.id), if tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" }, seed, json(m.rule), json(&(m.bounds)(tier)), cases, states.len(), over, trans, exec, outcomes, fam,
            !capped && errors.is_empty() && violations.is_empty(), capped, sample_json, assume_json, wall, violations.len());
        let _ = fs::create_dir_all(verif.join("evidence"));
        fs::write(verif.join("evidence").join(format!("{}.json", m.id)), ev).expect("evidence");
    }

    println!("{}: {} cases ({} enumerated), {} executions, {} transitions, {} states{}, {:.1} s", m.id, cases, total, exec, trans, states.len(), if capped { ", CAPPED" } else { "" }, wall);
    if let Some(v) = violations.first() {
        let dir: PathBuf = verif.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path: PathBuf = dir.join(format!("{}.txt", m.id));
        let mut f: fs::File = fs::File::create(&path).expect("replay");
        for v in &violations {
            let _ = writeln!(f, "case {}\nkey {}\n{}\n--> {}\n", v.idx, v.key, v.label, v.msg.replace("\\n", "\n"));
        }
        let _ = writeln!(f, "Run again with: ./check.sh {} --replay {}   (VERIF_TIER={})", m.id, v.idx, if tier == Tier::Quick { "quick" } else { "thorough" });
        println!("case {}: {}", v.idx, v.label);
        println!("  {}", v.msg.replace("\\n", "\n  "));
        println!("VIOLATION property={} replay={}", m.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors { println!("ERROR {e}"); }
        return 2;
    }
    if cases == 0 && replay.is_none() { println!("ERROR nothing was explored"); return 2; }
    0
}

/// Runs a whole shard again with every check on after every case.
fn rerun(drv: &Drv, shard: u64) -> Option<Found> {
    let k: Child = drv.spawn(shard, &["verify".into()]);
    match drv.wait(vec![(shard, k)], 60.0).pop() {
        Some((_, Exit::Done, _))       => read_fails(&drv.scratch, shard).into_iter().next().map(|(idx, key, label, msg)| Found { idx, key, label: format!("{label} [after the earlier cases of shard {shard}]"), msg }),
        Some((_, Exit::Crash(c), idx)) => Some(Found { idx, key: "crash".into(), label: drv.label(idx), msg: format!("the process crashed: {c} [after the earlier cases of shard {shard}]") }),
        Some((_, Exit::Hang, idx))     => Some(Found { idx, key: "hang".into(), label: drv.label(idx), msg: format!("no end [shard {shard}]") }),
        None => None
    }
}

fn read_fails(scratch: &Path, shard: u64) -> Vec<(u64, String, String, String)> {
    let mut out: Vec<(u64, String, String, String)> = Vec::new();
    for l in fs::read_to_string(scratch.join(format!("stats.{shard}"))).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("fail ") {
            let p: Vec<&str> = r.splitn(4, '\t').collect();
            if p.len() == 4 { out.push((p[0].parse().unwrap_or(0), p[1].into(), p[2].replace("\\n", "\n"), p[3].into())); }
        }
    }
    out
}

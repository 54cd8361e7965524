//! Check runner: shards numbered cases over forked workers, turns crashes and hangs of the library into
//! violations, counts what was covered and writes the evidence file.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const MAXW: usize = 16;
const HANG_SECS: u64 = 60;
const MAX_VIOL_PER_WORKER: usize = 8;

#[repr(C)]
struct Slot {
    in_lib: AtomicBool,
    tick: AtomicU64,
    case: AtomicU64,
    label: [u8; 512],
    done: AtomicBool,
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    slots: [Slot; MAXW],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    worker: usize,
    only: Option<u64>,
    shared: *mut Shared,
    claimed: u64,
    idx: u64,
    out: std::fs::File,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    nodes: u64,
    cases: u64,
    outcomes: BTreeMap<String, u64>,
    nviol: usize,
    nsample: usize,
    capped: Vec<String>,
    label: String,
    pub verbose: bool,
}

/// A stable 64 bit hash.
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 96 {
        return format!("{}..({} bytes)", hex(&b[..48]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join("")
}

pub struct Panicked(pub String);

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push(' '),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn oneline(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

impl Ctx {
    fn slot(&self) -> &'static mut Slot {
        unsafe { &mut (*self.shared).slots[self.worker] }
    }
    fn shared(&self) -> &'static Shared {
        unsafe { &*self.shared }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Pick the value for the tier.
    pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    /// Run one numbered case if it belongs to this worker.
    pub fn case(&mut self, label: impl FnOnce() -> String, body: impl FnOnce(&mut Ctx)) {
        let i = self.idx;
        self.idx += 1;
        if let Some(o) = self.only {
            if o != i {
                return;
            }
        } else {
            if self.claimed < i {
                self.claimed = self.shared().next.fetch_add(1, SeqCst);
            }
            if self.claimed != i || self.shared().stop.load(SeqCst) {
                return;
            }
        }
        self.label = label();
        let slot = self.slot();
        let b = self.label.as_bytes();
        let n = b.len().min(511);
        slot.label[..n].copy_from_slice(&b[..n]);
        slot.label[n] = 0;
        slot.case.store(i, SeqCst);
        slot.tick.fetch_add(1, SeqCst);
        if self.verbose {
            eprintln!("case {i}: {}", self.label);
        }
        let t0 = Instant::now();
        body(self);
        if t0.elapsed().as_secs() >= 2 && std::env::var("MC_TIMES").is_ok() {
            eprintln!("case {i} took {:.1} s: {}", t0.elapsed().as_secs_f64(), self.label);
        }
        self.cases += 1;
        if self.only.is_none() {
            self.claimed = self.shared().next.fetch_add(1, SeqCst);
        }
    }
    /// Call into the library. Panics are caught and handed back; crashes and hangs are seen by the parent.
    pub fn lib<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, Panicked> {
        let slot = self.slot();
        slot.tick.fetch_add(1, SeqCst);
        slot.in_lib.store(true, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        slot.in_lib.store(false, SeqCst);
        self.transitions += 1;
        match r {
            Ok(v) => Ok(v),
            Err(p) => {
                let msg = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                if msg.starts_with("harness:") {
                    std::panic::resume_unwind(p);
                }
                Err(Panicked(msg))
            }
        }
    }
    /// Keep the watchdog quiet during long work of our own.
    pub fn tick(&self) {
        self.slot().tick.fetch_add(1, SeqCst);
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        self.states.insert(h64(t))
    }
    pub fn transitions(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete execution of the implementation compared against the model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn nodes(&mut self, st: crate::choose::ExploreStats) {
        self.nodes += st.nodes;
        if st.capped {
            let l = format!("execution cap hit in case {}", self.label);
            self.capped.push(l);
        }
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.nsample < 3 {
            self.nsample += 1;
            let s = f();
            let _ = writeln!(self.out, "S\t{}", oneline(&s));
        }
    }
    /// `key` identifies the specific failing input (for the known-findings file).
    pub fn violation(&mut self, key: &str, desc: impl FnOnce() -> String) {
        let d = desc();
        if self.verbose {
            eprintln!("VIOLATION [{key}] {d}");
        }
        let _ = writeln!(
            self.out,
            "V\t{}\t{}\t{}\t{}",
            self.idx - 1,
            oneline(key),
            oneline(&self.label),
            oneline(&d)
        );
        self.nviol += 1;
        if self.nviol >= MAX_VIOL_PER_WORKER {
            let _ = self.out.flush();
            self.finish();
            self.slot().done.store(true, SeqCst);
            unsafe { libc::_exit(0) }
        }
    }
    fn finish(&mut self) {
        let o: Vec<String> = self.outcomes.iter().map(|(k, v)| format!("{}={v}", oneline(k))).collect();
        let _ = writeln!(
            self.out,
            "C\t{}\t{}\t{}\t{}\t{}\t{}",
            self.states.len(),
            self.transitions,
            self.traces,
            self.nodes,
            self.cases,
            o.join(";")
        );
        for c in &self.capped {
            let _ = writeln!(self.out, "X\t{}", oneline(c));
        }
        let _ = self.out.flush();
    }
}

pub struct Spec {
    pub id: &'static str,
    /// What a state and a transition are in this check.
    pub states_are: &'static str,
    pub bounds: fn(Tier) -> String,
    pub assumptions: &'static [&'static str],
    /// Outcomes that must have been seen, or the check proves nothing.
    pub require: &'static [&'static str],
    pub body: fn(&mut Ctx),
}

fn verif_dir() -> String {
    format!("{}/..", env!("CARGO_MANIFEST_DIR"))
}

struct Known {
    property: String,
    key: String,
    text: String,
}
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            // finding: property=C04 key=... | text
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(" key=")?;
            let (k, t) = rest.split_once(" | ")?;
            Some(Known { property: p.trim().into(), key: k.trim().into(), text: t.trim().into() })
        })
        .collect()
}

pub fn main(spec: Spec) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = match args.first().map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--only" => {
                only = args.get(i + 1).and_then(|s| s.parse().ok());
                workers = 1;
                i += 1;
            }
            "--workers" => {
                workers = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(workers);
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    };
    let mut pids = vec![];
    let mut rfds = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
            }
            if only.is_none() {
                std::panic::set_hook(Box::new(|i| {
                    let m = i.payload();
                    let s = m.downcast_ref::<String>().map(|s| s.as_str()).or(m.downcast_ref::<&str>().copied()).unwrap_or("");
                    if s.starts_with("harness:") {
                        eprintln!("{i}");
                    }
                }));
            }
            let mut ctx = Ctx {
                id: spec.id,
                tier,
                worker: w,
                only,
                shared,
                claimed: 0,
                idx: 0,
                out: unsafe { std::fs::File::from_raw_fd(fds[1]) },
                states: HashSet::new(),
                transitions: 0,
                traces: 0,
                nodes: 0,
                cases: 0,
                outcomes: BTreeMap::new(),
                nviol: 0,
                nsample: 0,
                capped: vec![],
                label: String::new(),
                verbose: only.is_some(),
            };
            ctx.claimed = ctx.shared().next.fetch_add(1, SeqCst);
            let body = spec.body;
            // a generous stack of known size, the same for every worker
            let r = std::thread::scope(|s| {
                let p = SendPtr(&mut ctx as *mut Ctx);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let p = p;
                        catch_unwind(AssertUnwindSafe(|| body(unsafe { &mut *p.0 }))).map_err(|p| {
                            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                        })
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            if let Err(m) = r {
                eprintln!("harness panic in case {} ({}): {m}", ctx.idx.wrapping_sub(1), ctx.label);
                unsafe { libc::_exit(3) }
            }
            ctx.finish();
            ctx.slot().done.store(true, SeqCst);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        pids.push(pid);
        rfds.push(fds[0]);
    }
    let readers: Vec<_> = rfds
        .into_iter()
        .map(|fd| {
            let f = unsafe { std::fs::File::from_raw_fd(fd) };
            std::thread::spawn(move || BufReader::new(f).lines().map_while(Result::ok).collect::<Vec<String>>())
        })
        .collect();
    // watch the workers
    let sh = unsafe { &*shared };
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers];
    let mut alive: Vec<bool> = vec![true; workers];
    let mut hung: Vec<bool> = vec![false; workers];
    let mut crash: Vec<Option<String>> = vec![None; workers];
    let mut harness_error = false;
    while alive.iter().any(|a| *a) {
        for w in 0..workers {
            if !alive[w] {
                continue;
            }
            let mut st = 0i32;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            if r == pids[w] {
                alive[w] = false;
                let slot = &sh.slots[w];
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && slot.done.load(SeqCst) {
                    continue;
                }
                let why = if hung[w] {
                    format!("no progress for {HANG_SECS} s inside one library call")
                } else if libc::WIFSIGNALED(st) {
                    format!("process ended by signal {}", libc::WTERMSIG(st))
                } else {
                    format!("process exited with status {}", libc::WEXITSTATUS(st))
                };
                if slot.in_lib.load(SeqCst) {
                    crash[w] = Some(why);
                    sh.stop.store(true, SeqCst);
                } else {
                    let n = slot.label.iter().position(|b| *b == 0).unwrap_or(0);
                    eprintln!(
                        "harness error: worker {w}: {why} (outside the library) in case {} {}",
                        slot.case.load(SeqCst),
                        String::from_utf8_lossy(&slot.label[..n])
                    );
                    harness_error = true;
                }
                continue;
            }
            let t = sh.slots[w].tick.load(SeqCst);
            if t != last[w].0 {
                last[w] = (t, Instant::now());
            } else if last[w].1.elapsed() > Duration::from_secs(HANG_SECS) && !hung[w] && sh.slots[w].in_lib.load(SeqCst) {
                hung[w] = true;
                unsafe { libc::kill(pids[w], libc::SIGKILL) };
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut viols: Vec<(u64, String, String, String)> = vec![];
    let (mut states, mut trans, mut traces, mut nodes, mut cases) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut capped: Vec<String> = vec![];
    for r in readers {
        for l in r.join().unwrap() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" if f.len() >= 5 => viols.push((f[1].parse().unwrap_or(0), f[2].into(), f[3].into(), f[4..].join(" "))),
                "S" => samples.push(f[1..].join(" ")),
                "X" => capped.push(f[1..].join(" ")),
                "C" if f.len() >= 7 => {
                    states += f[1].parse::<u64>().unwrap_or(0);
                    trans += f[2].parse::<u64>().unwrap_or(0);
                    traces += f[3].parse::<u64>().unwrap_or(0);
                    nodes += f[4].parse::<u64>().unwrap_or(0);
                    cases += f[5].parse::<u64>().unwrap_or(0);
                    for kv in f[6].split(';') {
                        if let Some((k, v)) = kv.rsplit_once('=') {
                            *outcomes.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for w in 0..workers {
        if let Some(why) = &crash[w] {
            let slot = &sh.slots[w];
            let n = slot.label.iter().position(|b| *b == 0).unwrap_or(0);
            let label = String::from_utf8_lossy(&slot.label[..n]).to_string();
            viols.push((slot.case.load(SeqCst), format!("crash:{label}"), label, why.clone()));
        }
    }
    viols.sort();
    let known = known();
    let mut new_viols = 0usize;
    let mut known_seen: Vec<String> = vec![];
    let rdir = format!("{}/replays", verif_dir());
    for (case, key, label, desc) in &viols {
        if let Some(k) = known.iter().find(|k| k.property == spec.id && k.key == *key) {
            let l = format!("KNOWN-FINDING: property={} {}", spec.id, k.text);
            if !known_seen.contains(&l) {
                println!("{l}");
                known_seen.push(l);
            }
            continue;
        }
        if new_viols < 12 {
            let _ = std::fs::create_dir_all(&rdir);
            let path = format!("{rdir}/{}-{new_viols}.txt", spec.id);
            let path = std::fs::canonicalize(&rdir).map(|d| format!("{}/{}-{new_viols}.txt", d.display(), spec.id)).unwrap_or(path);
            let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
            let _ = std::fs::write(
                &path,
                format!(
                    "property {}\ncase {case}: {label}\nkey {key}\n{desc}\n\nreplay: bash /verif/check.sh {} {tier_s} --only {case}\n",
                    spec.id, spec.id
                ),
            );
            println!("  case {case} [{label}] {desc}");
            println!("VIOLATION property={} replay={path}", spec.id);
        }
        new_viols += 1;
    }
    capped.sort();
    capped.dedup();
    let missing: Vec<&str> =
        spec.require.iter().copied().filter(|r| !outcomes.iter().any(|(k, v)| k == r && *v > 0)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let exhaustive = capped.is_empty() && new_viols == 0 && !harness_error && only.is_none();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    if only.is_none() {
        samples.truncate(8);
        let js = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
        let outc = outcomes.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", ");
        let assumptions: Vec<String> = spec.assumptions.iter().map(|s| s.to_string()).collect();
        let j = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{tier_s}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {trans},\n  \"traces_validated_against_impl\": {traces},\n  \"choice_tree_nodes\": {nodes},\n  \"cases\": {cases},\n  \"states_are\": \"{}\",\n  \"bounds\": \"{}\",\n  \"outcomes\": {{{outc}}},\n  \"caps_hit\": [{}],\n  \"samples\": [{}],\n  \"exhaustive\": {exhaustive}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {new_viols}\n}}\n",
            spec.id,
            esc(spec.states_are),
            esc(&(spec.bounds)(tier)),
            js(&capped),
            js(&samples),
            js(&assumptions),
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let p = format!("{}/evidence/{}.json", verif_dir(), spec.id);
        if let Err(e) = std::fs::write(&p, j) {
            eprintln!("cannot write {p}: {e}");
            harness_error = true;
        }
    }
    println!(
        "{} {tier_s}: cases={cases} states={states} transitions={trans} traces={traces} nodes={nodes} exhaustive={exhaustive} violations={new_viols} wall={wall:.1}s outcomes: {}",
        spec.id,
        outcomes.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    if new_viols > 0 {
        std::process::exit(1);
    }
    if harness_error {
        std::process::exit(2);
    }
    if !missing.is_empty() && only.is_none() {
        eprintln!("vacuous run: outcomes never seen: {missing:?}");
        std::process::exit(2);
    }
}

struct SendPtr(*mut Ctx);
unsafe impl Send for SendPtr {}

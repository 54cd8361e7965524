//! Deviation-bounded exhaustive exploration of choice sequences (stateless model checking).
//!
//! A harness body calls `choose(n)` at each point where the environment (type, data, visitor,
//! scheduler) may answer in several ways. Option 0 is the default; any other option costs one
//! deviation. `free(n)` points are enumerated in full at no cost. `explore(bound, body)` runs the
//! body once for every choice sequence whose total cost is at most `bound`.
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point {
    pub n: u32,
    pub taken: u32,
    pub free: bool,
}

#[derive(Default, Debug)]
pub struct Inner {
    script: Vec<u32>,
    pub log: Vec<Point>,
    stop: bool,
}

/// A cheap handle: the same chooser is shared by all nested visitors of one execution.
#[derive(Clone, Default)]
pub struct Chooser(pub Rc<RefCell<Inner>>);

pub const DIVERGED: &str = "harness: choice point diverged while replaying a prefix";

impl Chooser {
    pub fn replay(script: &[u32]) -> Chooser {
        Chooser(Rc::new(RefCell::new(Inner { script: script.to_vec(), log: vec![], stop: false })))
    }
    fn pick(&self, n: usize, free: bool) -> usize {
        assert!(n > 0, "harness: empty choice");
        let mut s = self.0.borrow_mut();
        let i = s.log.len();
        let taken = if i < s.script.len() { s.script[i] } else { 0 };
        if taken as usize >= n {
            std::panic::panic_any(DIVERGED.to_string());
        }
        s.log.push(Point { n: n as u32, taken, free });
        taken as usize
    }
    /// Option 0 is the default, others cost a deviation.
    pub fn choose(&self, n: usize) -> usize {
        self.pick(n, false)
    }
    /// All options are explored at no cost.
    pub fn free(&self, n: usize) -> usize {
        self.pick(n, true)
    }
    /// Explore no further (enough violations were seen).
    pub fn stop(&self) {
        self.0.borrow_mut().stop = true;
    }
    pub fn script(&self) -> Vec<u32> {
        self.0.borrow().log.iter().map(|p| p.taken).collect()
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct ExploreStats {
    pub runs: u64,
    pub nodes: u64,
    pub capped: bool,
}

/// Runs `body` for every choice sequence within `bound` deviations. Returns how many executions and
/// choice-tree nodes were visited. `cap` (0 = none) stops early and is reported as capped.
pub fn explore(bound: usize, cap: u64, mut body: impl FnMut(&Chooser)) -> ExploreStats {
    let mut st = ExploreStats::default();
    let mut script: Vec<u32> = vec![];
    let mut prev: Vec<Point> = vec![];
    loop {
        let ch = Chooser::replay(&script);
        body(&ch);
        let log = std::mem::take(&mut ch.0.borrow_mut().log);
        // replaying a prefix must meet the same choice points
        let fixed = script.len();
        if log.len() < fixed
            || log.iter().zip(prev.iter()).take(fixed.saturating_sub(1)).any(|(a, b)| a.n != b.n || a.free != b.free)
        {
            std::panic::panic_any(DIVERGED.to_string());
        }
        if ch.0.borrow().stop {
            st.runs += 1;
            st.capped = true;
            return st;
        }
        st.runs += 1;
        st.nodes += (log.len() - fixed.saturating_sub(1)) as u64 + 1;
        if cap > 0 && st.runs >= cap {
            st.capped = true;
            return st;
        }
        // next script in depth-first order
        let mut cost: Vec<usize> = Vec::with_capacity(log.len() + 1);
        let mut c = 0;
        for p in &log {
            cost.push(c);
            if !p.free && p.taken != 0 {
                c += 1;
            }
        }
        let mut i = log.len();
        let mut found = false;
        while i > 0 {
            i -= 1;
            let p = log[i];
            if p.taken + 1 < p.n && (p.free || cost[i] + 1 <= bound) {
                script = log[..i].iter().map(|p| p.taken).collect();
                script.push(p.taken + 1);
                found = true;
                break;
            }
        }
        prev = log;
        if !found {
            return st;
        }
    }
}

/// The script that follows an execution with this log in depth-first order: (options, taken, free) per point.
pub fn next_script(log: &[(u32, u32, bool)], bound: usize) -> Option<Vec<u32>> {
    let mut cost = Vec::with_capacity(log.len());
    let mut c = 0;
    for p in log {
        cost.push(c);
        c += (!p.2 && p.1 != 0) as usize;
    }
    for i in (0..log.len()).rev() {
        let (n, taken, free) = log[i];
        if taken + 1 < n && (free || cost[i] + 1 <= bound) {
            let mut s: Vec<u32> = log[..i].iter().map(|p| p.1).collect();
            s.push(taken + 1);
            return Some(s);
        }
    }
    None
}

//! Points at which a controlled decode hands control to the harness: around every type resolution and at
//! every node a recording visitor makes. Also a baton scheduler that runs threads one at a time and
//! switches between them only at these points.
use crate::ty::{Res, ResErr, Tid, Types};
use scale_type_resolver::{ResolvedTypeVisitor, TypeResolver};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static F: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

pub fn point() {
    if ON.with(|o| o.get()) {
        let f = F.with(|f| f.borrow().clone());
        if let Some(f) = f {
            f();
        }
    }
}
/// Run `body` on this thread with `f` called at every point (`None`: points do nothing).
pub fn with<T>(f: Option<Rc<dyn Fn()>>, body: impl FnOnce() -> T) -> T {
    let old = F.with(|x| x.replace(f.clone()));
    let was = ON.with(|o| o.replace(f.is_some()));
    let r = body();
    ON.with(|o| o.set(was));
    F.with(|x| *x.borrow_mut() = old);
    r
}

/// A registry with a point before and after every resolution.
pub struct YRes(pub Types);
impl TypeResolver for YRes {
    type TypeId = usize;
    type Error = ResErr;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = usize>>(&'this self, id: usize, v: V) -> Result<V::Value, ResErr> {
        point();
        let r = self.0.resolve_type(id, v);
        point();
        r
    }
}
impl Res for YRes {
    fn id(&self, t: Tid) -> usize {
        t
    }
    fn tid(&self, id: &usize) -> Tid {
        *id
    }
    fn label(&self) -> &'static str {
        "yielding"
    }
}

struct St {
    cur: usize,
    done: Vec<bool>,
    script: Vec<u32>,
    /// Options and option taken at each scheduling point.
    log: Vec<(u32, u32)>,
    diverged: bool,
}
pub struct Baton {
    st: Mutex<St>,
    cv: Condvar,
}
impl St {
    /// Option 0: carry on with `me`; others: the further threads not yet done.
    fn pick(&mut self, me: Option<usize>) -> usize {
        let n = self.done.len();
        let from = me.unwrap_or(n - 1);
        let mut opts: Vec<usize> = me.into_iter().collect();
        opts.extend((1..=n).map(|d| (from + d) % n).filter(|t| Some(*t) != me && !self.done[*t]));
        if opts.len() == 1 {
            return opts[0];
        }
        let c = self.script.get(self.log.len()).copied().unwrap_or(0);
        self.log.push((opts.len() as u32, c));
        if c as usize >= opts.len() {
            self.diverged = true;
            return opts[0];
        }
        opts[c as usize]
    }
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        while st.cur != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn at_point(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        let next = st.pick(Some(me));
        if next != me {
            st.cur = next;
            self.cv.notify_all();
            while st.cur != me {
                st = self.cv.wait(st).unwrap();
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[me] = true;
        if st.done.iter().any(|d| !d) {
            st.cur = st.pick(None);
        }
        self.cv.notify_all();
    }
}

/// What each thread's job gave (`Err`: it panicked), and the scheduling points met.
pub struct Run<T> {
    pub out: Vec<Result<T, String>>,
    pub log: Vec<(u32, u32)>,
    pub diverged: bool,
}

/// Run the jobs on threads of their own under the schedule that `script` prescribes.
pub fn schedule<T: Send>(script: Vec<u32>, jobs: &[&(dyn Fn() -> T + Sync)]) -> Run<T> {
    let n = jobs.len();
    let mut st = St { cur: usize::MAX, done: vec![false; n], script, log: vec![], diverged: false };
    st.cur = st.pick(None);
    let baton = Arc::new(Baton { st: Mutex::new(st), cv: Condvar::new() });
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .enumerate()
            .map(|(me, job)| {
                let b = baton.clone();
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(s, move || {
                        b.wait(me);
                        let b2 = b.clone();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            with(Some(Rc::new(move || b2.at_point(me))), job)
                        }));
                        b.finish(me);
                        r.map_err(|p| {
                            p.downcast_ref::<&str>()
                                .map(|s| s.to_string())
                                .or_else(|| p.downcast_ref::<String>().cloned())
                                .unwrap_or_else(|| "panic".into())
                        })
                    })
                    .expect("harness: cannot start a thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let st = baton.st.lock().unwrap();
    Run { out, log: st.log.clone(), diverged: st.diverged }
}

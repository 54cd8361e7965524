//! C22: decoding is a pure function of bytes, type information and target.
use mc::choose::next_script;
use mc::core_checks::suffix;
use mc::rec::*;
use mc::refdec::K;
use mc::run::*;
use mc::ty::*;
use mc::yields::{self, schedule, YRes};
use scale_decode::ext::scale_type_resolver::TypeResolver;
use scale_decode::visitor::{decode_with_visitor, DecodeAsTypeResult, IgnoreVisitor, TypeIdFor, Visitor};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, Field, IntoVisitor};
use scale_type_resolver::{BitsOrderFormat as BO, BitsStoreFormat as BS, Primitive as P};
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::io::Read;
use std::marker::PhantomData;
use std::os::fd::FromRawFd;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ registries: the same IDs, other types

fn comp(fs: &[(&str, Tid)]) -> Def {
    Def::Comp { path: vec!["m".into(), "S".into()], fields: fs.iter().map(|(n, t)| ((!n.is_empty()).then(|| n.to_string()), *t)).collect() }
}
fn var(vs: &[(&str, u8, &[Tid])]) -> Def {
    Def::Var {
        path: vec!["E".into()],
        vars: vs.iter().map(|(n, i, f)| VDef { name: n.to_string(), index: *i, fields: f.iter().map(|t| (None, *t)).collect() }).collect(),
    }
}
fn list(item: Tid, own: Tid) -> Def {
    var(&[("Nil", 0, &[]), ("Cons", 1, &[item, own])])
}
fn registry(defs: Vec<Def>) -> YRes {
    let mut t = Types::new();
    for d in defs {
        t.add_fresh(d);
    }
    YRes(t)
}
/// Three registries. In `in_slot`, whichever is used lies at the same address as the others before it.
struct Regs([YRes; 3]);
struct Slot(usize, Box<YRes>);
thread_local! {
    static SLOT: RefCell<Option<Slot>> = const { RefCell::new(None) };
}
impl std::ops::Index<usize> for Regs {
    type Output = YRes;
    fn index(&self, k: usize) -> &YRes {
        SLOT.with(|s| match &mut *s.borrow_mut() {
            None => &self.0[k],
            Some(Slot(at, b)) => {
                if *at != k {
                    **b = YRes(self.0[k].0.clone());
                    *at = k;
                }
                // the box lives as long as decodes with it do, and jobs use no two registries
                unsafe { &*(&**b as *const YRes) }
            }
        })
    }
}
fn in_slot<T>(f: impl FnOnce() -> T) -> T {
    SLOT.with(|s| *s.borrow_mut() = Some(Slot(usize::MAX, Box::new(YRes(Types::new())))));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    SLOT.with(|s| *s.borrow_mut() = None);
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}
/// IDs count from 1.
fn registries() -> Regs {
    Regs([
        registry(vec![
            Def::Prim(P::U8),
            Def::Prim(P::U16),
            Def::Prim(P::Str),
            comp(&[("a", 1), ("b", 2), ("s", 3)]),
            Def::Seq(4),
            var(&[("None", 0, &[]), ("Some", 1, &[5])]),
            Def::Tup(vec![1, 2, 3]),
            list(1, 8),
            Def::Compact(2),
            Def::Bits(BS::U8, BO::Lsb0),
            Def::Arr(2, 3),
            Def::Prim(P::U256),
        ]),
        registry(vec![
            Def::Prim(P::U32),
            Def::Prim(P::Str),
            Def::Prim(P::U8),
            comp(&[("s", 2), ("b", 3), ("a", 1), ("x", 9)]),
            Def::Arr(4, 2),
            var(&[("Some", 0, &[5]), ("None", 7, &[])]),
            Def::Tup(vec![3, 1, 2]),
            list(2, 8),
            Def::Bits(BS::U16, BO::Msb0),
            Def::Compact(1),
            Def::Seq(1),
            Def::Prim(P::I64),
        ]),
        registry(vec![
            Def::Tup(vec![2]),
            Def::Prim(P::U64),
            Def::Seq(2),
            comp(&[("a", 9)]),
            Def::Seq(99),
            Def::Fail("down".into()),
            comp(&[("", 1), ("", 99)]),
            list(8, 8),
            Def::Compact(1),
            Def::NotFound,
            Def::Arr(6, 1),
            Def::Prim(P::Bool),
        ]),
    ])
}

// ------------------------------------------------------------------ jobs

#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct S {
    a: u64,
    b: u16,
    s: String,
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct OnlyA {
    a: u32,
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
enum List {
    Nil,
    Cons(u8, Box<List>),
}
/// Its visitor hands control to the harness in the middle of its own callback.
#[derive(Debug)]
#[allow(dead_code)]
struct Yi(u64);
struct YiV<R>(PhantomData<R>);
macro_rules! yis {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            yields::point();
            Ok(Yi(v as u64))
        })*
    };
}
impl<R: TypeResolver> Visitor for YiV<R> {
    type Value<'scale, 'resolver> = Yi;
    type Error = Error;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'scale, 'resolver>(self, _: &mut &'scale [u8], _: TypeIdFor<Self>, _: &'resolver R) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        yields::point();
        DecodeAsTypeResult::Skipped(self)
    }
    yis! { visit_u8: u8; visit_u16: u16; visit_u32: u32; visit_u64: u64; }
}
impl IntoVisitor for Yi {
    type AnyVisitor<R: TypeResolver> = YiV<R>;
    fn into_visitor<R: TypeResolver>() -> YiV<R> {
        YiV(PhantomData)
    }
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct WithYi {
    b: Yi,
    #[decode_as_type(skip)]
    z: u8,
    a: Yi,
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct AllYi {
    x: Yi,
    b: Yi,
    a: Yi,
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
enum YiList {
    Nil,
    Cons(Yi, Box<YiList>),
}
/// A visitor that panics at the first number it sees.
struct PanicV;
impl Visitor for PanicV {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = YRes;
    fn visit_composite<'scale, 'resolver>(self, c: &mut scale_decode::visitor::types::Composite<'scale, 'resolver, YRes>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.decode_item(PanicV).unwrap_or(Ok(()))
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut scale_decode::visitor::types::Sequence<'scale, 'resolver, YRes>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        c.decode_item(PanicV).unwrap_or(Ok(()))
    }
    fn visit_u8<'scale, 'resolver>(self, _: u8, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        panic!("on purpose")
    }
}

type JobFn = Box<dyn Fn() -> String + Send + Sync>;
struct Job {
    name: String,
    /// Worth nesting inside others in the quick tier.
    core: bool,
    run: JobFn,
}

fn end<T>(bytes: &[u8], copy: &[u8], rest: &[u8], r: T, f: impl Fn(T) -> String) -> String {
    let touched = if bytes == copy { "" } else { ", input modified" };
    format!("{} at {:?}{touched}", f(r), suffix(bytes, rest))
}

fn jobs(regs: &Arc<Regs>, quick: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut add = |name: String, core: bool, run: JobFn| v.push(Job { name, core, run });
    let bytes = |s: &str| -> Vec<u8> {
        s.split(' ').filter(|x| !x.is_empty()).map(|x| u8::from_str_radix(x, 16).unwrap()).collect()
    };
    macro_rules! visit {
        ($core:expr, $reg:expr, $t:expr, $mode:expr, $b:expr) => {{
            let (regs, b) = (regs.clone(), bytes($b));
            add(
                format!("visit {:?} {}#{} {}", $mode, ["A", "B", "C"][$reg], $t, $b),
                $core,
                Box::new(move || {
                    let copy = b.clone();
                    let env = Env::new(&regs[$reg], &b, $mode);
                    let mut input = &b[..];
                    let r = decode_with_visitor(&mut input, $t, &regs[$reg], RecV { env: &env });
                    end(&b, &copy, input, r, |r| format!("{r:?}"))
                }),
            )
        }};
    }
    macro_rules! into {
        ($core:expr, $reg:expr, $t:expr, $ty:ty, $b:expr) => {{
            let (regs, b) = (regs.clone(), bytes($b));
            add(
                format!("{} from {}#{} {}", stringify!($ty), ["A", "B", "C"][$reg], $t, $b),
                $core,
                Box::new(move || {
                    let copy = b.clone();
                    let mut input = &b[..];
                    let r = <$ty as DecodeAsType>::decode_as_type(&mut input, $t, &regs[$reg]);
                    end(&b, &copy, input, r, |r| match r {
                        Ok(v) => format!("{v:?}"),
                        Err(e) => format!("{e} / {e:?}"),
                    })
                }),
            )
        }};
    }
    let seq = "08 01 02 03 04 41 05 06 07 08 42 43";
    let arr = "04 61 07 01 00 00 00 10 ff 0f 08 62 63 08 02 00 00 00 00";
    // valid values
    visit!(true, 0, 5, Mode::Items, seq);
    visit!(false, 0, 5, Mode::IterLate, seq);
    visit!(true, 1, 5, Mode::Iter, arr);
    visit!(false, 1, 5, Mode::AsTuple, arr);
    visit!(false, 0, 6, Mode::Items, "01 04 01 02 03 00");
    visit!(false, 1, 6, Mode::Items, "07");
    visit!(false, 2, 4, Mode::Items, "15 02");
    visit!(false, 0, 9, Mode::Items, "fd ff");
    visit!(false, 1, 10, Mode::Items, "02 00 01 00");
    visit!(false, 0, 10, Mode::Items, "14 15");
    visit!(false, 1, 11, Mode::Generic, "08 01 00 00 00 02 00 00 00");
    visit!(false, 0, 11, Mode::Items, "01 00 02 00 03 00");
    // failing ones
    visit!(true, 0, 5, Mode::Items, "08 01 02 03 04 41 05 06 07 08 42");
    visit!(false, 1, 5, Mode::IterLate, "04 61 07 01 00 00 00 10 ff 0f 08 ff fe 08 02 00 00 00 00");
    visit!(false, 0, 6, Mode::Items, "02");
    visit!(true, 2, 7, Mode::Items, "01 02 03 04 05 06 07 08 09");
    visit!(false, 2, 11, Mode::Items, "01");
    visit!(false, 2, 12, Mode::Items, "02");
    // targets
    into!(true, 0, 5, Vec<S>, seq);
    into!(true, 1, 5, [S; 2], arr);
    into!(false, 1, 5, Vec<OnlyA>, arr);
    into!(false, 0, 5, BTreeMap<String, Yi>, seq);
    into!(false, 0, 6, Option<Vec<OnlyA>>, "01 08 01 02 03 00 04 05 06 04 41");
    into!(false, 0, 7, (u16, Yi, String), "01 02 03 04 41");
    into!(false, 1, 7, (Yi, Yi, String), "01 02 03 04 05 04 41");
    into!(false, 2, 1, Box<Yi>, "01 02 03 04 05 06 07 08");
    into!(true, 2, 9, Box<Yi>, "15 02");
    into!(false, 0, 8, List, "01 05 01 06 01 07 00");
    into!(false, 0, 11, BTreeSet<u8>, "05 00 04 00 05 00");
    into!(false, 0, 11, Vec<Yi>, "01 00 02 00 03 00");
    into!(false, 0, 11, [Yi; 3], "01 00 02 00 03 00");
    into!(false, 1, 11, LinkedList<(Yi,)>, "08 01 00 00 00 02 00 00 00");
    into!(false, 1, 11, VecDeque<Option<Yi>>, "08 01 00 00 00 02 00 00 00");
    into!(false, 0, 4, WithYi, "01 02 03 04 41");
    into!(false, 1, 4, WithYi, "04 61 07 01 00 00 00 10");
    into!(false, 0, 6, Option<Vec<WithYi>>, "01 04 01 02 03 00");
    into!(false, 0, 8, YiList, "01 05 01 06 00");
    into!(false, 2, 1, (Rc<Yi>,), "01 02 03 04 05 06 07 08");
    into!(false, 1, 10, Yi, "fe ff 03 00");
    into!(false, 0, 9, (Yi,), "04");
    into!(false, 0, 1, Yi, "04");
    into!(false, 1, 4, AllYi, "04 61 07 01 00 00 00 10");
    // failing ones
    into!(true, 0, 5, Vec<(u8, u16)>, seq);
    into!(false, 0, 11, [u8; 3], "05 00 00 02 05 00");
    into!(false, 1, 8, List, "01 04 41 00");
    into!(false, 2, 8, List, "01 01 00 00 00");
    into!(false, 2, 6, u8, "01 02");
    into!(false, 1, 6, Result<u8, u8>, "07");
    into!(false, 1, 4, OnlyA, "04 61 07 01 00 00");
    // nested deeply
    let deep = "01 05 ".repeat(if quick { 20 } else { 90 }) + "00";
    into!(false, 0, 8, List, &deep);
    let some = "01 05 ".repeat(3) + "00";
    into!(true, 0, 8, List, &some);
    let cut = "01 05 ".repeat(if quick { 20 } else { 60 });
    into!(false, 0, 8, List, &cut);
    for (reg, what) in [(0usize, "A"), (1, "B"), (2, "C")] {
        let r = regs.clone();
        let b = bytes(seq);
        add(
            format!("fields of {what}#4"),
            false,
            Box::new(move || {
                let copy = b.clone();
                let mut input = &b[..];
                let Def::Comp { fields, .. } = r[reg].0.get(4) else { panic!("harness: not a composite") };
                let res = S::decode_as_fields(&mut input, &mut fields.iter().map(|(n, t)| Field::new(*t, n.as_deref())), &r[reg]);
                end(&b, &copy, input, res, |r| format!("{r:?}"))
            }),
        );
        let r = regs.clone();
        let b = bytes(seq);
        add(
            format!("ignored {what}#5"),
            false,
            Box::new(move || {
                let copy = b.clone();
                let mut input = &b[..];
                let res = decode_with_visitor(&mut input, 5, &r[reg], IgnoreVisitor::new());
                end(&b, &copy, input, res, |r| format!("{r:?}"))
            }),
        );
    }
    let r = regs.clone();
    let b = bytes(seq);
    add(
        "a visitor that fails".into(),
        true,
        Box::new(move || {
            let copy = b.clone();
            let mut input = &b[..];
            let res = decode_with_visitor(&mut input, 5, &r[0], FailV(3, PhantomData));
            end(&b, &copy, input, res, |r| format!("{r:?}"))
        }),
    );
    let r = regs.clone();
    let b = bytes(seq);
    add(
        "a visitor that panics".into(),
        true,
        Box::new(move || {
            let mut input = &b[..];
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                decode_with_visitor(&mut input, 5, &r[0], PanicV).map_err(|e| format!("{e:?}"))
            }));
            match res {
                Ok(r) => format!("no panic: {r:?}"),
                Err(p) => format!("panicked: {:?}", p.downcast_ref::<&str>()),
            }
        }),
    );
    v
}

// ------------------------------------------------------------------ isolated runs

/// Run in a process of its own, which has decoded nothing else.
fn apart(f: impl FnOnce() -> Vec<String>) -> Vec<String> {
    use std::io::Write;
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "harness: pipe") };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| vec!["panicked".into()]);
        let mut o = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = o.write_all(v.join("\u{1e}").as_bytes());
        drop(o);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut s = String::new();
    let mut i = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let _ = i.read_to_string(&mut s);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if st != 0 {
        return vec![format!("process died with status {st}")];
    }
    s.split('\u{1e}').map(|x| x.to_string()).collect()
}

struct Bad<'a> {
    jobs: &'a [Job],
    alone: &'a [String],
}
impl<'a> Bad<'a> {
    /// First of these runs whose outcome is not that of the job on its own.
    fn find<'b>(&self, runs: impl Iterator<Item = (usize, &'b str)>) -> Option<String> {
        for (j, got) in runs {
            if got != self.alone[j] {
                return Some(format!("[{}] gave {got}, alone {}", self.jobs[j].name, self.alone[j]));
            }
        }
        None
    }
}

fn body(ctx: &mut Ctx) {
    let regs = Arc::new(registries());
    let jobs = &jobs(&regs, ctx.quick())[..];
    let n = jobs.len();
    // on their own: one process each, decoding nothing before
    let alone: Vec<String> = (0..n).map(|j| ctx.lib(|| apart(|| vec![(jobs[j].run)()])).map(|v| v[0].clone()).unwrap_or_default()).collect();
    let alone = &alone[..];
    let bad = Bad { jobs, alone };
    let before = format!("{:?}", regs.0.iter().map(|r| &r.0.defs).collect::<Vec<_>>());
    let names = |h: &[usize]| h.iter().map(|j| jobs[*j].name.as_str()).collect::<Vec<_>>().join(" ; ");
    let core: Vec<usize> = (0..n).filter(|j| jobs[*j].core).collect();

    for j in 0..n {
        ctx.case(
            || format!("alone: {}", jobs[j].name),
            |ctx| {
                ctx.outcome(if alone[j].starts_with("Ok(") || !(alone[j].contains("Err") || alone[j].contains("Error")) { "job-decodes" } else { "job-fails" });
                ctx.sample(|| format!("{} -> {}", jobs[j].name, alone[j].chars().take(120).collect::<String>()));
            },
        );
    }
    // ---- histories: every sequence of jobs, starting in a fresh process
    for a in 0..n {
        ctx.case(
            || format!("histories starting with {}", jobs[a].name),
            |ctx| {
                for b in 0..n {
                    let firsts: Vec<Vec<usize>> =
                        if ctx.quick() { vec![vec![a, b]] } else { (0..n).map(|c| vec![a, b, c]).collect() };
                    for h in firsts {
                        ctx.state(&("history", &h));
                        let out = ctx.lib(|| apart(|| h.iter().map(|j| (jobs[*j].run)()).collect()));
                        ctx.trace();
                        let Ok(out) = out else { continue };
                        ctx.outcome("history");
                        let d = if out.len() != h.len() { Some(out.join("; ")) } else { bad.find(h.iter().copied().zip(out.iter().map(|s| s.as_str()))) };
                        if let Some(d) = d {
                            ctx.violation(&format!("history:{h:?}"), || format!("in a fresh process, after {}: {d}", names(&h)));
                            return;
                        }
                    }
                }
                // the registries of the one and the other lie at the same address
                for b in 0..n {
                    let h = [a, b, a];
                    ctx.state(&("slot", &h));
                    let out = ctx.lib(|| in_slot(|| h.iter().map(|j| (jobs[*j].run)()).collect::<Vec<_>>()));
                    ctx.trace();
                    ctx.outcome("same-address");
                    let d = match &out {
                        Err(Panicked(p)) => Some(format!("panicked: {p}")),
                        Ok(o) => bad.find(h.iter().copied().zip(o.iter().map(|s| s.as_str()))),
                    };
                    if let Some(d) = d {
                        ctx.violation(&format!("slot:{h:?}"), || format!("sequence {}, registries at the same address: {d}", names(&h)));
                        return;
                    }
                }
                // in this process, which has decoded a lot already: all sequences of three
                for b in 0..n {
                    for c in 0..n {
                        let h = [a, b, c];
                        ctx.state(&("sequence", &h));
                        let out = ctx.lib(|| h.iter().map(|j| (jobs[*j].run)()).collect::<Vec<_>>());
                        ctx.trace();
                        ctx.outcome("sequence");
                        let d = match &out {
                            Err(Panicked(p)) => Some(format!("panicked: {p}")),
                            Ok(o) => bad.find(h.iter().copied().zip(o.iter().map(|s| s.as_str()))),
                        };
                        if let Some(d) = d {
                            ctx.violation(&format!("sequence:{h:?}"), || format!("sequence {}: {d}", names(&h)));
                            return;
                        }
                    }
                }
                // many times over, then each of the others
                let times = if ctx.quick() && jobs[a].name.len() > 110 { 3_000 } else { 70_000 };
                let out = ctx.lib(|| {
                    apart(|| {
                        for i in 0..times {
                            let o = (jobs[a].run)();
                            if o != alone[a] {
                                return vec![format!("time {i}: {o}")];
                            }
                        }
                        (0..n).map(|j| (jobs[j].run)()).collect()
                    })
                });
                ctx.trace();
                ctx.transitions(times);
                ctx.outcome("repetition");
                if let Ok(out) = out {
                    let d = if out.len() != n { Some(out.join("; ")) } else { bad.find((0..n).zip(out.iter().map(|s| s.as_str()))) };
                    if let Some(d) = d {
                        ctx.violation(&format!("repetition:{a}"), || format!("after {times} times {}: {d}", jobs[a].name));
                    }
                }
            },
        );
    }
    target_histories(ctx);
    // ---- other decodes inside callbacks
    for a in 0..n {
        ctx.case(
            || format!("decodes nested in {}", jobs[a].name),
            |ctx| {
                let one: Vec<usize> = (0..n).collect();
                let two: Vec<usize> = if ctx.quick() { core.clone() } else { one.clone() };
                // one nested decode at every point; then two, next to each other or one inside the other
                for (dev, inner) in [(1, &one), (2, &two)] {
                    if dev == 2 && ctx.quick() && !jobs[a].core {
                        continue;
                    }
                    let inner = Rc::new(inner.clone());
                    let cap = ctx.by_tier(1_000_000u64, 3_000_000);
                    let (mut runs, mut script) = (0, vec![]);
                    loop {
                        let log: Rc<RefCell<Vec<(u32, u32, bool)>>> = Default::default();
                        let outs: Rc<RefCell<Vec<(usize, String)>>> = Default::default();
                        let r = ctx.lib(|| nested(jobs, a, 0, dev, &Rc::new(script.clone()), &Default::default(), &log, &outs, &inner));
                        ctx.trace();
                        runs += 1;
                        ctx.transitions(log.borrow().len() as u64);
                        ctx.state(&("nested", a, dev, log.borrow().iter().map(|p| p.1).collect::<Vec<_>>()));
                        let d = match r {
                            Err(Panicked(p)) => Some(format!("panicked: {p}")),
                            Ok(out) => bad.find(
                                outs.borrow().iter().map(|(j, s)| (*j, s.as_str())).chain(std::iter::once((a, out.as_str()))),
                            ),
                        };
                        ctx.outcome("nesting");
                        if let Some(d) = d {
                            let s: Vec<u32> = log.borrow().iter().map(|p| p.1).collect();
                            ctx.violation(&format!("nested:{a}:{s:?}"), || {
                                let inside: Vec<usize> = outs.borrow().iter().map(|o| o.0).collect();
                                format!("{} with {} inside its callbacks: {d}", jobs[a].name, names(&inside))
                            });
                            return;
                        }
                        let l = log.borrow();
                        match next_script(&l, dev) {
                            Some(s) if runs < cap => script = s,
                            Some(_) => {
                                ctx.nodes(mc::choose::ExploreStats { capped: true, ..Default::default() });
                                break;
                            }
                            None => break,
                        }
                    }
                }
            },
        );
    }
    // ---- two threads, and three, switching at callback boundaries
    for a in 0..n {
        ctx.case(
            || format!("threads with {}", jobs[a].name),
            |ctx| {
                let mut sets: Vec<(Vec<usize>, usize)> = vec![];
                for b in a..n {
                    let deep = jobs[a].core && jobs[b].core;
                    sets.push((vec![a, b], ctx.by_tier(1, 2) + (deep && !ctx.quick()) as usize));
                }
                if jobs[a].core {
                    for b in core.iter().copied().filter(|b| *b >= a) {
                        for c in core.iter().copied().filter(|c| *c >= b) {
                            sets.push((vec![a, b, c], if ctx.quick() { 0 } else { 1 }));
                        }
                    }
                }
                for (set, bound) in &sets {
                    let fs: Vec<&(dyn Fn() -> String + Sync)> = set.iter().map(|j| &*jobs[*j].run as &(dyn Fn() -> String + Sync)).collect();
                    let mut script = vec![];
                    let (mut runs, cap) = (0u64, ctx.by_tier(20_000u64, 50_000));
                    loop {
                        let s = script.clone();
                        let r = ctx.lib(|| schedule(s, &fs));
                        let Ok(r) = r else { panic!("harness: scheduler panicked") };
                        ctx.trace();
                        runs += 1;
                        ctx.transitions(r.log.len() as u64);
                        ctx.state(&("threads", set, r.log.iter().map(|p| p.1).collect::<Vec<_>>()));
                        ctx.outcome("schedule");
                        let d = r.out.iter().find_map(|o| o.as_ref().err().map(|p| format!("panicked: {p}"))).or_else(|| {
                            bad.find(set.iter().copied().zip(r.out.iter().map(|o| o.as_ref().map(|s| s.as_str()).unwrap_or(""))))
                        });
                        if let Some(d) = d {
                            let s: Vec<u32> = r.log.iter().map(|p| p.1).collect();
                            ctx.violation(&format!("threads:{set:?}:{s:?}"), || format!("threads {} under schedule {s:?}: {d}", names(set)));
                            return;
                        }
                        // who starts, and who goes on after one has ended, is free
                        let mut l: Vec<(u32, u32, bool)> = r.log.iter().map(|p| (p.0, p.1, false)).collect();
                        l[0].2 = true;
                        match next_script(&l, *bound) {
                            Some(s) if runs < cap => script = s,
                            Some(_) => {
                                ctx.nodes(mc::choose::ExploreStats { capped: true, ..Default::default() });
                                break;
                            }
                            None => break,
                        }
                    }
                }
            },
        );
    }
    let after = format!("{:?}", regs.0.iter().map(|r| &r.0.defs).collect::<Vec<_>>());
    if before != after {
        ctx.violation("registry", || "a registry was modified".into());
    }
}

// ------------------------------------------------------------------ every target after every other

/// Registry `k` of three: the same IDs stand for other types in each.
fn rotated(k: usize) -> (Types, usize) {
    let leaves = [Def::Prim(P::U8), Def::Prim(P::U16), Def::Prim(P::Str), Def::Prim(P::U64), Def::Prim(P::Bool)];
    const TOP: usize = 21;
    // leaf `i` has this ID
    let l = |i: usize| TOP + 1 + (i + leaves.len() - k * 2 % leaves.len()) % leaves.len();
    let top: [Def; TOP] = [
        Def::Prim(P::U8),
        Def::Tup(vec![l(0)]),
        Def::Tup(vec![l(0), l(2)]),
        Def::Compact(l(1)),
        Def::Seq(l(0)),
        comp(&[("a", l(0)), ("b", l(1)), ("s", l(2))]),
        comp(&[("", l(3))]),
        Def::Arr(l(0), 2),
        var(&[("None", 0, &[]), ("Some", 1, &[l(0)])]),
        Def::Prim(P::Str),
        var(&[("Ok", 0, &[l(1)]), ("Err", 1, &[l(2)])]),
        Def::Bits(BS::U8, BO::Lsb0),
        Def::Tup(vec![]),
        Def::Seq(l(2)),
        Def::Prim(P::Bool),
        comp(&[("a", l(3))]),
        Def::Tup(vec![l(3), l(1)]),
        Def::Prim(P::Char),
        var(&[("A", 0, &[]), ("B", 4, &[l(0)]), ("C", 9, &[l(0), l(1)])]),
        Def::Prim(P::I32),
        Def::NotFound,
    ];
    let mut t = Types::new();
    for i in 0..TOP {
        t.add_fresh(top[(i + k * 8) % TOP].clone());
    }
    for i in 0..leaves.len() {
        t.add_fresh(leaves[(i + k * 2) % leaves.len()].clone());
    }
    (t, TOP)
}

fn target_histories(ctx: &mut Ctx) {
    let regs: Vec<(Types, usize)> = (0..3).map(rotated).collect();
    let es = mc::all::all();
    // (registry, ID, bytes)
    let mut inputs: Vec<(usize, Tid, Vec<u8>)> = vec![];
    for (k, (t, top)) in regs.iter().enumerate() {
        for id in 1..=*top {
            let ch = mc::choose::Chooser::default();
            let b = mc::gen::gen(t, id, &ch, mc::gen::GenOpts::VALID);
            if b.len() > 1 {
                inputs.push((k, id, b[..b.len() - 1].to_vec()));
            }
            inputs.push((k, id, b));
        }
    }
    let inputs = &inputs[..];
    let regs = &regs[..];
    let run = |e: usize, i: usize| -> String {
        let (k, id, b) = &inputs[i];
        let mut input = &b[..];
        let r = (es[e].run)(&mut input, *id, &regs[*k].0);
        end(b, b, input, r, |r| match r {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("{e} / {e:?}"),
        })
    };
    // with its registry where that of the input before was
    let run_at = |slot: &mut Types, at: &mut usize, e: usize, i: usize| -> String {
        let (k, id, b) = &inputs[i];
        if *at != *k {
            *slot = regs[*k].0.clone();
            *at = *k;
        }
        let mut input = &b[..];
        let r = (es[e].run)(&mut input, *id, slot);
        end(b, b, input, r, |r| match r {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("{e} / {e:?}"),
        })
    };
    let show = |e: usize, i: usize| format!("{} from {}#{}={} {}", es[e].name, ["A", "B", "C"][inputs[i].0], inputs[i].1, regs[inputs[i].0].0.show(inputs[i].1), hex(&inputs[i].2));
    for e in 0..es.len() {
        ctx.case(
            || format!("histories of {}", es[e].name),
            |ctx| {
                // on their own, in a process that has decoded nothing with this registry or another
                let one = |e: usize, i: usize| apart(|| vec![run(e, i)])[0].clone();
                let alone: Vec<String> = (0..inputs.len()).map(|i| ctx.lib(|| one(e, i)).unwrap_or_default()).collect();
                for a in 0..inputs.len() {
                    for b in 0..inputs.len() {
                        ctx.state(&("target-history", e, a, b));
                        let r = ctx.lib(|| (run(e, a), run(e, b)));
                        ctx.trace();
                        ctx.outcome("target-history");
                        let d = match &r {
                            Err(Panicked(p)) => Some(format!("panicked: {p}")),
                            Ok((x, _)) if *x != alone[a] => Some(format!("{} gave {x}, alone {}", show(e, a), alone[a])),
                            Ok((_, y)) if *y != alone[b] => Some(format!("{} gave {y}, alone {}", show(e, b), alone[b])),
                            _ => None,
                        };
                        if let Some(d) = d {
                            ctx.violation(&format!("target-history:{}:{a}:{b}", es[e].name), || format!("after {}: {d}", show(e, a)));
                            return;
                        }
                    }
                }
                // an input of one registry, and of another at the same address
                let (mut slot, mut at) = (Types::new(), usize::MAX);
                for a in 0..inputs.len() {
                    // a change of registries for each would be slow: all of one registry after each of another
                    for k in 0..3 {
                        if k == inputs[a].0 {
                            continue;
                        }
                        let r = ctx.lib(|| {
                            run_at(&mut slot, &mut at, e, a);
                            (0..inputs.len()).filter(|b| inputs[*b].0 == k).map(|b| (b, run_at(&mut slot, &mut at, e, b))).find(|(b, o)| *o != alone[*b])
                        });
                        ctx.trace();
                        ctx.outcome("same-address");
                        let d = match &r {
                            Err(Panicked(p)) => Some(format!("panicked: {p}")),
                            Ok(Some((b, o))) => Some(format!("{} gave {o}, alone {}", show(e, *b), alone[*b])),
                            Ok(None) => None,
                        };
                        if let Some(d) = d {
                            ctx.violation(&format!("target-slot:{}:{a}", es[e].name), || format!("after {}, registries at the same address: {d}", show(e, a)));
                            return;
                        }
                    }
                }
                // after another target: something that works, or fails, with each registry
                for f in 0..es.len() {
                    if f == e {
                        continue;
                    }
                    let mut firsts: Vec<usize> = vec![];
                    for k in 0..3 {
                        let of = |ok: bool| (0..inputs.len()).filter(|i| inputs[*i].0 == k).find(|i| {
                            let b = &inputs[*i];
                            ctx_free(|| (es[f].run)(&mut &b.2[..], b.1, &regs[k].0).is_ok()) == Some(ok)
                        });
                        firsts.extend(of(true));
                        if k == 0 || !ctx.quick() {
                            firsts.extend(of(false));
                        }
                    }
                    for &a in &firsts {
                        for b in 0..inputs.len() {
                            let r = ctx.lib(|| {
                                run(f, a);
                                run(e, b)
                            });
                            ctx.trace();
                            ctx.outcome("target-history");
                            let d = match &r {
                                Err(Panicked(p)) => Some(format!("panicked: {p}")),
                                Ok(y) if *y != alone[b] => Some(format!("{} gave {y}, alone {}", show(e, b), alone[b])),
                                _ => None,
                            };
                            if let Some(d) = d {
                                ctx.violation(&format!("target-history:{}:{}:{a}:{b}", es[f].name, es[e].name), || format!("after {}: {d}", show(f, a)));
                                return;
                            }
                        }
                    }
                }
            },
        );
    }
}
fn ctx_free<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Run a job with other jobs inside its callbacks, as the script says.
#[allow(clippy::too_many_arguments)]
fn nested(
    jobs: &[Job],
    j: usize,
    depth: usize,
    max: usize,
    script: &Rc<Vec<u32>>,
    used: &Rc<Cell<usize>>,
    log: &Rc<RefCell<Vec<(u32, u32, bool)>>>,
    outs: &Rc<RefCell<Vec<(usize, String)>>>,
    inner: &Rc<Vec<usize>>,
) -> String {
    let (script2, used2, log2, outs2, inner2) = (script.clone(), used.clone(), log.clone(), outs.clone(), inner.clone());
    // the closure must own what it uses: the jobs outlive the call
    let jobs2: &'static [Job] = unsafe { std::mem::transmute(jobs) };
    let f = move || {
        let at = log2.borrow().len();
        if at >= script2.len() && used2.get() >= max {
            return;
        }
        let c = script2.get(at).copied().unwrap_or(0);
        log2.borrow_mut().push((inner2.len() as u32 + 1, c, false));
        used2.set(used2.get() + (c != 0) as usize);
        if c > 0 && (c as usize) <= inner2.len() && depth < 3 {
            let k = inner2[c as usize - 1];
            let o = nested(jobs2, k, depth + 1, max, &script2, &used2, &log2, &outs2, &inner2);
            outs2.borrow_mut().push((k, o));
        }
    };
    yields::with(Some(Rc::new(f)), || (jobs[j].run)())
}

fn main() {
    // the reference values of some jobs are also checked against each other, to be sure that they differ
    let _ = K::Bool(true);
    mc::run::main(Spec {
        id: "C22",
        states_are: "states: distinct histories, nestings and schedules; transitions: library calls and scheduling points; traces: executions in which every decode's outcome was compared with that of the same decode alone in a fresh process",
        bounds: |t| match t {
            Tier::Quick => "60 decodes (visitors, targets, field lists; succeeding, failing, panicking, deeply nested) over 3 registries that give the same IDs to different types; all histories of 2 in fresh processes and of 3 in a used one, of 3 (a, b, a) with the registries at the same address, each repeated 70000 times (3000 if nested deeply) before all others; every decode nested at every callback of every other, two nested decodes for 11 of them; all two-thread schedules with one preemption, three threads without; each of all built-in and derived targets over 120 inputs from 3 more registries that rotate their IDs: all histories of two per target, with the registries apart and at the same address, and after a working and a failing decode of every other target".into(),
            Tier::Thorough => "as quick with histories of 3 in fresh processes, 70000 repetitions of all, two nested decodes for all (capped), two preemptions (three for 11 of them), three threads with one".into(),
        },
        assumptions: &[
            "threads switch at type resolutions and visitor callbacks only, as the property says",
            "compared outcomes are the debug and display texts of values and errors and the position of the input",
        ],
        require: &["history", "same-address", "target-history", "sequence", "repetition", "nesting", "schedule", "job-decodes", "job-fails"],
        body,
    })
}

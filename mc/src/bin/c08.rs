//! C08: a visitor's own error is what the caller gets back.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::rec::VErr;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::error::ErrorKind;
use scale_decode::ext::scale_type_resolver::TypeResolver;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, TypeIdFor, Visitor};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, Field, IntoVisitor};
use scale_type_resolver::Primitive as P;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

/// What the most recent visitor method returned, if one was called since `clear`.
#[derive(Default)]
struct Mon {
    ret: RefCell<Option<Result<(), VErr>>>,
    next: Cell<u32>,
    steps: Cell<u64>,
    bad: RefCell<Option<String>>,
}
impl Mon {
    fn clear(&self) {
        *self.ret.borrow_mut() = None;
    }
    /// Is this result of a decode in keeping with what the visitor returned?
    fn judge<T>(&self, at: &str, r: &Result<T, VErr>) {
        let got = r.as_ref().err();
        let bad = match (&*self.ret.borrow(), got) {
            (Some(Err(e)), Some(g)) if e == g => None,
            (Some(Err(e)), g) => Some(format!("{at}: the visitor returned {e:?}, decoding {g:?}")),
            (_, Some(VErr::Own(n))) => Some(format!("{at}: error {n} out of nowhere")),
            _ => None,
        };
        if let Some(b) = bad {
            self.bad.borrow_mut().get_or_insert(b);
        }
    }
}

struct OwnV<'e> {
    ch: &'e Chooser,
    mon: &'e Mon,
}
impl<'e> Clone for OwnV<'e> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'e> Copy for OwnV<'e> {}

impl<'e> OwnV<'e> {
    fn own(&self) -> VErr {
        self.mon.next.set(self.mon.next.get() + 1);
        VErr::Own(self.mon.next.get())
    }
    fn fin(&self, r: Result<(), VErr>) -> Result<(), VErr> {
        self.mon.steps.set(self.mon.steps.get() + 1);
        *self.mon.ret.borrow_mut() = Some(r.clone());
        r
    }
    fn leaf(&self) -> Result<(), VErr> {
        let r = match self.ch.choose(3) {
            0 => Ok(()),
            1 => Err(self.own()),
            // an error that looks like one of the library's
            _ => Err(VErr::D(scale_decode::visitor::DecodeError::TypeIdNotFound("mine".into()))),
        };
        self.fin(r)
    }
    /// Pass an inner error on, replace it by an own one, or ignore it.
    fn inner(&self, at: &str, r: Result<(), VErr>) -> Result<(), VErr> {
        self.mon.judge(at, &r);
        match r {
            Ok(()) => Ok(()),
            Err(e) => match self.ch.choose(3) {
                0 => Err(e),
                1 => Err(self.own()),
                _ => Ok(()),
            },
        }
    }
    fn cont<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H) -> Result<(), VErr> {
        let op = self.ch.choose(8);
        match op {
            1 => return Err(self.own()),
            4 => {
                if let Some(Ok(it)) = h.next_item() {
                    self.mon.clear();
                    let r = it.decode_with_visitor(*self);
                    self.inner("iterated item", r)?;
                }
                return Err(self.own());
            }
            5 => {
                let _ = h.skip();
                return Err(self.own());
            }
            6 => {
                let _ = h.next_item();
                return Err(self.own());
            }
            7 => {
                // leave everything
                return Ok(());
            }
            _ => {}
        }
        let mut n = 0;
        loop {
            self.mon.clear();
            match h.item(*self) {
                None => break,
                Some(r) => self.inner("item", r)?,
            }
            n += 1;
            if op == 2 && n == 1 {
                return Err(self.own());
            }
            if n > 300 {
                break;
            }
        }
        if op == 3 {
            return Err(self.own());
        }
        Ok(())
    }
    fn comp<'s, 'r>(&self, c: &mut Composite<'s, 'r, Types>) -> Result<(), VErr> {
        if self.ch.choose(2) == 1 {
            let mut t = c.as_tuple();
            self.cont(&mut t)?;
            return match self.ch.choose(2) {
                0 => Ok(()),
                _ => Err(self.own()),
            };
        }
        self.cont(c)
    }
}
macro_rules! leaves {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.leaf()
        })*
    };
}
macro_rules! conts {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            let r = self.cont(v);
            self.fin(r)
        })*
    };
}
impl<'e> Visitor for OwnV<'e> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    leaves! {
        visit_bool: bool; visit_char: char;
        visit_u8: u8; visit_u16: u16; visit_u32: u32; visit_u64: u64; visit_u128: u128;
        visit_i8: i8; visit_i16: i16; visit_i32: i32; visit_i64: i64; visit_i128: i128;
    }
    conts! {
        visit_sequence: &mut Sequence<'scale, 'resolver, Types>;
        visit_array: &mut Array<'scale, 'resolver, Types>;
        visit_tuple: &mut Tuple<'scale, 'resolver, Types>;
    }
    fn visit_u256<'r>(self, _: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.leaf()
    }
    fn visit_i256<'r>(self, _: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.leaf()
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let r = match self.ch.choose(5) {
            0 => s.as_str().map(|_| ()).map_err(VErr::D),
            1 => Err(self.own()),
            2 => {
                let _ = s.as_str();
                Err(self.own())
            }
            3 => {
                let _ = s.bytes_after();
                Err(self.own())
            }
            _ => Ok(()),
        };
        self.fin(r)
    }
    fn visit_bitsequence<'scale, 'resolver>(self, b: &mut BitSequence<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let r = match self.ch.choose(6) {
            0 => b.decode().map(|_| ()).map_err(VErr::D),
            1 => Err(self.own()),
            2 => {
                let _ = b.decode();
                Err(self.own())
            }
            3 => {
                let _ = b.bytes_after();
                Err(self.own())
            }
            4 => {
                if let Ok(d) = b.decode() {
                    let _ = d.take(3).count();
                }
                Err(self.own())
            }
            _ => Ok(()),
        };
        self.fin(r)
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let r = self.comp(c);
        self.fin(r)
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let r = match self.ch.choose(3) {
            0 => self.comp(v.fields()),
            1 => Err(self.own()),
            _ => {
                let _ = v.skip_decoding();
                Err(self.own())
            }
        };
        self.fin(r)
    }
}

fn explore_bytes(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], dev: usize, cap: u64, what: &'static str) {
    if refdec(types, t, b) == Err(RErr::Depth) {
        ctx.outcome("outside-bounds");
        return;
    }
    let mut viol = 0;
    let st = explore(dev, cap, |ch| {
        let mon = Mon::default();
        let mut input = b;
        let r = ctx.lib(|| decode_with_visitor(&mut input, t, types, OwnV { ch, mon: &mon }));
        ctx.trace();
        ctx.transitions(mon.steps.get());
        ctx.state(&(t, b, ch.script()));
        let bad = match r {
            Err(Panicked(p)) => Some(format!("panicked: {p}")),
            Ok(r) => {
                mon.judge("whole value", &r);
                if let Err(VErr::Own(_)) = r {
                    ctx.outcome(what);
                }
                mon.bad.borrow().clone()
            }
        };
        if let Some(d) = bad {
            viol += 1;
            if viol > 1 {
                ch.stop();
            }
            let s = ch.script();
            ctx.violation(&format!("{}:{}:{s:?}", types.show(t), hex(b)), || {
                format!("visitor choices {s:?}: {d}: {}", show_case(types, t, b))
            });
        }
    });
    ctx.nodes(st);
}

// ------------------------------------------------------------------ targets with a failing part

thread_local! {
    static RAISED: Cell<u32> = const { Cell::new(0) };
}
/// A target whose visitor always fails with its own error.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct FailT;
struct FailTV<R>(PhantomData<R>);
impl<R: TypeResolver> Visitor for FailTV<R> {
    type Value<'scale, 'resolver> = FailT;
    type Error = Error;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(self, _: scale_decode::visitor::Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        RAISED.with(|r| r.set(r.get() + 1));
        Err(Error::custom_str("my own error"))
    }
}
impl IntoVisitor for FailT {
    type AnyVisitor<R: TypeResolver> = FailTV<R>;
    fn into_visitor<R: TypeResolver>() -> FailTV<R> {
        FailTV(PhantomData)
    }
}

#[allow(dead_code)]
#[derive(DecodeAsType)]
struct Named {
    a: u8,
    f: FailT,
    z: String,
}
#[allow(dead_code)]
#[derive(DecodeAsType)]
struct Sub {
    f: FailT,
}
#[allow(dead_code)]
#[derive(DecodeAsType)]
struct Pos(u8, FailT, String);
#[allow(dead_code)]
#[derive(DecodeAsType)]
enum En {
    A(u8, FailT, String),
    B { a: u8, f: FailT },
    C,
}
#[allow(dead_code)]
#[derive(DecodeAsType)]
struct Outer {
    n: Named,
    z: u16,
}

type RunT = fn(&mut &[u8], Tid, &Types) -> Result<(), Error>;
fn by_id<T: DecodeAsType>(b: &mut &[u8], t: Tid, types: &Types) -> Result<(), Error> {
    T::decode_as_type(b, t, types).map(|_| ())
}
fn by_fields<T: DecodeAsFields>(b: &mut &[u8], t: Tid, types: &Types) -> Result<(), Error> {
    let f: Vec<Field<'_, Tid>> = match types.get(t) {
        Def::Comp { fields, .. } => fields.iter().map(|(n, t)| Field::new(*t, n.as_deref())).collect(),
        Def::Tup(ts) => ts.iter().map(|t| Field::new(*t, None)).collect(),
        _ => panic!("harness: no fields"),
    };
    T::decode_as_fields(b, &mut f.into_iter(), types).map(|_| ())
}

fn targets(ty: &mut Types) -> Vec<(&'static str, RunT, Vec<Tid>)> {
    let (u, s, w) = (ty.u8(), ty.str(), ty.u16());
    let unk = ty.notfound();
    let f = ty.tup(&[s, u]);
    let mut v: Vec<(&'static str, RunT, Vec<Tid>)> = vec![];
    let seqs = vec![ty.seq(s), ty.arr(s, 2), ty.seq(f), ty.arr(f, 2)];
    v.push(("Vec<FailT>", by_id::<Vec<FailT>>, seqs.clone()));
    v.push(("VecDeque<FailT>", by_id::<VecDeque<FailT>>, seqs.clone()));
    v.push(("LinkedList<FailT>", by_id::<LinkedList<FailT>>, seqs.clone()));
    v.push(("[FailT; 2]", by_id::<[FailT; 2]>, seqs.clone()));
    v.push(("Box<FailT>", by_id::<Box<FailT>>, vec![s, f, u]));
    let map = ty.named(&[("k", s), ("l", u)]);
    let mapu = ty.named(&[("k", s), ("l", unk)]);
    v.push(("BTreeMap<String, FailT>", by_id::<BTreeMap<String, FailT>>, vec![map, mapu]));
    let opts = vec![ty.option(s), ty.option(f)];
    v.push(("Option<FailT>", by_id::<Option<FailT>>, opts));
    let res = vec![ty.result(s, f), ty.result(u, s)];
    v.push(("Result<FailT, u8>", by_id::<Result<FailT, u8>>, res.clone()));
    v.push(("Result<u8, FailT>", by_id::<Result<u8, FailT>>, res));
    let trip = |ty: &mut Types, a: Tid, b: Tid, c: Tid| -> Vec<Tid> {
        vec![ty.tup(&[a, b, c]), ty.unnamed(&[a, b, c]), ty.named(&[("a", a), ("f", b), ("z", c)]), ty.named(&[("z", c), ("f", b), ("a", a)])]
    };
    let mut t3 = trip(ty, u, s, s);
    t3.extend(trip(ty, u, f, s));
    t3.extend(trip(ty, u, s, unk));
    v.push(("(u8, FailT, String)", by_id::<(u8, FailT, String)>, t3.clone()));
    v.push(("(u8, FailT, String) from fields", by_fields::<(u8, FailT, String)>, t3.clone()));
    v.push(("(FailT, FailT, u8)", by_id::<(FailT, FailT, u8)>, t3.clone()));
    v.push(("(FailT, FailT, u8) from fields", by_fields::<(FailT, FailT, u8)>, t3.clone()));
    v.push(("Named", by_id::<Named>, t3.clone()));
    v.push(("Named from fields", by_fields::<Named>, t3.clone()));
    v.push(("Pos", by_id::<Pos>, t3.clone()));
    v.push(("Pos from fields", by_fields::<Pos>, t3.clone()));
    v.push(("Sub", by_id::<Sub>, t3.clone()));
    v.push(("Sub from fields", by_fields::<Sub>, t3.clone()));
    let one = vec![ty.tup(&[s]), ty.unnamed(&[f]), ty.named(&[("f", s)]), ty.tup(&[f])];
    v.push(("(FailT,)", by_id::<(FailT,)>, one.clone()));
    v.push(("(FailT,) from fields", by_fields::<(FailT,)>, one.clone()));
    v.push(("Sub, alone", by_id::<Sub>, one.clone()));
    v.push(("Sub, alone from fields", by_fields::<Sub>, one.clone()));
    // a tuple of one is also taken from what it holds, and containers from what they are transparent for
    let seqs2 = vec![ty.seq(s), ty.seq(f), ty.arr(s, 1), ty.arr(f, 2)];
    let (c, b, os, ch, i, un, big) = (ty.compact(w), ty.bits(scale_type_resolver::BitsStoreFormat::U8, scale_type_resolver::BitsOrderFormat::Lsb0), ty.option(s), ty.prim(P::Char), ty.prim(P::I16), ty.tup(&[]), ty.prim(P::U256));
    let mut each = vec![s, f, u, c, b, os, ch, i, un, big, unk];
    each.extend(one.iter());
    each.extend(&seqs2);
    each.extend(seqs.iter());
    macro_rules! each {
        ($($t:ty),* $(,)?) => { $(v.push((concat!(stringify!($t), " from all"), by_id::<$t>, each.clone()));)* };
    }
    each!(
        FailT, (FailT,), ((FailT,),), (((FailT,),),), Box<FailT>, (Box<FailT>,), Box<(FailT,)>, Rc<FailT>, Arc<FailT>, (Arc<(Rc<FailT>,)>,),
        Cow<'static, FailT>, (Cow<'static, (FailT,)>,), codec::Compact<FailT>, (codec::Compact<FailT>,), codec::Compact<(FailT,)>,
        (Vec<FailT>,), Vec<(FailT,)>, Vec<((FailT,),)>, VecDeque<(FailT,)>, LinkedList<Box<FailT>>, BTreeSet<FailT>, BTreeSet<(FailT,)>,
        BinaryHeap<FailT>, BinaryHeap<(FailT,)>, [FailT; 1], [FailT; 2], [(FailT,); 1], ([FailT; 1],), [Box<FailT>; 2],
        Option<FailT>, Option<(FailT,)>, (Option<FailT>,), Option<Box<FailT>>, Option<Vec<FailT>>,
    );
    let mut maps = vec![map, mapu];
    maps.extend(&one);
    macro_rules! on {
        ($from:expr, $($t:ty),* $(,)?) => { $(v.push((stringify!($t), by_id::<$t>, $from.clone()));)* };
    }
    on!(maps, BTreeMap<String, (FailT,)>, (BTreeMap<String, FailT>,), BTreeMap<String, Box<FailT>>, BTreeMap<String, Option<FailT>>);
    let two = vec![ty.tup(&[s, u]), ty.tup(&[f, s]), ty.named(&[("start", s), ("end", unk)]), ty.unnamed(&[u, f])];
    on!(two, core::ops::Range<FailT>, core::ops::RangeInclusive<FailT>, core::ops::Range<(FailT,)>, (core::ops::Range<FailT>,), (FailT, FailT), ((FailT,), u8), (u8, (FailT,)), (Box<FailT>, Vec<FailT>));
    let resu = vec![ty.result(s, u), ty.result(f, s), ty.result(u, c)];
    on!(resu, Result<FailT, FailT>, Result<(FailT,), (FailT,)>, (Result<FailT, FailT>,), Result<Box<FailT>, u8>, Result<Result<FailT, u8>, Vec<FailT>>);
    let mut outer = vec![];
    for x in &t3 {
        outer.push(ty.named(&[("n", *x), ("z", w)]));
        outer.push(ty.tup(&[*x, w]));
    }
    v.push(("Outer", by_id::<Outer>, outer.clone()));
    v.push(("Outer from fields", by_fields::<Outer>, outer.clone()));
    v.push(("(Named, u16) from fields", by_fields::<(Named, u16)>, outer.clone()));
    let en = vec![
        ty.var(&[("A", 0, &[("", u), ("", s), ("", s)]), ("B", 1, &[("a", u), ("f", f)]), ("C", 2, &[])]),
        ty.var(&[("A", 4, &[("", u), ("", f), ("", unk)]), ("B", 1, &[("f", s), ("a", u), ("x", s)])]),
    ];
    v.push(("En", by_id::<En>, en.clone()));
    let ens: Vec<Tid> = en.iter().map(|e| ty.seq(*e)).collect();
    v.push(("Vec<En>", by_id::<Vec<En>>, ens));
    v
}

fn body(ctx: &mut Ctx) {
    let mut uni = universe(ctx.by_tier(1, 2));
    let shallow: HashSet<Tid> = uni.roots.iter().copied().collect();
    {
        let t = &mut uni.types;
        // what is left unread may not even have a known type
        let (nf, fl, u) = (t.notfound(), t.failing(), t.u8());
        let mut more = vec![];
        for x in [nf, fl] {
            let seq = t.seq(x);
            for y in [x, seq] {
                more.extend(ctors(t, y));
                more.push(t.tup(&[u, y, u]));
            }
        }
        if ctx.quick() {
            for r in reps(t) {
                for x in ctors(t, r) {
                    more.push(t.tup(&[x, u]));
                    more.push(t.seq(x));
                    more.push(t.var(&[("A", 1, &[("", x), ("", u)])]));
                }
            }
        }
        uni.roots.extend(more);
    }
    let types = &uni.types;
    for &t in &uni.roots {
        ctx.case(
            || format!("failing visitors on {}", types.show(t)),
            |ctx| {
                let all = traces(ctx, types, t, GenOpts { max_depth: 6, long: false, ..GenOpts::ALL }, 1, 3_000);
                let default = all[0].clone();
                let dev = ctx.by_tier(2, 3);
                explore_bytes(ctx, types, t, &default, dev, 400_000, "own-error");
                for c in cuts(default.len()) {
                    let cdev = if ctx.quick() || default.len() > 16 || !shallow.contains(&t) { 1 } else { 2 };
                    explore_bytes(ctx, types, t, &default[..c], cdev, 100_000, "own-error-cut");
                }
                for b in all.iter().skip(1) {
                    if b.len() > 80 && ctx.quick() {
                        continue;
                    }
                    explore_bytes(ctx, types, t, b, 1, 20_000, "own-error-other");
                }
                ctx.sample(|| format!("{}: {} byte traces and all cuts of the first", types.show(t), all.len()));
            },
        );
    }
    let mut types = Types::new();
    let tg = targets(&mut types);
    let types = &types;
    for (name, run, srcs) in &tg {
        ctx.case(
            || format!("failing part of {name}"),
            |ctx| {
                for &t in srcs {
                    let mut all = traces(ctx, types, t, GenOpts { max_depth: 6, long: false, ..GenOpts::ALL }, ctx.by_tier(1, 2), 20_000);
                    let mut seen: HashSet<Vec<u8>> = all.iter().cloned().collect();
                    for b in all.clone() {
                        for c in cuts(b.len()) {
                            if seen.insert(b[..c].to_vec()) {
                                all.push(b[..c].to_vec());
                            }
                        }
                    }
                    for b in &all {
                        RAISED.with(|r| r.set(0));
                        let mut input = &b[..];
                        let r = ctx.lib(|| run(&mut input, t, types));
                        ctx.trace();
                        ctx.state(&(*name, t, b));
                        let raised = RAISED.with(|r| r.get());
                        let bad = match r {
                            Err(Panicked(p)) => Some(format!("panicked: {p}")),
                            Ok(Ok(())) if raised > 0 => Some("succeeded although a part failed".into()),
                            Ok(Err(e)) if raised > 0 => {
                                let ok = matches!(e.kind(), ErrorKind::Custom(c) if c.to_string() == "my own error");
                                ctx.outcome("custom-error");
                                (!ok).then(|| format!("a part failed with its own error, decoding with [{e}]"))
                            }
                            _ => None,
                        };
                        if let Some(d) = bad {
                            ctx.violation(&format!("target:{name}:{}:{}", types.show(t), hex(b)), || {
                                format!("decoding into {name} {d}: {}", show_case(types, t, b))
                            });
                        }
                    }
                }
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C08",
        states_are: "states: distinct (type, bytes, visitor decision sequence) and (target, type, bytes); transitions: visitor callbacks and library calls; traces: complete decodes in which every error a visitor returned was compared with what came out one level up",
        bounds: |t| match t {
            Tier::Quick => "types: leaves, compact wrappers, constructors over each, corner shapes, constructors over 9 representatives, unknown types and failing resolvers in every constructor; visitors failing (before reading, after one item, after all, after skipping, after iterating), replacing or ignoring inner errors: 2 decisions on the default value, 1 on all its truncations and on boundary and malformed bytes; 80 targets with a failing part, by type ID and by fields, all truncations".into(),
            Tier::Thorough => "as quick with types nested twice, 3 decisions on default values, 2 on their truncations".into(),
        },
        assumptions: &["errors of visitors compare by value"],
        require: &["own-error", "own-error-cut", "own-error-other", "custom-error"],
        body,
    })
}

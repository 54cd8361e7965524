//! C04: no input makes decoding panic, overflow, abort or run away.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::plan::{self, replaced};
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor, TypeIdFor, Visitor};
use scale_decode::{DecodeAsType, Field};
use std::collections::*;

mc::use_target_types!();

/// Calls everything there is to call on every handle and carries on after errors.
#[derive(Clone, Copy)]
struct Poke {
    /// Items read from one container; errors do not end it.
    max: usize,
    order: bool,
}
impl Poke {
    fn cont<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H) -> Result<(), DecodeError> {
        let _ = (h.remaining(), h.empty(), h.start().len(), h.rest().len());
        if let Some(c) = h.composite() {
            let _ = (c.peek_name(), c.has_unnamed_fields(), c.fields().len(), c.path().count(), c.name());
            if self.order {
                let mut t = c.as_tuple();
                let _ = t.decode_item(*self);
                let _ = t.next();
                let _ = t.skip_decoding();
                let _ = t.decode_item(*self);
                let _ = (t.remaining(), t.bytes_from_undecoded().len());
            }
        }
        for i in 0..self.max {
            if (i % 2 == 0) == self.order {
                if let Some(Ok(it)) = h.next_item() {
                    let _ = it.decode_with_visitor(*self);
                    let _ = it.decode_as_type::<u8>();
                    let _ = it.decode_as_type::<Vec<u8>>();
                    let _ = it.decode_as_type::<String>();
                    let _ = (it.bytes().len(), it.type_id(), it.name(), it.is_compact());
                }
            } else {
                let _ = h.item(*self);
            }
            let _ = (h.remaining(), h.rest().len());
        }
        let r = h.skip();
        let _ = h.item(*self);
        let _ = h.next_item();
        let _ = h.skip();
        let _ = (h.remaining(), h.rest().len());
        if self.order {
            r
        } else {
            Ok(())
        }
    }
}
macro_rules! nops {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Ok(())
        })*
    };
}
macro_rules! pokes {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.cont(v)
        })*
    };
}
impl Visitor for Poke {
    type Value<'scale, 'resolver> = ();
    type Error = DecodeError;
    type TypeResolver = Types;
    nops! {
        visit_bool: bool; visit_char: char;
        visit_u8: u8; visit_u16: u16; visit_u32: u32; visit_u64: u64; visit_u128: u128;
        visit_i8: i8; visit_i16: i16; visit_i32: i32; visit_i64: i64; visit_i128: i128;
    }
    pokes! {
        visit_sequence: &mut Sequence<'scale, 'resolver, Types>;
        visit_array: &mut Array<'scale, 'resolver, Types>;
        visit_tuple: &mut Tuple<'scale, 'resolver, Types>;
        visit_composite: &mut Composite<'scale, 'resolver, Types>;
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let _ = (s.len(), s.is_empty(), s.bytes_from_start().len());
        let _ = s.bytes_after();
        let _ = s.as_str();
        Ok(())
    }
    fn visit_bitsequence<'scale, 'resolver>(self, b: &mut BitSequence<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let _ = b.bytes_from_start().len();
        let _ = b.bytes_after();
        if let Ok(d) = b.decode() {
            // a bit sequence never yields more bits than the input has
            let max = b.bytes_from_start().len() * 8;
            assert!(d.take(max + 9).count() <= max + 8, "more bits than the input holds");
        }
        let _ = b.bytes_after();
        Ok(())
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let _ = (v.name(), v.index(), v.bytes_from_start().len(), v.bytes_from_undecoded().len());
        let r = self.cont(v.fields());
        let _ = v.skip_decoding();
        let _ = v.bytes_from_undecoded().len();
        r
    }
}

/// How many types may be resolved while decoding: every item takes bytes or is one of the few without.
fn limit(b: &[u8]) -> u64 {
    4_000_000 + 2_000 * b.len() as u64
}

fn one(ctx: &mut Ctx, what: &str, types: &Types, t: Tid, b: &[u8], f: impl FnOnce(&mut &[u8]) -> bool) {
    let mut input = b;
    watch_resolves(limit(b));
    let r = ctx.lib(|| f(&mut input));
    watch_resolves(u64::MAX);
    ctx.trace();
    let bad = match r {
        Err(Panicked(p)) => Some(format!("panicked: {p}")),
        Ok(ok) => {
            ctx.outcome(if ok { "value" } else { "error" });
            suffix(b, input).is_none().then(|| "left the input at something that is no suffix of it".to_string())
        }
    };
    if let Some(d) = bad {
        ctx.violation(&format!("{what}:{}:{}", types.show(t), hex(b)), || format!("{what} {d}: {}", show_case(types, t, b)));
    }
}

/// How deeply values nest without taking any bytes for it, up to a limit.
fn bare_depth(types: &Types, t: Tid, max: usize) -> usize {
    if max == 0 {
        return 0;
    }
    let sub = |t: Tid| 1 + bare_depth(types, t, max - 1);
    match types.get(t) {
        Def::Comp { fields, .. } => fields.iter().map(|f| sub(f.1)).max().unwrap_or(0),
        Def::Tup(ts) => ts.iter().map(|t| sub(*t)).max().unwrap_or(0),
        Def::Var { vars, .. } => vars.iter().flat_map(|v| &v.fields).map(|f| bare_depth(types, f.1, max - 1)).max().unwrap_or(0),
        Def::Arr(t, _) | Def::Seq(t) => bare_depth(types, *t, max - 1),
        _ => 0,
    }
}

fn visit_all(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8]) {
    ctx.state(&(t, b));
    for m in [Mode::Items, Mode::IterLate, Mode::AsTuple] {
        let env = Env::new(types, b, m);
        one(ctx, "recording visitor", types, t, b, |i| match decode_with_visitor(i, t, types, RecV { env: &env }) {
            Ok(_) => true,
            Err(e) => {
                let _ = format!("{e:?}");
                false
            }
        });
        ctx.transitions(env.steps.get());
    }
    one(ctx, "ignoring visitor", types, t, b, |i| match decode_with_visitor(i, t, types, IgnoreVisitor::<Types>::new()) {
        Ok(()) => true,
        Err(e) => {
            let _ = (format!("{e:?}"), e.to_string());
            false
        }
    });
    // the number of pokes at a container grows with each level
    if bare_depth(types, t, 12) == 12 {
        return;
    }
    for (max, order) in [(2, true), (2, false)] {
        one(ctx, "poking visitor", types, t, b, |i| decode_with_visitor(i, t, types, Poke { max, order }).is_ok());
    }
}

fn target(ctx: &mut Ctx, name: &str, run: Run<Types>, types: &Types, t: Tid, b: &[u8]) {
    ctx.state(&(name, t, b));
    one(ctx, name, types, t, b, |i| match run(i, t, types) {
        Ok(_) => true,
        Err(e) => {
            // errors must be printable too
            let _ = (e.to_string(), format!("{e:?}"), e.context().path().locations().count());
            false
        }
    });
}

fn over_alphabet(ctx: &mut Ctx, max: usize, mut f: impl FnMut(&mut Ctx, &[u8])) {
    let alpha = [0u8, 1, 2, 3, 4, 5, 8, 0x13, 0x61, 0x80, 0xc8, 0xfe, 0xff];
    f(ctx, &[]);
    for len in 1..=max {
        let st = explore(0, 0, |ch| {
            let b: Vec<u8> = (0..len).map(|_| alpha[ch.free(alpha.len())]).collect();
            f(ctx, &b);
        });
        ctx.nodes(st);
    }
}

/// Arrays and sequences that claim far more than there is.
fn hostile(ty: &mut Types) -> Vec<Tid> {
    let (u, s, w) = (ty.u8(), ty.str(), ty.u64());
    let mut v = vec![];
    for n in [1usize << 14, 1 << 20, u32::MAX as usize, 1 << 33, usize::MAX / 8, usize::MAX - 1, usize::MAX] {
        for e in [u, s, w] {
            let a = ty.arr(e, n);
            v.push(a);
            v.push(ty.tup(&[a, u]));
            v.push(ty.seq(a));
            v.push(ty.named(&[("a", a), ("b", a)]));
            v.push(ty.option(a));
            v.push(ty.arr(a, n));
        }
    }
    v
}

fn usable(types: &Types, t: Tid, b: &[u8]) -> bool {
    refdec(types, t, b) != Err(RErr::Depth)
}

#[derive(DecodeAsType)]
#[allow(dead_code)]
enum DeepE {
    Null,
    One(Box<DeepE>),
    Many(Vec<DeepE>),
    Named { inner: Box<DeepE>, extra: u8 },
}

fn nested_input(kind: usize, depth: usize) -> (Types, Tid, Vec<u8>) {
    let mut ty = Types::new();
    let u = ty.u8();
    let mut t = u;
    let mut b = vec![7u8];
    for i in 0..depth {
        match (kind, i % 3) {
            (0, _) | (6, 0) => {
                t = ty.add_fresh(Def::Seq(t));
                b.insert(0, 4);
            }
            (1, _) => t = ty.add_fresh(Def::Arr(t, 1)),
            (2, _) | (6, 1) => t = ty.add_fresh(Def::Tup(vec![t])),
            (3, _) => t = ty.add_fresh(Def::Comp { path: vec!["C".into()], fields: vec![(Some("a".into()), t)] }),
            (4, _) | (6, _) => {
                t = ty.add_fresh(Def::Var {
                    path: vec![],
                    vars: vec![VDef { name: "Some".into(), index: 1, fields: vec![(None, t)] }],
                });
                b.insert(0, 1);
            }
            _ => t = ty.add_fresh(Def::Tup(vec![t, u])),
        }
    }
    if kind == 5 {
        b.extend(vec![1u8; depth]);
    }
    (ty, t, b)
}

fn deep(ctx: &mut Ctx) {
    // nesting of bounded depth, in a stack of the size threads usually get
    const DEPTH: usize = 128;
    for kind in 0..7 {
        for cut in [0usize, 1] {
            ctx.case(
                || format!("nesting {DEPTH} deep, kind {kind}, cut {cut}"),
                |ctx| {
                    let (types, t, b) = nested_input(kind, DEPTH);
                    let b = &b[..b.len() - cut];
                    ctx.state(&(kind, b));
                    let types = &types;
                    let r = ctx.lib(|| {
                        std::thread::scope(|s| {
                            std::thread::Builder::new()
                                .stack_size(2 << 20)
                                .spawn_scoped(s, || {
                                    let mut i = b;
                                    let a = decode_with_visitor(&mut i, t, types, IgnoreVisitor::<Types>::new()).is_ok();
                                    let mut i = b;
                                    let c = decode_with_visitor(&mut i, t, types, Poke { max: 1, order: false }).is_ok();
                                    let mut i = b;
                                    let d = u8::decode_as_type(&mut i, t, types).is_ok();
                                    (a, c, d)
                                })
                                .unwrap()
                                .join()
                                .map_err(|_| ())
                        })
                    });
                    ctx.trace();
                    match r {
                        Ok(Ok((a, _, d))) => {
                            ctx.outcome("deep");
                            let scalar = matches!(kind, 2 | 3);
                            if a != (cut == 0) || d != (cut == 0 && scalar) {
                                ctx.violation(&format!("deep:{kind}:{cut}"), || {
                                    format!("nesting of depth {DEPTH}: ignoring gave {a}, decoding into u8 {d}")
                                });
                            }
                        }
                        _ => ctx.violation(&format!("deep:{kind}:{cut}"), || "panicked".into()),
                    }
                },
            );
        }
    }
    ctx.case(
        || "recursive target".to_string(),
        |ctx| {
            let mut ty = Types::new();
            let u = ty.u8();
            let e = ty.add_fresh(Def::NotFound);
            let many = ty.seq(e);
            let v = |name: &str, index: u8, fields: Vec<(Option<String>, Tid)>| VDef { name: name.into(), index, fields };
            ty.set(
                e,
                Def::Var {
                    path: vec![],
                    vars: vec![
                        v("Null", 0, vec![]),
                        v("One", 1, vec![(None, e)]),
                        v("Many", 2, vec![(None, many)]),
                        v("Named", 3, vec![(Some("extra".into()), u), (Some("inner".into()), e)]),
                    ],
                },
            );
            for kind in 0..3usize {
                let mut b = vec![];
                for _ in 0..64 {
                    b.extend_from_slice([&[1u8][..], &[2, 4], &[3, 9]][kind]);
                }
                for end in [&[0u8][..], &[], &[9]] {
                    let mut b = b.clone();
                    b.extend_from_slice(end);
                    let (b, ty) = (&b[..], &ty);
                    ctx.state(&(kind, b));
                    let r = ctx.lib(|| {
                        std::thread::scope(|s| {
                            std::thread::Builder::new()
                                .stack_size(2 << 20)
                                .spawn_scoped(s, || DeepE::decode_as_type(&mut &*b, e, ty).map(|_| ()).map_err(|e| e.to_string()))
                                .unwrap()
                                .join()
                                .map_err(|_| ())
                        })
                    });
                    ctx.trace();
                    match r {
                        Ok(Ok(r)) => {
                            ctx.outcome("deep");
                            if r.is_ok() != (end == [0]) {
                                ctx.violation(&format!("deep-target:{kind}"), || format!("recursive target {kind} ended with {r:?}"));
                            }
                        }
                        _ => ctx.violation(&format!("deep-target:{kind}"), || "panicked".into()),
                    }
                }
            }
        },
    );
}

fn body(ctx: &mut Ctx) {
    // 1. visitors on every kind of bytes, with unknown types and failing resolvers in the types
    let mut uni = universe(ctx.by_tier(1, 2));
    {
        let ty = &mut uni.types;
        let (nf, fl) = (ty.notfound(), ty.failing());
        let mut more = vec![nf, fl];
        let mut base: Vec<Tid> = vec![];
        for r in reps(ty) {
            base.extend(ctors(ty, r));
        }
        if ctx.quick() {
            let b2 = base.clone();
            for x in b2.iter().step_by(5) {
                more.extend(ctors(ty, *x));
            }
        }
        for x in base {
            more.extend(replaced(ty, x, nf, 2));
            more.extend(replaced(ty, x, fl, 2));
        }
        more.extend(bad_compact_types(ty));
        let mut seen: HashSet<Tid> = uni.roots.iter().copied().collect();
        more.retain(|t| seen.insert(*t));
        uni.roots.extend(more);
    }
    let types = &uni.types;
    for &t in &uni.roots {
        ctx.case(
            || format!("visitors on {}", types.show(t)),
            |ctx| {
                let dev = ctx.by_tier(1, 2);
                let all = traces(ctx, types, t, GenOpts { max_depth: 6, ..GenOpts::ALL }, dev, ctx.by_tier(5_000, 20_000));
                let mut seen: HashSet<&[u8]> = HashSet::new();
                for b in &all {
                    for c in cuts(b.len()).into_iter().chain([b.len()]) {
                        if seen.insert(&b[..c]) && usable(types, t, &b[..c]) {
                            visit_all(ctx, types, t, &b[..c]);
                        }
                    }
                }
                ctx.sample(|| format!("{}: {} byte strings", types.show(t), seen.len()));
            },
        );
    }
    // 2. arbitrary bytes
    let raw = universe(1);
    let types = &raw.types;
    let len = ctx.by_tier(3, 4);
    for &t in &raw.roots {
        ctx.case(
            || format!("arbitrary bytes as {}", types.show(t)),
            |ctx| {
                over_alphabet(ctx, len, |ctx, b| {
                    if usable(types, t, b) {
                        visit_all(ctx, types, t, b)
                    }
                });
            },
        );
    }
    // 3. targets
    for e in mc::all::all() {
        ctx.case(
            || format!("hostile bytes into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let mut srcs = plan::sources(&mut types, &tgt);
                let (nf, fl) = (types.notfound(), types.failing());
                let good = srcs.clone();
                for t in good.iter().take(ctx.by_tier(4, 12)) {
                    srcs.extend(replaced(&mut types, *t, nf, 2));
                    srcs.extend(replaced(&mut types, *t, fl, 2));
                }
                let mut once = HashSet::new();
                srcs.retain(|t| once.insert(*t));
                let types = &types;
                let mut tried = 0u64;
                for &t in &srcs {
                    let all = traces(ctx, types, t, GenOpts { max_depth: 6, ..GenOpts::ALL }, ctx.by_tier(1, 2), ctx.by_tier(3_000, 8_000));
                    let mut seen: HashSet<&[u8]> = HashSet::new();
                    for b in &all {
                        for c in cuts(b.len()).into_iter().chain([b.len()]) {
                            if (!ctx.quick() || c < 12 || c == b.len() || c % 5 == 0) && seen.insert(&b[..c]) && usable(types, t, &b[..c]) {
                                target(ctx, e.name, e.run, types, t, &b[..c]);
                                tried += 1;
                            }
                        }
                    }
                }
                for &t in good.iter().take(2) {
                    over_alphabet(ctx, ctx.by_tier(2, 4), |ctx, b| {
                        if usable(types, t, b) {
                            target(ctx, e.name, e.run, types, t, b);
                        }
                    });
                }
                ctx.sample(|| format!("{}: {} source types, {tried} byte strings", e.name, srcs.len()));
            },
        );
    }
    // 4. from lists of fields
    for f in mc::all::by_fields() {
        ctx.case(
            || format!("hostile bytes by fields into {}", f.e.name),
            |ctx| {
                let tgt = (f.e.tgt)();
                let mut types = Types::new();
                let mut srcs = plan::sources(&mut types, &tgt);
                let (nf, fl) = (types.notfound(), types.failing());
                for t in srcs.clone().iter().take(3) {
                    srcs.extend(replaced(&mut types, *t, nf, 1));
                    srcs.extend(replaced(&mut types, *t, fl, 1));
                }
                let types = &types;
                for &t in &srcs {
                    let fields: Vec<Field<'_, Tid>> = match types.get(t) {
                        Def::Comp { fields, .. } => fields.iter().map(|(n, t)| Field::new(*t, n.as_deref())).collect(),
                        Def::Tup(ts) => ts.iter().map(|t| Field::new(*t, None)).collect(),
                        _ => continue,
                    };
                    let all = traces(ctx, types, t, GenOpts { max_depth: 6, ..GenOpts::ALL }, 1, 3_000);
                    for b in &all {
                        for c in cuts(b.len()).into_iter().chain([b.len()]) {
                            if !usable(types, t, &b[..c]) {
                                continue;
                            }
                            let run = f.fields;
                            one(ctx, f.e.name, types, t, &b[..c], |i| match run(i, &mut fields.iter().copied(), types) {
                                Ok(_) => true,
                                Err(e) => {
                                    let _ = (e.to_string(), format!("{e:?}"));
                                    false
                                }
                            });
                        }
                    }
                }
            },
        );
    }
    // 5. type information that claims more than could be
    let mut ty = Types::new();
    let host = hostile(&mut ty);
    let types = &ty;
    for &t in &host {
        ctx.case(
            || format!("claims of {}", types.show(t)),
            |ctx| {
                for b in [&[][..], &[0], &[1], &[4], &[4, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[0; 40], &[4; 40], &[1, 0xff, 0xff]] {
                    visit_all(ctx, types, t, b);
                    for e in mc::entries![Vec<u8>, Vec<String>, VecDeque<u8>, BTreeSet<u8>, BinaryHeap<u16>, [u8; 2], [String; 2], Vec<Vec<u8>>, Option<Vec<u8>>, (Vec<u8>, u8), LinkedList<u8>, H256, Box<Vec<u8>>, u8, String] {
                        target(ctx, e.name, e.run, types, t, b);
                    }
                }
            },
        );
    }
    deep(ctx);
}

fn main() {
    mc::run::main(Spec {
        id: "C04",
        states_are: "states: distinct (type, bytes) and (target, type, bytes); transitions: visitor callbacks and library calls; traces: complete decodes under overflow checks and panic, crash, hang and resolver-call monitors",
        bounds: |t| match t {
            Tier::Quick => "types: leaves, compact wrappers, constructors over each, corner shapes, unknown types and failing resolvers in every position of constructors over 9 representatives, arrays of up to usize::MAX items; bytes: boundary, invalid and over-long encodings with <=1 deviation and their truncations, alphabet-13 strings of <=3 bytes; 6 visitors, 235 targets and 80 field-list targets; nesting 128 deep in a 2 MiB stack".into(),
            Tier::Thorough => "as quick with types nested twice, <=2 deviations, alphabet-13 strings of <=4 bytes".into(),
        },
        assumptions: &["the build has overflow checks and debug assertions on", "sequences of zero-sized elements with claimed lengths beyond 2^17 and recursive types without a bound on depth are left out"],
        require: &["value", "error", "deep"],
        body,
    })
}

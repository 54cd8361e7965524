//! C05: memory use is bounded by the input, not by lengths it claims.
use mc::alloc;
use mc::core_checks::*;
use mc::gen::*;
use mc::plan;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use mc::universe::*;
use mc::walk::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::Field;
use std::collections::HashSet;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// How much a decode may hold at once.
fn bound(b: &[u8]) -> i64 {
    (64 << 10) + 1024 * b.len() as i64
}

/// Can values of this type take no bytes at all?
fn may_be_empty(types: &Types, t: Tid, d: usize) -> bool {
    d == 0
        || match types.get(t) {
            Def::Tup(v) => v.iter().all(|t| may_be_empty(types, *t, d - 1)),
            Def::Comp { fields, .. } => fields.iter().all(|f| may_be_empty(types, f.1, d - 1)),
            Def::Arr(t, n) => *n == 0 || may_be_empty(types, *t, d - 1),
            Def::Compact(t) => may_be_empty(types, *t, d - 1),
            _ => false,
        }
}
/// Is there a sequence or array of such in it?
fn has_empty_items(types: &Types, t: Tid, seen: &mut HashSet<Tid>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match types.get(t) {
        Def::Seq(e) => may_be_empty(types, *e, 20) || has_empty_items(types, *e, seen),
        Def::Arr(e, n) => (*n > 0 && may_be_empty(types, *e, 20)) || has_empty_items(types, *e, seen),
        Def::Compact(e) => has_empty_items(types, *e, seen),
        Def::Tup(v) => v.iter().any(|t| has_empty_items(types, *t, seen)),
        Def::Comp { fields, .. } => fields.iter().any(|f| has_empty_items(types, f.1, seen)),
        Def::Var { vars, .. } => vars.iter().flat_map(|v| &v.fields).any(|f| has_empty_items(types, f.1, seen)),
        _ => false,
    }
}

fn claims(quick: bool) -> Vec<u128> {
    let mut v: Vec<u128> = vec![1 << 16, 1 << 20, (1 << 30) - 1, 1 << 30, (1 << 32) - 1];
    if !quick {
        v.extend([100, 1 << 14, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 31]);
    }
    v.extend([1 << 40, 1 << 60, (1 << 61) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]);
    v
}

/// Where the length prefixes are: (start, end of the prefix).
fn prefixes(n: &Node, b: &[u8], out: &mut Vec<(usize, usize)>) {
    let width = |at: usize| match b[at] & 3 {
        0 => 1,
        1 => 2,
        2 => 4,
        _ => 5 + (b[at] >> 2) as usize,
    };
    match &n.k {
        K::Seq(_) | K::Bits(_) | K::Str { .. } => out.push((n.start, n.start + width(n.start))),
        _ => {}
    }
    for c in n.children() {
        prefixes(c, b, out);
    }
}

/// The value with each of its lengths replaced by claims, followed by what was there or cut short.
fn inflated(b: &[u8], n: &Node, quick: bool) -> Vec<Vec<u8>> {
    let mut p = vec![];
    prefixes(n, b, &mut p);
    p.dedup();
    let mut out = vec![];
    for &(s, e) in p.iter().take(if quick { 6 } else { 40 }) {
        for c in claims(quick) {
            let mut v = b[..s].to_vec();
            compact(c, &mut v);
            out.push(v.clone());
            v.extend_from_slice(&b[e..]);
            out.push(v.clone());
            if !quick {
                v.extend_from_slice(&[1; 64]);
                out.push(v);
            }
        }
    }
    // all lengths at once
    if p.len() > 1 {
        for c in claims(quick) {
            let mut v = vec![];
            let mut at = 0;
            for &(s, e) in &p {
                if s < at {
                    continue;
                }
                v.extend_from_slice(&b[at..s]);
                compact(c, &mut v);
                at = e;
            }
            v.extend_from_slice(&b[at..]);
            out.push(v);
        }
    }
    out
}

struct Seen {
    most: f64,
    what: String,
}

fn measure(ctx: &mut Ctx, seen: &mut Seen, what: &str, types: &Types, t: Tid, b: &[u8], f: impl FnOnce() -> bool) {
    let short = refdec(types, t, b);
    if short == Err(RErr::Depth) {
        return;
    }
    if !ctx.state(&(what, t, b)) {
        return;
    }
    let r = ctx.lib(|| {
        alloc::start();
        let r = f();
        (r, alloc::stop())
    });
    ctx.trace();
    let show = || format!("{what}: {}", show_case(types, t, b));
    match r {
        Err(Panicked(p)) => {
            let _ = alloc::stop();
            ctx.violation(&format!("{what}:{}:{}", types.show(t), hex(b)), || format!("panicked: {p}: {}", show()));
        }
        Ok((ok, s)) => {
            ctx.outcome(if ok { "value" } else { "error" });
            ctx.transitions(s.allocs);
            let used = s.peak as f64 / bound(b) as f64;
            if used > seen.most {
                seen.most = used;
                seen.what = format!("{} bytes held for {} of input: {}", s.peak, b.len(), show());
            }
            if s.peak > bound(b) {
                ctx.violation(&format!("{what}:{}:{}", types.show(t), hex(b)), || {
                    format!("held {} bytes at once (largest request {}) for {} bytes of input: {}", s.peak, s.largest, b.len(), show())
                });
            } else if ok && short.is_err() {
                ctx.violation(&format!("{what}:{}:{}", types.show(t), hex(b)), || format!("claims more than it holds, but gives a value: {}", show()));
            }
        }
    }
}

/// The type with large arrays for its arrays and sequences.
fn with_arrays(ty: &mut Types, t: Tid, n: usize, d: usize) -> Vec<Tid> {
    let mut out = vec![];
    if d == 0 {
        return out;
    }
    match ty.get(t).clone() {
        Def::Seq(e) | Def::Arr(e, _) => {
            out.push(ty.arr(e, n));
            for x in with_arrays(ty, e, n, d - 1) {
                out.push(ty.seq(x));
                out.push(ty.arr(x, 1));
                out.push(ty.arr(x, n));
            }
        }
        Def::Tup(v) => {
            for i in 0..v.len().min(3) {
                for x in with_arrays(ty, v[i], n, d - 1) {
                    let mut v = v.clone();
                    v[i] = x;
                    out.push(ty.tup(&v));
                }
            }
        }
        Def::Comp { path, fields } => {
            for i in 0..fields.len().min(3) {
                for x in with_arrays(ty, fields[i].1, n, d - 1) {
                    let mut f = fields.clone();
                    f[i].1 = x;
                    out.push(ty.add(Def::Comp { path: path.clone(), fields: f }));
                }
            }
        }
        Def::Var { path, vars } => {
            for i in 0..vars.len().min(3) {
                for j in 0..vars[i].fields.len().min(2) {
                    for x in with_arrays(ty, vars[i].fields[j].1, n, d - 1) {
                        let mut v = vars.clone();
                        v[i].fields[j].1 = x;
                        out.push(ty.add(Def::Var { path: path.clone(), vars: v }));
                    }
                }
            }
        }
        _ => {}
    }
    out
}

fn array_types(ty: &mut Types, srcs: &[Tid], quick: bool) -> Vec<Tid> {
    let lens: &[usize] = if quick {
        &[1 << 16, 1 << 20, u32::MAX as usize, 1 << 48, usize::MAX / 2, usize::MAX]
    } else {
        &[1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 28, u32::MAX as usize, 1 << 32, 1 << 40, 1 << 48, 1 << 56, usize::MAX / 16, usize::MAX / 8, usize::MAX / 2, usize::MAX - 1, usize::MAX]
    };
    let mut out = vec![];
    for &t in srcs {
        for &n in lens {
            out.extend(with_arrays(ty, t, n, 3));
        }
    }
    let mut seen = HashSet::new();
    out.retain(|t| seen.insert(*t));
    out
}

fn go(ctx: &mut Ctx, types: &Types, t: Tid, cap: u64, dev: usize, mut f: impl FnMut(&mut Ctx, &[u8])) -> usize {
    if has_empty_items(types, t, &mut HashSet::new()) {
        return 0;
    }
    let quick = ctx.quick();
    let mut n = 0;
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    for (b, node) in valid_traces(ctx, types, t, GenOpts { long: true, max_depth: 6, ..GenOpts::VALID }, dev, cap) {
        // real data too: the bound must hold for what is there
        if seen.insert(b.clone()) {
            f(ctx, &b);
        }
        for i in inflated(&b, &node, quick) {
            if seen.insert(i.clone()) {
                f(ctx, &i);
                n += 1;
            }
        }
    }
    n
}

/// Long lists that are really there.
fn real(ctx: &mut Ctx, types: &mut Types, elems: &[Tid]) -> Vec<(Tid, Vec<u8>)> {
    let mut out = vec![];
    for &e in elems {
        if may_be_empty(types, e, 20) {
            continue;
        }
        let Some((one, _)) = valid_traces(ctx, types, e, GenOpts::VALID, 0, 0).into_iter().next() else { continue };
        for n in [200usize, 3000] {
            let mut b = vec![];
            compact(n as u128, &mut b);
            for _ in 0..n {
                b.extend_from_slice(&one);
            }
            out.push((types.seq(e), b));
        }
    }
    out
}

fn body(ctx: &mut Ctx) {
    // 1. targets
    let dev = ctx.by_tier(1, 2);
    for e in mc::all::all() {
        ctx.case(
            || format!("claims into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let mut srcs = plan::sources(&mut types, &tgt);
                let quick = ctx.quick();
                let arrays = array_types(&mut types, &srcs[..srcs.len().min(if quick { 12 } else { 60 })], quick);
                let elems: Vec<Tid> = srcs.iter().filter_map(|t| if let Def::Seq(e) = types.get(*t) { Some(*e) } else { None }).take(ctx.by_tier(6, 30)).collect();
                let long = real(ctx, &mut types, &elems);
                srcs.truncate(ctx.by_tier(120, usize::MAX));
                let types = &types;
                let mut seen = Seen { most: 0.0, what: String::new() };
                let mut n = 0;
                let cap = ctx.by_tier(2_000, 4_000);
                for &t in &srcs {
                    n += go(ctx, types, t, cap, dev, |ctx, b| {
                        measure(ctx, &mut seen, e.name, types, t, b, || (e.run)(&mut &*b, t, types).is_ok())
                    });
                }
                for &t in &arrays {
                    if has_empty_items(types, t, &mut HashSet::new()) {
                        continue;
                    }
                    for b in [&[][..], &[1], &[4, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0], &[1; 40], &[0; 40]] {
                        measure(ctx, &mut seen, e.name, types, t, b, || (e.run)(&mut &*b, t, types).is_ok());
                        n += 1;
                    }
                }
                for (t, b) in &long {
                    for c in [b.len(), b.len() - 1] {
                        measure(ctx, &mut seen, e.name, types, *t, &b[..c], || (e.run)(&mut &b[..c], *t, types).is_ok());
                    }
                }
                ctx.sample(|| format!("{}: {n} claims; closest to the bound: {:.4} {}", e.name, seen.most, seen.what));
                if std::env::var("MC_TIMES").is_ok() && seen.most > 0.3 {
                    eprintln!("{:.3} {}", seen.most, &seen.what[..seen.what.len().min(200)]);
                }
            },
        );
    }
    // 2. from lists of fields
    for f in mc::all::by_fields() {
        ctx.case(
            || format!("claims by fields into {}", f.e.name),
            |ctx| {
                let tgt = (f.e.tgt)();
                let mut types = Types::new();
                let srcs = plan::sources(&mut types, &tgt);
                let types = &types;
                let mut seen = Seen { most: 0.0, what: String::new() };
                for &t in srcs.iter().take(ctx.by_tier(2_000, 4_000)) {
                    let fields: Vec<(Option<String>, Tid)> = match types.get(t) {
                        Def::Comp { fields, .. } => fields.clone(),
                        Def::Tup(v) => v.iter().map(|t| (None, *t)).collect(),
                        _ => continue,
                    };
                    let cap = ctx.by_tier(2_000, 4_000);
                    go(ctx, types, t, cap, 1, |ctx, b| {
                        measure(ctx, &mut seen, f.e.name, types, t, b, || {
                            let mut it = fields.iter().map(|(n, t)| Field::new(*t, n.as_deref()));
                            (f.fields)(&mut &*b, &mut it, types).is_ok()
                        })
                    });
                }
            },
        );
    }
    // 3. ignoring and recording visitors
    let uni = universe(ctx.by_tier(1, 2));
    let types = &uni.types;
    for &t in &uni.roots {
        ctx.case(
            || format!("claims in {}", types.show(t)),
            |ctx| {
                let mut seen = Seen { most: 0.0, what: String::new() };
                let cap = ctx.by_tier(2_000, 4_000);
                go(ctx, types, t, cap, 1, |ctx, b| {
                    measure(ctx, &mut seen, "ignoring", types, t, b, || decode_with_visitor(&mut &*b, t, types, IgnoreVisitor::<Types>::new()).is_ok());
                    for mode in 0..9usize {
                        measure(ctx, &mut seen, ["walking 0", "walking 1", "walking 2", "walking 3", "walking 4", "walking 5", "walking 6", "walking 7", "walking 8"][mode], types, t, b, || {
                            let env = WEnv::fixed(b, mode);
                            decode_with_visitor(&mut &*b, t, types, Walk::<Types>::new(&env)).is_ok()
                        });
                    }
                });
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C05",
        states_are: "states: distinct (target, type, bytes); transitions: allocations and decodes observed; traces: complete decodes whose peak memory was compared with the bound 64 KiB + 1024 bytes per byte of input",
        bounds: |t| match t {
            Tier::Quick => "every built-in and derived target x up to 120 source types x valid values with <=1 deviation, each of the first 6 lengths in them (and all at once) replaced by 11 claims up to 2^64-1, cut after the claim or not; arrays of 6 lengths up to usize::MAX in the type information; lists of 200 and 3000 real items; decoding from field lists; ignoring and recording visitors over the depth-1 universe".into(),
            Tier::Thorough => "as quick with all source types, <=2 deviations, 17 claims at up to 40 lengths, 15 array lengths, depth-2 universe".into(),
        },
        assumptions: &["items occupy at least one byte", "a constant of 64 KiB and 1024 bytes per input byte count as proportional"],
        require: &["value", "error"],
        body,
    })
}

//! C21: borrowed data is zero-copy; visiting and skipping do not allocate.
use mc::alloc;
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use mc::universe::*;
use mc::walk::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor, VisitorWithCrateError};
use std::collections::HashSet;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Are all composites and tuples in it small enough to be kept inline?
fn small(types: &Types, t: Tid, seen: &mut HashSet<Tid>) -> bool {
    if !seen.insert(t) {
        return true;
    }
    match types.get(t) {
        Def::Seq(e) | Def::Arr(e, _) | Def::Compact(e) => small(types, *e, seen),
        Def::Tup(v) => v.len() <= 16 && v.iter().all(|t| small(types, *t, seen)),
        Def::Comp { path, fields } => path.len() <= 5 && fields.len() <= 16 && fields.iter().all(|f| small(types, f.1, seen)),
        Def::Var { path, vars } => {
            path.len() <= 5 && vars.iter().all(|v| v.fields.len() <= 16 && v.fields.iter().all(|f| small(types, f.1, seen)))
        }
        _ => true,
    }
}

/// Bit sequences make scale_info's own resolver allocate.
fn has_bits(types: &Types, t: Tid, seen: &mut HashSet<Tid>) -> bool {
    seen.insert(t)
        && match types.get(t) {
            Def::Bits(..) => true,
            Def::Seq(e) | Def::Arr(e, _) | Def::Compact(e) => has_bits(types, *e, seen),
            Def::Tup(v) => v.iter().any(|t| has_bits(types, *t, seen)),
            Def::Comp { fields, .. } => fields.iter().any(|f| has_bits(types, f.1, seen)),
            Def::Var { vars, .. } => vars.iter().flat_map(|v| &v.fields).any(|f| has_bits(types, f.1, seen)),
            _ => false,
        }
}

fn report<R: Res + 'static>(ctx: &mut Ctx, types: &Types, res: &R, t: Tid, b: &[u8], script: &[u32], d: String) {
    ctx.violation(&format!("{}:{}:{}:{script:?}", res.label(), types.show(t), hex(b)), || {
        format!("{d} ({} resolver, choices {script:?}): {}", res.label(), show_case(types, t, b))
    });
}

/// One decode with every way of reading.
fn walk<R: Res + 'static>(ctx: &mut Ctx, types: &Types, res: &R, t: Tid, n: &Node, b: &[u8], dev: usize, no_alloc: bool) {
    let cap = ctx.by_tier(60_000, 200_000);
    let id = || res.id(t);
    let st = explore(dev, cap, |ch| {
        let env = WEnv::new(b, Some(ch));
        let mut input = b;
        let i = id();
        let r = ctx.lib(|| {
            alloc::start();
            let r = decode_with_visitor(&mut input, i, res, Walk::<R>::new(&env));
            (r, alloc::stop())
        });
        ctx.trace();
        ctx.transitions(env.steps.get());
        let script = ch.script();
        ctx.state(&(res.label(), t, b, &script));
        let d = match r {
            Err(Panicked(p)) => Some(format!("panicked: {p}")),
            Ok((r, s)) => {
                if let Some(w) = env.bad.get() {
                    Some(format!("{w} does not point into the input"))
                } else if no_alloc && s.allocs != 0 {
                    Some(format!("{} allocations, {} bytes at most", s.allocs, s.peak))
                } else {
                    match r {
                        Err(e) => Some(format!("failed: {e:?}")),
                        Ok(k) => {
                            let inside = k.bytes.iter().flatten().all(|x| env.inside(x)) && k.text.iter().flatten().all(|x| env.inside(x.as_bytes()));
                            if !inside {
                                Some("kept data lies outside the input".into())
                            } else if suffix(b, input) != Some(n.end) {
                                Some(format!("left the input at {:?}, expected {}", suffix(b, input), n.end))
                            } else {
                                ctx.outcome("read");
                                None
                            }
                        }
                    }
                }
            }
        };
        if let Some(d) = d {
            report(ctx, types, res, t, b, &script, d);
            ch.stop();
        }
    });
    ctx.nodes(st);
    // ignoring, and refusing (the rest is skipped)
    for kind in 0..3 {
        let mut input = b;
        let i = id();
        let r = ctx.lib(|| {
            alloc::start();
            let ok = match kind {
                0 => decode_with_visitor(&mut input, i, res, IgnoreVisitor::<R>::new()).is_ok(),
                1 => decode_with_visitor(&mut input, i, res, Refuse::<R>(std::marker::PhantomData)).is_err(),
                _ => decode_with_visitor(&mut input, i, res, VisitorWithCrateError(Walk::<R>::new(&WEnv::new(b, None)))).is_ok(),
            };
            (ok, alloc::stop())
        });
        ctx.trace();
        let d = match r {
            Err(Panicked(p)) => Some(format!("panicked: {p}")),
            Ok((false, _)) => Some("unexpected outcome".into()),
            Ok((_, s)) if no_alloc && s.allocs != 0 => Some(format!("{} allocations, {} bytes at most", s.allocs, s.peak)),
            _ => {
                ctx.outcome("skipped");
                None
            }
        };
        if let Some(d) = d {
            report(ctx, types, res, t, b, &[], format!("visitor kind {kind} {d}"));
        }
    }
}

fn body(ctx: &mut Ctx) {
    let uni = universe(ctx.by_tier(2, 3));
    let types = &uni.types;
    let port = PortRes::new(types);
    let port = &port;
    for &t in &uni.roots {
        ctx.case(
            || format!("reading {}", types.show(t)),
            |ctx| {
                let fits = small(types, t, &mut HashSet::new());
                let (gdev, wdev) = ctx.by_tier((1, 2), (2, 3));
                let cap = ctx.by_tier(3_000, 6_000);
                let mut all = valid_traces(ctx, types, t, GenOpts { rich: true, max_depth: 5, ..GenOpts::VALID }, gdev, cap);
                all.retain(|(b, _)| !b.is_empty() || !ctx.quick() || b.len() < 200);
                let k = all.len();
                for (i, (b, n)) in all.iter().enumerate() {
                    let dev = if i < 6 { wdev } else { 1 };
                    // something after it, so that running past the end shows
                    for tail in [0usize, 3] {
                        let mut b = b.clone();
                        b.extend(std::iter::repeat_n(0x55, tail));
                        walk(ctx, types, types, t, n, &b, if tail == 0 { dev } else { 1 }, fits);
                    }
                    if fits && !has_bits(types, t, &mut HashSet::new()) {
                        walk(ctx, types, port, t, n, b, 1, true);
                    }
                }
                ctx.sample(|| format!("{}: {k} values", types.show(t)));
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C21",
        states_are: "states: distinct (resolver, type, bytes, way of reading); transitions: callbacks; traces: complete decodes under a counting allocator",
        bounds: |t| match t {
            Tier::Quick => "depth-2 universe x valid values with <=1 deviation x 9 ways of reading each container with <=2 departures from reading item by item (first 6 values; then <=1); ignoring and refusing visitors; two resolvers".into(),
            Tier::Thorough => "as quick over the depth-3 universe with <=2 deviations in the values and <=3 departures".into(),
        },
        assumptions: &["the resolvers used (our own and scale_info's PortableRegistry) do not allocate while describing these types"],
        require: &["read", "skipped"],
        body,
    })
}

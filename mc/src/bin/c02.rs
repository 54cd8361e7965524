//! C02: a successful decode consumes exactly the bytes of the value.
use mc::big::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::plan::*;
use mc::targets::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor};

/// What follows the value.
fn tails(own: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], vec![1, 2], vec![4, 0, 0], vec![0xff; 31], vec![0; 32], vec![0xaa; 33]];
    v.push((0..200u8).collect());
    v.push(own.to_vec());
    let mut w = own.to_vec();
    w.extend_from_slice(own);
    w.push(3);
    v.push(w);
    v
}

fn value(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], n: &Node, modes: &[Mode]) {
    for tail in tails(b) {
        let mut full = b.to_vec();
        full.extend_from_slice(&tail);
        ctx.state(&(t, &full));
        let fail = |ctx: &mut Ctx, how: &str, what: String| {
            ctx.violation(&format!("{how}:{}:{}", types.show(t), hex(&full)), || {
                format!("{how}: {what}: {} followed by {}", show_case(types, t, b), hex(&tail))
            });
        };
        for &m in modes {
            match record(ctx, types, t, &full, m) {
                Err(Panicked(p)) => fail(ctx, "visitor", format!("panicked: {p}")),
                Ok(o) => {
                    ctx.trace();
                    match &o.res {
                        Ok(v) => {
                            if let Some(d) = n.diff(v) {
                                fail(ctx, "visitor", format!("trailing bytes changed the value: {d}"));
                            } else if o.pos != Some(n.end) {
                                fail(ctx, "visitor", format!("input left at {:?}, value ends at {}", o.pos, n.end));
                            } else {
                                ctx.outcome("visitor-exact");
                            }
                        }
                        Err(e) => fail(ctx, "visitor", format!("failed with {e:?}")),
                    }
                }
            }
        }
        let mut input = &full[..];
        match ctx.lib(|| decode_with_visitor(&mut input, t, types, IgnoreVisitor::new())) {
            Err(Panicked(p)) => fail(ctx, "ignore", format!("panicked: {p}")),
            Ok(r) => {
                ctx.trace();
                if r != Ok::<(), DecodeError>(()) {
                    fail(ctx, "ignore", format!("failed with {r:?}"));
                } else if suffix(&full, input) != Some(n.end) {
                    fail(ctx, "ignore", format!("input left at {:?}, value ends at {}", suffix(&full, input), n.end));
                } else {
                    ctx.outcome("ignore-exact");
                }
            }
        }
    }
    // cut short: a full decode fails
    for c in cuts(b.len()) {
        let cut = &b[..c];
        ctx.state(&(t, cut));
        for &m in &modes[..1] {
            match record(ctx, types, t, cut, m) {
                Err(Panicked(p)) => ctx.violation(&format!("cut:{}:{}", types.show(t), hex(cut)), || {
                    format!("panicked ({p}) on a value cut short: {}", show_case(types, t, cut))
                }),
                Ok(o) => {
                    ctx.trace();
                    if o.res.is_ok() {
                        ctx.violation(&format!("cut:{}:{}", types.show(t), hex(cut)), || {
                            format!("value of {} bytes cut to {c} still decodes: {}", b.len(), show_case(types, t, cut))
                        });
                    } else {
                        ctx.outcome("cut-fails");
                    }
                }
            }
        }
        let mut input = cut;
        if let Ok(Ok(())) = ctx.lib(|| decode_with_visitor(&mut input, t, types, IgnoreVisitor::new())) {
            ctx.violation(&format!("cut-ignore:{}:{}", types.show(t), hex(cut)), || {
                format!("value of {} bytes cut to {c} is skipped without error: {}", b.len(), show_case(types, t, cut))
            });
        }
    }
}

/// Several values laid end to end.
fn stream(ctx: &mut Ctx, types: &Types, vals: &[(Tid, Vec<u8>, Node)]) {
    let all: Vec<u8> = vals.iter().flat_map(|v| v.1.clone()).collect();
    let mut input = &all[..];
    let mut at = 0;
    for (i, (t, b, n)) in vals.iter().enumerate() {
        let env = Env::new(types, input, Mode::Items);
        let r = ctx.lib(|| decode_with_visitor(&mut input, *t, types, RecV { env: &env }));
        ctx.trace();
        at += b.len();
        let bad = match r {
            Err(Panicked(p)) => Some(format!("panicked: {p}")),
            Ok(Err(e)) => Some(format!("failed with {e:?}")),
            Ok(Ok(v)) => n.diff(&v).or((suffix(&all, input) != Some(at)).then(|| {
                format!("input left at {:?}, value {i} ends at {at}", suffix(&all, input))
            })),
        };
        if let Some(d) = bad {
            ctx.violation(&format!("stream:{}:{}", types.show(*t), hex(&all)), || {
                format!("value {i} of {} laid end to end: {d}: {}", vals.len(), show_case(types, *t, b))
            });
            return;
        }
    }
    ctx.outcome("stream");
}

fn body(ctx: &mut Ctx) {
    let uni = universe(ctx.by_tier(2, 3));
    let types = &uni.types;
    for &t in &uni.roots {
        ctx.case(
            || format!("values of {}", types.show(t)),
            |ctx| {
                let dev = ctx.by_tier(1, 2);
                let modes: &[Mode] = if ctx.quick() { &[Mode::Items, Mode::Iter] } else { &MODES };
                let vals = valid_traces(ctx, types, t, GenOpts::RICH, dev, 20_000);
                for (b, n) in &vals {
                    value(ctx, types, t, b, n, modes);
                }
                ctx.sample(|| format!("{}: {} values with {} tails each", types.show(t), vals.len(), 11));
            },
        );
    }
    // every byte after every short value
    let l = universe(1);
    for &t in &l.roots {
        ctx.case(
            || format!("each byte after values of {}", l.types.show(t)),
            |ctx| {
                let types = &l.types;
                let mut vals = valid_traces(ctx, types, t, GenOpts::VALID, 1, 20_000);
                for x in 0..=255u8 {
                    if let Ok(n) = refdec(types, t, &[x]) {
                        if n.end == 1 {
                            vals.push((vec![x], n));
                        }
                    }
                }
                let quick = ctx.quick();
                for (b, n) in vals {
                    // of values with their own tails already, only the short ones
                    if b.len() > 1 && quick {
                        continue;
                    }
                    let mut full = b.clone();
                    full.push(0);
                    for x in 0..=255u8 {
                        full[b.len()] = x;
                        if !ctx.state(&(t, &full)) {
                            continue;
                        }
                        let mut bad = match record(ctx, types, t, &full, Mode::Items) {
                            Err(Panicked(p)) => Some(format!("panicked: {p}")),
                            Ok(o) => match o.res {
                                Ok(v) => n.diff(&v).or((o.pos != Some(n.end)).then(|| format!("input left at {:?}", o.pos))),
                                Err(e) => Some(format!("failed with {e:?}")),
                            },
                        };
                        let mut input = &full[..];
                        let r = ctx.lib(|| decode_with_visitor(&mut input, t, types, IgnoreVisitor::new()));
                        ctx.trace();
                        if bad.is_none() && (!matches!(r, Ok(Ok(()))) || suffix(&full, input) != Some(n.end)) {
                            bad = Some(format!("ignored: {:?}, input left at {:?}", r.err().map(|p| p.0), suffix(&full, input)));
                        }
                        match bad {
                            None => ctx.outcome("visitor-exact"),
                            Some(d) => ctx.violation(&format!("next:{}:{}", types.show(t), hex(&full)), || {
                                format!("the value ends at {}, {d}: {} followed by {x:02x}", n.end, show_case(types, t, &b))
                            }),
                        }
                    }
                }
            },
        );
    }
    big_values(ctx, "consume", &ctx.by_tier(few(), LENS.to_vec()), &[70, 130, 201, 257, 513, 1025], false, ctx.by_tier(2, 5), &|ctx, types, t, b, r| {
        if let Ok(n) = r {
            value(ctx, types, t, b, n, &[Mode::Items]);
        }
    });
    // streams: every pair of leaf-and-constructor types, every triple of representatives
    let small = universe(0);
    let mut pool: Vec<(Tid, Vec<u8>, Node)> = vec![];
    for &t in &small.roots {
        let ch = mc::choose::Chooser::default();
        let b = gen(&small.types, t, &ch, GenOpts::VALID);
        if let Ok(n) = refdec(&small.types, t, &b) {
            pool.push((t, b, n));
        }
    }
    for i in 0..pool.len() {
        ctx.case(
            || format!("streams starting with {}", small.types.show(pool[i].0)),
            |ctx| {
                for j in 0..pool.len() {
                    stream(ctx, &small.types, &[pool[i].clone(), pool[j].clone()]);
                    if !ctx.quick() || (i + j) % 7 == 0 {
                        for k in (0..pool.len()).step_by(ctx.by_tier(5, 1)) {
                            stream(ctx, &small.types, &[pool[i].clone(), pool[j].clone(), pool[k].clone()]);
                        }
                    }
                }
            },
        );
    }
    let es = mc::all::all();
    let p = plan(if ctx.quick() { GenOpts::VALID } else { GenOpts::RICH }, 1);
    target_cases(ctx, &es, p, &|ctx, e, tgt, types, t, b, r| {
        let Ok(n) = r else { return };
        if n.end != b.len() {
            return;
        }
        let Some(plain) = try_target(ctx, e, tgt, types, t, b, r) else { return };
        for tail in [&[][..], &[0], &[0xff; 33], &[4, 8, 1, 0], b] {
            let mut full = b.to_vec();
            full.extend_from_slice(tail);
            let Some(c) = try_target(ctx, e, tgt, types, t, &full, r) else { return };
            if c.got.is_ok() {
                if c.pos != Some(n.end) {
                    ctx.violation(&c.key("target-position"), || {
                        format!("input left at {:?}, value ends at {}: {}", c.pos, n.end, c.show())
                    });
                } else {
                    ctx.outcome("target-exact");
                }
            }
            let same = match (&plain.got, &c.got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => a.kind == b.kind && a.path == b.path,
                _ => false,
            };
            if !same {
                ctx.violation(&c.key("target-tail"), || {
                    format!("trailing bytes change the outcome from {:?}: {}", plain.got, c.show())
                });
            }
        }
        for k in cuts(b.len()) {
            let cut = &b[..k];
            let short = Err(RErr::NotEnough(k));
            let Some(c) = try_target(ctx, e, tgt, types, t, cut, &short) else { return };
            if c.got.is_ok() {
                ctx.violation(&c.key("target-cut"), || format!("value of {} bytes cut short accepted: {}", b.len(), c.show()));
            }
        }
    });
}

fn main() {
    mc::run::main(Spec {
        id: "C02",
        states_are: "states: distinct (type, input) pairs, inputs being values with and without trailing bytes and cut short; transitions: visitor callbacks and library calls; traces: complete decodes compared with the reference decoder",
        bounds: |t| match t {
            Tier::Quick => "types as C01 quick; values with <=1 deviation from defaults; 11 trailing byte strings (0..200 bytes, the value itself again); each byte after each one-byte value; every truncation; ordered pairs of ~110 types laid end to end and a fifth of the triples; all built-in/derived targets over their source types; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others; 3 kinds of items up to 65537, 1025 fields; nested 70..1025 deep in 8 ways".into(),
            Tier::Thorough => "types nested three deep, <=2 deviations, 5 ways of reading, all triples; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["the reference decoder mc/src/refdec.rs states where a value ends"],
        require: &["visitor-exact", "ignore-exact", "cut-fails", "stream", "target-exact"],
        body,
    })
}

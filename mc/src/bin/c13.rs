//! C13: sequences, arrays and tuples map to Rust collections item by item.
use mc::big::*;
use mc::gen::*;
use mc::plan::*;
use mc::refdec::*;
use mc::run::*;
use mc::tcheck::*;
use mc::ty::*;
use scale_type_resolver::Primitive as P;

/// Every length in a range, into collections of small items.
fn lengths(ctx: &mut Ctx) {
    let es: Vec<_> = mc::all::seqs();
    let mut lens: Vec<usize> = (0..=ctx.by_tier(70, 300)).collect();
    lens.extend([16383, 16384, 16385, 65535, 65536]);
    for e in &es {
        ctx.case(
            || format!("lengths into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                for &n in &lens {
                    // items that differ from their neighbours, in no particular order
                    for p in [P::U8, P::U16] {
                        let mut types = Types::new();
                        let i = types.prim(p);
                        let (s, a) = (types.seq(i), types.arr(i, n));
                        let mut items = vec![];
                        for k in 0..n {
                            let v = (k as u16).wrapping_mul(40503) >> if p == P::U8 { 8 } else { 0 };
                            items.extend_from_slice(&v.to_le_bytes()[..if p == P::U8 { 1 } else { 2 }]);
                        }
                        let mut sb = vec![];
                        compact(n as u128, &mut sb);
                        sb.extend_from_slice(&items);
                        for (t, b) in [(s, &sb), (a, &items)] {
                            let r = refdec(&types, t, b);
                            judge(ctx, e, &tgt, &types, t, b, &r);
                        }
                    }
                }
            },
        );
    }
}

/// Tuples of every length from tuples and composites of every length.
fn tuple_lengths(ctx: &mut Ctx) {
    let mut es = mc::all::tuples();
    es.extend(mc::all::ranges());
    for e in &es {
        ctx.case(
            || format!("tuple lengths into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                for n in 0..=24usize {
                    let mut types = Types::new();
                    let (u8_, u16_) = (types.u8(), types.u16());
                    for last in [u8_, u16_] {
                        let mut ts = vec![u8_; n];
                        if let Some(l) = ts.last_mut() {
                            *l = last;
                        }
                        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
                        let nf: Vec<(&str, Tid)> = names.iter().map(|s| s.as_str()).zip(ts.iter().copied()).collect();
                        for t in [types.tup(&ts), types.unnamed(&ts), types.named(&nf)] {
                            let b: Vec<u8> = (0..n as u8 + 1).map(|i| i.wrapping_mul(37)).collect();
                            for cut in [b.len(), b.len() - 1, b.len().saturating_sub(2)] {
                                let b = &b[..cut];
                                let r = refdec(&types, t, b);
                                judge(ctx, e, &tgt, &types, t, b, &r);
                            }
                        }
                    }
                }
            },
        );
    }
}

fn body(ctx: &mut Ctx) {
    lengths(ctx);
    tuple_lengths(ctx);
    let mut es = mc::all::seqs();
    es.extend(mc::all::tuples());
    es.extend(mc::all::ranges());
    let dev = ctx.by_tier(1, 2);
    judge_all(ctx, &es, Plan { cap: ctx.by_tier(60_000, 150_000), ..plan(if ctx.quick() { GenOpts::RICH } else { GenOpts::ALL }, dev) });
    big_target_cases(ctx, &es, &ctx.by_tier(few(), LENS.to_vec()), ctx.by_tier(4, 8), &judge);
}

fn main() {
    mc::run::main(Spec {
        id: "C13",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: complete decodes compared with the target model",
        bounds: |t| match t {
            Tier::Quick => "39 collection and array targets, tuples of 0..20 elements, ranges; source sequences/arrays of every length 0..70 and around 16384/65536; tuples and composites of 0..24 fields; source shapes of plan.rs with one deviation from default bytes; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others".into(),
            Tier::Thorough => "as quick with lengths 0..300 and two deviations, malformed and huge lengths included; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["sets and heaps are compared in order (heap: sorted)"],
        require: &["value", "wrong-length", "unexpected"],
        body,
    })
}

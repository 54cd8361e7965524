//! C09: numbers convert exactly or fail as out of range.
use mc::gen::compact;
use mc::plan::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::tcheck::*;
use mc::ty::*;
use mc::universe::wrappers;
use scale_type_resolver::Primitive as P;

const PS: [(P, u32, bool); 10] = [
    (P::U8, 8, false),
    (P::U16, 16, false),
    (P::U32, 32, false),
    (P::U64, 64, false),
    (P::U128, 128, false),
    (P::I8, 8, true),
    (P::I16, 16, true),
    (P::I32, 32, true),
    (P::I64, 64, true),
    (P::I128, 128, true),
];

/// Bit patterns next to every power of two, every pair of powers of two if `pairs`.
fn patterns(bits: u32, pairs: bool) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut v = vec![];
    for k in 0..bits {
        for d in -2i128..=2 {
            v.push((1u128 << k).wrapping_add(d as u128) & mask);
            v.push((mask << k).wrapping_add(d as u128) & mask);
        }
        if pairs {
            for j in 0..k {
                for d in -1i128..=1 {
                    v.push(((1u128 << k) | (1 << j)).wrapping_add(d as u128) & mask);
                    v.push(((1u128 << k) - (1 << j)).wrapping_add(d as u128) & mask);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn body(ctx: &mut Ctx) {
    let es: Vec<Entry> = mc::all::all().into_iter().filter(|e| matches!((e.tgt)(), Tgt::Int { .. })).collect();
    for e in &es {
        for (p, bits, signed) in PS {
            ctx.case(
                || format!("{p:?} into {}", e.name),
                |ctx| {
                    let tgt = (e.tgt)();
                    let mut types = Types::new();
                    let i = types.prim(p);
                    // (type, compact)
                    let mut srcs = vec![(i, false)];
                    for w in wraps2(&mut types, i) {
                        srcs.push((w, false));
                    }
                    if !signed {
                        srcs.push((types.compact(i), true));
                        let c = types.compact(i);
                        for w in wraps2(&mut types, c) {
                            srcs.push((w, true));
                        }
                        for w in wraps2(&mut types, i) {
                            srcs.push((types.compact(w), true));
                        }
                        let w = wrappers(&mut types, i)[0];
                        let c = types.compact(w);
                        srcs.push((wrappers(&mut types, c)[1], true));
                    }
                    let all: Vec<u128> = if bits <= 16 { (0..1u128 << bits).collect() } else { patterns(bits, !ctx.quick()) };
                    let few = patterns(bits, false);
                    for (k, (t, c)) in srcs.iter().enumerate() {
                        // every value for the number itself, boundaries inside wrappers
                        let direct = k == 0 || matches!(types.get(*t), Def::Compact(x) if *x == i);
                        let vals = if direct || !ctx.quick() { &all } else { &few };
                        for v in vals {
                            let mut b = vec![];
                            if *c {
                                compact(*v, &mut b);
                            } else {
                                b.extend_from_slice(&v.to_le_bytes()[..bits as usize / 8]);
                            }
                            let r = refdec(&types, *t, &b);
                            judge(ctx, e, &tgt, &types, *t, &b, &r);
                        }
                    }
                },
            );
        }
    }
    // wrong kinds of source
    judge_all(ctx, &es, plan(mc::gen::GenOpts::ALL, 1));
}

fn main() {
    mc::run::main(Spec {
        id: "C09",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: complete decodes compared with exact arithmetic",
        bounds: |t| match t {
            Tier::Quick => "22 integer and non-zero targets and 9 pointers/compacts to such; sources of all 10 integer types, plain, compact, and in up to 2 wrappers: every 8 and 16 bit value, for wider types and inside wrappers every value within 2 of a (negated) power of two".into(),
            Tier::Thorough => "as quick with every 8 and 16 bit value in every wrapper, and values within 1 of the sum and difference of any two powers of two".into(),
        },
        assumptions: &["usize is 64 bits wide here"],
        require: &["value", "out-of-range", "unexpected"],
        body,
    })
}

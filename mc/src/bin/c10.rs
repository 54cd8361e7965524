//! C10: compact encoding is transparent to every target at any nesting.
use mc::core_checks::*;
use mc::gen::*;
use mc::plan::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::tcheck::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::visitor::{decode_with_visitor, VisitorWithCrateError};
use scale_decode::IntoVisitor;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive as P};
mc::use_target_types!();

/// The same types with nothing compact encoded.
fn strip(types: &Types) -> Types {
    let mut out = types.clone();
    for t in 0..types.defs.len() {
        let mut i = t;
        let mut hops = 0;
        while let Def::Compact(j) = types.get(i) {
            i = *j;
            hops += 1;
            if hops > 100 {
                break;
            }
        }
        if i != t {
            out.set(t, types.get(i).clone());
        }
    }
    out
}

/// Encode a value without any compact numbers (but for lengths).
fn plain(types: &Types, n: &Node, out: &mut Vec<u8>) {
    let len = |k: usize, out: &mut Vec<u8>| compact(k as u128, out);
    match &n.k {
        K::Bool(b) => out.push(*b as u8),
        K::Char(c) => out.extend_from_slice(&(*c as u32).to_le_bytes()),
        K::Str { text, .. } => {
            let s = text.as_deref().unwrap_or("");
            len(s.len(), out);
            out.extend_from_slice(s.as_bytes());
        }
        K::U(bits, v) => out.extend_from_slice(&v.to_le_bytes()[..*bits as usize / 8]),
        K::I(bits, v) => out.extend_from_slice(&v.to_le_bytes()[..*bits as usize / 8]),
        K::U256(b) | K::I256(b) => out.extend_from_slice(b),
        K::Seq(v) => {
            len(v.len(), out);
            v.iter().for_each(|n| plain(types, n, out));
        }
        K::Arr(v) | K::Tup(v) => v.iter().for_each(|n| plain(types, n, out)),
        K::Comp { fields, .. } => fields.iter().for_each(|f| plain(types, &f.1, out)),
        K::Var { index, fields, .. } => {
            out.push(*index);
            fields.iter().for_each(|f| plain(types, &f.1, out));
        }
        K::Bits(bits) => {
            let Def::Bits(s, o) = types.get(n.tid) else { panic!("harness: bits of what?") };
            let w = match s {
                BitsStoreFormat::U8 => 8,
                BitsStoreFormat::U16 => 16,
                BitsStoreFormat::U32 => 32,
                BitsStoreFormat::U64 => 64,
            };
            len(bits.len(), out);
            for unit in bits.chunks(w) {
                let mut v = 0u64;
                for (i, b) in unit.iter().enumerate() {
                    if *b {
                        v |= 1 << match o {
                            BitsOrderFormat::Lsb0 => i,
                            BitsOrderFormat::Msb0 => w - 1 - i,
                        };
                    }
                }
                out.extend_from_slice(&v.to_le_bytes()[..w / 8]);
            }
        }
        K::Skipped => panic!("harness: skipped"),
    }
}

/// Does a value of this type consist of one unsigned number?
fn compactable(types: &Types, t: Tid) -> bool {
    match types.get(t) {
        Def::Prim(P::U8 | P::U16 | P::U32 | P::U64 | P::U128) => true,
        Def::Comp { fields, .. } if fields.len() == 1 => compactable(types, fields[0].1),
        Def::Tup(v) if v.len() == 1 => compactable(types, v[0]),
        _ => false,
    }
}

/// The types with numbers, or with wrappers of numbers, or with both made compact.
fn compactify(types: &Types) -> Vec<Types> {
    let mut out = vec![];
    for (prims, wraps) in [(true, false), (false, true), (true, true)] {
        let mut t2 = types.clone();
        let mut any = false;
        for t in 0..types.defs.len() {
            let is_prim = matches!(types.get(t), Def::Prim(_));
            if compactable(types, t) && (if is_prim { prims } else { wraps }) {
                let inner = t2.add_fresh(types.get(t).clone());
                t2.set(t, Def::Compact(inner));
                any = true;
            }
        }
        if any {
            out.push(t2);
        }
    }
    out
}

fn pair(ctx: &mut Ctx, e: &Entry, types: &Types, bare: &Types, t: Tid, b: &[u8]) {
    let Ok(n) = refdec(types, t, b) else { return };
    if n.end != b.len() || !n.utf8_ok() {
        return;
    }
    let mut pb = vec![];
    plain(bare, &n, &mut pb);
    debug_assert!(refdec(bare, t, &pb).is_ok_and(|n| n.end == pb.len()));
    let Some(want) = plain_run(ctx, e, bare, t, &pb) else { return };
    if want.0.is_err() {
        ctx.outcome("plain-refused");
        return;
    }
    let Some(got) = plain_run(ctx, e, types, t, b) else { return };
    if got.0 != want.0 || got.1 != Some(b.len()) {
        ctx.violation(&format!("compact:{}:{}:{}", e.name, types.show(t), hex(b)), || {
            format!(
                "{} from {} bytes {}: {}; from plain {} bytes {}: {}",
                e.name,
                types.show(t),
                hex(b),
                show_run(&got),
                bare.show(t),
                hex(&pb),
                show_run(&want)
            )
        });
    } else {
        ctx.outcome("same-value");
    }
}

fn relate(ctx: &mut Ctx, e: &Entry, opts: GenOpts, dev: usize) {
    let tgt = (e.tgt)();
    let mut types = Types::new();
    let srcs = sources(&mut types, &tgt);
    let mut variants = vec![types.clone()];
    variants.extend(compactify(&types));
    for (k, types) in variants.iter().enumerate() {
        let bare = strip(types);
        for t in &srcs {
            let mut types = types.clone();
            let mut bare = bare.clone();
            let mut ts = vec![*t];
            if compactable(&types, *t) || matches!(types.get(*t), Def::Compact(_)) {
                // compact around it, and wrappers around that
                let c = types.add_fresh(Def::Compact(*t));
                let d = bare.get(*t).clone();
                assert_eq!(c, bare.add_fresh(d));
                ts.push(c);
                let mut i = c;
                for k in 0..ctx.by_tier(2, 4) {
                    let d = match k % 3 {
                        0 => Def::Comp { path: vec!["V".into()], fields: vec![(Some("v".into()), i)] },
                        1 => Def::Tup(vec![i]),
                        _ => Def::Comp { path: vec![], fields: vec![(None, i)] },
                    };
                    i = types.add_fresh(d.clone());
                    assert_eq!(i, bare.add_fresh(d));
                    ts.push(i);
                    let c2 = types.add_fresh(Def::Compact(i));
                    let d = bare.get(i).clone();
                    assert_eq!(c2, bare.add_fresh(d));
                    ts.push(c2);
                }
            }
            for t in ts {
                if k > 0 && dev > 1 {
                    // deviations in pairs for the plan's own sources only
                    for b in traces(ctx, &types, t, opts, 1, 5_000) {
                        pair(ctx, e, &types, &bare, t, &b);
                    }
                } else {
                    for b in traces(ctx, &types, t, opts, dev, 20_000) {
                        pair(ctx, e, &types, &bare, t, &b);
                    }
                }
            }
        }
    }
}

/// Targets behind the error-converting visitor.
fn converted(ctx: &mut Ctx) {
    macro_rules! conv {
        ($($t:ty),* $(,)?) => { vec![$(Entry {
            name: concat!("VisitorWithCrateError of ", stringify!($t)),
            tgt: <$t as Tg>::tgt,
            run: |b, id, types| decode_with_visitor(b, id, types, VisitorWithCrateError(<$t as IntoVisitor>::into_visitor::<Types>())).map(|v: $t| v.out()),
        }),*] };
    }
    let es: Vec<Entry> = conv![
        u8, u16, u32, u64, u128, usize, i8, i64, i128, NonZeroU8, NonZeroU64, Compact<u32>, Box<u64>, Arc<u8>, Rc<u16>, Cow<'static, u64>,
        (u8,), (u64,), ((u16,),), (Box<u128>,), NewU8, NewNew, NewC, Na1m0, Un1m0, Box<(Compact<u16>,)>, Vec<Compact<u32>>, Option<Compact<u8>>,
    ];
    for e in &es {
        ctx.case(|| format!("compact into {}", e.name), |ctx| relate(ctx, e, if ctx.quick() { GenOpts::VALID } else { GenOpts::RICH }, 1));
    }
}

/// `Compact` around what cannot be compact encoded.
fn impossible(ctx: &mut Ctx) {
    let es = mc::all::all();
    for e in &es {
        ctx.case(
            || format!("impossible compacts into {}", e.name),
            |ctx| {
                let mut types = Types::new();
                let mut bad = bad_compact_types(&mut types);
                let (u, s) = (types.u8(), types.str());
                let first = bad.clone();
                for t in &first[..if ctx.quick() { 24 } else { first.len() }] {
                    bad.push(types.tup(&[*t]));
                    bad.push(types.tup(&[u, *t]));
                    bad.push(types.named(&[("a", *t)]));
                    bad.push(types.option(*t));
                    bad.push(types.seq(*t));
                    bad.push(types.arr(*t, 1));
                }
                // whatever the target takes, as compact
                let tgt = (e.tgt)();
                for t in sources(&mut types, &tgt) {
                    if !matches!(types.get(t), Def::Compact(_)) {
                        bad.push(types.compact(t));
                        let w = types.tup(&[t]);
                        bad.push(types.compact(w));
                    }
                }
                let _ = s;
                for t in bad {
                    let plain = traces(ctx, &types, t, GenOpts { invalid: false, ..GenOpts::VALID }, ctx.by_tier(0, 1), 2000);
                    let small = plain.iter().flat_map(|b| [(b.clone(), 0usize), (b.clone(), 40)]);
                    // what some reader might take for a compact number
                    let nums = compact_values(128, !ctx.quick()).into_iter().map(|v| {
                        let mut b = vec![];
                        compact(v, &mut b);
                        (b, 40)
                    });
                    for (b, pad) in small.chain(nums) {
                        // with bytes enough for a plain reading too
                        {
                            let mut b = b.clone();
                            b.resize(b.len() + pad, 4);
                            let r = refdec(&types, t, &b);
                            if r != Err(RErr::CannotCompact) {
                                continue;
                            }
                            let Some(got) = plain_run(ctx, e, &types, t, &b) else { continue };
                            if got.0.is_ok() {
                                ctx.violation(&format!("impossible:{}:{}:{}", e.name, types.show(t), hex(&b)), || {
                                    format!("{} from {} bytes {}: {}, but this cannot be compact encoded", e.name, types.show(t), hex(&b), show_run(&got))
                                });
                            } else {
                                ctx.outcome("impossible-refused");
                            }
                        }
                    }
                }
            },
        );
    }
}

fn body(ctx: &mut Ctx) {
    let es = mc::all::all();
    let opts = if ctx.quick() { GenOpts::VALID } else { GenOpts::RICH };
    for e in &es {
        ctx.case(|| format!("compact into {}", e.name), |ctx| relate(ctx, e, opts, ctx.by_tier(1, 2)));
    }
    converted(ctx);
    impossible(ctx);
}

fn main() {
    mc::run::main(Spec {
        id: "C10",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: decodes of compact encoded values compared with decodes of the same values in plain form",
        bounds: |t| match t {
            Tier::Quick => "all 235 targets, and 28 behind the error-converting visitor; source shapes of plan.rs as they are and with all unsigned numbers, all wrappers of such, and both made compact, and compact again around them alternating with wrappers to depth 5; one deviation from default bytes; compact around every kind of type that has no compact encoding".into(),
            Tier::Thorough => "as quick with rich leaf alphabets, two deviations for the plan's own shapes, depth 9".into(),
        },
        assumptions: &[],
        require: &["same-value", "impossible-refused", "plain-refused"],
        body,
    })
}

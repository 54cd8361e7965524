//! C12: single-field wrappers are transparent for built-in targets and enums.
use mc::core_checks::*;
use mc::gen::*;
use mc::plan::*;
use mc::run::*;
use mc::targets::*;
use mc::tcheck::*;
use mc::ty::*;
use mc::universe::wrappers;

/// All ways to wrap `t` in `k` wrappers.
fn wrap(ty: &mut Types, t: Tid, k: usize) -> Vec<Tid> {
    if k == 0 {
        return vec![t];
    }
    let mut v = vec![];
    for w in wrappers(ty, t) {
        v.extend(wrap(ty, w, k - 1));
    }
    // a wrapper with a path like a well known type, and without one
    if k == 1 {
        v.push(ty.comp(&["Option"], &[("Some", t)]));
        v.push(ty.comp(&[], &[("0", t)]));
        v.push(ty.comp(&["a", "b", "c", "d", "e", "f", "g"], &[("", t)]));
        v.push(ty.comp(&["Compact"], &[("", t)]));
        v.push(ty.comp(&["Box"], &[("value", t)]));
    }
    v
}

/// Composites and tuples with no or several fields that have the same bytes as `t`.
fn not_single(ty: &mut Types, t: Tid) -> Vec<Tid> {
    let unit = ty.tup(&[]);
    let e = ty.comp(&["Unit"], &[]);
    let z = ty.arr(t, 0);
    vec![
        ty.tup(&[t, unit]),
        ty.tup(&[unit, t]),
        ty.named(&[("a", t), ("b", unit)]),
        ty.named(&[("b", e), ("a", t)]),
        ty.unnamed(&[t, z]),
        ty.unnamed(&[unit, e, t]),
        ty.tup(&[t, unit, unit, unit]),
        // nothing but bytes of no field
        unit,
        e,
    ]
}

/// Composites and tuples of several values which could each be an item of `tgt`.
fn items_as_fields(ty: &mut Types, tgt: &Tgt) -> Vec<Tid> {
    let (Tgt::List(e) | Tgt::Set(e) | Tgt::Heap(e) | Tgt::Arr(e, _) | Tgt::Opt(e)) = tgt else { return vec![] };
    let l = sources(ty, e);
    let mut v = vec![];
    for n in [2, 3, 4] {
        v.push(ty.tup(&vec![l[0]; n]));
        v.push(ty.unnamed(&vec![l[0]; n]));
        let names: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        let f: Vec<(&str, Tid)> = names.iter().map(|s| (s.as_str(), l[0])).collect();
        v.push(ty.named(&f));
    }
    v
}

fn through(t: &Tgt) -> bool {
    match t {
        Tgt::Int { .. } | Tgt::Bool | Tgt::Char | Tgt::Str | Tgt::Bits => true,
        Tgt::List(_) | Tgt::Set(_) | Tgt::Heap(_) | Tgt::Arr(..) | Tgt::Opt(_) | Tgt::Res(..) | Tgt::Enum(_) => true,
        _ => false,
    }
}

fn refused(ctx: &mut Ctx, e: &Entry, types: &Types, w: Tid, b: &[u8]) {
    let Some(got) = plain_run(ctx, e, types, w, b) else { return };
    if got.0.is_ok() {
        ctx.violation(&format!("several:{}:{}:{}", e.name, types.show(w), hex(b)), || {
            format!("{} from {} bytes {}: {}, should be refused", e.name, types.show(w), hex(b), show_run(&got))
        });
    } else {
        ctx.outcome("refused");
    }
}

fn body(ctx: &mut Ctx) {
    let es: Vec<Entry> = mc::all::all().into_iter().filter(|e| through(&(e.tgt)())).collect();
    let depth = ctx.by_tier(2, 4);
    for e in &es {
        ctx.case(
            || format!("wrappers for {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let srcs = sources(&mut types, &tgt);
                let n = srcs.len();
                let items = items_as_fields(&mut types, &tgt);
                let more: Vec<Tid> = items.iter().flat_map(|s| wrap(&mut types, *s, 1)).collect();
                for t in items.into_iter().chain(more) {
                    for b in traces(ctx, &types, t, GenOpts::VALID, 1, 2_000) {
                        refused(ctx, e, &types, t, &b);
                    }
                }
                for (si, t) in srcs.into_iter().enumerate() {
                    let wrapped: Vec<Tid> = (1..=depth.min(if si < 3 { depth } else { 3 })).flat_map(|k| wrap(&mut types, t, k)).collect();
                    let several = not_single(&mut types, t);
                    let twice = [types.tup(&[t, t]), types.unnamed(&[t, t]), types.named(&[("0", t), ("1", t)])];
                    let inside: Vec<Tid> = several.iter().flat_map(|s| wrap(&mut types, *s, 1)).collect();
                    let opts = if ctx.quick() { GenOpts { invalid: true, ..GenOpts::VALID } } else { GenOpts::ALL };
                    for b in traces(ctx, &types, t, opts, 1, 20_000) {
                        if mc::refdec::refdec(&types, t, &b) == Err(mc::refdec::RErr::Depth) {
                            continue;
                        }
                        let Some(plain) = plain_run(ctx, e, &types, t, &b) else { continue };
                        for w in &wrapped {
                            let Some(got) = plain_run(ctx, e, &types, *w, &b) else { continue };
                            let same = match (&plain.0, &got.0) {
                                (Ok(a), Ok(b)) => a == b && plain.1 == got.1,
                                (Err(a), Err(b)) => a.kind == b.kind,
                                _ => false,
                            };
                            if same {
                                ctx.outcome(if got.0.is_ok() { "same-value" } else { "same-error" });
                            } else {
                                ctx.violation(&format!("wrap:{}:{}:{}", e.name, types.show(*w), hex(&b)), || {
                                    format!(
                                        "{} from bytes {}: as {} {}, as {} {}",
                                        e.name,
                                        hex(&b),
                                        types.show(t),
                                        show_run(&plain),
                                        types.show(*w),
                                        show_run(&got)
                                    )
                                });
                            }
                        }
                        if plain.0.is_ok() {
                            let bb = [&b[..], &b[..]].concat();
                            for w in &twice {
                                refused(ctx, e, &types, *w, &bb);
                            }
                            for w in several.iter().chain(&inside) {
                                refused(ctx, e, &types, *w, &b);
                            }
                        }
                    }
                }
                ctx.sample(|| format!("{}: {n} source types", e.name));
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C12",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: decodes of a wrapped source compared with the decode of the bare one",
        bounds: |t| match t {
            Tier::Quick => "all targets that look through wrappers, on all source shapes of plan.rs in every combination of up to 2 wrappers (named, unnamed, tuple; odd names and paths), one deviation from the default bytes, invalid ones included; composites and tuples of 0, 2, 3 and 4 fields with the same bytes, bare and wrapped".into(),
            Tier::Thorough => "as quick with up to 4 wrappers (3 for other than the best fitting sources) and rich leaf alphabets".into(),
        },
        assumptions: &["field errors inside wrappers are compared by kind"],
        require: &["same-value", "same-error", "refused"],
        body,
    })
}

//! C16: decoding from a field list agrees with decoding from a type ID.
use mc::big::*;
use mc::all::FEntry;
use mc::core_checks::*;
use mc::gen::*;
use mc::plan::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::tcheck::*;
use mc::ty::*;
use scale_type_resolver::Field;

fn both(ctx: &mut Ctx, e: &FEntry, types: &Types, t: Tid, b: &[u8]) {
    let decl: Vec<(Option<String>, Tid)> = match types.get(t) {
        Def::Comp { fields, .. } => fields.clone(),
        Def::Tup(ts) => ts.iter().map(|t| (None, *t)).collect(),
        _ => return,
    };
    let r = refdec(types, t, b);
    if r == Err(RErr::Depth) {
        return;
    }
    let Some(want) = plain_run(ctx, &e.e, types, t, b) else { return };
    let mut input = b;
    let run = e.fields;
    let got = ctx.lib(|| {
        let mut it = decl.iter().map(|(n, t)| Field::new(*t, n.as_deref()));
        run(&mut input, &mut it, types)
    });
    ctx.trace();
    let key = format!("fields:{}:{}:{}", e.e.name, types.show(t), hex(b));
    let got = match got {
        Ok(g) => (g.map_err(GotErr::from), suffix(b, input)),
        Err(Panicked(p)) => {
            ctx.violation(&key, || format!("{} from the fields of {} bytes {} panicked: {p}", e.e.name, types.show(t), hex(b)));
            return;
        }
    };
    let bad = match (&want.0, &got.0) {
        (Ok(a), Ok(b)) if a != b => Some("values differ"),
        (Ok(_), Ok(_)) if want.1 != got.1 => Some("consumption differs"),
        (Ok(_), Ok(_)) if got.1 != r.as_ref().ok().map(|n| n.end) => Some("not all fields consumed"),
        (Ok(_), Ok(_)) => None,
        (Err(a), Err(b)) if a.kind != b.kind || a.path != b.path || a.shown != b.shown => Some("errors differ"),
        (Err(_), Err(_)) => None,
        _ => Some("one fails"),
    };
    match bad {
        Some(m) => ctx.violation(&key, || {
            format!(
                "{m}: {} from {} bytes {}: by type {}, by fields {}",
                e.e.name,
                types.show(t),
                hex(b),
                show_run(&want),
                show_run(&got)
            )
        }),
        None => ctx.outcome(if got.0.is_ok() { "same-value" } else { "same-error" }),
    }
}

fn body(ctx: &mut Ctx) {
    let es = mc::all::by_fields();
    let opts = GenOpts { rich: !ctx.quick(), ..GenOpts { invalid: true, ..GenOpts::VALID } };
    for e in &es {
        ctx.case(
            || format!("fields into {}", e.e.name),
            |ctx| {
                let tgt = (e.e.tgt)();
                let mut types = Types::new();
                let srcs = sources(&mut types, &tgt);
                let n = srcs.len();
                for t in srcs {
                    // a tuple without fields has no names to offer; a composite without fields has all of them
                    let fits = match types.get(t) {
                        Def::Comp { .. } => true,
                        Def::Tup(v) => !v.is_empty() || matches!(tgt, Tgt::Tup(_)),
                        _ => false,
                    };
                    if !fits {
                        continue;
                    }
                    let mut seen = std::collections::HashSet::new();
                    for b in traces(ctx, &types, t, opts, ctx.by_tier(1, 2), ctx.by_tier(4_000, 40_000)) {
                        let mut long = b.clone();
                        long.extend_from_slice(&[1, 2, 3]);
                        both(ctx, e, &types, t, &long);
                        for c in cuts(b.len()).into_iter().chain([b.len()]) {
                            if seen.insert(b[..c].to_vec()) {
                                both(ctx, e, &types, t, &b[..c]);
                            }
                        }
                    }
                }
                ctx.sample(|| format!("{}: {n} source types", e.e.name));
            },
        );
        ctx.case(
            || format!("many fields into {}", e.e.name),
            |ctx| {
                let tgt = (e.e.tgt)();
                let mut types = Types::new();
                let srcs = big_sources(&mut types, &tgt, &ctx.by_tier(few(), LENS.to_vec()), 4, 0);
                for (t, bs) in &srcs {
                    for b in bs {
                        both(ctx, e, &types, *t, b);
                        both(ctx, e, &types, *t, &b[..b.len() - 1]);
                    }
                }
            },
        );
        // every list of source fields up to a length
        ctx.case(
            || format!("all field lists into {}", e.e.name),
            |ctx| {
                let tgt = (e.e.tgt)();
                let f = match &tgt {
                    Tgt::Struct(f) => f.clone(),
                    Tgt::Tup(ts) if ts.len() <= 5 => FieldsT::Unnamed(
                        ts.iter().map(|t| FieldT { name: String::new(), skip: false, tgt: t.clone(), def: O::Unit }).collect(),
                    ),
                    _ => return,
                };
                let n = match &f {
                    FieldsT::Named(v) | FieldsT::Unnamed(v) => v.len(),
                    FieldsT::Unit => 0,
                };
                if n > 6 {
                    return;
                }
                let mut types = Types::new();
                for l in field_space(&mut types, &f, (n + 1).min(ctx.by_tier(4, 5))) {
                    let l: Vec<(&str, Tid)> = l.iter().map(|x| (x.0.as_str(), x.1)).collect();
                    let t = types.comp(&["S"], &l);
                    for b in traces(ctx, &types, t, GenOpts::VALID, 0, 10) {
                        for c in [b.len(), b.len().saturating_sub(1), b.len() / 2, 0] {
                            both(ctx, e, &types, t, &b[..c]);
                        }
                    }
                }
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C16",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: decodes from a field list compared with the decode of the same fields by type ID",
        bounds: |t| match t {
            Tier::Quick => "all tuple (0..20) and derived struct targets; composite and tuple source shapes of plan.rs, and every list of up to 4 fields over own, skipped, foreign and no names; one deviation from the default bytes (invalid ones included), every truncation, trailing bytes; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others".into(),
            Tier::Thorough => "as quick with rich leaf alphabets, two deviations and lists of up to 5 fields; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["consumption is compared when decoding succeeds"],
        require: &["same-value", "same-error"],
        body,
    })
}

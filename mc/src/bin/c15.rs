//! C15: enums, options and results are matched by variant name.
use mc::big::*;
use mc::gen::*;
use mc::plan::*;
use mc::run::*;
use mc::tcheck::*;
use mc::core_checks::*;
use mc::refdec::*;
use mc::targets::*;
use mc::ty::*;

/// Every list of source fields up to a length for every variant, see `field_space`.
fn space(ctx: &mut Ctx) {
    let mut es = mc::all::enums();
    es.extend(mc::all::enumlikes());
    for e in es {
        ctx.case(
            || format!("all field lists into variants of {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let one = |t: &Tgt| FieldsT::Unnamed(vec![FieldT { name: String::new(), skip: false, tgt: t.clone(), def: O::Unit }]);
                let vs: Vec<(String, FieldsT)> = match &tgt {
                    Tgt::Enum(vs) => vs.clone(),
                    Tgt::Opt(t) => vec![("None".into(), FieldsT::Unit), ("Some".into(), one(t))],
                    Tgt::Res(a, b) => vec![("Ok".into(), one(a)), ("Err".into(), one(b))],
                    _ => return,
                };
                for (name, f) in &vs {
                    let n = match f {
                        FieldsT::Named(v) | FieldsT::Unnamed(v) => v.len(),
                        FieldsT::Unit => 0,
                    };
                    let mut types = Types::new();
                    let max = (n + 1).min(ctx.by_tier(4, 5));
                    for l in field_space(&mut types, f, max) {
                        let l: Vec<(&str, Tid)> = l.iter().map(|x| (x.0.as_str(), x.1)).collect();
                        for i in [0u8, 1, 200] {
                            // another variant of this name's index tells by-name from by-index
                            let t = types.var(&[(name, i, &l), ("Unheard", i ^ 1, &[])]);
                            for b in traces(ctx, &types, t, GenOpts::VALID, 1, 40) {
                                let r = refdec(&types, t, &b);
                                judge(ctx, &e, &tgt, &types, t, &b, &r);
                            }
                        }
                    }
                }
            },
        );
    }
}

/// Every selection of up to a number of variants, own and foreign, in every order and with every choice of
/// indices out of four.
fn arrangements(ctx: &mut Ctx) {
    let mut es = mc::all::enums();
    es.extend(mc::all::enumlikes());
    for e in es {
        ctx.case(
            || format!("all arrangements of variants for {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let Some(own) = sources(&mut types, &tgt).into_iter().find(|t| matches!(types.get(*t), Def::Var { .. })) else { return };
                let Def::Var { vars, .. } = types.get(own).clone() else { unreachable!() };
                let (u, first) = (types.u8(), vars.first().cloned());
                let mut pool: Vec<VDef> = vars.into_iter().take(ctx.by_tier(6, 12)).collect();
                pool.push(VDef { name: "Unheard".into(), index: 0, fields: vec![(None, u)] });
                if let Some(f) = first {
                    // a near miss with the fields of a variant
                    pool.push(VDef { name: f.name.to_uppercase() + "_", ..f });
                }
                let max = ctx.by_tier(4, 5).min(pool.len());
                let ids = &[0u8, 1, 255, 2, 127][..ctx.by_tier(4, 5)];
                let mut picks: Vec<Vec<(usize, usize)>> = vec![vec![]];
                let mut layer = picks.clone();
                for _ in 0..max {
                    let mut next = vec![];
                    for l in &layer {
                        for v in 0..pool.len() {
                            for i in 0..ids.len() {
                                if l.iter().all(|(w, j)| *w != v && *j != i) {
                                    let mut m = l.clone();
                                    m.push((v, i));
                                    next.push(m);
                                }
                            }
                        }
                    }
                    picks.extend(next.clone());
                    layer = next;
                }
                let mut n = 0u64;
                for p in picks {
                    let vars: Vec<VDef> = p.iter().map(|(v, i)| VDef { index: ids[*i], ..pool[*v].clone() }).collect();
                    let mut types = types.clone();
                    let t = types.add(Def::Var { path: vec!["E".into()], vars });
                    for b in traces(ctx, &types, t, GenOpts { invalid: true, max_depth: 6, ..GenOpts::VALID }, 1, 0) {
                        let r = refdec(&types, t, &b);
                        if r == Err(RErr::Depth) {
                            continue;
                        }
                        // the same type ID stands for other variants here
                        ctx.state(&(&p, &b));
                        judge(ctx, &e, &tgt, &types, t, &b, &r);
                        n += 1;
                    }
                }
                ctx.sample(|| format!("{}: {n} decodes", e.name));
            },
        );
    }
}

/// Each variant, and each of its fields, renamed to every name one edit away.
fn one_edit(ctx: &mut Ctx) {
    let mut es = mc::all::enums();
    es.extend(mc::all::enumlikes());
    for e in es {
        ctx.case(
            || format!("variants one edit away from those of {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let Some(own) = sources(&mut types, &tgt).into_iter().find(|t| matches!(types.get(*t), Def::Var { .. })) else { return };
                let Def::Var { path, vars } = types.get(own).clone() else { unreachable!() };
                let few = ctx.by_tier(6, 12);
                for v in vars.iter().take(few) {
                    let one = types.add(Def::Var { path: path.clone(), vars: vec![v.clone()] });
                    let bytes = traces(ctx, &types, one, GenOpts { max_depth: 6, ..GenOpts::VALID }, 0, 0);
                    let try_one = |ctx: &mut Ctx, w: VDef| {
                        let mut types = types.clone();
                        let n = (w.name.clone(), w.fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>());
                        let t = types.add(Def::Var { path: path.clone(), vars: vec![w] });
                        for b in &bytes {
                            ctx.state(&("edit", &n, b));
                            let r = refdec(&types, t, b);
                            judge(ctx, &e, &tgt, &types, t, b, &r);
                        }
                    };
                    for n in neighbours(&v.name) {
                        if vars.iter().all(|x| x.name != n) {
                            try_one(ctx, VDef { name: n, ..v.clone() });
                        }
                    }
                    for i in 0..v.fields.len().min(ctx.by_tier(1, 4)) {
                        let Some(name) = v.fields[i].0.clone() else { continue };
                        for n in neighbours(&name) {
                            if v.fields.iter().all(|x| x.0.as_ref() != Some(&n)) {
                                let mut w = v.clone();
                                w.fields[i].0 = Some(n);
                                try_one(ctx, w);
                            }
                        }
                    }
                }
            },
        );
    }
}

fn body(ctx: &mut Ctx) {
    space(ctx);
    arrangements(ctx);
    one_edit(ctx);
    let mut es = mc::all::enums();
    es.extend(mc::all::enumlikes());
    let dev = ctx.by_tier(1, 2);
    judge_all(ctx, &es, Plan { cap: ctx.by_tier(60_000, 100_000), ..plan(GenOpts { invalid: true, ..if ctx.quick() { GenOpts::VALID } else { GenOpts::RICH } }, dev) });
    big_target_cases(ctx, &es, &ctx.by_tier(few(), LENS.to_vec()), ctx.by_tier(4, 8), &judge);
}

fn main() {
    mc::run::main(Spec {
        id: "C15",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: complete decodes compared with the target model",
        bounds: |t| match t {
            Tier::Quick => "13 derived enums (unit, tuple and struct variants, skipped fields, recursive, generic, nested, empty), options and results; sources: same, reversed, renumbered, missing, unknown and extended variants, every field list variation per variant, wrappers, and every list of up to 4 fields over own, skipped, foreign and no names for every variant at several indices; every choice of up to 4 own and foreign variants in every order with every assignment of 4 indices; every name one edit (over 141 characters) away from a variant's or a field's; every variant and one deviation from the default bytes, unknown indices; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others".into(),
            Tier::Thorough => "as quick with rich leaf alphabets, two deviations and lists of up to 5 fields and choices of up to 5 variants; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["whether an error inside a derived enum's fields names the variant is left open"],
        require: &["value", "wrong-length", "unexpected", "no-variant", "no-field"],
        body,
    })
}

//! C14: struct fields and map keys are matched by name.
use mc::big::*;
use mc::gen::*;
use mc::plan::*;
use mc::run::*;
use mc::tcheck::*;
use mc::core_checks::*;
use mc::refdec::*;
use mc::targets::*;
use mc::ty::*;

/// Every list of source fields up to a length, see `field_space`.
fn space(ctx: &mut Ctx) {
    for e in mc::all::structs() {
        ctx.case(
            || format!("all field lists into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let Tgt::Struct(f) = &tgt else { return };
                let n = match f {
                    FieldsT::Named(v) | FieldsT::Unnamed(v) => v.len(),
                    FieldsT::Unit => 0,
                };
                if n > 6 {
                    return;
                }
                let mut types = Types::new();
                let max = (n + 1).min(ctx.by_tier(4, 5));
                for l in field_space(&mut types, f, max) {
                    let l: Vec<(&str, Tid)> = l.iter().map(|x| (x.0.as_str(), x.1)).collect();
                    let t = types.comp(&["S"], &l);
                    for b in traces(ctx, &types, t, GenOpts::VALID, 0, 10) {
                        let r = refdec(&types, t, &b);
                        judge(ctx, &e, &tgt, &types, t, &b, &r);
                    }
                    if l.iter().all(|x| x.0.is_empty()) {
                        let ts: Vec<Tid> = l.iter().map(|x| x.1).collect();
                        let t = types.tup(&ts);
                        for b in traces(ctx, &types, t, GenOpts::VALID, 0, 10) {
                            let r = refdec(&types, t, &b);
                            judge(ctx, &e, &tgt, &types, t, &b, &r);
                        }
                    }
                }
            },
        );
    }
}

/// Each field renamed to every name one edit away.
fn one_edit(ctx: &mut Ctx) {
    for e in mc::all::structs() {
        ctx.case(
            || format!("fields one edit away from those of {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let Tgt::Struct(FieldsT::Named(fs)) = &tgt else { return };
                let mut types = Types::new();
                let Some(own) = sources(&mut types, &tgt).into_iter().find(|t| matches!(types.get(*t), Def::Comp { .. })) else { return };
                let Def::Comp { path, fields } = types.get(own).clone() else { unreachable!() };
                let bytes = traces(ctx, &types, own, GenOpts { max_depth: 6, ..GenOpts::VALID }, 0, 0);
                let all: Vec<&str> = fs.iter().map(|f| f.name.as_str()).collect();
                let few = ctx.by_tier(2, 6).max(if fields.len() <= 4 { 4 } else { 0 });
                for i in 0..fields.len() {
                    if i >= few && i + 1 < fields.len() {
                        continue;
                    }
                    let Some(name) = fields[i].0.clone() else { continue };
                    for n in neighbours(&name) {
                        if all.contains(&n.as_str()) {
                            continue;
                        }
                        let mut fields = fields.clone();
                        fields[i].0 = Some(n.clone());
                        let mut types = types.clone();
                        let t = types.add(Def::Comp { path: path.clone(), fields });
                        for b in &bytes {
                            ctx.state(&("edit", i, &n, b));
                            let r = refdec(&types, t, b);
                            judge(ctx, &e, &tgt, &types, t, b, &r);
                        }
                    }
                }
            },
        );
    }
}

fn body(ctx: &mut Ctx) {
    space(ctx);
    one_edit(ctx);
    let mut es = mc::all::structs();
    es.extend(mc::all::maps());
    let dev = ctx.by_tier(1, 2);
    judge_all(ctx, &es, Plan { cap: ctx.by_tier(60_000, 100_000), ..plan(if ctx.quick() { GenOpts::VALID } else { GenOpts::RICH }, dev) });
    big_target_cases(ctx, &es, &ctx.by_tier(few(), LENS.to_vec()), ctx.by_tier(4, 8), &judge);
}

fn main() {
    mc::run::main(Spec {
        id: "C14",
        states_are: "states: distinct (target, source type, bytes); transitions: library calls; traces: complete decodes compared with the target model",
        bounds: |t| match t {
            Tier::Quick => "derived structs: named and unnamed of 0..4 fields with every set of skipped fields, nested, generic, raw-identifier, lifetime and const-generic structs; string-keyed maps; sources: all field orders (up to 3 fields), extra, missing, renamed, unnamed, mixed and mistyped fields, and every list of up to 4 fields over own, skipped, foreign and no names, and every name one edit (over 141 characters) away from a field's; one deviation from the default bytes; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others".into(),
            Tier::Thorough => "as quick with rich leaf alphabets, two deviations and lists of up to 5 fields; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["source fields carry distinct names"],
        require: &["value", "wrong-length", "unexpected", "no-field"],
        body,
    })
}

//! C17: the outcome does not depend on which resolver describes the types.
use mc::core_checks::*;
use mc::gen::*;
use mc::plan::{self, replaced};
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor};
use std::collections::HashSet;

mc::use_target_types!();

struct All {
    types: Types,
    string: StrRes,
    alias: AliasRes,
    port: PortRes,
}
impl All {
    fn new(types: Types) -> All {
        All { string: StrRes(types.clone()), alias: AliasRes(types.clone()), port: PortRes::new(&types), types }
    }
}

/// An outcome with everything that is particular to the resolver taken out of it.
#[derive(Debug, Clone, PartialEq)]
enum Got {
    Value(Node),
    Unit,
    NotFound,
    Resolver,
    Err(String),
}

/// Errors about types must name the cause.
fn class<R: Res>(res: &R, want: &Result<Node, RErr>, e: &DecodeError) -> Result<Got, String> {
    match e {
        DecodeError::TypeIdNotFound(s) => {
            let id = match want {
                Err(RErr::NotFound(t)) => res.id(*t),
                w => return Err(format!("{e:?}, but the outcome should be {w:?}")),
            };
            // the same type may go by many IDs
            let full = format!("{id:?}");
            let key = full.split(", at").next().unwrap_or(&full).to_string();
            if s.contains(&key) {
                Ok(Got::NotFound)
            } else {
                Err(format!("unknown type ID {full} reported as {s:?}"))
            }
        }
        DecodeError::TypeResolvingError(s) => match want {
            Err(RErr::Resolver(m)) => {
                if res.label() == "portable" || s.contains(m.as_str()) {
                    Ok(Got::Resolver)
                } else {
                    Err(format!("resolver error {m:?} reported as {s:?}"))
                }
            }
            w => Err(format!("{e:?}, but the outcome should be {w:?}")),
        },
        // the reference leaves strings to who reads them
        DecodeError::InvalidStr(_) => Ok(Got::Err(format!("{e:?}"))),
        e => match want {
            Err(RErr::NotFound(t)) => Err(format!("{e:?} instead of type ID {:?} not being found", res.id(*t))),
            Err(RErr::Resolver(m)) => Err(format!("{e:?} instead of the resolver's error {m:?}")),
            _ => Ok(Got::Err(format!("{e:?}"))),
        },
    }
}

fn visit<R: Res>(ctx: &mut Ctx, res: &R, t: Tid, b: &[u8], mode: Option<Mode>, want: &Result<Node, RErr>) -> Result<(Got, Option<usize>), String> {
    ctx.trace();
    match mode {
        Some(mode) => match record(ctx, res, t, b, mode) {
            Err(Panicked(p)) => Err(format!("panicked: {p}")),
            Ok(o) => {
                let g = match o.res {
                    Ok(n) => Got::Value(n),
                    Err(VErr::D(e)) => class(res, want, &e)?,
                    Err(e) => return Err(format!("{e:?}")),
                };
                Ok((g, o.pos))
            }
        },
        None => {
            let mut input = b;
            let id = res.id(t);
            match ctx.lib(|| decode_with_visitor(&mut input, id, res, IgnoreVisitor::<R>::new())) {
                Err(Panicked(p)) => Err(format!("panicked: {p}")),
                Ok(r) => Ok((
                    match r {
                        Ok(()) => Got::Unit,
                        Err(e) => class(res, want, &e)?,
                    },
                    suffix(b, input),
                )),
            }
        }
    }
}

/// All resolvers give the same.
fn same(ctx: &mut Ctx, a: &All, t: Tid, b: &[u8], modes: &[Option<Mode>]) {
    let want = refdec(&a.types, t, b);
    if want == Err(RErr::Depth) {
        return;
    }
    if !ctx.state(&(t, b)) {
        return;
    }
    for m in modes {
        let r0 = visit(ctx, &a.types, t, b, *m, &want);
        let rs = [
            ("string", visit(ctx, &a.string, t, b, *m, &want)),
            ("alias", visit(ctx, &a.alias, t, b, *m, &want)),
            ("portable", visit(ctx, &a.port, t, b, *m, &want)),
        ];
        let key = || format!("visit:{}:{}", a.types.show(t), hex(b));
        match &r0 {
            Err(d) => {
                let d = d.clone();
                ctx.violation(&key(), || format!("numeric IDs: {d}: {}", show_case(&a.types, t, b)));
                continue;
            }
            Ok((g, _)) => {
                ctx.outcome(match g {
                    Got::Value(_) | Got::Unit => "value",
                    Got::NotFound => "not-found",
                    Got::Resolver => "resolver-error",
                    Got::Err(_) => "error",
                });
                let text = matches!(g, Got::Err(e) if e.starts_with("InvalidStr"));
                if !text && want.is_ok() != matches!(g, Got::Value(_) | Got::Unit) {
                    let d = format!("{g:?}, expected {want:?}");
                    ctx.violation(&key(), || format!("numeric IDs: {d}: {}", show_case(&a.types, t, b)));
                }
            }
        }
        for (l, r) in rs {
            if r != r0 {
                ctx.violation(&key(), || format!("{m:?}: {l} resolver: {r:?}; numeric IDs: {r0:?}: {}", show_case(&a.types, t, b)));
            }
        }
    }
}

fn target<R: Res>(ctx: &mut Ctx, run: Run<R>, res: &R, t: Tid, b: &[u8]) -> Result<(Result<O, GotErr>, Option<usize>), String> {
    let mut input = b;
    let id = res.id(t);
    let r = ctx.lib(|| run(&mut input, id, res));
    ctx.trace();
    match r {
        Err(Panicked(p)) => Err(format!("panicked: {p}")),
        Ok(r) => Ok((
            r.map_err(|e| {
                let about_types = matches!(
                    e.kind(),
                    scale_decode::error::ErrorKind::VisitorDecodeError(DecodeError::TypeIdNotFound(_) | DecodeError::TypeResolvingError(_))
                );
                let mut g = GotErr::from(e);
                if about_types {
                    g.shown = String::new();
                    g.kind_shown = "about types".into();
                }
                g
            }),
            suffix(b, input),
        )),
    }
}

fn same_target(ctx: &mut Ctx, row: &Row, a: &All, t: Tid, b: &[u8]) {
    let want = refdec(&a.types, t, b);
    if want == Err(RErr::Depth) {
        return;
    }
    if !ctx.state(&(row.name, t, b)) {
        return;
    }
    let r0 = target(ctx, row.plain, &a.types, t, b);
    let rs = [
        ("string", target(ctx, row.string, &a.string, t, b)),
        ("alias", target(ctx, row.alias, &a.alias, t, b)),
        ("portable", target(ctx, row.port, &a.port, t, b)),
    ];
    ctx.outcome(match &r0 {
        Ok((Ok(_), _)) => "target-value",
        _ => "target-error",
    });
    for (l, r) in rs {
        if r != r0 {
            ctx.violation(&format!("{}:{}:{}", row.name, a.types.show(t), hex(b)), || {
                format!("into {}: {l} resolver: {r:?}; numeric IDs: {r0:?}: {}", row.name, show_case(&a.types, t, b))
            });
        }
    }
}

fn rows() -> Vec<Row> {
    let mut v = mc::scalar_targets!(rows);
    v.extend(mc::pointer_targets!(rows));
    v.extend(mc::seq_targets!(rows));
    v.extend(mc::map_targets!(rows));
    v.extend(mc::enumlike_targets!(rows));
    v.extend(mc::range_targets!(rows));
    v.extend(mc::rows![
        u8, u16, u128, i64, NonZeroU32, (), (u8,), (u8, u16), (u8, String, bool), ((u8, u16), String), (u8, (String,), Option<u8>),
        Na0m0, Na2m1, Na3m5, Na4m0, Na4m6, Un0m0, Un2m2, Un3m0, Un4m9, UnitS, RawS, NewU8, NewNew, NewC, NewVec, Deep, Mixd,
        HasEnum, Big20, BigU18, Gen1<Na1m0>, GenW<u16, bool>, Con<3>, Crp
    ]);
    v
}

fn cut_traces(ctx: &mut Ctx, types: &Types, t: Tid, o: GenOpts, dev: usize, cap: u64, sparse: bool) -> Vec<Vec<u8>> {
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut out = vec![];
    for b in traces(ctx, types, t, o, dev, cap) {
        for c in cuts(b.len()).into_iter().chain([b.len()]) {
            if (!sparse || c == b.len() || c < 8 || c % 7 == 0) && seen.insert(b[..c].to_vec()) {
                out.push(b[..c].to_vec());
            }
        }
    }
    out
}

fn body(ctx: &mut Ctx) {
    // 1. visitors, with unknown and failing types at every position
    let mut uni = universe(ctx.by_tier(1, 2));
    {
        let ty = &mut uni.types;
        let (nf, fl) = (ty.notfound(), ty.failing());
        let mut base: Vec<Tid> = vec![];
        for r in reps(ty) {
            base.extend(ctors(ty, r));
        }
        let (u, s) = (ty.u8(), ty.str());
        let deep = ty.named(&[("a", u), ("b", s)]);
        let o = ty.option(deep);
        let deep = ty.seq(o);
        base.push(ty.tup(&[u, deep, s]));
        let mut more = vec![nf, fl];
        for x in base {
            more.extend(replaced(ty, x, nf, 4));
            more.extend(replaced(ty, x, fl, 4));
        }
        let mut seen: HashSet<Tid> = uni.roots.iter().copied().collect();
        more.retain(|t| seen.insert(*t));
        uni.roots.extend(more);
    }
    let a = All::new(uni.types.clone());
    let a = &a;
    let few = [None, Some(Mode::Items), Some(Mode::IterLate)];
    let all: Vec<Option<Mode>> = MODES.iter().map(|m| Some(*m)).chain([None]).collect();
    for &t in &uni.roots {
        ctx.case(
            || format!("visitors on {}", a.types.show(t)),
            |ctx| {
                let (dev, cap) = ctx.by_tier((1, 2_000), (2, 6_000));
                let bs = cut_traces(ctx, &a.types, t, GenOpts { max_depth: 6, ..GenOpts::ALL }, dev, cap, ctx.quick());
                for (i, b) in bs.iter().enumerate() {
                    same(ctx, a, t, b, if i < 20 { &all } else { &few });
                }
                ctx.sample(|| format!("{}: {} byte strings", a.types.show(t), bs.len()));
            },
        );
    }
    // 2. targets
    for row in rows() {
        ctx.case(
            || format!("decode into {}", row.name),
            |ctx| {
                let tgt = (row.tgt)();
                let mut types = Types::new();
                let mut srcs = plan::sources(&mut types, &tgt);
                let (nf, fl) = (types.notfound(), types.failing());
                for t in srcs.clone().iter().take(ctx.by_tier(6, 40)) {
                    srcs.extend(replaced(&mut types, *t, nf, 3));
                    srcs.extend(replaced(&mut types, *t, fl, 3));
                }
                let mut once = HashSet::new();
                srcs.retain(|t| once.insert(*t));
                let a = All::new(types);
                let (dev, cap) = ctx.by_tier((1, 2_000), (2, 6_000));
                for &t in &srcs {
                    for b in cut_traces(ctx, &a.types, t, GenOpts { max_depth: 6, ..GenOpts::ALL }, dev, cap, ctx.quick()) {
                        same_target(ctx, &row, &a, t, &b);
                    }
                }
                ctx.sample(|| format!("{}: {} source types", row.name, srcs.len()));
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C17",
        states_are: "states: distinct (target, type, bytes); transitions: callbacks and library calls; traces: complete decodes, four resolvers each, compared with one another (and unknown IDs and resolver failures with the reference decoder)",
        bounds: |t| match t {
            Tier::Quick => "resolvers: numeric IDs; reversed string IDs; a fresh ID for every mention, default ID known; scale_info registry. Types: depth-1 universe, and an unknown or failing type at every position of constructors over 9 representatives; bytes with <=1 deviation and truncations; 6 ways of reading. 120 targets x their source types likewise".into(),
            Tier::Thorough => "as quick with the depth-2 universe, <=2 deviations and all truncations".into(),
        },
        assumptions: &["errors of the scale_info registry are not compared by text"],
        require: &["value", "not-found", "resolver-error", "error", "target-value", "target-error"],
        body,
    })
}

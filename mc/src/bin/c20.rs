//! C20: errors say where decoding failed, outermost location first.
use mc::big::*;
use mc::gen::*;
use mc::plan::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::ty::*;
use scale_decode::error::{Context, Error, ErrorKind, Location};
use scale_decode::visitor::{DecodeError, TypeIdFor, Unexpected, Visitor};
use scale_decode::{IntoVisitor, TypeResolver};
mc::use_target_types!();

fn push(path: &[Loc], l: Loc) -> Vec<Loc> {
    let mut p = path.to_vec();
    p.push(l);
    p
}

/// Paths to strings that are no UTF-8 inside a complete value.
fn bad_strings(t: &Tgt, n: &Node, path: &[Loc], out: &mut Vec<Vec<Loc>>) {
    if n.utf8_ok() {
        return;
    }
    // the model lists them as errors
    for (k, p) in project(t, n, path).errs {
        if matches!(k, Ek::Decode) {
            out.push(p);
        }
    }
}

/// Locations that lead to the part of malformed bytes that cannot be read, and to bad strings before it.
/// `None`: cannot say.
fn fail_paths(t: &Tgt, types: &Types, tid: Tid, b: &[u8], pos: usize, compact: bool, path: Vec<Loc>, out: &mut Vec<Vec<Loc>>) -> Option<()> {
    let lazy;
    let mut t = t;
    if let Tgt::Lazy(f) = t {
        lazy = f();
        t = &lazy;
    }
    let (mut tid, mut compact, mut pos) = (tid, compact, pos);
    let mut croot = false;
    while let Def::Compact(i) = types.get(tid) {
        tid = *i;
        compact = true;
        croot = true;
    }
    if let Tgt::Tup(ts) = t {
        if ts.len() == 1 {
            match types.get(tid) {
                _ if croot => return None,
                Def::Comp { .. } | Def::Tup(_) => {}
                // taken as its element
                _ => return fail_paths(&ts[0], types, tid, b, pos, compact, path, out),
            }
        }
    }
    // built-in targets and enums look through wrappers
    let through = !matches!(t, Tgt::Tup(_) | Tgt::Struct(_) | Tgt::Map(_) | Tgt::Phantom | Tgt::Range(_) | Tgt::Duration);
    if through {
        loop {
            tid = match types.get(tid) {
                Def::Comp { fields, .. } if fields.len() == 1 => fields[0].1,
                Def::Tup(v) if v.len() == 1 => v[0],
                Def::Compact(i) => {
                    compact = true;
                    *i
                }
                _ => break,
            };
        }
    }
    let one = match types.get(tid) {
        Def::Comp { fields, .. } => fields.len() == 1,
        Def::Tup(v) => v.len() == 1,
        _ => false,
    };
    if compact && !one {
        // no compact encoding, or a bad one
        out.push(path);
        return Some(());
    }
    let decl: Vec<(Option<String>, Tid)> = match types.get(tid) {
        Def::Comp { fields, .. } => fields.clone(),
        Def::Tup(ts) => ts.iter().map(|t| (None, *t)).collect(),
        Def::Arr(e, n) => vec![(None, *e); *n],
        Def::Var { vars, .. } => {
            let Some(v) = b.get(pos).and_then(|i| vars.iter().find(|v| v.index == *i)) else {
                out.push(path);
                return Some(());
            };
            pos += 1;
            match t {
                Tgt::Opt(x) if v.fields.len() == 1 && v.name == "Some" => {
                    return fail_paths(x, types, v.fields[0].1, b, pos, false, push(&path, Loc::Variant(v.name.clone())), out)
                }
                Tgt::Res(x, y) if v.fields.len() == 1 && (v.name == "Ok" || v.name == "Err") => {
                    let x = if v.name == "Ok" { x } else { y };
                    return fail_paths(x, types, v.fields[0].1, b, pos, false, push(&path, Loc::Variant(v.name.clone())), out);
                }
                Tgt::Enum(vs) => {
                    let Some((_, f)) = vs.iter().find(|x| x.0 == v.name) else {
                        out.push(path);
                        return Some(());
                    };
                    let p = push(&path, Loc::MaybeVariant(v.name.clone()));
                    return fields(f, types, &v.fields, false, b, pos, compact, p, out);
                }
                _ => {
                    out.push(path);
                    return Some(());
                }
            }
        }
        Def::Seq(e) => {
            let mut d = Dec::new(types, b);
            d.pos = pos;
            let Ok(n) = d.compact(64) else {
                out.push(path);
                return Some(());
            };
            pos = d.pos;
            vec![(None, *e); n.min(1000) as usize]
        }
        _ => {
            out.push(path);
            return Some(());
        }
    };
    let is_seq = matches!(types.get(tid), Def::Seq(_) | Def::Arr(..));
    match t {
        Tgt::List(e) | Tgt::Set(e) | Tgt::Heap(e) | Tgt::Arr(e, _) if is_seq => {
            let e: &Tgt = e;
            each(&|i| Some((e, Loc::Idx(i))), types, &decl, b, pos, false, path, out)
        }
        Tgt::Tup(ts) if !is_seq => {
            each(&|i| ts.get(i).map(|t| (t, Loc::Idx(i))), types, &decl, b, pos, compact, path, out)
        }
        Tgt::Range(e) if !is_seq => each(&|i| (i < 2).then(|| (&**e, Loc::Idx(i))), types, &decl, b, pos, compact, path, out),
        Tgt::Duration if !is_seq => {
            let u = Tgt::Int { signed: false, bits: 64, nonzero: false };
            each(&|i| (i < 2).then(|| (&u, Loc::Idx(i))), types, &decl, b, pos, compact, path, out)
        }
        Tgt::Map(e) if !is_seq => {
            each(&|i| decl[i].0.clone().map(|n| (&**e, Loc::Field(n))), types, &decl, b, pos, compact, path, out)
        }
        Tgt::Struct(f) if !is_seq => fields(f, types, &decl, matches!(types.get(tid), Def::Tup(_)), b, pos, compact, path, out),
        _ => {
            out.push(path);
            Some(())
        }
    }
}

fn fields(f: &FieldsT, types: &Types, decl: &[(Option<String>, Tid)], is_tuple: bool, b: &[u8], pos: usize, compact: bool, path: Vec<Loc>, out: &mut Vec<Vec<Loc>>) -> Option<()> {
    let fs: &[FieldT] = match f {
        FieldsT::Named(v) | FieldsT::Unnamed(v) => v,
        FieldsT::Unit => &[],
    };
    let used: Vec<(usize, &FieldT)> = fs.iter().enumerate().filter(|f| !f.1.skip).collect();
    let by_name = matches!(f, FieldsT::Named(_)) && !is_tuple && decl.iter().all(|s| s.0.is_some());
    let pick = |i: usize| -> Option<(&Tgt, Loc)> {
        if by_name {
            let f = used.iter().find(|f| decl[i].0.as_ref() == Some(&f.1.name))?;
            Some((&f.1.tgt, Loc::Field(f.1.name.clone())))
        } else {
            let (k, f2) = used.get(i)?;
            let loc = if matches!(f, FieldsT::Named(_)) { Loc::Field(f2.name.clone()) } else { Loc::Idx2(*k, i) };
            Some((&f2.tgt, loc))
        }
    };
    each(&pick, types, decl, b, pos, compact, path, out)
}

fn each<'t>(pick: &dyn Fn(usize) -> Option<(&'t Tgt, Loc)>, types: &Types, decl: &[(Option<String>, Tid)], b: &[u8], pos: usize, compact: bool, path: Vec<Loc>, out: &mut Vec<Vec<Loc>>) -> Option<()> {
    let mut d = Dec::new(types, b);
    d.pos = pos;
    for (i, (_, tid)) in decl.iter().enumerate() {
        let at = d.pos;
        match d.value_in(*tid, compact) {
            Ok(n) => {
                if let Some((t, l)) = pick(i) {
                    bad_strings(t, &n, &push(&path, l), out);
                }
            }
            Err(RErr::Depth) => return None,
            Err(_) => {
                return match pick(i) {
                    Some((t, l)) => fail_paths(t, types, *tid, b, at, compact, push(&path, l), out),
                    None => {
                        out.push(path);
                        Some(())
                    }
                };
            }
        }
    }
    // all items are fine: the claimed length was clamped, or the items are not the trouble
    None
}

/// `got` is the location list `want`, or stops short at fields of a struct, which are all passed over before any is
/// decoded.
fn front(want: &[Loc], got: &[Location]) -> bool {
    (0..=want.len()).any(|k| (k == want.len() || matches!(want[k], Loc::Field(_) | Loc::Idx2(..))) && path_admits(&want[..k], got))
}

fn paths(ctx: &mut Ctx, e: &Entry, tgt: &Tgt, types: &Types, t: Tid, b: &[u8], r: &Result<Node, RErr>) {
    let Some(c) = try_target(ctx, e, tgt, types, t, b, r) else { return };
    let Err(g) = &c.got else { return };
    if !shows_path(&g.path, &g.shown, &g.kind_shown) {
        ctx.violation(&c.key("shown"), || format!("displayed error does not list {:?}: {}", g.path, c.show()));
        return;
    }
    match c.want() {
        Some(w) => {
            // only errors of a kind that may be given tell where they should be
            let mut fit = w.errs.iter().filter(|x| x.0.admits(&g.kind)).peekable();
            if fit.peek().is_some() {
                if fit.any(|x| path_admits(&x.1, &g.path)) {
                    ctx.outcome(&format!("path-of-{}", g.path.len().min(4)));
                } else {
                    ctx.violation(&c.key("path"), || {
                        let want: Vec<_> = w.errs.iter().filter(|x| x.0.admits(&g.kind)).map(|x| &x.1).collect();
                        format!("location {:?}, should be one of {want:?}: {}", g.path, c.show())
                    });
                }
            }
        }
        None if g.kind == Ek::Decode => {
            let mut cand = vec![];
            match fail_paths(tgt, types, t, b, 0, false, vec![], &mut cand) {
                None => ctx.outcome("malformed-path-open"),
                Some(()) => {
                    if cand.iter().any(|p| front(p, &g.path)) {
                        ctx.outcome(&format!("malformed-path-of-{}", g.path.len().min(4)));
                    } else {
                        ctx.violation(&c.key("malformed-path"), || {
                            format!("location {:?} does not lead to the malformed part, which is at one of {cand:?}: {}", g.path, c.show())
                        });
                    }
                }
            }
        }
        None => {}
    }
}

/// Chains of locations of every length, with one unlike its neighbours anywhere.
fn long_chains(ctx: &mut Ctx) {
    let max = ctx.by_tier(40usize, 80);
    let lens: Vec<usize> = (0..=max).chain([100, 127, 128, 129, 255, 256, 257, 300]).chain(if ctx.quick() { vec![] } else { vec![511, 513, 1000, 1025] }).collect();
    for n in lens {
        ctx.case(
            || format!("{n} locations"),
            |ctx| {
                let base = |i: usize| match i % 3 {
                    0 => Location::idx(i),
                    1 => Location::field(format!("f{i}")),
                    _ => Location::variant(format!("V{i}")),
                };
                let odd = [Location::idx(usize::MAX), Location::field("odd"), Location::variant("Odd"), Location::idx(0), Location::field("f1")];
                let places: Vec<Option<(usize, usize)>> = if n <= max {
                    std::iter::once(None).chain((0..n).flat_map(|p| (0..odd.len()).map(move |k| Some((p, k))))).collect()
                } else {
                    vec![None, Some((0, 0)), Some((n / 2, 1)), Some((n - 1, 2))]
                };
                for pl in places {
                    // outermost first
                    let want: Vec<Location> = (0..n).map(|i| match pl {
                        Some((p, k)) if p == i => odd[k].clone(),
                        _ => base(i),
                    }).collect();
                    ctx.state(&("chain", n, pl));
                    ctx.trace();
                    let r = ctx.lib(|| {
                        let mut e = Error::custom_str("custom");
                        for l in want.iter().rev() {
                            e = e.at(l.clone());
                        }
                        let mut c = Context::new();
                        for l in &want {
                            c.push(l.clone());
                        }
                        let got: Vec<Location> = e.context().path().locations().cloned().collect();
                        let owned: Vec<Location> = e.context().clone().path().into_owned().locations().cloned().collect();
                        let pushed: Vec<Location> = c.path().locations().cloned().collect();
                        (got, owned, pushed, e.to_string(), e.context().path().to_string(), c.path().to_string())
                    });
                    let key = format!("chain:{n}:{pl:?}");
                    match r {
                        Err(Panicked(p)) => ctx.violation(&key, || format!("adding {n} locations: panic {p}")),
                        Ok((got, owned, pushed, shown, path, pushed_path)) => {
                            if got != want || owned != want || pushed != want {
                                ctx.violation(&key, || format!("{n} locations added: {want:?}; listed {got:?}, owned {owned:?}, pushed {pushed:?}"));
                            } else if !shows_path(&want, &shown, "Custom error: custom") || !shows_path(&want, &path, "") || path != pushed_path {
                                ctx.violation(&key, || format!("{n} locations {want:?} displayed as {shown}, path {path}, {pushed_path}"));
                            } else {
                                ctx.outcome("chain");
                            }
                        }
                    }
                }
            },
        );
    }
}

#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
struct Chain {
    next: Option<Box<Chain>>,
    v: OwnLoc,
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
struct Tree(u8, Vec<Tree>, OwnLoc);
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
struct Maps {
    m: Option<BTreeMap<String, Maps>>,
    v: OwnLoc,
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
enum Li {
    Nil(OwnLoc),
    Cons(u8, Box<Li>),
    Named { v: OwnLoc, rest: Rc<Li> },
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
struct Pairs((u8, Result<Arc<Pairs>, OwnLoc>));

/// Errors at every depth of recursive types.
fn deep_errors(ctx: &mut Ctx) {
    let max = ctx.by_tier(40usize, 200);
    type Shape = (&'static str, Go, fn(&mut Types) -> Tid, fn(usize) -> (Vec<u8>, Vec<Loc>));
    fn f(s: &str) -> Loc {
        Loc::Field(s.into())
    }
    let shapes: Vec<Shape> = vec![
        (
            "Option<Box<_>> in a struct",
            go::<Chain>,
            |t| {
                let u = t.u8();
                let me = t.add_fresh(Def::NotFound);
                let o = t.option(me);
                t.set(me, Def::Comp { path: vec![], fields: vec![(Some("next".into()), o), (Some("v".into()), u)] });
                me
            },
            |n| {
                let mut b = vec![1; n];
                b.push(0);
                b.push(1);
                b.extend(vec![0; n]);
                let mut p: Vec<Loc> = (0..n).flat_map(|_| [f("next"), Loc::Variant("Some".into())]).collect();
                p.push(f("v"));
                (b, p)
            },
        ),
        (
            "second of two in a Vec in a struct",
            go::<Tree>,
            |t| {
                let u = t.u8();
                let me = t.add_fresh(Def::NotFound);
                let o = t.seq(me);
                t.set(me, Def::Comp { path: vec![], fields: vec![(None, u), (None, o), (None, u)] });
                me
            },
            |n| {
                let mut b = vec![];
                for _ in 0..n {
                    // a first item that is fine
                    b.extend([9, 8, 7, 0, 0]);
                }
                b.extend([9, 0, 1]);
                b.extend(vec![0; n]);
                let mut p: Vec<Loc> = (0..n).flat_map(|_| [Loc::Idx(1), Loc::Idx(1)]).collect();
                p.push(Loc::Idx(2));
                (b, p)
            },
        ),
        (
            "maps",
            go::<Maps>,
            |t| {
                let u = t.u8();
                let me = t.add_fresh(Def::NotFound);
                let m = t.named(&[("key", me)]);
                let o = t.option(m);
                t.set(me, Def::Comp { path: vec![], fields: vec![(Some("v".into()), u), (Some("m".into()), o)] });
                me
            },
            |n| {
                let mut b = [0, 1].repeat(n);
                b.extend([1, 0]);
                let mut p: Vec<Loc> = (0..n).flat_map(|_| [f("m"), Loc::Variant("Some".into()), f("key")]).collect();
                p.push(f("v"));
                (b, p)
            },
        ),
        (
            "an enum",
            go::<Li>,
            |t| {
                let u = t.u8();
                let me = t.add_fresh(Def::NotFound);
                let v = |name: &str, index, fields| VDef { name: name.into(), index, fields };
                t.set(me, Def::Var { path: vec![], vars: vec![
                    v("Nil", 0, vec![(None, u)]),
                    v("Cons", 1, vec![(None, u), (None, me)]),
                    v("Named", 2, vec![(Some("v".into()), u), (Some("rest".into()), me)]),
                ] });
                me
            },
            |n| {
                let mut b = vec![];
                let mut p = vec![];
                for i in 0..n {
                    if i % 3 == 1 {
                        b.extend([2, 0]);
                        p.extend([Loc::MaybeVariant("Named".into()), f("rest")]);
                    } else {
                        b.extend([1, 7]);
                        p.extend([Loc::MaybeVariant("Cons".into()), Loc::Idx(1)]);
                    }
                }
                b.extend([0, 1]);
                p.extend([Loc::MaybeVariant("Nil".into()), Loc::Idx(0)]);
                (b, p)
            },
        ),
        (
            "results in tuples",
            go::<Pairs>,
            |t| {
                let u = t.u8();
                let me = t.add_fresh(Def::NotFound);
                let r = t.result(me, u);
                let tp = t.tup(&[u, r]);
                let one = t.tup(&[tp]);
                t.set(me, t.get(one).clone());
                me
            },
            |n| {
                let mut b = [3, 0].repeat(n);
                b.extend([3, 1, 1]);
                let mut p: Vec<Loc> = (0..n).flat_map(|_| [Loc::Idx(0), Loc::Idx(1), Loc::Variant("Ok".into())]).collect();
                p.extend([Loc::Idx(0), Loc::Idx(1), Loc::Variant("Err".into())]);
                (b, p)
            },
        ),
    ];
    for (name, run, mk, at) in shapes {
        ctx.case(
            || format!("deep: {name}"),
            |ctx| {
                let mut types = Types::new();
                let t = mk(&mut types);
                for n in 0..=max {
                    let (b, mut want) = at(n);
                    want.extend([f("own"), Loc::Variant("In".into())]);
                    ctx.state(&("deep", name, n));
                    ctx.trace();
                    let r = ctx.lib(|| run(&mut &*b, t, &types));
                    let key = format!("deep:{name}:{n}");
                    match r {
                        Ok(Err(e)) => {
                            let got: Vec<Location> = e.context().path().locations().cloned().collect();
                            if !path_admits(&want, &got) || !matches!(e.kind(), ErrorKind::Custom(_)) || !shows_path(&got, &e.to_string(), "Custom error: own") {
                                ctx.violation(&key, || format!("{name}, {n} deep, {}: locations should be {want:?}, got {got:?} shown as {e}", hex(&b)));
                            } else {
                                ctx.outcome("deep-error");
                            }
                        }
                        Ok(Ok(())) => ctx.violation(&key, || format!("{name}, {n} deep: the error vanished")),
                        Err(Panicked(p)) => ctx.violation(&key, || format!("{name}, {n} deep: panic: {p}")),
                    }
                }
            },
        );
    }
}

/// Items that fail far from the start of long sequences and arrays.
fn far_errors(ctx: &mut Ctx) {
    let targets: Vec<(&str, Go)> = vec![
        ("Vec", go::<Vec<u8>>),
        ("VecDeque", go::<VecDeque<u8>>),
        ("LinkedList", go::<LinkedList<u8>>),
        ("BinaryHeap", go::<BinaryHeap<u8>>),
        ("BTreeSet", go::<BTreeSet<u8>>),
        ("array", go::<[u8; 70_000]>),
        ("wrapped", go::<Vec<Box<(u8,)>>>),
    ];
    for (name, run) in targets {
        ctx.case(
            || format!("far: {name}"),
            |ctx| {
                for n in [300usize, 70_000] {
                    for arr in [false, true] {
                        let mut types = Types::new();
                        let u = types.u16();
                        let t = if arr { types.arr(u, n) } else { types.seq(u) };
                        let mut zero: Vec<u8> = vec![];
                        if !arr {
                            compact(n as u128, &mut zero);
                        }
                        let body = zero.len();
                        zero.resize(body + 2 * n, 0);
                        for i in [127usize, 128, 255, 256, 257, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 69_999] {
                            if i >= n {
                                continue;
                            }
                            let mut b = zero.clone();
                            b[body + 2 * i + 1] = 1;
                            ctx.state(&("far", name, n, arr, i));
                            ctx.trace();
                            let r = ctx.lib(|| run(&mut &*b, t, &types));
                            let key = format!("far:{name}:{n}:{arr}:{i}");
                            let mut want = vec![Loc::Idx(i)];
                            if name == "wrapped" {
                                want.push(Loc::MaybeVariant("?".into()));
                            }
                            match r {
                                Ok(Err(e)) => {
                                    let got: Vec<Location> = e.context().path().locations().cloned().collect();
                                    let out = matches!(e.kind(), ErrorKind::NumberOutOfRange { value } if value == "256");
                                    if !path_admits(&want, &got) || !out || !shows_path(&got, &e.to_string(), &e.kind().to_string()) {
                                        ctx.violation(&key, || format!("item {i} of {n} into {name}: locations should be {want:?}, got {got:?} shown as {e}"));
                                    } else {
                                        ctx.outcome("far-error");
                                    }
                                }
                                Ok(Ok(())) => ctx.violation(&key, || format!("item {i} of {n} into {name}: the error vanished")),
                                Err(Panicked(p)) => ctx.violation(&key, || format!("item {i} of {n} into {name}: panic: {p}")),
                            }
                        }
                    }
                }
            },
        );
    }
}

/// Everything adding context can do, in every order.
fn adding(ctx: &mut Ctx) {
    let locs = || {
        vec![
            Location::idx(3),
            Location::field("alpha"),
            Location::variant("Beta"),
            Location::idx(usize::MAX),
            Location::field(String::from("gamma")),
            Location::variant(String::from("Delta")),
        ]
    };
    let max = ctx.by_tier(4, 6);
    for k in 0..7 {
        ctx.case(
            || format!("adding context to error kind {k}"),
            |ctx| {
                let mut kinds: Vec<Vec<usize>> = vec![vec![]];
                let mut layer = kinds.clone();
                for _ in 0..max {
                    layer = layer.iter().flat_map(|p| (0..6).map(|i| { let mut p = p.clone(); p.push(i); p }).collect::<Vec<_>>()).collect();
                    kinds.extend(layer.clone());
                }
                for seq in kinds {
                    let l = locs();
                    let make = || match k {
                        0 => Error::new(ErrorKind::NumberOutOfRange { value: "300".into() }),
                        1 => Error::new(ErrorKind::WrongLength { actual_len: 3, expected_len: 4 }),
                        2 => Error::new(ErrorKind::CannotFindField { name: "missing".into() }),
                        3 => Error::new(ErrorKind::CannotFindVariant { got: "Got".into(), expected: vec!["X", "Y"] }),
                        4 => Error::custom_str("custom"),
                        5 => Error::custom_string("owned".into()),
                        _ => DecodeError::NotEnoughInput.into(),
                    };
                    let plain = make();
                    for how in 0..2 {
                        let r = ctx.lib(|| {
                            let mut e = make();
                            for i in &seq {
                                e = match (how, i) {
                                    (0, 0) => e.at_idx(3),
                                    (0, 1) => e.at_field("alpha"),
                                    (0, 2) => e.at_variant("Beta"),
                                    (0, 3) => e.at_idx(usize::MAX),
                                    (0, 4) => e.at_field(String::from("gamma")),
                                    (0, 5) => e.at_variant(String::from("Delta")),
                                    _ => e.at(l[*i].clone()),
                                };
                            }
                            e
                        });
                        ctx.trace();
                        ctx.state(&(k, &seq, how));
                        let Ok(e) = r else {
                            ctx.violation(&format!("at-panic:{k}:{seq:?}"), || format!("adding context {seq:?} panicked"));
                            return;
                        };
                        let want: Vec<Location> = seq.iter().rev().map(|i| l[*i].clone()).collect();
                        let got: Vec<Location> = e.context().path().locations().cloned().collect();
                        let owned: Vec<Location> = e.context().clone().path().into_owned().locations().cloned().collect();
                        if got != want || owned != want {
                            ctx.violation(&format!("at:{k}:{seq:?}:{how}"), || format!("locations added from the inside out: {seq:?}; listed {got:?}, should be {want:?}"));
                        } else if e.kind().to_string() != plain.kind().to_string()
                            || std::mem::discriminant(e.kind()) != std::mem::discriminant(plain.kind())
                        {
                            ctx.violation(&format!("kind:{k}:{seq:?}:{how}"), || format!("kind became {:?}", e.kind()));
                        } else if !shows_path(&want, &e.to_string(), &plain.kind().to_string()) {
                            ctx.violation(&format!("at-shown:{k}:{seq:?}:{how}"), || format!("displayed as {e}"));
                        } else {
                            ctx.outcome("context-added");
                        }
                        if k == 0 && how == 0 {
                            // a context by itself appends
                            let mut c = Context::new();
                            for i in &seq {
                                c.push(l[*i].clone());
                            }
                            let want: Vec<Location> = seq.iter().map(|i| l[*i].clone()).collect();
                            let got: Vec<Location> = c.path().locations().cloned().collect();
                            if got != want {
                                ctx.violation(&format!("push:{seq:?}"), || format!("pushed {want:?}, listed {got:?}"));
                            }
                        }
                    }
                }
            },
        );
    }
}

/// All names and positions of an alphabet, by themselves and in all pairs and triples with plain ones.
fn odd_names(ctx: &mut Ctx) {
    let mut names = mc::plan::near("alpha_beta");
    names.extend(["", " ", ".", "..", "0", "00", "7", "-1", "[3]", "(x)", "(x).y", "a.b.c", "at", ": ", "\u{feff}x", "x\ny", "{}", "{0}", "%s", "\\n", "\"q\"", "type", "None", "Some", "Ok"].map(String::from));
    names.extend([64, 255, 256, 1000, 70_000].map(|n| "nm".repeat(n)));
    let plain = [Location::idx(0), Location::field("f"), Location::variant("V")];
    for n in names {
        ctx.case(
            || format!("location named {:?}", n.chars().take(20).collect::<String>()),
            |ctx| {
                for (i, (make, want)) in [
                    (Error::custom_str("custom").at_field(n.clone()), Location::field(n.clone())),
                    (Error::custom_str("custom").at_variant(n.clone()), Location::variant(n.clone())),
                    (Error::custom_str("custom").at(Location::field(n.clone())), Location::field(n.clone())),
                ]
                .into_iter()
                .enumerate()
                {
                    let got: Vec<Location> = make.context().path().locations().cloned().collect();
                    ctx.trace();
                    if got != [want] || !make.to_string().contains(&n) {
                        ctx.violation(&format!("at-named:{n:?}:{i}"), || format!("{n:?} added: listed {got:?}, displayed {make}"));
                    }
                }
                for (how, l) in [
                    Location::field(n.clone()),
                    Location::variant(n.clone()),
                    Location::field(std::borrow::Cow::Owned(n.clone())),
                    Location::variant(&*Box::leak(n.clone().into_boxed_str())),
                ]
                .into_iter()
                .enumerate()
                {
                    let mut paths = vec![vec![l.clone()], vec![l.clone(), l.clone()]];
                    for a in &plain {
                        paths.push(vec![l.clone(), a.clone()]);
                        paths.push(vec![a.clone(), l.clone()]);
                        for b in &plain {
                            paths.push(vec![a.clone(), l.clone(), b.clone()]);
                            paths.push(vec![l.clone(), a.clone(), b.clone()]);
                            paths.push(vec![a.clone(), b.clone(), l.clone()]);
                        }
                    }
                    for (i, want) in paths.into_iter().enumerate() {
                        if ctx.quick() && n.len() > 10_000 && i > 2 {
                            break;
                        }
                        ctx.state(&("named", &n, how, i));
                        ctx.trace();
                        let r = ctx.lib(|| {
                            let mut e = Error::custom_str("custom");
                            for l in want.iter().rev() {
                                e = e.at(l.clone());
                            }
                            let got: Vec<Location> = e.context().path().locations().cloned().collect();
                            let owned: Vec<Location> = e.context().clone().path().into_owned().locations().cloned().collect();
                            (got, owned, e.to_string(), e.context().path().to_string())
                        });
                        let key = format!("named:{n:?}:{how}:{i}");
                        match r {
                            Err(Panicked(p)) => ctx.violation(&key, || format!("adding {want:?}: panic {p}")),
                            Ok((got, owned, shown, path)) => {
                                if got != want || owned != want {
                                    ctx.violation(&key, || format!("locations added: {want:?}; listed {got:?}, owned {owned:?}"));
                                } else if !shows_path(&want, &shown, "Custom error: custom") || !shows_path(&want, &path, "") || !shown.contains(&n) || !path.contains(&n) {
                                    ctx.violation(&key, || format!("{want:?}, made from {n:?}, displayed as {shown}, path {path}"));
                                } else {
                                    ctx.outcome("context-added");
                                }
                            }
                        }
                    }
                }
            },
        );
    }
}

/// Fails with an error that has locations of its own.
#[derive(Debug)]
pub struct OwnLoc;
pub struct OwnLocV<R>(PhantomData<R>);
impl<R: TypeResolver> Visitor for OwnLocV<R> {
    type Value<'scale, 'resolver> = OwnLoc;
    type Error = Error;
    type TypeResolver = R;
    fn visit_u8<'scale, 'resolver>(self, v: u8, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        match v {
            0 => Ok(OwnLoc),
            _ => Err(Error::custom_str("own").at_variant("In").at_field("own")),
        }
    }
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(DecodeError::Unexpected(u).into())
    }
}
impl IntoVisitor for OwnLoc {
    type AnyVisitor<R: TypeResolver> = OwnLocV<R>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        OwnLocV(PhantomData)
    }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
struct HoldsN {
    n: OwnLoc,
    m: OwnLoc,
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
struct HoldsU(OwnLoc, OwnLoc);
type Go = fn(&mut &[u8], usize, &Types) -> Result<(), Error>;
fn go<T: scale_decode::DecodeAsType>(b: &mut &[u8], t: usize, types: &Types) -> Result<(), Error> {
    T::decode_as_type(b, t, types).map(|_| ())
}

/// Errors raised by a user's own type, below every container, keep their own locations innermost.
fn own_errors(ctx: &mut Ctx) {
    // each layer around a value of one byte: how to build the type, the real target, and the bytes in front
    // of and behind the failing byte with the location that leads to it
    macro_rules! layers {
        ($($name:expr, $t:ty, |$ty:ident, $u:ident| $b:expr, [$(($bytes:expr, $locs:expr)),*];)*) => {{
            let mut v: Vec<(&'static str, Go, fn(&mut Types, Tid) -> Tid, Vec<(Vec<u8>, Vec<Location>)>)> = vec![];
            $(v.push(($name, go::<$t>, |$ty, $u| $b, vec![$(($bytes.to_vec(), $locs)),*]));)*
            v
        }};
    }
    let f = |s: &'static str| Location::field(s);
    let i = Location::idx;
    let va = |s: &'static str| Location::variant(s);
    let cases = layers! {
        "plain", OwnLoc, |_t, u| u, [([1], vec![])];
        "Vec", Vec<OwnLoc>, |t, u| t.seq(u), [([8, 0, 1], vec![i(1)]), ([8, 1, 0], vec![i(0)]), ([4, 1], vec![i(0)])];
        "array", [OwnLoc; 3], |t, u| t.arr(u, 3), [([0, 0, 1], vec![i(2)]), ([0, 1, 1], vec![i(1)])];
        "tuple", (OwnLoc, OwnLoc), |t, u| t.tup(&[u, u]), [([0, 1], vec![i(1)]), ([1, 1], vec![i(0)])];
        "tuple of 1", (OwnLoc,), |t, u| t.tup(&[u]), [([1], vec![i(0)])];
        "option", Option<OwnLoc>, |t, u| t.option(u), [([1, 1], vec![va("Some")])];
        "result", Result<OwnLoc, OwnLoc>, |t, u| t.result(u, u), [([1, 1], vec![va("Err")]), ([0, 1], vec![va("Ok")])];
        "map", BTreeMap<String, OwnLoc>, |t, u| t.named(&[("k", u), ("l", u)]), [([0, 1], vec![f("l")]), ([1, 0], vec![f("k")])];
        "named", HoldsN, |t, u| t.named(&[("m", u), ("n", u)]), [([0, 1], vec![f("n")]), ([1, 0], vec![f("m")])];
        "unnamed", HoldsU, |t, u| t.tup(&[u, u]), [([0, 1], vec![i(1)]), ([1, 0], vec![i(0)])];
        "box", Box<OwnLoc>, |_t, u| u, [([1], vec![])];
        "Vec of option of tuple", Vec<Option<(OwnLoc, OwnLoc)>>, |t, u| { let x = t.tup(&[u, u]); let x = t.option(x); t.seq(x) },
            [([12, 0, 1, 0, 0, 1, 0, 1], vec![i(2), va("Some"), i(1)]), ([12, 0, 1, 1, 0, 1, 0, 1], vec![i(1), va("Some"), i(0)])];
        "map of Vec of named", BTreeMap<String, Vec<HoldsN>>, |t, u| { let x = t.named(&[("n", u), ("m", u)]); let x = t.seq(x); t.named(&[("k", x), ("l", x)]) },
            [([4, 0, 0, 8, 0, 0, 0, 1], vec![f("l"), i(1), f("m")]), ([4, 1, 0, 8, 0, 0, 0, 0], vec![f("k"), i(0), f("n")])];
        "result of array of result", Result<[Result<OwnLoc, u8>; 2], u8>, |t, u| { let x = t.result(u, u); let x = t.arr(x, 2); t.result(x, u) },
            [([0, 0, 0, 0, 1], vec![va("Ok"), i(1), va("Ok")]), ([0, 0, 1, 0, 0], vec![va("Ok"), i(0), va("Ok")])];
        "tuple of box of unnamed", (u8, Box<HoldsU>, Arc<Vec<OwnLoc>>), |t, u| { let x = t.unnamed(&[u, u]); let s = t.seq(u); t.tup(&[u, x, s]) },
            [([9, 0, 1, 0], vec![i(1), i(1)]), ([9, 0, 0, 8, 0, 1], vec![i(2), i(1)])];
        "list of deque", LinkedList<VecDeque<OwnLoc>>, |t, u| { let s = t.seq(u); t.seq(s) }, [([8, 0, 8, 0, 1], vec![i(1), i(1)])];
    };
    for (name, run, mk, list) in cases {
        ctx.case(
            || format!("own error in {name}"),
            |ctx| {
                for (b, outer) in list {
                    let mut types = Types::new();
                    let u = types.u8();
                    let t = mk(&mut types, u);
                    let mut want = outer;
                    want.extend([Location::field("own"), Location::variant("In")]);
                    ctx.state(&(name, &b));
                    let r = ctx.lib(|| run(&mut &*b, t, &types));
                    ctx.trace();
                    let key = format!("own:{name}:{}", hex(&b));
                    match r {
                        Ok(Err(e)) => {
                            let got: Vec<Location> = e.context().path().locations().cloned().collect();
                            if got != want || !matches!(e.kind(), ErrorKind::Custom(_)) || !shows_path(&want, &e.to_string(), "Custom error: own") {
                                ctx.violation(&key, || format!("{name} from {}: locations should be {want:?}, got {got:?} shown as {e}", hex(&b)));
                            } else {
                                ctx.outcome("own-error");
                            }
                        }
                        Ok(Ok(())) => ctx.violation(&key, || format!("{name} from {}: the error vanished", hex(&b))),
                        Err(Panicked(p)) => ctx.violation(&key, || format!("panic: {p}")),
                    }
                }
            },
        );
    }
}

fn body(ctx: &mut Ctx) {
    adding(ctx);
    odd_names(ctx);
    long_chains(ctx);
    deep_errors(ctx);
    far_errors(ctx);
    own_errors(ctx);
    let es = mc::all::all();
    let p = Plan { cuts: true, ..plan(GenOpts { rich: !ctx.quick(), ..GenOpts { invalid: true, ..GenOpts::VALID } }, 1) };
    target_cases(ctx, &es, p, &paths);
    big_target_cases(ctx, &es, &ctx.by_tier(few(), LENS.to_vec()), ctx.by_tier(4, 8), &paths);
}

fn main() {
    mc::run::main(Spec {
        id: "C20",
        states_are: "states: distinct (target, source type, bytes) and sequences of added locations; transitions: library calls; traces: complete decodes whose error locations were compared with the model",
        bounds: |t| match t {
            Tier::Quick => "all 235 targets on all source shapes of plan.rs, one deviation from the default bytes (invalid ones included), every truncation; every sequence of up to 4 added locations on 7 kinds of error; names of a set of 60 odd ones (empty, dotted, numeric, quoted, up to 140000 bytes) in all paths of up to 3 locations; chains of 0..40 and up to 300 locations, one unlike the others anywhere; a user type failing below 16 container shapes and at every depth up to 40 of 5 recursive types; 12 items up to the 70000th failing in 7 kinds of target; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others".into(),
            Tier::Thorough => "as quick with rich leaf alphabets; sequences of up to 6 added locations; chains up to 80 and 1025; recursive types 200 deep; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &[
            "derived enums may or may not name the variant; a position counts with or without skipped fields",
            "for malformed bytes the location must be on the way to the malformed part (it may stop short of it)",
        ],
        require: &["path-of-0", "path-of-1", "path-of-2", "malformed-path-of-1", "context-added", "own-error", "chain", "deep-error", "far-error"],
        body,
    })
}

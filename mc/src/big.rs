//! Long values: many items, many fields, long strings and bit sequences, at and around the sizes where a
//! representation may change (inline buffers, compact length modes, chunked reading), with one item
//! unlike the others at each end and in the middle.
use crate::gen::*;
use crate::refdec::*;
use crate::run::*;
use crate::targets::*;
use crate::ty::*;
use crate::universe::BITS;
use scale_type_resolver::Primitive as P;

/// Item counts for items of any kind.
pub const LENS: [usize; 17] = [5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 129, 255, 257, 300];
/// Item counts for one-byte items, string and bit lengths.
pub const LONG: [usize; 17] = [
    100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4095, 4097, 16383, 16384, 16385, 65535, 65537,
];

/// Encodings of type `t`: the default first, then some of other lengths or meanings.
pub fn alts(types: &Types, t: Tid, invalid: bool, max: usize) -> Vec<Vec<u8>> {
    let mut good: Vec<Vec<u8>> = vec![];
    let mut bad: Vec<Vec<u8>> = vec![];
    let mut seen = std::collections::HashSet::new();
    crate::choose::explore(1, 400, |ch| {
        let b = gen(types, t, ch, GenOpts { invalid, rich: false, huge: false, long: false, max_depth: 5 });
        if seen.insert(b.clone()) {
            match refdec(types, t, &b) {
                Ok(n) if n.end == b.len() && n.utf8_ok() => good.push(b),
                Ok(_) => {}
                Err(_) => bad.push(b),
            }
        }
    });
    // one of each length first
    let mut lens = std::collections::HashSet::new();
    let (mut a, mut b): (Vec<_>, Vec<_>) = (vec![], vec![]);
    for x in good {
        if lens.insert(x.len()) {
            a.push(x)
        } else {
            b.push(x)
        }
    }
    a.extend(b);
    a.truncate(max);
    bad.truncate(max / 2);
    a.extend(bad);
    a
}

/// `n` items laid end to end in several patterns over `alts`, the first of which is the default.
pub fn patterns(alts: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if alts.is_empty() {
        return out;
    }
    let build = |f: &dyn Fn(usize) -> usize| -> Vec<u8> { (0..n).flat_map(|i| alts[f(i)].clone()).collect() };
    out.push(build(&|_| 0));
    let mut at = vec![0, n / 2, n.saturating_sub(1)];
    at.dedup();
    for a in 1..alts.len() {
        for &p in &at {
            out.push(build(&|i| if i == p { a } else { 0 }));
        }
    }
    out.push(build(&|i| (i * 7 + i / 5) % alts.len()));
    out
}

fn counted(n: usize, body: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    compact(n as u128, &mut v);
    v.extend_from_slice(body);
    v
}

pub fn string(n: usize, kind: usize) -> Vec<u8> {
    let mut b = vec![b'a'; n];
    match kind {
        1 if n >= 4 => b[n - 4..].copy_from_slice("\u{1F600}".as_bytes()),
        2 if n >= 8 => b[n / 2 - 2..n / 2 + 2].copy_from_slice("\u{1F600}".as_bytes()),
        // not UTF-8
        3 if n >= 1 => b[n - 1] = 0xc3,
        _ => {}
    }
    counted(n, &b)
}

pub fn bits(width: usize, n: usize) -> Vec<u8> {
    let bytes = n.div_ceil(width) * width / 8;
    let body: Vec<u8> = (0..bytes).map(|i| (i as u8).wrapping_mul(37) ^ (i >> 8) as u8 ^ 0xa5).collect();
    counted(n, &body)
}
pub fn width(s: scale_type_resolver::BitsStoreFormat) -> usize {
    use scale_type_resolver::BitsStoreFormat::*;
    match s {
        U8 => 8,
        U16 => 16,
        U32 => 32,
        U64 => 64,
    }
}

/// Item types of fixed and of varying size.
pub fn items(t: &mut Types) -> Vec<Tid> {
    let (u8_, u16_, u32_, s) = (t.u8(), t.u16(), t.u32(), t.str());
    let c = t.compact(u32_);
    let o = t.option(u16_);
    let v = t.seq(u8_);
    vec![
        s,
        u16_,
        c,
        o,
        v,
        t.tup(&[]),
        t.tup(&[u8_, s]),
        t.comp(&["W"], &[("a", c)]),
        t.var(&[("A", 0, &[]), ("B", 3, &[("x", s)]), ("C", 9, &[("", u8_), ("", c)])]),
        t.arr(s, 2),
        t.bool(),
        t.prim(P::Char),
        t.prim(P::U256),
        t.bits(BITS[0].0, BITS[0].1),
    ]
}

pub struct BigCase {
    pub t: Tid,
    pub bytes: Vec<Vec<u8>>,
}

/// Long values of every kind. `invalid`: also with a malformed part.
pub fn big_cases(t: &mut Types, lens: &[usize], invalid: bool, max_alts: usize) -> Vec<BigCase> {
    let mut out: Vec<BigCase> = vec![];
    let (u16_, s) = (t.u16(), t.str());
    for e in items(t) {
        let al = alts(t, e, invalid, max_alts);
        for &n in lens {
            let ps = patterns(&al, n);
            let (sq, ar) = (t.seq(e), t.arr(e, n));
            let tu = t.tup(&vec![e; n]);
            let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let fs: Vec<(&str, Tid)> = names.iter().map(|x| (x.as_str(), e)).collect();
            let co = t.comp(&["Big"], &fs);
            let un = t.unnamed(&vec![e; n]);
            let va = t.var(&[("A", 0, &[]), ("B", 9, &fs)]);
            let seqs: Vec<Vec<u8>> = ps.iter().map(|p| counted(n, p)).collect();
            out.push(BigCase { t: sq, bytes: seqs.clone() });
            for x in [ar, tu, co, un] {
                out.push(BigCase { t: x, bytes: ps.clone() });
            }
            out.push(BigCase { t: va, bytes: ps.iter().map(|p| [&[9], &p[..]].concat()).collect() });
            // inside other values, with something after it
            let outer = t.tup(&[u16_, sq, s]);
            let wrap = |p: &Vec<u8>| [&[1, 2], &p[..], &[8, b'o', b'k']].concat();
            out.push(BigCase { t: outer, bytes: seqs.iter().take(4).map(wrap).collect() });
            let outer = t.named(&[("a", u16_), ("b", co), ("c", s)]);
            out.push(BigCase { t: outer, bytes: ps.iter().take(4).map(wrap).collect() });
            let outer = t.seq(sq);
            out.push(BigCase { t: outer, bytes: seqs.iter().take(4).map(|p| counted(2, &[&p[..], &seqs[0][..]].concat())).collect() });
        }
    }
    out.extend(long_cases(t, &LONG, invalid));
    out.extend(wide_cases(t));
    out
}

/// Containers of more items or fields than one byte, and two bytes, can count.
pub fn wide_cases(t: &mut Types) -> Vec<BigCase> {
    let mut out: Vec<BigCase> = vec![];
    let (u16_, u32_, s) = (t.u16(), t.u32(), t.str());
    let c = t.compact(u32_);
    for e in [u16_, s, c] {
        let al = alts(t, e, false, 3);
        let pats = |n: usize| patterns(&al, n).into_iter().take(4).collect::<Vec<_>>();
        for n in [201, 255, 256, 257, 300, 513, 1025] {
            let ps = pats(n);
            let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let fs: Vec<(&str, Tid)> = names.iter().map(|x| (x.as_str(), e)).collect();
            for x in [t.tup(&vec![e; n]), t.comp(&["Big"], &fs), t.unnamed(&vec![e; n])] {
                out.push(BigCase { t: x, bytes: ps.clone() });
            }
            let va = t.var(&[("A", 0, &[]), ("B", 9, &fs)]);
            out.push(BigCase { t: va, bytes: ps.iter().map(|p| [&[9], &p[..]].concat()).collect() });
        }
        for n in [201, 255, 256, 257, 1025, 4097, 16384, 65537] {
            let ps: Vec<_> = pats(n).into_iter().take(if n > 2000 { 2 } else { 4 }).collect();
            let (sq, ar) = (t.seq(e), t.arr(e, n));
            out.push(BigCase { t: sq, bytes: ps.iter().map(|p| counted(n, p)).collect() });
            out.push(BigCase { t: ar, bytes: ps });
        }
    }
    out
}

/// Values nested `n` levels deep, through recursive types and through chains of distinct types.
pub fn deep_cases(t: &mut Types, n: usize) -> Vec<BigCase> {
    let mut out: Vec<BigCase> = vec![];
    let (u8_, u16_, u32_, s) = (t.u8(), t.u16(), t.u32(), t.str());
    // option of itself
    let o = t.add_fresh(Def::NotFound);
    let d = Def::Var {
        path: vec!["Option".into()],
        vars: vec![
            VDef { name: "None".into(), index: 0, fields: vec![] },
            VDef { name: "Some".into(), index: 1, fields: vec![(None, o)] },
        ],
    };
    t.set(o, d);
    out.push(BigCase { t: o, bytes: vec![[&vec![1; n][..], &[0]].concat()] });
    // a list with a field on each side of the rest
    let l = t.add_fresh(Def::NotFound);
    let d = Def::Var {
        path: vec!["List".into()],
        vars: vec![
            VDef { name: "Nil".into(), index: 0, fields: vec![] },
            VDef { name: "Cons".into(), index: 3, fields: vec![(Some("a".into()), u8_), (Some("rest".into()), l), (Some("z".into()), u8_)] },
        ],
    };
    t.set(l, d);
    let mut b = vec![];
    for i in 0..n {
        b.extend([3, i as u8]);
    }
    b.push(0);
    b.extend((0..n).map(|i| i as u8 ^ 0x55));
    out.push(BigCase { t: l, bytes: vec![b] });
    // a sequence of itself, with siblings at every level
    let q = t.add_fresh(Def::NotFound);
    t.set(q, Def::Seq(q));
    let mut b = vec![0];
    for i in 0..n {
        b = match i % 3 {
            0 => [&[4][..], &b].concat(),
            1 => [&[8][..], &b, &[0]].concat(),
            _ => [&[12, 0][..], &b, &[4, 0]].concat(),
        };
    }
    out.push(BigCase { t: q, bytes: vec![b] });
    // chains of wrappers
    let mut chain = |f: &dyn Fn(&mut Types, usize, Tid) -> Tid, base: Tid, bytes: &dyn Fn() -> Vec<u8>| {
        let mut x = base;
        for i in 0..n {
            x = f(t, i, x);
        }
        out.push(BigCase { t: x, bytes: vec![bytes()] });
    };
    chain(&|t, _, x| t.tup(&[x]), s, &|| vec![8, b'o', b'k']);
    chain(&|t, i, x| if i % 2 == 0 { t.named(&[("a", x)]) } else { t.arr(x, 1) }, u16_, &|| vec![1, 2]);
    chain(&|t, _, x| t.seq(x), u8_, &|| [&vec![4; n][..], &[9]].concat());
    chain(&|t, _, x| t.tup(&[u8_, x, u8_]), u8_, &|| (0..2 * n + 1).map(|i| i as u8).collect());
    chain(&|t, i, x| if i + 1 == n { t.compact(x) } else if i % 2 == 0 { t.named(&[("a", x)]) } else { t.tup(&[x]) }, u32_, &|| vec![2, 0, 1, 0]);
    out
}

/// Strings, byte sequences and bit sequences.
pub fn long_cases(t: &mut Types, lens: &[usize], invalid: bool) -> Vec<BigCase> {
    let mut out: Vec<BigCase> = vec![];
    let (u8_, u16_, s) = (t.u8(), t.u16(), t.str());
    let b8 = t.seq(u8_);
    let mut leaf: Vec<(Tid, Vec<Vec<u8>>)> = vec![(s, vec![]), (b8, vec![])];
    for &n in lens {
        for k in 0..3 + invalid as usize {
            leaf[0].1.push(string(n, k));
        }
        leaf[1].1.push(counted(n, &(0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>()));
    }
    for (st, o) in BITS {
        let bt = t.bits(st, o);
        leaf.push((bt, lens.iter().map(|n| bits(width(st), *n)).collect()));
    }
    for (x, bs) in leaf {
        let outer = t.tup(&[u16_, x, s]);
        out.push(BigCase { t: outer, bytes: bs.iter().map(|p| [&[1, 2], &p[..], &[8, b'o', b'k']].concat()).collect() });
        let outer = t.named(&[("a", x), ("b", x)]);
        out.push(BigCase { t: outer, bytes: bs.iter().map(|p| [&p[..], &bs[0][..]].concat()).collect() });
        let outer = t.seq(x);
        out.push(BigCase { t: outer, bytes: bs.iter().map(|p| counted(2, &[&p[..], &bs[1][..]].concat())).collect() });
        let outer = t.option(x);
        out.push(BigCase { t: outer, bytes: bs.iter().map(|p| [&[1], &p[..]].concat()).collect() });
        out.push(BigCase { t: x, bytes: bs });
    }
    out
}

/// Runs `f` on every long value, one case per type.
pub fn big_values(ctx: &mut Ctx, what: &str, lens: &[usize], deep: &[usize], invalid: bool, max_alts: usize, f: &dyn Fn(&mut Ctx, &Types, Tid, &[u8], &Result<Node, RErr>)) {
    let mut types = Types::new();
    let mut cases = big_cases(&mut types, lens, invalid, max_alts);
    for n in deep {
        cases.extend(deep_cases(&mut types, *n));
    }
    for (i, c) in cases.iter().enumerate() {
        ctx.case(
            || format!("{what}: long values {i}"),
            |ctx| {
                for b in &c.bytes {
                    let r = refdec(&types, c.t, b);
                    f(ctx, &types, c.t, b, &r);
                }
                ctx.sample(|| format!("{}: {} long values", short(&types.show(c.t)), c.bytes.len()));
            },
        );
    }
}
fn short(s: &str) -> String {
    s.chars().take(80).collect()
}

// ---------------------------------------------------------------- for target types

/// Long source values for a target.
pub fn big_sources(ty: &mut Types, t: &Tgt, lens: &[usize], max_alts: usize, d: usize) -> Vec<(Tid, Vec<Vec<u8>>)> {
    let mut out: Vec<(Tid, Vec<Vec<u8>>)> = vec![];
    let first = |ty: &mut Types, t: &Tgt, k: usize| -> Vec<Tid> {
        let mut v = crate::plan::sources_d(ty, t, 1);
        v.truncate(k);
        v
    };
    match t {
        Tgt::Lazy(f) if d < 2 => return big_sources(ty, &f(), lens, max_alts, d + 1),
        Tgt::List(e) | Tgt::Set(e) | Tgt::Heap(e) | Tgt::Arr(e, _) => {
            let mut lens = lens.to_vec();
            if let Tgt::Arr(_, n) = t {
                lens = vec![n + 1, n + 16, n + 64, n + 255];
                lens.push(*n);
            }
            for x in first(ty, e, 3) {
                let al = alts(ty, x, true, max_alts);
                for &n in &lens {
                    let ps = patterns(&al, n);
                    let sq = ty.seq(x);
                    out.push((sq, ps.iter().map(|p| counted(n, p)).collect()));
                    out.push((ty.arr(x, n), ps));
                }
            }
        }
        Tgt::Map(e) => {
            for x in first(ty, e, 3) {
                let al = alts(ty, x, true, max_alts);
                for &n in lens {
                    let names: Vec<String> = (0..n).map(|i| format!("f{}", (i * 7919 + 3) % 1009)).collect();
                    let fs: Vec<(&str, Tid)> = names.iter().map(|s| (s.as_str(), x)).collect();
                    out.push((ty.comp(&["Big"], &fs), patterns(&al, n)));
                }
            }
        }
        Tgt::Str => {
            let s = ty.str();
            let b: Vec<Vec<u8>> = LONG.iter().flat_map(|n| (0..4).map(|k| string(*n, k)).collect::<Vec<_>>()).collect();
            out.push((s, b.clone()));
            out.push((ty.comp(&["W"], &[("s", s)]), b));
        }
        Tgt::Bits => {
            for (st, o) in BITS {
                let b = ty.bits(st, o);
                out.push((b, LONG.iter().map(|n| bits(width(st), *n)).collect()));
            }
        }
        Tgt::Struct(f) => {
            // many fields the target does not know, of varying size
            let FieldsT::Named(fs) = f else { return out };
            let s = ty.str();
            let mut own: Vec<(String, Tid, Vec<u8>)> = vec![];
            for x in fs.iter().filter(|x| !x.skip) {
                let t = first(ty, &x.tgt, 1)[0];
                let Some(b) = alts(ty, t, false, 1).into_iter().next() else { return out };
                own.push((x.name.clone(), t, b));
            }
            for &n in lens {
                let extra = |i: usize| (format!("x{i}"), s, string(i % 3, 0));
                // all before, all after, between, around
                let mut shapes: Vec<Vec<(String, Tid, Vec<u8>)>> = vec![];
                let ex: Vec<_> = (0..n).map(extra).collect();
                shapes.push([&ex[..], &own[..]].concat());
                shapes.push([&own[..], &ex[..]].concat());
                shapes.push([&ex[..n / 2], &own[..], &ex[n / 2..]].concat());
                let mut inter = ex.clone();
                for (i, o) in own.iter().enumerate() {
                    inter.insert((i * n / own.len().max(1)).min(inter.len()), o.clone());
                }
                inter.reverse();
                shapes.push(inter);
                for v in shapes {
                    let f: Vec<(&str, Tid)> = v.iter().map(|x| (x.0.as_str(), x.1)).collect();
                    let b: Vec<u8> = v.iter().flat_map(|x| x.2.clone()).collect();
                    out.push((ty.comp(&["S"], &f), vec![b]));
                }
            }
        }
        Tgt::Enum(vs) => {
            // the target's variants among 256
            for rot in [0usize, 100, 255] {
                let vs: Vec<_> = vs.iter().take(12).collect();
                let mut vars: Vec<VDef> = vec![];
                for i in 0..256usize {
                    let k = (i + rot) % 256;
                    let (name, fields) = match vs.get(k) {
                        Some((n, f)) => {
                            let fl = match f {
                                FieldsT::Unit => vec![],
                                FieldsT::Named(v) => v.iter().filter(|x| !x.skip).map(|x| (Some(x.name.clone()), first(ty, &x.tgt, 1)[0])).collect(),
                                FieldsT::Unnamed(v) => v.iter().filter(|x| !x.skip).map(|x| (None, first(ty, &x.tgt, 1)[0])).collect(),
                            };
                            (n.clone(), fl)
                        }
                        None => (format!("Other{k}"), vec![]),
                    };
                    vars.push(VDef { name, index: (i * 3 % 256) as u8, fields });
                }
                let e = ty.add(Def::Var { path: vec!["E".into()], vars: vars.clone() });
                let mut bs = vec![];
                for v in &vars {
                    let mut b = vec![v.index];
                    for f in &v.fields {
                        b.extend(alts(ty, f.1, false, 1).into_iter().next().unwrap_or_default());
                    }
                    bs.push(b);
                }
                out.push((e, bs));
            }
        }
        Tgt::Opt(e) if d < 2 => {
            for (x, bs) in big_sources(ty, e, lens, max_alts, d + 1) {
                out.push((ty.option(x), bs.iter().map(|b| [&[1], &b[..]].concat()).collect()));
            }
        }
        Tgt::Res(a, b) if d < 2 => {
            let (la, lb) = (first(ty, a, 1)[0], first(ty, b, 1)[0]);
            for (x, bs) in big_sources(ty, a, lens, max_alts, d + 1) {
                out.push((ty.result(x, lb), bs.iter().map(|b| [&[0], &b[..]].concat()).collect()));
            }
            for (x, bs) in big_sources(ty, b, lens, max_alts, d + 1) {
                out.push((ty.result(la, x), bs.iter().map(|b| [&[1], &b[..]].concat()).collect()));
            }
        }
        _ => {}
    }
    out
}

/// Calls `f` for every target and long source value.
pub fn big_target_cases(
    ctx: &mut Ctx,
    entries: &[Entry],
    lens: &[usize],
    max_alts: usize,
    f: &dyn Fn(&mut Ctx, &Entry, &Tgt, &Types, Tid, &[u8], &Result<Node, RErr>),
) {
    for e in entries {
        ctx.case(
            || format!("decode long values into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let srcs = big_sources(&mut types, &tgt, lens, max_alts, 0);
                let mut n = 0u64;
                for (t, bs) in &srcs {
                    for b in bs {
                        let r = refdec(&types, *t, b);
                        n += 1;
                        f(ctx, e, &tgt, &types, *t, b, &r);
                    }
                }
                ctx.sample(|| format!("{}: {n} long byte strings", e.name));
            },
        );
    }
}
/// A few lengths for quick runs.
pub fn few() -> Vec<usize> {
    vec![17, 33, 65, 129, 257]
}

/// Long encodings of a given type: each string, bit sequence or sequence in it long in turn.
pub fn long_of(types: &Types, t: Tid, lens: &[usize], max_alts: usize, depth: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if depth > 4 {
        return out;
    }
    let deft = |t: Tid| alts(types, t, false, 1).into_iter().next();
    let among = |ts: &[Tid], front: &[u8], out: &mut Vec<Vec<u8>>| {
        let Some(defs) = ts.iter().map(|t| deft(*t)).collect::<Option<Vec<_>>>() else { return };
        for i in 0..ts.len().min(3) {
            for l in long_of(types, ts[i], lens, max_alts, depth + 1) {
                out.push([front, &defs[..i].concat(), &l, &defs[i + 1..].concat()].concat());
            }
        }
    };
    match types.get(t) {
        Def::Seq(e) => {
            let al = alts(types, *e, true, max_alts);
            for &n in lens {
                out.extend(patterns(&al, n).iter().map(|p| counted(n, p)));
            }
            if matches!(types.get(*e), Def::Prim(P::U8 | P::U16 | P::Bool)) {
                let d = deft(*e).unwrap_or_default();
                out.extend(LONG.iter().map(|n| counted(*n, &d.repeat(*n))));
            }
            among(&[*e, *e], &[8], &mut out);
        }
        Def::Arr(e, n) if *n > 0 => among(&vec![*e; *n], &[], &mut out),
        Def::Tup(ts) => among(ts, &[], &mut out),
        Def::Comp { fields, .. } => among(&fields.iter().map(|f| f.1).collect::<Vec<_>>(), &[], &mut out),
        Def::Var { vars, .. } => {
            for v in vars {
                among(&v.fields.iter().map(|f| f.1).collect::<Vec<_>>(), &[v.index], &mut out);
            }
        }
        Def::Prim(P::Str) => {
            for n in LONG {
                out.extend((0..4).map(|k| string(n, k)));
            }
        }
        Def::Bits(s, _) => out.extend(LONG.iter().map(|n| bits(width(*s), *n))),
        _ => {}
    }
    out
}

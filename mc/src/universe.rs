//! The bounded universe of types.
use crate::ty::{Def, Tid, Types, VDef};
use scale_type_resolver::{BitsOrderFormat as O, BitsStoreFormat as S, Primitive as P};

pub const PRIMS: [P; 15] = [
    P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256,
];
pub const BITS: [(S, O); 8] = [
    (S::U8, O::Lsb0), (S::U16, O::Lsb0), (S::U32, O::Lsb0), (S::U64, O::Lsb0),
    (S::U8, O::Msb0), (S::U16, O::Msb0), (S::U32, O::Msb0), (S::U64, O::Msb0),
];

/// All primitives and bit sequences.
pub fn leaves(t: &mut Types) -> Vec<Tid> {
    let mut v: Vec<Tid> = PRIMS.iter().map(|p| t.prim(*p)).collect();
    v.extend(BITS.iter().map(|(s, o)| t.bits(*s, *o)));
    v
}

/// Types whose values are compact encoded, nested wrappers included.
pub fn compacts(t: &mut Types) -> Vec<Tid> {
    let mut v = vec![];
    for p in [P::U8, P::U16, P::U32, P::U64, P::U128] {
        let i = t.prim(p);
        v.push(t.compact(i));
    }
    for p in [P::U8, P::U32, P::U128] {
        let i = t.prim(p);
        for w in wrappers(t, i) {
            v.push(t.compact(w));
            for w2 in wrappers(t, w) {
                v.push(t.compact(w2));
            }
        }
    }
    let i = t.u64();
    let a = t.named(&[("a", i)]);
    let b = t.tup(&[a]);
    let c = t.unnamed(&[b]);
    let d = t.named(&[("d", c)]);
    v.push(t.compact(d));
    v
}

/// Single-field wrappers around `i`: named composite, unnamed composite, tuple, nameless composite.
pub fn wrappers(t: &mut Types, i: Tid) -> Vec<Tid> {
    vec![t.comp(&["bounded_collections", "bounded_vec", "BoundedVec"], &[("a", i)]), t.comp(&["primitive_types", "H256"], &[("", i)]), t.tup(&[i]), t.comp(&[], &[("", i)])]
}

/// `Compact` of something that cannot be compact encoded.
pub fn bad_compact_types(t: &mut Types) -> Vec<Tid> {
    let u8_ = t.u8();
    let mut inner: Vec<Tid> = vec![];
    for p in [P::Bool, P::Char, P::Str, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256] {
        inner.push(t.prim(p));
    }
    for (s, o) in BITS {
        inner.push(t.bits(s, o));
    }
    inner.push(t.seq(u8_));
    inner.push(t.arr(u8_, 1));
    inner.push(t.arr(u8_, 0));
    inner.push(t.tup(&[u8_, u8_]));
    inner.push(t.named(&[("a", u8_), ("b", u8_)]));
    inner.push(t.unnamed(&[u8_, u8_, u8_]));
    inner.push(t.option(u8_));
    inner.push(t.var(&[("A", 0, &[])]));
    let base = inner.clone();
    for i in base {
        for w in wrappers(t, i) {
            inner.push(w);
        }
    }
    inner.into_iter().map(|i| t.compact(i)).collect()
}

/// Every constructor applied to `x`.
pub fn ctors(t: &mut Types, x: Tid) -> Vec<Tid> {
    let u8_ = t.u8();
    let u16_ = t.u16();
    vec![
        t.seq(x),
        t.arr(x, 2),
        t.tup(&[x]),
        t.tup(&[x, u8_]),
        t.tup(&[u16_, x, x]),
        t.comp(&["W"], &[("a", x)]),
        t.comp(&["p", "q", "N"], &[("a", x), ("b", u16_)]),
        t.comp(&[], &[("", u8_), ("", x)]),
        t.comp(&["Mix"], &[("a", u8_), ("", x), ("c", x)]),
        t.var(&[("A", 1, &[("", x)]), ("B", 5, &[("f", x), ("g", u8_)]), ("C", 200, &[])]),
        t.arr(x, 0),
        t.option(x),
    ]
}

/// Representative element types for deeper nestings.
pub fn reps(t: &mut Types) -> Vec<Tid> {
    let u32_ = t.u32();
    vec![
        t.u8(),
        t.u16(),
        t.str(),
        t.bool(),
        t.compact(u32_),
        t.bits(S::U16, O::Msb0),
        t.tup(&[]),
        t.prim(P::U256),
        t.prim(P::I64),
    ]
}

/// Corner-case shapes.
pub fn specials(t: &mut Types) -> Vec<Tid> {
    let u8_ = t.u8();
    let u16_ = t.u16();
    let s = t.str();
    let b = t.bool();
    let mut v = vec![];
    // no fields
    v.push(t.tup(&[]));
    v.push(t.comp(&["Unit"], &[]));
    v.push(t.comp(&[], &[]));
    // around and beyond the inline capacity of the field and path buffers
    for n in [5usize, 15, 16, 17, 20, 33] {
        let ts: Vec<Tid> = (0..n).map(|i| if i % 3 == 0 { u16_ } else { u8_ }).collect();
        v.push(t.tup(&ts));
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        let f: Vec<(&str, Tid)> = names.iter().map(|s| s.as_str()).zip(ts.iter().copied()).collect();
        v.push(t.comp(&["Big"], &f));
        v.push(t.unnamed(&ts));
        v.push(t.var(&[("Z", 0, &[]), ("Big", 3, &f)]));
    }
    for n in 0..8usize {
        let segs = ["a", "b", "c", "d", "e", "f", "g", "h"];
        v.push(t.comp(&segs[..n], &[("x", u8_)]));
    }
    // variants
    v.push(t.add(Def::Var { path: vec![], vars: vec![] }));
    let vars: Vec<VDef> = (0..=255u8)
        .map(|i| VDef {
            name: format!("V{i}"),
            index: 255 - i,
            fields: if i % 2 == 0 { vec![] } else { vec![(None, u8_), (Some("n".into()), s)] },
        })
        .collect();
    v.push(t.add(Def::Var { path: vec!["Wide".into()], vars }));
    let vars: Vec<VDef> = (0..=255u8).map(|i| VDef { name: format!("U{i}"), index: i, fields: vec![] }).collect();
    v.push(t.add(Def::Var { path: vec!["Plain".into()], vars }));
    let vars: Vec<VDef> = (0..=255u8).map(|i| VDef { name: format!("F{i}"), index: i, fields: vec![(None, if i % 2 == 0 { u8_ } else { b })] }).collect();
    v.push(t.add(Def::Var { path: vec!["Filled".into()], vars }));
    v.push(t.var(&[("Z", 255, &[]), ("A", 0, &[("", u8_)]), ("M", 7, &[("k", s), ("l", b)])]));
    v.push(t.var(&[("Only", 3, &[("", u16_), ("", u16_)])]));
    let r = t.result(s, u8_);
    v.push(r);
    // recursive types
    let l = t.add_fresh(Def::NotFound);
    t.set(
        l,
        Def::Var {
            path: vec!["List".into()],
            vars: vec![
                VDef { name: "Cons".into(), index: 1, fields: vec![(None, u8_), (None, l)] },
                VDef { name: "Nil".into(), index: 0, fields: vec![] },
            ],
        },
    );
    v.push(l);
    let tr = t.add_fresh(Def::NotFound);
    t.set(tr, Def::Seq(tr));
    v.push(tr);
    let js = t.add_fresh(Def::NotFound);
    let arr = t.seq(js);
    let pair = t.tup(&[s, js]);
    let obj = t.seq(pair);
    t.set(
        js,
        Def::Var {
            path: vec!["Json".into()],
            vars: vec![
                VDef { name: "Obj".into(), index: 4, fields: vec![(Some("o".into()), obj)] },
                VDef { name: "Arr".into(), index: 3, fields: vec![(None, arr)] },
                VDef { name: "Str".into(), index: 2, fields: vec![(None, s)] },
                VDef { name: "Null".into(), index: 0, fields: vec![] },
            ],
        },
    );
    v.push(js);
    // names that are long or no identifiers
    let (x, y, z) = ("n".repeat(300), "\u{1f600}".repeat(100), "Z".to_string() + &"\u{1f600}".repeat(100));
    v.push(t.comp(&[&x, &y, &z], &[(&y, u8_), (&x, s), (&z, b)]));
    v.push(t.var(&[(&x, 0, &[(&z, u8_)]), (&y, 1, &[]), (&z, 9, &[("", s), (&x, b)])]));
    v.push(t.comp(&["std", "Option", ""], &[("0", u8_), ("", s), ("1", b)]));
    v.push(t.comp(&["we ird", ""], &[("a b", u8_), ("\u{e9}", u16_), ("type", b)]));
    // arrays of several lengths
    for n in [1usize, 3, 32, 33] {
        v.push(t.arr(u8_, n));
        v.push(t.arr(u16_, n));
    }
    // deep single-field chains
    let mut d = u8_;
    for i in 0..24 {
        d = match i % 3 {
            0 => t.tup(&[d]),
            1 => t.comp(&["D"], &[("d", d)]),
            _ => t.comp(&["E"], &[("", d)]),
        };
    }
    v.push(d);
    v
}

#[derive(Clone)]
pub struct Uni {
    pub types: Types,
    pub roots: Vec<Tid>,
}

/// depth 0: leaves; 1: constructors over all leaves; 2: over representative constructors; 3: thrice.
pub fn universe(depth: usize) -> Uni {
    let mut t = Types::new();
    let mut roots = leaves(&mut t);
    roots.extend(compacts(&mut t));
    roots.extend(specials(&mut t));
    if depth >= 1 {
        let mut base = leaves(&mut t);
        base.extend(compacts(&mut t));
        let unit = t.tup(&[]);
        base.push(unit);
        for x in base {
            roots.extend(ctors(&mut t, x));
        }
    }
    if depth >= 2 {
        for r in reps(&mut t) {
            for x in ctors(&mut t, r) {
                roots.extend(ctors(&mut t, x));
            }
        }
    }
    if depth >= 3 {
        let u8_ = t.u8();
        let s = t.str();
        for r in [u8_, s] {
            for x in ctors(&mut t, r) {
                for y in ctors(&mut t, x) {
                    roots.extend(ctors(&mut t, y));
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    roots.retain(|r| seen.insert(*r));
    Uni { types: t, roots }
}

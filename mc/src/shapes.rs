//! Containers for the checks that work on container handles.
use crate::refdec::*;
use crate::ty::*;
use scale_type_resolver::{BitsOrderFormat as BO, BitsStoreFormat as BS, Primitive as P};

/// Containers to operate on: item types in every kind of container.
pub fn shapes(t: &mut Types, thorough: bool) -> Vec<Tid> {
    let (u8_, u16_, s, b) = (t.u8(), t.u16(), t.str(), t.bool());
    let u32_ = t.u32();
    let c = t.compact(u32_);
    let bits = t.bits(BS::U16, BO::Msb0);
    let unit = t.tup(&[]);
    let pair = t.tup(&[u8_, s]);
    let seq = t.seq(u16_);
    let opt = t.option(s);
    let st = t.named(&[("p", u8_), ("q", s)]);
    let u256 = t.prim(P::U256);
    let bad = t.notfound();
    let badp = t.tup(&[u8_, bad]);
    let mut v = vec![];
    let mut elems = vec![u8_, s, c, pair, bits, opt];
    if thorough {
        elems.extend([seq, st, unit, u256, b]);
    }
    for x in elems.iter().copied() {
        v.push(t.seq(x));
        v.push(t.arr(x, 3));
        v.push(t.arr(x, 2));
        v.push(t.tup(&[x, s, u8_]));
        v.push(t.tup(&[u16_, x]));
        v.push(t.named(&[("a", x), ("b", s), ("c", u8_)]));
        v.push(t.comp(&["Mix"], &[("a", u8_), ("", x), ("c", s)]));
        v.push(t.unnamed(&[x, x]));
        v.push(t.var(&[("A", 4, &[("a", x), ("b", u16_), ("c", s)]), ("B", 5, &[("", s), ("", x)])]));
    }
    v.push(t.named(&[("a", u8_), ("b", bad), ("c", s)]));
    v.push(t.tup(&[s, badp, u8_]));
    v.push(t.tup(&[]));
    v.push(t.comp(&["Unit"], &[]));
    v.push(t.arr(s, 0));
    // items without bytes
    let none = t.arr(u8_, 0);
    if !thorough {
        v.push(t.seq(unit));
    }
    v.push(t.arr(unit, 3));
    v.push(t.arr(none, 2));
    v.push(t.tup(&[unit, none, u8_]));
    v.push(t.named(&[("a", unit), ("b", u8_), ("c", none)]));
    v.push(t.var(&[("None", 0, &[])]));
    let w = t.named(&[("w", u32_)]);
    v.push(t.compact(w));
    let w = t.tup(&[u16_]);
    let w2 = t.unnamed(&[w]);
    v.push(t.compact(w2));
    v.push(t.compact(w));
    for n in [15usize, 16, 17, 18] {
        let ts: Vec<Tid> = (0..n).map(|i| if i % 2 == 0 { u8_ } else { s }).collect();
        v.push(t.tup(&ts));
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        let f: Vec<(&str, Tid)> = names.iter().map(|s| s.as_str()).zip(ts.iter().copied()).collect();
        v.push(t.named(&f));
    }
    v
}

/// The items of container type `t` in `b` at `at`: declared names and types, and nodes up to the first
/// malformed one. `None` if not even the container itself can be read.
pub fn layout(types: &Types, t: Tid, b: &[u8], at: usize) -> Option<(Vec<(Option<String>, Tid)>, Vec<Option<Node>>, usize, bool)> {
    layout_max(types, t, b, at, 20)
}
/// As `layout`, for sequences of up to `max` items.
#[allow(clippy::type_complexity)]
pub fn layout_max(types: &Types, t: Tid, b: &[u8], at: usize, max: u128) -> Option<(Vec<(Option<String>, Tid)>, Vec<Option<Node>>, usize, bool)> {
    let mut t = t;
    let mut compact = false;
    while let Def::Compact(i) = types.get(t) {
        t = *i;
        compact = true;
    }
    let mut body = at;
    let decl: Vec<(Option<String>, Tid)> = match types.get(t) {
        Def::Comp { fields, .. } => fields.clone(),
        Def::Tup(ts) => ts.iter().map(|t| (None, *t)).collect(),
        Def::Arr(e, n) => vec![(None, *e); *n],
        Def::Var { vars, .. } => {
            let i = *b.get(at)?;
            body = at + 1;
            vars.iter().find(|v| v.index == i)?.fields.clone()
        }
        Def::Seq(e) => {
            let mut d = Dec::new(types, b);
            d.pos = at;
            let n = d.compact(64).ok()?;
            if n > max {
                return None;
            }
            body = d.pos;
            vec![(None, *e); n as usize]
        }
        _ => return None,
    };
    let mut d = Dec::new(types, b);
    d.pos = body;
    let mut items = vec![];
    let mut ok = true;
    for (_, t) in &decl {
        let r = if ok { d.value_in(*t, compact).ok() } else { None };
        ok = r.is_some();
        items.push(r);
    }
    Some((decl, items, body, compact))
}


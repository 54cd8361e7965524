//! Which source types are tried against which target, and the driver that goes through them.
use crate::core_checks::*;
use crate::gen::*;
use crate::refdec::*;
use crate::run::*;
use crate::targets::*;
use crate::ty::*;
use crate::universe::*;
use scale_type_resolver::{BitsOrderFormat as BO, BitsStoreFormat as BS, Primitive as P};

/// Source types that most targets do not take.
pub fn wrong(ty: &mut Types) -> Vec<Tid> {
    let (b, s, u, i) = (ty.bool(), ty.str(), ty.u8(), ty.prim(P::I32));
    let w = ty.prim(P::U256);
    let x = ty.prim(P::I256);
    let c = ty.prim(P::Char);
    let bits = ty.bits(BS::U8, BO::Lsb0);
    vec![
        b,
        s,
        u,
        i,
        w,
        x,
        c,
        bits,
        ty.seq(u),
        ty.arr(u, 2),
        ty.tup(&[]),
        ty.comp(&["Unit"], &[]),
        ty.tup(&[u, s]),
        ty.named(&[("zz", u), ("yy", s)]),
        ty.var(&[("Zed", 0, &[]), ("Zee", 3, &[("", u)])]),
    ]
}

fn int_prim(signed: bool, bits: u16) -> P {
    match (signed, bits) {
        (false, 8) => P::U8,
        (false, 16) => P::U16,
        (false, 32) => P::U32,
        (false, 64) => P::U64,
        (false, _) => P::U128,
        (true, 8) => P::I8,
        (true, 16) => P::I16,
        (true, 32) => P::I32,
        (true, 64) => P::I64,
        (true, _) => P::I128,
    }
}

fn wraps(ty: &mut Types, t: Tid) -> Vec<Tid> {
    wrappers(ty, t)
}
/// Wrappers, and wrappers of wrappers.
pub fn wraps2(ty: &mut Types, t: Tid) -> Vec<Tid> {
    let mut v = vec![];
    for w in wraps(ty, t) {
        v.push(w);
        v.extend(wraps(ty, w));
    }
    v
}

const INTS: [P; 10] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128];

/// Child lists with everything at its first choice, and with one child at a time at another choice.
fn vary(lists: &[Vec<Tid>]) -> Vec<Vec<Tid>> {
    let base: Vec<Tid> = lists.iter().map(|l| l[0]).collect();
    let mut out = vec![base.clone()];
    for (i, l) in lists.iter().enumerate() {
        for &alt in &l[1..] {
            let mut v = base.clone();
            v[i] = alt;
            out.push(v);
        }
    }
    out
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// All names one edit away: every character put in, taken out, or replaced, over ASCII and some look-alikes, and
/// neighbours swapped.
pub fn neighbours(n: &str) -> Vec<String> {
    let odd = ['\u{e9}', '\u{df}', '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{301}', '\u{200b}', '\u{feff}', '\u{a0}', '\u{430}', '\u{ff41}', '\u{1f980}'];
    let alphabet: Vec<char> = (0u8..128).map(char::from).chain(odd).collect();
    let cs: Vec<char> = n.chars().collect();
    let mut out = vec![];
    let mut push = |v: &[char]| out.push(v.iter().collect::<String>());
    for i in 0..=cs.len() {
        for c in &alphabet {
            let mut v = cs.clone();
            v.insert(i, *c);
            push(&v);
            if i < cs.len() {
                v.remove(i + 1);
                push(&v);
            }
        }
        if i < cs.len() {
            let mut v = cs.clone();
            v.remove(i);
            push(&v);
        }
        if i + 1 < cs.len() {
            let mut v = cs.clone();
            v.swap(i, i + 1);
            push(&v);
        }
    }
    let mut seen = std::collections::HashSet::from([n.to_string()]);
    out.retain(|x| seen.insert(x.clone()));
    out
}

/// Names that are not `n` but might be taken for it.
pub fn near(n: &str) -> Vec<String> {
    let mut camel = String::new();
    let mut up = false;
    for c in n.chars() {
        if c == '_' && !camel.is_empty() {
            up = true;
        } else if up {
            camel.extend(c.to_uppercase());
            up = false;
        } else {
            camel.push(c);
        }
    }
    let mut snake = String::new();
    for (i, c) in n.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            snake.push('_');
        }
        snake.extend(c.to_lowercase());
    }
    let first = |f: &dyn Fn(char) -> String, s: &str| -> String {
        let mut c = s.chars();
        c.next().map(|x| f(x) + c.as_str()).unwrap_or_default()
    };
    let big = first(&|c| c.to_uppercase().to_string(), &camel);
    let small = first(&|c| c.to_lowercase().to_string(), &camel);
    let mut out = vec![
        n.to_uppercase(),
        n.to_lowercase(),
        camel.clone(),
        big,
        small,
        snake.clone(),
        snake.to_uppercase(),
        snake.replace('_', "-"),
        n.replace('_', ""),
        n.replace('_', "."),
        n.trim_matches('_').to_string(),
        format!("{n}_"),
        format!("_{n}"),
        format!("r#{n}"),
        format!("{n}1"),
        format!("{n} "),
        format!(" {n}"),
        format!("{n}\0"),
        format!("{n}e\u{301}"),
        format!("E::{n}"),
        format!("{n}{n}"),
        format!("a.b.{n}"),
        format!("{n}.x"),
        "0".into(),
        "\u{1f980}".repeat(80) + n,
        "x".to_string() + &"\u{1f980}".repeat(80),
        n.repeat(300),
        n.chars().rev().collect(),
        n[..n.len() - n.chars().last().map_or(0, |c| c.len_utf8())].to_string(),
        n.chars().skip(1).collect(),
    ];
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| x != n && !x.is_empty() && seen.insert(x.clone()));
    out
}

/// Field lists for a struct-like target; `full` tries many shapes.
fn field_lists(ty: &mut Types, f: &FieldsT, d: usize, full: bool) -> Vec<Vec<(String, Tid)>> {
    let (u, s) = (ty.u8(), ty.str());
    let own = |v: &[(&str, Tid)]| -> Vec<(String, Tid)> { v.iter().map(|(n, t)| (n.to_string(), *t)).collect() };
    let (fs, named): (Vec<FieldT>, bool) = match f {
        FieldsT::Unit => (vec![], false),
        FieldsT::Named(v) => (v.clone(), true),
        FieldsT::Unnamed(v) => (v.clone(), false),
    };
    let used: Vec<&FieldT> = fs.iter().filter(|f| !f.skip).collect();
    let lists: Vec<Vec<Tid>> = used.iter().map(|f| sources_d(ty, &f.tgt, d + 1)).collect();
    let names: Vec<String> = if named {
        used.iter().map(|f| f.name.clone()).collect()
    } else {
        vec![String::new(); used.len()]
    };
    let zip = |ts: &[Tid]| -> Vec<(String, Tid)> { names.iter().cloned().zip(ts.iter().copied()).collect() };
    let mut out: Vec<Vec<(String, Tid)>> = vec![];
    let vs = vary(&lists);
    let base = vs[0].clone();
    let base_f = zip(&base);
    let n = base.len();
    out.push(base_f.clone());
    if full || d < 1 {
        out.extend(vs[1..].iter().map(|v| zip(v)));
    } else {
        out.extend(vs[1..].iter().take(3).map(|v| zip(v)));
    }
    let unnamed = |v: &[(String, Tid)]| -> Vec<(String, Tid)> { v.iter().map(|x| (String::new(), x.1)).collect() };
    let as_named = |v: &[(String, Tid)]| -> Vec<(String, Tid)> {
        v.iter().enumerate().map(|(i, x)| (if x.0.is_empty() { format!("n{i}") } else { x.0.clone() }, x.1)).collect()
    };
    // positions instead of names, and names instead of positions
    out.push(unnamed(&base_f));
    out.push(as_named(&base_f));
    out.push(base_f.iter().enumerate().map(|(i, x)| ((n - 1 - i).to_string(), x.1)).collect());
    out.push(base_f.iter().enumerate().map(|(i, x)| (format!("_{}", n - 1 - i), x.1)).collect());
    // one too many, one missing
    for at in 0..=n {
        if n > 5 && at > 1 && at + 2 < n {
            continue;
        }
        for (k, t) in [("extra", u), ("", s)] {
            let mut v = base_f.clone();
            v.insert(at, (if named { k.to_string() } else { String::new() }, t));
            out.push(v.clone());
            out.push(unnamed(&v));
            // extra field mixed in without a name, or with one
            let mut w = base_f.clone();
            w.insert(at, (k.to_string(), t));
            out.push(w);
        }
    }
    for at in 0..n {
        if n > 5 && at > 1 && at + 2 < n {
            continue;
        }
        let mut v = base_f.clone();
        v.remove(at);
        out.push(v.clone());
        out.push(unnamed(&v));
    }
    if named {
        // any order, with extra fields around
        let orders = if n <= 3 {
            perms(n)
        } else {
            let id: Vec<usize> = (0..n).collect();
            let mut rev = id.clone();
            rev.reverse();
            let mut rot = id.clone();
            rot.rotate_left(1);
            let mut sw = id.clone();
            sw.swap(0, 1);
            vec![rev, rot, sw]
        };
        for p in &orders {
            out.push(p.iter().map(|i| base_f[*i].clone()).collect());
        }
        if let Some(p) = orders.last() {
            let mut v: Vec<_> = p.iter().map(|i| base_f[*i].clone()).collect();
            v.insert(0, ("aaa".into(), s));
            v.push(("zzz".into(), u));
            out.push(v);
        }
        // fields that differ in one name, or have the name of a skipped field
        for at in 0..n.min(if full { n } else { 3 }) {
            if n > 5 && at > 0 && at + 1 < n {
                continue;
            }
            let all = near(&base_f[at].0);
            let k = if full { all.len() } else { 2 };
            for x in &all[..k] {
                let mut v = base_f.clone();
                v[at].0 = x.clone();
                out.push(v);
            }
            let mut v = base_f.clone();
            v[at].0 = String::new();
            out.push(v);
            if full {
                // next to the right one
                let t = base_f[at].1;
                let more: Vec<_> = all.iter().map(|x| (x.clone(), t)).collect();
                for front in [true, false] {
                    let mut v = base_f.clone();
                    v.splice(if front { at..at } else { at + 1..at + 1 }, more.clone());
                    out.push(v);
                }
            }
        }
        for f in fs.iter().filter(|f| f.skip) {
            for at in [0, n] {
                let mut v = base_f.clone();
                v.insert(at, (f.name.clone(), s));
                out.push(v);
            }
        }
    }
    out.push(vec![]);
    out.push(own(&[("", u), ("", u), ("", u), ("", u), ("", u), ("", u)]));
    if !full && d >= 1 {
        out.truncate(8);
    }
    let mut seen = std::collections::HashSet::new();
    // the same name twice has no meaning
    out.retain(|v| {
        let mut names: Vec<&String> = v.iter().map(|x| &x.0).filter(|n| !n.is_empty()).collect();
        names.sort();
        let k = names.len();
        names.dedup();
        names.len() == k
    });
    out.retain(|v| seen.insert(v.clone()));
    out
}

fn refs(v: &[(String, Tid)]) -> Vec<(&str, Tid)> {
    v.iter().map(|(n, t)| (n.as_str(), *t)).collect()
}

pub fn sources(ty: &mut Types, t: &Tgt) -> Vec<Tid> {
    let v = sources_d(ty, t, 0);
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|t| seen.insert(*t)).collect()
}

fn lazy(f: &FieldsT) -> bool {
    fn l(t: &Tgt) -> bool {
        match t {
            Tgt::Lazy(_) => true,
            Tgt::List(t) => l(t),
            _ => false,
        }
    }
    match f {
        FieldsT::Named(v) | FieldsT::Unnamed(v) => v.iter().any(|f| l(&f.tgt)),
        FieldsT::Unit => false,
    }
}

/// For every variant a type whose variants only have names near to its own, and its fields.
fn near_vars(ty: &mut Types, out: &mut Vec<Tid>, vs: &[(&str, &[(String, Tid)])]) {
    for (n, f) in vs {
        let fields: Vec<(Option<String>, Tid)> = f.iter().map(|(n, t)| ((!n.is_empty()).then(|| n.clone()), *t)).collect();
        let vars = near(n).into_iter().enumerate().map(|(i, name)| VDef { name, index: i as u8, fields: fields.clone() }).collect();
        out.push(ty.add(Def::Var { path: vec!["E".into()], vars }));
    }
}

/// Types to decode target `t` from; the first one fits. `d` is the nesting depth.
pub fn sources_d(ty: &mut Types, t: &Tgt, d: usize) -> Vec<Tid> {
    let top = d == 0;
    let mut out: Vec<Tid> = vec![];
    let bad_few = |ty: &mut Types| -> Vec<Tid> {
        let w = wrong(ty);
        vec![w[1], w[12]]
    };
    match t {
        Tgt::Lazy(f) => return sources_d(ty, &f(), d),
        Tgt::Int { signed, bits, .. } => {
            let own = ty.prim(int_prim(*signed, *bits));
            out.push(own);
            if top {
                for p in INTS {
                    out.push(ty.prim(p));
                }
                for p in [P::U8, P::U16, P::U32, P::U64, P::U128] {
                    let i = ty.prim(p);
                    out.push(ty.compact(i));
                    for w in wraps(ty, i) {
                        out.push(w);
                        out.push(ty.compact(w));
                    }
                }
                let (a, b) = (ty.prim(P::I16), ty.prim(P::U64));
                for i in [a, b] {
                    out.extend(wraps2(ty, i));
                }
                for w in wraps2(ty, b) {
                    out.push(ty.compact(w));
                }
                let c = ty.compact(b);
                out.extend(wraps2(ty, c));
                out.push(ty.compact(a));
            } else {
                let (u32_, u16_, i64_) = (ty.u32(), ty.u16(), ty.prim(P::I64));
                out.push(i64_);
                let c = ty.compact(u32_);
                out.push(c);
                out.push(ty.comp(&["W"], &[("w", u16_)]));
                let w = ty.tup(&[u16_]);
                out.push(ty.compact(w));
                out.extend(bad_few(ty));
            }
        }
        Tgt::Bool | Tgt::Char | Tgt::Str => {
            let own = match t {
                Tgt::Bool => ty.bool(),
                Tgt::Char => ty.prim(P::Char),
                _ => ty.str(),
            };
            out.push(own);
            if top {
                out.extend(wraps2(ty, own));
                out.push(ty.compact(own));
                let w = wraps(ty, own)[0];
                out.push(ty.compact(w));
                out.push(ty.option(own));
                out.push(ty.seq(own));
            } else {
                out.push(wraps(ty, own)[1]);
                let w = wrong(ty);
                out.push(if *t == Tgt::Bool { w[2] } else { w[0] });
                out.push(w[12]);
            }
        }
        Tgt::Bits => {
            if top {
                for (s, o) in BITS {
                    let b = ty.bits(s, o);
                    out.push(b);
                    out.push(ty.comp(&["W"], &[("w", b)]));
                }
                out.extend(wraps2(ty, out[0]));
                out.push(ty.compact(out[0]));
                let b = ty.bool();
                out.push(ty.seq(b));
            } else {
                out.push(ty.bits(BS::U16, BO::Msb0));
                out.extend(bad_few(ty));
            }
        }
        Tgt::Phantom => {
            out.push(ty.tup(&[]));
            out.push(ty.comp(&["Unit"], &[]));
            let u = ty.tup(&[]);
            out.extend(wraps(ty, u));
            let u = ty.u8();
            out.extend(wraps(ty, u));
        }
        Tgt::Duration => {
            let (a, b, s) = (ty.u64(), ty.u32(), ty.str());
            out.push(ty.tup(&[a, b]));
            out.push(ty.named(&[("secs", a), ("nanos", b)]));
            out.push(ty.tup(&[b, a]));
            out.push(ty.tup(&[a]));
            out.push(ty.tup(&[a, b, b]));
            let c = ty.compact(a);
            out.push(ty.tup(&[c, c]));
            out.push(ty.tup(&[a, s]));
            out.push(ty.unnamed(&[a, b]));
        }
        Tgt::Range(e) => {
            let l = sources_d(ty, e, d + 1);
            out.push(ty.tup(&[l[0], l[0]]));
            out.push(ty.named(&[("start", l[0]), ("end", l[0])]));
            for x in &l[1..] {
                out.push(ty.tup(&[l[0], *x]));
                out.push(ty.tup(&[*x, l[0]]));
            }
            out.push(ty.tup(&[l[0]]));
            out.push(ty.tup(&[l[0], l[0], l[0]]));
        }
        Tgt::List(e) | Tgt::Set(e) | Tgt::Heap(e) | Tgt::Arr(e, _) => {
            let l = sources_d(ty, e, d + 1);
            let n = match t {
                Tgt::Arr(_, n) => *n,
                _ => 2,
            };
            let own = ty.arr(l[0], n);
            if matches!(t, Tgt::Arr(..)) {
                out.push(own);
                out.push(ty.seq(l[0]));
            } else {
                out.push(ty.seq(l[0]));
                out.push(own);
            }
            out.push(ty.arr(l[0], n + 1));
            if n > 0 {
                out.push(ty.arr(l[0], n - 1));
            }
            let k = if top { l.len() } else { 3.min(l.len()) };
            for x in &l[1..k] {
                out.push(ty.arr(*x, n));
                out.push(ty.seq(*x));
            }
            if top {
                for n in [0, 1, 3, 5] {
                    out.push(ty.arr(l[0], n));
                }
                let s = ty.seq(l[0]);
                out.extend(wraps2(ty, s));
                out.push(wraps(ty, own)[0]);
                out.push(ty.compact(s));
                out.push(ty.tup(&[l[0], l[0]]));
                out.push(ty.unnamed(&[s, l[0]]));
            } else {
                out.push(wraps(ty, own)[2]);
                out.extend(bad_few(ty));
            }
        }
        Tgt::Map(e) => {
            let l = sources_d(ty, e, d + 1);
            let s = ty.str();
            out.push(ty.named(&[("k1", l[0]), ("k2", l[0])]));
            out.push(ty.named(&[("k1", l[0])]));
            out.push(ty.comp(&["Unit"], &[]));
            for x in &l[1..] {
                out.push(ty.named(&[("zed", l[0]), ("alpha", *x)]));
            }
            if top {
                let mut names = near("k1_a");
                names.push("k1_a".into());
                names.extend(["\u{1f980}".repeat(90), "x".to_string() + &"\u{1f980}".repeat(90)]);
                let f: Vec<(&str, Tid)> = names.iter().map(|n| (n.as_str(), l[0])).collect();
                out.push(ty.named(&f));
            }
            out.push(ty.comp(&["Mix"], &[("", s), ("b", l[0]), ("", l[0]), ("a", l[0]), ("", s)]));
            out.push(ty.unnamed(&[l[0], s]));
            let o = out[0];
            out.extend(wraps(ty, o));
            out.push(ty.tup(&[l[0], l[0]]));
            out.push(ty.seq(l[0]));
        }
        Tgt::Opt(e) => {
            let l = sources_d(ty, e, d + 1);
            let own = ty.option(l[0]);
            out.push(own);
            for x in &l[1..] {
                out.push(ty.option(*x));
            }
            let (x, u) = (l[0], ty.u8());
            let none: &[(&str, Tid)] = &[];
            out.push(ty.var(&[("Some", 0, &[("", x)]), ("None", 1, none)]));
            out.push(ty.var(&[("None", 200, none), ("Other", 0, &[("", x)]), ("Some", 3, &[("named", x)])]));
            if top {
                out.push(ty.var(&[("Some", 1, &[("", x)])]));
                out.push(ty.var(&[("None", 0, none)]));
                out.push(ty.var(&[("None", 0, none), ("Some", 1, none)]));
                out.push(ty.var(&[("None", 0, &[("", u)]), ("Some", 1, &[("", x), ("", u)])]));
                out.push(ty.var(&[("none", 0, none), ("some", 1, &[("", x)]), ("SomeX", 2, &[("", x)])]));
                near_vars(ty, &mut out, &[("None", &[]), ("Some", &[(String::new(), x)])]);
                out.extend(wraps2(ty, own));
                out.push(ty.compact(own));
                out.push(ty.tup(&[own, own]));
                out.push(x);
            } else {
                out.push(wraps(ty, own)[0]);
                out.extend(bad_few(ty));
            }
        }
        Tgt::Res(a, b) => {
            let (la, lb) = (sources_d(ty, a, d + 1), sources_d(ty, b, d + 1));
            let own = ty.result(la[0], lb[0]);
            out.push(own);
            for x in &la[1..] {
                out.push(ty.result(*x, lb[0]));
            }
            for x in &lb[1..] {
                out.push(ty.result(la[0], *x));
            }
            let (x, y, u) = (la[0], lb[0], ty.u8());
            out.push(ty.var(&[("Err", 0, &[("", y)]), ("Ok", 1, &[("", x)])]));
            if top {
                out.push(ty.var(&[("Error", 0, &[("", y)]), ("Ok", 100, &[("v", x)])]));
                near_vars(ty, &mut out, &[("Ok", &[(String::new(), x)]), ("Err", &[(String::new(), y)])]);
                out.push(ty.var(&[("Err", 3, &[]), ("Ok", 1, &[("", x), ("", u)])]));
                out.extend(wraps2(ty, own));
                out.push(ty.option(x));
                out.push(x);
            }
        }
        Tgt::Tup(ts) => {
            let lists: Vec<Vec<Tid>> = ts.iter().map(|t| sources_d(ty, t, d + 1)).collect();
            let vs = vary(&lists);
            let base = vs[0].clone();
            let (u, s) = (ty.u8(), ty.str());
            out.push(ty.tup(&base));
            out.push(ty.unnamed(&base));
            let names: Vec<String> = (0..base.len()).map(|i| format!("t{i}")).collect();
            let nf: Vec<(&str, Tid)> = names.iter().map(|s| s.as_str()).zip(base.iter().copied()).collect();
            out.push(ty.comp(&["Nm"], &nf));
            // names whose order is another than that of the fields
            let names: Vec<String> = (0..base.len()).rev().map(|i| i.to_string()).collect();
            let nf: Vec<(&str, Tid)> = names.iter().map(|s| s.as_str()).zip(base.iter().copied()).collect();
            out.push(ty.comp(&["Nm"], &nf));
            let names: Vec<String> = (0..base.len()).rev().map(|i| format!("_{i}")).collect();
            let nf: Vec<(&str, Tid)> = names.iter().map(|s| s.as_str()).zip(base.iter().copied()).collect();
            out.push(ty.comp(&["Nm"], &nf));
            let few = ts.len() > 4;
            for v in &vs[1..] {
                if few && out.len() > 30 {
                    break;
                }
                out.push(ty.tup(v));
                if top && !few {
                    out.push(ty.unnamed(v));
                }
            }
            let mut more = base.clone();
            more.push(u);
            out.push(ty.tup(&more));
            out.push(ty.unnamed(&more));
            let mut more = base.clone();
            more.insert(0, s);
            out.push(ty.tup(&more));
            if !base.is_empty() {
                out.push(ty.tup(&base[1..]));
                out.push(ty.unnamed(&base[..base.len() - 1]));
            }
            if ts.len() == 1 {
                out.push(base[0]);
                out.extend(lists[0].clone());
                out.push(ty.compact(base[0]));
                let o = ty.tup(&base);
                out.push(ty.compact(o));
                out.extend(wraps(ty, o));
            }
            let o = ty.tup(&base);
            if top {
                out.extend(wraps(ty, o));
                out.push(ty.tup(&[]));
            }
        }
        Tgt::Struct(f) => {
            for v in field_lists(ty, f, d, top) {
                let all_unnamed = v.iter().all(|f| f.0.is_empty());
                out.push(ty.comp(&["S"], &refs(&v)));
                if all_unnamed {
                    let ts: Vec<Tid> = v.iter().map(|f| f.1).collect();
                    out.push(ty.tup(&ts));
                }
            }
            if !top {
                out.truncate(6);
            } else {
                let o = out[0];
                out.extend(wraps(ty, o));
                out.push(ty.compact(o));
            }
        }
        Tgt::Enum(vs) => {
            let vs: Vec<&(String, FieldsT)> = vs.iter().filter(|v| d < 3 || !lazy(&v.1)).collect();
            let lists: Vec<Vec<Vec<(String, Tid)>>> = vs.iter().map(|v| field_lists(ty, &v.1, d, top && !lazy(&v.1))).collect();
            let mk = |ty: &mut Types, pick: &[(usize, usize)], idx: &dyn Fn(usize) -> u8| -> Tid {
                let vars = pick
                    .iter()
                    .enumerate()
                    .map(|(i, (v, l))| VDef {
                        name: vs[*v].0.clone(),
                        index: idx(i),
                        fields: lists[*v][*l].iter().map(|(n, t)| ((!n.is_empty()).then(|| n.clone()), *t)).collect(),
                    })
                    .collect();
                ty.add(Def::Var { path: vec!["E".into()], vars })
            };
            let base: Vec<(usize, usize)> = (0..vs.len()).map(|i| (i, 0)).collect();
            let own = mk(ty, &base, &|i| i as u8);
            out.push(own);
            // names at other indices and positions
            let mut rev = base.clone();
            rev.reverse();
            out.push(mk(ty, &rev, &|i| i as u8));
            out.push(mk(ty, &base, &|i| 250 - 3 * i as u8));
            // variants missing or unknown
            if top {
                for i in 0..vs.len() {
                    let mut b = base.clone();
                    b.remove(i);
                    out.push(mk(ty, &b, &|i| i as u8));
                    out.push(mk(ty, &[(i, 0)], &|_| 7));
                }
            }
            let mut ext = match ty.get(own).clone() {
                Def::Var { vars, .. } => vars,
                _ => unreachable!(),
            };
            let u = ty.u8();
            ext.insert(0, VDef { name: "Unheard".into(), index: 77, fields: vec![(None, u)] });
            if top {
                for n in ["a", "Aa", "", "TYPE"] {
                    ext.push(VDef { name: n.into(), index: 80 + n.len() as u8 * 3 + n.as_bytes().first().copied().unwrap_or(0) % 3, fields: vec![] });
                }
            }
            out.push(ty.add(Def::Var { path: vec![], vars: ext }));
            if top {
                let of: Vec<(&str, &[(String, Tid)])> =
                    vs.iter().zip(&lists).map(|(v, l)| (v.0.as_str(), l[0].as_slice())).collect();
                near_vars(ty, &mut out, &of);
            }
            // each variant with other fields
            for i in 0..vs.len() {
                let k = if top { lists[i].len() } else { 3.min(lists[i].len()) };
                for l in 1..k {
                    let mut b = base.clone();
                    b[i].1 = l;
                    out.push(mk(ty, &b, &|i| i as u8));
                }
            }
            if top {
                out.extend(wraps2(ty, own));
                out.push(ty.compact(own));
                out.push(ty.tup(&[own, own]));
                out.push(ty.named(&[("a", own), ("b", u)]));
            } else {
                out.push(wraps(ty, own)[0]);
            }
        }
    }
    if top {
        out.extend(wrong(ty));
    }
    out
}

/// What to try targets on.
#[derive(Clone, Copy)]
pub struct Plan {
    pub opts: GenOpts,
    pub dev: usize,
    pub cap: u64,
    /// Also every truncation.
    pub cuts: bool,
    pub srcs: fn(&mut Types, &Tgt) -> Vec<Tid>,
}

pub fn plan(opts: GenOpts, dev: usize) -> Plan {
    Plan { opts, dev, cap: 60_000, cuts: false, srcs: sources }
}

/// Calls `f` for every target, source type and byte trace of the plan.
pub fn target_cases(
    ctx: &mut Ctx,
    entries: &[Entry],
    p: Plan,
    f: &dyn Fn(&mut Ctx, &Entry, &Tgt, &Types, Tid, &[u8], &Result<Node, RErr>),
) {
    for e in entries {
        ctx.case(
            || format!("decode into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let srcs = (p.srcs)(&mut types, &tgt);
                let n = srcs.len();
                let mut tried = 0u64;
                for t in srcs {
                    let mut all = traces(ctx, &types, t, p.opts, p.dev, p.cap);
                    if p.cuts {
                        let mut seen: std::collections::HashSet<Vec<u8>> = all.iter().cloned().collect();
                        for b in all.clone() {
                            for c in cuts(b.len()) {
                                if seen.insert(b[..c].to_vec()) {
                                    all.push(b[..c].to_vec());
                                }
                            }
                        }
                    }
                    for b in all {
                        let r = refdec(&types, t, &b);
                        tried += 1;
                        f(ctx, e, &tgt, &types, t, &b, &r);
                    }
                }
                ctx.sample(|| format!("{}: {n} source types, {tried} byte strings", e.name));
            },
        );
    }
}

/// Every list of up to `max` source fields over the target's own names (skipped ones too), one foreign
/// name and no name, no name used twice; each also with one field of a type that does not fit.
pub fn field_space(ty: &mut Types, f: &FieldsT, max: usize) -> Vec<Vec<(String, Tid)>> {
    let (u, s) = (ty.u8(), ty.str());
    let fs: Vec<FieldT> = match f {
        FieldsT::Unit => vec![],
        FieldsT::Named(v) | FieldsT::Unnamed(v) => v.clone(),
    };
    let mut used: Vec<Tid> = vec![];
    let mut pool: Vec<(String, Tid)> = vec![("foreign".into(), u), (String::new(), u)];
    for x in &fs {
        let t = if x.skip { s } else { sources_d(ty, &x.tgt, 1)[0] };
        if !x.skip {
            used.push(t);
        }
        if matches!(f, FieldsT::Named(_)) {
            pool.push((x.name.clone(), t));
        }
    }
    let mut out: Vec<Vec<(String, Tid)>> = vec![];
    let mut layer: Vec<Vec<(String, Tid)>> = vec![vec![]];
    for _ in 0..=max {
        let mut next = vec![];
        for l in &layer {
            let mut l2 = l.clone();
            for (i, x) in l2.iter_mut().enumerate() {
                if x.0.is_empty() {
                    // without a name the position tells the type
                    x.1 = used.get(i).copied().unwrap_or(u);
                }
            }
            out.push(l2.clone());
            for i in 0..l2.len() {
                let mut m = l2.clone();
                m[i].1 = if m[i].1 == s { u } else { s };
                out.push(m);
            }
            if l.len() < max {
                for p in &pool {
                    if p.0.is_empty() || !l.iter().any(|x| x.0 == p.0) {
                        let mut m = l.clone();
                        m.push(p.clone());
                        next.push(m);
                    }
                }
            }
        }
        layer = next;
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|v| seen.insert(v.clone()));
    out
}

/// The type with one of its parts (at any depth up to `d`) replaced.
pub fn replaced(ty: &mut Types, t: Tid, new: Tid, d: usize) -> Vec<Tid> {
    let mut out = vec![new];
    if d == 0 {
        return out;
    }
    match ty.get(t).clone() {
        Def::Seq(e) => {
            for x in replaced(ty, e, new, d - 1) {
                out.push(ty.seq(x));
            }
        }
        Def::Arr(e, n) => {
            for x in replaced(ty, e, new, d - 1) {
                out.push(ty.arr(x, n));
            }
        }
        Def::Compact(e) => {
            for x in replaced(ty, e, new, d - 1) {
                out.push(ty.compact(x));
            }
        }
        Def::Tup(ts) => {
            for i in 0..ts.len().min(4) {
                for x in replaced(ty, ts[i], new, d - 1) {
                    let mut v = ts.clone();
                    v[i] = x;
                    out.push(ty.tup(&v));
                }
            }
        }
        Def::Comp { path, fields } => {
            for i in 0..fields.len().min(4) {
                for x in replaced(ty, fields[i].1, new, d - 1) {
                    let mut v = fields.clone();
                    v[i].1 = x;
                    out.push(ty.add(Def::Comp { path: path.clone(), fields: v }));
                }
            }
        }
        Def::Var { path, vars } => {
            for i in 0..vars.len().min(4) {
                for j in 0..vars[i].fields.len().min(3) {
                    for x in replaced(ty, vars[i].fields[j].1, new, d - 1) {
                        let mut v = vars.clone();
                        v[i].fields[j].1 = x;
                        out.push(ty.add(Def::Var { path: path.clone(), vars: v }));
                    }
                }
            }
        }
        _ => {}
    }
    out
}

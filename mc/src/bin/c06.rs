//! C06: container cursors stay in step under any sequence of operations.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::shapes::*;
use mc::ty::*;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, TypeIdFor, Unexpected, Visitor};
use std::marker::PhantomData;

#[derive(Clone, Copy)]
struct Sh<'e> {
    types: &'e Types,
    ch: &'e Chooser,
    env: &'e Env<'e, Types>,
    /// What the value is, as far as it is well formed: per item the node, or `None` from the first
    /// malformed one on.
    items: &'e [Option<Node>],
    /// Declared (name, type) of every item.
    decl: &'e [(Option<String>, Tid)],
    start: usize,
    body: usize,
    ops: usize,
    /// Operations on a tuple made from a composite.
    sub: usize,
    /// A malformed item was tried in a container that reads on after failures.
    tried: &'e std::cell::Cell<bool>,
}

/// Model of a cursor.
#[derive(Clone, Copy, PartialEq, Debug)]
struct St {
    next: usize,
    /// An item failed and the container gave up there.
    failed: Option<usize>,
    /// Undecoded bytes start here, if that is still determined.
    pos: Option<usize>,
}

impl<'e> Sh<'e> {
    fn item_end(&self, i: usize) -> Option<usize> {
        self.items[i].as_ref().map(|n| n.end)
    }
    fn check<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H, st: &St, log: &[&str]) -> Result<(), VErr> {
        let total = self.items.len();
        let left = if st.failed.is_some() { 0 } else { total - st.next };
        let bad = |s: String| Err(VErr::Bad(format!("after {log:?}: {s}")));
        if h.remaining() != left {
            return bad(format!("{} items remaining reported, {left} are", h.remaining()));
        }
        if let Some(e) = h.empty() {
            if e != (left == 0) {
                return bad(format!("is_empty is {e} with {left} items left"));
            }
        }
        if self.env.off_rest(h.start()) != self.start {
            return bad(format!("bytes from start begin at {}, not {}", self.env.off_rest(h.start()), self.start));
        }
        if let Some(p) = st.pos {
            if self.env.off_rest(h.rest()) != p {
                return bad(format!("undecoded bytes begin at {}, not {p}", self.env.off_rest(h.rest())));
            }
        } else if self.env.off_rest(h.rest()) > self.env.len {
            return bad("undecoded bytes are not a tail of the input".into());
        }
        if let Some(c) = h.composite() {
            let want = if left > 0 { self.decl[st.next].0.as_deref() } else { None };
            if c.peek_name() != want {
                return bad(format!("next field name {:?}, not {want:?}", c.peek_name()));
            }
            let got: Vec<(Option<String>, Tid)> = c.fields().iter().map(|f| (f.name.map(|s| s.to_string()), f.id)).collect();
            if got != self.decl {
                return bad(format!("fields {got:?}, not {:?}", self.decl));
            }
            if c.has_unnamed_fields() != self.decl.iter().any(|d| d.0.is_none()) {
                return bad("has_unnamed_fields is wrong".into());
            }
        }
        Ok(())
    }
    fn same(&self, i: usize, n: &Node) -> Option<String> {
        self.items[i].as_ref().and_then(|w| w.diff(n))
    }
    fn drive<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H, st: &mut St, ops: usize, log: &mut Vec<&'static str>) -> Result<(), VErr> {
        let total = self.items.len();
        self.check(h, st, log)?;
        let rec = RecV { env: self.env };
        for _ in 0..ops {
            let is_comp = h.composite().is_some();
            let op = self.ch.free(if is_comp { 8 } else { 7 });
            if op == 0 {
                break;
            }
            let i = st.next;
            let live = st.failed.is_none() && i < total;
            macro_rules! bad {
                ($($a:tt)*) => { return Err(VErr::Bad(format!("after {log:?}: {}", format!($($a)*)))) };
            }
            // a step over item i; `ok`: whether the visitor accepted it
            let step = |st: &mut St, ok: bool| {
                if ok {
                    st.next += 1;
                    st.pos = self.item_end(i);
                } else if H::STOPS {
                    st.failed = Some(i);
                    st.pos = None;
                } else {
                    st.next += 1;
                    // well formed items are passed over even if the visitor fails
                    st.pos = if st.pos.is_some() { self.item_end(i) } else { None };
                }
            };
            match op {
                1 | 2 => {
                    log.push(if op == 1 { "decode_item" } else { "decode_item(trait)" });
                    let r = if op == 1 { h.item(rec) } else { h.decode_item(rec) };
                    match r {
                        None if live => bad!("nothing, but item {i} is next"),
                        None => {}
                        Some(_) if !live => bad!("an item past the end"),
                        Some(Ok(n)) => {
                            // once an item was malformed the bytes mean nothing any more
                            if st.pos.is_some() {
                                if self.items[i].is_none() {
                                    bad!("malformed item {i} accepted");
                                }
                                if let Some(d) = self.same(i, &n) {
                                    bad!("item {i}: {d}");
                                }
                                step(st, true);
                            } else {
                                st.next += 1;
                            }
                        }
                        Some(Err(e)) => {
                            if st.pos.is_some() && self.items[i].as_ref().is_some_and(|n| n.utf8_ok()) {
                                bad!("item {i} failed with {e:?}");
                            }
                            let utf8 = self.items[i].is_some();
                            step(st, false);
                            if !utf8 {
                                st.pos = None;
                                self.tried.set(!H::STOPS);
                            }
                        }
                    }
                }
                3 | 4 => {
                    log.push(if op == 3 { "decode_item(failing)" } else { "decode_item(failing late)" });
                    let r = if op == 3 { h.item(FailV(1, PhantomData)) } else { h.item(LateFail(rec)).map(|r| r.map(|_| ())) };
                    match r {
                        None if live => bad!("nothing, but item {i} is next"),
                        None => {}
                        Some(_) if !live => bad!("an item past the end"),
                        Some(Ok(())) => bad!("failing item {i} did not fail"),
                        Some(Err(_)) => {
                            let known = self.items[i].is_some();
                            step(st, false);
                            if !known {
                                st.pos = None;
                                self.tried.set(!H::STOPS);
                            }
                        }
                    }
                }
                5 => {
                    log.push("next");
                    match h.next_item() {
                        None if live => bad!("nothing, but item {i} is next"),
                        None => {}
                        Some(_) if !live => bad!("an item past the end"),
                        Some(Ok(it)) => {
                            if st.pos.is_some() {
                                let Some(n) = &self.items[i] else { bad!("malformed item {i} handed out") };
                                if self.env.off(it.bytes()) != n.start || it.bytes().len() != n.end - n.start {
                                    bad!("item {i} has bytes {}+{}, not {}..{}", self.env.off(it.bytes()), it.bytes().len(), n.start, n.end);
                                }
                                if *it.type_id() != self.decl[i].1 {
                                    bad!("item {i} has type {}, not {}", it.type_id(), self.decl[i].1);
                                }
                                if let Some(nm) = it.name() {
                                    if nm != self.decl[i].0.as_deref() {
                                        bad!("item {i} has name {nm:?}, not {:?}", self.decl[i].0);
                                    }
                                }
                                step(st, true);
                            } else {
                                st.next += 1;
                            }
                        }
                        Some(Err(e)) => {
                            // skipping over a string does not look at its text
                            if st.pos.is_some() && self.items[i].is_some() {
                                bad!("item {i} failed with {e:?}");
                            }
                            step(st, false);
                            st.pos = None;
                            self.tried.set(!H::STOPS);
                        }
                    }
                }
                6 => {
                    log.push("skip");
                    let from = st.failed.unwrap_or(st.next);
                    let fine = (st.pos.is_some() || st.failed.is_some() && self.items[..from].iter().all(|x| x.is_some()))
                        && self.items[from..].iter().all(|x| x.is_some());
                    let end = if total == 0 { Some(self.body) } else { self.item_end(total - 1) };
                    match h.skip() {
                        Ok(()) => {
                            if fine {
                                *st = St { next: total, failed: None, pos: end };
                            } else if st.pos.is_some() {
                                bad!("malformed items skipped without error");
                            } else {
                                *st = St { next: total, failed: None, pos: None };
                            }
                        }
                        Err(e) => {
                            if fine {
                                bad!("skipping failed with {e:?}");
                            }
                            // nothing more can be said
                            self.tried.set(!H::STOPS);
                            return Ok(());
                        }
                    }
                }
                _ => {
                    let first = !log.contains(&"as_tuple");
                    log.push("as_tuple");
                    if st.failed.is_some() {
                        continue;
                    }
                    // the tuple has exactly the remaining fields and moves on its own
                    let mut t = h.composite().unwrap().as_tuple();
                    let rest = self.items[i..].to_vec();
                    let sub = Sh {
                        items: &rest,
                        decl: &self.decl[i..],
                        start: st.pos.unwrap_or(0),
                        body: st.pos.unwrap_or(0),
                        ..*self
                    };
                    if st.pos.is_some() {
                        let mut l2 = log.clone();
                        let mut s2 = St { next: 0, failed: None, pos: st.pos };
                        sub.drive(&mut t, &mut s2, if first { self.sub } else { 0 }, &mut l2)?;
                    }
                }
            }
            self.check(h, st, log)?;
        }
        Ok(())
    }
    fn root<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H) -> Result<(), VErr> {
        let mut st = St { next: 0, failed: None, pos: Some(self.body) };
        self.drive(h, &mut st, self.ops, &mut vec![])
    }
}

/// Decodes all and then fails.
struct LateFail<'e>(RecV<'e, Types>);
macro_rules! late {
    ($($f:ident($t:ty);)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            let _ = self.0.$f(v, id);
            Err(VErr::Own(8))
        })*
    };
}
impl<'e> Visitor for LateFail<'e> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    late! {
        visit_str(&mut Str<'scale>); visit_bitsequence(&mut BitSequence<'scale>);
        visit_sequence(&mut Sequence<'scale, 'resolver, Types>); visit_array(&mut Array<'scale, 'resolver, Types>);
        visit_tuple(&mut Tuple<'scale, 'resolver, Types>); visit_composite(&mut Composite<'scale, 'resolver, Types>);
        visit_variant(&mut Variant<'scale, 'resolver, Types>);
    }
    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Own(8))
    }
}

/// Runs operations on the container it is given.
struct OpV<'e>(Sh<'e>);
impl<'e> Visitor for OpV<'e> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_sequence<'scale, 'resolver>(self, s: &mut Sequence<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.0.root(s)
    }
    fn visit_array<'scale, 'resolver>(self, s: &mut Array<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.0.root(s)
    }
    fn visit_tuple<'scale, 'resolver>(self, s: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.0.root(s)
    }
    fn visit_composite<'scale, 'resolver>(self, s: &mut Composite<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.0.root(s)
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let sh = self.0;
        let Def::Var { vars, .. } = sh.types.get(sh.vtid()) else { return Err(VErr::Bad("no variant type".into())) };
        let idx = v.index();
        let d = vars.iter().find(|x| x.index == idx).unwrap();
        if v.name() != d.name {
            return Err(VErr::Bad(format!("variant {idx} has name {}", v.name())));
        }
        if sh.env.off_rest(v.bytes_from_start()) != sh.start {
            return Err(VErr::Bad("variant does not start at its index".into()));
        }
        let undec = |v: &Variant<'scale, 'resolver, Types>| sh.env.off_rest(v.bytes_from_undecoded());
        if undec(v) != sh.body {
            return Err(VErr::Bad(format!("undecoded bytes of the variant begin at {}", undec(v))));
        }
        let fsh = Sh { start: sh.body, ..sh };
        match sh.ch.free(3) {
            0 => fsh.root(v.fields()),
            1 => {
                // skipping the variant as a whole
                let fine = sh.items.iter().all(|x| x.is_some());
                let r = v.skip_decoding();
                if fine {
                    let end = sh.items.last().map(|n| n.as_ref().unwrap().end).unwrap_or(sh.body);
                    if r.is_err() || undec(v) != end || v.fields().remaining() != 0 {
                        return Err(VErr::Bad(format!("skipping a variant: {r:?}, then at {}", undec(v))));
                    }
                } else if r.is_ok() {
                    return Err(VErr::Bad("malformed variant skipped".into()));
                }
                Ok(())
            }
            _ => {
                // operations on the fields, then skip the variant
                fsh.root(v.fields())?;
                if sh.items.iter().all(|x| x.is_some()) {
                    if let Err(e) = v.skip_decoding() {
                        return Err(VErr::Bad(format!("skipping the rest of a variant failed: {e:?}")));
                    }
                    let end = sh.items.last().map(|n| n.as_ref().unwrap().end).unwrap_or(sh.body);
                    if undec(v) != end {
                        return Err(VErr::Bad(format!("variant skipped to {}, ends at {end}", undec(v))));
                    }
                }
                Ok(())
            }
        }
    }
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Bad(format!("unexpected {u}")))
    }
}
impl<'e> Sh<'e> {
    fn vtid(&self) -> Tid {
        // the variant type sits in the middle of the frame (u8, X, u16)
        let mut t = match self.types.get(self.types.defs.len() - 1) {
            Def::Tup(v) if v.len() == 3 => v[1],
            _ => 0,
        };
        while let Def::Compact(i) = self.types.get(t) {
            t = *i;
        }
        t
    }
}

/// Outer frame: a number, the container under test, a number.
struct Frame<'e>(Sh<'e>);
impl<'e> Visitor for Frame<'e> {
    type Value<'scale, 'resolver> = (Result<(), VErr>, Option<Result<Node, VErr>>);
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_tuple<'scale, 'resolver>(self, t: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        t.decode_item(RecV { env: self.0.env }).unwrap()?;
        let r = t.decode_item(OpV(self.0)).unwrap();
        if let Err(VErr::Bad(m)) = r {
            // else lost if what is left over is malformed
            return Err(VErr::Bad(m));
        }
        let ok = r.is_ok();
        let after = if ok { t.decode_item(RecV { env: self.0.env }) } else { None };
        Ok((r, after))
    }
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Bad(format!("unexpected {u}")))
    }
}

fn run(ctx: &mut Ctx, types: &Types, outer: Tid, x: Tid, b: &[u8], ops: usize, sub: usize, max: u128) {
    let cap = 40_000_000;
    let Some((decl, items, body, _)) = layout_max(types, x, b, 1, max) else { return };
    let whole = refdec(types, outer, b);
    if whole == Err(RErr::Depth) {
        return;
    }
    let mut viol = 0;
    let st = explore(0, cap, |ch| {
        let env = Env::new(types, b, Mode::Items);
        let tried = std::cell::Cell::new(false);
        let sh = Sh { types, ch, env: &env, items: &items, decl: &decl, start: 1, body, ops, sub, tried: &tried };
        let mut input = b;
        let r = ctx.lib(|| decode_with_visitor(&mut input, outer, types, Frame(sh)));
        ctx.trace();
        ctx.transitions(env.steps.get() + ch.script().len() as u64);
        ctx.state(&(x, b, ch.script()));
        let bad = match r {
            Err(Panicked(p)) => Some(format!("panicked: {p}")),
            Ok(Ok((Err(VErr::Bad(m)), _))) | Ok(Err(VErr::Bad(m))) => Some(m),
            Ok(Ok((Err(e), _))) => match &whole {
                // left over items are well formed, so leaving the container must work
                Ok(_) => Some(format!("leaving the container failed: {e:?}")),
                Err(_) => None,
            },
            Ok(Ok((Ok(()), after))) => match (&whole, after) {
                (Ok(w), Some(Ok(n))) => {
                    let want = w.children()[2].clone();
                    want.diff(&n).map(|d| format!("the value after the container differs: {d}")).or_else(|| {
                        (suffix(b, input) != Some(w.end)).then(|| format!("input left at {:?}, not {}", suffix(b, input), w.end))
                    })
                }
                (Ok(_), a) => Some(format!("the value after the container: {a:?}")),
                (Err(_), _) if items.iter().any(|i| i.is_none()) && !tried.get() => Some("malformed items left over without error".into()),
                _ => None,
            },
            Ok(Err(e)) => match &whole {
                Ok(_) => Some(format!("frame failed: {e:?}")),
                Err(_) => None,
            },
        };
        match bad {
            Some(m) => {
                viol += 1;
                if viol > 1 {
                    ch.stop();
                }
                let s = ch.script();
                ctx.violation(&format!("{}:{}:{s:?}", types.show(x), hex(b)), || {
                    format!("operations {s:?}: {m}: {}", show_case(types, outer, b))
                });
            }
            None => ctx.outcome(if whole.is_ok() { "well-formed" } else { "malformed" }),
        }
    });
    ctx.nodes(st);
}

fn body(ctx: &mut Ctx) {
    long(ctx);
    let mut types = Types::new();
    let xs = shapes(&mut types, !ctx.quick());
    for x in xs {
        let mut types = types.clone();
        let (u8_, u16_) = (types.u8(), types.u16());
        // fresh: the last definition is the frame (see `vtid`)
        let outer = types.add_fresh(Def::Tup(vec![u8_, x, u16_]));
        ctx.case(
            || format!("operations on {}", types.show(x)),
            |ctx| {
                let types = &types;
                let opts = GenOpts { invalid: true, rich: false, huge: false, long: false, max_depth: 8 };
                let mut all = traces(ctx, types, outer, opts, 1, 5_000);
                let mut seen: std::collections::HashSet<Vec<u8>> = all.iter().cloned().collect();
                for c in 1..all[0].len() {
                    let b = all[0][..c].to_vec();
                    if seen.insert(b.clone()) {
                        all.push(b);
                    }
                }
                for (i, b) in all.iter().enumerate() {
                    let ops = if i == 0 { ctx.by_tier(5, 6) } else { ctx.by_tier(3, 4) };
                    let sub = if i == 0 { ctx.by_tier(1, 2) } else { ctx.by_tier(1, 2) };
                    run(ctx, types, outer, x, b, ops, sub, 20);
                }
                ctx.sample(|| format!("{}: {} byte strings", types.show(x), all.len()));
            },
        );
    }
}

/// Containers of many items, also with one malformed item and cut short.
fn long(ctx: &mut Ctx) {
    let mut types = Types::new();
    let (u8_, u16_, s) = (types.u8(), types.u16(), types.str());
    let unit = types.tup(&[]);
    let mut cases: Vec<(Tid, Vec<Vec<u8>>)> = vec![];
    let variants = |head: &[u8], item: &[u8], bad: &[u8], n: usize| -> Vec<Vec<u8>> {
        let good = [head, &item.repeat(n)].concat();
        let mut out = vec![good.clone()];
        if !item.is_empty() {
            out.push(good[..good.len() - 1].to_vec());
            out.push(good[..head.len() + item.len() * 2].to_vec());
        }
        if !bad.is_empty() {
            out.push([head, &item.repeat(n - 1), bad].concat());
            out.push([head, item, bad, &item.repeat(n - 2)].concat());
        }
        out
    };
    let bool_ = types.bool();
    let elems: [(Tid, &[u8], &[u8]); 5] = [(u8_, &[7], &[]), (u16_, &[1, 2], &[]), (s, &[4, b'x'], &[3]), (unit, &[], &[]), (bool_, &[1], &[2])];
    let many: &[usize] = if ctx.quick() { &[63, 64, 256, 300, 65_537] } else { &[31, 33, 63, 64, 127, 129, 255, 256, 257, 300, 16_384, 65_535, 65_536, 65_537, 70_000] };
    let fields: &[usize] = if ctx.quick() { &[32, 129, 257] } else { &[32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000] };
    for (e, item, bad) in elems {
        for &n in many {
            let mut head = vec![];
            compact(n as u128, &mut head);
            cases.push((types.seq(e), variants(&head, item, bad, n)));
            cases.push((types.arr(e, n), variants(&[], item, bad, n)));
        }
        for &n in fields {
            let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let fs: Vec<(&str, Tid)> = names.iter().map(|x| (x.as_str(), e)).collect();
            cases.push((types.tup(&vec![e; n]), variants(&[], item, bad, n)));
            cases.push((types.comp(&["Big"], &fs), variants(&[], item, bad, n)));
            cases.push((types.var(&[("A", 0, &[]), ("B", 9, &fs)]), variants(&[9], item, bad, n)));
        }
    }
    for (x, bs) in cases {
        let outer = types.add_fresh(Def::Tup(vec![u8_, x, u16_]));
        // the last definition is the frame (see `vtid`)
        let types = types.clone();
        ctx.case(
            || format!("operations on a long {}", types.show(x).chars().take(60).collect::<String>()),
            |ctx| {
                for (i, b) in bs.iter().enumerate() {
                    let tail: &[u8] = if i == 0 || i > 2 { &[5, 6] } else { &[] };
                    let b = [&[1], &b[..], tail].concat();
                    let big = b.len() > 20_000 || bs[0].len() > 20_000;
                    let ops = if big { ctx.by_tier(2, 3) } else { ctx.by_tier(3, 4) };
                    run(ctx, &types, outer, x, &b, ops, 1, 100_000);
                }
                ctx.outcome("long");
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C06",
        states_are: "states: distinct (container type, bytes, operation sequence); transitions: operations and visitor callbacks; traces: complete decodes in which every operation's result and every accessor was compared with the model cursor",
        bounds: |t| match t {
            Tier::Quick => "containers of 0..18 items of 6 element types, and variants and compact wrappers; operations decode (2 ways), failing decode (early, late), iterate, skip, convert to tuple: all sequences up to length 5 on the default bytes, 3 on bytes with one deviation (valid or malformed) and on truncations; sequences of 3 (2) on containers of up to 257 (65537) items, whole, cut short, and with a malformed item".into(),
            Tier::Thorough => "11 element types; sequences up to length 6 and 4; long containers in more lengths with sequences of 4 (3)".into(),
        },
        assumptions: &["after a composite or tuple gave up at a failed item its undecoded bytes are unspecified until it is skipped"],
        require: &["well-formed", "malformed", "long"],
        body,
    })
}

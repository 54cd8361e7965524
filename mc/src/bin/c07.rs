//! C07: iterated items can be decoded later, repeatedly, with the same result.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::shapes::*;
use mc::targets::*;
use mc::ty::*;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, DecodeAsTypeResult, TypeIdFor, Unexpected, Visitor};
use scale_decode::{DecodeAsType, IntoVisitor};
mc::use_target_types!();

macro_rules! containers {
    ($self:ident, $h:ident => $e:expr) => {
        fn visit_sequence<'scale, 'resolver>($self, $h: &mut Sequence<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            $e
        }
        fn visit_array<'scale, 'resolver>($self, $h: &mut Array<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            $e
        }
        fn visit_tuple<'scale, 'resolver>($self, $h: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            $e
        }
        fn visit_composite<'scale, 'resolver>($self, $h: &mut Composite<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            $e
        }
        fn visit_variant<'scale, 'resolver>($self, v: &mut Variant<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            let $h = v.fields();
            $e
        }
        fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Err(VErr::Bad(format!("unexpected {u}")))
        }
    };
}

/// Hands out all items up to the first that fails.
struct Collect;
impl Visitor for Collect {
    type Value<'scale, 'resolver> = (Vec<Item<'scale, 'resolver, Types>>, bool);
    type Error = VErr;
    type TypeResolver = Types;
    containers!(self, h => Ok(collect(h)));
}
fn collect<'s, 'r, H: Handle<'s, 'r, Types>>(h: &mut H) -> (Vec<Item<'s, 'r, Types>>, bool) {
    let mut v = vec![];
    while let Some(r) = h.next_item() {
        match r {
            Ok(i) => v.push(i),
            Err(_) => return (v, true),
        }
    }
    (v, false)
}
/// Wraps `Collect` so that failing to leave the container does not lose the items.
struct Keep<'k>(&'k std::cell::Cell<bool>);
impl<'k> Visitor for Keep<'k> {
    type Value<'scale, 'resolver> = Vec<Item<'scale, 'resolver, Types>>;
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_tuple<'scale, 'resolver>(self, t: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        // the frame is (number, container, number)
        let _ = t.next();
        let (v, failed) = t.decode_item(Collect).unwrap()?;
        self.0.set(failed);
        Ok(v)
    }
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Bad(format!("unexpected {u}")))
    }
}

/// Decodes the item at a position in place, after passing over those before it, and keeps what it got even
/// if the container then cannot be left.
struct Place<'k, T>(usize, &'k std::cell::RefCell<Option<OutR>>, PhantomData<T>);
impl<'k, T: Tg + IntoVisitor> Visitor for Place<'k, T> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    containers!(self, h => place::<_, T>(h, self.0, self.1));
}
fn place<'s, 'r, H: Handle<'s, 'r, Types>, T: Tg + IntoVisitor>(h: &mut H, i: usize, keep: &std::cell::RefCell<Option<OutR>>) -> Result<(), VErr> {
    for _ in 0..i {
        match h.next_item() {
            Some(Ok(_)) => {}
            _ => return Err(VErr::Bad("item before not handed out".into())),
        }
    }
    match h.item(T::into_visitor::<Types>()) {
        None => Err(VErr::Bad("no such item".into())),
        Some(r) => {
            *keep.borrow_mut() = Some(r.map(|v: T| v.out()).map_err(GotErr::from));
            Ok(())
        }
    }
}
/// The frame around the container.
struct PlaceKeep<'k, T>(usize, &'k std::cell::RefCell<Option<OutR>>, PhantomData<T>);
impl<'k, T: Tg + IntoVisitor> Visitor for PlaceKeep<'k, T> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_tuple<'scale, 'resolver>(self, t: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let _ = t.next();
        t.decode_item(Place::<T>(self.0, self.1, PhantomData)).unwrap()
    }
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Bad(format!("unexpected {u}")))
    }
}

/// A target whose visitor takes over: it tells the type ID and the first `N` bytes and moves past them, unless
/// `FAIL`.
struct Hook<const N: usize, const FAIL: bool>(String);
struct HookV<const N: usize, const FAIL: bool, R>(PhantomData<R>);
impl<const N: usize, const FAIL: bool> IntoVisitor for Hook<N, FAIL> {
    type AnyVisitor<R: scale_type_resolver::TypeResolver> = HookV<N, FAIL, R>;
    fn into_visitor<R: scale_type_resolver::TypeResolver>() -> Self::AnyVisitor<R> {
        HookV(PhantomData)
    }
}
impl<const N: usize, const FAIL: bool, R: scale_type_resolver::TypeResolver> Visitor for HookV<N, FAIL, R> {
    type Value<'scale, 'resolver> = Hook<N, FAIL>;
    type Error = scale_decode::Error;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        input: &mut &'scale [u8],
        type_id: TypeIdFor<Self>,
        _: &'resolver R,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        let Some((a, rest)) = input.split_at_checked(N) else {
            return DecodeAsTypeResult::Decoded(Err(scale_decode::Error::custom_str("too short")));
        };
        let seen = format!("{type_id:?}:{}", hex(a));
        *input = rest;
        DecodeAsTypeResult::Decoded(if FAIL { Err(scale_decode::Error::custom_string(seen)) } else { Ok(Hook(seen)) })
    }
}
impl<const N: usize, const FAIL: bool> Tg for Hook<N, FAIL> {
    fn tgt() -> Tgt {
        Tgt::Phantom
    }
    fn out(self) -> O {
        O::Str(self.0)
    }
}

type OutR = Result<O, GotErr>;
struct ItemT {
    name: &'static str,
    /// Only for items of at least so many bytes.
    min: usize,
    late: fn(&Item<'_, '_, Types>) -> OutR,
    late_visitor: fn(&Item<'_, '_, Types>) -> OutR,
    in_place: fn(&[u8], Tid, &Types, usize) -> Option<OutR>,
}
fn late<T: Tg + DecodeAsType>(i: &Item<'_, '_, Types>) -> OutR {
    i.decode_as_type::<T>().map(|v| v.out()).map_err(GotErr::from)
}
fn late_visitor<T: Tg + IntoVisitor>(i: &Item<'_, '_, Types>) -> OutR {
    i.decode_with_visitor(T::into_visitor::<Types>()).map(|v: T| v.out()).map_err(GotErr::from)
}
fn in_place<T: Tg + IntoVisitor>(b: &[u8], outer: Tid, types: &Types, i: usize) -> Option<OutR> {
    let keep = std::cell::RefCell::new(None);
    let _ = decode_with_visitor(&mut &*b, outer, types, PlaceKeep::<T>(i, &keep, PhantomData));
    keep.into_inner()
}
macro_rules! item_targets {
    ($($t:ty),* $(,)?) => {
        vec![$(ItemT { name: stringify!($t), min: 0, late: late::<$t>, late_visitor: late_visitor::<$t>, in_place: in_place::<$t> }),*]
    };
}
fn item_ts(all: bool) -> Vec<ItemT> {
    let mut v: Vec<ItemT> = item_targets![u8, u64, String, Compact<u32>, Option<String>, (u8, String)];
    let mut hooks: Vec<ItemT> = item_targets![Hook<0, false>, Hook<0, true>, Hook<1, false>, Hook<1, true>, Hook<2, false>];
    for (h, n) in hooks.iter_mut().zip([0, 0, 1, 1, 2]) {
        h.min = n;
    }
    v.extend(hooks);
    if all {
        v.extend::<Vec<ItemT>>(item_targets![u16, i32, NonZeroU8, bool, Bits, Box<u32>, (u32,), (), Vec<u16>, [u16; 2], NewU8, BTreeMap<String, u8>, Ea]);
    }
    v
}

fn same(a: &OutR, b: &OutR) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.kind == b.kind && a.path == b.path,
        _ => false,
    }
}

fn run(ctx: &mut Ctx, types: &Types, outer: Tid, x: Tid, b: &[u8], depth: usize) {
    let Some((decl, items, _, compact)) = layout(types, x, b, 1) else { return };
    let key = |s: &str| format!("{s}:{}:{}", types.show(x), hex(b));
    let whole = refdec(types, outer, b);
    if whole == Err(RErr::Depth) {
        return;
    }
    let good = items.iter().take_while(|i| i.is_some()).count();
    let failed = std::cell::Cell::new(false);
    // the items outlive the decode they came from
    let mut input = b;
    let got = ctx.lib(|| decode_with_visitor(&mut input, outer, types, Keep(&failed)));
    ctx.trace();
    let its = match got {
        Err(Panicked(p)) => {
            ctx.violation(&key("panic"), || format!("iterating panicked: {p}: {}", show_case(types, outer, b)));
            return;
        }
        Ok(Err(e)) => {
            if good == items.len() && whole.is_ok() {
                ctx.violation(&key("iterate"), || format!("iterating failed: {e:?}: {}", show_case(types, outer, b)));
            } else {
                ctx.outcome("malformed");
            }
            return;
        }
        Ok(Ok(v)) => v,
    };
    if its.len() != good {
        // after a malformed item nothing can be said
        ctx.violation(&key("count"), || format!("{} items handed out, {good} are well formed: {}", its.len(), show_case(types, outer, b)));
        return;
    }
    let env = Env::new(types, b, Mode::Items);
    let about = |i: usize, it: &Item<'_, '_, Types>| {
        let n = items[i].as_ref().unwrap();
        let mut bad = None;
        if env.off(it.bytes()) != n.start || it.bytes().len() != n.end - n.start {
            bad = Some(format!("has bytes {}+{}, not {}..{}", env.off(it.bytes()), it.bytes().len(), n.start, n.end));
        } else if *it.type_id() != decl[i].1 {
            bad = Some(format!("has type {}, not {}", it.type_id(), decl[i].1));
        } else if it.name().is_some_and(|n| n != decl[i].0.as_deref()) {
            bad = Some(format!("has name {:?}, not {:?}", it.name(), decl[i].0));
        } else if it.is_compact().is_some_and(|c| c != compact) {
            bad = Some(format!("is_compact is {:?}, not {compact}", it.is_compact()));
        }
        bad
    };
    for (i, it) in its.iter().enumerate() {
        let clone = it.dup();
        let bad = about(i, it).or_else(|| clone.and_then(|c| Some(format!("clone {}", about(i, &c)?))));
        if let Some(m) = bad {
            ctx.violation(&key(&format!("item{i}")), || format!("item {i} {m}: {}", show_case(types, outer, b)));
            return;
        }
    }
    let ts = item_ts(!ctx.quick());
    // what decoding in place gives
    let mut want: Vec<Vec<Option<OutR>>> = vec![];
    for i in 0..its.len() {
        let mut row = vec![];
        for t in &ts {
            if its[i].bytes().len() < t.min {
                row.push(None);
                continue;
            }
            let r = ctx.lib(|| (t.in_place)(b, outer, types, i));
            match r {
                Ok(r) => row.push(r),
                Err(Panicked(p)) => {
                    ctx.violation(&key("panic"), || format!("item {i} into {} panicked: {p}: {}", t.name, show_case(types, outer, b)));
                    return;
                }
            }
        }
        want.push(row);
    }
    let cells = its.len().min(4);
    if cells == 0 {
        ctx.outcome("no-items");
        return;
    }
    // all of the actions once on every item
    for (i, it) in its.iter().enumerate() {
        for (k, t) in ts.iter().enumerate() {
            let Some(w) = &want[i][k] else { continue };
            for (how, f) in [("type", t.late), ("visitor", t.late_visitor)] {
                let r = ctx.lib(|| f(it));
                ctx.trace();
                match r {
                    Ok(r) if same(&r, w) => ctx.outcome(if r.is_ok() { "target-value" } else { "target-error" }),
                    Ok(r) => ctx.violation(&key(&format!("late{i}:{}:{how}", t.name)), || {
                        format!("item {i} into {} by {how}: {r:?}, in place {w:?}: {}", t.name, show_case(types, outer, b))
                    }),
                    Err(Panicked(p)) => ctx.violation(&key("panic"), || format!("item {i} into {} panicked: {p}", t.name)),
                }
            }
        }
    }
    // all sequences of picking an item and doing something with it
    let mut viol = 0;
    let st = explore(0, 0, |ch| {
        // copies made so far; decoding goes to the latest copy
        let mut copies: Vec<Option<Item<'_, '_, Types>>> = (0..cells).map(|_| None).collect();
        let mut log = vec![];
        let mut bad = None;
        for _ in 0..depth {
            let i = ch.free(cells);
            let a = ch.free(5);
            log.push((i, a));
            let it = copies[i].as_ref().unwrap_or(&its[i]);
            let n = items[i].as_ref().unwrap();
            let r = ctx.lib(|| match a {
                0 => match it.decode_with_visitor(LenV::item(&env, it.bytes())) {
                    Ok(v) if n.utf8_ok() => n.diff(&v),
                    Ok(_) => Some("bad string accepted".into()),
                    Err(e) if n.utf8_ok() => Some(format!("visitor failed with {e:?}")),
                    Err(_) => None,
                },
                1 => {
                    let c = it.dup();
                    if let Some(c) = &c {
                        if c.bytes().as_ptr() != it.bytes().as_ptr() || c.bytes().len() != it.bytes().len() {
                            return Some("clone has other bytes".into());
                        }
                        if let Some(m) = about(i, c) {
                            return Some(format!("clone {m}"));
                        }
                    }
                    // into the copies below
                    None
                }
                2 => match it.decode_with_visitor(FailV::<Types>(4, PhantomData)) {
                    Err(VErr::Own(4)) => None,
                    r => Some(format!("failing visitor gave {r:?}")),
                },
                3 | 4 => {
                    let k = (i + a) % ts.len();
                    let Some(w) = &want[i][k] else { return None };
                    let r = if a == 3 { (ts[k].late)(it) } else { (ts[k].late_visitor)(it) };
                    (!same(&r, w)).then(|| format!("into {} gave {r:?}, in place {w:?}", ts[k].name))
                }
                _ => None,
            });
            match r {
                Ok(None) => {}
                Ok(Some(m)) => bad = Some(m),
                Err(Panicked(p)) => bad = Some(format!("panicked: {p}")),
            }
            if a == 1 {
                if let Some(c) = copies[i].as_ref().unwrap_or(&its[i]).dup() {
                    copies[i] = Some(c);
                }
            }
            if let Some(m) = &bad {
                viol += 1;
                ctx.violation(&key(&format!("{log:?}")), || format!("item {i} after {log:?}: {m}: {}", show_case(types, outer, b)));
                break;
            }
        }
        if bad.is_none() {
            ctx.outcome("sequence");
        } else if viol > 1 {
            ch.stop();
        }
        ctx.trace();
        ctx.state(&(x, b, &log));
    });
    ctx.nodes(st);
}

fn body(ctx: &mut Ctx) {
    let mut types = Types::new();
    let xs = shapes(&mut types, true);
    for x in xs {
        let mut types = types.clone();
        let (u8_, u16_) = (types.u8(), types.u16());
        let outer = types.add_fresh(mc::ty::Def::Tup(vec![u8_, x, u16_]));
        ctx.case(
            || format!("items of {}", types.show(x)),
            |ctx| {
                let types = &types;
                let opts = GenOpts { invalid: true, rich: !ctx.quick(), huge: false, long: false, max_depth: 8 };
                let mut all = traces(ctx, types, outer, opts, ctx.by_tier(1, 2), ctx.by_tier(5_000, 3_000));
                let mut seen: std::collections::HashSet<Vec<u8>> = all.iter().cloned().collect();
                for c in 1..all[0].len() {
                    let b = all[0][..c].to_vec();
                    if seen.insert(b.clone()) {
                        all.push(b);
                    }
                }
                for (i, b) in all.iter().enumerate() {
                    let depth = if i == 0 { ctx.by_tier(3, 4) } else { ctx.by_tier(1, 2) };
                    run(ctx, types, outer, x, b, depth);
                }
                ctx.sample(|| format!("{}: {} byte strings", types.show(x), all.len()));
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C07",
        states_are: "states: distinct (container type, bytes, sequence of decodes of items); transitions: library calls; traces: item decodes compared with the reference and with decoding in place",
        bounds: |t| match t {
            Tier::Quick => "containers of 0..18 items of 11 element types, variants and compact wrappers; one deviation from default bytes, malformed items included; every item into 11 targets (5 of which take over the decode, succeeding or failing after 0 to 2 bytes) by type and by visitor; every sequence of 3 (default bytes) or 1 actions on up to 4 items: decode by visitor, by failing visitor, into targets, clone".into(),
            Tier::Thorough => "as quick with 24 targets, two deviations (up to 3000 byte strings per container), sequences of 4 and 2".into(),
        },
        assumptions: &["tuple items cannot be cloned; only items before a malformed one are compared"],
        require: &["sequence", "target-value", "target-error", "malformed"],
        body,
    })
}

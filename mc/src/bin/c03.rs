//! C03: whatever a visitor leaves undecoded is skipped.
use mc::big::*;
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, TypeIdFor, Visitor};
use std::cell::Cell;
use std::marker::PhantomData;

/// A visitor whose way of reading every value is decided by the chooser.
struct Lazy<'e> {
    ch: &'e Chooser,
    steps: &'e Cell<u64>,
    /// Where the whole input starts.
    base: usize,
    /// Inside an item in the middle of a long container: no decisions.
    quiet: bool,
}
impl<'e> Clone for Lazy<'e> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'e> Copy for Lazy<'e> {}

fn skipped() -> Node {
    Node { tid: UNK, start: UNK, end: UNK, compact: false, croot: false, k: K::Skipped }
}

impl<'e> Lazy<'e> {
    fn node(&self, id: Tid, start: usize, end: usize, k: K) -> Node {
        self.steps.set(self.steps.get() + 1);
        Node { tid: id, start, end, compact: false, croot: false, k }
    }
    fn choose(&self, n: usize) -> usize {
        if self.quiet {
            0
        } else {
            self.ch.choose(n)
        }
    }
    fn off(&self, b: &[u8]) -> usize {
        b.as_ptr() as usize - self.base
    }
    /// Read a container some way or other; what was not read is `Skipped`.
    fn container<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H) -> Result<Vec<Node>, VErr> {
        let total = h.remaining();
        let mut out: Vec<Node> = vec![];
        let bad = |s: String| Err(VErr::Bad(s));
        // long containers: choices only for the first and last items
        loop {
            let i = out.len();
            if i >= total {
                // operations past the end do nothing
                match self.choose(3) {
                    1 => {
                        if h.item(*self).is_some() {
                            return bad("an item beyond the end".into());
                        }
                    }
                    2 => {
                        if let Err(e) = h.skip() {
                            return bad(format!("skipping nothing failed: {e}"));
                        }
                    }
                    _ => {}
                }
                break;
            }
            let n = if H::STOPS { 8 } else { 7 };
            let edge = i < 3 || i + 1 >= total;
            // also where an inline buffer may end
            let op = if edge || (total < 70 && [16, 32, 64].contains(&i)) { self.choose(n) } else { 0 };
            match op {
                0 => match h.item(Lazy { quiet: self.quiet || !edge, ..*self }) {
                    Some(r) => out.push(r?),
                    None => return bad(format!("no item {i} of {total}")),
                },
                // leave the rest
                1 => break,
                // iterate without decoding the item
                2 => match h.next_item() {
                    Some(Ok(_)) => out.push(skipped()),
                    Some(Err(e)) => return bad(format!("iterating item {i} of {total} failed: {e}")),
                    None => return bad(format!("iteration ended at item {i} of {total}")),
                },
                // iterate and decode the item
                3 => match h.next_item() {
                    Some(Ok(it)) => out.push(it.decode_with_visitor(*self)?),
                    Some(Err(e)) => return bad(format!("iterating item {i} of {total} failed: {e}")),
                    None => return bad(format!("iteration ended at item {i} of {total}")),
                },
                // skip the rest
                4 => {
                    if let Err(e) = h.skip() {
                        return bad(format!("skipping failed: {e}"));
                    }
                    break;
                }
                // an item fails, the visitor does not care
                5 => match h.item(FailV(9, PhantomData)) {
                    Some(Err(VErr::Own(9))) => {
                        out.push(skipped());
                        if H::STOPS {
                            break;
                        }
                    }
                    Some(Err(e)) => return bad(format!("item {i} failed with {e:?} rather than the visitor's error")),
                    Some(Ok(())) => return bad(format!("item {i} did not fail")),
                    None => return bad(format!("no item {i} of {total}")),
                },
                // an item fails after reading part of itself
                6 => {
                    match h.item(Partial(*self)) {
                        Some(Err(VErr::Own(8))) => {}
                        r => return bad(format!("item {i} gave {r:?} rather than the visitor's error")),
                    }
                    out.push(skipped());
                    if H::STOPS {
                        break;
                    }
                }
                // a failed item, then asked for more, then skipped
                _ => {
                    let _ = h.item(FailV(9, PhantomData));
                    let _ = h.item(*self);
                    if let Err(e) = h.skip() {
                        return bad(format!("skipping after a failed item failed: {e}"));
                    }
                    break;
                }
            }
        }
        while out.len() < total {
            out.push(skipped());
        }
        Ok(out)
    }
    fn fields<'s, 'r>(&self, c: &mut Composite<'s, 'r, Types>) -> Result<Vec<(Option<String>, Node)>, VErr> {
        let names: Vec<Option<String>> = c.fields().iter().map(|f| f.name.map(|s| s.to_string())).collect();
        let v = if self.choose(2) == 1 {
            let mut t = c.as_tuple();
            self.container(&mut t)?
        } else {
            self.container(c)?
        };
        Ok(names.into_iter().zip(v).collect())
    }
}

/// Reads what it is given in some way and then fails.
struct Partial<'e>(Lazy<'e>);
macro_rules! partial {
    ($($f:ident($t:ty);)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            let _ = self.0.$f(v, id)?;
            Err(VErr::Own(8))
        })*
    };
}
impl<'e> Visitor for Partial<'e> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    partial! {
        visit_str(&mut Str<'scale>); visit_bitsequence(&mut BitSequence<'scale>);
        visit_sequence(&mut Sequence<'scale, 'resolver, Types>); visit_array(&mut Array<'scale, 'resolver, Types>);
        visit_tuple(&mut Tuple<'scale, 'resolver, Types>); visit_composite(&mut Composite<'scale, 'resolver, Types>);
        visit_variant(&mut Variant<'scale, 'resolver, Types>);
    }
    fn visit_unexpected<'scale, 'resolver>(self, _: scale_decode::visitor::Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Own(8))
    }
}

macro_rules! prims {
    ($($f:ident: $t:ty => |$v:ident| $e:expr;)*) => {
        $(fn $f<'scale, 'resolver>(self, $v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Ok(self.node(id, UNK, UNK, $e))
        })*
    };
}
impl<'e> Visitor for Lazy<'e> {
    type Value<'scale, 'resolver> = Node;
    type Error = VErr;
    type TypeResolver = Types;
    prims! {
        visit_bool: bool => |v| K::Bool(v);
        visit_char: char => |v| K::Char(v);
        visit_u8: u8 => |v| K::U(8, v as u128);
        visit_u16: u16 => |v| K::U(16, v as u128);
        visit_u32: u32 => |v| K::U(32, v as u128);
        visit_u64: u64 => |v| K::U(64, v as u128);
        visit_u128: u128 => |v| K::U(128, v);
        visit_i8: i8 => |v| K::I(8, v as i128);
        visit_i16: i16 => |v| K::I(16, v as i128);
        visit_i32: i32 => |v| K::I(32, v as i128);
        visit_i64: i64 => |v| K::I(64, v as i128);
        visit_i128: i128 => |v| K::I(128, v);
    }
    fn visit_u256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(self.node(id, UNK, UNK, K::U256(*v)))
    }
    fn visit_i256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(self.node(id, UNK, UNK, K::I256(*v)))
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(s.bytes_from_start());
        Ok(match self.choose(5) {
            0 => {
                let t = s.as_str()?.to_string();
                self.node(id, start, UNK, K::Str { text: Some(t), data: UNK })
            }
            1 => skipped(),
            2 => {
                s.bytes_after()?;
                skipped()
            }
            3 => {
                let _ = (s.len(), s.is_empty());
                skipped()
            }
            _ => {
                let a = s.as_str()?.to_string();
                s.bytes_after()?;
                let b = s.as_str()?.to_string();
                if a != b {
                    return Err(VErr::Bad("string read twice differs".into()));
                }
                self.node(id, start, UNK, K::Str { text: Some(b), data: UNK })
            }
        })
    }
    fn visit_bitsequence<'scale, 'resolver>(self, b: &mut BitSequence<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(b.bytes_from_start());
        let op = self.choose(6);
        Ok(match op {
            0 | 5 => {
                if op == 5 {
                    b.bytes_after()?;
                }
                let bits = b.decode()?.collect::<Result<Vec<bool>, _>>().map_err(|e| VErr::D(e.into()))?;
                self.node(id, start, UNK, K::Bits(bits))
            }
            1 => skipped(),
            2 => {
                b.bytes_after()?;
                skipped()
            }
            3 => {
                // a decoder that is never used
                b.decode()?;
                skipped()
            }
            _ => {
                // one bit only
                let _ = b.decode()?.next();
                skipped()
            }
        })
    }
    fn visit_sequence<'scale, 'resolver>(self, s: &mut Sequence<'scale, 'resolver, Types>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(s.bytes_from_start());
        let v = self.container(s)?;
        Ok(self.node(id, start, UNK, K::Seq(v)))
    }
    fn visit_array<'scale, 'resolver>(self, s: &mut Array<'scale, 'resolver, Types>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(s.bytes_from_start());
        let v = self.container(s)?;
        Ok(self.node(id, start, UNK, K::Arr(v)))
    }
    fn visit_tuple<'scale, 'resolver>(self, s: &mut Tuple<'scale, 'resolver, Types>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(s.bytes_from_start());
        let v = self.container(s)?;
        Ok(self.node(id, start, UNK, K::Tup(v)))
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, Types>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(c.bytes_from_start());
        let path: Vec<String> = c.path().map(|s| s.to_string()).collect();
        let fields = self.fields(c)?;
        Ok(self.node(id, start, UNK, K::Comp { path, fields }))
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Types>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.off(v.bytes_from_start());
        let (name, index) = (v.name().to_string(), v.index());
        let fields = match self.choose(3) {
            1 => {
                if let Err(e) = v.skip_decoding() {
                    return Err(VErr::Bad(format!("skipping a variant failed: {e}")));
                }
                return Ok(skipped());
            }
            2 => return Ok(skipped()),
            _ => self.fields(v.fields())?,
        };
        Ok(self.node(id, start, UNK, K::Var { name, index, fields }))
    }
}

fn explore_value(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], n: &Node, dev: usize, cap: u64) {
    let key = |script: &[u32]| format!("{}:{}:{script:?}", types.show(t), hex(b));
    let mut viol = 0;
    let st = explore(dev, cap, |ch| {
        // trailing bytes must not be taken either
        let steps = Cell::new(0);
        let mut full = b.to_vec();
        full.extend_from_slice(&[7, 1, 2]);
        let mut input = &full[..];
        let v = Lazy { ch, steps: &steps, base: full.as_ptr() as usize, quiet: false };
        let r = ctx.lib(|| decode_with_visitor(&mut input, t, types, v));
        ctx.trace();
        ctx.transitions(steps.get());
        ctx.state(&(t, b, ch.script()));
        let bad = match r {
            Err(Panicked(p)) => Some(format!("panicked: {p}")),
            Ok(Err(e)) => Some(format!("failed with {e:?}")),
            Ok(Ok(o)) => n.diff(&o).or_else(|| {
                (suffix(&full, input) != Some(n.end))
                    .then(|| format!("input left at {:?}, value ends at {}", suffix(&full, input), n.end))
            }),
        };
        match bad {
            Some(d) => {
                viol += 1;
                if viol > 1 {
                    ch.stop();
                }
                let s = ch.script();
                ctx.violation(&key(&s), || format!("visitor choices {s:?}: {d}: {}", show_case(types, t, b)));
            }
            None => {
                let partial = ch.script().iter().any(|c| *c != 0);
                ctx.outcome(if partial { "partly-read" } else { "fully-read" });
            }
        }
    });
    ctx.nodes(st);
}

fn body(ctx: &mut Ctx) {
    let uni = universe(ctx.by_tier(2, 3));
    let deep: std::collections::HashSet<String> =
        { let u = universe(1); u.roots.iter().map(|t| u.types.show(*t)).collect() };
    let types = &uni.types;
    for &t in &uni.roots {
        ctx.case(
            || format!("values of {}", types.show(t)),
            |ctx| {
                let vals = valid_traces(ctx, types, t, GenOpts { max_depth: 6, ..GenOpts::VALID }, 1, 2_000);
                for (i, (b, n)) in vals.iter().enumerate() {
                    // the default value in depth, the others with fewer deviations
                    let more = !ctx.quick() && deep.contains(&types.show(t));
                    let dev = if i == 0 { 2 } else { 1 } + more as usize;
                    explore_value(ctx, types, t, b, n, dev, ctx.by_tier(400_000, 3_000_000));
                }
                ctx.sample(|| format!("{}: {} values", types.show(t), vals.len()));
            },
        );
    }
    // many items, long strings and bit sequences
    big_values(ctx, "skip", &ctx.by_tier(vec![17, 33, 65, 129], LENS.to_vec()), ctx.by_tier(&[40, 130][..], &[40, 70, 130, 257][..]), false, ctx.by_tier(3, 5), &|ctx, types, t, b, r| {
        if let Ok(n) = r {
            explore_value(ctx, types, t, b, n, 1, 100_000);
        }
    });
    // a value, then its siblings, in every kind of container
    let base = universe(1);
    let mut types = base.types.clone();
    let mut pairs = vec![];
    for &t in &base.roots {
        let (a, b) = (types.u16(), types.str());
        pairs.push(types.tup(&[a, t, b]));
        pairs.push(types.comp(&["P"], &[("x", t), ("y", t)]));
    }
    for t in pairs {
        let types = &types;
        ctx.case(
            || format!("siblings {}", types.show(t)),
            |ctx| {
                let vals = valid_traces(ctx, types, t, GenOpts { max_depth: 6, ..GenOpts::VALID }, 0, 10);
                for (b, n) in &vals {
                    explore_value(ctx, types, t, b, n, ctx.by_tier(2, 3), ctx.by_tier(400_000, 3_000_000));
                }
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C03",
        states_are: "states: distinct (type, bytes, visitor decision sequence); transitions: visitor callbacks and library calls; traces: complete decodes whose result and final position were compared with the reference decoder",
        bounds: |t| match t {
            Tier::Quick => "types as C01 quick; values with <=1 deviation; visitors that read everything except for up to 2 decisions (1 for non-default values) to stop, iterate, skip, ignore a failing item, convert to a tuple, leave a string or bit sequence; long containers: decisions at the first 3 and last items; containers of 17..129 items (3 kinds up to 65537, 1025 fields) of fixed and varying sizes and strings and bit sequences of up to 65537, with one decision".into(),
            Tier::Thorough => "also types nested three deep; 17 lengths of long containers; up to 3 decisions (2 for non-default values) for leaves, constructors over leaves and corner shapes, and for siblings".into(),
        },
        assumptions: &["the reference decoder mc/src/refdec.rs states where a value ends"],
        require: &["partly-read", "fully-read"],
        body,
    })
}

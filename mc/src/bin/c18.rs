//! C18: visitors can take over decoding, and adapters add nothing of their own.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::error::ErrorKind;
use scale_decode::ext::scale_type_resolver::TypeResolver;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{
    decode_with_visitor, DecodeAsTypeResult, DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::{DecodeAsType, Error, IntoVisitor};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

/// What the hook does with the value it is offered.
const HOOK: usize = 8;
const MAX_STEPS: u64 = 4_000;
const ENOUGH: u32 = 999_999;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Wrap {
    No,
    Top,
    TopTwice,
    Items,
}
const WRAPS: [Wrap; 4] = [Wrap::No, Wrap::Top, Wrap::TopTwice, Wrap::Items];

fn dec<'a>(types: &'a Types, b: &'a [u8]) -> Dec<'a> {
    let mut d = Dec::new(types, b);
    d.max_empty = 300;
    d
}

/// Hook calls: type ID, position and bytes left.
type Log = Vec<(Tid, usize, usize)>;

/// One run of the decision script, by the real visitor or by the model.
struct Sh<'e> {
    types: &'e Types,
    b: &'e [u8],
    mode: Mode,
    wrap: Wrap,
    pick: &'e dyn Fn(usize) -> usize,
    log: RefCell<Log>,
    next: Cell<u32>,
    steps: Cell<u64>,
    empties: bool,
}
/// Sequences of values that have no bytes?
fn has_empties(types: &Types, t: Tid) -> bool {
    types.show(t).contains("[()]")
}
impl<'e> Sh<'e> {
    fn new(types: &'e Types, b: &'e [u8], mode: Mode, wrap: Wrap, pick: &'e dyn Fn(usize) -> usize, empties: bool) -> Self {
        Sh { types, b, mode, wrap, pick, log: Default::default(), next: Cell::new(0), steps: Cell::new(0), empties }
    }
    fn own(&self) -> VErr {
        self.next.set(self.next.get() + 1);
        VErr::Own(self.next.get())
    }
    /// The hook's answer for the value at `b[pos..]` (`left` bytes of it): bytes taken and, if it takes over, the result.
    fn hook(&self, t: Tid, pos: usize, left: usize, compact: bool) -> (usize, Option<Result<String, VErr>>) {
        self.steps.set(self.steps.get() + 1);
        self.log.borrow_mut().push((t, pos, left));
        let exact = || {
            let r = dec(self.types, &self.b[pos..pos + left]).value_in(t, compact);
            r.map(|n| n.end).unwrap_or(left)
        };
        let k = self.log.borrow().len();
        let took = |n: usize| (n, Some(Ok(format!("taken{k}"))));
        if self.steps.get() > MAX_STEPS {
            return (0, Some(Err(VErr::Own(ENOUGH))));
        }
        match (self.pick)(HOOK) {
            // sequences of values without bytes: a length read from the wrong place may be enormous
            2 | 3 | 6 | 7 if self.empties => (0, None),
            1 => took(exact()),
            2 => took(0),
            3 => took(left.min(1)),
            4 => took(left),
            5 => (exact(), Some(Err(self.own()))),
            6 => (0, Some(Err(self.own()))),
            7 => (left.min(1), None),
            _ => (0, None),
        }
    }
    /// May the visitor method itself fail?
    fn visit(&self) -> Result<(), VErr> {
        match (self.pick)(2) {
            1 => Err(self.own()),
            _ => Ok(()),
        }
    }
}

// ------------------------------------------------------------------ the real visitor

#[derive(Clone, Copy)]
struct HookV<'e> {
    sh: &'e Sh<'e>,
    compact: bool,
}

fn leaf_text(k: K) -> String {
    match k {
        K::Str { text, .. } => format!("{text:?}"),
        k => format!("{k:?}"),
    }
}

impl<'e> HookV<'e> {
    fn inside(&self, compact: bool) -> HookV<'e> {
        HookV { sh: self.sh, compact }
    }
    fn item_of<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H) -> Option<Result<String, VErr>> {
        if self.sh.wrap == Wrap::Items {
            return h.item(VisitorWithCrateError(*self)).map(|r| r.map_err(back));
        }
        h.item(*self)
    }
    fn late<'s, 'r>(&self, it: &Item<'s, 'r, Types>) -> Result<String, VErr> {
        if self.sh.wrap == Wrap::Items {
            return it.decode_with_visitor(VisitorWithCrateError(*self)).map_err(back);
        }
        it.decode_with_visitor(*self)
    }
    fn items<'s, 'r, H: Handle<'s, 'r, Types>>(&self, h: &mut H) -> Result<String, VErr> {
        let mut v = vec![];
        match self.sh.mode {
            Mode::Iter => {
                while let Some(it) = h.next_item() {
                    v.push(self.late(&it?)?);
                }
            }
            Mode::IterLate => {
                let mut its = vec![];
                while let Some(it) = h.next_item() {
                    its.push(it?);
                    if its.len() as u64 > MAX_STEPS {
                        return Err(VErr::Own(ENOUGH));
                    }
                }
                for it in its.iter().rev() {
                    v.push(self.late(it)?);
                }
                v.reverse();
            }
            Mode::Generic => {
                if self.sh.wrap == Wrap::Items {
                    while let Some(r) = scale_decode::visitor::DecodeItemIterator::decode_item(h, VisitorWithCrateError(*self)) {
                        v.push(r.map_err(back)?);
                    }
                } else {
                    while let Some(r) = scale_decode::visitor::DecodeItemIterator::decode_item(h, *self) {
                        v.push(r?);
                    }
                }
            }
            _ => {
                while let Some(r) = self.item_of(h) {
                    v.push(r?);
                }
            }
        }
        Ok(format!("[{}]", v.join(",")))
    }
    fn comp<'s, 'r>(&self, c: &mut Composite<'s, 'r, Types>) -> Result<String, VErr> {
        if self.sh.mode == Mode::AsTuple {
            return self.items(&mut c.as_tuple());
        }
        self.items(c)
    }
}

macro_rules! leaves {
    ($($f:ident: $t:ty => |$v:ident| $e:expr;)*) => {
        $(fn $f<'scale, 'resolver>(self, $v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.sh.visit()?;
            Ok(leaf_text($e))
        })*
    };
}
impl<'e> Visitor for HookV<'e> {
    type Value<'scale, 'resolver> = String;
    type Error = VErr;
    type TypeResolver = Types;
    fn unchecked_decode_as_type<'scale, 'resolver>(
        mut self,
        input: &mut &'scale [u8],
        t: TypeIdFor<Self>,
        _types: &'resolver Types,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        let pos = (input.as_ptr() as usize).wrapping_sub(self.sh.b.as_ptr() as usize);
        if pos + input.len() > self.sh.b.len() {
            return DecodeAsTypeResult::Decoded(Err(VErr::Bad("the hook was given bytes from elsewhere".into())));
        }
        let (n, r) = self.sh.hook(t, pos, input.len(), self.compact);
        *input = &input[n..];
        if let Def::Compact(_) = self.sh.types.get(t) {
            self.compact = true;
        }
        match r {
            Some(r) => DecodeAsTypeResult::Decoded(r),
            None => DecodeAsTypeResult::Skipped(self),
        }
    }
    leaves! {
        visit_bool: bool => |v| K::Bool(v);
        visit_char: char => |v| K::Char(v);
        visit_u8: u8 => |v| K::U(8, v as u128);
        visit_u16: u16 => |v| K::U(16, v as u128);
        visit_u32: u32 => |v| K::U(32, v as u128);
        visit_u64: u64 => |v| K::U(64, v as u128);
        visit_u128: u128 => |v| K::U(128, v);
        visit_i8: i8 => |v| K::I(8, v as i128);
        visit_i16: i16 => |v| K::I(16, v as i128);
        visit_i32: i32 => |v| K::I(32, v as i128);
        visit_i64: i64 => |v| K::I(64, v as i128);
        visit_i128: i128 => |v| K::I(128, v);
        visit_str: &mut Str<'scale> => |v| K::Str { text: Some(v.as_str()?.to_string()), data: 0 };
        visit_bitsequence: &mut BitSequence<'scale> => |v| K::Bits(v.decode()?.collect::<Result<_, _>>().map_err(|e| VErr::D(e.into()))?);
    }
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.sh.visit()?;
        Ok(leaf_text(K::U256(*v)))
    }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.sh.visit()?;
        Ok(leaf_text(K::I256(*v)))
    }
    fn visit_sequence<'scale, 'resolver>(self, v: &mut Sequence<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.sh.visit()?;
        Ok("seq".to_string() + &self.inside(false).items(v)?)
    }
    fn visit_array<'scale, 'resolver>(self, v: &mut Array<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.sh.visit()?;
        Ok("arr".to_string() + &self.inside(false).items(v)?)
    }
    fn visit_tuple<'scale, 'resolver>(self, v: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.sh.visit()?;
        Ok("tup".to_string() + &self.items(v)?)
    }
    fn visit_composite<'scale, 'resolver>(self, v: &mut Composite<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.sh.visit()?;
        Ok("comp".to_string() + &self.comp(v)?)
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.sh.visit()?;
        Ok(format!("var{}", v.index()) + &self.inside(false).comp(v.fields())?)
    }
}

// ------------------------------------------------------------------ the model

const D: VErr = VErr::D(DecodeError::NotEnoughInput);

struct Model<'e> {
    sh: Sh<'e>,
    /// Left the explored bounds (values without bytes and enormous lengths).
    outside: bool,
    /// The hook took over the outermost value.
    top_taken: bool,
}
impl<'e> Model<'e> {
    fn dec(&mut self, t: Tid, pos: usize, end: usize, compact: bool) -> Result<Node, VErr> {
        match dec(self.sh.types, &self.sh.b[pos..end]).value_in(t, compact) {
            Ok(n) => Ok(n),
            Err(e) => {
                self.outside |= e == RErr::Depth;
                Err(D)
            }
        }
    }
    fn value(&mut self, mut t: Tid, pos: &mut usize, end: usize, mut compact: bool, top: bool) -> Result<String, VErr> {
        let types: &'e Types = self.sh.types;
        loop {
            let (n, r) = self.sh.hook(t, *pos, end - *pos, compact);
            *pos += n;
            if let Some(r) = r {
                self.top_taken |= top;
                return r;
            }
            match types.get(t) {
                Def::Compact(i) => {
                    t = *i;
                    compact = true;
                }
                _ => break,
            }
        }
        match types.get(t) {
            Def::NotFound | Def::Fail(_) | Def::Compact(_) => Err(D),
            Def::Prim(_) => {
                let n = self.dec(t, *pos, end, compact)?;
                *pos += n.end;
                self.sh.visit()?;
                if !n.utf8_ok() {
                    return Err(D);
                }
                Ok(leaf_text(n.k))
            }
            Def::Comp { fields, .. } => {
                if compact && fields.len() != 1 {
                    return Err(D);
                }
                self.sh.visit()?;
                let ts: Vec<Tid> = fields.iter().map(|f| f.1).collect();
                Ok("comp".to_string() + &self.fields(&ts, pos, end, compact)?)
            }
            Def::Tup(ts) => {
                if compact && ts.len() != 1 {
                    return Err(D);
                }
                self.sh.visit()?;
                Ok("tup".to_string() + &self.items(ts, pos, end, compact)?)
            }
            _ if compact => Err(D),
            Def::Var { vars, .. } => {
                let Some(i) = self.sh.b[*pos..end].first().copied() else { return Err(D) };
                let Some(v) = vars.iter().find(|v| v.index == i) else { return Err(D) };
                *pos += 1;
                self.sh.visit()?;
                let ts: Vec<Tid> = v.fields.iter().map(|f| f.1).collect();
                Ok(format!("var{i}") + &self.fields(&ts, pos, end, false)?)
            }
            Def::Seq(e) => {
                let mut d = Dec::new(types, &self.sh.b[*pos..end]);
                let n = d.compact(64).map_err(|_| D)?;
                *pos += d.pos;
                let n = self.long(*e, n);
                self.sh.visit()?;
                Ok("seq".to_string() + &self.items(&vec![*e; n], pos, end, false)?)
            }
            Def::Arr(e, n) => {
                let n = self.long(*e, *n as u128);
                self.sh.visit()?;
                Ok("arr".to_string() + &self.items(&vec![*e; n], pos, end, false)?)
            }
            Def::Bits(..) => {
                self.sh.visit()?;
                let n = self.dec(t, *pos, end, false)?;
                *pos += n.end;
                Ok(leaf_text(n.k))
            }
        }
    }
    fn long(&mut self, _e: Tid, n: u128) -> usize {
        // more items than this cannot all be there unless they have no bytes
        if n > 2 * self.sh.b.len() as u128 + 300 {
            self.outside = true;
            return 0;
        }
        n as usize
    }
    fn fields(&mut self, ts: &[Tid], pos: &mut usize, end: usize, compact: bool) -> Result<String, VErr> {
        if self.sh.mode == Mode::AsTuple {
            // the tuple has a cursor of its own: the fields themselves are skipped in the end
            let mut p = *pos;
            let s = self.in_place(ts, &mut p, end, compact)?;
            for t in ts {
                *pos += self.dec(*t, *pos, end, compact)?.end;
            }
            return Ok(s);
        }
        self.items(ts, pos, end, compact)
    }
    fn in_place(&mut self, ts: &[Tid], pos: &mut usize, end: usize, compact: bool) -> Result<String, VErr> {
        let mut v = vec![];
        for t in ts {
            v.push(self.value(*t, pos, end, compact, false)?);
        }
        Ok(format!("[{}]", v.join(",")))
    }
    fn items(&mut self, ts: &[Tid], pos: &mut usize, end: usize, compact: bool) -> Result<String, VErr> {
        let mut v = vec![];
        match self.sh.mode {
            Mode::Iter => {
                for t in ts {
                    let e = *pos + self.dec(*t, *pos, end, compact)?.end;
                    let mut p = *pos;
                    v.push(self.value(*t, &mut p, e, compact, false)?);
                    *pos = e;
                }
            }
            Mode::IterLate => {
                let mut its = vec![];
                for t in ts {
                    let e = *pos + self.dec(*t, *pos, end, compact)?.end;
                    its.push((*t, *pos, e));
                    *pos = e;
                }
                for (t, mut p, e) in its.into_iter().rev() {
                    v.push(self.value(t, &mut p, e, compact, false)?);
                }
                v.reverse();
            }
            _ => return self.in_place(ts, pos, end, compact),
        }
        Ok(format!("[{}]", v.join(",")))
    }
}

fn same(a: &Result<String, VErr>, b: &Result<String, VErr>) -> bool {
    match (a, b) {
        (Err(VErr::D(_)), Err(VErr::D(_))) => true,
        (a, b) => a == b,
    }
}

fn hooks(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], dev: usize, cap: u64, wraps: &[Wrap]) {
    let mut viol = 0;
    let empties = has_empties(types, t);
    for mode in MODES {
        let st = explore(dev, cap, |ch| {
            let pick = |n: usize| ch.choose(n);
            let mut m = Model { sh: Sh::new(types, b, mode, Wrap::No, &pick, empties), outside: false, top_taken: false };
            let mut end = 0;
            let want = m.value(t, &mut end, b.len(), false, true);
            if m.outside || want == Err(VErr::Own(ENOUGH)) {
                return;
            }
            let (top_taken, want_log) = (m.top_taken, m.sh.log.take());
            let script = ch.script();
            ctx.state(&(t, b, mode as u8, &script));
            let mut first: Option<Result<String, VErr>> = None;
            for &wrap in wraps {
                let at = Cell::new(0);
                let replay = |n: usize| {
                    let i = at.get();
                    at.set(i + 1);
                    let c = script.get(i).copied().unwrap_or(0) as usize;
                    if c < n { c } else { 0 }
                };
                let sh = Sh::new(types, b, mode, wrap, &replay, empties);
                let v = HookV { sh: &sh, compact: false };
                let mut input = b;
                let r = ctx.lib(|| match wrap {
                    Wrap::No | Wrap::Items => decode_with_visitor(&mut input, t, types, v),
                    Wrap::Top => decode_with_visitor(&mut input, t, types, VisitorWithCrateError(v)).map_err(back),
                    Wrap::TopTwice => {
                        decode_with_visitor(&mut input, t, types, VisitorWithCrateError(VisitorWithCrateError(v))).map_err(back)
                    }
                });
                ctx.trace();
                ctx.transitions(sh.steps.get());
                let pos = suffix(b, input);
                let bad = match r {
                    Err(Panicked(p)) => Some(format!("panicked: {p}")),
                    Ok(got) => {
                        let d = if !same(&got, &want) {
                            Some(format!("result {got:?}, expected {want:?}"))
                        } else if *sh.log.borrow() != want_log {
                            Some(format!("hook calls (type, position, bytes left) {:?}, expected {want_log:?}", sh.log.borrow()))
                        } else if pos.is_none() {
                            Some("the input is no longer a suffix of what it was".into())
                        } else if (got.is_ok() || top_taken) && pos != Some(end) {
                            Some(format!("input left at {pos:?}, expected {end}"))
                        } else if first.as_ref().is_some_and(|f| *f != got) {
                            Some(format!("result {got:?}, without the adapter {first:?}"))
                        } else {
                            None
                        };
                        first.get_or_insert(got);
                        d
                    }
                };
                if let Some(d) = bad {
                    viol += 1;
                    ch.stop();
                    let key = format!("hook:{mode:?}:{wrap:?}:{}:{}:{script:?}", types.show(t), hex(b));
                    ctx.violation(&key, || {
                        format!("reading by {mode:?}, adapter {wrap:?}, choices {script:?}: {d}: {}", show_case(types, t, b))
                    });
                    break;
                }
            }
            ctx.outcome(match &want {
                Ok(_) if top_taken => "taken-over",
                Ok(s) if s.contains("taken") => "part-taken-over",
                Ok(_) => "declined",
                Err(VErr::Own(_)) => "own-error",
                Err(_) => "decode-error",
            });
        });
        ctx.nodes(st);
        if viol > 2 {
            return;
        }
    }
}

// ------------------------------------------------------------------ adapters on catch-all visitors

struct UnexV {
    fail: bool,
}
impl Visitor for UnexV {
    type Value<'scale, 'resolver> = String;
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        if self.fail {
            return Err(VErr::Own(u as u32));
        }
        Ok(format!("{u:?}"))
    }
}
/// Nothing implemented at all.
struct BareV;
impl Visitor for BareV {
    type Value<'scale, 'resolver> = String;
    type Error = DecodeError;
    type TypeResolver = Types;
}
/// Implements one thing only; everything else keeps its default.
struct U16Only;
impl Visitor for U16Only {
    type Value<'scale, 'resolver> = String;
    type Error = DecodeError;
    type TypeResolver = Types;
    fn visit_u16<'scale, 'resolver>(self, v: u16, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(format!("{v}"))
    }
}

fn adapters(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8]) {
    type Run<'x> = Box<dyn Fn(&mut &[u8]) -> Result<String, String> + 'x>;
    fn s<T>(r: Result<T, VErr>) -> Result<T, String> {
        r.map_err(|e| format!("{e:?}"))
    }
    fn d<T>(r: Result<T, DecodeError>) -> Result<T, String> {
        r.map_err(|e| format!("{:?}", VErr::D(e)))
    }
    let run = |f: &'static str| -> Vec<Run<'_>> {
        macro_rules! three {
            ($conv:ident, $v:expr) => {
                vec![
                    Box::new(move |i: &mut &[u8]| $conv(decode_with_visitor(i, t, types, $v))),
                    Box::new(move |i: &mut &[u8]| s(decode_with_visitor(i, t, types, VisitorWithCrateError($v)).map_err(back))),
                    Box::new(move |i: &mut &[u8]| {
                        s(decode_with_visitor(i, t, types, VisitorWithCrateError(VisitorWithCrateError($v))).map_err(back))
                    }),
                ]
            };
        }
        match f {
            "catch-all" => three!(s, UnexV { fail: false }),
            "catch-all failing" => three!(s, UnexV { fail: true }),
            "bare" => three!(d, BareV),
            "one method" => three!(d, U16Only),
            _ => vec![
                Box::new(move |i: &mut &[u8]| d(decode_with_visitor(i, t, types, IgnoreVisitor::new()).map(|_| String::new()))),
                Box::new(move |i: &mut &[u8]| {
                    s(decode_with_visitor(i, t, types, VisitorWithCrateError(IgnoreVisitor::new())).map(|_| String::new()).map_err(back))
                }),
            ],
        }
    };
    // the kind of value that arrives, if reading gets that far
    let kind = refdec(types, t, b).ok().map(|n| n.kind().to_string());
    for f in ["catch-all", "catch-all failing", "bare", "one method", "ignoring"] {
        let mut base: Option<(Result<String, String>, Option<usize>)> = None;
        for r in run(f) {
            let mut input = b;
            let got = ctx.lib(|| r(&mut input));
            ctx.trace();
            let got = match got {
                Ok(g) => (g, suffix(b, input)),
                Err(Panicked(p)) => {
                    ctx.violation(&format!("adapter:{f}:{}:{}", types.show(t), hex(b)), || format!("{f} visitor panicked: {p}: {}", show_case(types, t, b)));
                    return;
                }
            };
            let first = base.is_none();
            let bad = match &base {
                Some(x) if *x != got => Some(format!("{:?}, with the adapter {:?}", x, got)),
                Some(_) => None,
                None => {
                    let k = kind.as_deref();
                    match (f, &got.0) {
                        ("catch-all", Ok(u)) if k.is_some_and(|k| !u.to_lowercase().eq(k)) => Some(format!("announced as {u}, it is a {k:?}")),
                        ("catch-all", Err(e)) if k.is_some() => Some(format!("failed with {e}")),
                        ("ignoring", Err(e)) if k.is_some() => Some(format!("failed with {e}")),
                        ("catch-all failing" | "bare", Ok(v)) => Some(format!("gave {v}")),
                        _ => None,
                    }
                }
            };
            if let Some(m) = bad {
                ctx.violation(&format!("adapter:{f}:{}:{}", types.show(t), hex(b)), || format!("{f} visitor: {m}: {}", show_case(types, t, b)));
                return;
            }
            if first {
                base = Some(got);
            }
        }
        ctx.outcome("adapter-agrees");
    }
}

fn helpers(ctx: &mut Ctx) {
    type Res3 = DecodeAsTypeResult<u8, Result<u16, u32>>;
    let show = |r: DecodeAsTypeResult<u8, Result<u16, u32>>| match r {
        DecodeAsTypeResult::Skipped(s) => format!("skipped {s}"),
        DecodeAsTypeResult::Decoded(d) => format!("decoded {d:?}"),
    };
    let make: [fn() -> Res3; 3] =
        [|| DecodeAsTypeResult::Skipped(3), || DecodeAsTypeResult::Decoded(Ok(5)), || DecodeAsTypeResult::Decoded(Err(7))];
    // all sequences of up to three maps
    for (i, m) in make.iter().enumerate() {
        for ops in 0..27 {
            let (mut r, mut n, mut o) = (m(), 0u32, ops);
            let (mut calls, mut want_calls) = (0, 0);
            let (mut sk, mut de) = (3u8, [Ok(5u16), Ok(5), Err(7u32)][i]);
            while n < 3 {
                match o % 3 {
                    1 => {
                        r = r.map_decoded(|d| {
                            calls += 1;
                            d.map(|x| x + 10).map_err(|x| x + 100)
                        });
                        de = de.map(|x| x + 10).map_err(|x| x + 100);
                        want_calls += (i != 0) as u32;
                    }
                    2 => {
                        r = r.map_skipped(|s| {
                            calls += 1;
                            s + 1
                        });
                        sk += 1;
                        want_calls += (i == 0) as u32;
                    }
                    _ => {}
                }
                o /= 3;
                n += 1;
            }
            let want = if i == 0 { format!("skipped {sk}") } else { format!("decoded {de:?}") };
            let got = show(r);
            ctx.trace();
            ctx.state(&("map", i, ops));
            if got != want || calls != want_calls {
                ctx.violation(&format!("map:{i}:{ops}"), || {
                    format!("mapping result {i} by operations {ops}: {got} with {calls} calls, expected {want} with {want_calls}")
                });
            }
            ctx.outcome("helper-agrees");
        }
    }
}

// ------------------------------------------------------------------ targets whose visitor takes over

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Cu(Vec<u8>);
struct CuV<R>(PhantomData<R>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
    Take(usize),
    Decline,
    Fail(usize),
}
thread_local! {
    /// What to do at which position, used up in order; positions not listed are violations.
    static PLAN: RefCell<Vec<(usize, Act, bool)>> = const { RefCell::new(vec![]) };
    static BASE: Cell<usize> = const { Cell::new(0) };
    static STRAY: RefCell<Option<String>> = const { RefCell::new(None) };
}
impl<R: TypeResolver> Visitor for CuV<R> {
    type Value<'scale, 'resolver> = Cu;
    type Error = Error;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        input: &mut &'scale [u8],
        _: TypeIdFor<Self>,
        _types: &'resolver R,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        let pos = (input.as_ptr() as usize).wrapping_sub(BASE.with(|b| b.get()));
        let act = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let e = p.iter_mut().find(|e| e.0 == pos && !e.2)?;
            e.2 = true;
            Some(e.1)
        });
        let Some(act) = act else {
            STRAY.with(|s| *s.borrow_mut() = Some(format!("the hook ran at position {pos}")));
            return DecodeAsTypeResult::Decoded(Err(Error::custom_str("stray")));
        };
        let mut take = |n: usize| {
            let (a, b) = input.split_at(n.min(input.len()));
            *input = b;
            a.to_vec()
        };
        match act {
            Act::Take(n) => DecodeAsTypeResult::Decoded(Ok(Cu(take(n)))),
            Act::Fail(n) => {
                take(n);
                DecodeAsTypeResult::Decoded(Err(Error::custom_string(format!("failed at {pos}"))))
            }
            Act::Decline => DecodeAsTypeResult::Skipped(self),
        }
    }
    fn visit_u16<'scale, 'resolver>(self, v: u16, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(Cu(vec![0xee, v as u8, (v >> 8) as u8]))
    }
}
impl IntoVisitor for Cu {
    type AnyVisitor<R: TypeResolver> = CuV<R>;
    fn into_visitor<R: TypeResolver>() -> CuV<R> {
        CuV(PhantomData)
    }
}
/// The same through a conversion.
#[derive(Clone, Debug, PartialEq)]
struct ViaErr(Cu);
struct OtherErr(Error);
impl From<DecodeError> for OtherErr {
    fn from(e: DecodeError) -> Self {
        OtherErr(e.into())
    }
}
impl From<OtherErr> for Error {
    fn from(e: OtherErr) -> Self {
        e.0
    }
}
struct ViaErrV<R>(CuV<R>);
impl<R: TypeResolver> Visitor for ViaErrV<R> {
    type Value<'scale, 'resolver> = ViaErr;
    type Error = OtherErr;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        input: &mut &'scale [u8],
        t: TypeIdFor<Self>,
        types: &'resolver R,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        self.0.unchecked_decode_as_type(input, t, types).map_skipped(ViaErrV).map_decoded(|r| r.map(ViaErr).map_err(OtherErr))
    }
    fn visit_u16<'scale, 'resolver>(self, v: u16, t: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.0.visit_u16(v, t).map(ViaErr).map_err(OtherErr)
    }
}
impl IntoVisitor for ViaErr {
    type AnyVisitor<R: TypeResolver> = VisitorWithCrateError<ViaErrV<R>>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        VisitorWithCrateError(ViaErrV(CuV(PhantomData)))
    }
}

#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct SN {
    a: Cu,
    x: u8,
    b: Cu,
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct ST(Cu, u8, Cu);
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct S1(Cu);
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
struct SG<T> {
    a: T,
    b: Box<T>,
}
#[derive(Debug, DecodeAsType)]
#[allow(dead_code)]
enum EN {
    N { a: Cu, b: Cu },
    T(u8, Cu, Cu),
    U,
}

#[derive(Clone)]
enum Seg {
    Raw(Vec<u8>),
    Slot,
}
struct TRow {
    name: &'static str,
    src: fn(&mut Types, Tid) -> Tid,
    layout: Vec<Seg>,
    run: fn(&mut &[u8], Tid, &Types) -> Result<String, Error>,
    want: fn(&[Cu]) -> String,
    /// Fields are looked up by name: parts are read from where their type says they are.
    by_name: bool,
}
fn layout(s: &str) -> Vec<Seg> {
    s.split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| if x == "_" { Seg::Slot } else { Seg::Raw(vec![u8::from_str_radix(x, 16).unwrap()]) })
        .collect()
}
fn rows() -> Vec<TRow> {
    let mut v = vec![];
    macro_rules! row {
        ($by_name:expr, $t:ty, $src:expr, $l:expr, $want:expr) => {
            row!($by_name, $t, $src, $l, |x| x, $want)
        };
        ($by_name:expr, $t:ty, $src:expr, $l:expr, $map:expr, $want:expr) => {
            v.push(TRow {
                name: stringify!($t),
                src: $src,
                layout: layout($l),
                run: |b, t, types| {
                    let f: fn($t) -> _ = $map;
                    <$t as DecodeAsType>::decode_as_type(b, t, types).map(|v| format!("{:?}", f(v)))
                },
                want: |c| {
                    let f: fn(&[Cu]) -> _ = $want;
                    format!("{:?}", f(c))
                },
                by_name: $by_name,
            })
        };
    }
    row!(false, Cu, |_, s| s, "_", |c| c[0].clone());
    row!(false, ViaErr, |_, s| s, "_", |c| ViaErr(c[0].clone()));
    row!(false, Box<Cu>, |_, s| s, "_", |c| c[0].clone());
    row!(false, Rc<Cu>, |_, s| s, "_", |c| c[0].clone());
    row!(false, Arc<Cu>, |_, s| s, "_", |c| c[0].clone());
    row!(false, Cow<'static, Cu>, |_, s| s, "_", |c| c[0].clone());
    row!(false, Box<Arc<Box<ViaErr>>>, |_, s| s, "_", |c| ViaErr(c[0].clone()));
    row!(false, Box<Cu>, |t, s| t.compact(s), "_", |c| c[0].clone());
    row!(false, ViaErr, |t, s| t.compact(s), "_", |c| ViaErr(c[0].clone()));
    row!(false, Vec<Cu>, |t, s| t.seq(s), "0c _ _ _", |c| c.to_vec());
    row!(false, Vec<Cu>, |t, s| t.arr(s, 3), "_ _ _", |c| c.to_vec());
    row!(false, Vec<Cu>, |t, s| { let q = t.seq(s); t.tup(&[q]) }, "08 _ _", |c| c.to_vec());
    row!(false, Vec<Vec<Cu>>, |t, s| { let q = t.seq(s); t.seq(q) }, "08 08 _ _ 04 _", |c| vec![c[..2].to_vec(), c[2..].to_vec()]);
    row!(false, VecDeque<Cu>, |t, s| t.seq(s), "0c _ _ _", |c| c.to_vec());
    row!(false, LinkedList<Cu>, |t, s| t.seq(s), "0c _ _ _", |c| c.to_vec());
    row!(false, BTreeSet<Cu>, |t, s| t.seq(s), "0c _ _ _", |c| c.iter().cloned().collect::<BTreeSet<_>>());
    row!(false, BinaryHeap<Cu>, |t, s| t.seq(s), "0c _ _ _", |x| x.into_sorted_vec(), |c| c.iter().cloned().collect::<BinaryHeap<_>>().into_sorted_vec());
    row!(false, [Cu; 3], |t, s| t.arr(s, 3), "_ _ _", |c| c.to_vec());
    row!(false, [Cu; 3], |t, s| t.seq(s), "0c _ _ _", |c| c.to_vec());
    row!(false, (Cu, Cu), |t, s| t.tup(&[s, s]), "_ _", |c| (c[0].clone(), c[1].clone()));
    row!(false, (Cu, u8, Cu), |t, s| { let u = t.u8(); t.unnamed(&[s, u, s]) }, "_ 07 _", |c| (c[0].clone(), 7, c[1].clone()));
    row!(false, (u8, Cu), |t, s| { let u = t.u8(); t.named(&[("q", u), ("r", s)]) }, "07 _", |c| (7, c[0].clone()));
    row!(false, Option<Cu>, |t, s| t.option(s), "01 _", |c| Some(c[0].clone()));
    row!(false, Result<Cu, u8>, |t, s| { let u = t.u8(); t.result(s, u) }, "00 _", |c| Ok::<_, u8>(c[0].clone()));
    row!(false, Result<u8, Cu>, |t, s| { let u = t.u8(); t.result(u, s) }, "01 _", |c| Err::<u8, _>(c[0].clone()));
    row!(false, Vec<Option<Box<ViaErr>>>, |t, s| { let o = t.option(s); t.seq(o) }, "0c 01 _ 00 01 _", |c| vec![Some(ViaErr(c[0].clone())), None, Some(ViaErr(c[1].clone()))]);
    row!(true, BTreeMap<String, Cu>, |t, s| t.named(&[("k", s), ("b", s)]), "_ _", |c| [("k".to_string(), c[0].clone()), ("b".to_string(), c[1].clone())].into_iter().collect::<BTreeMap<_, _>>());
    row!(true, std::ops::Range<Cu>, |t, s| t.named(&[("start", s), ("end", s)]), "_ _", |c| c[0].clone()..c[1].clone());
    row!(true, SN, |t, s| { let u = t.u8(); t.named(&[("a", s), ("x", u), ("b", s)]) }, "_ 09 _", |c| SN { a: c[0].clone(), x: 9, b: c[1].clone() });
    row!(true, SN, |t, s| { let u = t.u8(); t.named(&[("b", s), ("z", u), ("a", s), ("x", u)]) }, "_ 03 _ 09", |c| SN { a: c[1].clone(), x: 9, b: c[0].clone() });
    row!(true, Vec<SN>, |t, s| { let u = t.u8(); let n = t.named(&[("a", s), ("x", u), ("b", s)]); t.seq(n) }, "08 _ 09 _ _ 08 _", |c| vec![SN { a: c[0].clone(), x: 9, b: c[1].clone() }, SN { a: c[2].clone(), x: 8, b: c[3].clone() }]);
    row!(true, ST, |t, s| { let u = t.u8(); t.tup(&[s, u, s]) }, "_ 09 _", |c| ST(c[0].clone(), 9, c[1].clone()));
    row!(true, S1, |t, s| t.tup(&[s]), "_", |c| S1(c[0].clone()));
    row!(true, SG<Cu>, |t, s| t.named(&[("b", s), ("a", s)]), "_ _", |c| SG { a: c[1].clone(), b: Box::new(c[0].clone()) });
    row!(true, SG<ViaErr>, |t, s| t.named(&[("a", s), ("b", s)]), "_ _", |c| SG { a: ViaErr(c[0].clone()), b: Box::new(ViaErr(c[1].clone())) });
    row!(true, EN, |t, s| t.var(&[("N", 4, &[("a", s), ("b", s)]), ("U", 1, &[])]), "04 _ _", |c| EN::N { a: c[0].clone(), b: c[1].clone() });
    row!(true, EN, |t, s| { let u = t.u8(); t.var(&[("U", 4, &[]), ("T", 1, &[("", u), ("", s), ("", s)])]) }, "01 07 _ _", |c| EN::T(7, c[0].clone(), c[1].clone()));
    row!(true, (u8, EN, u8), |t, s| { let u = t.u8(); let e = t.var(&[("N", 4, &[("a", s), ("b", s)])]); t.tup(&[u, e, u]) }, "01 04 _ _ 02", |c| (1, EN::N { a: c[0].clone(), b: c[1].clone() }, 2));
    v
}

fn taking(ctx: &mut Ctx, r: &TRow) {
    let slots = r.layout.iter().filter(|s| matches!(s, Seg::Slot)).count();
    let acts: &[Act] = if r.by_name {
        &[Act::Take(2), Act::Decline, Act::Fail(0), Act::Fail(2)]
    } else {
        &[Act::Take(2), Act::Decline, Act::Take(0), Act::Take(3), Act::Fail(0), Act::Fail(2)]
    };
    for known in [true, false] {
        // a type nobody can resolve is no obstacle to a visitor that takes over
        if !known && r.by_name {
            continue;
        }
        let mut types = Types::new();
        let s = if known { types.u16() } else { types.notfound() };
        let t = (r.src)(&mut types, s);
        // a compact type and the one inside it are both offered to the hook: declining is explored elsewhere
        let nested = matches!(types.get(t), Def::Compact(_));
        let acts: Vec<Act> = acts.iter().copied().filter(|a| !nested || *a != Act::Decline).collect();
        let st = explore(slots, 0, |ch| {
            let plan: Vec<Act> = (0..slots).map(|_| acts[ch.choose(acts.len())]).collect();
            let (mut b, mut at, mut cus) = (vec![], vec![], vec![]);
            let mut i = 0;
            for seg in &r.layout {
                match seg {
                    Seg::Raw(x) => b.extend_from_slice(x),
                    Seg::Slot => {
                        let bytes: Vec<u8> = (0..4).map(|j| 0x40 + 16 * i as u8 + j).collect();
                        at.push((b.len(), plan[i], false));
                        match plan[i] {
                            Act::Take(n) => {
                                cus.push(Cu(bytes[..n].to_vec()));
                                b.extend_from_slice(&bytes[..n]);
                            }
                            _ => {
                                cus.push(Cu(vec![0xee, bytes[0], bytes[1]]));
                                b.extend_from_slice(&bytes[..2]);
                            }
                        }
                        i += 1;
                    }
                }
            }
            let end = b.len();
            b.extend_from_slice(&[1, 2, 3]);
            // in the order of their positions, which parts fail?
            let fails: Vec<(usize, bool)> = at
                .iter()
                .filter_map(|(p, a, _)| match a {
                    Act::Fail(_) => Some((*p, true)),
                    Act::Decline if !known => Some((*p, false)),
                    _ => None,
                })
                .collect();
            PLAN.with(|p| *p.borrow_mut() = at.clone());
            BASE.with(|x| x.set(b.as_ptr() as usize));
            STRAY.with(|s| *s.borrow_mut() = None);
            let mut input = &b[..];
            let run = r.run;
            let got = ctx.lib(|| run(&mut input, t, &types));
            ctx.trace();
            ctx.state(&(r.name, t, known, ch.script()));
            let stray = STRAY.with(|s| s.borrow_mut().take());
            let missed = PLAN.with(|p| p.borrow().iter().filter(|e| !e.2).count());
            let bad = match got {
                Err(Panicked(p)) => Some(format!("panicked: {p}")),
                Ok(_) if stray.is_some() => stray,
                Ok(Ok(v)) => {
                    if !fails.is_empty() {
                        Some(format!("a part failed, decoding gave {v}"))
                    } else if v != (r.want)(&cus) {
                        Some(format!("gave {v}, expected {}", (r.want)(&cus)))
                    } else if missed > 0 {
                        Some(format!("{missed} parts were decoded without the hook"))
                    } else if suffix(&b, input) != Some(end) {
                        Some(format!("input left at {:?}, expected {end}", suffix(&b, input)))
                    } else {
                        ctx.outcome("target-taken-over");
                        None
                    }
                }
                Ok(Err(e)) => {
                    // the failure of one of the failing parts, unchanged
                    let ok = fails.iter().any(|(p, own)| match e.kind() {
                        ErrorKind::Custom(c) => *own && c.to_string() == format!("failed at {p}"),
                        ErrorKind::VisitorDecodeError(DecodeError::TypeIdNotFound(_)) => !*own,
                        _ => false,
                    });
                    ctx.outcome("target-failed");
                    (!ok).then(|| format!("failed with [{e}], expected {fails:?} to fail"))
                }
            };
            if let Some(d) = bad {
                ch.stop();
                ctx.violation(&format!("target:{}:{}:{plan:?}", r.name, types.show(t)), || {
                    format!("decoding {} from {} with parts {plan:?}: {d}: bytes {}", r.name, types.show(t), hex(&b))
                });
            }
        });
        ctx.nodes(st);
    }
}

fn body(ctx: &mut Ctx) {
    let mut uni = universe(ctx.by_tier(2, 3));
    let shallow: HashSet<String> = { let u = universe(1); u.roots.iter().map(|t| u.types.show(*t)).collect() };
    {
        let t = &mut uni.types;
        let (nf, fl, u) = (t.notfound(), t.failing(), t.u8());
        let mut more = vec![nf, fl];
        for x in [nf, fl] {
            more.extend(ctors(t, x));
            more.push(t.tup(&[u, x, u]));
        }
        more.extend(bad_compact_types(t));
        uni.roots.extend(more);
    }
    let types = &uni.types;
    for &t in &uni.roots {
        ctx.case(
            || format!("hooks on {}", types.show(t)),
            |ctx| {
                let all = traces(ctx, types, t, GenOpts { max_depth: 6, invalid: true, ..GenOpts::VALID }, 1, 2_000);
                let base = shallow.contains(&types.show(t));
                for (i, b) in all.iter().enumerate() {
                    let mut full = b.clone();
                    full.extend_from_slice(&[8, 1, 2]);
                    let size = refdec(types, t, b).map(|n| n.count()).unwrap_or(1);
                    let mut dev = if i == 0 && size <= 12 { 2 } else { 1 };
                    if !ctx.quick() && base && size <= 8 {
                        dev += 1;
                    }
                    let wraps: &[Wrap] = if i < ctx.by_tier(2, 40) { &WRAPS } else { &WRAPS[..1] };
                    if i < ctx.by_tier(6, 60) || b.len() <= 2 {
                        hooks(ctx, types, t, &full, dev, ctx.by_tier(100_000, 1_000_000), wraps);
                    }
                    adapters(ctx, types, t, &full);
                }
                if let Some(b) = all.first() {
                    for c in cuts(b.len()) {
                        hooks(ctx, types, t, &b[..c], 1, 20_000, &WRAPS[..1]);
                        adapters(ctx, types, t, &b[..c]);
                    }
                }
                ctx.sample(|| format!("{}: {} byte traces", types.show(t), all.len()));
            },
        );
    }
    ctx.case(|| "result-mapping helpers".into(), helpers);
    for (i, r) in rows().iter().enumerate() {
        ctx.case(|| format!("target {i} {}", r.name), |ctx| taking(ctx, r));
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C18",
        states_are: "states: distinct (type, bytes, way of reading, answers of the hook and of the visitor) and (target, answers); transitions: library and hook calls; traces: complete decodes whose result, hook calls and final position were compared with the model",
        bounds: |t| match t {
            Tier::Quick => "types as C01 quick, unknown and non-compactable ones; 5 ways of reading containers; hooks declining everywhere except for 2 decisions on the default value of up to 12 nodes (else 1): take over reading exactly the value, nothing, one byte or everything, fail before or after reading, decline after taking a byte, or a failing visitor method; error-converting adapter at the top, twice at the top and around every item; 39 target types with parts that take over, all combinations of answers; all chains of 3 mapping helpers".into(),
            Tier::Thorough => "as quick with types nested three deep, more values per type, one decision more for small values of shallow types".into(),
        },
        assumptions: &[
            "decode errors are compared with the model as a class, between adapters exactly",
            "a Compact type and the type inside it are two levels: the hook is offered both",
        ],
        require: &["taken-over", "part-taken-over", "declined", "own-error", "decode-error", "adapter-agrees", "helper-agrees", "target-taken-over", "target-failed"],
        body,
    })
}

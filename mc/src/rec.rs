//! Recording visitors: turn what the library hands to a visitor into a `Node` tree.
use crate::refdec::{Node, K};
use crate::ty::Res;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeError, DecodeItemIterator, TypeIdFor, Visitor};
use std::marker::PhantomData;

/// Error type of harness visitors.
#[derive(Debug, Clone, PartialEq)]
pub enum VErr {
    D(DecodeError),
    /// An error made by the visitor itself.
    Own(u32),
    /// The harness saw the library misbehave inside a callback.
    Bad(String),
}
impl From<DecodeError> for VErr {
    fn from(e: DecodeError) -> Self {
        VErr::D(e)
    }
}

impl From<VErr> for scale_decode::Error {
    fn from(e: VErr) -> Self {
        match e {
            VErr::D(e) => e.into(),
            VErr::Own(n) => scale_decode::Error::custom_string(format!("own {n}")),
            VErr::Bad(s) => scale_decode::Error::custom_string(format!("bad {s}")),
        }
    }
}
/// Undo the conversion into the crate's error.
pub fn back(e: scale_decode::Error) -> VErr {
    use scale_decode::error::ErrorKind;
    if e.context().path().locations().next().is_some() {
        return VErr::Bad(format!("the error has gained a location: {e}"));
    }
    match e.kind() {
        ErrorKind::VisitorDecodeError(d) => VErr::D(d.clone()),
        ErrorKind::Custom(c) => {
            let s = c.to_string();
            match (s.strip_prefix("own ").and_then(|n| n.parse().ok()), s.strip_prefix("bad ")) {
                (Some(n), _) => VErr::Own(n),
                (_, Some(b)) => VErr::Bad(b.into()),
                _ => VErr::Bad(format!("a custom error from nowhere: {s}")),
            }
        }
        k => VErr::Bad(format!("the kind of the error changed: {k}")),
    }
}

/// How containers are read.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// `decode_item` until it returns nothing.
    Items,
    /// Iterate and decode each item handed out at once.
    Iter,
    /// Collect all iterated items first, then decode them in reverse order.
    IterLate,
    /// Through the `DecodeItemIterator` trait.
    Generic,
    /// Composites and variant fields are converted to tuples first.
    AsTuple,
}
pub const MODES: [Mode; 5] = [Mode::Items, Mode::Iter, Mode::IterLate, Mode::Generic, Mode::AsTuple];

pub struct Env<'e, R> {
    pub res: &'e R,
    pub base: usize,
    pub len: usize,
    pub mode: Mode,
    pub steps: std::cell::Cell<u64>,
}
impl<'e, R> Env<'e, R> {
    pub fn new(res: &'e R, b: &[u8], mode: Mode) -> Self {
        Env { res, base: b.as_ptr() as usize, len: b.len(), mode, steps: Default::default() }
    }
    /// Offset of a slice inside the input.
    pub fn off(&self, s: &[u8]) -> usize {
        let p = s.as_ptr() as usize;
        if p >= self.base && p + s.len() <= self.base + self.len {
            p - self.base
        } else {
            usize::MAX - 1
        }
    }
    /// Offset of a slice that should reach to the end of the input.
    pub fn off_rest(&self, s: &[u8]) -> usize {
        let o = self.off(s);
        if o != usize::MAX - 1 && o + s.len() == self.len {
            o
        } else {
            usize::MAX - 2
        }
    }
    pub fn step(&self) {
        crate::yields::point();
        self.steps.set(self.steps.get() + 1);
    }
}

pub struct RecV<'e, R> {
    pub env: &'e Env<'e, R>,
}
impl<'e, R> Clone for RecV<'e, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'e, R> Copy for RecV<'e, R> {}

pub const UNK: usize = usize::MAX;

impl<'e, R: Res> RecV<'e, R> {
    pub fn leaf(&self, id: R::TypeId, k: K) -> Node {
        self.env.step();
        Node { tid: self.env.res.tid(&id), start: UNK, end: UNK, compact: false, croot: false, k }
    }
    pub fn node(&self, id: &R::TypeId, start: usize, end: usize, k: K) -> Node {
        self.env.step();
        Node { tid: self.env.res.tid(id), start, end, compact: false, croot: false, k }
    }
    fn generic<'scale, 'resolver, D: DecodeItemIterator<'scale, 'resolver, R>>(
        &self,
        d: &mut D,
    ) -> Result<Vec<Node>, VErr> {
        let mut v = vec![];
        while let Some(r) = d.decode_item(*self) {
            v.push(r?);
        }
        Ok(v)
    }
    fn spanned(&self, mut n: Node, bytes: &[u8], tid: usize, what: &str) -> Result<Node, VErr> {
        let s = self.env.off(bytes);
        // the node itself may know where it starts and ends (containers); must agree
        if n.start != UNK && n.start != s {
            return Err(VErr::Bad(format!("{what}: item bytes at {s} but its value starts at {}", n.start)));
        }
        n.start = s;
        n.end = s + bytes.len();
        if tid != n.tid && n.tid != UNK {
            // an item of Compact type reports the Compact ID, its value the inner one
            n.croot = true;
        }
        Ok(n)
    }
    pub fn comp_fields<'scale, 'resolver>(
        &self,
        c: &mut Composite<'scale, 'resolver, R>,
    ) -> Result<(Vec<(Option<String>, Node)>, usize), VErr> {
        let own = |n: Option<&str>| n.map(|s| s.to_string());
        let mut out = vec![];
        match self.env.mode {
            Mode::Items => {
                loop {
                    let name = own(c.peek_name());
                    match c.decode_item(*self) {
                        Some(r) => out.push((name, r?)),
                        None => break,
                    }
                }
                Ok((out, self.env.off_rest(c.bytes_from_undecoded())))
            }
            Mode::Iter => {
                while let Some(f) = c.next() {
                    let f = f?;
                    let n = f.decode_with_visitor(sub(self, f.bytes()))?;
                    out.push((own(f.name()), self.spanned(n, f.bytes(), self.env.res.tid(f.type_id()), "field")?));
                }
                Ok((out, self.env.off_rest(c.bytes_from_undecoded())))
            }
            Mode::IterLate => {
                let fs: Vec<_> = c.by_ref().collect::<Result<_, _>>()?;
                for f in fs.iter().rev() {
                    let f = f.clone();
                    let n = f.decode_with_visitor(sub(self, f.bytes()))?;
                    out.push((own(f.name()), self.spanned(n, f.bytes(), self.env.res.tid(f.type_id()), "field")?));
                }
                out.reverse();
                Ok((out, self.env.off_rest(c.bytes_from_undecoded())))
            }
            Mode::Generic => {
                let names: Vec<_> = c.fields().iter().map(|f| own(f.name)).collect();
                let v = self.generic(c)?;
                if names.len() != v.len() {
                    return Err(VErr::Bad(format!("{} fields listed, {} decoded", names.len(), v.len())));
                }
                Ok((names.into_iter().zip(v).collect(), self.env.off_rest(c.bytes_from_undecoded())))
            }
            Mode::AsTuple => {
                let names: Vec<_> = c.fields().iter().map(|f| own(f.name)).collect();
                let mut t = c.as_tuple();
                let mut v = vec![];
                while let Some(r) = t.decode_item(*self) {
                    v.push(r?);
                }
                if names.len() != v.len() {
                    return Err(VErr::Bad(format!("{} fields listed, {} decoded", names.len(), v.len())));
                }
                Ok((names.into_iter().zip(v).collect(), self.env.off_rest(t.bytes_from_undecoded())))
            }
        }
    }
}

// Items decoded from their own byte range see an input that ends with the item; positions inside are
// still offsets of the whole input, but "rest" slices end earlier. A sub-environment would have to own
// the shorter length, so such nested visitors use lenient position reporting.
fn sub<'e, R: Res>(v: &RecV<'e, R>, _b: &[u8]) -> LenV<'e, R> {
    LenV { env: v.env, len: _b.as_ptr() as usize + _b.len() - v.env.base }
}

/// As `RecV`, but for an input that ends at offset `len` of the whole input.
pub struct LenV<'e, R> {
    env: &'e Env<'e, R>,
    len: usize,
}
impl<'e, R> Clone for LenV<'e, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'e, R> Copy for LenV<'e, R> {}

impl<'e, R: Res> LenV<'e, R> {
    /// For an item with these bytes.
    pub fn item(env: &'e Env<'e, R>, bytes: &[u8]) -> Self {
        sub(&RecV { env }, bytes)
    }
    fn with<T>(&self, f: impl FnOnce(RecV<'_, R>) -> T) -> T {
        let env = Env {
            res: self.env.res,
            base: self.env.base,
            len: self.len,
            mode: self.env.mode,
            steps: Default::default(),
        };
        let r = f(RecV { env: &env });
        self.env.steps.set(self.env.steps.get() + env.steps.get());
        r
    }
}

macro_rules! prims {
    ($($f:ident: $t:ty => |$v:ident| $e:expr;)*) => {
        $(fn $f<'scale, 'resolver>(self, $v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            Ok(self.leaf(id, $e))
        })*
    };
}

impl<'e, R: Res> Visitor for RecV<'e, R> {
    type Value<'scale, 'resolver> = Node;
    type Error = VErr;
    type TypeResolver = R;
    prims! {
        visit_bool: bool => |v| K::Bool(v);
        visit_char: char => |v| K::Char(v);
        visit_u8: u8 => |v| K::U(8, v as u128);
        visit_u16: u16 => |v| K::U(16, v as u128);
        visit_u32: u32 => |v| K::U(32, v as u128);
        visit_u64: u64 => |v| K::U(64, v as u128);
        visit_u128: u128 => |v| K::U(128, v);
        visit_i8: i8 => |v| K::I(8, v as i128);
        visit_i16: i16 => |v| K::I(16, v as i128);
        visit_i32: i32 => |v| K::I(32, v as i128);
        visit_i64: i64 => |v| K::I(64, v as i128);
        visit_i128: i128 => |v| K::I(128, v);
    }
    fn visit_u256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(self.leaf(id, K::U256(*v)))
    }
    fn visit_i256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(self.leaf(id, K::I256(*v)))
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let text = s.as_str()?;
        let start = self.env.off_rest(s.bytes_from_start());
        let end = self.env.off_rest(s.bytes_after()?);
        if s.len() != text.len() || s.is_empty() != text.is_empty() {
            return Err(VErr::Bad(format!("string of {} bytes reports len {}", text.len(), s.len())));
        }
        // the text must be a view of the input
        let data = self.env.off(text.as_bytes());
        Ok(self.node(&id, start, end, K::Str { text: Some(text.to_string()), data }))
    }
    fn visit_bitsequence<'scale, 'resolver>(self, b: &mut BitSequence<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.env.off_rest(b.bytes_from_start());
        let before = if self.env.mode == Mode::Generic { Some(b.bytes_after()?) } else { None };
        let bits = b.decode()?.collect::<Result<Vec<bool>, _>>().map_err(|e| VErr::D(e.into()))?;
        let after = b.bytes_after()?;
        if let Some(x) = before {
            if self.env.off_rest(x) != self.env.off_rest(after) {
                return Err(VErr::Bad("end of bit sequence differs before and after decoding".into()));
            }
        }
        Ok(self.node(&id, start, self.env.off_rest(after), K::Bits(bits)))
    }
    fn visit_sequence<'scale, 'resolver>(self, s: &mut Sequence<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.env.off_rest(s.bytes_from_start());
        let mut v = vec![];
        match self.env.mode {
            Mode::Generic => v = self.generic(s)?,
            Mode::Iter => {
                while let Some(it) = s.next() {
                    let it = it?;
                    let n = it.decode_with_visitor(sub(&self, it.bytes()))?;
                    v.push(self.spanned(n, it.bytes(), self.env.res.tid(it.type_id()), "item")?);
                }
            }
            Mode::IterLate => {
                let its: Vec<_> = s.by_ref().collect::<Result<_, _>>()?;
                for it in its.iter().rev() {
                    let it = it.clone();
                    let n = it.decode_with_visitor(sub(&self, it.bytes()))?;
                    v.push(self.spanned(n, it.bytes(), self.env.res.tid(it.type_id()), "item")?);
                }
                v.reverse();
            }
            _ => {
                while let Some(r) = s.decode_item(self) {
                    v.push(r?);
                }
            }
        }
        let end = self.env.off_rest(s.bytes_from_undecoded());
        Ok(self.node(&id, start, end, K::Seq(v)))
    }
    fn visit_array<'scale, 'resolver>(self, s: &mut Array<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.env.off_rest(s.bytes_from_start());
        let mut v = vec![];
        match self.env.mode {
            Mode::Generic => v = self.generic(s)?,
            Mode::Iter => {
                while let Some(it) = s.next() {
                    let it = it?;
                    let n = it.decode_with_visitor(sub(&self, it.bytes()))?;
                    v.push(self.spanned(n, it.bytes(), self.env.res.tid(it.type_id()), "item")?);
                }
            }
            Mode::IterLate => {
                let its: Vec<_> = s.by_ref().collect::<Result<_, _>>()?;
                for it in its.iter().rev() {
                    let it = it.clone();
                    let n = it.decode_with_visitor(sub(&self, it.bytes()))?;
                    v.push(self.spanned(n, it.bytes(), self.env.res.tid(it.type_id()), "item")?);
                }
                v.reverse();
            }
            _ => {
                while let Some(r) = s.decode_item(self) {
                    v.push(r?);
                }
            }
        }
        let end = self.env.off_rest(s.bytes_from_undecoded());
        Ok(self.node(&id, start, end, K::Arr(v)))
    }
    fn visit_tuple<'scale, 'resolver>(self, s: &mut Tuple<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.env.off_rest(s.bytes_from_start());
        let mut v = vec![];
        match self.env.mode {
            Mode::Generic => v = self.generic(s)?,
            Mode::Iter => {
                while let Some(it) = s.next() {
                    let it = it?;
                    let n = it.decode_with_visitor(sub(&self, it.bytes()))?;
                    v.push(self.spanned(n, it.bytes(), self.env.res.tid(it.type_id()), "item")?);
                }
            }
            Mode::IterLate => {
                let its: Vec<_> = s.by_ref().collect::<Result<_, _>>()?;
                for it in its.iter().rev() {
                    let n = it.decode_with_visitor(sub(&self, it.bytes()))?;
                    v.push(self.spanned(n, it.bytes(), self.env.res.tid(it.type_id()), "item")?);
                }
                v.reverse();
            }
            _ => {
                while let Some(r) = s.decode_item(self) {
                    v.push(r?);
                }
            }
        }
        let end = self.env.off_rest(s.bytes_from_undecoded());
        Ok(self.node(&id, start, end, K::Tup(v)))
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.env.off_rest(c.bytes_from_start());
        let path: Vec<String> = c.path().map(|s| s.to_string()).collect();
        if c.name() != path.last().map(|s| s.as_str()) {
            return Err(VErr::Bad(format!("composite name {:?} is not the end of its path {path:?}", c.name())));
        }
        let (fields, end) = self.comp_fields(c)?;
        Ok(self.node(&id, start, end, K::Comp { path, fields }))
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let start = self.env.off_rest(v.bytes_from_start());
        let name = v.name().to_string();
        let index = v.index();
        let (fields, end) = self.comp_fields(v.fields())?;
        if self.env.mode != Mode::AsTuple && self.env.off_rest(v.bytes_from_undecoded()) != end {
            return Err(VErr::Bad("variant and its fields disagree on the undecoded bytes".into()));
        }
        Ok(self.node(&id, start, end, K::Var { name, index, fields }))
    }
}

macro_rules! fwd {
    ($($f:ident($t:ty);)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.with(|r| r.$f(v, id))
        })*
    };
}
impl<'e, R: Res> Visitor for LenV<'e, R> {
    type Value<'scale, 'resolver> = Node;
    type Error = VErr;
    type TypeResolver = R;
    fwd! {
        visit_bool(bool); visit_char(char);
        visit_u8(u8); visit_u16(u16); visit_u32(u32); visit_u64(u64); visit_u128(u128);
        visit_i8(i8); visit_i16(i16); visit_i32(i32); visit_i64(i64); visit_i128(i128);
        visit_str(&mut Str<'scale>); visit_bitsequence(&mut BitSequence<'scale>);
        visit_sequence(&mut Sequence<'scale, 'resolver, R>); visit_array(&mut Array<'scale, 'resolver, R>);
        visit_tuple(&mut Tuple<'scale, 'resolver, R>); visit_composite(&mut Composite<'scale, 'resolver, R>);
        visit_variant(&mut Variant<'scale, 'resolver, R>);
    }
    fn visit_u256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.with(|r| r.visit_u256(v, id))
    }
    fn visit_i256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.with(|r| r.visit_i256(v, id))
    }
}

/// A visitor that fails on everything with its own error.
pub struct FailV<R>(pub u32, pub PhantomData<R>);
impl<R: Res> Visitor for FailV<R> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(self, _: scale_decode::visitor::Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Own(self.0))
    }
}

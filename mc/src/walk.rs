//! A visitor that reads values in every way there is without allocating, and checks where what it is
//! given points to.
use crate::alloc;
use crate::choose::Chooser;
use crate::handle::*;
use crate::ty::Res;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor};
use std::cell::Cell;

#[derive(Debug, Clone)]
pub enum WErr {
    D(DecodeError),
    Own,
}
impl From<DecodeError> for WErr {
    fn from(e: DecodeError) -> Self {
        WErr::D(e)
    }
}

impl From<WErr> for scale_decode::Error {
    fn from(e: WErr) -> Self {
        match e {
            WErr::D(e) => e.into(),
            WErr::Own => scale_decode::Error::custom_str("refused"),
        }
    }
}

/// Some of the borrowed data met on the way, kept beyond the decode.
#[derive(Clone, Copy, Default)]
pub struct Kept<'s> {
    pub bytes: [Option<&'s [u8]>; 4],
    pub text: [Option<&'s str>; 4],
}
impl<'s> Kept<'s> {
    fn b(mut self, b: &'s [u8]) -> Self {
        if let Some(x) = self.bytes.iter_mut().find(|x| x.is_none()) {
            *x = Some(b);
        }
        self
    }
    fn t(mut self, b: &'s str) -> Self {
        if let Some(x) = self.text.iter_mut().find(|x| x.is_none()) {
            *x = Some(b);
        }
        self
    }
    fn and(mut self, o: Kept<'s>) -> Self {
        for b in o.bytes.into_iter().flatten() {
            self = self.b(b);
        }
        for b in o.text.into_iter().flatten() {
            self = self.t(b);
        }
        self
    }
}

pub struct WEnv<'e> {
    pub ch: Option<&'e Chooser>,
    /// What to choose everywhere without a chooser.
    fixed: usize,
    base: usize,
    len: usize,
    pub bad: Cell<Option<&'static str>>,
    pub steps: Cell<u64>,
}
impl<'e> WEnv<'e> {
    pub fn new(b: &[u8], ch: Option<&'e Chooser>) -> Self {
        WEnv { ch, fixed: 0, base: b.as_ptr() as usize, len: b.len(), bad: Cell::new(None), steps: Cell::new(0) }
    }
    pub fn fixed(b: &[u8], k: usize) -> Self {
        WEnv { fixed: k, ..WEnv::new(b, None) }
    }
    pub fn inside(&self, b: &[u8]) -> bool {
        let p = b.as_ptr() as usize;
        p >= self.base && p + b.len() <= self.base + self.len
    }
    fn look(&self, b: &[u8], what: &'static str) {
        if !self.inside(b) {
            self.bad.set(Some(what));
        }
    }
    fn choose(&self, n: usize) -> usize {
        self.steps.set(self.steps.get() + 1);
        self.ch.map_or(self.fixed % n, |c| alloc::pause(|| c.choose(n)))
    }
}

pub struct Walk<'e, R> {
    pub env: &'e WEnv<'e>,
    pub r: std::marker::PhantomData<R>,
}
impl<'e, R> Walk<'e, R> {
    pub fn new(env: &'e WEnv<'e>) -> Self {
        Walk { env, r: std::marker::PhantomData }
    }
}
impl<'e, R> Clone for Walk<'e, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'e, R> Copy for Walk<'e, R> {}

impl<'e, R: Res + 'static> Walk<'e, R> {
    fn pos<'s, 'r, H: Handle<'s, 'r, R>>(&self, h: &H) {
        self.env.look(h.start(), "bytes_from_start");
        self.env.look(h.rest(), "bytes_from_undecoded");
        let _ = (h.remaining(), h.empty());
    }
    fn item<'s, 'r>(&self, it: &Item<'s, 'r, R>) -> Kept<'s> {
        self.env.look(it.bytes(), "item bytes");
        let _ = (it.name(), it.is_compact());
        Kept::default().b(it.bytes())
    }
    fn cont<'s, 'r, H: Handle<'s, 'r, R>>(self, h: &mut H) -> Result<Kept<'s>, WErr> {
        let mut k = Kept::default().b(h.start());
        self.pos(h);
        if let Some(c) = h.composite() {
            let _ = (c.peek_name(), c.name(), c.path().count(), c.fields().len(), c.has_unnamed_fields());
        }
        let way = self.env.choose(9);
        match way {
            // every item at once
            0 => {
                while let Some(r) = h.item(self) {
                    k = k.and(r?);
                    self.pos(h);
                }
            }
            // iterate, decoding each
            1 => {
                while let Some(r) = h.next_item() {
                    let it = r?;
                    k = k.and(self.item(&it)).and(it.decode_with_visitor(self)?);
                    self.pos(h);
                }
            }
            // iterate only
            2 => {
                while let Some(r) = h.next_item() {
                    k = k.and(self.item(&r?));
                }
            }
            3 => {
                while let Some(r) = scale_decode::visitor::DecodeItemIterator::decode_item(h, self) {
                    k = k.and(r?);
                }
            }
            4 => {
                if let Some(c) = h.composite() {
                    let mut t = c.as_tuple();
                    self.pos(&t);
                    while let Some(r) = t.decode_item(self) {
                        k = k.and(r?);
                    }
                    let mut t = c.as_tuple();
                    while let Some(r) = t.next_item() {
                        k = k.and(self.item(&r?));
                    }
                    let mut t = c.as_tuple();
                    t.skip_decoding()?;
                }
                h.skip()?;
            }
            5 => h.skip()?,
            // one and no more
            6 => {
                if let Some(r) = h.item(self) {
                    k = k.and(r?);
                }
            }
            7 => {
                if let Some(r) = h.next_item() {
                    let it = r?;
                    let it = it.dup().unwrap_or(it);
                    k = k.and(self.item(&it)).and(it.decode_with_visitor(self)?).and(it.decode_with_visitor(self)?);
                    it.decode_with_visitor(IgnoreVisitor::<R>::new())?;
                }
            }
            // items, iterated and decoded in turn
            _ => {
                while let Some(r) = h.item(self) {
                    k = k.and(r?);
                    match h.next_item() {
                        Some(r) => k = k.and(self.item(&r?)),
                        None => break,
                    }
                }
            }
        }
        if way < 6 {
            // nothing comes after the end
            let _ = (h.item(self).is_some(), h.next_item().is_some());
        }
        self.pos(h);
        Ok(k.b(h.rest()))
    }
    fn num<'s>(&self) -> Result<Kept<'s>, WErr> {
        self.env.steps.set(self.env.steps.get() + 1);
        Ok(Kept::default())
    }
}

macro_rules! nums {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.num()
        })*
    };
}
macro_rules! conts {
    ($($f:ident: $t:ty;)*) => {
        $(fn $f<'scale, 'resolver>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.cont(v)
        })*
    };
}
impl<'e, R: Res + 'static> Visitor for Walk<'e, R> {
    type Value<'scale, 'resolver> = Kept<'scale>;
    type Error = WErr;
    type TypeResolver = R;
    nums! {
        visit_bool: bool; visit_char: char;
        visit_u8: u8; visit_u16: u16; visit_u32: u32; visit_u64: u64; visit_u128: u128;
        visit_i8: i8; visit_i16: i16; visit_i32: i32; visit_i64: i64; visit_i128: i128;
    }
    fn visit_u256<'resolver>(self, v: &'_ [u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        self.env.look(v, "u256");
        Ok(Kept::default().b(v))
    }
    fn visit_i256<'resolver>(self, v: &'_ [u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        self.env.look(v, "i256");
        Ok(Kept::default().b(v))
    }
    conts! {
        visit_sequence: &mut Sequence<'scale, 'resolver, R>;
        visit_array: &mut Array<'scale, 'resolver, R>;
        visit_tuple: &mut Tuple<'scale, 'resolver, R>;
        visit_composite: &mut Composite<'scale, 'resolver, R>;
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut k = Kept::default().b(s.bytes_from_start());
        self.env.look(s.bytes_from_start(), "str bytes_from_start");
        let _ = (s.len(), s.is_empty());
        if self.env.choose(2) == 0 {
            let t = s.as_str()?;
            self.env.look(t.as_bytes(), "str");
            let a = s.bytes_after()?;
            self.env.look(a, "str bytes_after");
            k = k.t(t).b(a);
        }
        Ok(k)
    }
    fn visit_bitsequence<'scale, 'resolver>(self, b: &mut BitSequence<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut k = Kept::default().b(b.bytes_from_start());
        self.env.look(b.bytes_from_start(), "bits bytes_from_start");
        if self.env.choose(2) == 0 {
            for x in b.decode()? {
                x.map_err(|e| WErr::D(e.into()))?;
            }
            let a = b.bytes_after()?;
            self.env.look(a, "bits bytes_after");
            k = k.b(a);
        }
        Ok(k)
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.env.look(v.bytes_from_start(), "variant bytes_from_start");
        self.env.look(v.bytes_from_undecoded(), "variant bytes_from_undecoded");
        let _ = (v.name().len(), v.index());
        if self.env.choose(3) == 2 {
            let k = Kept::default().b(v.bytes_from_start());
            v.skip_decoding()?;
            return Ok(k);
        }
        self.cont(v.fields())
    }
    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(WErr::Own)
    }
}

/// Fails on everything, also without allocating.
pub struct Refuse<R>(pub std::marker::PhantomData<R>);
impl<R: Res + 'static> Visitor for Refuse<R> {
    type Value<'scale, 'resolver> = ();
    type Error = WErr;
    type TypeResolver = R;
    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(WErr::Own)
    }
}

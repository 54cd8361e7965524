//! One face for the five container handles and their items.
use crate::ty::Res;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeError, DecodeItemIterator, Visitor};
use scale_decode::DecodeAsType;

/// The item types cannot be named from outside their crate.
pub trait OkOf {
    type T;
}
impl<T, E> OkOf for Result<T, E> {
    type T = T;
}
type It<X> = <<X as Iterator>::Item as OkOf>::T;

pub enum Item<'s, 'r, R: Res> {
    C(It<Composite<'s, 'r, R>>),
    T(It<Tuple<'s, 'r, R>>),
    S(It<Sequence<'s, 'r, R>>),
    A(It<Array<'s, 'r, R>>),
}
macro_rules! each {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            Item::C($i) => $e,
            Item::T($i) => $e,
            Item::S($i) => $e,
            Item::A($i) => $e,
        }
    };
}
impl<'s, 'r, R: Res> Item<'s, 'r, R> {
    /// A clone, where items can be cloned.
    pub fn dup(&self) -> Option<Self> {
        Some(match self {
            Item::C(i) => Item::C(i.clone()),
            Item::T(_) => return None,
            Item::S(i) => Item::S(i.clone()),
            Item::A(i) => Item::A(i.clone()),
        })
    }
    pub fn bytes(&self) -> &'s [u8] {
        each!(self, i => i.bytes())
    }
    pub fn type_id(&self) -> &R::TypeId {
        each!(self, i => i.type_id())
    }
    /// `None` if items of this container have no names.
    pub fn name(&self) -> Option<Option<&'r str>> {
        match self {
            Item::C(i) => Some(i.name()),
            _ => None,
        }
    }
    pub fn is_compact(&self) -> Option<bool> {
        match self {
            Item::C(i) => Some(i.is_compact()),
            Item::T(i) => Some(i.is_compact()),
            _ => None,
        }
    }
    pub fn decode_with_visitor<V: Visitor<TypeResolver = R>>(&self, v: V) -> Result<V::Value<'s, 'r>, V::Error> {
        each!(self, i => i.decode_with_visitor(v))
    }
    pub fn decode_as_type<T: DecodeAsType>(&self) -> Result<T, scale_decode::Error> {
        each!(self, i => i.decode_as_type::<T>())
    }
}

pub trait Handle<'s, 'r, R: Res>: DecodeItemIterator<'s, 'r, R> {
    /// After an item fails the rest is given up (composites, tuples) or read on (sequences, arrays).
    const STOPS: bool;
    fn remaining(&self) -> usize;
    fn empty(&self) -> Option<bool> {
        None
    }
    fn start(&self) -> &'s [u8];
    fn rest(&self) -> &'s [u8];
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>>;
    fn next_item(&mut self) -> Option<Result<Item<'s, 'r, R>, DecodeError>>;
    fn composite(&mut self) -> Option<&mut Composite<'s, 'r, R>> {
        None
    }
}
macro_rules! handle {
    ($t:ident, $stops:expr, $i:ident, {$($extra:tt)*}) => {
        impl<'s, 'r, R: Res> Handle<'s, 'r, R> for $t<'s, 'r, R> {
            const STOPS: bool = $stops;
            fn remaining(&self) -> usize {
                $t::remaining(self)
            }
            fn start(&self) -> &'s [u8] {
                self.bytes_from_start()
            }
            fn rest(&self) -> &'s [u8] {
                self.bytes_from_undecoded()
            }
            fn skip(&mut self) -> Result<(), DecodeError> {
                self.skip_decoding()
            }
            fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> {
                $t::decode_item(self, v)
            }
            fn next_item(&mut self) -> Option<Result<Item<'s, 'r, R>, DecodeError>> {
                self.next().map(|r| r.map(Item::$i))
            }
            $($extra)*
        }
    };
}
handle!(Composite, true, C, {
    fn composite(&mut self) -> Option<&mut Composite<'s, 'r, R>> {
        Some(self)
    }
});
handle!(Tuple, true, T, {});
handle!(Sequence, false, S, {});
handle!(Array, false, A, {
    fn empty(&self) -> Option<bool> {
        Some(self.is_empty())
    }
});

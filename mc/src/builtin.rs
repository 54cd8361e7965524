//! Built-in target types.
use crate::targets::*;
use codec::Compact;
use primitive_types::*;
use scale_bits::Bits;
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

macro_rules! ints {
    ($($t:ty, $signed:expr, $bits:expr;)*) => {
        $(impl Tg for $t {
            fn tgt() -> Tgt {
                Tgt::Int { signed: $signed, bits: $bits, nonzero: false }
            }
            #[allow(unused_comparisons)]
            fn out(self) -> O {
                let neg = self < 0;
                let m = self as i128;
                if neg { O::Num(true, m.unsigned_abs()) } else { O::Num(false, self as u128) }
            }
        })*
    };
}
ints! {
    u8, false, 8; u16, false, 16; u32, false, 32; u64, false, 64; u128, false, 128; usize, false, 64;
    i8, true, 8; i16, true, 16; i32, true, 32; i64, true, 64; i128, true, 128; isize, true, 64;
}
macro_rules! nonzero {
    ($($t:ty, $signed:expr, $bits:expr;)*) => {
        $(impl Tg for $t {
            fn tgt() -> Tgt {
                Tgt::Int { signed: $signed, bits: $bits, nonzero: true }
            }
            fn out(self) -> O {
                self.get().out()
            }
        })*
    };
}
nonzero! {
    NonZeroU8, false, 8; NonZeroU16, false, 16; NonZeroU32, false, 32; NonZeroU64, false, 64; NonZeroU128, false, 128;
    NonZeroI8, true, 8; NonZeroI16, true, 16; NonZeroI32, true, 32; NonZeroI64, true, 64; NonZeroI128, true, 128;
}
impl Tg for bool {
    fn tgt() -> Tgt {
        Tgt::Bool
    }
    fn out(self) -> O {
        O::Bool(self)
    }
}
impl Tg for char {
    fn tgt() -> Tgt {
        Tgt::Char
    }
    fn out(self) -> O {
        O::Char(self)
    }
}
impl Tg for String {
    fn tgt() -> Tgt {
        Tgt::Str
    }
    fn out(self) -> O {
        O::Str(self)
    }
}
impl Tg for Bits {
    fn tgt() -> Tgt {
        Tgt::Bits
    }
    fn out(self) -> O {
        O::Bits(self.iter().collect())
    }
}
impl<T> Tg for PhantomData<T> {
    fn tgt() -> Tgt {
        Tgt::Phantom
    }
    fn out(self) -> O {
        O::Unit
    }
}
impl<T: Tg> Tg for Box<T> {
    fn tgt() -> Tgt {
        T::tgt()
    }
    fn out(self) -> O {
        (*self).out()
    }
}
impl<T: Tg> Tg for Arc<T> {
    fn tgt() -> Tgt {
        T::tgt()
    }
    fn out(self) -> O {
        Arc::try_unwrap(self).ok().unwrap().out()
    }
}
impl<T: Tg> Tg for Rc<T> {
    fn tgt() -> Tgt {
        T::tgt()
    }
    fn out(self) -> O {
        Rc::try_unwrap(self).ok().unwrap().out()
    }
}
impl<T: Tg> Tg for Compact<T> {
    fn tgt() -> Tgt {
        T::tgt()
    }
    fn out(self) -> O {
        self.0.out()
    }
}
impl<'a, T: ?Sized + ToOwned> Tg for Cow<'a, T>
where
    T::Owned: Tg,
{
    fn tgt() -> Tgt {
        T::Owned::tgt()
    }
    fn out(self) -> O {
        self.into_owned().out()
    }
}
impl Tg for Duration {
    fn tgt() -> Tgt {
        Tgt::Duration
    }
    fn out(self) -> O {
        O::Tup(vec![self.as_secs().out(), self.subsec_nanos().out()])
    }
}
impl<T: Tg> Tg for Range<T> {
    fn tgt() -> Tgt {
        Tgt::Range(Box::new(T::tgt()))
    }
    fn out(self) -> O {
        O::Tup(vec![self.start.out(), self.end.out()])
    }
}
impl<T: Tg> Tg for RangeInclusive<T> {
    fn tgt() -> Tgt {
        Tgt::Range(Box::new(T::tgt()))
    }
    fn out(self) -> O {
        let (a, b) = self.into_inner();
        O::Tup(vec![a.out(), b.out()])
    }
}
macro_rules! lists {
    ($($t:ident $(where $b:path)?;)*) => {
        $(impl<T: Tg $(+ $b)?> Tg for $t<T> {
            fn tgt() -> Tgt {
                Tgt::List(Box::new(T::tgt()))
            }
            fn out(self) -> O {
                O::List(self.into_iter().map(|x| x.out()).collect())
            }
        })*
    };
}
lists! { Vec; VecDeque; LinkedList; }
impl<T: Tg + Ord> Tg for BTreeSet<T> {
    fn tgt() -> Tgt {
        Tgt::Set(Box::new(T::tgt()))
    }
    fn out(self) -> O {
        // canonical order is that of `O`
        let mut v: Vec<O> = self.into_iter().map(|x| x.out()).collect();
        v.sort();
        O::List(v)
    }
}
impl<T: Tg + Ord> Tg for BinaryHeap<T> {
    fn tgt() -> Tgt {
        Tgt::Heap(Box::new(T::tgt()))
    }
    fn out(self) -> O {
        let mut v: Vec<O> = self.into_iter().map(|x| x.out()).collect();
        v.sort();
        O::List(v)
    }
}
impl<T: Tg, const N: usize> Tg for [T; N] {
    fn tgt() -> Tgt {
        Tgt::Arr(Box::new(T::tgt()), N)
    }
    fn out(self) -> O {
        O::List(self.into_iter().map(|x| x.out()).collect())
    }
}
impl<T: Tg> Tg for BTreeMap<String, T> {
    fn tgt() -> Tgt {
        Tgt::Map(Box::new(T::tgt()))
    }
    fn out(self) -> O {
        O::Map(self.into_iter().map(|(k, v)| (k, v.out())).collect())
    }
}
impl<T: Tg> Tg for Option<T> {
    fn tgt() -> Tgt {
        Tgt::Opt(Box::new(T::tgt()))
    }
    fn out(self) -> O {
        O::Opt(self.map(|x| Box::new(x.out())))
    }
}
impl<T: Tg, E: Tg> Tg for Result<T, E> {
    fn tgt() -> Tgt {
        Tgt::Res(Box::new(T::tgt()), Box::new(E::tgt()))
    }
    fn out(self) -> O {
        O::Res(match self {
            Ok(x) => Ok(Box::new(x.out())),
            Err(x) => Err(Box::new(x.out())),
        })
    }
}
macro_rules! tuples {
    ($($($p:ident)*;)*) => {
        $(impl<$($p: Tg),*> Tg for ($($p,)*) {
            fn tgt() -> Tgt {
                Tgt::Tup(vec![$($p::tgt()),*])
            }
            #[allow(non_snake_case)]
            fn out(self) -> O {
                let ($($p,)*) = self;
                O::Tup(vec![$($p.out()),*])
            }
        })*
    };
}
tuples! {
    ;
    A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I;
    A B C D E F G H I J; A B C D E F G H I J K; A B C D E F G H I J K L; A B C D E F G H I J K L M;
    A B C D E F G H I J K L M N; A B C D E F G H I J K L M N P; A B C D E F G H I J K L M N P Q;
    A B C D E F G H I J K L M N P Q R; A B C D E F G H I J K L M N P Q R S; A B C D E F G H I J K L M N P Q R S T;
    A B C D E F G H I J K L M N P Q R S T U;
}
macro_rules! hashes {
    ($($t:ty, $n:expr;)*) => {
        $(impl Tg for $t {
            fn tgt() -> Tgt {
                <[u8; $n]>::tgt()
            }
            fn out(self) -> O {
                self.0.out()
            }
        })*
    };
}
hashes! { H128, 16; H160, 20; H256, 32; H384, 48; H512, 64; H768, 96; }

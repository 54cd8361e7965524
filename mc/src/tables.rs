//! Lists of target types, to be instantiated by the checks that need them: `ints!(entries)`.

#[macro_export]
macro_rules! int_targets {
    ($m:ident) => { $crate::$m![
        u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
        NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128,
        NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128,
    ] };
}
#[macro_export]
macro_rules! scalar_targets {
    ($m:ident) => { $crate::$m![bool, char, String, Bits, PhantomData<u8>, Duration] };
}
#[macro_export]
macro_rules! pointer_targets {
    ($m:ident) => { $crate::$m![
        Box<u8>, Arc<String>, Rc<u16>, Compact<u32>, Cow<'static, str>, Cow<'static, u64>, Box<Vec<u8>>,
        Compact<u128>, Compact<u8>, Box<Box<i16>>, Arc<Option<u8>>, Rc<(u8, bool)>, Box<NonZeroU8>, Cow<'static, [u8]>,
        Box<Compact<u16>>, Compact<Box<u64>>, Arc<(u8,)>, (Box<u8>,), ((u8,),), (Compact<u32>,), Cow<'static, (u16,)>,
    ] };
}
#[macro_export]
macro_rules! seq_targets {
    ($m:ident) => { $crate::$m![
        Vec<u8>, Vec<String>, Vec<bool>, VecDeque<u16>, LinkedList<u8>, BinaryHeap<u16>, BTreeSet<u8>, BTreeSet<String>,
        Vec<Vec<u8>>, Vec<()>, Vec<Bits>, Vec<Option<u8>>, VecDeque<Vec<String>>, Vec<Compact<u32>>, LinkedList<(u8, String)>,
        [u8; 0], [u8; 1], [u8; 2], [u16; 3], [String; 2], [u8; 32], [Vec<u8>; 2], [[u8; 2]; 2], [(); 2], [Option<u16>; 1],
        H128, H160, H256, H384, H512, H768, Vec<H128>,
        BTreeSet<u16>, BinaryHeap<u8>, Vec<i64>, Vec<char>, VecDeque<bool>, BTreeSet<(u8, bool)>,
    ] };
}
#[macro_export]
macro_rules! map_targets {
    ($m:ident) => { $crate::$m![
        BTreeMap<String, u8>, BTreeMap<String, String>, BTreeMap<String, Vec<u8>>, BTreeMap<String, BTreeMap<String, u16>>,
        BTreeMap<String, Option<bool>>, BTreeMap<String, (u8, u8)>,
    ] };
}
#[macro_export]
macro_rules! enumlike_targets {
    ($m:ident) => { $crate::$m![
        Option<u8>, Option<String>, Option<Option<u16>>, Option<()>, Option<Vec<u8>>, Option<(u8, String)>,
        Result<u8, String>, Result<(), u16>, Result<Option<u8>, Vec<u8>>, Option<Result<u8, bool>>, Option<Box<u32>>,
    ] };
}
#[macro_export]
macro_rules! tuple_targets {
    ($m:ident) => { $crate::$m![
        (), (u8,), (String,), (Vec<u8>,), ((),), (Option<u8>,), ((u8, u16),), (Bits,),
        (u8, u16), (String, u8), (u8, String, bool), ((u8, u16), String), (u8, (String,), Option<u8>),
        (u8, u16, u32, u64), (u8, bool, u8, bool, u8), (u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, String),
        (u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
    ] };
}
#[macro_export]
macro_rules! range_targets {
    ($m:ident) => { $crate::$m![Range<u8>, RangeInclusive<u32>, Range<String>, RangeInclusive<i16>] };
}
/// The names the lists use.
#[macro_export]
macro_rules! use_target_types {
    () => {
        #[allow(unused_imports)]
        use {
            codec::Compact,
            mc::builtin::*,
            mc::derived::*,
            primitive_types::*,
            scale_bits::Bits,
            std::borrow::Cow,
            std::collections::*,
            std::marker::PhantomData,
            std::num::*,
            std::ops::{Range, RangeInclusive},
            std::rc::Rc,
            std::sync::Arc,
            std::time::Duration,
        };
    };
}

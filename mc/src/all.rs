//! The real Rust types to decode into, instantiated once for all checks.
use crate::targets::*;
use crate::ty::Types;
use scale_decode::{DecodeAsFields, FieldIter};
mc::use_target_types!();

pub fn ints() -> Vec<Entry> {
    crate::int_targets!(entries)
}
pub fn scalars() -> Vec<Entry> {
    crate::scalar_targets!(entries)
}
pub fn pointers() -> Vec<Entry> {
    crate::pointer_targets!(entries)
}
pub fn seqs() -> Vec<Entry> {
    crate::seq_targets!(entries)
}
pub fn maps() -> Vec<Entry> {
    crate::map_targets!(entries)
}
pub fn enumlikes() -> Vec<Entry> {
    crate::enumlike_targets!(entries)
}
pub fn tuples() -> Vec<Entry> {
    crate::tuple_targets!(entries)
}
pub fn ranges() -> Vec<Entry> {
    crate::range_targets!(entries)
}
pub fn structs() -> Vec<Entry> {
    crate::derived_structs!(entries)
}
pub fn enums() -> Vec<Entry> {
    crate::derived_enums!(entries)
}
pub fn all() -> Vec<Entry> {
    let mut v = ints();
    for f in [scalars, pointers, seqs, maps, enumlikes, tuples, ranges, structs, enums] {
        v.extend(f());
    }
    v
}

/// Targets that decode straight from a list of fields.
pub struct FEntry {
    pub e: Entry,
    pub fields: fn(&mut &[u8], &mut dyn FieldIter<'_, usize>, &Types) -> Result<O, scale_decode::Error>,
}
fn run_f<T: Tg + DecodeAsFields>(b: &mut &[u8], f: &mut dyn FieldIter<'_, usize>, types: &Types) -> Result<O, scale_decode::Error> {
    // the field list may not outlive the types it came from
    fn go<'r, T: Tg + DecodeAsFields>(b: &mut &[u8], f: &mut dyn FieldIter<'r, usize>, types: &'r Types) -> Result<O, scale_decode::Error> {
        T::decode_as_fields(b, f, types).map(|t| t.out())
    }
    let v: Vec<_> = f.collect();
    go::<T>(b, &mut v.iter().copied(), types)
}
#[macro_export]
macro_rules! field_entries {
    ($($t:ty),* $(,)?) => {
        vec![$($crate::all::FEntry {
            e: $crate::targets::Entry {
                name: stringify!($t),
                tgt: <$t as $crate::targets::Tg>::tgt,
                run: $crate::targets::run_tg::<$t, $crate::ty::Types>,
            },
            fields: run_f::<$t>,
        }),*]
    };
}
pub fn by_fields() -> Vec<FEntry> {
    let mut v = crate::tuple_targets!(field_entries);
    v.extend(crate::derived_structs!(field_entries));
    v
}

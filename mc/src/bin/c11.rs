//! C11: decoding by type information agrees with the static codec.
use codec::{Compact, Decode, Encode};
use mc::big::*;
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::ty::*;
use primitive_types::*;
use scale_bits::Bits;
use scale_decode::DecodeAsType;
use scale_info::{PortableRegistry, TypeDef, TypeDefPrimitive, TypeInfo};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// The registry's types as ours, so that byte strings can be generated from them.
fn import(reg: &PortableRegistry) -> Types {
    let mut ty = Types::new();
    let base = 1usize;
    let id = |t: u32| t as usize + base;
    let flds = |f: &[scale_info::Field<scale_info::form::PortableForm>]| -> Vec<(Option<String>, Tid)> {
        f.iter().map(|f| (f.name.clone(), id(f.ty.id))).collect()
    };
    for (i, t) in reg.types.iter().enumerate() {
        assert_eq!(t.id as usize, i, "harness: registry not dense");
        let path = t.ty.path.segments.clone();
        let d = match &t.ty.type_def {
            TypeDef::Composite(c) => Def::Comp { path, fields: flds(&c.fields) },
            TypeDef::Variant(v) => Def::Var {
                path,
                vars: v.variants.iter().map(|v| VDef { name: v.name.clone(), index: v.index, fields: flds(&v.fields) }).collect(),
            },
            TypeDef::Sequence(s) => Def::Seq(id(s.type_param.id)),
            TypeDef::Array(a) => Def::Arr(id(a.type_param.id), a.len as usize),
            TypeDef::Tuple(t) => Def::Tup(t.fields.iter().map(|t| id(t.id)).collect()),
            TypeDef::Compact(c) => Def::Compact(id(c.type_param.id)),
            TypeDef::BitSequence(b) => {
                let s = match &reg.types[b.bit_store_type.id as usize].ty.type_def {
                    TypeDef::Primitive(TypeDefPrimitive::U8) => BitsStoreFormat::U8,
                    TypeDef::Primitive(TypeDefPrimitive::U16) => BitsStoreFormat::U16,
                    TypeDef::Primitive(TypeDefPrimitive::U32) => BitsStoreFormat::U32,
                    _ => BitsStoreFormat::U64,
                };
                let o = match reg.types[b.bit_order_type.id as usize].ty.path.segments.last().map(|s| s.as_str()) {
                    Some("Msb0") => BitsOrderFormat::Msb0,
                    _ => BitsOrderFormat::Lsb0,
                };
                Def::Bits(s, o)
            }
            TypeDef::Primitive(p) => Def::Prim(match p {
                TypeDefPrimitive::Bool => Primitive::Bool,
                TypeDefPrimitive::Char => Primitive::Char,
                TypeDefPrimitive::Str => Primitive::Str,
                TypeDefPrimitive::U8 => Primitive::U8,
                TypeDefPrimitive::U16 => Primitive::U16,
                TypeDefPrimitive::U32 => Primitive::U32,
                TypeDefPrimitive::U64 => Primitive::U64,
                TypeDefPrimitive::U128 => Primitive::U128,
                TypeDefPrimitive::U256 => Primitive::U256,
                TypeDefPrimitive::I8 => Primitive::I8,
                TypeDefPrimitive::I16 => Primitive::I16,
                TypeDefPrimitive::I32 => Primitive::I32,
                TypeDefPrimitive::I64 => Primitive::I64,
                TypeDefPrimitive::I128 => Primitive::I128,
                TypeDefPrimitive::I256 => Primitive::I256,
            }),
        };
        ty.add_fresh(d);
    }
    ty
}

struct Row {
    name: &'static str,
    registry: fn() -> (PortableRegistry, u32),
    /// Both decoders on the same bytes: value and end of the input.
    both: fn(&[u8], &PortableRegistry, u32) -> (Result<O, String>, usize, Result<O, String>, usize),
}

fn registry<T: TypeInfo + 'static>() -> (PortableRegistry, u32) {
    let mut r = scale_info::Registry::new();
    let id = r.register_type(&scale_info::meta_type::<T>()).id;
    (r.into(), id)
}
fn both<T: Encode + Decode + DecodeAsType + Tg>(
    b: &[u8],
    reg: &PortableRegistry,
    id: u32,
) -> (Result<O, String>, usize, Result<O, String>, usize) {
    let show = |t: T| t.out();
    let mut i = b;
    let x = T::decode_as_type(&mut i, id, reg).map(show).map_err(|e| e.to_string());
    let mut j = b;
    let y = T::decode(&mut j).map(show).map_err(|e| e.to_string());
    (x, b.len() - i.len(), y, b.len() - j.len())
}

macro_rules! rows {
    ($($t:ty),* $(,)?) => { vec![$(Row { name: stringify!($t), registry: registry::<$t>, both: both::<$t> }),*] };
}

type T18 = (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, String, (), u8, u16, bool, u8, u16);

fn rows() -> Vec<Row> {
    rows![
        bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String, (),
        NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128,
        NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128,
        Compact<u8>, Compact<u16>, Compact<u32>, Compact<u64>, Compact<u128>,
        Bits, Duration, PhantomData<u8>, Range<u8>, Range<u64>, RangeInclusive<u16>, RangeInclusive<i32>,
        Box<u8>, Box<String>, Rc<u16>, Arc<(u8, String)>, Cow<'static, str>, Cow<'static, u64>, Box<Compact<u32>>,
        Vec<u8>, Vec<u16>, Vec<bool>, Vec<String>, Vec<Vec<u8>>, Vec<(u8, String)>, Vec<Option<u8>>, Vec<Compact<u64>>,
        Vec<Bits>, Vec<Duration>, Vec<NonZeroU8>, Vec<Result<u8, bool>>, Vec<[u16; 2]>, Vec<Box<u8>>, Vec<H256>,
        VecDeque<u8>, VecDeque<String>, BinaryHeap<u8>, BinaryHeap<String>, BTreeSet<u8>, BTreeSet<String>, BTreeSet<(u8, bool)>,
        [u8; 0], [u8; 1], [u8; 3], [u16; 2], [String; 2], [Vec<u8>; 2], [[u8; 2]; 3], [Option<u16>; 2], [u8; 32], [Compact<u32>; 3], [(); 2],
        Option<u8>, Option<bool>, Option<String>, Option<()>, Option<Option<u8>>, Option<Vec<u16>>, Option<(u8, u16)>, Option<Compact<u16>>, Option<Box<u8>>,
        Result<u8, String>, Result<(), u8>, Result<Option<bool>, Vec<u8>>, Result<Result<u8, u16>, ()>,
        (u8,), (String,), (Compact<u32>,), (Option<u8>,), ((),), ((u8,),), (Vec<u8>,), ((u8, u16),),
        (u8, u16), (u8, String, bool), (Vec<u8>, Option<u16>), ((u8, u16), (String,)), (Compact<u8>, Compact<u128>), (bool, (), u8, (), i64),
        (u8, bool, u8, bool, u8, bool), (Bits, u8), (Duration, u8), (H160, u8), (NonZeroU16, bool), (Range<u8>, u8), T18,
        H128, H160, H256, H384, H512, H768,
        Option<Result<Vec<(u8, String)>, Box<[u8; 2]>>>, Vec<Vec<Vec<u8>>>, Box<Vec<Arc<Option<Rc<u16>>>>>, Cow<'static, [u8]>, Cow<'static, [String]>,
        Vec<PhantomData<u32>>, Vec<()>, Range<String>, Option<Range<u8>>, Vec<RangeInclusive<u8>>,
    ]
}

fn check(ctx: &mut Ctx, row: &Row, reg: &PortableRegistry, id: u32, types: &Types, b: &[u8]) {
    // elements without bytes can claim any number of items
    let zst = ["Vec<()>", "Vec<PhantomData<u32>>"].contains(&row.name);
    if zst && Dec::new(types, b).compact(64).is_ok_and(|n| n > 1000) {
        ctx.outcome("outside-bounds");
        return;
    }
    let r = refdec(types, id as usize + 1, b);
    if r == Err(RErr::Depth) {
        ctx.outcome("outside-bounds");
        return;
    }
    if !ctx.state(&(row.name, b)) {
        return;
    }
    let both = row.both;
    let (x, xn, y, yn) = match ctx.lib(|| both(b, reg, id)) {
        Ok(v) => v,
        Err(Panicked(p)) => {
            ctx.violation(&format!("panic:{}:{}", row.name, hex(b)), || format!("decoding {} into {} panicked: {p}", hex(b), row.name));
            return;
        }
    };
    ctx.trace();
    let bad = match (&x, &y) {
        (Ok(v), Ok(w)) if v != w => Some(format!("gave {:?}, the codec {:?}", v, w)),
        (Ok(_), Ok(_)) if xn != yn => Some(format!("took {xn} bytes, the codec {yn}")),
        (Ok(v), Err(e)) => Some(format!("gave {:?}, the codec rejects the bytes: {e}", v)),
        (Err(e), Ok(w)) => Some(format!("failed [{e}], the codec gives {:?}", w)),
        (Ok(_), Ok(_)) => {
            ctx.outcome("accepted");
            None
        }
        (Err(_), Err(_)) => {
            ctx.outcome("rejected");
            None
        }
    };
    if let Some(d) = bad {
        ctx.violation(&format!("{}:{}", row.name, hex(b)), || format!("decoding {} into {} {d}", hex(b), row.name));
    }
}

fn body(ctx: &mut Ctx) {
    for row in rows() {
        ctx.case(
            || format!("codec and type information for {}", row.name),
            |ctx| {
                let (reg, id) = (row.registry)();
                let types = import(&reg);
                let t = id as usize + 1;
                let dev = ctx.by_tier(2, 3);
                let all = traces(ctx, &types, t, GenOpts::ALL, dev, ctx.by_tier(40_000, 400_000));
                for b in &all {
                    check(ctx, &row, &reg, id, &types, b);
                    for tail in [&[0u8][..], &[0xff, 1, 2]] {
                        let mut c = b.clone();
                        c.extend_from_slice(tail);
                        check(ctx, &row, &reg, id, &types, &c);
                    }
                    for c in cuts(b.len()) {
                        check(ctx, &row, &reg, id, &types, &b[..c]);
                    }
                    // a changed byte
                    if b.len() <= ctx.by_tier(12, 40) {
                        for i in 0..b.len() {
                            for x in [0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xff] {
                                let mut c = b.clone();
                                if c[i] != x {
                                    c[i] = x;
                                    check(ctx, &row, &reg, id, &types, &c);
                                }
                            }
                        }
                    }
                }
                ctx.sample(|| format!("{}: {} byte traces with tails, cuts and changed bytes", row.name, all.len()));
            },
        );
        ctx.case(
            || format!("long values for {}", row.name),
            |ctx| {
                let (reg, id) = (row.registry)();
                let types = import(&reg);
                let lens = ctx.by_tier(few(), LENS.to_vec());
                for b in long_of(&types, id as usize + 1, &lens, ctx.by_tier(4, 8), 0) {
                    check(ctx, &row, &reg, id, &types, &b);
                    for c in [b.len() - 1, b.len() / 2] {
                        check(ctx, &row, &reg, id, &types, &b[..c]);
                    }
                }
            },
        );
        if ["String", "Cow<'static, str>", "Box<String>"].contains(&row.name) {
            ctx.case(
                || format!("texts for {}", row.name),
                |ctx| {
                    let (reg, id) = (row.registry)();
                    let types = import(&reg);
                    texts(ctx.by_tier(2, 3), true, &mut |b| check(ctx, &row, &reg, id, &types, b));
                },
            );
        }
        ctx.case(
            || format!("arbitrary bytes for {}", row.name),
            |ctx| {
                let (reg, id) = (row.registry)();
                let types = import(&reg);
                check(ctx, &row, &reg, id, &types, &[]);
                for x in 0..=65535u16 {
                    check(ctx, &row, &reg, id, &types, &x.to_be_bytes());
                }
                for x in 0..=255u8 {
                    check(ctx, &row, &reg, id, &types, &[x]);
                }
                let alpha = [0u8, 1, 2, 3, 4, 5, 8, 0x0c, 0x61, 0x80, 0xc8, 0xff];
                let max = ctx.by_tier(4, 5);
                for len in 3..=max {
                    let st = explore(0, 0, |ch| {
                        let b: Vec<u8> = (0..len).map(|_| alpha[ch.free(alpha.len())]).collect();
                        check(ctx, &row, &reg, id, &types, &b);
                    });
                    ctx.nodes(st);
                }
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C11",
        states_are: "states: distinct (Rust type, byte string) pairs; transitions: library calls; traces: byte strings decoded by both decoders and compared",
        bounds: |t| match t {
            Tier::Quick => "135 built-in types; all boundary and invalid encodings with <=2 deviations, each with 2 tails, all truncations and single changed bytes; all strings of <=2 bytes, alphabet-12 strings of <=4 bytes; strings: each character, and <=2 of 32 special ones; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others".into(),
            Tier::Thorough => "as quick with <=3 deviations, changed bytes in encodings of up to 40 bytes, alphabet-12 strings of <=5 bytes; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["the static codec (parity-scale-codec) is the reference", "sequences of zero-sized elements with claimed lengths beyond 1000 are left out", "string-keyed maps are left out: they take named fields (C14), not their own sequence encoding", "tuples with PhantomData members are left out: their type information omits those members"],
        require: &["accepted", "rejected"],
        body,
    })
}

// Written by tools/gen_derived.py; do not edit.
//! Derived target types.
#![allow(non_camel_case_types)]
use crate::targets::*;
use codec::Compact;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::marker::PhantomData;

/// Cannot be decoded; only ever a skipped field.
#[derive(Debug)]
pub struct NoDec(pub u32);
impl Default for NoDec {
    fn default() -> Self {
        NoDec(77)
    }
}

fn f<T: Tg>(name: &str) -> FieldT {
    FieldT { name: name.to_string(), skip: false, tgt: T::tgt(), def: O::Unit }
}
fn sk(name: &str, def: O) -> FieldT {
    FieldT { name: name.to_string(), skip: true, tgt: Tgt::Phantom, def }
}

#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na0m0  {
}
impl Tg for Na0m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![])) }
    fn out(self) -> O { O::Struct(vec![]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na1m0  {
    /// documented
    pub a: u8,
}
impl Tg for Na1m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na1m1  {
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub a: NoDec,
}
impl Tg for Na1m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na2m0  {
    #[allow(dead_code)]
    pub a: u8,
    #[codec(encoded_as = "u8")]
    pub b: String,
}
impl Tg for Na2m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na2m1  {
    #[codec(compact)]
    #[codec(skip)]
    pub a: NoDec,
    #[doc = "skip"]
    pub b: String,
}
impl Tg for Na2m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), f::<String>("b")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na2m2  {
    pub a: u8,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub b: NoDec,
}
impl Tg for Na2m2 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), O::Num(false, self.b.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na2m3  {
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub a: u8,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub b: NoDec,
}
impl Tg for Na2m3 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 0)), sk("b", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), O::Num(false, self.b.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m0  {
    #[codec(encoded_as = "u8")]
    pub a: u8,
    /// skip
    #[codec(compact)]
    pub b: String,
    #[doc = "skip"]
    pub c: u16,
}
impl Tg for Na3m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b"), f::<u16>("c")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), self.c.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m1  {
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub a: NoDec,
    /// documented
    pub b: String,
    #[codec(compact)]
    pub c: u16,
}
impl Tg for Na3m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), f::<String>("b"), f::<u16>("c")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), self.c.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m2  {
    #[allow(dead_code)]
    pub a: u8,
    #[codec(compact, skip)]
    pub b: String,
    /// skip
    #[codec(compact)]
    pub c: u16,
}
impl Tg for Na3m2 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Str(String::new())), f::<u16>("c")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), self.c.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m3  {
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub a: NoDec,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub b: String,
    /// documented
    pub c: u16,
}
impl Tg for Na3m3 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), sk("b", O::Str(String::new())), f::<u16>("c")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), self.c.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m4  {
    #[codec(compact)]
    pub a: u8,
    #[allow(dead_code)]
    pub b: String,
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub c: NoDec,
}
impl Tg for Na3m4 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b"), sk("c", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), O::Num(false, self.c.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m5  {
    #[codec(skip)]
    #[codec(compact)]
    pub a: NoDec,
    #[doc = "skip"]
    pub b: String,
    #[codec(skip, compact)]
    pub c: NoDec,
}
impl Tg for Na3m5 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), f::<String>("b"), sk("c", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), O::Num(false, self.c.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m6  {
    /// documented
    pub a: u8,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub b: String,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub c: NoDec,
}
impl Tg for Na3m6 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Str(String::new())), sk("c", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), O::Num(false, self.c.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na3m7  {
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub a: NoDec,
    #[decode_as_type(skip)]
    pub b: String,
    #[codec(skip)]
    pub c: NoDec,
}
impl Tg for Na3m7 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), sk("b", O::Str(String::new())), sk("c", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), O::Num(false, self.c.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m0  {
    pub a: u8,
    /// documented
    pub b: String,
    #[codec(compact)]
    pub c: u16,
    #[allow(dead_code)]
    pub d: bool,
}
impl Tg for Na4m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b"), f::<u16>("c"), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), self.c.out(), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m1  {
    #[codec(skip, compact)]
    pub a: u8,
    /// skip
    #[codec(compact)]
    pub b: String,
    #[doc = "skip"]
    pub c: u16,
    pub d: bool,
}
impl Tg for Na4m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 0)), f::<String>("b"), f::<u16>("c"), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), self.c.out(), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m2  {
    /// documented
    pub a: u8,
    #[decode_as_type(skip)]
    pub b: NoDec,
    #[allow(dead_code)]
    pub c: u16,
    #[codec(encoded_as = "u8")]
    pub d: bool,
}
impl Tg for Na4m2 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Num(false, 77)), f::<u16>("c"), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), O::Num(false, self.b.0 as u128), self.c.out(), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m3  {
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub a: NoDec,
    #[codec(skip)]
    #[codec(compact)]
    pub b: String,
    pub c: u16,
    /// documented
    pub d: bool,
}
impl Tg for Na4m3 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), sk("b", O::Str(String::new())), f::<u16>("c"), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), self.c.out(), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m4  {
    #[codec(compact)]
    pub a: u8,
    #[allow(dead_code)]
    pub b: String,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub c: NoDec,
    /// skip
    #[codec(compact)]
    pub d: bool,
}
impl Tg for Na4m4 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b"), sk("c", O::Num(false, 77)), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), O::Num(false, self.c.0 as u128), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m5  {
    #[decode_as_type(skip)]
    pub a: NoDec,
    pub b: String,
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub c: u16,
    #[codec(compact)]
    pub d: bool,
}
impl Tg for Na4m5 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), f::<String>("b"), sk("c", O::Num(false, 0)), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), self.c.out(), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m6  {
    #[allow(dead_code)]
    pub a: u8,
    #[codec(compact)]
    #[codec(skip)]
    pub b: String,
    #[codec(skip, compact)]
    pub c: NoDec,
    #[doc = "skip"]
    pub d: bool,
}
impl Tg for Na4m6 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Str(String::new())), sk("c", O::Num(false, 77)), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), O::Num(false, self.c.0 as u128), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m7  {
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub a: u8,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub b: NoDec,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub c: NoDec,
    #[allow(dead_code)]
    pub d: bool,
}
impl Tg for Na4m7 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 0)), sk("b", O::Num(false, 77)), sk("c", O::Num(false, 77)), f::<bool>("d")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), O::Num(false, self.b.0 as u128), O::Num(false, self.c.0 as u128), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m8  {
    #[codec(encoded_as = "u8")]
    pub a: u8,
    /// skip
    #[codec(compact)]
    pub b: String,
    #[doc = "skip"]
    pub c: u16,
    #[codec(skip)]
    #[codec(compact)]
    pub d: NoDec,
}
impl Tg for Na4m8 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b"), f::<u16>("c"), sk("d", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), self.c.out(), O::Num(false, self.d.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m9  {
    #[codec(compact)]
    #[codec(skip)]
    pub a: NoDec,
    #[codec(compact)]
    pub b: String,
    #[allow(dead_code)]
    pub c: u16,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub d: NoDec,
}
impl Tg for Na4m9 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), f::<String>("b"), f::<u16>("c"), sk("d", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), self.c.out(), O::Num(false, self.d.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m10  {
    /// skip
    #[codec(compact)]
    pub a: u8,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub b: NoDec,
    pub c: u16,
    #[codec(skip)]
    pub d: bool,
}
impl Tg for Na4m10 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Num(false, 77)), f::<u16>("c"), sk("d", O::Bool(false))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), O::Num(false, self.b.0 as u128), self.c.out(), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m11  {
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub a: NoDec,
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub b: NoDec,
    #[codec(encoded_as = "u8")]
    pub c: u16,
    #[codec(compact)]
    #[codec(skip)]
    pub d: NoDec,
}
impl Tg for Na4m11 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), sk("b", O::Num(false, 77)), f::<u16>("c"), sk("d", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), O::Num(false, self.b.0 as u128), self.c.out(), O::Num(false, self.d.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m12  {
    #[doc = "skip"]
    pub a: u8,
    pub b: String,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub c: NoDec,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub d: NoDec,
}
impl Tg for Na4m12 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), f::<String>("b"), sk("c", O::Num(false, 77)), sk("d", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), O::Num(false, self.c.0 as u128), O::Num(false, self.d.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m13  {
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub a: u8,
    #[codec(encoded_as = "u8")]
    pub b: String,
    #[codec(skip)]
    pub c: NoDec,
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub d: bool,
}
impl Tg for Na4m13 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 0)), f::<String>("b"), sk("c", O::Num(false, 77)), sk("d", O::Bool(false))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out(), O::Num(false, self.c.0 as u128), self.d.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m14  {
    pub a: u8,
    #[codec(skip)]
    #[codec(compact)]
    pub b: NoDec,
    #[codec(compact)]
    #[codec(skip)]
    pub c: u16,
    #[codec(skip, compact)]
    pub d: NoDec,
}
impl Tg for Na4m14 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a"), sk("b", O::Num(false, 77)), sk("c", O::Num(false, 0)), sk("d", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), O::Num(false, self.b.0 as u128), self.c.out(), O::Num(false, self.d.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Na4m15  {
    #[codec(compact, skip)]
    pub a: NoDec,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub b: String,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub c: NoDec,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub d: NoDec,
}
impl Tg for Na4m15 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("a", O::Num(false, 77)), sk("b", O::Str(String::new())), sk("c", O::Num(false, 77)), sk("d", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.a.0 as u128), self.b.out(), O::Num(false, self.c.0 as u128), O::Num(false, self.d.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un0m0(
) ;
impl Tg for Un0m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![])) }
    fn out(self) -> O { O::Struct(vec![]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un1m0(
    /// documented
    pub u8,
) ;
impl Tg for Un1m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un1m1(
    #[codec(skip)]
    pub NoDec,
) ;
impl Tg for Un1m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un2m0(
    #[allow(dead_code)]
    pub u8,
    #[codec(encoded_as = "u8")]
    pub String,
) ;
impl Tg for Un2m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un2m1(
    #[codec(skip)]
    #[codec(compact)]
    pub NoDec,
    #[doc = "skip"]
    pub String,
) ;
impl Tg for Un2m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), f::<String>("")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un2m2(
    pub u8,
    #[codec(compact, skip)]
    pub NoDec,
) ;
impl Tg for Un2m2 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un2m3(
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub NoDec,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub String,
) ;
impl Tg for Un2m3 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), sk("", O::Str(String::new()))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m0(
    #[codec(encoded_as = "u8")]
    pub u8,
    /// skip
    #[codec(compact)]
    pub String,
    #[doc = "skip"]
    pub u16,
) ;
impl Tg for Un3m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), f::<u16>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m1(
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub NoDec,
    /// documented
    pub String,
    #[codec(compact)]
    pub u16,
) ;
impl Tg for Un3m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), f::<String>(""), f::<u16>("")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out(), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m2(
    #[allow(dead_code)]
    pub u8,
    #[codec(skip, compact)]
    pub NoDec,
    /// skip
    #[codec(compact)]
    pub u16,
) ;
impl Tg for Un3m2 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77)), f::<u16>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m3(
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub NoDec,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub NoDec,
    /// documented
    pub u16,
) ;
impl Tg for Un3m3 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), sk("", O::Num(false, 77)), f::<u16>("")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), O::Num(false, self.1.0 as u128), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m4(
    #[codec(compact)]
    pub u8,
    #[allow(dead_code)]
    pub String,
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub u16,
) ;
impl Tg for Un3m4 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), sk("", O::Num(false, 0))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m5(
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub NoDec,
    #[doc = "skip"]
    pub String,
    #[codec(compact)]
    #[codec(skip)]
    pub u16,
) ;
impl Tg for Un3m5 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), f::<String>(""), sk("", O::Num(false, 0))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out(), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m6(
    /// documented
    pub u8,
    #[codec(compact, skip)]
    pub NoDec,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub u16,
) ;
impl Tg for Un3m6 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77)), sk("", O::Num(false, 0))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un3m7(
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub NoDec,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub NoDec,
    #[decode_as_type(skip)]
    pub u16,
) ;
impl Tg for Un3m7 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), sk("", O::Num(false, 77)), sk("", O::Num(false, 0))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), O::Num(false, self.1.0 as u128), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m0(
    pub u8,
    /// documented
    pub String,
    #[codec(compact)]
    pub u16,
    #[allow(dead_code)]
    pub bool,
) ;
impl Tg for Un4m0 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), f::<u16>(""), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m1(
    #[codec(compact)]
    #[codec(skip)]
    pub NoDec,
    /// skip
    #[codec(compact)]
    pub String,
    #[doc = "skip"]
    pub u16,
    pub bool,
) ;
impl Tg for Un4m1 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), f::<String>(""), f::<u16>(""), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out(), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m2(
    /// documented
    pub u8,
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub NoDec,
    #[allow(dead_code)]
    pub u16,
    #[codec(encoded_as = "u8")]
    pub bool,
) ;
impl Tg for Un4m2 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77)), f::<u16>(""), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m3(
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub NoDec,
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub NoDec,
    pub u16,
    /// documented
    pub bool,
) ;
impl Tg for Un4m3 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), sk("", O::Num(false, 77)), f::<u16>(""), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), O::Num(false, self.1.0 as u128), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m4(
    #[codec(compact)]
    pub u8,
    #[allow(dead_code)]
    pub String,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub NoDec,
    /// skip
    #[codec(compact)]
    pub bool,
) ;
impl Tg for Un4m4 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), sk("", O::Num(false, 77)), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), O::Num(false, self.2.0 as u128), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m5(
    #[decode_as_type(skip)]
    #[codec(skip)]
    /// documented
    pub u8,
    pub String,
    #[codec(skip)]
    pub NoDec,
    #[codec(compact)]
    pub bool,
) ;
impl Tg for Un4m5 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 0)), f::<String>(""), sk("", O::Num(false, 77)), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), O::Num(false, self.2.0 as u128), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m6(
    #[allow(dead_code)]
    pub u8,
    #[codec(skip)]
    #[codec(compact)]
    pub NoDec,
    #[codec(compact)]
    #[codec(skip)]
    pub u16,
    #[doc = "skip"]
    pub bool,
) ;
impl Tg for Un4m6 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77)), sk("", O::Num(false, 0)), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m7(
    #[codec(compact, skip)]
    pub NoDec,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub String,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub NoDec,
    #[allow(dead_code)]
    pub bool,
) ;
impl Tg for Un4m7 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), sk("", O::Str(String::new())), sk("", O::Num(false, 77)), f::<bool>("")])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out(), O::Num(false, self.2.0 as u128), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m8(
    #[codec(encoded_as = "u8")]
    pub u8,
    /// skip
    #[codec(compact)]
    pub String,
    #[doc = "skip"]
    pub u16,
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub bool,
) ;
impl Tg for Un4m8 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), f::<u16>(""), sk("", O::Bool(false))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m9(
    #[codec(skip)]
    #[codec(compact)]
    pub NoDec,
    #[codec(compact)]
    pub String,
    #[allow(dead_code)]
    pub u16,
    #[codec(compact, skip)]
    pub NoDec,
) ;
impl Tg for Un4m9 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), f::<String>(""), f::<u16>(""), sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out(), self.2.out(), O::Num(false, self.3.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m10(
    /// skip
    #[codec(compact)]
    pub u8,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub String,
    pub u16,
    #[decode_as_type(skip)]
    pub NoDec,
) ;
impl Tg for Un4m10 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Str(String::new())), f::<u16>(""), sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out(), O::Num(false, self.3.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m11(
    #[codec(skip)]
    pub u8,
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub NoDec,
    #[codec(encoded_as = "u8")]
    pub u16,
    #[codec(skip)]
    #[codec(compact)]
    pub bool,
) ;
impl Tg for Un4m11 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 0)), sk("", O::Num(false, 77)), f::<u16>(""), sk("", O::Bool(false))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128), self.2.out(), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m12(
    #[doc = "skip"]
    pub u8,
    pub String,
    #[codec(compact, skip)]
    pub u16,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub NoDec,
) ;
impl Tg for Un4m12 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), sk("", O::Num(false, 0)), sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out(), O::Num(false, self.3.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m13(
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub NoDec,
    #[codec(encoded_as = "u8")]
    pub String,
    #[decode_as_type(skip)]
    pub NoDec,
    #[codec(skip)]
    pub NoDec,
) ;
impl Tg for Un4m13 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), f::<String>(""), sk("", O::Num(false, 77)), sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), self.1.out(), O::Num(false, self.2.0 as u128), O::Num(false, self.3.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m14(
    pub u8,
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub NoDec,
    #[codec(skip)]
    #[codec(compact)]
    pub NoDec,
    #[codec(compact)]
    #[codec(skip)]
    pub bool,
) ;
impl Tg for Un4m14 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77)), sk("", O::Num(false, 77)), sk("", O::Bool(false))])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), O::Num(false, self.1.0 as u128), O::Num(false, self.2.0 as u128), self.3.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Un4m15(
    #[codec(skip, compact)]
    pub NoDec,
    #[codec(compact, skip)]
    pub NoDec,
    #[codec(encoded_as = "u8")]
    /// documented
    #[codec(skip)]
    pub u16,
    /// documented
    #[allow(dead_code)]
    #[decode_as_type(skip)]
    pub NoDec,
) ;
impl Tg for Un4m15 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![sk("", O::Num(false, 77)), sk("", O::Num(false, 77)), sk("", O::Num(false, 0)), sk("", O::Num(false, 77))])) }
    fn out(self) -> O { O::Struct(vec![O::Num(false, self.0.0 as u128), O::Num(false, self.1.0 as u128), self.2.out(), O::Num(false, self.3.0 as u128)]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct UnitS;
impl Tg for UnitS {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unit) }
    fn out(self) -> O { O::Struct(vec![]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct RawS  {
    pub r#type: u8,
    pub r#fn: String,
    pub ty: u16,
}
impl Tg for RawS {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("type"), f::<String>("fn"), f::<u16>("ty")])) }
    fn out(self) -> O { O::Struct(vec![self.r#type.out(), self.r#fn.out(), self.ty.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct RawK  {
    #[codec(skip)]
    pub r#type: u8,
    pub r#match: bool,
}
impl Tg for RawK {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![sk("type", O::Num(false, 0)), f::<bool>("match")])) }
    fn out(self) -> O { O::Struct(vec![self.r#type.out(), self.r#match.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(non_snake_case)]
pub struct Snake  {
    pub foo_bar: u8,
    pub _lead: String,
    pub trail_: u16,
    pub camelCase: bool,
}
impl Tg for Snake {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("foo_bar"), f::<String>("_lead"), f::<u16>("trail_"), f::<bool>("camelCase")])) }
    fn out(self) -> O { O::Struct(vec![self.foo_bar.out(), self._lead.out(), self.trail_.out(), self.camelCase.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct NewU8(
    pub u8,
) ;
impl Tg for NewU8 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct NewNew(
    pub NewU8,
) ;
impl Tg for NewNew {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<NewU8>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct NewC  {
    #[codec(compact)]
    pub v: Compact<u32>,
}
impl Tg for NewC {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<Compact<u32>>("v")])) }
    fn out(self) -> O { O::Struct(vec![self.v.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct NewVec(
    pub Vec<u16>,
) ;
impl Tg for NewVec {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<Vec<u16>>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Deep  {
    pub x: Na3m2,
    pub y: Vec<Un2m0>,
    pub z: Option<NewC>,
}
impl Tg for Deep {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<Na3m2>("x"), f::<Vec<Un2m0>>("y"), f::<Option<NewC>>("z")])) }
    fn out(self) -> O { O::Struct(vec![self.x.out(), self.y.out(), self.z.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Mixd(
    pub BTreeMap<String, u8>,
    pub [Na1m0; 2],
    pub (u8, Na2m0),
) ;
impl Tg for Mixd {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<BTreeMap<String, u8>>(""), f::<[Na1m0; 2]>(""), f::<(u8, Na2m0)>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct HasEnum  {
    pub e: Ea,
    pub f: Option<Ea>,
    pub g: Vec<Ea>,
}
impl Tg for HasEnum {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<Ea>("e"), f::<Option<Ea>>("f"), f::<Vec<Ea>>("g")])) }
    fn out(self) -> O { O::Struct(vec![self.e.out(), self.f.out(), self.g.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Big20  {
    pub f0: u8,
    pub f1: String,
    pub f2: u16,
    #[decode_as_type(skip)]
    pub f3: bool,
    pub f4: u8,
    pub f5: String,
    pub f6: u16,
    pub f7: bool,
    pub f8: u8,
    pub f9: String,
    pub f10: u16,
    pub f11: bool,
    pub f12: u8,
    pub f13: String,
    pub f14: u16,
    pub f15: bool,
    #[decode_as_type(skip)]
    pub f16: u8,
    pub f17: String,
    pub f18: u16,
    pub f19: bool,
}
impl Tg for Big20 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("f0"), f::<String>("f1"), f::<u16>("f2"), sk("f3", O::Bool(false)), f::<u8>("f4"), f::<String>("f5"), f::<u16>("f6"), f::<bool>("f7"), f::<u8>("f8"), f::<String>("f9"), f::<u16>("f10"), f::<bool>("f11"), f::<u8>("f12"), f::<String>("f13"), f::<u16>("f14"), f::<bool>("f15"), sk("f16", O::Num(false, 0)), f::<String>("f17"), f::<u16>("f18"), f::<bool>("f19")])) }
    fn out(self) -> O { O::Struct(vec![self.f0.out(), self.f1.out(), self.f2.out(), self.f3.out(), self.f4.out(), self.f5.out(), self.f6.out(), self.f7.out(), self.f8.out(), self.f9.out(), self.f10.out(), self.f11.out(), self.f12.out(), self.f13.out(), self.f14.out(), self.f15.out(), self.f16.out(), self.f17.out(), self.f18.out(), self.f19.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct BigU18(
    pub u8,
    pub String,
    pub u16,
    pub bool,
    pub u8,
    pub String,
    pub u16,
    pub bool,
    pub u8,
    #[codec(skip)]
    pub String,
    pub u16,
    pub bool,
    pub u8,
    pub String,
    pub u16,
    pub bool,
    pub u8,
    pub String,
) ;
impl Tg for BigU18 {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<u8>(""), f::<String>(""), f::<u16>(""), f::<bool>(""), f::<u8>(""), f::<String>(""), f::<u16>(""), f::<bool>(""), f::<u8>(""), sk("", O::Str(String::new())), f::<u16>(""), f::<bool>(""), f::<u8>(""), f::<String>(""), f::<u16>(""), f::<bool>(""), f::<u8>(""), f::<String>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out(), self.2.out(), self.3.out(), self.4.out(), self.5.out(), self.6.out(), self.7.out(), self.8.out(), self.9.out(), self.10.out(), self.11.out(), self.12.out(), self.13.out(), self.14.out(), self.15.out(), self.16.out(), self.17.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Gen1<T>  {
    pub a: T,
    pub b: Vec<T>,
}
impl<T: Tg> Tg for Gen1<T> {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<T>("a"), f::<Vec<T>>("b")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct GenW<T, U: Sized>(
    pub T,
    pub U,
) ;
impl<T: Tg, U: Tg> Tg for GenW<T, U> {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<T>(""), f::<U>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Lif<'a>  {
    pub s: Cow<'a, str>,
    pub n: u8,
}
impl<'a> Tg for Lif<'a> {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<Cow<'a, str>>("s"), f::<u8>("n")])) }
    fn out(self) -> O { O::Struct(vec![self.s.out(), self.n.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
pub struct Con<const N: usize>(
    pub [u8; N],
    pub u16,
) ;
impl<const N: usize> Tg for Con<N> {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unnamed(vec![f::<[u8; N]>(""), f::<u16>("")])) }
    fn out(self) -> O { O::Struct(vec![self.0.out(), self.1.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[decode_as_type(crate_path = "scale_decode")]
pub struct Crp  {
    pub a: u8,
}
impl Tg for Crp {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<u8>("a")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[decode_as_type(trait_bounds = "")]
pub struct Bnd<T>  {
    pub a: PhantomData<T>,
    pub b: u8,
}
impl<T> Tg for Bnd<T> {
    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Named(vec![f::<PhantomData<T>>("a"), f::<u8>("b")])) }
    fn out(self) -> O { O::Struct(vec![self.a.out(), self.b.out()]) }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Ea {
    A,
    B( u8,  String),
    C {  x: u16,  y: bool },
}
impl Tg for Ea {
    fn tgt() -> Tgt { Tgt::Enum(vec![("A".to_string(), FieldsT::Unit), ("B".to_string(), FieldsT::Unnamed(vec![f::<u8>(""), f::<String>("")])), ("C".to_string(), FieldsT::Named(vec![f::<u16>("x"), f::<bool>("y")]))]) }
    fn out(self) -> O { match self { Ea::A => O::Enum("A".into(), vec![]), Ea::B(v0, v1) => O::Enum("B".into(), vec![v0.out(), v1.out()]), Ea::C{ x: v0, y: v1 } => O::Enum("C".into(), vec![v0.out(), v1.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Eb {
    #[codec(index = 9)]
    One( u8),
    #[codec(index = 0)]
    Two,
    Three {  v: u8 },
}
impl Tg for Eb {
    fn tgt() -> Tgt { Tgt::Enum(vec![("One".to_string(), FieldsT::Unnamed(vec![f::<u8>("")])), ("Two".to_string(), FieldsT::Unit), ("Three".to_string(), FieldsT::Named(vec![f::<u8>("v")]))]) }
    fn out(self) -> O { match self { Eb::One(v0) => O::Enum("One".into(), vec![v0.out()]), Eb::Two => O::Enum("Two".into(), vec![]), Eb::Three{ v: v0 } => O::Enum("Three".into(), vec![v0.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Ec {
    P = 5,
    Q = 1,
    R,
}
impl Tg for Ec {
    fn tgt() -> Tgt { Tgt::Enum(vec![("P".to_string(), FieldsT::Unit), ("Q".to_string(), FieldsT::Unit), ("R".to_string(), FieldsT::Unit)]) }
    fn out(self) -> O { match self { Ec::P => O::Enum("P".into(), vec![]), Ec::Q => O::Enum("Q".into(), vec![]), Ec::R => O::Enum("R".into(), vec![]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Ed {
    S { #[codec(skip)] x: NoDec,  y: u8, #[decode_as_type(skip)] #[codec(compact)] z: NoDec },
    T( u8, #[codec(skip)] NoDec, #[codec(compact)] u16),
    AllSkip { #[decode_as_type(skip)] k: u8 },
}
impl Tg for Ed {
    fn tgt() -> Tgt { Tgt::Enum(vec![("S".to_string(), FieldsT::Named(vec![sk("x", O::Num(false, 77)), f::<u8>("y"), sk("z", O::Num(false, 77))])), ("T".to_string(), FieldsT::Unnamed(vec![f::<u8>(""), sk("", O::Num(false, 77)), f::<u16>("")])), ("AllSkip".to_string(), FieldsT::Named(vec![sk("k", O::Num(false, 0))]))]) }
    fn out(self) -> O { match self { Ed::S{ x: v0, y: v1, z: v2 } => O::Enum("S".into(), vec![O::Num(false, v0.0 as u128), v1.out(), O::Num(false, v2.0 as u128)]), Ed::T(v0, v1, v2) => O::Enum("T".into(), vec![v0.out(), O::Num(false, v1.0 as u128), v2.out()]), Ed::AllSkip{ k: v0 } => O::Enum("AllSkip".into(), vec![v0.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Ee {
    r#type,
    r#move {  r#in: u8,  out: bool },
}
impl Tg for Ee {
    fn tgt() -> Tgt { Tgt::Enum(vec![("type".to_string(), FieldsT::Unit), ("move".to_string(), FieldsT::Named(vec![f::<u8>("in"), f::<bool>("out")]))]) }
    fn out(self) -> O { match self { Ee::r#type => O::Enum("type".into(), vec![]), Ee::r#move{ r#in: v0, out: v1 } => O::Enum("move".into(), vec![v0.out(), v1.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
#[allow(non_snake_case)]
pub enum Cases {
    FooBar,
    snake_case {  in_it: u8,  camelCase: u8 },
    HTTP( u8),
    V2,
}
impl Tg for Cases {
    fn tgt() -> Tgt { Tgt::Enum(vec![("FooBar".to_string(), FieldsT::Unit), ("snake_case".to_string(), FieldsT::Named(vec![f::<u8>("in_it"), f::<u8>("camelCase")])), ("HTTP".to_string(), FieldsT::Unnamed(vec![f::<u8>("")])), ("V2".to_string(), FieldsT::Unit)]) }
    fn out(self) -> O { match self { Cases::FooBar => O::Enum("FooBar".into(), vec![]), Cases::snake_case{ in_it: v0, camelCase: v1 } => O::Enum("snake_case".into(), vec![v0.out(), v1.out()]), Cases::HTTP(v0) => O::Enum("HTTP".into(), vec![v0.out()]), Cases::V2 => O::Enum("V2".into(), vec![]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Ef {
    Only( Vec<u8>),
}
impl Tg for Ef {
    fn tgt() -> Tgt { Tgt::Enum(vec![("Only".to_string(), FieldsT::Unnamed(vec![f::<Vec<u8>>("")]))]) }
    fn out(self) -> O { match self { Ef::Only(v0) => O::Enum("Only".into(), vec![v0.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Eg {
    E0 {  },
    E1(),
    E2,
}
impl Tg for Eg {
    fn tgt() -> Tgt { Tgt::Enum(vec![("E0".to_string(), FieldsT::Named(vec![])), ("E1".to_string(), FieldsT::Unnamed(vec![])), ("E2".to_string(), FieldsT::Unit)]) }
    fn out(self) -> O { match self { Eg::E0{  } => O::Enum("E0".into(), vec![]), Eg::E1() => O::Enum("E1".into(), vec![]), Eg::E2 => O::Enum("E2".into(), vec![]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Tree {
    Leaf( u8),
    Node {  l: Box<Tree>,  r: Box<Tree> },
    Many( Vec<Tree>),
}
impl Tg for Tree {
    fn tgt() -> Tgt { Tgt::Enum(vec![("Leaf".to_string(), FieldsT::Unnamed(vec![f::<u8>("")])), ("Node".to_string(), FieldsT::Named(vec![FieldT { name: "l".into(), skip: false, tgt: Tgt::Lazy(Tree::tgt), def: O::Unit }, FieldT { name: "r".into(), skip: false, tgt: Tgt::Lazy(Tree::tgt), def: O::Unit }])), ("Many".to_string(), FieldsT::Unnamed(vec![FieldT { name: "".into(), skip: false, tgt: Tgt::List(Box::new(Tgt::Lazy(Tree::tgt))), def: O::Unit }]))]) }
    fn out(self) -> O { match self { Tree::Leaf(v0) => O::Enum("Leaf".into(), vec![v0.out()]), Tree::Node{ l: v0, r: v1 } => O::Enum("Node".into(), vec![v0.out(), v1.out()]), Tree::Many(v0) => O::Enum("Many".into(), vec![v0.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Eh {
    Some( u8),
    None,
    Ok( u8),
    Err( String),
}
impl Tg for Eh {
    fn tgt() -> Tgt { Tgt::Enum(vec![("Some".to_string(), FieldsT::Unnamed(vec![f::<u8>("")])), ("None".to_string(), FieldsT::Unit), ("Ok".to_string(), FieldsT::Unnamed(vec![f::<u8>("")])), ("Err".to_string(), FieldsT::Unnamed(vec![f::<String>("")]))]) }
    fn out(self) -> O { match self { Eh::Some(v0) => O::Enum("Some".into(), vec![v0.out()]), Eh::None => O::Enum("None".into(), vec![]), Eh::Ok(v0) => O::Enum("Ok".into(), vec![v0.out()]), Eh::Err(v0) => O::Enum("Err".into(), vec![v0.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Never {
}
impl Tg for Never {
    fn tgt() -> Tgt { Tgt::Enum(vec![]) }
    fn out(self) -> O { match self {} }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum GenE<T> {
    T( T),
    U {  u: Vec<T>,  w: Option<T> },
}
impl<T: Tg> Tg for GenE<T> {
    fn tgt() -> Tgt { Tgt::Enum(vec![("T".to_string(), FieldsT::Unnamed(vec![f::<T>("")])), ("U".to_string(), FieldsT::Named(vec![f::<Vec<T>>("u"), f::<Option<T>>("w")]))]) }
    fn out(self) -> O { match self { GenE::T(v0) => O::Enum("T".into(), vec![v0.out()]), GenE::U{ u: v0, w: v1 } => O::Enum("U".into(), vec![v0.out(), v1.out()]) } }
}
#[derive(scale_decode::DecodeAsType, Debug)]
#[allow(dead_code)]
pub enum Nest {
    E( Ea),
    S( Na2m0),
    O {  o: Option<Ea>,  s: Un2m1 },
}
impl Tg for Nest {
    fn tgt() -> Tgt { Tgt::Enum(vec![("E".to_string(), FieldsT::Unnamed(vec![f::<Ea>("")])), ("S".to_string(), FieldsT::Unnamed(vec![f::<Na2m0>("")])), ("O".to_string(), FieldsT::Named(vec![f::<Option<Ea>>("o"), f::<Un2m1>("s")]))]) }
    fn out(self) -> O { match self { Nest::E(v0) => O::Enum("E".into(), vec![v0.out()]), Nest::S(v0) => O::Enum("S".into(), vec![v0.out()]), Nest::O{ o: v0, s: v1 } => O::Enum("O".into(), vec![v0.out(), v1.out()]) } }
}

/// All of them.
#[macro_export]
macro_rules! derived_structs {
    ($m:ident) => { $crate::$m![Na0m0, Na1m0, Na1m1, Na2m0, Na2m1, Na2m2, Na2m3, Na3m0, Na3m1, Na3m2, Na3m3, Na3m4, Na3m5, Na3m6, Na3m7, Na4m0, Na4m1, Na4m2, Na4m3, Na4m4, Na4m5, Na4m6, Na4m7, Na4m8, Na4m9, Na4m10, Na4m11, Na4m12, Na4m13, Na4m14, Na4m15, Un0m0, Un1m0, Un1m1, Un2m0, Un2m1, Un2m2, Un2m3, Un3m0, Un3m1, Un3m2, Un3m3, Un3m4, Un3m5, Un3m6, Un3m7, Un4m0, Un4m1, Un4m2, Un4m3, Un4m4, Un4m5, Un4m6, Un4m7, Un4m8, Un4m9, Un4m10, Un4m11, Un4m12, Un4m13, Un4m14, Un4m15, UnitS, RawS, RawK, Snake, NewU8, NewNew, NewC, NewVec, Deep, Mixd, HasEnum, Big20, BigU18, Gen1<u8>, Gen1<Option<String>>, Gen1<Na1m0>, GenW<u16, bool>, GenW<Box<u8>, Vec<u8>>, Lif<'static>, Con<0>, Con<3>, Crp, Bnd<NoDec>] };
}
/// All of them.
#[macro_export]
macro_rules! derived_enums {
    ($m:ident) => { $crate::$m![Ea, Eb, Ec, Ed, Ee, Cases, Ef, Eg, Tree, Eh, Never, GenE<u8>, GenE<Ea>, Nest] };
}

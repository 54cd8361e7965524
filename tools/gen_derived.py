#!/usr/bin/env python3
"""Writes mc/src/derived.rs: derived target types with, for each, what it is (independent of the derive macro)."""
import itertools, os
out = []
names = []
fnames = []   # types which also implement DecodeAsFields (structs)
TY = ["u8", "String", "u16", "bool"]
NM = ["a", "b", "c", "d"]
SKIPS = [
    ["#[decode_as_type(skip)]"],
    ["#[codec(skip)]"],
    ["#[codec(compact)]", "#[decode_as_type(skip)]"],
    ["#[decode_as_type(skip)]", "#[codec(compact)]"],
    ["#[codec(skip)]", "#[codec(compact)]"],
    ["#[codec(compact)]", "#[codec(skip)]"],
    ["#[codec(skip, compact)]"],
    ["#[codec(compact, skip)]"],
    ['#[codec(encoded_as = "u8")]', "/// documented", "#[codec(skip)]"],
    ["/// documented", "#[allow(dead_code)]", "#[decode_as_type(skip)]"],
    ["#[decode_as_type(skip)]", "#[codec(skip)]", "/// documented"],
]
KEEPS = [[], ["/// documented"], ["#[codec(compact)]"], ["#[allow(dead_code)]"], ['#[codec(encoded_as = "u8")]'], ["/// skip", "#[codec(compact)]"], ['#[doc = "skip"]']]

def ft(name, ty, skip):
    # FieldT expression
    if skip:
        d = {"NoDec": "O::Num(false, 77)", "u8": "O::Num(false, 0)", "String": "O::Str(String::new())",
             "u16": "O::Num(false, 0)", "bool": "O::Bool(false)"}[ty]
        return f'sk("{name}", {d})'
    return f'f::<{ty}>("{name}")'

def val(expr, ty):
    return f"O::Num(false, {expr}.0 as u128)" if ty == "NoDec" else f"{expr}.out()"

def struct(name, kind, fields, attrs="", generics="", use=None, where="", tyname=None, isf=True, targs=None):
    """fields: (name, type, skip, [attrs])"""
    full = name + generics
    o = []
    o.append("#[derive(scale_decode::DecodeAsType, Debug)]")
    if attrs: o.append(attrs)
    if kind == "named":
        o.append(f"pub struct {full} {where} {{")
        for n, t, s, a in fields:
            for x in a: o.append("    " + x)
            o.append(f"    pub {n}: {t},")
        o.append("}")
    elif kind == "unnamed":
        o.append(f"pub struct {full}(")
        for n, t, s, a in fields:
            for x in a: o.append("    " + x)
            o.append(f"    pub {t},")
        o.append(f") {where};")
    else:
        o.append(f"pub struct {full};")
    u = targs if targs is not None else (name,)
    ig, ty = "", name
    if generics:
        ig, ty = use
    o.append(f"impl{ig} Tg for {ty} {{")
    k = {"named": "Named", "unnamed": "Unnamed", "unit": "Unit"}[kind]
    if kind == "unit":
        o.append("    fn tgt() -> Tgt { Tgt::Struct(FieldsT::Unit) }")
        o.append("    fn out(self) -> O { O::Struct(vec![]) }")
    else:
        fl = ", ".join(ft(n.replace("r#", "") if kind == "named" else "", t, s) for n, t, s, a in fields)
        o.append(f"    fn tgt() -> Tgt {{ Tgt::Struct(FieldsT::{k}(vec![{fl}])) }}")
        vs = ", ".join(val(f"self.{n if kind=='named' else i}", t) for i, (n, t, s, a) in enumerate(fields))
        o.append(f"    fn out(self) -> O {{ O::Struct(vec![{vs}]) }}")
    o.append("}")
    out.append("\n".join(o))
    for x in u:
        names.append(x)
        if isf: fnames.append(x)

i = 0
for kind, pre in (("named", "Na"), ("unnamed", "Un")):
    for n in range(0, 5):
        for mask in range(1 << n):
            fields = []
            for j in range(n):
                s = bool(mask >> j & 1)
                i += 1
                ty = TY[j]
                if s and (i % 3): ty = "NoDec"
                a = SKIPS[i % len(SKIPS)] if s else KEEPS[i % len(KEEPS)]
                fields.append((NM[j], ty, s, a))
            struct(f"{pre}{n}m{mask}", kind, fields)
struct("UnitS", "unit", [])
struct("RawS", "named", [("r#type", "u8", False, []), ("r#fn", "String", False, []), ("ty", "u16", False, [])])
struct("RawK", "named", [("r#type", "u8", True, ["#[codec(skip)]"]), ("r#match", "bool", False, [])])
struct("Snake", "named", [("foo_bar", "u8", False, []), ("_lead", "String", False, []), ("trail_", "u16", False, []), ("camelCase", "bool", False, [])], attrs="#[allow(non_snake_case)]")
struct("NewU8", "unnamed", [("", "u8", False, [])])
struct("NewNew", "unnamed", [("", "NewU8", False, [])])
struct("NewC", "named", [("v", "Compact<u32>", False, ["#[codec(compact)]"])])
struct("NewVec", "unnamed", [("", "Vec<u16>", False, [])])
struct("Deep", "named", [("x", "Na3m2", False, []), ("y", "Vec<Un2m0>", False, []), ("z", "Option<NewC>", False, [])])
struct("Mixd", "unnamed", [("", "BTreeMap<String, u8>", False, []), ("", "[Na1m0; 2]", False, []), ("", "(u8, Na2m0)", False, [])])
struct("HasEnum", "named", [("e", "Ea", False, []), ("f", "Option<Ea>", False, []), ("g", "Vec<Ea>", False, [])])
struct("Big20", "named", [(f"f{k}", TY[k % 4], k in (3, 16), ["#[decode_as_type(skip)]"] if k in (3, 16) else []) for k in range(20)])
struct("BigU18", "unnamed", [("", TY[k % 4], k == 9, ["#[codec(skip)]"] if k == 9 else []) for k in range(18)])
struct("Gen1", "named", [("a", "T", False, []), ("b", "Vec<T>", False, [])], generics="<T>", use=("<T: Tg>", "Gen1<T>"), targs=["Gen1<u8>", "Gen1<Option<String>>", "Gen1<Na1m0>"])
struct("Gen2", "unnamed", [("", "T", False, []), ("", "U", False, [])], generics="<T, U>", use=("<T: Tg, U: Tg>", "Gen2<T, U>"), where="where T: Clone", targs=[]) if False else None
struct("GenW", "unnamed", [("", "T", False, []), ("", "U", False, [])], generics="<T, U: Sized>", use=("<T: Tg, U: Tg>", "GenW<T, U>"), targs=["GenW<u16, bool>", "GenW<Box<u8>, Vec<u8>>"])
struct("Lif", "named", [("s", "Cow<'a, str>", False, []), ("n", "u8", False, [])], generics="<'a>", use=("<'a>", "Lif<'a>"), targs=["Lif<'static>"])
struct("Con", "unnamed", [("", "[u8; N]", False, []), ("", "u16", False, [])], generics="<const N: usize>", use=("<const N: usize>", "Con<N>"), targs=["Con<0>", "Con<3>"])
struct("Crp", "named", [("a", "u8", False, [])], attrs='#[decode_as_type(crate_path = "scale_decode")]')
struct("Bnd", "named", [("a", "PhantomData<T>", False, []), ("b", "u8", False, [])], attrs='#[decode_as_type(trait_bounds = "")]', generics="<T>", use=("<T>", "Bnd<T>"), targs=["Bnd<NoDec>"])

enames = []
def enum(name, vs, generics="", use=None, targs=None, attrs="", lazy=False):
    """vs: (attrs, variant ident, kind, fields, disc)"""
    o = ["#[derive(scale_decode::DecodeAsType, Debug)]", "#[allow(dead_code)]"]
    if attrs: o.append(attrs)
    o.append(f"pub enum {name}{generics} {{")
    tg, ms = [], []
    for at, v, kind, fields, disc in vs:
        for x in at: o.append("    " + x)
        pub = v.replace("r#", "")
        lab = [f"v{i}" for i in range(len(fields))]
        if kind == "named":
            b = ", ".join(" ".join(a) + f" {n}: {t}" for n, t, s, a in fields)
            o.append(f"    {v} {{ {b} }}{disc},")
            pat = "{ " + ", ".join(f"{f[0]}: {l}" for f, l in zip(fields, lab)) + " }"
            k = "Named"
        elif kind == "unnamed":
            b = ", ".join(" ".join(a) + f" {t}" for n, t, s, a in fields)
            o.append(f"    {v}({b}){disc},")
            pat = "(" + ", ".join(lab) + ")"
            k = "Unnamed"
        else:
            o.append(f"    {v}{disc},")
            pat, k = "", "Unit"
        def fx(n, t, s):
            if t == f"Box<{name}>": return f'FieldT {{ name: "{n}".into(), skip: false, tgt: Tgt::Lazy({name}::tgt), def: O::Unit }}'
            if t == f"Vec<{name}>": return f'FieldT {{ name: "{n}".into(), skip: false, tgt: Tgt::List(Box::new(Tgt::Lazy({name}::tgt))), def: O::Unit }}'
            return ft(n, t, s)
        if kind == "unit":
            tg.append(f'("{pub}".to_string(), FieldsT::Unit)')
            ms.append(f'{name}::{v} => O::Enum("{pub}".into(), vec![])')
        else:
            fl = ", ".join(fx(n.replace("r#", "") if kind == "named" else "", t, s) for n, t, s, a in fields)
            tg.append(f'("{pub}".to_string(), FieldsT::{k}(vec![{fl}]))')
            vl = ", ".join(val(l, f[1]) for l, f in zip(lab, fields))
            ms.append(f'{name}::{v}{pat} => O::Enum("{pub}".into(), vec![{vl}])')
    o.append("}")
    ig, ty = use or ("", name)
    o.append(f"impl{ig} Tg for {ty} {{")
    o.append(f"    fn tgt() -> Tgt {{ Tgt::Enum(vec![{', '.join(tg)}]) }}")
    body = "match self { " + ", ".join(ms) + " }" if ms else "match self {}"
    o.append(f"    fn out(self) -> O {{ {body} }}")
    o.append("}")
    out.append("\n".join(o))
    for x in (targs if targs is not None else [name]):
        enames.append(x)

enum("Ea", [([], "A", "unit", [], ""), ([], "B", "unnamed", [("", "u8", False, []), ("", "String", False, [])], ""), ([], "C", "named", [("x", "u16", False, []), ("y", "bool", False, [])], "")])
enum("Eb", [(["#[codec(index = 9)]"], "One", "unnamed", [("", "u8", False, [])], ""), (["#[codec(index = 0)]"], "Two", "unit", [], ""), ([], "Three", "named", [("v", "u8", False, [])], "")])
enum("Ec", [([], "P", "unit", [], " = 5"), ([], "Q", "unit", [], " = 1"), ([], "R", "unit", [], "")])
enum("Ed", [([], "S", "named", [("x", "NoDec", True, ["#[codec(skip)]"]), ("y", "u8", False, []), ("z", "NoDec", True, ["#[decode_as_type(skip)]", "#[codec(compact)]"])], ""), ([], "T", "unnamed", [("", "u8", False, []), ("", "NoDec", True, ["#[codec(skip)]"]), ("", "u16", False, ["#[codec(compact)]"])], ""), ([], "AllSkip", "named", [("k", "u8", True, ["#[decode_as_type(skip)]"])], "")])
enum("Ee", [([], "r#type", "unit", [], ""), ([], "r#move", "named", [("r#in", "u8", False, []), ("out", "bool", False, [])], "")])
enum("Cases", [([], "FooBar", "unit", [], ""), ([], "snake_case", "named", [("in_it", "u8", False, []), ("camelCase", "u8", False, [])], ""), ([], "HTTP", "unnamed", [("", "u8", False, [])], ""), ([], "V2", "unit", [], "")], attrs="#[allow(non_snake_case)]")
enum("Ef", [([], "Only", "unnamed", [("", "Vec<u8>", False, [])], "")])
enum("Eg", [([], "E0", "named", [], ""), ([], "E1", "unnamed", [], ""), ([], "E2", "unit", [], "")])
enum("Tree", [([], "Leaf", "unnamed", [("", "u8", False, [])], ""), ([], "Node", "named", [("l", "Box<Tree>", False, []), ("r", "Box<Tree>", False, [])], ""), ([], "Many", "unnamed", [("", "Vec<Tree>", False, [])], "")])
enum("Eh", [([], "Some", "unnamed", [("", "u8", False, [])], ""), ([], "None", "unit", [], ""), ([], "Ok", "unnamed", [("", "u8", False, [])], ""), ([], "Err", "unnamed", [("", "String", False, [])], "")])
enum("Never", [])
enum("GenE", [([], "T", "unnamed", [("", "T", False, [])], ""), ([], "U", "named", [("u", "Vec<T>", False, []), ("w", "Option<T>", False, [])], "")], generics="<T>", use=("<T: Tg>", "GenE<T>"), targs=["GenE<u8>", "GenE<Ea>"])
enum("Nest", [([], "E", "unnamed", [("", "Ea", False, [])], ""), ([], "S", "unnamed", [("", "Na2m0", False, [])], ""), ([], "O", "named", [("o", "Option<Ea>", False, []), ("s", "Un2m1", False, [])], "")])

hdr = '''// Written by tools/gen_derived.py; do not edit.
//! Derived target types.
#![allow(non_camel_case_types)]
use crate::targets::*;
use codec::Compact;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::marker::PhantomData;

/// Cannot be decoded; only ever a skipped field.
#[derive(Debug)]
pub struct NoDec(pub u32);
impl Default for NoDec {
    fn default() -> Self {
        NoDec(77)
    }
}

fn f<T: Tg>(name: &str) -> FieldT {
    FieldT { name: name.to_string(), skip: false, tgt: T::tgt(), def: O::Unit }
}
fn sk(name: &str, def: O) -> FieldT {
    FieldT { name: name.to_string(), skip: true, tgt: Tgt::Phantom, def }
}

'''
dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "src", "derived.rs")
def macro(m, ns):
    l = ", ".join(ns)
    return f"/// All of them.\n#[macro_export]\nmacro_rules! {m} {{\n    ($m:ident) => {{ $crate::$m![{l}] }};\n}}\n"
use = ''
with open(dst, "w") as fh:
    fh.write(hdr + "\n".join(out) + "\n\n" + macro("derived_structs", fnames) + macro("derived_enums", enames))

//! Type universe: a small type AST, interned into a registry that is itself a `TypeResolver`.
use scale_type_resolver::{
    BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, Variant,
};
use std::collections::HashMap;

pub type Tid = usize;

#[derive(Clone, Debug)]
pub struct VDef {
    pub name: String,
    pub index: u8,
    pub fields: Vec<(Option<String>, Tid)>,
}

#[derive(Clone, Debug)]
pub enum Def {
    /// The resolver does not know this ID.
    NotFound,
    /// The resolver fails (`Err`) on this ID.
    Fail(String),
    Prim(Primitive),
    Comp { path: Vec<String>, fields: Vec<(Option<String>, Tid)> },
    Var { path: Vec<String>, vars: Vec<VDef> },
    Seq(Tid),
    Arr(Tid, usize),
    Tup(Vec<Tid>),
    Compact(Tid),
    Bits(BitsStoreFormat, BitsOrderFormat),
}

/// The registry. ID 0 (the default ID) is never a known type.
#[derive(Clone, Debug)]
pub struct Types {
    pub defs: Vec<Def>,
    intern: HashMap<String, Tid>,
}

impl Default for Types {
    fn default() -> Self {
        Self::new()
    }
}

impl Types {
    pub fn new() -> Types {
        Types { defs: vec![Def::NotFound], intern: HashMap::new() }
    }
    pub fn add(&mut self, d: Def) -> Tid {
        let key = format!("{d:?}");
        if let Some(t) = self.intern.get(&key) {
            return *t;
        }
        self.defs.push(d);
        let t = self.defs.len() - 1;
        self.intern.insert(key, t);
        t
    }
    /// Add a definition with a fresh ID even if an equal one exists.
    pub fn add_fresh(&mut self, d: Def) -> Tid {
        self.defs.push(d);
        self.defs.len() - 1
    }
    pub fn set(&mut self, t: Tid, d: Def) {
        self.defs[t] = d;
    }
    pub fn get(&self, t: Tid) -> &Def {
        self.defs.get(t).unwrap_or(&Def::NotFound)
    }
    pub fn prim(&mut self, p: Primitive) -> Tid {
        self.add(Def::Prim(p))
    }
    pub fn u8(&mut self) -> Tid {
        self.prim(Primitive::U8)
    }
    pub fn u16(&mut self) -> Tid {
        self.prim(Primitive::U16)
    }
    pub fn u32(&mut self) -> Tid {
        self.prim(Primitive::U32)
    }
    pub fn u64(&mut self) -> Tid {
        self.prim(Primitive::U64)
    }
    pub fn str(&mut self) -> Tid {
        self.prim(Primitive::Str)
    }
    pub fn bool(&mut self) -> Tid {
        self.prim(Primitive::Bool)
    }
    pub fn tup(&mut self, v: &[Tid]) -> Tid {
        self.add(Def::Tup(v.to_vec()))
    }
    pub fn seq(&mut self, t: Tid) -> Tid {
        self.add(Def::Seq(t))
    }
    pub fn arr(&mut self, t: Tid, n: usize) -> Tid {
        self.add(Def::Arr(t, n))
    }
    pub fn compact(&mut self, t: Tid) -> Tid {
        self.add(Def::Compact(t))
    }
    pub fn bits(&mut self, s: BitsStoreFormat, o: BitsOrderFormat) -> Tid {
        self.add(Def::Bits(s, o))
    }
    /// Composite; a field name of "" means unnamed.
    pub fn comp(&mut self, path: &[&str], fields: &[(&str, Tid)]) -> Tid {
        self.add(Def::Comp { path: strs(path), fields: flds(fields) })
    }
    pub fn named(&mut self, fields: &[(&str, Tid)]) -> Tid {
        self.comp(&["m", "N"], fields)
    }
    pub fn unnamed(&mut self, fields: &[Tid]) -> Tid {
        let f: Vec<(&str, Tid)> = fields.iter().map(|t| ("", *t)).collect();
        self.comp(&["m", "U"], &f)
    }
    pub fn var(&mut self, vars: &[(&str, u8, &[(&str, Tid)])]) -> Tid {
        let vars = vars
            .iter()
            .map(|(n, i, f)| VDef { name: n.to_string(), index: *i, fields: flds(f) })
            .collect();
        self.add(Def::Var { path: strs(&["m", "E"]), vars })
    }
    pub fn option(&mut self, t: Tid) -> Tid {
        self.add(Def::Var {
            path: strs(&["Option"]),
            vars: vec![
                VDef { name: "None".into(), index: 0, fields: vec![] },
                VDef { name: "Some".into(), index: 1, fields: vec![(None, t)] },
            ],
        })
    }
    pub fn result(&mut self, t: Tid, e: Tid) -> Tid {
        self.add(Def::Var {
            path: strs(&["Result"]),
            vars: vec![
                VDef { name: "Ok".into(), index: 0, fields: vec![(None, t)] },
                VDef { name: "Err".into(), index: 1, fields: vec![(None, e)] },
            ],
        })
    }
    pub fn notfound(&mut self) -> Tid {
        self.add(Def::NotFound)
    }
    pub fn fail(&mut self, msg: &str) -> Tid {
        self.add(Def::Fail(msg.to_string()))
    }
    /// A type whose resolver fails with a message of several lines.
    pub fn failing(&mut self) -> Tid {
        self.fail(&format!(
            "no such thing: {{0}} %s \\ 'a' \"\u{20ac}\"\nin {}\r\n\tat the cause: c.d[3] (e); f",
            "line two, which is long, ".repeat(20)
        ))
    }
    /// A short human readable rendering of a type.
    pub fn show(&self, t: Tid) -> String {
        self.show_d(t, 6)
    }
    fn show_d(&self, t: Tid, d: usize) -> String {
        if d == 0 {
            return "..".into();
        }
        let s = |t: &Tid| self.show_d(*t, d - 1);
        let fs = |f: &Vec<(Option<String>, Tid)>| {
            let mut v: Vec<String> = f
                .iter()
                .map(|(n, t)| match n {
                    Some(n) => format!("{n}:{}", s(t)),
                    None => s(t),
                })
                .collect();
            if v.len() > 8 {
                let n = v.len();
                v.truncate(3);
                v.push(format!("..{n} fields"));
            }
            v.join(",")
        };
        match self.get(t) {
            Def::NotFound => "?".into(),
            Def::Fail(m) => format!("fail({})", m.chars().take(13).collect::<String>()),
            Def::Prim(p) => format!("{p:?}").to_lowercase(),
            Def::Comp { path, fields } => format!("{}{{{}}}", path.join("::"), fs(fields)),
            Def::Var { vars, .. } => {
                let mut v: Vec<String> =
                    vars.iter().map(|v| format!("{}#{}({})", v.name, v.index, fs(&v.fields))).collect();
                if v.len() > 6 {
                    let n = v.len();
                    v.truncate(2);
                    v.push(format!("..{n} variants"));
                }
                format!("<{}>", v.join("|"))
            }
            Def::Seq(t) => format!("[{}]", s(t)),
            Def::Arr(t, n) => format!("[{};{n}]", s(t)),
            Def::Tup(v) => format!("({})", v.iter().map(s).collect::<Vec<_>>().join(",")),
            Def::Compact(t) => format!("Compact({})", s(t)),
            Def::Bits(st, o) => format!("Bits{st:?}{o:?}"),
        }
    }
}

fn strs(p: &[&str]) -> Vec<String> {
    p.iter().map(|s| s.to_string()).collect()
}
fn flds(f: &[(&str, Tid)]) -> Vec<(Option<String>, Tid)> {
    f.iter().map(|(n, t)| ((!n.is_empty()).then(|| n.to_string()), *t)).collect()
}

/// A resolver over our universe, able to translate its own IDs.
pub trait Res: TypeResolver {
    fn id(&self, t: Tid) -> Self::TypeId;
    fn tid(&self, id: &Self::TypeId) -> Tid;
    /// How errors and IDs are shown by this resolver (for error text comparison).
    fn label(&self) -> &'static str;
}

#[derive(Debug, Clone)]
pub struct ResErr(pub String);
impl std::fmt::Display for ResErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

thread_local! {
    static RESOLVED: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, u64::MAX)) };
}
/// Start counting how often `Types` is asked for a type on this thread; asking more often than `limit`
/// times panics (a decode that keeps looping).
pub fn watch_resolves(limit: u64) {
    RESOLVED.with(|r| r.set((0, limit)))
}
pub fn resolves() -> u64 {
    RESOLVED.with(|r| r.get().0)
}

impl TypeResolver for Types {
    type TypeId = usize;
    type Error = ResErr;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = usize>>(
        &'this self,
        id: usize,
        v: V,
    ) -> Result<V::Value, ResErr> {
        RESOLVED.with(|r| {
            let (n, max) = r.get();
            r.set((n + 1, max));
            if n + 1 > max {
                panic!("decoding does not come to an end: {n} types resolved");
            }
        });
        fn fields(f: &[(Option<String>, Tid)]) -> impl ExactSizeIterator<Item = Field<'_, usize>> {
            f.iter().map(|(n, t)| Field::new(*t, n.as_deref()))
        }
        Ok(match self.get(id) {
            Def::NotFound => v.visit_not_found(),
            Def::Fail(m) => return Err(ResErr(m.clone())),
            Def::Prim(p) => v.visit_primitive(*p),
            Def::Comp { path, fields: f } => {
                v.visit_composite(path.iter().map(|s| s.as_str()), fields(f))
            }
            Def::Var { path, vars } => v.visit_variant(
                path.iter().map(|s| s.as_str()),
                vars.iter().map(|v| Variant {
                    index: v.index,
                    name: v.name.as_str(),
                    fields: fields(&v.fields),
                }),
            ),
            Def::Seq(t) => v.visit_sequence(core::iter::empty(), *t),
            Def::Arr(t, n) => v.visit_array(*t, *n),
            Def::Tup(ts) => v.visit_tuple(ts.iter().copied()),
            Def::Compact(t) => v.visit_compact(*t),
            Def::Bits(s, o) => v.visit_bit_sequence(*s, *o),
        })
    }
}
impl Res for Types {
    fn id(&self, t: Tid) -> usize {
        t
    }
    fn tid(&self, id: &usize) -> Tid {
        *id
    }
    fn label(&self) -> &'static str {
        "usize"
    }
}

/// What all string IDs start with.
const STR_ID: &str = "Vec<(u8, \u{e9}::T<'a>)>\n\t[a.b] \"c\" ";

/// Same types, with `String` IDs (not `Copy`), owned iterators and reversed numbering.
#[derive(Clone, Debug)]
pub struct StrRes(pub Types);
impl StrRes {
    fn n(&self) -> usize {
        self.0.defs.len()
    }
}
impl TypeResolver for StrRes {
    type TypeId = String;
    type Error = ResErr;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = String>>(
        &'this self,
        id: String,
        v: V,
    ) -> Result<V::Value, ResErr> {
        let t = self.tid(&id);
        let fields = |f: &'this [(Option<String>, Tid)]| -> std::vec::IntoIter<Field<'this, String>> {
            f.iter()
                .map(|(n, t)| Field::new(self.id(*t), n.as_deref()))
                .collect::<Vec<_>>()
                .into_iter()
        };
        Ok(match self.0.get(t) {
            Def::NotFound => v.visit_not_found(),
            Def::Fail(m) => return Err(ResErr(m.clone())),
            Def::Prim(p) => v.visit_primitive(*p),
            Def::Comp { path, fields: f } => {
                v.visit_composite(path.iter().map(|s| s.as_str()).collect::<Vec<_>>().into_iter(), fields(f))
            }
            Def::Var { path, vars } => v.visit_variant(
                path.iter().map(|s| s.as_str()).collect::<Vec<_>>().into_iter(),
                vars.iter()
                    .map(|v| Variant { index: v.index, name: v.name.as_str(), fields: fields(&v.fields) })
                    .collect::<Vec<_>>()
                    .into_iter(),
            ),
            Def::Seq(t) => v.visit_sequence(core::iter::once("Seq"), self.id(*t)),
            Def::Arr(t, n) => v.visit_array(self.id(*t), *n),
            Def::Tup(ts) => v.visit_tuple(ts.iter().map(|t| self.id(*t)).collect::<Vec<_>>().into_iter()),
            Def::Compact(t) => v.visit_compact(self.id(*t)),
            Def::Bits(s, o) => v.visit_bit_sequence(*s, *o),
        })
    }
}
impl Res for StrRes {
    fn id(&self, t: Tid) -> String {
        if t < self.n() {
            format!("{STR_ID}type-{}", self.n() - t)
        } else {
            format!("{STR_ID}unknown-{t}")
        }
    }
    fn tid(&self, id: &String) -> Tid {
        let Some(id) = id.strip_prefix(STR_ID) else { return usize::MAX };
        id.strip_prefix("type-")
            .and_then(|n| n.parse::<usize>().ok())
            .map(|n| self.n() - n)
            .or_else(|| id.strip_prefix("unknown-").and_then(|n| n.parse().ok()))
            .unwrap_or(usize::MAX)
    }
    fn label(&self) -> &'static str {
        "string"
    }
}

/// An ID that says where it was met; equal types have many different IDs, and the default ID is a known type.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct AId {
    t: u32,
    at: u32,
}
/// Same types, with a different ID for each place a type is mentioned.
#[derive(Clone, Debug)]
pub struct AliasRes(pub Types);
impl AliasRes {
    fn sub(&self, id: &AId, k: usize, t: Tid) -> AId {
        AId { at: id.at.wrapping_mul(31).wrapping_add(k as u32 + 1), ..self.id(t) }
    }
}
impl TypeResolver for AliasRes {
    type TypeId = AId;
    type Error = ResErr;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = AId>>(&'this self, id: AId, v: V) -> Result<V::Value, ResErr> {
        let fields = |f: &'this [(Option<String>, Tid)], k: usize| -> std::vec::IntoIter<Field<'this, AId>> {
            f.iter()
                .enumerate()
                .map(|(i, (n, t))| Field::new(self.sub(&id, k + i, *t), n.as_deref()))
                .collect::<Vec<_>>()
                .into_iter()
        };
        Ok(match self.0.get(self.tid(&id)) {
            Def::NotFound => v.visit_not_found(),
            Def::Fail(m) => return Err(ResErr(format!("alias: {m}"))),
            Def::Prim(p) => v.visit_primitive(*p),
            Def::Comp { path, fields: f } => v.visit_composite(path.iter().map(|s| s.as_str()), fields(f, 0)),
            Def::Var { path, vars } => v.visit_variant(
                path.iter().map(|s| s.as_str()),
                vars.iter()
                    .map(|v| Variant { index: v.index, name: v.name.as_str(), fields: fields(&v.fields, 100 * v.index as usize) })
                    .collect::<Vec<_>>()
                    .into_iter(),
            ),
            Def::Seq(t) => v.visit_sequence(["std", "Vec"].into_iter(), self.sub(&id, 0, *t)),
            Def::Arr(t, n) => v.visit_array(self.sub(&id, 0, *t), *n),
            Def::Tup(ts) => {
                v.visit_tuple(ts.iter().enumerate().map(|(i, t)| self.sub(&id, i, *t)).collect::<Vec<_>>().into_iter())
            }
            Def::Compact(t) => v.visit_compact(self.sub(&id, 0, *t)),
            Def::Bits(s, o) => v.visit_bit_sequence(*s, *o),
        })
    }
}
impl Res for AliasRes {
    fn id(&self, t: Tid) -> AId {
        let n = self.0.defs.len();
        AId { t: if t < n { (t + n - 1) % n } else { t } as u32, at: 0 }
    }
    fn tid(&self, id: &AId) -> Tid {
        let n = self.0.defs.len();
        let t = id.t as usize;
        if t < n {
            (t + 1) % n
        } else {
            t
        }
    }
    fn label(&self) -> &'static str {
        "alias"
    }
}

/// Same types described by a `scale_info::PortableRegistry`.
pub struct PortRes {
    pub reg: scale_info::PortableRegistry,
    n: usize,
    nf: std::collections::HashSet<Tid>,
}
impl PortRes {
    pub fn new(types: &Types) -> PortRes {
        use scale_info::{form::PortableForm, *};
        let n = types.defs.len();
        // IDs 0..n are ours (NotFound and Fail mapped specially); then bit store and order types.
        let mut defs: Vec<Type<PortableForm>> = vec![];
        let path = |p: &[String]| Path::<PortableForm> { segments: p.to_vec() };
        let mk = |p: Path<PortableForm>, d: TypeDef<PortableForm>| Type { path: p, type_params: vec![], type_def: d, docs: vec![] };
        let idof = |t: Tid| -> u32 {
            if t >= n || matches!(types.get(t), Def::NotFound) { 1_000_000 + t as u32 } else { t as u32 }
        };
        let store_base = n as u32;
        let order_base = store_base + 4;
        let flds = |f: &[(Option<String>, Tid)]| -> Vec<scale_info::Field<PortableForm>> {
            f.iter()
                .map(|(nm, t)| scale_info::Field { name: nm.clone(), ty: idof(*t).into(), type_name: None, docs: vec![] })
                .collect()
        };
        for d in &types.defs {
            let t = match d {
                // never referred to: unknown types get IDs beyond the registry
                Def::NotFound => mk(path(&[]), TypeDef::Tuple(TypeDefTuple { fields: vec![] })),
                // store type is not a supported primitive: the resolver fails
                Def::Fail(_) => mk(
                    path(&[]),
                    TypeDef::BitSequence(TypeDefBitSequence {
                        bit_store_type: order_base.into(),
                        bit_order_type: order_base.into(),
                    }),
                ),
                Def::Prim(p) => {
                    use scale_type_resolver::Primitive as P;
                    let p = match p {
                        P::Bool => TypeDefPrimitive::Bool,
                        P::Char => TypeDefPrimitive::Char,
                        P::Str => TypeDefPrimitive::Str,
                        P::U8 => TypeDefPrimitive::U8,
                        P::U16 => TypeDefPrimitive::U16,
                        P::U32 => TypeDefPrimitive::U32,
                        P::U64 => TypeDefPrimitive::U64,
                        P::U128 => TypeDefPrimitive::U128,
                        P::U256 => TypeDefPrimitive::U256,
                        P::I8 => TypeDefPrimitive::I8,
                        P::I16 => TypeDefPrimitive::I16,
                        P::I32 => TypeDefPrimitive::I32,
                        P::I64 => TypeDefPrimitive::I64,
                        P::I128 => TypeDefPrimitive::I128,
                        P::I256 => TypeDefPrimitive::I256,
                    };
                    mk(path(&[]), TypeDef::Primitive(p))
                }
                Def::Comp { path: p, fields } => {
                    mk(path(p), TypeDef::Composite(TypeDefComposite { fields: flds(fields) }))
                }
                Def::Var { path: p, vars } => mk(
                    path(p),
                    TypeDef::Variant(TypeDefVariant {
                        variants: vars
                            .iter()
                            .map(|v| scale_info::Variant {
                                name: v.name.clone(),
                                fields: flds(&v.fields),
                                index: v.index,
                                docs: vec![],
                            })
                            .collect(),
                    }),
                ),
                Def::Seq(t) => mk(path(&[]), TypeDef::Sequence(TypeDefSequence { type_param: idof(*t).into() })),
                Def::Arr(t, n) => {
                    mk(path(&[]), TypeDef::Array(TypeDefArray { len: *n as u32, type_param: idof(*t).into() }))
                }
                Def::Tup(ts) => mk(
                    path(&[]),
                    TypeDef::Tuple(TypeDefTuple { fields: ts.iter().map(|t| idof(*t).into()).collect() }),
                ),
                Def::Compact(t) => mk(path(&[]), TypeDef::Compact(TypeDefCompact { type_param: idof(*t).into() })),
                Def::Bits(s, o) => {
                    let s = match s {
                        BitsStoreFormat::U8 => 0,
                        BitsStoreFormat::U16 => 1,
                        BitsStoreFormat::U32 => 2,
                        BitsStoreFormat::U64 => 3,
                    };
                    let o = match o {
                        BitsOrderFormat::Lsb0 => 0,
                        BitsOrderFormat::Msb0 => 1,
                    };
                    mk(
                        path(&[]),
                        TypeDef::BitSequence(TypeDefBitSequence {
                            bit_store_type: (store_base + s).into(),
                            bit_order_type: (order_base + o).into(),
                        }),
                    )
                }
            };
            defs.push(t);
        }
        for p in [TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U32, TypeDefPrimitive::U64] {
            defs.push(mk(path(&[]), TypeDef::Primitive(p)));
        }
        for o in ["Lsb0", "Msb0"] {
            defs.push(mk(
                path(&["bitvec".into(), "order".into(), o.into()]),
                TypeDef::Composite(TypeDefComposite { fields: vec![] }),
            ));
        }
        let reg = PortableRegistry {
            types: defs.into_iter().enumerate().map(|(i, ty)| PortableType { id: i as u32, ty }).collect(),
        };
        let nf = (0..n).filter(|t| matches!(types.get(*t), Def::NotFound)).collect();
        PortRes { reg, n, nf }
    }
}
impl TypeResolver for PortRes {
    type TypeId = u32;
    type Error = scale_type_resolver::portable_registry::Error;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(
        &'this self,
        id: u32,
        v: V,
    ) -> Result<V::Value, Self::Error> {
        self.reg.resolve_type(id, v)
    }
}
impl Res for PortRes {
    fn id(&self, t: Tid) -> u32 {
        // unknown types keep an ID that the registry does not have
        if t >= self.n || self.nf.contains(&t) {
            1_000_000 + t as u32
        } else {
            t as u32
        }
    }
    fn tid(&self, id: &u32) -> Tid {
        if *id >= 1_000_000 {
            (*id - 1_000_000) as usize
        } else {
            *id as usize
        }
    }
    fn label(&self) -> &'static str {
        "portable"
    }
}

//! Target types: what decoding into a Rust type should give, written independently of the crate, and a
//! table of real Rust types to decode into.
use crate::core_checks::*;
use crate::refdec::*;
use crate::run::*;
use crate::ty::*;
use scale_decode::error::{ErrorKind, Location};
use scale_decode::visitor::DecodeError;
use scale_decode::{DecodeAsType, TypeResolver};

/// Canonical form of a decoded Rust value.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum O {
    Bool(bool),
    Char(char),
    Str(String),
    Num(bool, u128),
    Bits(Vec<bool>),
    Unit,
    List(Vec<O>),
    Map(Vec<(String, O)>),
    Opt(Option<Box<O>>),
    Res(Result<Box<O>, Box<O>>),
    Tup(Vec<O>),
    /// Fields in declaration order.
    Struct(Vec<O>),
    Enum(String, Vec<O>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
#[allow(unpredictable_function_pointer_comparisons)]
pub enum Tgt {
    Int { signed: bool, bits: u16, nonzero: bool },
    Bool,
    Char,
    Str,
    Bits,
    Phantom,
    Duration,
    Range(Box<Tgt>),
    List(Box<Tgt>),
    /// Sorted without duplicates.
    Set(Box<Tgt>),
    /// Compared sorted.
    Heap(Box<Tgt>),
    Arr(Box<Tgt>, usize),
    Map(Box<Tgt>),
    Opt(Box<Tgt>),
    Res(Box<Tgt>, Box<Tgt>),
    Tup(Vec<Tgt>),
    Struct(FieldsT),
    Enum(Vec<(String, FieldsT)>),
    /// For recursive types.
    Lazy(fn() -> Tgt),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FieldT {
    pub name: String,
    pub skip: bool,
    pub tgt: Tgt,
    /// What a skipped field holds.
    pub def: O,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FieldsT {
    Named(Vec<FieldT>),
    Unnamed(Vec<FieldT>),
    Unit,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Loc {
    Field(String),
    Idx(usize),
    /// One of two indices is as good (a position counted with or without skipped fields).
    Idx2(usize, usize),
    Variant(String),
    /// May or may not be there.
    MaybeVariant(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ek {
    Unexpected(&'static str),
    WrongLength { actual: usize, expected: usize },
    CannotFindField(String),
    CannotFindVariant { got: String, expected: Vec<String> },
    OutOfRange(String),
    /// Some other decoding error.
    Decode,
    /// Any error.
    Any,
}
pub type ExpErr = (Ek, Vec<Loc>);

/// Outcomes that are right: any of the values, or any of the errors.
#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub oks: Vec<O>,
    pub errs: Vec<ExpErr>,
}
impl Exp {
    fn ok(o: O) -> Exp {
        Exp { oks: vec![o], errs: vec![] }
    }
    fn err(e: Ek, path: &[Loc]) -> Exp {
        Exp { oks: vec![], errs: vec![(e, path.to_vec())] }
    }
    fn or(mut self, e: Exp) -> Exp {
        for o in e.oks {
            if !self.oks.contains(&o) {
                self.oks.push(o);
            }
        }
        for x in e.errs {
            if self.errs.len() > 50 || !self.errs.contains(&x) {
                self.errs.push(x);
            }
        }
        self
    }
    fn map(self, f: impl Fn(O) -> O) -> Exp {
        Exp { oks: self.oks.into_iter().map(f).collect(), errs: self.errs }
    }
}

/// All parts must succeed for the whole to; any failing part gives the error.
fn all(parts: Vec<Exp>, f: impl Fn(Vec<O>) -> O) -> Exp {
    let mut errs = vec![];
    if parts.iter().all(|p| p.oks.len() <= 1) {
        let mut oks = Some(vec![]);
        for p in parts {
            errs.extend(p.errs);
            match (p.oks.into_iter().next(), &mut oks) {
                (Some(o), Some(v)) => v.push(o),
                _ => oks = None,
            }
        }
        return Exp { oks: oks.into_iter().map(f).collect(), errs };
    }
    let mut oks: Vec<Vec<O>> = vec![vec![]];
    for p in parts {
        errs.extend(p.errs);
        let mut next = vec![];
        for o in &oks {
            for x in p.oks.iter().take(3) {
                let mut o = o.clone();
                o.push(x.clone());
                next.push(o);
            }
        }
        oks = next;
        oks.truncate(16);
    }
    Exp { oks: oks.into_iter().map(f).collect(), errs }
}

/// Look through single-field composites and tuples.
fn unwrap1(mut n: &Node) -> &Node {
    loop {
        match &n.k {
            K::Comp { fields, .. } if fields.len() == 1 => n = &fields[0].1,
            K::Tup(v) if v.len() == 1 => n = &v[0],
            _ => return n,
        }
    }
}

fn int_out(n: &Node) -> Option<(bool, u128)> {
    match n.k {
        K::U(_, v) => Some((false, v)),
        K::I(_, v) => Some((v < 0, v.unsigned_abs())),
        _ => None,
    }
}

pub fn project(t: &Tgt, n: &Node, path: &[Loc]) -> Exp {
    let at = |l: Loc| -> Vec<Loc> {
        let mut p = path.to_vec();
        p.push(l);
        p
    };
    let unexpected = |n: &Node| Exp::err(Ek::Unexpected(n.kind()), path);
    match t {
        Tgt::Lazy(f) => project(&f(), n, path),
        Tgt::Bool => match &unwrap1(n).k {
            K::Bool(b) => Exp::ok(O::Bool(*b)),
            _ => unexpected(unwrap1(n)),
        },
        Tgt::Char => match &unwrap1(n).k {
            K::Char(b) => Exp::ok(O::Char(*b)),
            _ => unexpected(unwrap1(n)),
        },
        Tgt::Str => match &unwrap1(n).k {
            K::Str { text: Some(s), .. } => Exp::ok(O::Str(s.clone())),
            K::Str { text: None, .. } => Exp::err(Ek::Decode, path),
            _ => unexpected(unwrap1(n)),
        },
        Tgt::Bits => match &unwrap1(n).k {
            K::Bits(b) => Exp::ok(O::Bits(b.clone())),
            _ => unexpected(unwrap1(n)),
        },
        Tgt::Int { signed, bits, nonzero } => {
            let n = unwrap1(n);
            let Some((neg, mag)) = int_out(n) else { return unexpected(n) };
            let max = if *signed { (1u128 << (bits - 1)) - 1 } else { u128::MAX >> (128 - bits) };
            let fits = if neg { *signed && mag <= 1u128 << (bits - 1) } else { mag <= max };
            if fits && !(*nonzero && mag == 0) {
                Exp::ok(O::Num(neg, mag))
            } else {
                Exp::err(Ek::OutOfRange(format!("{}{mag}", if neg { "-" } else { "" })), path)
            }
        }
        Tgt::Phantom => match &n.k {
            K::Comp { fields, .. } if fields.is_empty() => Exp::ok(O::Unit),
            K::Tup(v) if v.is_empty() => Exp::ok(O::Unit),
            _ => unexpected(n),
        },
        Tgt::Duration => {
            let u = |bits| Tgt::Int { signed: false, bits, nonzero: false };
            let e = project(&Tgt::Tup(vec![u(64), u(32)]), n, path);
            let excess = e.oks.iter().any(|o| match o {
                O::Tup(v) => matches!(v[1], O::Num(_, n) if n >= 1_000_000_000),
                _ => false,
            });
            if excess {
                Exp::err(Ek::Any, path)
            } else {
                e
            }
        }
        Tgt::Range(t) => project(&Tgt::Tup(vec![(**t).clone(), (**t).clone()]), n, path),
        Tgt::List(e) | Tgt::Set(e) | Tgt::Heap(e) => {
            let n = unwrap1(n);
            let (K::Seq(v) | K::Arr(v)) = &n.k else { return unexpected(n) };
            let parts = v.iter().enumerate().map(|(i, x)| project(e, x, &at(Loc::Idx(i)))).collect();
            all(parts, |v| match t {
                Tgt::Set(_) => set(v),
                Tgt::Heap(_) => heap(v),
                _ => O::List(v),
            })
        }
        Tgt::Arr(e, len) => {
            let n = unwrap1(n);
            let (K::Seq(v) | K::Arr(v)) = &n.k else { return unexpected(n) };
            let parts: Vec<Exp> = v.iter().enumerate().map(|(i, x)| project(e, x, &at(Loc::Idx(i)))).collect();
            let e = all(parts, O::List);
            if v.len() == *len {
                e
            } else {
                Exp { oks: vec![], errs: e.errs }.or(Exp::err(Ek::WrongLength { actual: v.len(), expected: *len }, path))
            }
        }
        Tgt::Map(e) => {
            let K::Comp { fields, .. } = &n.k else { return unexpected(n) };
            let named: Vec<(&String, &Node)> = fields.iter().filter_map(|(k, v)| k.as_ref().map(|k| (k, v))).collect();
            let parts = named.iter().map(|(k, v)| project(e, v, &at(Loc::Field(k.to_string())))).collect();
            all(parts, |v| {
                let mut m = std::collections::BTreeMap::new();
                for ((k, _), v) in named.iter().zip(v) {
                    m.insert(k.to_string(), v);
                }
                O::Map(m.into_iter().collect())
            })
        }
        Tgt::Opt(e) => {
            let n = unwrap1(n);
            let K::Var { name, fields, .. } = &n.k else { return unexpected(n) };
            match (name.as_str(), fields.len()) {
                ("Some", 1) => project(e, &fields[0].1, &at(Loc::Variant("Some".into()))).map(|o| O::Opt(Some(Box::new(o)))),
                ("None", 0) => Exp::ok(O::Opt(None)),
                ("Some", k) => no_variant(name, &["Some", "None"], path).or(wrong_len(k, 1, path)),
                ("None", k) => no_variant(name, &["Some", "None"], path).or(wrong_len(k, 0, path)),
                _ => no_variant(name, &["Some", "None"], path),
            }
        }
        Tgt::Res(a, b) => {
            let n = unwrap1(n);
            let K::Var { name, fields, .. } = &n.k else { return unexpected(n) };
            match (name.as_str(), fields.len()) {
                ("Ok", 1) => project(a, &fields[0].1, &at(Loc::Variant("Ok".into()))).map(|o| O::Res(Ok(Box::new(o)))),
                ("Err", 1) => project(b, &fields[0].1, &at(Loc::Variant("Err".into()))).map(|o| O::Res(Err(Box::new(o)))),
                ("Ok", k) | ("Err", k) => no_variant(name, &["Ok", "Err"], path).or(wrong_len(k, 1, path)),
                _ => no_variant(name, &["Ok", "Err"], path),
            }
        }
        Tgt::Tup(ts) => {
            let kids = match &n.k {
                K::Comp { fields, .. } => Some(fields.iter().map(|f| &f.1).collect::<Vec<_>>()),
                K::Tup(v) => Some(v.iter().collect::<Vec<_>>()),
                _ => None,
            };
            let fieldwise = |kids: &Vec<&Node>| {
                if kids.len() != ts.len() {
                    return wrong_len(kids.len(), ts.len(), path);
                }
                let parts = ts.iter().zip(kids).enumerate().map(|(i, (t, k))| project(t, k, &at(Loc::Idx(i)))).collect();
                all(parts, O::Tup)
            };
            // a one-element tuple takes a value that is no composite or tuple as its element
            let whole = || project(&ts[0], n, path).map(|o| O::Tup(vec![o]));
            match (kids, ts.len()) {
                (None, 1) => whole(),
                (None, _) => unexpected(n),
                // a type named as compact hides what is inside; both readings give the same value
                (Some(k), 1) if n.croot => fieldwise(&k).or(whole()),
                (Some(k), _) => fieldwise(&k),
            }
        }
        Tgt::Struct(f) => {
            let fields: Vec<(Option<&str>, &Node)> = match &n.k {
                K::Comp { fields, .. } => fields.iter().map(|(k, v)| (k.as_deref(), v)).collect(),
                K::Tup(v) => v.iter().map(|v| (None, v)).collect(),
                _ => return unexpected(n),
            };
            let is_tuple = matches!(n.k, K::Tup(_));
            project_fields(f, &fields, is_tuple, path).map(O::Struct)
        }
        Tgt::Enum(vs) => {
            let n = unwrap1(n);
            let K::Var { name, fields, .. } = &n.k else { return unexpected(n) };
            let fields: Vec<(Option<&str>, &Node)> = fields.iter().map(|(k, v)| (k.as_deref(), v)).collect();
            let Some((_, f)) = vs.iter().find(|v| &v.0 == name) else {
                let names: Vec<&str> = vs.iter().map(|v| v.0.as_str()).collect();
                return no_variant(name, &names, path);
            };
            let e = project_fields(f, &fields, false, &at(Loc::MaybeVariant(name.clone())));
            let e = match f {
                // fields of the source that the target ignores: taken, or refused as too many
                FieldsT::Unit if !fields.is_empty() => e.or(ExpF::ok(vec![])),
                _ => e,
            };
            e.map(|v| O::Enum(name.clone(), v))
        }
    }
}

fn set(mut v: Vec<O>) -> O {
    v.sort();
    v.dedup();
    O::List(v)
}
fn heap(mut v: Vec<O>) -> O {
    v.sort();
    O::List(v)
}
fn wrong_len(actual: usize, expected: usize, path: &[Loc]) -> Exp {
    Exp::err(Ek::WrongLength { actual, expected }, path)
}
fn no_variant(got: &str, expected: &[&str], path: &[Loc]) -> Exp {
    Exp::err(
        Ek::CannotFindVariant { got: got.to_string(), expected: expected.iter().map(|s| s.to_string()).collect() },
        path,
    )
}

/// Like `Exp`, for lists of fields.
struct ExpF {
    oks: Vec<Vec<O>>,
    errs: Vec<ExpErr>,
}
impl ExpF {
    fn ok(v: Vec<O>) -> ExpF {
        ExpF { oks: vec![v], errs: vec![] }
    }
    fn or(mut self, e: ExpF) -> ExpF {
        self.oks.extend(e.oks);
        self.errs.extend(e.errs);
        self
    }
    fn map(self, f: impl Fn(Vec<O>) -> O) -> Exp {
        Exp { oks: self.oks.into_iter().map(f).collect(), errs: self.errs }
    }
}
fn as_f(e: Exp) -> ExpF {
    ExpF {
        oks: e
            .oks
            .into_iter()
            .map(|o| match o {
                O::Tup(v) => v,
                _ => unreachable!(),
            })
            .collect(),
        errs: e.errs,
    }
}

fn project_fields(f: &FieldsT, src: &[(Option<&str>, &Node)], is_tuple: bool, path: &[Loc]) -> ExpF {
    let at = |l: Loc| -> Vec<Loc> {
        let mut p = path.to_vec();
        p.push(l);
        p
    };
    let fs: &[FieldT] = match f {
        FieldsT::Named(v) | FieldsT::Unnamed(v) => v,
        FieldsT::Unit => &[],
    };
    let used = fs.iter().filter(|f| !f.skip).count();
    let by_name = matches!(f, FieldsT::Named(_)) && !is_tuple && src.iter().all(|s| s.0.is_some());
    let mut parts = vec![];
    if by_name {
        for f in fs {
            if f.skip {
                parts.push(Exp::ok(f.def.clone()));
                continue;
            }
            match src.iter().rev().find(|s| s.0 == Some(f.name.as_str())) {
                None => parts.push(Exp::err(Ek::CannotFindField(f.name.clone()), path)),
                Some(s) => parts.push(project(&f.tgt, s.1, &at(Loc::Field(f.name.clone())))),
            }
        }
    } else {
        if src.len() != used {
            return as_f(wrong_len(src.len(), used, path));
        }
        let mut next = 0;
        for (i, x) in fs.iter().enumerate() {
            if x.skip {
                parts.push(Exp::ok(x.def.clone()));
                continue;
            }
            let loc = match f {
                FieldsT::Named(_) => Loc::Field(x.name.clone()),
                _ => Loc::Idx2(i, next),
            };
            parts.push(project(&x.tgt, src[next].1, &at(loc)));
            next += 1;
        }
    }
    as_f(all(parts, O::Tup))
}

// ---------------------------------------------------------------- what really happened

#[derive(Clone, Debug, PartialEq)]
pub struct GotErr {
    pub kind: Ek,
    pub path: Vec<Location>,
    pub shown: String,
    /// The kind alone as shown.
    pub kind_shown: String,
}

fn kind_name(u: &scale_decode::visitor::Unexpected) -> &'static str {
    use scale_decode::visitor::Unexpected::*;
    match u {
        Bool => "bool",
        Char => "char",
        U8 => "u8",
        U16 => "u16",
        U32 => "u32",
        U64 => "u64",
        U128 => "u128",
        U256 => "u256",
        I8 => "i8",
        I16 => "i16",
        I32 => "i32",
        I64 => "i64",
        I128 => "i128",
        I256 => "i256",
        Sequence => "sequence",
        Composite => "composite",
        Tuple => "tuple",
        Str => "str",
        Variant => "variant",
        Array => "array",
        Bitsequence => "bitsequence",
    }
}

impl From<scale_decode::Error> for GotErr {
    fn from(e: scale_decode::Error) -> GotErr {
        let kind = match e.kind() {
            ErrorKind::VisitorDecodeError(DecodeError::Unexpected(u)) => Ek::Unexpected(kind_name(u)),
            ErrorKind::NumberOutOfRange { value } => Ek::OutOfRange(value.clone()),
            ErrorKind::WrongLength { actual_len, expected_len } => {
                Ek::WrongLength { actual: *actual_len, expected: *expected_len }
            }
            ErrorKind::CannotFindField { name } => Ek::CannotFindField(name.clone()),
            ErrorKind::CannotFindVariant { got, expected } => Ek::CannotFindVariant {
                got: got.clone(),
                expected: expected.iter().map(|s| s.to_string()).collect(),
            },
            _ => Ek::Decode,
        };
        let path = e.context().path().locations().cloned().collect();
        GotErr { kind, path, shown: e.to_string(), kind_shown: e.kind().to_string() }
    }
}

impl Ek {
    pub fn admits(&self, got: &Ek) -> bool {
        match (self, got) {
            (Ek::Any, _) => true,
            (
                Ek::CannotFindVariant { got: a, expected: x },
                Ek::CannotFindVariant { got: b, expected: y },
            ) => {
                let (mut x, mut y) = (x.clone(), y.clone());
                x.sort();
                y.sort();
                a == b && x == y
            }
            (a, b) => a == b,
        }
    }
}

/// Is `got` the location list `want`? `prefix`: or a front part of it.
pub fn path_admits(want: &[Loc], got: &[Location]) -> bool {
    match want.split_first() {
        None => got.is_empty(),
        Some((w, rest)) => {
            let first = got.first();
            let eats = match w {
                Loc::Field(n) => first == Some(&Location::field(n.clone())),
                Loc::Idx(i) => first == Some(&Location::idx(*i)),
                Loc::Idx2(i, j) => first == Some(&Location::idx(*i)) || first == Some(&Location::idx(*j)),
                Loc::Variant(v) | Loc::MaybeVariant(v) => first == Some(&Location::variant(v.clone())),
            };
            (eats && path_admits(rest, &got[1..]))
                || (matches!(w, Loc::MaybeVariant(_)) && path_admits(rest, got))
        }
    }
}

/// The words of a location as displayed.
pub fn loc_word(l: &Location) -> String {
    // `Location` does not hand out its parts
    let d = format!("{l:?}");
    let Some(i) = d.find("Field(").or(d.find("Index(")).or(d.find("Variant(")) else {
        // not as expected: as displayed on its own
        let mut c = scale_decode::error::Context::new();
        c.push(l.clone());
        return c.path().to_string().trim_matches(|c: char| !c.is_alphanumeric()).to_string();
    };
    let s = &d[i..];
    let s = &s[s.find('(').unwrap() + 1..];
    let s = &s[..s.rfind(')').unwrap()];
    let s = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s);
    // undo the escapes
    let mut out = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x);
            continue;
        }
        match c.next() {
            Some('0') => out.push('\0'),
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('u') => {
                let h: String = c.by_ref().skip(1).take_while(|x| *x != '}').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(x) => out.push(x),
            None => {}
        }
    }
    out
}

/// Does the displayed error name exactly these locations in this order, and then its kind?
pub fn shows_path(path: &[Location], shown: &str, kind_shown: &str) -> bool {
    let Some(front) = shown.strip_suffix(kind_shown) else { return false };
    let mut rest = front.strip_prefix("Error at").unwrap_or(front);
    for l in path {
        let w = loc_word(l);
        let Some(i) = rest.find(&w) else { return false };
        if rest[..i].chars().any(|c| c.is_alphanumeric()) {
            return false;
        }
        rest = &rest[i + w.len()..];
    }
    !rest.chars().any(|c| c.is_alphanumeric())
}

// ---------------------------------------------------------------- the table of targets

/// A Rust type to decode into.
pub trait Tg: DecodeAsType {
    fn tgt() -> Tgt;
    fn out(self) -> O;
}

pub type Run<R> = fn(&mut &[u8], <R as TypeResolver>::TypeId, &R) -> Result<O, scale_decode::Error>;

pub fn run_tg<T: Tg, R: TypeResolver>(b: &mut &[u8], id: R::TypeId, types: &R) -> Result<O, scale_decode::Error> {
    T::decode_as_type(b, id, types).map(|t| t.out())
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub tgt: fn() -> Tgt,
    pub run: Run<Types>,
}

#[macro_export]
macro_rules! entries {
    ($($t:ty),* $(,)?) => {
        vec![$($crate::targets::Entry {
            name: stringify!($t),
            tgt: <$t as $crate::targets::Tg>::tgt,
            run: $crate::targets::run_tg::<$t, $crate::ty::Types>,
        }),*]
    };
}

/// One target under several resolvers.
#[derive(Clone, Copy)]
pub struct Row {
    pub name: &'static str,
    pub tgt: fn() -> Tgt,
    pub plain: Run<Types>,
    pub string: Run<StrRes>,
    pub alias: Run<AliasRes>,
    pub port: Run<PortRes>,
}
#[macro_export]
macro_rules! rows {
    ($($t:ty),* $(,)?) => {
        vec![$($crate::targets::Row {
            name: stringify!($t),
            tgt: <$t as $crate::targets::Tg>::tgt,
            plain: $crate::targets::run_tg::<$t, $crate::ty::Types>,
            string: $crate::targets::run_tg::<$t, $crate::ty::StrRes>,
            alias: $crate::targets::run_tg::<$t, $crate::ty::AliasRes>,
            port: $crate::targets::run_tg::<$t, $crate::ty::PortRes>,
        }),*]
    };
}

// ---------------------------------------------------------------- one checked decode

pub struct TCase<'a> {
    pub name: &'a str,
    pub tgt: &'a Tgt,
    pub types: &'a Types,
    pub t: Tid,
    pub b: &'a [u8],
    /// Number of bytes of the value itself, rest is trailing data; `None` if malformed.
    pub want_end: Option<usize>,
    pub node: Option<&'a Node>,
    pub got: Result<O, GotErr>,
    pub pos: Option<usize>,
}

impl<'a> TCase<'a> {
    pub fn show(&self) -> String {
        format!(
            "decoding {} bytes {} into {} gave {}",
            self.types.show(self.t),
            hex(self.b),
            self.name,
            match &self.got {
                Ok(o) => format!("{o:?}"),
                Err(e) => format!("error [{}]", e.shown),
            }
        )
    }
    pub fn key(&self, what: &str) -> String {
        format!("{what}:{}:{}:{}", self.name, self.types.show(self.t), hex(self.b))
    }
    pub fn want(&self) -> Option<Exp> {
        self.node.map(|n| project(self.tgt, n, &[]))
    }
    /// Value and kind of error as they should be? Returns what is wrong.
    pub fn judge(&self) -> Result<&'static str, String> {
        match self.want() {
            None => match &self.got {
                Ok(_) => Err("malformed bytes accepted".into()),
                Err(_) => Ok("malformed"),
            },
            Some(e) => match &self.got {
                Ok(o) => {
                    if e.oks.contains(o) {
                        Ok("value")
                    } else if e.oks.is_empty() {
                        Err(format!("should fail with one of {:?}", kinds(&e)))
                    } else {
                        Err(format!("should give {:?}", e.oks))
                    }
                }
                Err(g) => {
                    if e.errs.iter().any(|x| x.0.admits(&g.kind)) {
                        Ok(match g.kind {
                            Ek::Unexpected(_) => "unexpected",
                            Ek::WrongLength { .. } => "wrong-length",
                            Ek::CannotFindField(_) => "no-field",
                            Ek::CannotFindVariant { .. } => "no-variant",
                            Ek::OutOfRange(_) => "out-of-range",
                            _ => "decode-error",
                        })
                    } else if e.errs.is_empty() {
                        Err(format!("should give {:?}", e.oks))
                    } else {
                        Err(format!("should fail with one of {:?}", kinds(&e)))
                    }
                }
            },
        }
    }
}
fn kinds(e: &Exp) -> Vec<&Ek> {
    e.errs.iter().map(|e| &e.0).collect()
}

/// Decode into a target and hand over what happened; reports panics.
pub fn try_target<'a>(
    ctx: &mut Ctx,
    e: &'a Entry,
    tgt: &'a Tgt,
    types: &'a Types,
    t: Tid,
    b: &'a [u8],
    refd: &'a Result<Node, RErr>,
) -> Option<TCase<'a>> {
    if *refd == Err(RErr::Depth) {
        ctx.outcome("outside-bounds");
        return None;
    }
    ctx.state(&(e.name, t, b));
    let mut input = b;
    let run = e.run;
    let r = ctx.lib(|| run(&mut input, t, types));
    ctx.trace();
    let r = match r {
        Ok(r) => r,
        Err(Panicked(p)) => {
            ctx.violation(&format!("panic:{}:{}:{}", e.name, types.show(t), hex(b)), || {
                format!("decoding {} bytes {} into {} panicked: {p}", types.show(t), hex(b), e.name)
            });
            return None;
        }
    };
    Some(TCase {
        name: e.name,
        tgt,
        types,
        t,
        b,
        want_end: refd.as_ref().ok().map(|n| n.end),
        node: refd.as_ref().ok(),
        got: r.map_err(GotErr::from),
        pos: suffix(b, input),
    })
}

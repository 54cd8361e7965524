//! C23: kinds of value that a visitor or target does not handle are announced as such.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::handle::*;
use mc::plan::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::targets::*;
use mc::ty::*;
use mc::universe::*;
use scale_decode::error::ErrorKind;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, DecodeError, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive as P};
use std::cell::{Cell, RefCell};

/// What a visitor implements. `catch`: `visit_unexpected` as well.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Does {
    All,
    Leaves,
    Containers,
    Nothing,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Kind {
    does: Does,
    catch: bool,
    /// Wrapped in the error-converting adapter.
    wrapped: bool,
}
const KINDS: [Kind; 13] = {
    const fn k(does: Does, catch: bool, wrapped: bool) -> Kind {
        Kind { does, catch, wrapped }
    }
    [
        k(Does::All, true, false),
        k(Does::Nothing, true, false),
        k(Does::Nothing, false, false),
        k(Does::Leaves, true, false),
        k(Does::Leaves, false, false),
        k(Does::Containers, true, false),
        k(Does::Containers, false, false),
        k(Does::All, true, true),
        k(Does::Nothing, true, true),
        k(Does::Nothing, false, true),
        k(Does::Leaves, true, true),
        k(Does::Leaves, false, true),
        k(Does::Containers, false, true),
    ]
};

/// One run, by the real visitors or by the model.
struct Sh<'e> {
    ch: &'e Chooser,
    /// Visits and announcements in order.
    log: RefCell<Vec<String>>,
    own: Cell<u32>,
    /// May failures of items be ignored?
    ignore: bool,
}
impl<'e> Sh<'e> {
    fn new(ch: &'e Chooser, ignore: bool) -> Self {
        Sh { ch, log: Default::default(), own: Cell::new(0), ignore }
    }
    fn pick_kind(&self) -> Kind {
        KINDS[self.ch.choose(KINDS.len())]
    }
    fn handled(&self, kind: &str) {
        self.log.borrow_mut().push(format!("visit {kind}"));
    }
    /// `visit_unexpected` was called.
    fn announced(&self, kind: &str) -> Result<String, VErr> {
        self.log.borrow_mut().push(format!("unexpected {kind}"));
        match self.ch.choose(2) {
            1 => {
                self.own.set(self.own.get() + 1);
                Err(VErr::Own(self.own.get()))
            }
            _ => Ok(format!("?{kind}")),
        }
    }
    /// An item failed: give up (`true`) or carry on?
    fn gives_up(&self) -> bool {
        !self.ignore || self.ch.choose(2) == 0
    }
}

fn show_unexpected(u: Unexpected) -> &'static str {
    match u {
        Unexpected::Bool => "bool",
        Unexpected::Char => "char",
        Unexpected::U8 => "u8",
        Unexpected::U16 => "u16",
        Unexpected::U32 => "u32",
        Unexpected::U64 => "u64",
        Unexpected::U128 => "u128",
        Unexpected::U256 => "u256",
        Unexpected::I8 => "i8",
        Unexpected::I16 => "i16",
        Unexpected::I32 => "i32",
        Unexpected::I64 => "i64",
        Unexpected::I128 => "i128",
        Unexpected::I256 => "i256",
        Unexpected::Sequence => "sequence",
        Unexpected::Composite => "composite",
        Unexpected::Tuple => "tuple",
        Unexpected::Str => "str",
        Unexpected::Variant => "variant",
        Unexpected::Array => "array",
        Unexpected::Bitsequence => "bitsequence",
    }
}

fn items<'s, 'r, H: Handle<'s, 'r, Types>>(sh: &Sh, h: &mut H, kind: &str) -> Result<String, VErr> {
    sh.handled(kind);
    let mut v = vec![];
    while h.remaining() > 0 {
        let k = sh.pick_kind();
        let r = if k.wrapped {
            struct Get<'a, H>(&'a mut H);
            impl<'a, 's, 'r, H: Handle<'s, 'r, Types>> Run<'s, 'r> for Get<'a, H> {
                fn run<V: for<'x, 'y> Visitor<Value<'x, 'y> = String, Error = VErr, TypeResolver = Types>>(self, v: V) -> Option<Result<String, VErr>> {
                    self.0.item(VisitorWithCrateError(v)).map(|r| r.map_err(back))
                }
            }
            with(sh, k, Get(h))
        } else {
            struct Get<'a, H>(&'a mut H);
            impl<'a, 's, 'r, H: Handle<'s, 'r, Types>> Run<'s, 'r> for Get<'a, H> {
                fn run<V: for<'x, 'y> Visitor<Value<'x, 'y> = String, Error = VErr, TypeResolver = Types>>(self, v: V) -> Option<Result<String, VErr>> {
                    self.0.item(v)
                }
            }
            with(sh, k, Get(h))
        };
        match r {
            None => return Err(VErr::Bad("nothing, but there is an item left".into())),
            Some(Ok(s)) => v.push(s),
            Some(Err(e)) => {
                if sh.gives_up() {
                    return Err(e);
                }
                v.push(format!("!{e:?}"));
            }
        }
    }
    Ok(format!("{kind}[{}]", v.join(",")))
}

/// Something to do with a visitor.
trait Run<'s, 'r> {
    fn run<V: for<'x, 'y> Visitor<Value<'x, 'y> = String, Error = VErr, TypeResolver = Types>>(self, v: V) -> Option<Result<String, VErr>>;
}
fn with<'s, 'r, F: Run<'s, 'r>>(sh: &Sh, k: Kind, f: F) -> Option<Result<String, VErr>> {
    match (k.does, k.catch) {
        (Does::All, _) => f.run(AllV(sh)),
        (Does::Leaves, true) => f.run(LeavesCatchV(sh)),
        (Does::Leaves, false) => f.run(LeavesV(sh)),
        (Does::Containers, true) => f.run(ContainersCatchV(sh)),
        (Does::Containers, false) => f.run(ContainersV(sh)),
        (Does::Nothing, true) => f.run(CatchV(sh)),
        (Does::Nothing, false) => f.run(BareV(sh)),
    }
}

macro_rules! leaf_methods {
    ($($f:ident: $t:ty => $k:expr;)*) => {
        $(fn $f<'scale, 'resolver>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.0.handled($k);
            Ok($k.to_string())
        })*
    };
}
macro_rules! part {
    (leaves) => {
        leaf_methods! {
            visit_bool: bool => "bool"; visit_char: char => "char"; visit_str: &mut Str<'scale> => "str";
            visit_u8: u8 => "u8"; visit_u16: u16 => "u16"; visit_u32: u32 => "u32"; visit_u64: u64 => "u64"; visit_u128: u128 => "u128";
            visit_i8: i8 => "i8"; visit_i16: i16 => "i16"; visit_i32: i32 => "i32"; visit_i64: i64 => "i64"; visit_i128: i128 => "i128";
            visit_bitsequence: &mut BitSequence<'scale> => "bitsequence";
        }
        fn visit_u256<'resolver>(self, _: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
            self.0.handled("u256");
            Ok("u256".to_string())
        }
        fn visit_i256<'resolver>(self, _: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
            self.0.handled("i256");
            Ok("i256".to_string())
        }
    };
    (containers) => {
        fn visit_sequence<'scale, 'resolver>(self, v: &mut Sequence<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            items(self.0, v, "sequence")
        }
        fn visit_array<'scale, 'resolver>(self, v: &mut Array<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            items(self.0, v, "array")
        }
        fn visit_tuple<'scale, 'resolver>(self, v: &mut Tuple<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            items(self.0, v, "tuple")
        }
        fn visit_composite<'scale, 'resolver>(self, v: &mut Composite<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            items(self.0, v, "composite")
        }
        fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Types>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            items(self.0, v.fields(), "variant")
        }
    };
    (catch) => {
        fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
            self.0.announced(show_unexpected(u))
        }
    };
}
macro_rules! visitor {
    ($n:ident: $($p:ident)*) => {
        struct $n<'e>(#[allow(dead_code)] &'e Sh<'e>);
        impl<'e> Visitor for $n<'e> {
            type Value<'scale, 'resolver> = String;
            type Error = VErr;
            type TypeResolver = Types;
            $(part!($p);)*
        }
    };
}
visitor!(AllV: leaves containers);
visitor!(LeavesCatchV: leaves catch);
visitor!(LeavesV: leaves);
visitor!(ContainersCatchV: containers catch);
visitor!(ContainersV: containers);
visitor!(CatchV: catch);
visitor!(BareV:);

// ------------------------------------------------------------------ the model

fn model(sh: &Sh, n: &Node, k: Kind) -> Result<String, String> {
    let kind = n.kind();
    let container = matches!(n.k, K::Seq(_) | K::Arr(_) | K::Tup(_) | K::Comp { .. } | K::Var { .. });
    let handles = match k.does {
        Does::All => true,
        Does::Leaves => !container,
        Does::Containers => container,
        Does::Nothing => false,
    };
    if !handles {
        return if k.catch { sh.announced(kind).map_err(|e| format!("{e:?}")) } else { Err(format!("unexpected {kind}")) };
    }
    sh.handled(kind);
    if !container {
        return Ok(kind.to_string());
    }
    // composites, tuples and variants give up at the first item that fails
    let stops = !matches!(n.k, K::Seq(_) | K::Arr(_));
    let mut v = vec![];
    for c in n.children() {
        let k = sh.pick_kind();
        match model(sh, c, k) {
            Ok(s) => v.push(s),
            Err(e) => {
                if sh.gives_up() {
                    return Err(e);
                }
                v.push(format!("!{e}"));
                if stops {
                    break;
                }
            }
        }
    }
    Ok(format!("{kind}[{}]", v.join(",")))
}

fn err_text(e: &VErr) -> String {
    match e {
        VErr::D(DecodeError::Unexpected(u)) => format!("unexpected {}", show_unexpected(*u)),
        e => format!("{e:?}"),
    }
}

fn visitors(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], dev: usize, cap: u64) {
    let r = refdec(types, t, b);
    if r == Err(RErr::Depth) {
        return;
    }
    let mut viol = 0;
    let st = explore(dev, cap, |ch| {
        let sh = Sh::new(ch, r.is_ok());
        let root = sh.pick_kind();
        let mut input = b;
        struct Top<'a, 'b, 's>(&'a mut &'s [u8], Tid, &'b Types, bool);
        impl<'a, 'b, 's> Run<'s, 'b> for Top<'a, 'b, 's> {
            fn run<V: for<'x, 'y> Visitor<Value<'x, 'y> = String, Error = VErr, TypeResolver = Types>>(self, v: V) -> Option<Result<String, VErr>> {
                if self.3 {
                    return Some(decode_with_visitor(self.0, self.1, self.2, VisitorWithCrateError(v)).map_err(back));
                }
                Some(decode_with_visitor(self.0, self.1, self.2, v))
            }
        }
        let got = ctx.lib(|| with(&sh, root, Top(&mut input, t, types, root.wrapped)));
        ctx.trace();
        let s = ch.script();
        ctx.state(&(t, b, &s));
        ctx.transitions(sh.log.borrow().len() as u64);
        let log = sh.log.borrow().clone();
        let bad = match (&got, &r) {
            (Err(Panicked(p)), _) => Some(format!("panicked: {p}")),
            (Ok(None), _) => Some("no result".into()),
            (Ok(Some(Ok(v))), Err(_)) => Some(format!("malformed bytes gave {v}")),
            // malformed: which of the two errors comes first depends on where the bytes go wrong
            (Ok(Some(Err(e))), Err(_)) => {
                ctx.outcome("malformed");
                matches!(e, VErr::Bad(_)).then(|| format!("{e:?}"))
            }
            (Ok(Some(g)), Ok(n)) => {
                let c2 = Chooser::replay(&s);
                let m = Sh::new(&c2, true);
                let k = m.pick_kind();
                let want = model(&m, n, k);
                let text = g.as_ref().map_err(err_text).cloned().map(|v| {
                    // errors of items that were ignored
                    let mut v = v;
                    for u in ALL {
                        v = v.replace(&format!("{:?}", VErr::D(DecodeError::Unexpected(u))), &format!("unexpected {}", show_unexpected(u)));
                    }
                    v
                });
                ctx.outcome(match (&want, log.iter().any(|l| l.starts_with("unexp"))) {
                    (Ok(_), false) => "handled",
                    (Ok(_), true) => "caught",
                    (Err(e), _) if e.starts_with("unexp") => "default-error",
                    (Err(_), _) => "own-error",
                });
                let wlog = m.log.borrow().clone();
                if text != want {
                    Some(format!("{text:?}, should be {want:?}"))
                } else if log != wlog {
                    Some(format!("the calls were {log:?}, should be {wlog:?}"))
                } else if g.is_ok() && suffix(b, input) != Some(n.end) {
                    Some(format!("input left at {:?}, not {}", suffix(b, input), n.end))
                } else {
                    None
                }
            }
        };
        if let Some(m) = bad {
            viol += 1;
            if viol > 1 {
                ch.stop();
            }
            ctx.violation(&format!("visitors:{}:{}:{s:?}", types.show(t), hex(b)), || {
                format!("visitor {root:?}, choices {s:?}: {m}: {}", show_case(types, t, b))
            });
        }
    });
    ctx.nodes(st);
}

const ALL: [Unexpected; 21] = [
    Unexpected::Bool,
    Unexpected::Char,
    Unexpected::U8,
    Unexpected::U16,
    Unexpected::U32,
    Unexpected::U64,
    Unexpected::U128,
    Unexpected::U256,
    Unexpected::I8,
    Unexpected::I16,
    Unexpected::I32,
    Unexpected::I64,
    Unexpected::I128,
    Unexpected::I256,
    Unexpected::Sequence,
    Unexpected::Composite,
    Unexpected::Tuple,
    Unexpected::Str,
    Unexpected::Variant,
    Unexpected::Array,
    Unexpected::Bitsequence,
];

/// The texts of the errors tell the kinds apart, and conversions keep the kind.
fn texts(ctx: &mut Ctx) {
    ctx.case(
        || "texts".into(),
        |ctx| {
            let mut seen: std::collections::HashMap<String, Unexpected> = Default::default();
            for u in ALL {
                let d: DecodeError = u.into();
                let e: scale_decode::Error = d.clone().into();
                ctx.trace();
                let kept = d == DecodeError::Unexpected(u)
                    && matches!(e.kind(), ErrorKind::VisitorDecodeError(DecodeError::Unexpected(x)) if *x == u)
                    && e.context().path().locations().next().is_none();
                if !kept {
                    ctx.violation(&format!("kept:{u:?}"), || format!("{u:?} became {e:?}"));
                }
                for s in [u.to_string(), d.to_string(), e.to_string()] {
                    if !s.to_lowercase().contains(&u.to_string().to_lowercase()) {
                        ctx.violation(&format!("text:{u:?}"), || format!("the text {s:?} does not name {u}"));
                    }
                    if let Some(o) = seen.insert(s.clone(), u) {
                        if o != u {
                            ctx.violation(&format!("text:{u:?}"), || format!("{u:?} and {o:?} have the same text {s:?}"));
                        }
                    }
                }
                ctx.outcome("text");
            }
        },
    );
}

// ------------------------------------------------------------------ targets

/// A type of every kind.
fn every_kind(ty: &mut Types) -> Vec<Tid> {
    let (u, s) = (ty.u8(), ty.str());
    let mut v: Vec<Tid> = leaves(ty);
    let c32 = ty.u32();
    v.push(ty.compact(c32));
    let c128 = ty.prim(P::U128);
    v.push(ty.compact(c128));
    v.push(ty.bits(BitsStoreFormat::U16, BitsOrderFormat::Msb0));
    v.push(ty.seq(u));
    v.push(ty.seq(s));
    v.push(ty.arr(u, 2));
    v.push(ty.arr(s, 0));
    v.push(ty.tup(&[]));
    v.push(ty.tup(&[u, s]));
    v.push(ty.comp(&["Unit"], &[]));
    v.push(ty.named(&[("zz", u), ("yy", s)]));
    v.push(ty.unnamed(&[u, u, s]));
    v.push(ty.var(&[("Zed", 0, &[]), ("Zee", 3, &[("", u)])]));
    v.push(ty.var(&[("A", 0, &[("", u)]), ("B", 1, &[("b", s)]), ("None", 2, &[])]));
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| seen.insert(*t));
    v
}

fn target(ctx: &mut Ctx, e: &Entry, tgt: &Tgt, types: &Types, t: Tid, b: &[u8]) {
    let r = refdec(types, t, b);
    let Some(c) = try_target(ctx, e, tgt, types, t, b, &r) else { return };
    let Some(want) = c.want() else { return };
    let is_unex = |k: &Ek| matches!(k, Ek::Unexpected(_));
    let must = want.oks.is_empty() && !want.errs.is_empty() && want.errs.iter().all(|e| is_unex(&e.0));
    let bad = match &c.got {
        Err(g) if is_unex(&g.kind) => {
            (!want.errs.iter().any(|x| x.0.admits(&g.kind))).then(|| format!("{:?} is not what is there", g.kind))
        }
        Err(g) if must => Some(format!("{:?}, should be one of {:?}", g.kind, want.errs)),
        Ok(o) if must => Some(format!("{o:?}, should be refused with one of {:?}", want.errs)),
        _ => None,
    };
    match bad {
        Some(m) => ctx.violation(&c.key("target"), || format!("{m}: {}", c.show())),
        None => ctx.outcome(if must { "target-refuses" } else { "target-other" }),
    }
}

fn body(ctx: &mut Ctx) {
    texts(ctx);
    let uni = universe(2);
    for t in uni.roots {
        ctx.case(
            || format!("visitors of {}", uni.types.show(t)),
            |ctx| {
                let all = traces(ctx, &uni.types, t, GenOpts { invalid: true, max_depth: 5, ..GenOpts::VALID }, 1, 1_000);
                let first = all[0].clone();
                for (i, b) in all.iter().enumerate() {
                    let dev = if i == 0 { ctx.by_tier(2, 3) } else { ctx.by_tier(1, 2) };
                    visitors(ctx, &uni.types, t, b, dev, ctx.by_tier(60_000, 400_000));
                    if i < ctx.by_tier(3, 30) {
                        // with something after it
                        visitors(ctx, &uni.types, t, &[&b[..], &[0xff, 0]].concat(), 1, 20_000);
                    }
                }
                for c in cuts(first.len()) {
                    visitors(ctx, &uni.types, t, &first[..c], 1, 20_000);
                }
            },
        );
    }
    for e in mc::all::all() {
        ctx.case(
            || format!("kinds into {}", e.name),
            |ctx| {
                let tgt = (e.tgt)();
                let mut types = Types::new();
                let kinds = every_kind(&mut types);
                let mut srcs = kinds.clone();
                for &k in &kinds {
                    let ws = if ctx.quick() { wrappers(&mut types, k) } else { wraps2(&mut types, k) };
                    srcs.extend(ws);
                }
                let good = sources(&mut types, &tgt);
                for &g in good.iter().take(ctx.by_tier(2, 6)) {
                    for &k in &kinds {
                        srcs.extend(replaced(&mut types, g, k, 3));
                    }
                }
                let mut seen = std::collections::HashSet::new();
                srcs.retain(|t| seen.insert(*t));
                for t in srcs {
                    for b in traces(ctx, &types, t, GenOpts::VALID, ctx.by_tier(1, 2), ctx.by_tier(0, 5_000)) {
                        target(ctx, &e, &tgt, &types, t, &b);
                    }
                }
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C23",
        states_are: "states: distinct (type, bytes, choice of visitor at every value and of its answers) and (target, type, bytes); transitions: visitor calls and library calls; traces: complete decodes whose calls, result and consumption were compared with the model",
        bounds: |t| match t {
            Tier::Quick => "all types of universe depth 2, one deviation from default bytes, truncations, trailing data; at every value one of 13 visitors (implementing everything, leaves, containers or nothing; with and without visit_unexpected; bare or in the error-converting adapter), every announcement answered with a value or an error, failed items passed on or ignored: up to 2 deviations on default bytes, 1 elsewhere; every target on 40 types of all 21 kinds, bare, in one wrapper, and in place of each part of its best sources".into(),
            Tier::Thorough => "as quick with 3 and 2 deviations in the visitors, and wrappers of wrappers, more sources and two deviations in the bytes for targets".into(),
        },
        assumptions: &["on malformed bytes only that there is an error, and no announcement of the harness' own making, is checked"],
        require: &["handled", "caught", "default-error", "own-error", "malformed", "target-refuses", "text"],
        body,
    })
}

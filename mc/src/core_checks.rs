//! Building blocks shared by the checks: one decode of the real library compared with the reference.
use crate::choose::*;
use crate::gen::*;
use crate::rec::*;
use crate::refdec::*;
use crate::run::*;
use crate::ty::*;
use scale_decode::visitor::decode_with_visitor;
use std::collections::HashSet;

pub struct Out {
    /// What the recording visitor saw.
    pub res: Result<Node, VErr>,
    /// Offset of the input after the call; `None` if it is no longer a suffix of the input.
    pub pos: Option<usize>,
}

/// Offset of `rest` in `b` if it is a suffix of `b`: of the very bytes, unless nothing is left.
pub fn suffix(b: &[u8], rest: &[u8]) -> Option<usize> {
    let (bs, be) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
    let (rs, re) = (rest.as_ptr() as usize, rest.as_ptr() as usize + rest.len());
    if rest.is_empty() {
        return Some(b.len());
    }
    (rs >= bs && re == be).then(|| rs - bs)
}

/// Decode `b` with a full recording visitor.
pub fn record<R: Res>(ctx: &mut Ctx, res: &R, t: Tid, b: &[u8], mode: Mode) -> Result<Out, Panicked> {
    let env = Env::new(res, b, mode);
    let mut input = b;
    let r = ctx.lib(|| decode_with_visitor(&mut input, res.id(t), res, RecV { env: &env }));
    ctx.transitions(env.steps.get());
    Ok(Out { res: r?, pos: suffix(b, input) })
}

pub fn show_case(types: &Types, t: Tid, b: &[u8]) -> String {
    format!("type {} bytes {}", types.show(t), hex(b))
}

/// All distinct byte traces of a type with at most `dev` deviations from the default choices.
pub fn traces(ctx: &mut Ctx, types: &Types, t: Tid, o: GenOpts, dev: usize, cap: u64) -> Vec<Vec<u8>> {
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut out = vec![];
    let st = explore(dev, cap, |ch| {
        let b = gen(types, t, ch, o);
        if seen.insert(b.clone()) {
            out.push(b);
        }
    });
    ctx.nodes(st);
    out
}

/// As `traces`, keeping only the complete encodings of valid values, with their meaning.
pub fn valid_traces(ctx: &mut Ctx, types: &Types, t: Tid, o: GenOpts, dev: usize, cap: u64) -> Vec<(Vec<u8>, Node)> {
    traces(ctx, types, t, o, dev, cap)
        .into_iter()
        .filter_map(|b| match refdec(types, t, &b) {
            Ok(n) if n.end == b.len() && n.utf8_ok() => Some((b, n)),
            _ => None,
        })
        .collect()
}

/// Cut positions to try for `n` bytes: all if short, else both ends.
pub fn cuts(n: usize) -> Vec<usize> {
    (0..n).filter(|c| n <= 64 || *c < 32 || *c >= n - 12).collect()
}

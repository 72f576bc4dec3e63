//! T03 to T06: operations on two in-memory trees, for all pairs of contents.
use crate::core::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::refmodel::{Join, JOINS};
use crate::tree::*;
use radixdb::node::{DowncastConverter, IdentityConverter, NodeConverter, Value, ValueRef};
use radixdb::store::{Detached, NoError};
use radixdb::RadixTree;
use std::cell::RefCell;
use std::collections::HashMap;

/// value of key i in the left operand
pub fn aval(i: usize) -> Vec<u8> {
    let mut r = vec![b'a', b'0' + i as u8];
    if i % 3 == 1 {
        r.extend_from_slice(&[b'.'; 9]);
    }
    r
}
/// value of key i in the right operand; the first byte tells the combiner what to do
pub fn bval(i: usize, d: u8) -> Vec<u8> {
    let mut r = vec![d, b'0' + i as u8];
    if i % 2 == 1 {
        r.extend_from_slice(&[b'-'; 7]);
    }
    r
}
/// what the combiner decides: keep left, take right, drop, or something new
pub fn decide(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    match b.first() {
        Some(b'K') => Some(a.to_vec()),
        Some(b'T') => Some(b.to_vec()),
        Some(b'D') => None,
        Some(b'C') => Some([a, b].concat()),
        Some(b'E') => Some(vec![]),
        _ => Some(b"undecided".to_vec()),
    }
}

/// A family of pairs: for each key the possible combinations of presence in a and in b (with the decision)
#[derive(Clone)]
pub struct Pairs {
    pub name: String,
    pub keys: Vec<Vec<u8>>,
    /// (in a, decision byte in b or 0)
    pub opts: Vec<(bool, u8)>,
    /// all values are extended to this length
    pub pad: usize,
}
fn padded(mut v: Vec<u8>, pad: usize) -> Vec<u8> {
    if v.len() < pad {
        v.resize(pad, b'~');
    }
    v
}
impl Pairs {
    pub fn n(&self) -> u64 {
        (self.opts.len() as u64).pow(self.keys.len() as u32)
    }
}
pub struct Pair<'a> {
    pub am: &'a Map,
    pub bm: &'a Map,
    pub a: &'a RadixTree,
    pub b: &'a RadixTree,
}
fn shared(am: &Map, bm: &Map) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut r: Vec<_> = am.iter().filter_map(|(k, v)| bm.get(k).map(|w| (v.clone(), w.clone()))).collect();
    r.sort();
    r
}
pub fn all_pairs(p: &Pairs, shard: (usize, usize), ctx: &mut Ctx, mut f: impl FnMut(&mut Ctx, &Pair) -> R<()>) -> R<()> {
    let no = p.opts.len() as u64;
    let mut ca: HashMap<Vec<u8>, (Map, RadixTree)> = HashMap::new();
    let mut cb: HashMap<Vec<u8>, (Map, RadixTree)> = HashMap::new();
    let mut k = shard.0 as u64;
    while k < p.n() {
        if k / shard.1 as u64 % 64 == 0 {
            crate::tick();
        }
        let mut x = k;
        let (mut ka, mut kb) = (vec![], vec![]);
        for _ in 0..p.keys.len() {
            let (a, b) = p.opts[(x % no) as usize];
            x /= no;
            ka.push(a as u8);
            kb.push(b);
        }
        let a = ca.entry(ka).or_insert_with_key(|s| {
            let m: Map = s.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, _)| (p.keys[i].clone(), padded(aval(i), p.pad))).collect();
            let t = build(&m);
            (m, t)
        });
        if cb.len() > 100_000 {
            cb.clear();
        }
        let b = cb.entry(kb).or_insert_with_key(|s| {
            let m: Map = s.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, d)| (p.keys[i].clone(), padded(bval(i, *d), p.pad))).collect();
            let t = build(&m);
            (m, t)
        });
        let pair = Pair { am: &a.0, a: &a.1, bm: &b.0, b: &b.1 };
        ctx.states += 1;
        ctx.traces += 1;
        if pair.am.len() >= 2 && pair.bm.len() >= 2 {
            ctx.nontrivial += 1;
        }
        guarded(|| format!("left {} right {}", show_map(pair.am), show_map(pair.bm)), || f(ctx, &pair))?;
        if k >= p.n() / 2 {
            ctx.sample(|| format!("left {} right {}", show_map(pair.am), show_map(pair.bm)));
        }
        k += shard.1 as u64;
    }
    // nothing may have changed any of the operands
    for (m, t) in ca.values().chain(cb.values()) {
        check_iter(t, m).map_err(|v| Viol { what: format!("an operand was changed by one of the combinations: {}", v.what) })?;
    }
    Ok(())
}
pub const FUN: &[(bool, u8)] = &[(false, 0), (true, 0), (false, b'T'), (true, b'K'), (true, b'T'), (true, b'D'), (true, b'C')];
pub const INP: &[(bool, u8)] = &[(false, 0), (true, 0), (false, b'T'), (true, b'K'), (true, b'T'), (true, b'D')];
const PRE: &[(bool, u8)] = &[(false, 0), (true, 0), (false, b'T'), (false, b'D'), (true, b'T'), (true, b'D')];

fn subsets(keys: &[Vec<u8>], n: usize) -> Vec<Vec<Vec<u8>>> {
    fn go(keys: &[Vec<u8>], n: usize, cur: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..keys.len() {
            cur.push(keys[i].clone());
            go(&keys[i + 1..], n, cur, out);
            cur.pop();
        }
    }
    let mut r = vec![];
    go(keys, n, &mut vec![], &mut r);
    r
}
/// the universes, with the number of shards
pub fn pair_families(thorough: bool, opts: &[(bool, u8)]) -> Vec<(Vec<Pairs>, String, usize)> {
    let mk = |name: String, keys: Vec<Vec<u8>>| Pairs { name, keys, opts: opts.to_vec(), pad: 0 };
    let mut r = vec![];
    let d2 = words(&[v("a"), v("b")], 2);
    r.push((vec![mk("bin-d2".into(), d2)], "bin-d2".to_string(), 16));
    let d3 = words(&[v("a"), v("b")], 3);
    let n = if thorough { 4 } else { 3 };
    let subs: Vec<Pairs> = subsets(&d3, n).into_iter().enumerate().map(|(i, k)| mk(format!("d3-sub{i}"), k)).collect();
    r.push((subs, format!("all {n}-subsets of bin-d3"), if thorough { 64 } else { 8 }));
    for l in seg_lens(thorough) {
        for tail in [false, true] {
            let s = segs(l, tail);
            let (a, b) = (&s[0], &s[1]);
            let keys = vec![vec![], a.clone(), [&a[..], a].concat(), [&a[..], b].concat(), b.clone()];
            r.push((vec![mk(format!("seg{l}{tail}"), keys)], format!("seg{l}{}", if tail { "t" } else { "h" }), 1));
        }
    }
    r.push((
        vec![mk("fan".into(), vec![v(""), vec![0], vec![1], vec![0x7f], vec![0x80], vec![0xff]])],
        "fan".into(),
        2,
    ));
    r.push((vec![mk("chain".into(), (0..6).map(|i| vec![b'a'; i]).collect())], "chain".into(), 2));
    for g in 0..LENGTH_GROUPS {
        let mut ps = vec![];
        for p in length_group(thorough, g) {
            // the cut, the string, and by turns a continuation or a string that leaves at the cut
            let n = ps.len();
            let len = p.vals[0].len();
            let keep = p.keys.iter().enumerate().filter(|(i, _)| *i != 1 + n % 3).map(|x| x.1.clone()).collect();
            ps.push(Pairs { name: p.name, keys: keep, opts: opts.to_vec(), pad: len });
        }
        r.push((ps, format!("lengths-{g}"), 1));
    }
    if thorough {
        r.push((vec![mk("bin00ff-d2".into(), words(&[vec![0], vec![0xff]], 2))], "bin00ff-d2".into(), 16));
        r.push((vec![mk("chain7".into(), (0..7).map(|i| vec![b'a'; i * 3]).collect())], "chain7".into(), 16));
        r.push((vec![mk("seg128-d2".into(), words(&segs(128, true), 2))], "seg128-d2".into(), 32));
        r.push((vec![mk("seg9-d2".into(), words(&segs(9, true), 2))], "seg9-d2".into(), 16));
        let t2 = words(&[vec![0], vec![b'm'], vec![0xff]], 2);
        let subs: Vec<Pairs> = subsets(&t2, 4).into_iter().enumerate().map(|(i, k)| mk(format!("tern-sub{i}"), k)).collect();
        r.push((subs, "all 4-subsets of tern-d2".into(), 32));
    }
    r
}
pub fn small_join_profiles(thorough: bool) -> Vec<(Pairs, usize)> {
    let mut r = vec![
        (Pairs { name: "bin-d2".into(), keys: words(&[v("a"), v("b")], 2), opts: INP.to_vec(), pad: 0 }, 8usize),
        (Pairs { name: "chain".into(), keys: (0..5).map(|i| vec![b'a'; i]).collect(), opts: FUN.to_vec(), pad: 0 }, 1),
    ];
    for l in [9, 128] {
        let s = segs(l, true);
        let (a, b) = (&s[0], &s[1]);
        r.push((
            Pairs { name: format!("seg{l}"), keys: vec![vec![], a.clone(), [&a[..], a].concat(), [&a[..], b].concat(), b.clone()], opts: FUN.to_vec(), pad: l - 1 },
            1,
        ));
    }
    if thorough {
        r.push((Pairs { name: "bin-d2-all".into(), keys: words(&[v("a"), v("b")], 2), opts: FUN.to_vec(), pad: 0 }, 16));
    }
    r
}
type Log = RefCell<Vec<(Vec<u8>, Vec<u8>)>>;
fn fun_join(j: Join, a: &RadixTree, b: &RadixTree, log: &Log) -> RadixTree {
    let f = |x: &ValueRef, y: &ValueRef| {
        log.borrow_mut().push((vr(x).to_vec(), vr(y).to_vec()));
        // half of the time hand the operand's own value back, otherwise a copy of it
        match (vr(y).first(), vr(y).get(1).map(|x| x & 1)) {
            (Some(b'K'), Some(1)) => Some(x.to_owned()),
            (Some(b'T'), Some(1)) => Some(y.to_owned()),
            _ => decide(vr(x), vr(y)).map(|x| value_of(&x)),
        }
    };
    match j {
        Join::Outer => a.outer_combine(b, f),
        Join::Inner => a.inner_combine(b, f),
        Join::Left => a.left_combine(b, f),
    }
}
fn inplace_f<'x>(log: &'x Log) -> impl Fn(&mut Value, &ValueRef) + Copy + 'x {
    move |x: &mut Value, y: &ValueRef| {
        log.borrow_mut().push((x.as_ref().to_vec(), vr(y).to_vec()));
        match vr(y).first() {
            Some(b'K') => {}
            Some(b'T') => x.set(Some(y)),
            _ => x.set(None),
        }
    }
}
pub fn inplace_join(j: Join, a: &mut RadixTree, b: &RadixTree, log: &Log) {
    let f = inplace_f(log);
    match j {
        Join::Outer => a.outer_combine_with(b, f),
        Join::Inner => a.inner_combine_with(b, f),
        Join::Left => a.left_combine_with(b, f),
    }
}
fn inplace_conv<C: NodeConverter<Detached, Detached> + Clone>(j: Join, a: &mut RadixTree, b: &RadixTree, c: C, log: &Log) {
    let g = inplace_f(log);
    let f = |x: &mut Value, y: &ValueRef| -> Result<(), NoError> {
        g(x, y);
        Ok(())
    };
    match j {
        Join::Outer => a.try_outer_combine_with(b, c, f),
        Join::Inner => a.try_inner_combine_with(b, c, f),
        Join::Left => a.try_left_combine_with(b, c, f),
    }
    .unwrap()
}
fn check_log(log: &Log, am: &Map, bm: &Map) -> R<()> {
    let mut l = log.borrow_mut();
    l.sort();
    let want = shared(am, bm);
    if *l != want {
        let s = |x: &[(Vec<u8>, Vec<u8>)]| x.iter().map(|(a, b)| format!("({}, {})", show(a), show(b))).collect::<Vec<_>>().join(" ");
        return viol(format!("the combiner was called with {} instead of {}", s(&l), s(&want)));
    }
    l.clear();
    Ok(())
}
fn in_ctx<T>(what: impl Fn() -> String, r: R<T>) -> R<T> {
    r.map_err(|v| Viol { what: format!("{}: {}", what(), v.what) })
}

fn units(thorough: bool, opts: &'static [(bool, u8)], f: impl Fn(&mut Ctx, &Pair) -> R<()> + Clone + Send + 'static) -> Vec<Unit> {
    let mut us = vec![];
    for (ps, name, n) in pair_families(thorough, opts) {
        for i in 0..n {
            let (ps, f) = (ps.clone(), f.clone());
            us.push(unit(if n == 1 { name.clone() } else { format!("{name}#{i}") }, move |ctx| {
                if ps.len() == 1 {
                    all_pairs(&ps[0], (i, n), ctx, |c, p| f(c, p))
                } else {
                    for (k, p) in ps.iter().enumerate() {
                        if k % n == i {
                            all_pairs(p, (0, 1), ctx, |c, p| f(c, p))?;
                        }
                    }
                    Ok(())
                }
            }));
        }
    }
    // nodes with very many children, in all combinations of residue classes
    // and keys that are prefixes of each other, in many levels
    for (w, deep) in [(3usize, false), (16, false), (17, false), (33, false), (48, false), (64, false), (128, false), (255, false), (256, false), (40, true), (129, true), (260, true)] {
        let f = f.clone();
        us.push(unit(format!("{}{w}", if deep { "deep" } else { "wide" }), move |ctx| {
            let pick_by = |has: &dyn Fn(usize) -> bool, low: bool, dec: Option<u8>| -> Map {
                let mut m = Map::new();
                for b in 0..w {
                    if has(b) {
                        let key = match b % 5 {
                            0 if deep => [vec![b'a'; b], vec![b't']].concat(),
                            _ if deep => vec![b'a'; b],
                            0 => vec![b as u8, b't'],
                            _ => vec![b as u8],
                        };
                        let val = match dec {
                            None => vec![b'a', b as u8],
                            Some(0) => vec![b"KTD"[b / 3 % 3], b as u8],
                            Some(d) => vec![d, b as u8],
                        };
                        m.insert(key, val);
                    }
                }
                if low {
                    m.insert(vec![0], vec![dec.filter(|x| *x != 0).unwrap_or(b'K'), 0]);
                }
                m
            };
            let pick = |mask: usize, dec: Option<u8>| pick_by(&|b| mask >> (b % 3) & 1 == 1, mask >> 3 & 1 == 1, dec);
            // few children against many, at both ends and in the middle
            let at = [0, 1, w / 2, w - 2, w - 1];
            for few in 1..32usize {
                if few.count_ones() > 2 {
                    continue;
                }
                for d in [0, b'K', b'T', b'D'] {
                    for swap in [false, true] {
                        crate::tick();
                        let some = |b: usize| (0..5).any(|i| few >> i & 1 == 1 && at[i] == b);
                        let all = |_: usize| true;
                        let (am, bm) = if swap { (pick_by(&all, false, None), pick_by(&some, false, Some(d))) } else { (pick_by(&some, false, None), pick_by(&all, false, Some(d))) };
                        let (a, b) = (build(&am), build(&bm));
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.nontrivial += 1;
                        let p = Pair { am: &am, bm: &bm, a: &a, b: &b };
                        guarded(|| format!("left {} right {}", show_map(&am), show_map(&bm)), || f(ctx, &p))?;
                    }
                }
            }
            for ma in 0..16 {
                for mb in 0..16 {
                    for d in [0, b'K', b'T', b'D'] {
                        if deep && !ctx.thorough && (![1, 2, 5, 7, 14].contains(&ma) || ![1, 2, 3, 7, 12].contains(&mb) || ![0, b'D'].contains(&d)) {
                            continue;
                        }
                        crate::tick();
                        let (am, bm) = (pick(ma, None), pick(mb, Some(d)));
                        let (a, b) = (build(&am), build(&bm));
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.nontrivial += (ma != 0 && mb != 0) as u64;
                        let p = Pair { am: &am, bm: &bm, a: &a, b: &b };
                        guarded(|| format!("left {} right {}", show_map(&am), show_map(&bm)), || f(ctx, &p))?;
                    }
                }
            }
            Ok(())
        }));
    }
    // a node with many children below another node, alone or between others, whole, in part,
    // or cut at another place, against the same
    for w in [5usize, 17, 33, 64, 129, 256] {
        let f = f.clone();
        us.push(unit(format!("nested{w}"), move |ctx| {
            let pick = |x: usize, dec: Option<u8>| -> Map {
                let at: &[u8] = if w % 2 == 0 { b"mmm" } else { b"m" };
                let mut ks = vec![];
                for (i, k) in [&b"a"[..], b"z", at, b"mx"].into_iter().enumerate() {
                    if x >> i & 1 == 1 {
                        ks.push(k.to_vec());
                    }
                }
                for b in 0..w {
                    let c = if w == 256 { b } else { b * 7 + 3 } as u8;
                    let has = match x >> 4 {
                        0 => false,
                        1 => true,
                        2 => b % 2 == 0,
                        _ => b + 2 >= w,
                    };
                    if has {
                        ks.push([at, &[c], if b % 3 == 0 { &b"tt"[..] } else { b"" }].concat());
                    }
                }
                let v = |i: usize| match dec {
                    None => vec![b'a', i as u8],
                    Some(0) => vec![b"KTD"[i / 2 % 3], i as u8],
                    Some(d) => vec![d, i as u8],
                };
                ks.into_iter().enumerate().map(|(i, k)| (k, v(i))).collect()
            };
            for d in [0, b'T', b'D'] {
                let all: Vec<[(Map, RadixTree); 2]> = (0..64)
                    .map(|x| {
                        let (a, b) = (pick(x, None), pick(x, Some(d)));
                        let (ta, tb) = (build(&a), build(&b));
                        [(a, ta), (b, tb)]
                    })
                    .collect();
                for x in 0..64usize {
                    for y in 0..64usize {
                        // one of the sides has many children
                        let many = |x: usize| (1..3).contains(&(x >> 4));
                        if !many(x) && !many(y) {
                            continue;
                        }
                        if !ctx.thorough && (w > 64 && (x ^ y).count_ones() % 3 != 2) {
                            continue;
                        }
                        crate::tick();
                        let ((am, a), (bm, b)) = (&all[x][0], &all[y][1]);
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.nontrivial += (am.len() >= 2 && bm.len() >= 2) as u64;
                        let p = Pair { am, bm, a, b };
                        guarded(|| format!("left {} right {}", show_map(am), show_map(bm)), || f(ctx, &p))?;
                    }
                }
            }
            Ok(())
        }));
    }
    // the same values on both sides, or values that differ only in the decision
    for pad in [0usize, 9, 130] {
        let f = f.clone();
        us.push(unit(format!("same-values-{pad}"), move |ctx| {
            let keys = [v("a"), v("ab"), v("ac"), v("b")];
            let decs: &[u8] = if ctx.thorough { b"\0KTD" } else { b"\0TD" };
            let n = if ctx.thorough { 4 } else { 3 };
            let vals = decs.len() as u32;
            let mk = |mut x: u32| -> Map {
                let mut m = Map::new();
                for k in &keys[..n] {
                    let d = decs[(x % vals) as usize];
                    x /= vals;
                    if d != 0 {
                        m.insert(k.clone(), padded(vec![d, b'1'], pad));
                    }
                }
                m
            };
            let all: Vec<(Map, RadixTree)> = (0..vals.pow(n as u32)).map(|x| (mk(x), build(&mk(x)))).collect();
            for a in &all {
                crate::tick();
                for b in &all {
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.nontrivial += (a.0.len() >= 2 && b.0.len() >= 2) as u64;
                    let p = Pair { am: &a.0, bm: &b.0, a: &a.1, b: &b.1 };
                    guarded(|| format!("left {} right {}", show_map(&a.0), show_map(&b.0)), || f(ctx, &p))?;
                }
            }
            Ok(())
        }));
    }
    // operands that share nodes: one is a modified clone of the other, or the same tree
    let p = bin(b'a', b'b', 2, vec![vec![b'K', b'1'], vec![b'T', b'2'], vec![b'D', b'3']]);
    us.push(unit("aliased-operands", move |ctx| {
        let ops = crate::eng_map::ops(&p);
        let n = if ctx.thorough { p.nstates() } else { 3u64.pow(7) };
        for k in 0..n {
            // quick: each key absent or one of two values
            let s: Vec<u8> = if ctx.thorough {
                p.nth(k)
            } else {
                let mut x = k;
                (0..7)
                    .map(|i| {
                        let d = (x % 3) as u8;
                        x /= 3;
                        if d == 2 { 1 + (i % 3) as u8 } else { d * 2 }
                    })
                    .collect()
            };
            crate::tick();
            let am = p.map(&s);
            let a = build(&am);
            ctx.states += 1;
            let same = Pair { am: &am, bm: &am, a: &a, b: &a };
            guarded(|| format!("left and right are the same tree {}", show_map(&am)), || f(ctx, &same))?;
            for (i, o) in ops.iter().enumerate() {
                if !ctx.thorough && (i + k as usize) % 4 != 0 {
                    continue;
                }
                let mut bm = am.clone();
                let mut b = a.clone();
                crate::eng_map::apply(&p, &mut b, *o);
                crate::eng_map::step_map(&p, &mut bm, *o);
                ctx.traces += 2;
                let x = Pair { am: &am, bm: &bm, a: &a, b: &b };
                guarded(|| format!("left {} right its clone after {}", show_map(&am), crate::eng_map::op_name(&p, *o)), || f(ctx, &x))?;
                let x = Pair { am: &bm, bm: &am, a: &b, b: &a };
                guarded(|| format!("right {} left its clone after {}", show_map(&am), crate::eng_map::op_name(&p, *o)), || f(ctx, &x))?;
            }
        }
        Ok(())
    }));
    us
}
fn bounds(thorough: bool) -> String {
    format!(
        "all pairs of contents (with all combiner decisions) over the 7 strings of length <= 2 over 2 letters, over all {}-subsets of the 15 strings of length <= 3, over 5 keys made of segments of length {:?}, over chains and fans of 6; residue-class pairs with up to 256 children; nodes with up to 256 children below another one; operands that share nodes",
        if thorough { 4 } else { 3 },
        seg_lens(thorough)
    )
}

pub fn t04(thorough: bool) -> Check {
    Check {
        id: "T04",
        level: "model_checking",
        rule: "all pairs of contents over each universe, each shared key with each decision of the combiner; outer, inner and left; non-trivial: both operands have at least two entries",
        bounds: bounds(thorough),
        assumptions: vec!["the reference is a pointwise combination of BTreeMaps", "the combiner is deterministic and does not panic"],
        units: units(thorough, FUN, |ctx, p| {
            let log = Log::default();
            for j in JOINS {
                let t = fun_join(j, p.a, p.b, &log);
                let want = rm::join(j, p.am, p.bm, decide);
                in_ctx(
                    || format!("{j:?} combine"),
                    (|| {
                        check_iter(&t, &want)?;
                        check_log(&log, p.am, p.bm)?;
                        ensure!(t.is_empty() == want.is_empty(), "is_empty() of the result is wrong");
                        for k in p.am.keys().chain(p.bm.keys()) {
                            ensure!(
                                t.get(k).as_ref().map(|x| x.as_ref()) == want.get(k).map(|x| &x[..]),
                                "get({}) of the result is wrong",
                                show(k)
                            );
                        }
                        Ok(())
                    })(),
                )?;
                ctx.transitions += 1;
                ctx.evals += 3;
            }
            check_iter(p.a, p.am)?;
            check_iter(p.b, p.bm)
        }),
        quarantine: false,
    }
}
pub fn t05(thorough: bool) -> Check {
    Check {
        id: "T05",
        level: "model_checking",
        rule: "all pairs of contents over each universe, each shared key with each decision of the in-place combiner; outer, inner and left; left tree shared with a clone and not shared; all three converters; non-trivial: both operands have at least two entries",
        bounds: bounds(thorough),
        assumptions: vec!["the reference is a pointwise combination of BTreeMaps", "the combiner is deterministic and does not panic"],
        units: units(thorough, INP, |ctx, p| {
            let log = Log::default();
            for j in JOINS {
                let want = rm::join(j, p.am, p.bm, |a, b| match b.first() {
                    Some(b'K') => Some(a.to_vec()),
                    Some(b'T') => Some(b.to_vec()),
                    _ => None,
                });
                for mode in 0..4 {
                    let mut t = if mode == 0 { p.a.clone() } else { deep(p.a) };
                    match mode {
                        0 | 1 => inplace_join(j, &mut t, p.b, &log),
                        2 => inplace_conv(j, &mut t, p.b, DowncastConverter, &log),
                        _ => inplace_conv(j, &mut t, p.b, IdentityConverter, &log),
                    }
                    ctx.transitions += 1;
                    ctx.evals += 2;
                    let what = || {
                        let m = ["shared left, DetachConverter", "unshared left, DetachConverter", "unshared left, DowncastConverter", "unshared left, IdentityConverter"];
                        format!("{j:?} combine in place ({})", m[mode])
                    };
                    in_ctx(
                        what,
                        (|| {
                            check_iter(&t, &want)?;
                            check_log(&log, p.am, p.bm)?;
                            ensure!(t.is_empty() == want.is_empty(), "is_empty() of the result is wrong");
                            for k in p.am.keys().chain(p.bm.keys()) {
                                ensure!(
                                    t.get(k).as_ref().map(|x| x.as_ref()) == want.get(k).map(|x| &x[..]),
                                    "get({}) of the result is wrong",
                                    show(k)
                                );
                            }
                            Ok(())
                        })(),
                    )?;
                }
            }
            check_iter(p.a, p.am)?;
            check_iter(p.b, p.bm)
        }),
        quarantine: false,
    }
}
pub fn t03(thorough: bool) -> Check {
    let mut us = units(thorough, PRE, |ctx, p| {
        for keep in [true, false] {
            for pred in [0u8, 1, 2] {
                // by the decision in the value, always true, always false
                let f = move |x: &[u8]| match pred {
                    0 => x.first() == Some(&b'T'),
                    1 => true,
                    _ => false,
                };
                if pred != 0 && p.bm.values().any(|x| x.first() == Some(&b'D')) {
                    // the same as another pair
                    continue;
                }
                let want = rm::prefix_set(p.am, p.bm, keep, f);
                for shared in [true, false] {
                    let mut t = if shared { p.a.clone() } else { deep(p.a) };
                    let g = move |x: &ValueRef| f(vr(x));
                    if keep {
                        t.retain_prefix_with(p.b, g)
                    } else {
                        t.remove_prefix_with(p.b, g)
                    }
                    ctx.transitions += 1;
                    ctx.evals += 2;
                    in_ctx(
                        || format!("{}_prefix_with (accepting {})", if keep { "retain" } else { "remove" }, ["some", "all", "none"][pred as usize]),
                        check_iter(&t, &want).and_then(|_| {
                            ensure!(t.is_empty() == want.is_empty(), "is_empty() of the result is wrong");
                            for k in p.am.keys() {
                                ensure!(t.contains_key(k) == want.contains_key(k), "contains_key({}) of the result is wrong", show(k));
                            }
                            Ok(())
                        }),
                    )?;
                }
            }
        }
        check_iter(p.a, p.am)?;
        check_iter(p.b, p.bm)
    });
    for (p, n) in crate::c_map::map_profiles(thorough) {
        if p.nstates() > 20000 && !thorough {
            continue;
        }
        for i in 0..n {
            let p = p.clone();
            us.push(unit(format!("single-prefix-{}#{i}", p.name), move |ctx| {
                for k in 0..p.nstates() {
                    if k % n as u64 != i as u64 {
                        continue;
                    }
                    crate::tick();
                    let m = p.map(&p.nth(k));
                    let t = build(&m);
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.nontrivial += (m.len() >= 2) as u64;
                    for q in &p.probes {
                        let mut want = m.clone();
                        rm::remove_prefix(&mut want, q);
                        for mut t1 in [t.clone(), deep(&t)] {
                            t1.remove_prefix(q);
                            ctx.transitions += 1;
                            ctx.evals += 1;
                            in_ctx(|| format!("remove_prefix({}) of {}", show(q), show_map(&m)), check_iter(&t1, &want))?;
                        }
                    }
                    check_iter(&t, &m)?;
                }
                Ok(())
            }));
        }
    }
    Check {
        id: "T03",
        level: "model_checking",
        rule: "all pairs of contents over each universe, each value of the right operand accepted or not; retain and remove; shared and unshared left tree; remove_prefix with all probes in all contents; non-trivial: both operands have at least two entries",
        bounds: bounds(thorough),
        assumptions: vec!["the reference is a filter of a BTreeMap", "the predicate is deterministic and does not panic"],
        units: us,
        quarantine: false,
    }
}
pub fn t06(thorough: bool) -> Check {
    Check {
        id: "T06",
        level: "model_checking",
        rule: "all pairs of contents over each universe, each pair of values accepted or not; non-trivial: both operands have at least two entries",
        bounds: bounds(thorough),
        assumptions: vec!["the reference is a search in BTreeMaps", "the predicate is deterministic and does not panic"],
        units: units(thorough, INP, |ctx, p| {
            for pred in 0..4u8 {
                let f = move |a: &[u8], b: &[u8]| match pred {
                    0 => b.first() == Some(&b'T'),
                    1 => true,
                    2 => false,
                    // depends on both values
                    _ => b.first() == Some(&b'T') && a.len() > 2,
                };
                let g = move |a: &ValueRef, b: &ValueRef| f(vr(a), vr(b));
                let want = p.am.iter().any(|(k, a)| p.bm.get(k).map(|b| f(a, b)).unwrap_or(false));
                let got = p.a.inner_combine_pred(p.b, g);
                ensure!(got == want, "inner_combine_pred with predicate {pred} is {got}");
                let want = p.am.iter().any(|(k, a)| p.bm.get(k).map(|b| f(a, b)).unwrap_or(true));
                let got = p.a.left_combine_pred(p.b, g);
                ensure!(got == want, "left_combine_pred with predicate {pred} is {got}");
                ctx.transitions += 2;
                ctx.evals += 2;
            }
            Ok(())
        }),
        quarantine: false,
    }
}
/// For T08: the result of every combination equals the tree of its content
pub fn canonical_results(ctx: &mut Ctx, p: &Pairs, shard: (usize, usize)) -> R<()> {
    let canon: RefCell<HashMap<Map, RadixTree>> = Default::default();
    let fun = p.opts.iter().any(|x| x.1 == b'C');
    all_pairs(p, shard, ctx, |ctx, p| {
        let log = Log::default();
        let judge = |what: &str, t: &RadixTree, want: &Map| -> R<()> {
            in_ctx(
                || what.to_string(),
                (|| {
                    check_root(t, want)?;
                    let mut c = canon.borrow_mut();
                    if c.len() > 20000 {
                        c.clear();
                    }
                    let w = c.entry(want.clone()).or_insert_with(|| build(want));
                    ensure!(t == w && w == t, "the result is not equal to the tree of its content {}", show_map(want));
                    Ok(())
                })(),
            )
        };
        for j in JOINS {
            let want = rm::join(j, p.am, p.bm, decide);
            judge(&format!("{j:?} combine"), &fun_join(j, p.a, p.b, &log), &want)?;
            ctx.transitions += 1;
            ctx.evals += 4;
            if !fun {
                let mut t = deep(p.a);
                inplace_join(j, &mut t, p.b, &log);
                judge(&format!("{j:?} combine in place"), &t, &want)?;
                ctx.transitions += 1;
                ctx.evals += 4;
            }
        }
        for keep in [true, false] {
            let f = |x: &[u8]| x.first() == Some(&b'T');
            let want = rm::prefix_set(p.am, p.bm, keep, f);
            let mut t = deep(p.a);
            if keep {
                t.retain_prefix_with(p.b, |x| f(vr(x)))
            } else {
                t.remove_prefix_with(p.b, |x| f(vr(x)))
            }
            judge(if keep { "retain_prefix_with" } else { "remove_prefix_with" }, &t, &want)?;
            ctx.transitions += 1;
            ctx.evals += 4;
        }
        Ok(())
    })
}

//! Exhaustive exploration of the states of one in-memory tree.
//!
//! A state is a content (an assignment of values to the keys of a universe) together with the physical
//! representation of the tree, as far as it is visible. All operations are applied in every state, once with
//! the nodes shared with another tree and once with nodes that nobody else holds.
use crate::core::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::tree::*;
use radixdb::RadixTree;
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Insert(u8, u8),
    Remove(u8),
    RemovePrefix(u8),
    Filter(u8),
}
pub fn ops(p: &Profile) -> Vec<Op> {
    let mut r = vec![];
    for k in 0..p.keys.len() {
        for v in 0..p.vals.len() {
            r.push(Op::Insert(k as u8, v as u8 + 1));
        }
        r.push(Op::Remove(k as u8));
    }
    for k in 0..p.prefixes.len() {
        r.push(Op::RemovePrefix(k as u8));
        r.push(Op::Filter(k as u8));
    }
    r
}
pub fn op_name(p: &Profile, o: Op) -> String {
    match o {
        Op::Insert(k, v) => format!("insert({}, {})", show(&p.keys[k as usize]), show(&p.vals[v as usize - 1])),
        Op::Remove(k) => format!("remove({})", show(&p.keys[k as usize])),
        Op::RemovePrefix(k) => format!("remove_prefix({})", show(&p.prefixes[k as usize])),
        Op::Filter(k) => format!("filter_prefix({0}, {0})", show(&p.prefixes[k as usize])),
    }
}
/// effect on the abstract state
pub fn step(p: &Profile, s: &[u8], o: Op) -> Vec<u8> {
    let mut s = s.to_vec();
    match o {
        Op::Insert(k, v) => s[k as usize] = v,
        Op::Remove(k) => s[k as usize] = 0,
        Op::RemovePrefix(k) => {
            for (i, x) in s.iter_mut().enumerate() {
                if p.keys[i].starts_with(&p.prefixes[k as usize]) {
                    *x = 0;
                }
            }
        }
        Op::Filter(k) => {
            for (i, x) in s.iter_mut().enumerate() {
                if !p.keys[i].starts_with(&p.prefixes[k as usize]) {
                    *x = 0;
                }
            }
        }
    }
    s
}
pub fn step_map(p: &Profile, m: &mut Map, o: Op) {
    match o {
        Op::Insert(k, v) => {
            m.insert(p.keys[k as usize].clone(), p.vals[v as usize - 1].clone());
        }
        Op::Remove(k) => {
            m.remove(&p.keys[k as usize]);
        }
        Op::RemovePrefix(k) => rm::remove_prefix(m, &p.prefixes[k as usize]),
        Op::Filter(k) => *m = rm::scan(m, &p.prefixes[k as usize]),
    }
}
pub fn apply(p: &Profile, t: &mut RadixTree, o: Op) {
    match o {
        Op::Insert(k, v) => t.insert(&p.keys[k as usize], &p.vals[v as usize - 1]),
        Op::Remove(k) => t.remove(&p.keys[k as usize]),
        Op::RemovePrefix(k) => t.remove_prefix(&p.prefixes[k as usize]),
        Op::Filter(k) => *t = t.filter_prefix(&p.prefixes[k as usize], &p.prefixes[k as usize]),
    }
}

pub struct St {
    pub s: Vec<u8>,
    pub m: Map,
    pub t: RadixTree,
    pub prev: Option<(usize, Op)>,
}
pub fn history(p: &Profile, sts: &[St], mut i: usize) -> String {
    let mut h = vec![];
    while let Some((j, o)) = sts[i].prev {
        h.push(op_name(p, o));
        i = j;
    }
    h.reverse();
    if h.len() > 14 {
        let n = h.len();
        h.drain(4..n - 8);
        h.insert(4, "...".into());
    }
    format!("[{}]", h.join(", "))
}
pub struct Trans<'a> {
    pub p: &'a Profile,
    pub sts: &'a [St],
    pub from: usize,
    pub op: Op,
    pub shared: bool,
    /// content afterwards
    pub m: &'a Map,
    pub t: &'a RadixTree,
    /// the first time this state (content and representation) is reached
    pub new: bool,
}
/// At most this many representations are expanded for one content. On a canonical implementation there is one.
const VARIANTS: usize = 3;

/// Breadth first exploration from the empty tree. `shard`: the states whose transitions are judged by this call;
/// the graph itself is explored completely.
pub fn explore(
    p: &Profile,
    shard: (usize, usize),
    ctx: &mut Ctx,
    mut on_state: impl FnMut(&mut Ctx, &Profile, &[St], usize) -> R<()>,
    mut on_trans: impl FnMut(&mut Ctx, &Trans) -> R<()>,
) -> R<()> {
    let ops = ops(p);
    let mut sts: Vec<St> = vec![St { s: vec![0; p.keys.len()], m: Map::new(), t: RadixTree::default(), prev: None }];
    let mut seen: HashMap<Vec<u8>, Vec<(u64, u64)>> = HashMap::new();
    seen.insert(sts[0].s.clone(), vec![fingerprint(&sts[0].t)]);
    let mut queue: VecDeque<usize> = VecDeque::from([0]);
    let mut depth: Vec<u32> = vec![0];
    while let Some(i) = queue.pop_front() {
        let mine = sts[i].s.iter().fold(7u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(23)) % shard.1 as u64 == shard.0 as u64;
        crate::tick();
        if mine {
            ctx.states += 1;
            ctx.traces += 1;
            if sts[i].m.len() >= 2 {
                ctx.nontrivial += 1;
            }
            guarded(|| format!("state after {}", history(p, &sts, i)), || on_state(ctx, p, &sts, i))?;
        }
        for &o in &ops {
            let to = step(p, &sts[i].s, o);
            let known = seen.contains_key(&to);
            if !mine && known {
                continue;
            }
            let m = p.map(&to);
            for shared in [true, false] {
                if !mine && !shared {
                    continue;
                }
                let mut t = guarded(
                    || format!("{} after {} ({})", op_name(p, o), history(p, &sts, i), if shared { "shared" } else { "not shared" }),
                    || {
                        let mut t = if shared { sts[i].t.clone() } else { deep(&sts[i].t) };
                        apply(p, &mut t, o);
                        Ok(t)
                    },
                )?;
                let fp = guarded(|| format!("{} after {}: reading the result", op_name(p, o), history(p, &sts, i)), || Ok(fingerprint(&t)))?;
                let vs = seen.entry(to.clone()).or_default();
                let new = !vs.contains(&fp) && vs.len() < VARIANTS;
                if mine {
                    ctx.transitions += 1;
                    let tr = Trans { p, sts: &sts, from: i, op: o, shared, m: &m, t: &t, new };
                    guarded(
                        || {
                            format!(
                                "after {} then {} ({})",
                                history(p, &sts, i),
                                op_name(p, o),
                                if shared { "nodes shared with a clone" } else { "nodes not shared" }
                            )
                        },
                        || on_trans(ctx, &tr),
                    )?;
                }
                if new {
                    vs.push(fp);
                    if vs.len() > 1 {
                        ctx.note("additional representations of a content", 1);
                    }
                    let j = sts.len();
                    if shared {
                        // do not keep sharing with the parent state: long chains of shared nodes hide in-place paths
                        t = t.clone();
                    }
                    sts.push(St { s: to.clone(), m: m.clone(), t, prev: Some((i, o)) });
                    depth.push(depth[i] + 1);
                    ctx.note_max("depth", depth[j] as u64);
                    queue.push_back(j);
                }
            }
        }
    }
    if shard.0 == 0 {
        ctx.sample(|| {
            let i = sts.len() * 2 / 3;
            format!("{} -> {}", history(p, &sts, i), show_map(&sts[i].m))
        });
    }
    Ok(())
}

/// All operation sequences of exactly `depth` operations from the empty tree, each executed from the start on one
/// tree that is never cloned. `check` runs on the final tree.
pub fn sequences(
    p: &Profile,
    depth: usize,
    first: Option<usize>,
    ctx: &mut Ctx,
    mut check: impl FnMut(&mut Ctx, &RadixTree, &Map) -> R<()>,
) -> R<()> {
    let ops = ops(p);
    let n = ops.len() as u64;
    let total = n.pow(depth as u32);
    let (from, to) = match first {
        // all sequences that start with this operation
        Some(f) => (f as u64 * (total / n), (f as u64 + 1) * (total / n)),
        None => (0, total),
    };
    for k in from..to {
        if k % 256 == 0 {
            crate::tick();
        }
        let mut seq = Vec::with_capacity(depth);
        let mut x = k;
        let mut d = total / n;
        for _ in 0..depth {
            seq.push(ops[(x / d) as usize]);
            x %= d;
            d = (d / n).max(1);
        }
        guarded(
            || format!("sequence [{}]", seq.iter().map(|o| op_name(p, *o)).collect::<Vec<_>>().join(", ")),
            || {
                let mut t = RadixTree::default();
                let mut m = Map::new();
                for &o in &seq {
                    apply(p, &mut t, o);
                    step_map(p, &mut m, o);
                    ctx.transitions += 1;
                }
                check(ctx, &t, &m)
            },
        )?;
        ctx.traces += 1;
    }
    Ok(())
}

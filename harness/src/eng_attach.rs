//! Exploration of trees that are attached to a store: the state is the content together with the parts that are
//! persisted, loaded or modified.
use crate::core::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::stores::*;
use crate::tree::*;
use radixdb::store::DynBlobStore;
use radixdb::RadixTree;
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;

pub type DT = RadixTree<DynBlobStore>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AOp {
    Insert(u8, u8),
    Remove(u8),
    RemovePrefix(u8),
    Filter(u8),
    /// write everything
    Persist,
    /// write everything and load it from the root id
    Reload,
    /// to memory and back
    Detach,
}
pub fn aops(p: &Profile) -> Vec<AOp> {
    let mut r = vec![AOp::Persist, AOp::Reload, AOp::Detach];
    for k in 0..p.keys.len() {
        for v in 0..p.vals.len() {
            r.push(AOp::Insert(k as u8, v as u8 + 1));
        }
        r.push(AOp::Remove(k as u8));
    }
    for k in 0..p.prefixes.len() {
        r.push(AOp::RemovePrefix(k as u8));
        r.push(AOp::Filter(k as u8));
    }
    r
}
pub fn aname(p: &Profile, o: AOp) -> String {
    match o {
        AOp::Insert(k, v) => format!("insert({}, {})", show(&p.keys[k as usize]), show(&p.vals[v as usize - 1])),
        AOp::Remove(k) => format!("remove({})", show(&p.keys[k as usize])),
        AOp::RemovePrefix(k) => format!("remove_prefix({})", show(&p.prefixes[k as usize])),
        AOp::Filter(k) => format!("filter_prefix({0}, {0})", show(&p.prefixes[k as usize])),
        AOp::Persist => "reattach".into(),
        AOp::Reload => "reattach and load".into(),
        AOp::Detach => "detach and attach".into(),
    }
}
pub fn step_amap(p: &Profile, m: &mut Map, o: AOp) {
    match o {
        AOp::Insert(k, v) => {
            m.insert(p.keys[k as usize].clone(), p.vals[v as usize - 1].clone());
        }
        AOp::Remove(k) => {
            m.remove(&p.keys[k as usize]);
        }
        AOp::RemovePrefix(k) => rm::remove_prefix(m, &p.prefixes[k as usize]),
        AOp::Filter(k) => *m = rm::scan(m, &p.prefixes[k as usize]),
        _ => {}
    }
}
pub fn ok<T>(what: &str, r: anyhow::Result<T>) -> R<T> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => viol(format!("{what} fails: {e:?}")),
    }
}
/// Apply the operation; returns the root ids that were written.
pub fn apply_a(p: &Profile, t: &mut DT, o: AOp) -> R<Option<Vec<u8>>> {
    match o {
        AOp::Insert(k, v) => ok("insert", t.try_insert(&p.keys[k as usize], &p.vals[v as usize - 1]))?,
        AOp::Remove(k) => ok("remove", t.try_remove(&p.keys[k as usize]))?,
        AOp::RemovePrefix(k) => ok("remove_prefix", t.try_remove_prefix(&p.prefixes[k as usize]))?,
        AOp::Filter(k) => {
            let q = &p.prefixes[k as usize];
            *t = ok("filter_prefix", t.try_filter_prefix(q, q))?;
        }
        AOp::Persist => return Ok(Some(ok("reattach", t.try_reattach())?)),
        AOp::Reload => {
            let id = ok("reattach", t.try_reattach())?;
            let st = RadixTree::store(t).clone();
            *t = ok("load", RadixTree::try_load(st, Some(&id)))?;
            return Ok(Some(id));
        }
        AOp::Detach => {
            let d = ok("detach", t.try_detached())?;
            *t = ok("attach", d.try_attached(RadixTree::store(t).clone()))?;
        }
    }
    Ok(None)
}
pub struct ASt {
    pub m: Map,
    pub t: DT,
    pub prev: Option<(usize, AOp)>,
}
pub fn ahistory(p: &Profile, sts: &[ASt], mut i: usize) -> String {
    let mut h = vec![];
    while let Some((j, o)) = sts[i].prev {
        h.push(aname(p, o));
        i = j;
    }
    h.reverse();
    if h.len() > 14 {
        let n = h.len();
        h.drain(4..n - 8);
        h.insert(4, "...".into());
    }
    format!("[{}]", h.join(", "))
}
pub struct ATrans<'a> {
    pub p: &'a Profile,
    pub sts: &'a [ASt],
    pub from: usize,
    pub op: AOp,
    pub m: &'a Map,
    pub t: &'a DT,
    pub new: bool,
}
/// safety cap on the number of persistence states of one content; reported when it is hit
const FORMS: usize = 512;

/// Breadth first to closure, starting from the empty tree.
pub fn aexplore(
    p: &Profile,
    store: &Arc<InternStore>,
    ctx: &mut Ctx,
    before: impl FnMut(&mut Ctx, &[ASt], usize, AOp) -> R<()>,
    on_trans: impl FnMut(&mut Ctx, &ATrans) -> R<()>,
) -> R<Vec<ASt>> {
    aexplore_on(p, store.clone(), ctx, before, on_trans)
}
pub fn aexplore_on(
    p: &Profile,
    st: DynBlobStore,
    ctx: &mut Ctx,
    mut before: impl FnMut(&mut Ctx, &[ASt], usize, AOp) -> R<()>,
    mut on_trans: impl FnMut(&mut Ctx, &ATrans) -> R<()>,
) -> R<Vec<ASt>> {
    let ops = aops(p);
    let mut sts = vec![ASt { m: Map::new(), t: RadixTree::empty(st), prev: None }];
    let mut seen: HashMap<Map, Vec<(u64, u64)>> = HashMap::new();
    seen.insert(Map::new(), vec![fingerprint(&sts[0].t)]);
    let mut queue: VecDeque<usize> = VecDeque::from([0]);
    while let Some(i) = queue.pop_front() {
        crate::tick();
        ctx.states += 1;
        ctx.traces += 1;
        ctx.nontrivial += (sts[i].m.len() >= 2) as u64;
        for &o in &ops {
            before(ctx, &sts, i, o)?;
            let mut m = sts[i].m.clone();
            step_amap(p, &mut m, o);
            let what = || format!("after {} then {}", ahistory(p, &sts, i), aname(p, o));
            let mut t = sts[i].t.clone();
            guarded(what, || apply_a(p, &mut t, o).map(drop))?;
            let fp = guarded(what, || Ok(fingerprint(&t)))?;
            ctx.transitions += 1;
            let vs = seen.entry(m.clone()).or_default();
            let mut new = !vs.contains(&fp);
            if new && vs.len() >= FORMS {
                ctx.note("persistence states beyond the cap", 1);
                new = false;
            }
            let tr = ATrans { p, sts: &sts, from: i, op: o, m: &m, t: &t, new };
            guarded(what, || on_trans(ctx, &tr))?;
            if new {
                vs.push(fp);
                sts.push(ASt { m, t, prev: Some((i, o)) });
                queue.push_back(sts.len() - 1);
            }
        }
    }
    ctx.note_max("forms of one content", seen.values().map(|x| x.len() as u64).max().unwrap_or(0));
    ctx.sample(|| {
        let i = sts.len() * 2 / 3;
        format!("{} -> {}", ahistory(p, &sts, i), show_map(&sts[i].m))
    });
    Ok(sts)
}
pub fn states_only(p: &Profile, store: &Arc<InternStore>, ctx: &mut Ctx) -> R<Vec<ASt>> {
    aexplore(p, store, ctx, |_, _, _, _| Ok(()), |_, _| Ok(()))
}

/// the same state, built again, so that it shares nothing with other trees
pub fn rebuild(p: &Profile, st: &DynBlobStore, sts: &[ASt], mut i: usize) -> R<DT> {
    let mut h = vec![];
    while let Some((j, o)) = sts[i].prev {
        h.push(o);
        i = j;
    }
    let mut t = RadixTree::empty(st.clone());
    for o in h.into_iter().rev() {
        apply_a(p, &mut t, o)?;
    }
    Ok(t)
}

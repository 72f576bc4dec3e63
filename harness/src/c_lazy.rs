//! S08: trees are read from and written to a store block by block, only as far as needed.
use crate::c_attach::*;
use crate::core::*;
use crate::eng_attach::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::stores::*;
use crate::tree::*;
use radixdb::node::{DowncastConverter, Value, ValueRef};
use radixdb::store::{Blob, BlobStore, DynBlobStore};
use radixdb::RadixTree;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// remembers which blocks were read and written
#[derive(Debug)]
pub struct LogStore {
    inner: Arc<InternStore>,
    /// give equal blobs different ids
    unique: bool,
    blobs: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>,
    reads: Mutex<Vec<Vec<u8>>>,
    writes: Mutex<Vec<Vec<u8>>>,
}
impl LogStore {
    fn new(idlen: usize, unique: bool) -> Arc<Self> {
        Arc::new(LogStore {
            inner: InternStore::new(idlen, 0x31),
            unique,
            blobs: Default::default(),
            reads: Default::default(),
            writes: Default::default(),
        })
    }
    fn clear(&self) {
        self.reads.lock().unwrap().clear();
        self.writes.lock().unwrap().clear();
    }
    fn peek(&self, id: &[u8]) -> R<Vec<u8>> {
        let r = if self.unique { self.blobs.lock().unwrap().get(id).cloned() } else { self.inner.blob(id).map(|x| x.to_vec()) };
        match r {
            Some(x) => Ok(x),
            None => viol(format!("a block refers to the id {} that was never returned", show(id))),
        }
    }
    fn taken(&self) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        (std::mem::take(&mut *self.reads.lock().unwrap()), std::mem::take(&mut *self.writes.lock().unwrap()))
    }
}
impl BlobStore for LogStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        self.reads.lock().unwrap().push(id.to_vec());
        if self.unique {
            match self.blobs.lock().unwrap().get(id) {
                Some(x) => Ok(Blob::copy_from_slice(x)),
                None => Err(anyhow::anyhow!("read of an id that was never returned: {id:02x?}")),
            }
        } else {
            self.inner.get(id)
        }
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let id = if self.unique {
            let mut g = self.blobs.lock().unwrap();
            let mut id = vec![0x5a; self.inner.idlen];
            id[..4].copy_from_slice(&(g.len() as u32).to_le_bytes());
            g.insert(id.clone(), data.to_vec());
            id
        } else {
            self.inner.put(data)
        };
        self.writes.lock().unwrap().push(id.clone());
        Ok(id)
    }
    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

/// one node of the persisted tree, as an independent reader sees it
#[derive(Debug, Clone)]
struct Node {
    path: Vec<u8>,
    /// length of the path of the parent
    up: usize,
    root: bool,
    prefix: Option<Vec<u8>>,
    value: Option<Vec<u8>>,
    has_value: bool,
    children: Option<Vec<u8>>,
}
/// all nodes, parents first, in ascending order
fn layout(st: &LogStore, root: &[u8]) -> R<Vec<Node>> {
    fn field<'a>(d: &'a [u8], i: &mut usize) -> R<(bool, &'a [u8])> {
        ensure!(*i < d.len(), "a block ends early: {}", show(d));
        let h = d[*i];
        let n = (h & 0x7f) as usize;
        ensure!(*i + 1 + n <= d.len(), "a block ends early: {}", show(d));
        let p = &d[*i + 1..*i + 1 + n];
        *i += 1 + n;
        Ok((h & 0x80 != 0, p))
    }
    fn node(st: &LogStore, d: &[u8], i: &mut usize, path: &[u8], root: bool, out: &mut Vec<Node>) -> R<()> {
        let (pi, p) = field(d, i)?;
        let mut n = Node { path: path.to_vec(), up: path.len(), root, prefix: None, value: None, has_value: true, children: None };
        if pi {
            n.prefix = Some(p[1..].to_vec());
            n.path.extend(st.peek(&p[1..])?);
        } else {
            n.path.extend_from_slice(p);
        }
        let (vi, v) = field(d, i)?;
        if vi {
            n.has_value = !v.is_empty();
            n.value = Some(v.to_vec()).filter(|x| !x.is_empty());
        }
        let (_, c) = field(d, i)?;
        if !c.is_empty() {
            n.children = Some(c[1..].to_vec());
        }
        let (path, ch) = (n.path.clone(), n.children.clone());
        out.push(n);
        if let Some(id) = ch {
            let block = st.peek(&id)?;
            let mut j = 0;
            while j < block.len() {
                node(st, &block, &mut j, &path, false, out)?;
            }
        }
        Ok(())
    }
    let mut out = vec![];
    let mut i = 0;
    node(st, root, &mut i, &[], true, &mut out)?;
    Ok(out)
}
type Ids = BTreeMap<Vec<u8>, u64>;
fn add(r: &mut Ids, id: &Option<Vec<u8>>) {
    if let Some(id) = id {
        *r.entry(id.clone()).or_default() += 1;
    }
}
/// what is needed to find the key; `values`: also the value
fn path_ids(ns: &[Node], k: &[u8], values: bool, below: bool) -> Ids {
    let mut r = Ids::new();
    for n in ns {
        let up = &n.path[..n.up];
        let toward = n.root || k.len() > n.up && k.starts_with(up) && k[n.up] == n.path[n.up];
        if toward {
            add(&mut r, &n.prefix);
            if k.starts_with(&n.path) && (k.len() > n.path.len() || below) {
                add(&mut r, &n.children);
            }
            if values && k == &n.path[..] {
                add(&mut r, &n.value);
            }
        }
    }
    r
}
fn union(a: &mut Ids, b: Ids) {
    for (k, n) in b {
        let e = a.entry(k).or_default();
        *e = (*e).max(n);
    }
}
fn reads_within(what: &str, st: &LogStore, allowed: &Ids, ns: &[Node]) -> R<()> {
    let (rs, ws) = st.taken();
    ensure!(ws.is_empty(), "{what} writes {} blocks", ws.len());
    within("reads", what, &rs, allowed, ns)
}
fn within(verb: &str, what: &str, ids: &[Vec<u8>], allowed: &Ids, ns: &[Node]) -> R<()> {
    let mut seen = Ids::new();
    for id in ids {
        let e = seen.entry(id.clone()).or_default();
        *e += 1;
        match allowed.get(id) {
            None => return viol(format!("{what} {verb} {}, which it does not need", describe(id, ns))),
            // finding a position and then using it may read its blocks twice
            Some(n) => ensure!(*e <= *n * if verb == "reads" { 2 } else { 1 }, "{what} {verb} {} {} times", describe(id, ns), *e),
        }
    }
    Ok(())
}
fn describe(id: &[u8], ns: &[Node]) -> String {
    for n in ns {
        for (what, x) in [("prefix", &n.prefix), ("value", &n.value), ("children", &n.children)] {
            if x.as_deref() == Some(id) {
                return format!("the {what} of the node {}", show(&n.path));
            }
        }
    }
    format!("the block {}", show(id))
}
/// nodes that are visited up to the entry number `j` (from 0) among those that start with `q`
fn up_to(ns: &[Node], q: &[u8], j: usize, values: bool) -> Ids {
    let mut r = path_ids(ns, q, false, false);
    let mut seen = 0;
    let mut b = Ids::new();
    for n in ns.iter().filter(|n| n.path.starts_with(q)) {
        add(&mut b, &n.prefix);
        if n.has_value {
            if values && seen < j {
                add(&mut b, &n.value);
            }
            if seen == j {
                break;
            }
            seen += 1;
        }
        add(&mut b, &n.children);
    }
    // a node that the path ends in is counted in both
    for (k, n) in b {
        *r.entry(k).or_default() += n;
    }
    r
}

/// all reading operations of one tree; `ns` are the nodes of the same tree after it was written
fn read_queries(t: &DT, st: &LogStore, ns: &[Node], m: &Map, probes: &[Vec<u8>], evals: &mut u64) -> R<()> {
    st.clear();
    for k in probes {
        let want = m.get(k);
        let x = ok("contains_key", t.try_contains_key(k))?;
        ensure!(x == want.is_some(), "contains_key({}) is {x}", show(k));
        reads_within(&format!("contains_key({})", show(k)), st, &path_ids(ns, k, false, false), ns)?;
        let g = ok("get", t.try_get(k))?;
        reads_within(&format!("get({})", show(k)), st, &path_ids(ns, k, false, false), ns)?;
        if let Some(g) = g {
            let d = ok("Value::load", g.load(RadixTree::store(t)))?;
            ensure!(Some(d.as_ref()) == want.map(|x| &x[..]), "get({}) is {}", show(k), show(&d));
            let mut a = Ids::new();
            for n in ns.iter().filter(|n| n.path == *k) {
                add(&mut a, &n.value);
            }
            reads_within(&format!("loading the value of {}", show(k)), st, &a, ns)?;
        }
        let x = ok("has_prefix", t.try_has_prefix(k))?;
        ensure!(x == rm::has_prefix(m, k), "has_prefix({}) is {x}", show(k));
        reads_within(&format!("has_prefix({})", show(k)), st, &path_ids(ns, k, false, false), ns)?;
        let f = ok("filter_prefix", t.try_filter_prefix(k, b"new"))?;
        reads_within(&format!("filter_prefix({})", show(k)), st, &path_ids(ns, k, false, false), ns)?;
        drop(f);
        let n = rm::scan(m, k).len();
        for j in 0..=n {
            let mut it = ok("scan_prefix", t.try_scan_prefix(k))?;
            for _ in 0..j {
                ensure!(it.next().map(|x| x.is_ok()) == Some(true), "scan_prefix({}) ends early", show(k));
            }
            reads_within(&format!("the first {j} entries of scan_prefix({})", show(k)), st, &up_to(ns, k, j, false), ns)?;
        }
        *evals += 5 + n as u64;
    }
    for j in 0..=m.len() {
        let mut it = t.try_iter();
        for _ in 0..j {
            let (_, v) = match it.next() {
                Some(Ok(x)) => x,
                x => return viol(format!("iter() yields {:?}", x.map(|x| x.map(|_| ()))))
            };
            drop(v);
        }
        reads_within(&format!("the first {j} entries of iter()"), st, &up_to(ns, b"", j, false), ns)?;
        let mut it = t.try_values();
        for _ in 0..j {
            ensure!(it.next().map(|x| x.is_ok()) == Some(true), "values() ends early");
        }
        reads_within(&format!("the first {j} entries of values()"), st, &up_to(ns, b"", j, false), ns)?;
        *evals += 2;
    }
    // the ends
    let first = up_to(ns, b"", 0, false);
    let mut last = Ids::new();
    if let Some(l) = ns.last() {
        for n in ns.iter().filter(|n| l.path.starts_with(&n.path)) {
            add(&mut last, &n.prefix);
            add(&mut last, &n.children);
        }
    }
    ok("first_value", t.try_first_value())?;
    reads_within("first_value()", st, &first, ns)?;
    ok("first_entry", t.try_first_entry(vec![]))?;
    reads_within("first_entry()", st, &first, ns)?;
    ok("last_value", t.try_last_value())?;
    reads_within("last_value()", st, &last, ns)?;
    ok("last_entry", t.try_last_entry(vec![]))?;
    reads_within("last_entry()", st, &last, ns)?;
    let _ = (t.is_empty(), t.is_leaf(), t.prefix(), t.value().is_some(), t.clone());
    reads_within("looking at the root", st, &Ids::new(), ns)?;
    for d in [0usize, 1, 2, 200] {
        let n = ok("group_by", t.try_group_by(|p, _| Ok(p.len() < d)).collect::<anyhow::Result<Vec<_>>>())?.len();
        let mut a = Ids::new();
        for n in ns {
            // the prefix of every group is part of the path
            if n.root || n.up < d {
                add(&mut a, &n.prefix);
                if n.path.len() < d {
                    add(&mut a, &n.children);
                }
            }
        }
        reads_within(&format!("group_by up to the depth {d} ({n} groups)"), st, &a, ns)?;
    }
    *evals += 9;
    Ok(())
}
/// combinations of the tree with a small one in memory
fn join_queries(t: &DT, st: &LogStore, ns: &[Node], small: &Map, evals: &mut u64) -> R<()> {
    let b = build(small);
    let mut path = Ids::new();
    for k in small.keys() {
        union(&mut path, path_ids(ns, k, false, true));
    }
    // a join looks at the children on the way one after the other, so it may read their prefixes
    for n in ns {
        if n.root || small.keys().any(|k| k.starts_with(&n.path[..n.up])) {
            if let Some(id) = &n.prefix {
                path.insert(id.clone(), 1 + small.len() as u64);
            }
        }
    }
    let s = || show_map(small);
    st.clear();
    let pred = |_: &ValueRef<DynBlobStore>, _: &ValueRef| -> anyhow::Result<bool> { Ok(false) };
    ok("inner_combine_pred", t.try_inner_combine_pred(&b, pred))?;
    reads_within(&format!("inner_combine_pred with {}", s()), st, &path, ns)?;
    ok("inner_combine", t.try_inner_combine(&b, |_: &ValueRef<DynBlobStore>, _: &ValueRef| -> anyhow::Result<Option<Value>> { Ok(None) }))?;
    reads_within(&format!("inner_combine with {}", s()), st, &path, ns)?;
    // from the other side
    ok("left_combine_pred", b.try_left_combine_pred(t, |_: &ValueRef, _: &ValueRef<DynBlobStore>| -> anyhow::Result<bool> { Ok(false) }))?;
    reads_within(&format!("left_combine_pred of {}", s()), st, &path, ns)?;
    ok("left_combine", b.try_left_combine(t, |_: &ValueRef, _: &ValueRef<DynBlobStore>| -> anyhow::Result<Option<Value>> { Ok(None) }))?;
    reads_within(&format!("left_combine of {}", s()), st, &path, ns)?;
    // in place
    let set = |a: &mut Value<DynBlobStore>, b: &ValueRef| -> anyhow::Result<()> {
        a.set(Some(&b.downcast()));
        Ok(())
    };
    let mut x = t.clone();
    ok("outer_combine_with", x.try_outer_combine_with(&b, DowncastConverter, set))?;
    reads_within(&format!("outer_combine_with({})", s()), st, &path, ns)?;
    let mut x = t.clone();
    ok("left_combine_with", x.try_left_combine_with(&b, DowncastConverter, set))?;
    reads_within(&format!("left_combine_with({})", s()), st, &path, ns)?;
    *evals += 6;
    
    Ok(())
}
/// write the tree; only blocks of nodes on the paths of the changed keys may be written
fn write_within(what: &str, t: &mut DT, st: &LogStore, m: &Map, changed: &[Vec<u8>]) -> R<Vec<Node>> {
    st.clear();
    let id = ok("reattach", t.try_reattach())?;
    let (rs, ws) = st.taken();
    let root = st.peek(&id)?;
    let ns = layout(st, &root)?;
    let mut a = Ids::new();
    a.insert(id.clone(), 1);
    for n in &ns {
        let up = &n.path[..n.up];
        let touched = |p: &[u8]| changed.iter().any(|k| k.starts_with(p));
        // a key that was removed or split off may have changed the prefix of a neighbour
        if n.root || touched(up) {
            add(&mut a, &n.prefix);
        }
        if touched(&n.path) {
            add(&mut a, &n.children);
        }
        if changed.iter().any(|k| *k == n.path) {
            add(&mut a, &n.value);
        }
    }
    if let Err(v) = within("writes", what, &ws, &a, &ns) {
        return viol(v.what);
    }
    ensure!(ws.last() == Some(&id), "{what} returns an id that is not the one of the last block it wrote");
    ensure!(rs.is_empty(), "{what} reads {} blocks, the first is {}", rs.len(), describe(&rs[0], &ns));
    let got: Vec<&[u8]> = ns.iter().filter(|n| n.has_value).map(|n| &n.path[..]).collect();
    ensure!(got.iter().zip(m.keys()).all(|(a, b)| *a == &b[..]) && got.len() == m.len(), "the written blocks hold other keys than {}", show_map(m));
    Ok(ns)
}
fn load_lazily(st: &Arc<LogStore>, id: &[u8]) -> R<DT> {
    st.clear();
    let t = ok("load", RadixTree::try_load(dynstore(st.clone()), Some(id)))?;
    let (rs, ws) = st.taken();
    ensure!(ws.is_empty() && rs.len() <= 1 && rs.iter().all(|x| x == id), "load reads {} blocks and writes {}", rs.len(), ws.len());
    Ok(t)
}
/// everything for one content
fn content(p: &Profile, m: &Map, idlen: usize, pairs: bool, evals: &mut u64) -> R<()> {
    let st = LogStore::new(idlen, true);
    let mut t = attach_log(&build(m), &st)?;
    st.clear();
    let id = ok("reattach", t.try_reattach())?;
    let ns = layout(&st, &st.peek(&id)?)?;
    // straight after writing
    read_queries(&t, &st, &ns, m, &p.probes, evals)?;
    let l = load_lazily(&st, &id)?;
    read_queries(&l, &st, &ns, m, &p.probes, evals)?;
    for k in &p.keys {
        join_queries(&l, &st, &ns, &[(k.clone(), b"j".to_vec())].into_iter().collect(), evals)?;
        if pairs {
            for k2 in &p.keys {
                join_queries(&l, &st, &ns, &[(k.clone(), b"j".to_vec()), (k2.clone(), b"k".to_vec())].into_iter().collect(), evals)?;
            }
        }
    }
    // writing what was not changed, or only looked at
    for look in 0..3 {
        let mut x = load_lazily(&st, &id)?;
        match look {
            1 => {
                let _ = g_entries(&x);
            }
            2 => {
                for k in &p.probes {
                    let _ = x.try_get(k);
                }
            }
            _ => {}
        }
        write_within("writing a tree that was not changed", &mut x, &st, m, &[])?;
        g_check(&x, m)?;
    }
    // one change, or two
    let ops: Vec<AOp> = aops(p).into_iter().filter(|o| !matches!(o, AOp::Persist | AOp::Reload | AOp::Detach)).collect();
    let twice = |x: &DT, m: &Map, ns: &[Node], o: AOp, evals: &mut u64| -> R<(DT, Map, Vec<Vec<u8>>)> {
        let mut x = x.clone();
        let mut m1 = m.clone();
        let name = aname(p, o);
        let mut a;
        let changed = match o {
            AOp::Insert(k, _) | AOp::Remove(k) => {
                let k = &p.keys[k as usize];
                a = path_ids(ns, k, false, true);
                // the neighbour that a removed node leaves alone is joined with their parent
                for n in ns.iter().filter(|n| k.starts_with(&n.path[..n.up])) {
                    if let Some(id) = &n.prefix {
                        a.insert(id.clone(), 1);
                    }
                }
                vec![k.clone()]
            }
            AOp::RemovePrefix(k) | AOp::Filter(k) => {
                let q = &p.prefixes[k as usize];
                a = path_ids(ns, q, false, true);
                for n in ns.iter().filter(|n| q.starts_with(&n.path[..n.up])) {
                    if let Some(id) = &n.prefix {
                        a.insert(id.clone(), 1);
                    }
                }
                vec![q.clone()]
            }
            _ => unreachable!(),
        };
        st.clear();
        apply_a(p, &mut x, o)?;
        reads_within(&name, &st, &a, ns)?;
        step_amap(p, &mut m1, o);
        *evals += 1;
        Ok((x, m1, changed))
    };
    for &o in &ops {
        let (mut x, m1, ch) = guarded(|| aname(p, o), || twice(&l, m, &ns, o, evals))?;
        let mut y = x.clone();
        let ns1 = guarded(|| aname(p, o), || write_within("writing", &mut y, &st, &m1, &ch))?;
        // what is modified in memory answers without reading what it replaced
        guarded(|| format!("{}, then", aname(p, o)), || read_queries(&x, &st, &ns1, &m1, &p.keys, evals))?;
        guarded(|| format!("{}, written, then", aname(p, o)), || read_queries(&y, &st, &ns1, &m1, &p.keys, evals))?;
        if pairs {
            for &o2 in &ops {
                guarded(
                    || format!("{} {}", aname(p, o), aname(p, o2)),
                    || {
                        let (mut z, m2, mut ch2) = twice(&x, &m1, &ns1, o2, evals)?;
                        ch2.extend(ch.iter().cloned());
                        let ns2 = write_within("writing", &mut z, &st, &m2, &ch2)?;
                        g_check(&z, &m2)?;
                        // and a second time
                        write_within("writing again", &mut z, &st, &m2, &[])?;
                        let _ = ns2;
                        Ok(())
                    },
                )?;
            }
        }
        ok("reattach", x.try_reattach())?;
        g_check(&x, &m1)?;
    }
    Ok(())
}
fn attach_log(t: &RadixTree, st: &Arc<LogStore>) -> R<DT> {
    attach(t, &dynstore(st.clone()))
}
fn all_contents(ctx: &mut Ctx, p: &Profile, idlen: usize, pairs: bool) -> R<()> {
    for k in 0..p.nstates() {
        crate::tick();
        let m = p.map(&p.nth(k));
        ctx.states += 1;
        ctx.traces += 1;
        ctx.nontrivial += (m.len() >= 2) as u64;
        let mut e = 0;
        guarded(|| format!("content {}", show_map(&m)), || content(p, &m, idlen, pairs, &mut e))?;
        ctx.evals += e;
        ctx.transitions += e;
    }
    ctx.sample(|| format!("all {} contents over {} keys with {} values: {}", p.nstates(), p.keys.len(), p.vals.len(), p.name));
    Ok(())
}
/// all persistence states, on a content addressed store
fn graph(ctx: &mut Ctx, q: &Profile, idlen: usize) -> R<()> {
    let st = LogStore::new(idlen, false);
    let s2 = st.clone();
    let mut e = 0;
    aexplore_on(
        q,
        dynstore(st.clone()),
        ctx,
        |_, _, _, _| Ok(()),
        |_, tr| {
            if tr.new {
                let mut y = tr.t.clone();
                let id = ok("reattach", y.try_reattach())?;
                let ns = layout(&s2, &s2.peek(&id)?)?;
                // equal blocks have equal ids here, so only the sets are compared, with as many reads as there are nodes
                read_queries(tr.t, &s2, &ns, tr.m, &q.probes, &mut e)?;
                write_within("writing a tree that was just written", &mut y, &s2, tr.m, &[])?;
            }
            Ok(())
        },
    )?;
    ctx.evals += e;
    Ok(())
}

pub fn s08(thorough: bool) -> Check {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        let idlen = idlen.max(4);
        let n = aops(&p).len() as u64;
        let pairs = p.nstates() * n * n < if thorough { 3_000_000 } else { 60_000 };
        if p.nstates() <= 20_000 || thorough {
            let q = p.clone();
            units.push(unit(format!("contents-{}", p.name), move |ctx| all_contents(ctx, &q, idlen, pairs)));
        }
        units.push(unit(format!("graph-{}", p.name), move |ctx| graph(ctx, &p, idlen)));
    }
    units.extend(length_units(thorough, "lengths", |ctx, p, idlen| {
        // what is read does not depend on every length
        let n = p.vals[0].len();
        if ctx.thorough || n <= 10 || (125..=131).contains(&n) || (254..=257).contains(&n) {
            all_contents(ctx, p, idlen.max(4), false)?;
        }
        Ok(())
    }));
    for kind in 0..KINDS {
        for &w in WIDES.iter().rev().filter(|w| thorough || ![15, 85, 127, 129, 254].contains(*w) && (kind < 6 || **w <= 128)) {
            units.push(unit(format!("wide-{kind}-{w}"), move |ctx| {
                let m = wide_content(w, kind);
                // probes at the ends and in the middle
                let mut keys: Vec<Vec<u8>> = m.keys().step_by(m.len().div_ceil(3)).cloned().collect();
                keys.push(vec![0x80]);
                keys.dedup();
                let p = Profile::new(format!("wide{w}"), keys, vec![v("x"), val(200, b'L')]);
                ctx.states += 1;
                ctx.traces += 1;
                ctx.nontrivial += 1;
                let mut e = 0;
                guarded(|| format!("{w} children of kind {kind}"), || content(&p, &m, 8, false, &mut e))?;
                ctx.evals += e;
                Ok(())
            }));
        }
    }
    Check {
        id: "S08",
        level: "model_checking",
        rule: "in every content of each universe, freshly written, freshly loaded, and after one and two changes, and in every persistence state: the blocks that each operation reads and that writing back writes are recorded and compared with those that an independent reader of the blocks finds on the paths concerned; non-trivial: at least two entries",
        bounds: "the universes of S01; all probes, all scans stopped after every number of entries; joins with one or two keys".into(),
        assumptions: vec!["the independent reader of the block format in the harness"],
        units,
        quarantine: false,
    }
}

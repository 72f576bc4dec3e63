//! C01, C02: several threads (only in the build with the feature "sched").
use crate::c_attach::*;
use crate::core::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::refmodel::Join;
use crate::sched::{self, quiet};
use crate::stores::memfd;
use crate::sysio::{self, Fault};
use crate::tree::*;
use radixdb::node::{IdentityConverter, Value};
use radixdb::store::{Blob, BlobStore, Detached, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::cell::{RefCell, UnsafeCell};
use std::collections::HashMap;
use std::fmt::Debug;
use std::fs::File;
use std::sync::Arc;

/// what one thread owns; only one thread runs at a time
struct Slot<T>(UnsafeCell<Option<T>>);
unsafe impl<T> std::marker::Sync for Slot<T> {}
unsafe impl<T> Send for Slot<T> {}
impl<T> Slot<T> {
    fn new(x: T) -> Self {
        Slot(UnsafeCell::new(Some(x)))
    }
    fn empty() -> Self {
        Slot(UnsafeCell::new(None))
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut Option<T> {
        unsafe { &mut *self.0.get() }
    }
    fn take(&self) -> T {
        self.get().take().unwrap()
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum T {
    InsNew,
    InsOver,
    InsSplit,
    RemLeaf,
    RemInner,
    RemPrefix,
    Filter,
    Get,
    Iter,
    ScanHeld,
    With(Join),
    Fun(Join),
    RemWith,
    RetWith,
    Group,
    Persist,
    CloneEq,
    Values,
}
use T::*;
const ALL: &[T] = &[
    InsNew,
    InsOver,
    InsSplit,
    RemLeaf,
    RemInner,
    RemPrefix,
    Filter,
    Get,
    Iter,
    ScanHeld,
    With(Join::Outer),
    With(Join::Inner),
    With(Join::Left),
    Fun(Join::Outer),
    Fun(Join::Inner),
    Fun(Join::Left),
    RemWith,
    RetWith,
    Group,
    Persist,
    CloneEq,
    Values,
];
fn content(kind: usize) -> (Map, Map) {
    let mk = |e: &[(&str, &str)]| -> Map { e.iter().map(|(k, x)| (v(k), v(x))).collect() };
    match kind {
        // two levels, long prefix and long values (both in shared allocations), value at an inner node
        0 => (
            mk(&[("", "r0"), ("aaaaaaaaaaaa1", "a long value number 1"), ("aaaaaaaaaaaa2", "s2"), ("b", "another long value 3"), ("ba", "t4")]),
            mk(&[("aaaaaaaaaaaa1", "T1"), ("b", "a0 and what follows it"), ("ba", "y2"), ("c", "c4 also longer than 8")]),
        ),
        // three levels, and the other tree cuts it everywhere
        1 => (
            mk(&[("a", "a0"), ("aab", "a1 long long long"), ("aac", "a2"), ("aacd", "a3"), ("aace", "a4"), ("b", "b5")]),
            mk(&[("aa", "x0"), ("aac", "x1 long long long"), ("aacdx", "x2"), ("b", "x3")]),
        ),
        // a single node
        _ => (mk(&[("aaaaaaaaaaaaaaaaaaaa", "a long value number 0")]), mk(&[("aaaaaaaaaaaaaaaaaaaa", "another value nr 1")])),
    }
}
const TAB: Table = b"KTDKT";
fn okk<X, E: Debug>(what: &str, r: Result<X, E>) -> R<X> {
    r.map_err(|e| Viol { what: format!("{what} fails: {e:?}") })
}
/// what the content of a tree is, read without scheduling
/// a read of all the bytes as the program under test would do it, that is with everything recorded
#[inline(never)]
fn touch(b: &[u8]) {
    for x in b {
        std::hint::black_box(unsafe { std::ptr::read_volatile(x) });
    }
}
fn same<S: BlobStore + Clone>(what: &str, t: &RadixTree<S>, m: &Map) -> R<()> {
    quiet(|| g_check(t, m)).map_err(|v| Viol { what: format!("{what}: {}", v.what) })
}
fn apply<S>(op: T, t: &mut RadixTree<S>, m: &mut Map, o: &RadixTree<S>, om: &Map) -> R<()>
where
    S: BlobStore + Clone,
    anyhow::Error: From<S::Error>,
    S::Error: Debug,
{
    let (k0, k1) = quiet(|| (m.keys().next().cloned().unwrap_or_default(), m.keys().nth(1).cloned().unwrap_or_else(|| v("aaaa"))));
    match op {
        InsNew | InsOver | InsSplit => {
            let key = quiet(|| match op {
                InsNew => [&k1[..k1.len() - 1], b"z"].concat(),
                InsOver => k1.clone(),
                _ => k1[..k1.len() / 2].to_vec(),
            });
            okk("insert", t.try_insert(&key, b"a new and long value"))?;
            quiet(|| m.insert(key, v("a new and long value")));
        }
        RemLeaf | RemInner => {
            let key = quiet(|| if op == RemLeaf { m.keys().next_back().cloned().unwrap_or_default() } else { k0 });
            okk("remove", t.try_remove(&key))?;
            quiet(|| m.remove(&key));
        }
        RemPrefix => {
            okk("remove_prefix", t.try_remove_prefix(&k1[..1]))?;
            quiet(|| rm::remove_prefix(m, &k1[..1]));
        }
        Filter => {
            *t = okk("filter_prefix", t.try_filter_prefix(&k1[..1], b"n"))?;
            quiet(|| *m = rm::filter(m, &k1[..1], b"n"));
        }
        Get => {
            let st = RadixTree::store(t).clone();
            for k in [&k1[..], &k0[..], b"no"] {
                let g = okk("get", t.try_get(k))?;
                let g = match g {
                    Some(x) => Some(okk("load", x.load(&st))?),
                    None => None,
                };
                if let Some(g) = &g {
                    touch(g);
                }
                quiet(|| {
                    ensure!(g.as_ref().map(|x| x.to_vec()) == m.get(k).cloned(), "get({}) gives {:?}", show(k), g.as_ref().map(|x| x.to_vec()));
                    Ok(())
                })?;
            }
        }
        Iter => {
            let st = RadixTree::store(t).clone();
            let mut n = 0;
            for x in t.try_iter() {
                let (k, x) = okk("iteration", x)?;
                let x = okk("load", x.load(&st))?;
                touch(&k);
                touch(&x);
                quiet(|| {
                    ensure!(m.get(k.as_ref()).map(|y| &y[..]) == Some(x.as_ref()), "iteration yields {} => {}", show(k.as_ref()), show(x.as_ref()));
                    Ok(())
                })?;
                n += 1;
            }
            ensure!(n == quiet(|| m.len()), "iteration yields {n} entries");
        }
        ScanHeld => {
            let st = RadixTree::store(t).clone();
            let want: Vec<(Vec<u8>, Vec<u8>)> = quiet(|| rm::scan(m, &k1[..1]).into_iter().collect());
            let mut it = okk("scan", t.try_scan_prefix(&k1[..1]))?;
            let first = it.next();
            okk("remove", t.try_remove(&k1))?;
            quiet(|| m.remove(&k1));
            let mut n = 0;
            let mut x = first;
            while let Some(y) = x {
                let (k, y) = okk("scan", y)?;
                let y = okk("load", y.load(&st))?;
                touch(&k);
                touch(&y);
                quiet(|| {
                    ensure!(n < want.len() && want[n].0 == k.as_ref() && want[n].1 == y.as_ref(), "scan yields {} => {}", show(k.as_ref()), show(y.as_ref()));
                    Ok(())
                })?;
                n += 1;
                x = it.next();
            }
            ensure!(n == want.len(), "scan yields {n} entries");
        }
        With(j) => {
            let log: Log = RefCell::new(Vec::new());
            okk("combine_with", inp(j, t, o, IdentityConverter, TAB, &log))?;
            quiet(|| *m = join(j, m, om));
        }
        Fun(j) => {
            let log: Log = RefCell::new(Vec::new());
            let r = okk("combine", fun(j, t, o, TAB, &log))?;
            quiet(|| {
                let w = join(j, m, om);
                check_iter(&r, &w)
            })?;
            drop(r);
        }
        RemWith | RetWith => {
            okk("prefix_with", pre(op == RetWith, t, o, TAB))?;
            quiet(|| *m = rm::prefix_set(m, om, op == RetWith, |y| dec(TAB, y) == b'T'));
        }
        Group => {
            let mut all: Vec<RadixTree<S>> = vec![];
            for g in t.try_group_by(|p, _| Ok(p.len() < 2)) {
                all.push(okk("group_by", g)?);
            }
            quiet(|| {
                let mut es: Es = vec![];
                for g in &all {
                    es.extend(g_entries(g).map_err(|e| Viol { what: e })?);
                }
                let w: Es = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(es == w, "the groups have {} entries together", es.len());
                Ok(())
            })?;
            drop(all);
        }
        Persist => {
            // a detached copy, written to another store, read again, dropped
            let d = okk("detach", t.try_detached())?;
            let s2: DynBlobStore = Arc::new(MemStore::default());
            let mut a = okk("attach", d.try_attached(s2.clone()))?;
            drop(d);
            let id = okk("reattach", a.try_reattach())?;
            drop(a);
            let b = okk("load", RadixTree::try_load(s2, Some(&id)))?;
            same("after a detour through a store", &b, m)?;
        }
        CloneEq => {
            let mut c = t.clone();
            okk("insert", c.try_insert(&k1, b"in the clone only"))?;
            quiet(|| {
                let mut m2 = m.clone();
                m2.insert(k1.clone(), v("in the clone only"));
                same("a clone", &c, &m2)
            })?;
            drop(c);
        }
        Values => {
            let st = RadixTree::store(t).clone();
            let mut vs: Vec<Value<S>> = vec![];
            for x in t.try_values() {
                vs.push(okk("values", x)?);
            }
            let e = RadixTree::empty(st.clone());
            drop(std::mem::replace(t, e));
            quiet(|| {
                let old = std::mem::take(m);
                ensure!(vs.len() == old.len(), "{} values", vs.len());
                for (x, y) in vs.iter().zip(old.values()) {
                    let x = okk("load", x.load(&st))?;
                    ensure!(x.as_ref() == &y[..], "a value is {} after the tree is gone", show(x.as_ref()));
                }
                Ok(())
            })?;
            drop(vs);
        }
    }
    Ok(())
}
fn join(j: Join, a: &Map, b: &Map) -> Map {
    rm::join(j, a, b, |x, y| match dec(TAB, y) {
        b'K' => Some(x.to_vec()),
        b'T' => Some(y.to_vec()),
        _ => None,
    })
}
/// where the trees come from
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Form {
    /// in memory; the original stays
    Kept,
    /// in memory; only the threads have it
    Given,
    /// attached to a memory store and not loaded
    Stored,
    /// attached, and partly loaded and modified
    Loaded,
    /// attached to a paged file store
    Paged,
}
fn threads<S>(n: usize, progs: &[Vec<T>], t: RadixTree<S>, m: &Map, o: RadixTree<S>, om: &Map, keep: bool) -> R<sched::Ran>
where
    S: BlobStore + Clone,
    anyhow::Error: From<S::Error>,
    S::Error: Debug,
{
    let slots: Vec<Slot<(RadixTree<S>, RadixTree<S>, Map)>> = (0..n).map(|_| Slot::new((t.clone(), o.clone(), m.clone()))).collect();
    let kept = keep.then_some((t, o));
    let res: Vec<Slot<Viol>> = (0..n).map(|_| Slot::empty()).collect();
    let ran = sched::run(n, &|i| {
        let (mut t, o, mut m) = quiet(|| slots[i].take());
        let mut r = Ok(());
        for op in &progs[i] {
            r = apply(*op, &mut t, &mut m, &o, om).and_then(|_| same("its tree", &t, &m)).map_err(|v| Viol { what: format!("{op:?}: {}", v.what) });
            if r.is_err() {
                break;
            }
        }
        drop(t);
        drop(o);
        quiet(|| {
            drop(m);
            if let Err(v) = r {
                *res[i].get() = Some(v);
            }
        });
    })?;
    for (i, r) in res.iter().enumerate() {
        if let Some(v) = r.get() {
            return viol(format!("thread {i}: {}", v.what));
        }
    }
    if let Some((t, o)) = kept {
        same("the original", &t, m)?;
        same("the original right operand", &o, om)?;
    }
    Ok(ran)
}
fn persisted(st: &DynBlobStore, m: &Map) -> R<RadixTree<DynBlobStore>> {
    let mut a = okk("attach", build(m).try_attached(st.clone()))?;
    let id = okk("reattach", a.try_reattach())?;
    okk("load", RadixTree::try_load(st.clone(), Some(&id)))
}
fn trees(form: Form, kind: usize, progs: &[Vec<T>], bound: u32, max: u64, ctx: &mut Ctx) -> R<()> {
    let n = progs.len();
    let (m, om) = content(kind);
    let mut first = true;
    let name = || format!("{form:?} tree {} and {}, threads {progs:?}", show_map(&m), show_map(&om));
    let r = sched::explore(n, bound, max, ctx, |ctx| {
        let b = crate::alloc::balance();
        let ran = match form {
            Form::Kept | Form::Given => threads::<Detached>(n, progs, build(&m), &m, build(&om), &om, form == Form::Kept)?,
            _ => {
                let (st, f): (DynBlobStore, Option<File>) = if form == Form::Paged {
                    let f = memfd();
                    sysio::start(&f, Fault::None, false);
                    (Arc::new(okk("open", PagedFileStore::new(okk("dup", f.try_clone())?, 256))?), Some(f))
                } else {
                    (Arc::new(MemStore::default()), None)
                };
                let mut m = m.clone();
                let mut t = persisted(&st, &m)?;
                if form == Form::Loaded {
                    let k = m.keys().next_back().unwrap().clone();
                    okk("insert", t.try_insert(&k, b"x0 is new"))?;
                    m.insert(k, v("x0 is new"));
                }
                let o = persisted(&st, &om)?;
                let r = threads::<DynBlobStore>(n, progs, t, &m, o, &om, form == Form::Loaded);
                if f.is_some() {
                    sysio::abandon();
                }
                r?
            }
        };
        let b2 = crate::alloc::balance();
        let left = (b2.0 - b.0 + ran.balance.0, b2.1 - b.1 + ran.balance.1);
        if first {
            // thread local buffers are made once
            first = false;
        } else {
            ensure!(left == (0, 0), "{} allocations with {} bytes are not released when all clones are gone", left.0, left.1);
        }
        ctx.evals += 1;
        Ok(())
    });
    sysio::abandon();
    let count = r.map_err(|v| Viol { what: format!("{}: {}", name(), v.what) })?;
    ctx.states += 1;
    ctx.sample(|| format!("{}: {count} schedules", name()));
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum BOp {
    CloneDrop,
    Slice,
    Owned,
    Read,
    DropFirst,
}
/// blobs with a shared owner
fn blobs(owner: usize, progs: &[Vec<BOp>], bound: u32, max: u64, ctx: &mut Ctx) -> R<()> {
    let n = progs.len();
    let want: Vec<u8> = (0..40u8).collect();
    let mut first = true;
    let name = || format!("blob of owner {owner}, threads {progs:?}");
    let r = sched::explore(n, bound, max, ctx, |ctx| {
        let bal = crate::alloc::balance();
        let blob: Blob<'static> = match owner {
            0 => Blob::copy_from_slice(&want),
            1 => {
                let s = MemStore::default();
                let id = okk("write", s.write(&want))?;
                okk("read", s.read(&id))?
            }
            _ => {
                let f = memfd();
                let s = okk("open", PagedFileStore::new(f, 128))?;
                let id = okk("write", s.write(&want))?;
                for _ in 0..3 {
                    okk("write", s.write(&want))?;
                }
                okk("read", s.read(&id))?
            }
        };
        let slots: Vec<Slot<Blob<'static>>> = (0..n).map(|_| Slot::new(blob.clone())).collect();
        drop(blob);
        let res: Vec<Slot<bool>> = (0..n).map(|_| Slot::empty()).collect();
        let ran = sched::run(n, &|i| {
            let mut b = quiet(|| slots[i].take());
            let mut good = true;
            let (mut lo, mut hi) = (0, want.len());
            for op in &progs[i] {
                match op {
                    BOp::CloneDrop => drop(b.clone()),
                    BOp::Slice => {
                        b = b.slice(1..b.len() - 1);
                        lo += 1;
                        hi -= 1;
                    }
                    BOp::Owned => b = b.to_owned(),
                    BOp::Read => {}
                    BOp::DropFirst => {
                        let c = b.clone();
                        drop(b);
                        b = c;
                    }
                }
                good &= b.len() == hi - lo && b.iter().zip(&want[lo..hi]).all(|(x, y)| x == y);
            }
            drop(b);
            quiet(|| *res[i].get() = Some(good));
        })?;
        ensure!(res.iter().all(|x| *x.get() == Some(true)), "a thread reads wrong bytes");
        drop(res);
        drop(slots);
        let b2 = crate::alloc::balance();
        let left = (b2.0 - bal.0 + ran.balance.0, b2.1 - bal.1 + ran.balance.1);
        if first {
            first = false;
        } else {
            ensure!(left == (0, 0), "{} allocations with {} bytes are not released when all clones are gone", left.0, left.1);
        }
        ctx.evals += 1;
        Ok(())
    });
    r.map_err(|v| Viol { what: format!("{}: {}", name(), v.what) })?;
    ctx.states += 1;
    Ok(())
}

/// what a thread gets that comes from one tree and one iterator, and what it does with it
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum H {
    /// the iterator, to its end
    Rest,
    /// the same, all that it yields is kept until the end
    RestKept,
    /// the keys yielded so far
    Keys,
    /// blobs made from them
    KeyBlobs,
    /// the values yielded so far, loaded
    Values,
    /// a clone of the tree, changed
    Tree(T),
    /// the first group of the tree, changed
    Group(T),
    /// another iterator, never used
    Unused,
}
fn sendable<X: Send>(x: X) -> X {
    x
}
fn handed<S>(t: RadixTree<S>, m: &Map, o: RadixTree<S>, om: &Map, progs: &[H], taken: usize, keep: bool) -> R<sched::Ran>
where
    S: BlobStore + Clone,
    anyhow::Error: From<S::Error>,
    S::Error: Debug,
{
    let n = progs.len();
    let st = RadixTree::store(&t).clone();
    let want: Es = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut it = Some(sendable(t.try_iter()));
    let mut keys = vec![];
    let mut values = vec![];
    for _ in 0..taken {
        let (k, x) = okk("iteration", it.as_mut().unwrap().next().unwrap())?;
        keys.push(k);
        values.push(x);
    }
    enum Item<S: BlobStore, I> {
        It(I),
        Keys(Vec<radixdb::node::IterKey>),
        Blobs(Vec<Blob<'static>>),
        Values(Vec<Value<S>>),
        Tree(RadixTree<S>, RadixTree<S>, Map, T),
    }
    let mut slots = vec![];
    for p in progs {
        let item = match p {
            H::Rest | H::RestKept => Item::It(it.take().expect("only one thread gets the iterator")),
            H::Unused => Item::It(t.try_iter()),
            H::Keys => Item::Keys(keys.clone()),
            H::KeyBlobs => Item::Blobs(keys.iter().map(|k| k.to_owned_blob()).collect()),
            H::Values => Item::Values(std::mem::take(&mut values)),
            H::Tree(op) => Item::Tree(t.clone(), o.clone(), m.clone(), *op),
            H::Group(op) => {
                let g = okk("group_by", t.try_group_by(|p, _| Ok(p.is_empty())).next().unwrap())?;
                let gm: Map = quiet(|| g_entries(&g)).map_err(|e| Viol { what: e })?.into_iter().collect();
                Item::Tree(g, o.clone(), gm, *op)
            }
        };
        slots.push(Slot::new(sendable(item)));
    }
    drop((it, keys, values));
    let kept = keep.then_some((t, o));
    let res: Vec<Slot<Viol>> = (0..n).map(|_| Slot::empty()).collect();
    let ran = sched::run(n, &|i| {
        let item = quiet(|| slots[i].take());
        let check = |at: usize, k: Option<&[u8]>, x: Option<&[u8]>| -> R<()> {
            ensure!(at < want.len(), "the iterator yields more than {at} entries");
            ensure!(k.map_or(true, |k| k == &want[at].0[..]), "key {at} is {}", show(k.unwrap()));
            ensure!(x.map_or(true, |x| x == &want[at].1[..]), "value {at} is {}", show(x.unwrap()));
            Ok(())
        };
        // reading is a part of what is explored, comparing is not
        let check = |at: usize, k: Option<&[u8]>, x: Option<&[u8]>| -> R<()> {
            k.into_iter().for_each(touch);
            x.into_iter().for_each(touch);
            quiet(|| check(at, k, x))
        };
        let r: R<()> = (|| match item {
            Item::It(mut it) => {
                if progs[i] == H::Unused {
                    return Ok(());
                }
                let mut held = vec![];
                let mut at = taken;
                for x in &mut it {
                    let (k, x) = okk("iteration", x)?;
                    let l = okk("load", x.load(&st))?;
                    check(at, Some(&k), Some(&l))?;
                    at += 1;
                    if progs[i] == H::RestKept {
                        quiet(|| held.push(k));
                    }
                }
                ensure!(at == want.len(), "the iterator ends after {at} entries");
                held.iter().enumerate().try_for_each(|(j, k)| check(taken + j, Some(k), None))
            }
            Item::Keys(ks) => {
                for (j, k) in ks.into_iter().enumerate() {
                    check(j, Some(&k), None)?;
                    let c = k.clone();
                    drop(k);
                    check(j, Some(&c), None)?;
                }
                Ok(())
            }
            Item::Blobs(ks) => {
                for (j, k) in ks.into_iter().enumerate() {
                    check(j, Some(&k), None)?;
                }
                Ok(())
            }
            Item::Values(vs) => {
                for (j, x) in vs.into_iter().enumerate() {
                    let l = okk("load", x.load(&st))?;
                    drop(x);
                    check(j, None, Some(&l))?;
                }
                Ok(())
            }
            Item::Tree(mut t, o, mut m, op) => {
                let r = apply(op, &mut t, &mut m, &o, om).and_then(|_| same("its tree", &t, &m));
                drop(t);
                drop(o);
                quiet(|| drop(m));
                r
            }
        })();
        quiet(|| {
            if let Err(v) = r {
                *res[i].get() = Some(v);
            }
        });
    })?;
    for (i, r) in res.iter().enumerate() {
        if let Some(v) = r.get() {
            return viol(format!("thread {i} ({:?}): {}", progs[i], v.what));
        }
    }
    if let Some((t, o)) = kept {
        same("the original", &t, m)?;
        same("the original right operand", &o, om)?;
    }
    Ok(ran)
}
/// things that come from one tree, in several threads; `kept`: the tree stays
fn handed_over(stored: bool, kind: usize, progs: &[H], taken: usize, kept: bool, bound: u32, max: u64, ctx: &mut Ctx) -> R<()> {
    let n = progs.len();
    let (m, om) = content(kind);
    let taken = taken.min(m.len());
    let mut first = true;
    let name = || format!("{} tree {}, {taken} entries taken, threads {progs:?}", if stored { "stored" } else { "in memory" }, show_map(&m));
    let r = sched::explore(n, bound, max, ctx, |ctx| {
        let b = crate::alloc::balance();
        let ran = if stored {
            let st: DynBlobStore = Arc::new(MemStore::default());
            handed(persisted(&st, &m)?, &m, persisted(&st, &om)?, &om, progs, taken, kept)?
        } else {
            handed(build(&m), &m, build(&om), &om, progs, taken, kept)?
        };
        let b2 = crate::alloc::balance();
        let left = (b2.0 - b.0 + ran.balance.0, b2.1 - b.1 + ran.balance.1);
        if first {
            first = false;
        } else {
            ensure!(left == (0, 0), "{} allocations with {} bytes are not released when all is gone", left.0, left.1);
        }
        ctx.evals += 1;
        Ok(())
    });
    r.map_err(|v| Viol { what: format!("{}: {}", name(), v.what) })?;
    ctx.states += 1;
    Ok(())
}

pub fn c02(thorough: bool) -> Check {
    let mut units = vec![];
    let bound = if thorough { 3 } else { 2 };
    let max = if thorough { 3_000_000 } else { 100_000 };
    for form in [Form::Kept, Form::Given, Form::Stored, Form::Loaded, Form::Paged] {
        for kind in 0..3 {
            for (i, a) in ALL.iter().enumerate() {
                units.push(unit(format!("pair-{form:?}-{kind}-{a:?}"), move |ctx| {
                    let less = !ctx.thorough && (form == Form::Paged || kind == 1 && matches!(form, Form::Stored | Form::Loaded));
                    for b in &ALL[i..] {
                        trees(form, kind, &[vec![*a], vec![*b]], bound - less as u32, max, ctx)?;
                    }
                    Ok(())
                }));
            }
        }
    }
    // three threads
    let three: &[T] = if thorough { ALL } else { &[InsNew, RemLeaf, Filter, Iter, With(Join::Outer)] };
    for form in [Form::Kept, Form::Given, Form::Loaded] {
        for (i, a) in three.iter().enumerate() {
            units.push(unit(format!("three-{form:?}-{a:?}"), move |ctx| {
                for (j, b) in three.iter().enumerate().skip(i) {
                    for c in &three[j..] {
                        trees(form, 0, &[vec![*a], vec![*b], vec![*c]], if ctx.thorough { 2 } else { 1 }, max, ctx)?;
                    }
                }
                Ok(())
            }));
        }
    }
    // two operations each
    let two: &[T] = if thorough { &[InsNew, InsOver, RemLeaf, RemPrefix, Filter, CloneEq, ScanHeld, With(Join::Left), Group] } else { &[InsNew, RemLeaf, CloneEq] };
    for form in [Form::Given, Form::Loaded] {
        for a in two {
            for b in two {
                units.push(unit(format!("two-{form:?}-{a:?}-{b:?}"), move |ctx| {
                    for c in two {
                        for d in two {
                            trees(form, 0, &[vec![*a, *b], vec![*c, *d]], if ctx.thorough { 2 } else { 1 }, max, ctx)?;
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    // iterators and what they have yielded, in other threads than the tree
    let mut hs = vec![H::Keys, H::KeyBlobs, H::Values, H::Unused];
    hs.extend([InsNew, InsOver, RemLeaf, RemPrefix, With(Join::Outer), CloneEq].map(H::Tree));
    hs.extend([InsNew, RemLeaf].map(H::Group));
    for kind in 0..3 {
        for stored in [false, true] {
            for first in [H::Rest, H::RestKept, H::Keys, H::Values] {
                let hs = hs.clone();
                units.push(unit(format!("handed-{kind}-{stored}-{first:?}"), move |ctx| {
                    let bound = bound - (stored && !ctx.thorough) as u32;
                    for &h in &hs {
                        if h == H::Values && first == H::Values {
                            continue;
                        }
                        for taken in 0..4 {
                            handed_over(stored, kind, &[first, h], taken, taken == 3, bound, max, ctx)?;
                        }
                    }
                    if first == H::Rest || first == H::RestKept {
                        for (i, h) in [H::Keys, H::KeyBlobs, H::Values, H::Tree(RemLeaf)].into_iter().enumerate() {
                            for g in [H::Keys, H::Values, H::Tree(InsNew)].into_iter().skip(i.saturating_sub(1)) {
                                if g != h {
                                    handed_over(stored, kind, &[first, h, g], 2, false, bound - 1, max, ctx)?;
                                }
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    use BOp::*;
    let bops = [CloneDrop, Slice, Owned, Read, DropFirst];
    for owner in 0..3 {
        for a in bops {
            units.push(unit(format!("blob-{owner}-{a:?}"), move |ctx| {
                for b in bops {
                    for c in bops {
                        blobs(owner, &[vec![a, b], vec![c, a]], bound, max, ctx)?;
                        blobs(owner, &[vec![a], vec![b], vec![c]], bound, max, ctx)?;
                    }
                }
                Ok(())
            }));
        }
    }
    Check {
        id: "C02",
        level: "model_checking",
        rule: "programs of 2 or 3 real threads on clones of one tree (all pairs of 22 kinds of operations, 5 ways to own or store the trees, 3 contents), on an iterator, the keys and values that it has yielded, and clones and groups of its tree, and on blobs with a common owner: all schedules up to a bound of preemptions at every atomic operation, lock and file operation; in each, every thread's results are compared with the reference, every memory access is checked for ordering (vector clocks, actual memory orderings) and for use after release, and all memory must be released; non-trivial: a schedule with preemptions",
        bounds: format!("2 threads with one operation each: {bound} preemptions (quick: 1 for paged files and for the deepest of the stored trees); 2 threads with two operations, 3 threads: {}", if thorough { 2 } else { 1 }),
        assumptions: vec!["64 bit platform", "sequentially consistent interleavings; unordered accesses are reported as such"],
        units,
        quarantine: false,
    }
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum SOp {
    /// write a block of this length
    W(usize),
    /// write the block of this length that others write as well
    Same(usize),
    /// read a block that was there before
    First,
    Newest,
    /// read what this thread wrote last
    Own,
    /// read the newest id that another thread was given, if there is one
    Seen,
    /// read the id that a block of this length will get if it is the next
    Future(usize),
    LastId,
    /// last_id() and a read of it
    ReadLast,
    Sync,
    Debug,
    Count,
}
use SOp::*;
#[derive(Clone)]
enum AnyStore {
    Mem(MemStore),
    Paged(PagedFileStore),
}
impl AnyStore {
    fn read(&self, id: &[u8]) -> Result<Blob<'static>, String> {
        match self {
            AnyStore::Mem(s) => s.read(id).map_err(|e| e.to_string()),
            AnyStore::Paged(s) => s.read(id).map_err(|e| e.to_string()),
        }
    }
    fn write(&self, d: &[u8]) -> Result<Vec<u8>, String> {
        match self {
            AnyStore::Mem(s) => s.write(d).map_err(|e| e.to_string()),
            AnyStore::Paged(s) => s.write(d).map_err(|e| e.to_string()),
        }
    }
    fn sync(&self) -> Result<(), String> {
        match self {
            AnyStore::Mem(s) => s.sync().map_err(|e| e.to_string()),
            AnyStore::Paged(s) => s.sync().map_err(|e| e.to_string()),
        }
    }
    fn last_id(&self) -> Option<Vec<u8>> {
        match self {
            AnyStore::Mem(_) => unreachable!(),
            AnyStore::Paged(s) => s.last_id().map(|x| x.to_vec()),
        }
    }
    fn count(&self) -> usize {
        match self {
            AnyStore::Mem(s) => s.count(),
            AnyStore::Paged(_) => unreachable!(),
        }
    }
    fn debug(&self) -> usize {
        match self {
            AnyStore::Mem(s) => format!("{s:?}").len(),
            AnyStore::Paged(s) => format!("{s:?}").len(),
        }
    }
}
#[derive(Clone, Debug)]
enum Did {
    Write(Vec<u8>, Result<Vec<u8>, String>),
    Read(Vec<u8>, Result<Vec<u8>, String>),
    Last(Option<Vec<u8>>),
    Count(usize),
    Other(Result<(), String>),
}
#[derive(Clone, Debug)]
struct Ev {
    thread: usize,
    inv: u64,
    ret: u64,
    did: Did,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Kind {
    /// 0: in memory
    page: u64,
    /// lengths of the blocks that are there before
    before: &'static [usize],
    /// closed and opened again before
    reopened: bool,
}
fn block(thread: usize, n: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| (thread * 80 + n * 29 + i * 7 + 1) as u8).collect()
}
fn num(id: &[u8]) -> u64 {
    id.iter().fold(0, |a, b| a << 8 | *b as u64)
}
/// Is there an order of the calls, consistent with real time, in which they give these results?
struct Lin<'a> {
    evs: &'a [Ev],
    max_block: usize,
    paged: bool,
    map: HashMap<Vec<u8>, Vec<u8>>,
    last: Option<Vec<u8>>,
    done: Vec<bool>,
    tried: u64,
}
impl Lin<'_> {
    fn go(&mut self, left: usize) -> bool {
        if left == 0 {
            return true;
        }
        self.tried += 1;
        for i in 0..self.evs.len() {
            // a call can not come before one that returned before it was made
            if self.done[i] || (0..self.evs.len()).any(|j| !self.done[j] && j != i && self.evs[j].ret < self.evs[i].inv) {
                continue;
            }
            let old = self.last.clone();
            let mut added = None;
            let ok = match &self.evs[i].did {
                Did::Write(d, Ok(id)) => {
                    let new = d.len() <= self.max_block && !self.map.contains_key(id) && old.as_ref().map_or(true, |o| num(o) < num(id));
                    if new {
                        self.map.insert(id.clone(), d.clone());
                        added = Some(id.clone());
                        self.last = Some(id.clone());
                    }
                    new
                }
                Did::Write(d, Err(_)) => d.len() > self.max_block,
                Did::Read(id, r) => match self.map.get(id) {
                    Some(x) => r.as_ref().ok() == Some(x),
                    // in a paged file, an id in the middle of a block may give anything
                    None => r.is_err() || self.paged && old.as_ref().map_or(0, |o| num(o)) >= num(id),
                },
                Did::Last(x) => *x == old,
                Did::Count(n) => *n == self.map.len(),
                Did::Other(r) => r.is_ok(),
            };
            if ok {
                self.done[i] = true;
                if self.go(left - 1) {
                    return true;
                }
                self.done[i] = false;
            }
            self.last = old;
            if let Some(a) = added {
                self.map.remove(&a);
            }
        }
        false
    }
}
/// what is noted in the log of the effects on the file
enum Mk {
    /// this block is written, says the store
    Ack(Vec<u8>, Vec<u8>),
    /// a thread calls sync, and sync returns
    Begin(usize),
    End(usize),
}
/// The process may end at any moment, and each sync that returns covers what was written before it was called.
fn crashes(log: &[sysio::Eff], marks: &[Mk]) -> R<()> {
    use sysio::Eff;
    let mut file: Vec<u8> = vec![];
    // acknowledged blocks, and whether they are synced
    let mut acked: Vec<(&[u8], &[u8], bool)> = vec![];
    let mut begun: Vec<(usize, usize)> = vec![];
    for (n, e) in log.iter().enumerate() {
        match e {
            Eff::Write { off, data } => {
                let end = *off as usize + data.len();
                if file.len() < end {
                    file.resize(end, 0);
                }
                file[*off as usize..end].copy_from_slice(data);
            }
            Eff::Len(l) => file.resize(*l as usize, 0),
            Eff::Sync => acked.iter_mut().for_each(|a| a.2 = true),
            Eff::Mark(i) => match &marks[*i] {
                Mk::Ack(id, d) => acked.push((id, d, false)),
                Mk::Begin(t) => begun.push((*t, acked.len())),
                Mk::End(t) => {
                    let at = begun.iter().position(|b| b.0 == *t).unwrap();
                    let upto = begun.remove(at).1;
                    if let Some(a) = acked[..upto].iter().find(|a| !a.2) {
                        return viol(format!("sync returns, but block {} that was written before has not been synced", show(a.0)));
                    }
                    continue;
                }
            },
        }
        let size = file.get(16..24).map_or(0, |b| num(b));
        for (id, d, _) in &acked {
            let end = 4096 + num(id) as usize;
            ensure!(size >= num(id), "after effect {n} on the file its size field is {size}, so the acknowledged block {} would be lost by a crash", show(id));
            let there = file.len() >= end && num(&file[end - 4..end]) as usize == d.len() && &file[end - 4 - d.len()..end - 4] == *d;
            ensure!(there, "after effect {n} on the file the acknowledged block {} is not in the file", show(id));
        }
    }
    Ok(())
}
fn shared_store(kind: Kind, progs: &[Vec<SOp>], bound: u32, max: u64, ctx: &mut Ctx) -> R<()> {
    let n = progs.len();
    let name = || format!("{kind:?}, threads {progs:?}");
    let fresh = |track: bool| -> R<(AnyStore, Option<File>, Vec<(Vec<u8>, Vec<u8>)>)> {
        let mut f = None;
        let mut st = if kind.page == 0 {
            AnyStore::Mem(MemStore::default())
        } else {
            let x = memfd();
            if track {
                sysio::start(&x, Fault::None, true);
            }
            let s = AnyStore::Paged(okk("open", PagedFileStore::new(okk("dup", x.try_clone())?, kind.page))?);
            f = Some(x);
            s
        };
        let mut before = vec![];
        for (i, len) in kind.before.iter().enumerate() {
            let d = block(7, i, *len);
            before.push((okk("write", st.write(&d))?, d));
        }
        if let (true, Some(f)) = (kind.reopened, &f) {
            st = AnyStore::Paged(okk("open", PagedFileStore::new(okk("dup", f.try_clone())?, kind.page))?);
        }
        Ok((st, f, before))
    };
    // what the next block would be called
    let mut future: HashMap<usize, Vec<u8>> = HashMap::new();
    for o in progs.iter().flatten() {
        if let Future(len) = o {
            let (st, _, _) = fresh(false)?;
            future.insert(*len, okk("write", st.write(&block(9, 9, *len)))?);
        }
    }
    let max_block = if kind.page == 0 { usize::MAX } else { kind.page as usize - 8 };
    let mut first = true;
    let r = sched::explore(n, bound, max, ctx, |ctx| {
        let bal = crate::alloc::balance();
        let ran;
        {
            let (st, f, before) = fresh(true)?;
            let slots: Vec<Slot<(AnyStore, Vec<Ev>, Vec<(Blob<'static>, Vec<u8>)>)>> =
                (0..n).map(|_| Slot::new((st.clone(), Vec::with_capacity(8), Vec::with_capacity(8)))).collect();
            let given: Vec<Slot<Vec<u8>>> = (0..n).map(|_| Slot::empty()).collect();
            let marks: Slot<Vec<Mk>> = Slot::new(Vec::with_capacity(16));
            let mark = |m: Mk| {
                if kind.page > 0 {
                    let l = marks.get().as_mut().unwrap();
                    l.push(m);
                    sysio::mark(l.len() - 1);
                }
            };
            for (id, d) in &before {
                mark(Mk::Ack(id.clone(), d.clone()));
            }
            ran = sched::run(n, &|i| {
                let (st, mut evs, mut held) = quiet(|| slots[i].take());
                let mut wrote = 0;
                for op in &progs[i] {
                    let id = quiet(|| match op {
                        First => before.first().map(|x| x.0.clone()),
                        Newest => before.last().map(|x| x.0.clone()),
                        Own => given[i].get().clone(),
                        Seen => (0..n).filter(|t| *t != i).filter_map(|t| given[t].get().clone()).max(),
                        Future(len) => Some(future[len].clone()),
                        _ => None,
                    });
                    let mut read = |id: Vec<u8>, evs: &mut Vec<Ev>| {
                        let inv = sched::now();
                        let r = st.read(&id);
                        let ret = sched::now();
                        quiet(|| {
                            let res = r.as_ref().map(|x| x.to_vec()).map_err(|e| e.clone());
                            if let (Ok(b), Ok(x)) = (r, &res) {
                                held.push((b, x.clone()));
                            }
                            evs.push(Ev { thread: i, inv, ret, did: Did::Read(id, res) });
                        });
                    };
                    match op {
                        W(len) | Same(len) => {
                            let d = quiet(|| if matches!(op, W(_)) { block(i, wrote, *len) } else { block(9, 0, *len) });
                            wrote += 1;
                            let inv = sched::now();
                            let r = st.write(&d);
                            let ret = sched::now();
                            quiet(|| {
                                if let Ok(id) = &r {
                                    *given[i].get() = Some(id.clone());
                                    mark(Mk::Ack(id.clone(), d.clone()));
                                }
                                evs.push(Ev { thread: i, inv, ret, did: Did::Write(d, r) });
                            });
                        }
                        First | Newest | Own | Seen | Future(_) => {
                            if let Some(id) = id {
                                read(id, &mut evs);
                            }
                        }
                        LastId | ReadLast => {
                            let inv = sched::now();
                            let r = st.last_id();
                            let ret = sched::now();
                            quiet(|| evs.push(Ev { thread: i, inv, ret, did: Did::Last(r.clone()) }));
                            if let (ReadLast, Some(id)) = (op, r) {
                                read(id, &mut evs);
                            }
                        }
                        SOp::Sync => {
                            let inv = sched::now();
                            quiet(|| mark(Mk::Begin(i)));
                            let r = st.sync();
                            quiet(|| mark(Mk::End(i)));
                            let ret = sched::now();
                            quiet(|| evs.push(Ev { thread: i, inv, ret, did: Did::Other(r) }));
                        }
                        SOp::Debug => {
                            let inv = sched::now();
                            st.debug();
                            let ret = sched::now();
                            quiet(|| evs.push(Ev { thread: i, inv, ret, did: Did::Other(Ok(())) }));
                        }
                        Count => {
                            let inv = sched::now();
                            let c = st.count();
                            let ret = sched::now();
                            quiet(|| evs.push(Ev { thread: i, inv, ret, did: Did::Count(c) }));
                        }
                    }
                }
                // half of the threads give their handle up early
                if i % 2 == 1 {
                    drop(st);
                    quiet(|| *slots[i].get() = Some((AnyStore::Mem(MemStore::default()), evs, held)));
                } else {
                    quiet(|| *slots[i].get() = Some((st, evs, held)));
                }
            })?;
            if kind.page > 0 {
                crashes(&sysio::stop().log, &marks.take())?;
            }
            let mut evs = vec![];
            let mut held = vec![];
            for s in &slots {
                let x = s.take();
                evs.extend(x.1);
                held.extend(x.2);
            }
            let mut lin = Lin {
                evs: &evs,
                max_block,
                paged: kind.page > 0,
                map: before.iter().cloned().collect(),
                last: before.last().map(|x| x.0.clone()),
                done: vec![false; evs.len()],
                tried: 0,
            };
            ensure!(lin.go(evs.len()), "no order of the calls explains {evs:?}, blocks before {before:?}");
            ctx.evals += lin.tried;
            // what was written is there, and what was read did not change
            let mut all = before.clone();
            for e in &evs {
                if let Did::Write(d, Ok(id)) = &e.did {
                    all.push((id.clone(), d.clone()));
                }
            }
            let last = all.iter().map(|x| x.0.clone()).max_by_key(|x| num(x));
            for (b, x) in &held {
                ensure!(&b[..] == &x[..], "a blob that was read changed to {}", show(b));
            }
            let look = |what: &str, s: &AnyStore| -> R<()> {
                for (id, d) in &all {
                    let r = s.read(id).map_err(|e| Viol { what: format!("{what}: block {} can not be read: {e}", show(id)) })?;
                    ensure!(&r[..] == &d[..], "{what}: block {} is {}", show(id), show(&r));
                }
                match s {
                    AnyStore::Mem(m) => ensure!(m.count() == all.len(), "{what}: {} blocks", m.count()),
                    AnyStore::Paged(p) => ensure!(p.last_id().map(|x| x.to_vec()) == last, "{what}: last_id is {:?}", p.last_id()),
                }
                Ok(())
            };
            look("in the end", &st)?;
            // and the store can still be used
            let d = block(8, 8, 11);
            let id = okk("write", st.write(&d))?;
            ensure!(!all.iter().any(|x| x.0 == id), "id {} is given twice", show(&id));
            let r = okk("read", st.read(&id))?;
            ensure!(&r[..] == &d[..], "block {} is {}", show(&id), show(&r));
            if let Some(f) = &f {
                let s = PagedFileStore::new(okk("dup", f.try_clone())?, kind.page).map_err(|e| Viol { what: format!("the file can not be opened again: {e}") })?;
                all.push((id.clone(), d));
                let s = AnyStore::Paged(s);
                for (id, d) in &all {
                    let r = s.read(id).map_err(|e| Viol { what: format!("opened again: block {} can not be read: {e}", show(id)) })?;
                    ensure!(&r[..] == &d[..], "opened again: block {} is {}", show(id), show(&r));
                }
                ensure!(s.last_id() == Some(id), "opened again: last_id is {:?}", s.last_id());
            }
        }
        let b2 = crate::alloc::balance();
        let left = (b2.0 - bal.0 + ran.balance.0, b2.1 - bal.1 + ran.balance.1);
        if first {
            first = false;
        } else {
            ensure!(left == (0, 0), "{} allocations with {} bytes are not released when all handles are gone", left.0, left.1);
        }
        Ok(())
    });
    sysio::abandon();
    let count = r.map_err(|v| Viol { what: format!("{}: {}", name(), v.what) })?;
    ctx.states += 1;
    ctx.sample(|| format!("{}: {count} schedules", name()));
    Ok(())
}
pub fn c01(thorough: bool) -> Check {
    const MEM: &[SOp] = &[W(5), W(0), First, Own, Seen, Future(5), Count, SOp::Debug];
    const PAGED: &[SOp] = &[W(20), W(1), W(56), W(57), First, Newest, Own, Seen, Future(20), LastId, ReadLast, SOp::Sync, SOp::Debug];
    const PAIRS: &[SOp] = &[W(20), W(56), First, Own, Seen, Future(20), ReadLast];
    const ONE: &[SOp] = &[W(20), W(56), First, Seen, Future(20), ReadLast];
    let kinds: Vec<Kind> = vec![
        Kind { page: 0, before: &[], reopened: false },
        Kind { page: 0, before: &[3, 5], reopened: false },
        Kind { page: 64, before: &[], reopened: false },
        // the next block fits, does not fit, there is a full page, and the page ends with a block
        Kind { page: 64, before: &[20], reopened: false },
        Kind { page: 64, before: &[20, 20], reopened: false },
        Kind { page: 64, before: &[40, 40], reopened: true },
        Kind { page: 64, before: &[56, 56, 10], reopened: false },
        Kind { page: 64, before: &[20, 20, 4, 20], reopened: true },
    ];
    let mut units = vec![];
    let bound = if thorough { 3 } else { 2 };
    let max = 2_000_000;
    let useful = move |p: &[SOp]| !(p.iter().enumerate().any(|(i, o)| *o == Own && !p[..i].iter().any(|x| matches!(x, W(_)))));
    for kind in &kinds {
        let kind = *kind;
        let ops: &'static [SOp] = if kind.page == 0 { MEM } else { PAGED };
        let ops: Vec<SOp> = ops.iter().filter(|o| !(kind.before.is_empty() && matches!(o, First | Newest))).cloned().collect();
        let mut two: Vec<Vec<SOp>> = ops.iter().filter(|o| **o != Own).map(|o| vec![*o]).collect();
        let pairs: Vec<SOp> = ops.iter().filter(|o| thorough || kind.page == 0 || PAIRS.contains(o)).cloned().collect();
        for a in &pairs {
            for b in &pairs {
                if useful(&[*a, *b]) {
                    two.push(vec![*a, *b]);
                }
            }
        }
        for (i, p) in two.iter().enumerate() {
            let (p, two) = (p.clone(), two.clone());
            units.push(unit(format!("two-{kind:?}-{p:?}"), move |ctx| {
                for q in &two[i..] {
                    if !ctx.thorough && p.len() != q.len() {
                        continue;
                    }
                    let w = |p: &[SOp]| p.iter().filter(|x| matches!(x, W(_))).count();
                    // two threads that do not write need not be looked at closely
                    let b = if w(&p) + w(q) == 0 { 1 } else { bound - (!ctx.thorough && w(&p) + w(q) < 2) as u32 };
                    shared_store(kind, &[p.clone(), q.clone()], b, max, ctx)?;
                }
                Ok(())
            }));
        }
        if kind.page > 0 {
            // who syncs what
            let progs: Vec<Vec<SOp>> = vec![vec![SOp::Sync], vec![W(20), SOp::Sync], vec![SOp::Sync, W(20)], vec![W(20)], vec![W(56), SOp::Sync], vec![SOp::Sync, SOp::Sync]];
            let n = if thorough { progs.len() } else { 4 };
            for i in 0..n {
                let progs = progs.clone();
                units.push(unit(format!("sync-{kind:?}-{i}"), move |ctx| {
                    for j in i..n {
                        shared_store(kind, &[progs[i].clone(), progs[j].clone()], bound, max, ctx)?;
                        if ctx.thorough {
                            for k in j..n {
                                shared_store(kind, &[progs[i].clone(), progs[j].clone(), progs[k].clone()], 2, max, ctx)?;
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
        // equal blocks
        let len = if kind.page == 0 { 5 } else { 20 };
        units.push(unit(format!("same-{kind:?}"), move |ctx| {
            for p in [vec![Same(len)], vec![Same(len), Own], vec![Same(len), Seen], vec![Same(len), Same(len)]] {
                shared_store(kind, &[p, vec![Same(len), Own]], bound, max, ctx)?;
            }
            shared_store(kind, &[vec![Same(len)], vec![Same(len)], vec![Same(len)]], bound, max, ctx)
        }));
        let ops3: Vec<SOp> = if thorough { ops.iter().filter(|x| **x != Own).cloned().collect() } else { ops.iter().filter(|x| ONE.contains(x) || kind.page == 0 && **x != Own).cloned().collect() };
        for (i, a) in ops3.iter().enumerate() {
            let (a, ops3) = (*a, ops3.clone());
            units.push(unit(format!("three-{kind:?}-{a:?}"), move |ctx| {
                for (j, b) in ops3.iter().enumerate().skip(i) {
                    for c in &ops3[j..] {
                        shared_store(kind, &[vec![a], vec![*b], vec![*c]], if ctx.thorough { 3 } else { 2 }, max, ctx)?;
                    }
                }
                Ok(())
            }));
        }
        if thorough {
            let ws: Vec<SOp> = ops.iter().filter(|o| matches!(o, W(_) | Seen | Newest | ReadLast | Count)).cloned().collect();
            for a in &ws {
                for b in &ws {
                    let (a, b, ws) = (*a, *b, ws.clone());
                    units.push(unit(format!("deep-{kind:?}-{a:?}-{b:?}"), move |ctx| {
                        for c in &ws {
                            for d in &ws {
                                shared_store(kind, &[vec![a, b, *c], vec![*d, a, b]], 2, max, ctx)?;
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    Check {
        id: "C01",
        level: "model_checking",
        rule: "2 or 3 real threads with clones of one memory or paged file store (pages of 64 bytes; empty, nearly full, full and reopened files), all programs of up to 2 calls (write, read of old, own, others' and future ids, last_id, sync, count, Debug): all schedules up to a bound of preemptions at every atomic operation, lock and file operation; in each, some sequential order of the calls that respects real time must explain the results; after each effect on the file it must contain all blocks whose write has returned, and a sync that returns must cover what was written before it; all blocks are read back from the store and from the file opened again, and every memory access is checked for ordering and use after release; non-trivial: a schedule with preemptions",
        bounds: format!("2 threads with 2 calls (quick: 7 of 13 kinds of calls) or 1: {bound} preemptions (quick: 1 if fewer than two calls write), 3 threads with one call: {}", if thorough { 3 } else { 2 }),
        assumptions: vec!["64 bit platform", "sequentially consistent interleavings; unordered accesses are reported as such", "parking_lot's locks are replaced by a stand-in with the same interface"],
        units,
        quarantine: false,
    }
}

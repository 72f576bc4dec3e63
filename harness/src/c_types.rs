//! Trees on stores of other types: zero sized and large stores, stores that can not fail, stores with ids of changing
//! length, and stores with errors of their own. Part of S01, S03 and S06.
use crate::c_attach::{fun, inp, pre, pred, ref_dec, Log, TABLES};
use crate::c_join::{aval, bval};
use crate::core::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::refmodel::{Join, JOINS};
use crate::tree::*;
use radixdb::node::{DetachConverter, IdentityConverter, Value, ValueRef};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, NoError, PagedFileStore};
use radixdb::RadixTree;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

thread_local! {
    static BLOBS: RefCell<Vec<Arc<Vec<u8>>>> = const { RefCell::new(vec![]) };
    /// calls until the next failure
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}
/// An error that is not anyhow's.
#[derive(Debug, PartialEq, Clone)]
pub enum Own {
    Injected(u64),
    Other(String),
    Function(u64),
}
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Own {}
impl From<NoError> for Own {
    fn from(_: NoError) -> Self {
        unreachable!()
    }
}
impl From<anyhow::Error> for Own {
    fn from(e: anyhow::Error) -> Self {
        match e.downcast::<Own>() {
            Ok(x) => x,
            Err(e) => Own::Other(e.to_string()),
        }
    }
}
fn step() -> Result<(), Own> {
    let n = LEFT.get();
    if n == 0 {
        LEFT.set(u64::MAX);
        let k = FAILED.get() + 1;
        FAILED.set(k);
        return Err(Own::Injected(k));
    }
    if n != u64::MAX {
        LEFT.set(n - 1);
    }
    Ok(())
}
/// the id of block n: 1 to 126 bytes, of changing length
fn var_id(n: usize) -> Vec<u8> {
    let mut r = vec![n as u8 ^ 0x80];
    let mut k = n >> 8;
    while k > 0 {
        r.push(k as u8);
        k >>= 8;
    }
    // the length is a function of the number, and different lengths are different ids
    let len = [r.len(), r.len() + 1, r.len() + 7, r.len() + 8, 40, 126, r.len()][n % 7];
    r.resize(len, 0xee);
    r
}
fn index_of(id: &[u8], n: usize) -> Option<usize> {
    let lo = id.first()? ^ 0x80;
    (lo as usize..n).step_by(256).find(|i| var_id(*i) == id)
}
/// Zero sized; the blocks are those of the thread.
#[derive(Debug, Clone, Copy, Default)]
pub struct Zst;
impl BlobStore for Zst {
    type Error = Own;
    fn read(&self, id: &[u8]) -> Result<Blob<'static>, Own> {
        step()?;
        BLOBS.with_borrow(|b| match index_of(id, b.len()) {
            Some(i) => Ok(Blob::from_arc_vec(b[i].clone())),
            None => Err(Own::Other(format!("no such id {id:02x?}"))),
        })
    }
    fn write(&self, data: &[u8]) -> Result<Vec<u8>, Own> {
        step()?;
        BLOBS.with_borrow_mut(|b| {
            b.push(Arc::new(data.to_vec()));
            Ok(var_id(b.len() - 1))
        })
    }
    fn sync(&self) -> Result<(), Own> {
        step()
    }
}
/// Larger than the others, and can not fail.
#[derive(Debug, Clone)]
pub struct Fat {
    _pad: [u64; 9],
    blobs: Arc<Mutex<Vec<Arc<Vec<u8>>>>>,
}
impl Default for Fat {
    fn default() -> Self {
        Fat { _pad: [7; 9], blobs: Default::default() }
    }
}
impl BlobStore for Fat {
    type Error = NoError;
    fn read(&self, id: &[u8]) -> Result<Blob<'static>, NoError> {
        let b = self.blobs.lock().unwrap();
        Ok(Blob::from_arc_vec(b[index_of(id, b.len()).expect("no such id")].clone()))
    }
    fn write(&self, data: &[u8]) -> Result<Vec<u8>, NoError> {
        let mut b = self.blobs.lock().unwrap();
        b.push(Arc::new(data.to_vec()));
        Ok(var_id(b.len() - 1))
    }
    fn sync(&self) -> Result<(), NoError> {
        Ok(())
    }
}
fn paged() -> PagedFileStore {
    PagedFileStore::new(crate::stores::memfd(), 4096).expect("paged store")
}
fn e<T, E: Debug>(what: &str, r: Result<T, E>) -> R<T> {
    r.map_err(|e| Viol { what: format!("{what} fails: {e:?}") })
}
fn attached<S: BlobStore + Clone>(m: &Map, s: &S) -> R<RadixTree<S>> {
    e("attach", build(m).try_attached(s.clone()))
}
fn reload<S: BlobStore + Clone>(t: &RadixTree<S>) -> R<RadixTree<S>> {
    let mut t = t.clone();
    let id = e("reattach", t.try_reattach())?;
    e("load", RadixTree::try_load(RadixTree::store(&t).clone(), Some(&id)))
}
fn full<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map, p: &Profile, evals: &mut u64) -> R<()> {
    g_reads(t, m, &p.probes)?;
    let d = e("detach", t.try_detached())?;
    check_iter(&d, m)?;
    ensure!(d == build(m), "the detached tree is not equal to one built from the content");
    *evals += p.probes.len() as u64 + 2;
    Ok(())
}
fn profile() -> Profile {
    let long = val(130, b'p');
    let keys = vec![vec![], v("a"), v("ab"), long.clone(), [&long[..], b"x"].concat(), [&long[..100], b"y"].concat()];
    Profile::new("types", keys, vec![v("x"), val(200, b'L')])
}
/// all contents, attached, written and loaded; then each operation, with everything checked after it
fn contents<S: BlobStore + Clone>(ctx: &mut Ctx, make: fn() -> S) -> R<()> {
    let p = profile();
    for k in 0..p.nstates() {
        crate::tick();
        let m = p.map(&p.nth(k));
        ctx.states += 1;
        ctx.traces += 1;
        ctx.nontrivial += (m.len() >= 2) as u64;
        let mut n = 0;
        let all = k % 9 == 0 || ctx.thorough;
        let run = |n: &mut u64| -> R<()> {
            let s = make();
            let a = attached(&m, &s)?;
            full(&a, &m, &p, n)?;
            let b = reload(&a)?;
            full(&b, &m, &p, n)?;
            g_check(&a, &m)?;
            for t in [&a, &b] {
                g_filter(t, &m, &p.keys, &[vec![], v("zz"), val(130, b's')])?;
                if all {
                    g_groups(t, &m, 4, n)?;
                }
                for (i, key) in p.keys.iter().enumerate() {
                    for op in 0..5 {
                        let (mut u, mut w) = (t.clone(), m.clone());
                        let name = ["insert", "insert a long value", "remove", "remove_prefix", "filter_prefix"][op];
                        let r = match op {
                            0 | 1 => {
                                w.insert(key.clone(), p.vals[op].clone());
                                u.try_insert(key, &p.vals[op])
                            }
                            2 => {
                                w.remove(key);
                                u.try_remove(key)
                            }
                            3 => {
                                rm::remove_prefix(&mut w, key);
                                u.try_remove_prefix(key)
                            }
                            _ => {
                                w = rm::filter(&w, key, b"q");
                                u.try_filter_prefix(key, b"q").map(|x| u = x)
                            }
                        };
                        let chk = |n: &mut u64| -> R<()> {
                            e(name, r)?;
                            full(&u, &w, &p, n)?;
                            let l = reload(&u)?;
                            g_check(&l, &w)?;
                            // and back, on what was loaded
                            let mut l = l;
                            let k2 = &p.keys[(i + 1) % p.keys.len()];
                            e("insert", l.try_insert(k2, b"again"))?;
                            w.insert(k2.clone(), v("again"));
                            g_check(&reload(&l)?, &w)
                        };
                        chk(n).map_err(|x| Viol { what: format!("{name} {}: {}", show(key), x.what) })?;
                        *n += 3;
                    }
                }
                g_check(t, &m)?;
            }
            Ok(())
        };
        guarded(|| format!("content {}", show_map(&m)), || run(&mut n))?;
        BLOBS.with_borrow_mut(|b| b.clear());
        ctx.evals += n;
        ctx.transitions += 60;
    }
    Ok(())
}
fn join_sides(left: bool) -> Vec<Map> {
    let long = val(130, b'p');
    let keys = [v("a"), v("ab"), long.clone(), [&long[..], b"x"].concat(), [&long[..100], b"y"].concat()];
    let mut r = vec![];
    for mask in 0u32..32 {
        let mut m = Map::new();
        for (i, k) in keys.iter().enumerate() {
            if mask >> i & 1 == 1 {
                let mut x = if left { aval(i) } else { bval(i, b'V') };
                if i == 2 {
                    x.resize(150, b'.');
                }
                m.insert(k.clone(), x);
            }
        }
        r.push(m);
    }
    r
}
/// attached to a new store, and loaded from it
fn on<S: BlobStore + Clone>(make: fn() -> S) -> impl Fn(&Map, bool) -> R<RadixTree<S>> {
    move |m, loaded| {
        let t = attached(m, &make())?;
        if loaded {
            reload(&t)
        } else {
            Ok(t)
        }
    }
}
/// all pairs of contents, the left ones on one type of store and the right ones on another
fn joins<A, B>(ctx: &mut Ctx, a: fn() -> A, b: impl Fn(&Map, bool) -> R<RadixTree<B>>) -> R<()>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    A::Error: From<B::Error> + From<NoError>,
    anyhow::Error: From<A::Error> + From<B::Error>,
{
    let (ls, rs) = (join_sides(true), join_sides(false));
    let log: Log = RefCell::new(vec![]);
    for (i, am) in ls.iter().enumerate() {
        for (k, bm) in rs.iter().enumerate() {
            crate::tick();
            ctx.states += 1;
            ctx.traces += 1;
            ctx.nontrivial += (!am.is_empty() && !bm.is_empty()) as u64;
            let mut n = 0;
            let mut run = || -> R<()> {
                let at = on(a)(am, i % 2 == 0)?;
                let bt = b(bm, k % 3 == 0)?;
                for &tab in &TABLES[(i + k) % 2..4] {
                    for j in JOINS {
                        let want = rm::join(j, am, bm, |x, y| ref_dec(tab, x, y));
                        let w = |s: &'static str| move |x: Viol| Viol { what: format!("{j:?} combine, {s}, decisions {}: {}", show(tab), x.what) };
                        let d = e("combine", fun(j, &at, &bt, tab, &log)).map_err(w("functional"))?;
                        check_iter(&d, &want).map_err(w("functional"))?;
                        ensure!(d == build(&want), "{j:?} combine, functional: not equal to a tree built from the content");
                        let mut t = at.clone();
                        e("combine", inp(j, &mut t, &bt, DetachConverter, tab, &log)).map_err(w("in place"))?;
                        g_check(&t, &want).map_err(w("in place"))?;
                        g_check(&reload(&t)?, &want).map_err(w("in place, written and loaded"))?;
                        // the right operand is not needed any more
                        log.borrow_mut().clear();
                        n += 3;
                    }
                    for inner in [true, false] {
                        let want = am.keys().any(|k| bm.get(k).map_or(!inner, |y| ref_dec(tab, b"", y).is_some_and(|x| !x.is_empty())));
                        let got = e("predicate", pred(inner, &at, &bt, tab))?;
                        ensure!(got == want, "{} predicate is {got}, decisions {}", if inner { "inner" } else { "left" }, show(tab));
                        n += 1;
                    }
                    for keep in [true, false] {
                        let want = rm::prefix_set(am, bm, keep, |y| ref_dec(tab, b"", y).is_some_and(|x| !x.is_empty()));
                        let mut t = at.clone();
                        e("prefix set", pre(keep, &mut t, &bt, tab))?;
                        g_check(&t, &want).map_err(|x| Viol { what: format!("{}_prefix_with, decisions {}: {}", if keep { "retain" } else { "remove" }, show(tab), x.what) })?;
                        n += 1;
                    }
                }
                g_check(&at, am)?;
                g_check(&bt, bm)
            };
            guarded(|| format!("left {} right {}", show_map(am), show_map(bm)), &mut run)?;
            BLOBS.with_borrow_mut(|b| b.clear());
            ctx.evals += n;
            ctx.transitions += n;
        }
    }
    Ok(())
}
/// the operations of trees in memory with a right operand on a store that can not fail
fn infallible(ctx: &mut Ctx) -> R<()> {
    let (ls, rs) = (join_sides(true), join_sides(false));
    for am in &ls {
        for (k, bm) in rs.iter().enumerate() {
            crate::tick();
            ctx.states += 1;
            ctx.traces += 1;
            let s = Fat::default();
            let run = || -> R<()> {
                let mut bt = attached(bm, &s)?;
                if k % 2 == 0 {
                    bt = reload(&bt)?;
                }
                let a = build(am);
                let f = |x: &mut Value, y: &ValueRef<Fat>| {
                    let y = y.to_owned().load(&s).unwrap();
                    let y = RadixTree::single(b"", y.as_ref());
                    x.set(y.value().as_ref());
                };
                for j in JOINS {
                    let want = rm::join(j, am, bm, |_, y| Some(y.to_vec()));
                    let mut t = a.clone();
                    match j {
                        Join::Outer => t.outer_combine_with(&bt, f),
                        Join::Inner => t.inner_combine_with(&bt, f),
                        Join::Left => t.left_combine_with(&bt, f),
                    }
                    check_iter(&t, &want).map_err(|x| Viol { what: format!("{j:?} combine: {}", x.what) })?;
                }
                for keep in [true, false] {
                    for short in [false, true] {
                        let want = rm::prefix_set(am, bm, keep, |y| (y.len() < 20) == short);
                        let mut t = a.clone();
                        let f = |y: &ValueRef<Fat>| (y.to_owned().load(&s).unwrap().len() < 20) == short;
                        if keep {
                            t.retain_prefix_with(&bt, f);
                        } else {
                            t.remove_prefix_with(&bt, f);
                        }
                        check_iter(&t, &want).map_err(|x| Viol { what: format!("{}_prefix_with: {}", if keep { "retain" } else { "remove" }, x.what) })?;
                    }
                }
                check_iter(&a, am)?;
                g_check(&bt, bm)
            };
            guarded(|| format!("left {} right {}", show_map(am), show_map(bm)), run)?;
            ctx.evals += 9;
            ctx.transitions += 7;
            ctx.nontrivial += (!am.is_empty() && !bm.is_empty()) as u64;
        }
    }
    Ok(())
}
pub fn s01_units() -> Vec<Unit> {
    vec![
        unit("type-zst", |ctx| contents(ctx, || Zst)),
        unit("type-fat", |ctx| contents(ctx, Fat::default)),
        unit("type-mem", |ctx| contents(ctx, MemStore::default)),
        unit("type-paged", |ctx| contents(ctx, paged)),
    ]
}
pub fn s03_units() -> Vec<Unit> {
    vec![
        unit("types-zst-zst", |ctx| joins(ctx, || Zst, on(|| Zst))),
        unit("types-zst-mem", |ctx| joins(ctx, || Zst, on(MemStore::default))),
        unit("types-zst-fat", |ctx| joins(ctx, || Zst, on(Fat::default))),
        unit("types-zst-detached", |ctx| joins(ctx, || Zst, |m, _| Ok(build(m)))),
        unit("types-mem-zst", |ctx| joins(ctx, MemStore::default, on(|| Zst))),
        unit("types-mem-fat", |ctx| joins(ctx, MemStore::default, on(Fat::default))),
        unit("types-mem-paged", |ctx| joins(ctx, MemStore::default, on(paged))),
        unit("types-mem-dyn", |ctx| joins(ctx, MemStore::default, on(|| Arc::new(MemStore::default()) as DynBlobStore))),
        unit("types-dyn-zst", |ctx| joins(ctx, || Arc::new(MemStore::default()) as DynBlobStore, on(|| Zst))),
        unit("types-fat-mem", |ctx| joins(ctx, Fat::default, on(MemStore::default))),
        unit("types-fat-fat", |ctx| joins(ctx, Fat::default, on(Fat::default))),
        unit("types-paged-fat", |ctx| joins(ctx, paged, on(Fat::default))),
        unit("types-infallible", infallible),
    ]
}
/// every call to the store and to the function fails once; the error that comes out is the one that went in
fn errors(ctx: &mut Ctx, right: usize) -> R<()> {
    let (ls, rs) = (join_sides(true), join_sides(false));
    for am in &ls {
        let bm = &rs[right];
        BLOBS.with_borrow_mut(|b| b.clear());
        let at = reload(&attached(am, &Zst)?)?;
        let bt = reload(&attached(bm, &Zst)?)?;
        ctx.states += 1;
        ctx.traces += 1;
        ctx.nontrivial += (!am.is_empty() && !bm.is_empty()) as u64;
        for op in 0..16 {
            for k in 0.. {
                crate::tick();
                ctx.transitions += 1;
                ctx.evals += 1;
                let mut t = at.clone();
                let key = bm.keys().next().cloned().unwrap_or_default();
                let fails = FAILED.get();
                LEFT.set(k);
                let f = |_: &mut Value<Zst>, _: &ValueRef<Zst>| -> Result<(), Own> {
                    step().map_err(|x| if let Own::Injected(n) = x { Own::Function(n) } else { x })
                };
                let g = |_: &ValueRef<Zst>, _: &ValueRef<Zst>| -> Result<Option<Value>, Own> {
                    step().map_err(|x| if let Own::Injected(n) = x { Own::Function(n) } else { x })?;
                    Ok(None)
                };
                let h = |_: &ValueRef<Zst>| -> Result<bool, Own> {
                    step().map_err(|x| if let Own::Injected(n) = x { Own::Function(n) } else { x })?;
                    Ok(true)
                };
                let names = [
                    "get", "has_prefix", "iter", "values", "scan_prefix", "insert", "remove", "remove_prefix", "outer_combine_with", "inner_combine_with", "left_combine_with", "outer_combine", "retain_prefix_with", "detached", "reattach",
                    "group_by",
                ];
                let r: Result<(), Own> = match op {
                    0 => t.try_get(&key).map(drop),
                    1 => t.try_has_prefix(&key).map(drop),
                    2 => t.try_iter().collect::<Result<Vec<_>, _>>().map(drop),
                    3 => t.try_values().collect::<Result<Vec<_>, _>>().map(drop),
                    4 => t.try_scan_prefix(&key).and_then(|x| x.collect::<Result<Vec<_>, _>>()).map(drop),
                    5 => t.try_insert(&key, b"new"),
                    6 => t.try_remove(&key),
                    7 => t.try_remove_prefix(&key),
                    8 => t.try_outer_combine_with(&bt, IdentityConverter, f),
                    9 => t.try_inner_combine_with(&bt, IdentityConverter, f),
                    10 => t.try_left_combine_with(&bt, DetachConverter, f),
                    11 => t.try_outer_combine::<_, Own, _>(&bt, g).map(drop),
                    12 => t.try_retain_prefix_with(&bt, h),
                    13 => t.try_detached().map(drop),
                    14 => t.try_reattach().map(drop),
                    _ => {
                        let r = t.try_group_by(|_, _| step().map(|_| true)).collect::<Result<Vec<_>, _>>().map(drop);
                        r
                    }
                };
                let left = LEFT.replace(u64::MAX);
                let what = || format!("{} of {} with {} failing at call {}", names[op], show_map(am), show_map(bm), k + 1);
                if left != u64::MAX {
                    // nothing failed
                    ensure!(r.is_ok(), "{}: nothing failed, the result is {r:?}", what());
                    break;
                }
                let n = fails + 1;
                ensure!(
                    r == Err(Own::Injected(n)) || r == Err(Own::Function(n)),
                    "{}: the result is {r:?} instead of the error number {n}",
                    what()
                );
                g_check(&t, am).map_err(|x| Viol { what: format!("{}, then: {}", what(), x.what) })?;
                g_check(&bt, bm).map_err(|x| Viol { what: format!("{}, then on the right: {}", what(), x.what) })?;
            }
        }
    }
    Ok(())
}
pub fn s06_units() -> Vec<Unit> {
    (0..32).map(|i| unit(format!("types-{i}"), move |ctx| errors(ctx, i))).collect()
}

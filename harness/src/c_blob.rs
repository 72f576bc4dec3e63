//! B01: blobs.
use crate::core::*;
use crate::stores::*;
use crate::sysio;
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound::{self, Excluded, Included, Unbounded};
use std::sync::Arc;

type B = Blob<'static>;

/// guarded memory: the bytes end at an inaccessible page
pub struct Guarded {
    start: *mut u8,
    base: *mut u8,
    map: usize,
    len: usize,
}
unsafe impl Send for Guarded {}
unsafe impl Sync for Guarded {}
impl Guarded {
    /// with `front` the bytes start right after an inaccessible page, otherwise they end right before one
    pub fn new(d: &[u8], front: bool) -> Self {
        let pages = d.len().div_ceil(4096).max(1);
        let map = (pages + 2) * 4096;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), map, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let p = p as *mut u8;
            let base = p.add(if front { 4096 } else { 4096 + pages * 4096 - d.len() });
            std::ptr::copy_nonoverlapping(d.as_ptr(), base, d.len());
            libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
            libc::mprotect(p.add(map - 4096) as *mut _, 4096, libc::PROT_NONE);
            libc::mprotect(p.add(4096) as *mut _, map - 8192, libc::PROT_READ);
            Guarded { start: p, base, map, len: d.len() }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.start as *mut _, self.map) };
    }
}
/// an owned blob in guarded memory
pub fn guarded_blob(d: &[u8], front: bool) -> B {
    let g = Arc::new(Guarded::new(d, front));
    let s: &'static [u8] = unsafe { std::mem::transmute(g.bytes()) };
    Blob::owned_new(s, Some(g))
}
fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
const MADE: usize = 8;
/// blobs with the given bytes, made in all ways
fn make(kind: usize, d: &[u8]) -> Option<B> {
    Some(match kind {
        0 => Blob::copy_from_slice(d),
        1 => Blob::from_arc_vec(Arc::new(d.to_vec())),
        2 => B::from(Arc::new(d.to_vec())),
        3 => match d.len() {
            0 => B::from(Arc::new([0u8; 0])),
            1 => B::from(Arc::new([d[0]])),
            3 => B::from(Arc::new([d[0], d[1], d[2]])),
            5 => B::from(Arc::new([d[0], d[1], d[2], d[3], d[4]])),
            _ => return None,
        },
        4 => Blob::new(d).to_owned(),
        5 => guarded_blob(d, false),
        6 => guarded_blob(d, true),
        _ => {
            // a part of a longer one
            let mut x = vec![0xee; 3];
            x.extend_from_slice(d);
            x.extend([0xee; 4]);
            Blob::copy_from_slice(&x).slice(3..3 + d.len())
        }
    })
}
fn same(b: &Blob, want: &[u8], what: &str) -> R<()> {
    ensure!(b.as_ref() == want && &b[..] == want && b.len() == want.len(), "{what} is {} instead of {}", show(b.as_ref()), show(want));
    let w = Blob::new(want);
    ensure!(*b == w && w == *b && hash_of(b) == hash_of(&w) && b.cmp(&w).is_eq(), "{what} does not compare or hash like {}", show(want));
    let br: &[u8] = std::borrow::Borrow::borrow(b);
    ensure!(br == want && hash_of(b) == hash_of(&br), "{what} is not borrowed as {}", show(want));
    Ok(())
}
fn start(b: &Bound<usize>, _len: usize) -> Option<usize> {
    match b {
        Included(n) => Some(*n),
        Excluded(n) => n.checked_add(1),
        Unbounded => Some(0),
    }
}
fn end(b: &Bound<usize>, len: usize) -> Option<usize> {
    match b {
        Included(n) => n.checked_add(1),
        Excluded(n) => Some(*n),
        Unbounded => Some(len),
    }
}
/// all ranges of a blob
fn ranges(b: &B, d: &[u8], ctx: &mut Ctx) -> R<()> {
    let len = d.len();
    let mut pts: Vec<usize> = (0..=len + 3).collect();
    pts.extend([usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 32]);
    let mut bounds = vec![Unbounded];
    for p in pts {
        bounds.push(Included(p));
        bounds.push(Excluded(p));
    }
    for s in &bounds {
        for e in &bounds {
            ctx.evals += 1;
            let want = match (start(s, len), end(e, len)) {
                (Some(a), Some(z)) if a <= z && z <= len => Some(&d[a..z]),
                _ => None,
            };
            let got = catch(|| b.slice((*s, *e)));
            match (got, want) {
                (Ok(g), Some(w)) => {
                    ctx.nontrivial += !w.is_empty() as u64;
                    same(&g, w, &format!("slice({s:?}, {e:?}) of {}", show(d)))?;
                }
                // an arithmetic overflow is no rejection: without overflow checks it is a wrong range
                (Err(p), None) => ensure!(!p.contains("with overflow"), "slice({s:?}, {e:?}) of {} bytes: {p}", len),
                (Ok(g), None) => return viol(format!("slice({s:?}, {e:?}) of {} bytes gives {}", len, show(&g))),
                (Err(p), Some(_)) => return viol(format!("slice({s:?}, {e:?}) of {} bytes is rejected: {p}", len)),
            }
        }
    }
    // the usual range types
    for a in 0..=len {
        same(&b.slice(a..), &d[a..], "slice(a..)")?;
        same(&b.slice(..a), &d[..a], "slice(..a)")?;
        if a < len {
            same(&b.slice(..=a), &d[..=a], "slice(..=a)")?;
        }
    }
    same(&b.slice(..), d, "slice(..)")?;
    Ok(())
}
/// sub-slice references, inside and outside
fn slice_refs(d: &[u8], ctx: &mut Ctx) -> R<()> {
    let len = d.len();
    let buf = [&[9u8; 4][..], d, &[8u8; 4]].concat();
    let whole = Blob::from_arc_vec(Arc::new(buf.clone()));
    let b = whole.slice(4..4 + len);
    let w: &[u8] = whole.as_ref();
    for i in 0..=w.len() {
        for j in i..=w.len() {
            let sub = &w[i..j];
            ctx.evals += 1;
            let inside = i >= 4 && j <= 4 + len;
            match catch(|| b.slice_ref(sub)) {
                Ok(g) => {
                    ensure!(inside || sub.is_empty(), "slice_ref accepts bytes {i}..{j} outside of 4..{}", 4 + len);
                    same(&g, sub, "slice_ref")?;
                    ctx.nontrivial += !sub.is_empty() as u64;
                }
                Err(p) => ensure!(!inside, "slice_ref rejects bytes {i}..{j} of 4..{}: {p}", 4 + len),
            }
        }
    }
    // somewhere else with the same bytes
    let other = d.to_vec();
    if !d.is_empty() {
        ensure!(catch(|| b.slice_ref(&other)).is_err(), "slice_ref accepts a slice of another object");
    }
    Ok(())
}
/// All derivation programs: each step derives a new blob from the current one, and drops the previous one before or
/// after, then the bytes are compared.
fn derivations(kind: usize, d: &[u8], depth: usize, ctx: &mut Ctx) -> R<()> {
    const STEPS: usize = 9;
    for k in 0..STEPS.pow(depth as u32) {
        ctx.evals += 1;
        let what = || format!("blob {} of kind {kind}, derivation {k}", show(d));
        guarded(what, || {
            crate::c_snap::measured(|| {
                let Some(mut b) = make(kind, d) else { return Ok(()) };
                let mut want = d.to_vec();
                let mut kept: Vec<(B, Vec<u8>)> = vec![];
                let mut x = k;
                for _ in 0..depth {
                    let n = b.len();
                    let (nb, nw): (B, Vec<u8>) = match x % STEPS {
                        0 => (b.clone(), want.clone()),
                        1 => (b.clone().to_owned(), want.clone()),
                        2 => (b.slice(n / 3..), want[n / 3..].to_vec()),
                        3 => (b.slice(..n - n / 3), want[..n - n / 3].to_vec()),
                        4 => (b.slice_ref(&b.as_ref()[n / 4..n - n / 4]), want[n / 4..n - n / 4].to_vec()),
                        5 => (Blob::copy_from_slice(&b), want.clone()),
                        6 => (Blob::new(&b).to_owned(), want.clone()),
                        7 => (Blob::new(&b).slice(n / 2..).to_owned(), want[n / 2..].to_vec()),
                        _ => {
                            // the old one stays
                            kept.push((b.clone(), want.clone()));
                            (b.slice(0..n), want.clone())
                        }
                    };
                    x /= STEPS;
                    b = nb;
                    want = nw;
                    same(&b, &want, "the derived blob")?;
                }
                drop(std::mem::replace(&mut b, Blob::empty()));
                for (b, w) in &kept {
                    same(b, w, "a blob that was kept")?;
                }
                Ok(())
            })
        })?;
        ctx.traces += 1;
    }
    Ok(())
}
fn pairs(strings: &[Vec<u8>], ctx: &mut Ctx) -> R<()> {
    for a in strings {
        for b in strings {
            for (ka, kb) in [(0, 4), (5, 7), (1, 0), (7, 6)] {
                let (Some(x), Some(y)) = (make(ka, a), make(kb, b)) else { continue };
                ctx.evals += 1;
                ctx.nontrivial += (a != b) as u64;
                ensure!((x == y) == (a == b), "{} == {} is wrong", show(a), show(b));
                ensure!(x.cmp(&y) == a.cmp(b) && x.partial_cmp(&y) == a.partial_cmp(b), "the order of {} and {} is wrong", show(a), show(b));
                ensure!((x < y) == (a < b) && (x >= y) == (a >= b), "the order of {} and {} is wrong", show(a), show(b));
                if a == b {
                    ensure!(hash_of(&x) == hash_of(&y), "equal blobs {} have different hashes", show(a));
                }
                ensure!(hash_of(&x) == hash_of(&&a[..]), "the hash of {} is not that of the bytes", show(a));
            }
        }
    }
    Ok(())
}
/// Blobs that come from stores and trees, and what happens to their origin.
/// events: drop the store handle, write more (closing pages), read others, reopen, drop the derived ones
fn lifetimes(store: usize, page: u64, perm: usize, ctx: &mut Ctx) -> R<()> {
    sysio::guard_unmap(true);
    let f = memfd();
    let m = page as usize - 8;
    let mk: Vec<Vec<u8>> = (0..6).map(|i| (0..[m, 1.min(m), m / 2, 0, m, m / 3][i]).map(|j| (i * 50 + j) as u8).collect()).collect();
    let open = || -> R<DynBlobStore> {
        Ok(match store {
            0 => Arc::new(MemStore::default()),
            _ => Arc::new(crate::eng_attach::ok("open", PagedFileStore::new(f.try_clone().unwrap(), page))?),
        })
    };
    let mut st: Option<DynBlobStore> = Some(open()?);
    let mut ids = vec![];
    let mut held: Vec<(B, Vec<u8>)> = vec![];
    let get = |st: &DynBlobStore, ids: &[Vec<u8>], held: &mut Vec<(B, Vec<u8>)>| -> R<()> {
        for (i, id) in ids.iter().enumerate() {
            let b = crate::eng_attach::ok("read", st.read(id))?;
            let n = b.len();
            held.push((b.slice(n / 2..), mk[i][n / 2..].to_vec()));
            held.push((b.clone().to_owned(), mk[i].clone()));
            held.push((b, mk[i].clone()));
        }
        Ok(())
    };
    let check = |held: &Vec<(B, Vec<u8>)>, ctx: &mut Ctx| -> R<()> {
        for (b, w) in held {
            ctx.evals += 1;
            same(b, w, "a blob that was read before")?;
        }
        Ok(())
    };
    let mut x = perm;
    let mut names = vec![];
    let mut run = || -> R<()> {
        for d in &mk[..3] {
            ids.push(crate::eng_attach::ok("write", st.as_ref().unwrap().write(d))?);
        }
        get(st.as_ref().unwrap(), &ids, &mut held)?;
        for _ in 0..4 {
            let o = x % 5;
            x /= 5;
            names.push(o);
            match o {
                0 => {
                    // all handles go away, then a new one
                    st = None;
                    check(&held, ctx)?;
                    if store == 0 {
                        return Ok(());
                    }
                    st = Some(open()?);
                }
                1 => {
                    // more blobs: pages are closed
                    if ids.len() < mk.len() {
                        let d = &mk[ids.len()];
                        ids.push(crate::eng_attach::ok("write", st.as_ref().unwrap().write(d))?);
                    }
                }
                2 => get(st.as_ref().unwrap(), &ids, &mut held)?,
                3 => {
                    // every other blob is dropped
                    let mut i = 0;
                    held.retain(|_| {
                        i += 1;
                        i % 2 == 0
                    });
                }
                _ => {
                    let s = st.clone();
                    drop(st.take());
                    st = s;
                    crate::eng_attach::ok("sync", st.as_ref().unwrap().sync())?;
                }
            }
            check(&held, ctx)?;
        }
        st = None;
        check(&held, ctx)
    };
    let r = run();
    let st_gone = st.is_none();
    drop(st);
    let r = r.and_then(|_| {
        let _ = st_gone;
        check(&held, ctx)
    });
    ctx.traces += 1;
    ctx.nontrivial += 1;
    sysio::guard_unmap(false);
    r.map_err(|v| Viol { what: format!("store {store}, page size {page}, events {names:?}: {}", v.what) })
}
/// values that are taken out of trees
fn from_trees(perm: usize, long: bool, ctx: &mut Ctx) -> R<()> {
    use crate::eng_attach::ok;
    sysio::guard_unmap(true);
    let f = memfd();
    let mut st: Option<DynBlobStore> = Some(match perm % 2 {
        0 => Arc::new(MemStore::default()),
        _ => Arc::new(ok("open", PagedFileStore::new(f.try_clone().unwrap(), 1024))?),
    });
    let n = if long { 200 } else { 5 };
    let m: Map = [(b"".to_vec(), vec![1u8; n]), (b"a".to_vec(), vec![2; n + 1]), (b"ab".to_vec(), vec![3; n + 2]), ([b'a'; 150].to_vec(), vec![4; 3])].into_iter().collect();
    let mut d: Option<RadixTree> = Some(m.iter().collect());
    let mut t = Some(ok("attach", d.as_ref().unwrap().try_attached(st.clone().unwrap()))?);
    let mut held: Vec<(B, Vec<u8>)> = vec![];
    let mut keys: Vec<(radixdb::node::IterKey, Vec<u8>)> = vec![];
    let take = |d: &RadixTree, held: &mut Vec<(B, Vec<u8>)>, keys: &mut Vec<(radixdb::node::IterKey, Vec<u8>)>, m: &Map| -> R<()> {
        for ((k, v), (mk, mv)) in d.iter().zip(m) {
            held.push((ok("value", v.load(&radixdb::store::Detached).map_err(|_| anyhow::anyhow!("?")))?.to_owned(), mv.clone()));
            keys.push((k, mk.clone()));
        }
        Ok(())
    };
    let check = |held: &Vec<(B, Vec<u8>)>, keys: &Vec<(radixdb::node::IterKey, Vec<u8>)>, ctx: &mut Ctx| -> R<()> {
        for (b, w) in held {
            ctx.evals += 1;
            same(b, w, "a value that was taken before")?;
        }
        for (k, w) in keys {
            ensure!(k.as_ref() == &w[..], "a key that was taken before is {} instead of {}", show(k.as_ref()), show(w));
        }
        Ok(())
    };
    take(d.as_ref().unwrap(), &mut held, &mut keys, &m)?;
    let mut x = perm / 2;
    let mut names = vec![];
    for _ in 0..4 {
        let o = x % 6;
        x /= 6;
        names.push(o);
        let r: R<()> = (|| {
            match o {
                0 => d = None,
                1 => t = None,
                2 => st = None,
                3 => {
                    if let Some(d) = &mut d {
                        for k in m.keys() {
                            d.insert(k, b"changed to this");
                        }
                        d.remove(b"ab");
                    }
                }
                4 => {
                    if let Some(t) = &mut t {
                        ok("reattach", t.try_reattach())?;
                        let s = RadixTree::store(t).clone();
                        for x in t.try_iter() {
                            let (k, v) = ok("iterate", x)?;
                            let w = m[k.as_ref()].clone();
                            held.push((ok("load", v.load(&s))?.to_owned(), w.clone()));
                            keys.push((k.clone(), k.to_vec()));
                        }
                    }
                }
                _ => {
                    if let Some(t) = &t {
                        let d2 = ok("detach", t.try_detached())?;
                        take(&d2, &mut held, &mut keys, &m)?;
                    }
                }
            }
            check(&held, &keys, ctx)
        })();
        r.map_err(|v| Viol { what: format!("events {names:?}: {}", v.what) })?;
    }
    drop((d, t, st));
    check(&held, &keys, ctx).map_err(|v| Viol { what: format!("events {names:?}, and all dropped: {}", v.what) })?;
    ctx.traces += 1;
    sysio::guard_unmap(false);
    Ok(())
}
pub fn b01(thorough: bool) -> Check {
    let mut units = vec![];
    let data = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 7 + 1) as u8).collect() };
    for kind in 0..MADE {
        units.push(unit(format!("ranges-{kind}"), move |ctx| {
            for n in 0..=if ctx.thorough { 14 } else { 9 } {
                crate::tick();
                let d = data(n);
                if let Some(b) = make(kind, &d) {
                    same(&b, &d, "the blob")?;
                    guarded(|| format!("blob of kind {kind} with {n} bytes"), || ranges(&b, &d, ctx))?;
                    // a slice of a slice
                    for a in 0..=n {
                        for z in a..=n {
                            let s = b.slice(a..z);
                            guarded(|| format!("slice {a}..{z} of a blob of kind {kind} with {n} bytes"), || ranges(&s, &d[a..z], ctx))?;
                        }
                    }
                }
                let bb = Blob::new(&d);
                same(&bb, &d, "the borrowed blob")?;
                for a in 0..=n {
                    for z in a..=n {
                        same(&bb.slice(a..z), &d[a..z], "a slice of a borrowed blob")?;
                    }
                }
            }
            same(&Blob::empty(), b"", "the empty blob")
        }));
        units.push(unit(format!("derivations-{kind}"), move |ctx| {
            let depth = if ctx.thorough { 5 } else { 4 };
            for n in [0usize, 1, 3, 5, 12] {
                crate::tick();
                derivations(kind, &data(n), depth, ctx)?;
            }
            Ok(())
        }));
    }
    units.push(unit("slice-ref", move |ctx| {
        for n in 0..=if ctx.thorough { 24 } else { 12 } {
            crate::tick();
            guarded(|| format!("a blob of {n} bytes"), || slice_refs(&data(n), ctx))?;
        }
        Ok(())
    }));
    units.push(unit("compare", move |ctx| {
        let mut s = crate::profiles::words(&[vec![0], vec![0x7f], vec![0x80], vec![0xff]], if ctx.thorough { 4 } else { 3 });
        s.push(vec![1; 300]);
        s.push([&vec![1; 300][..], &[0]].concat());
        crate::tick();
        pairs(&s, ctx)?;
        // longer strings that differ in one place, or in two with opposite effects, or in their length
        for n in [4usize, 7, 8, 9, 15, 16, 17, 24, 31, 33, 64, 65, 130, 256, 257] {
            crate::tick();
            let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 7) as u8).collect();
            let mut s = vec![base.clone(), base[..n - 1].to_vec(), [&base[..], b"a"].concat(), [&base[..], &[0]].concat()];
            let places: Vec<usize> = if n <= 33 { (0..n).collect() } else { vec![0, 1, 7, 8, 15, 16, 31, 32, 63, n / 2, n - 2, n - 1] };
            for i in places {
                for b in [0u8, 0x80, 0xff] {
                    let mut x = base.clone();
                    x[i] = b;
                    s.push(x.clone());
                    if i + 1 < n {
                        x[n - 1] = !b;
                        s.push(x);
                    }
                }
            }
            guarded(|| format!("strings of about {n} bytes"), || pairs(&s, ctx))?;
        }
        Ok(())
    }));
    for store in 0..2usize {
        for page in if thorough { vec![16u64, 24, 64, 1024, 4096, 8192] } else { vec![16u64, 64, 4096] } {
            units.push(unit(format!("lifetimes-{store}-{page}"), move |ctx| {
                for perm in 0..5usize.pow(4) {
                    crate::tick();
                    guarded(|| format!("program {perm}"), || lifetimes(store, page, perm, ctx))?;
                }
                Ok(())
            }));
        }
    }
    for long in [false, true] {
        units.push(unit(format!("trees-{long}"), move |ctx| {
            for perm in 0..2 * 6usize.pow(4) {
                crate::tick();
                guarded(|| format!("program {perm}"), || from_trees(perm, long, ctx))?;
            }
            Ok(())
        }));
    }
    Check {
        id: "B01",
        level: "exploration",
        rule: "blobs made in 8 ways: every range with every kind of bound (also out of range) of the blob and of each of its slices, every sub-slice reference inside and outside; all pairs of short strings, and of strings of 4 to 257 bytes that differ in one or two places, compared, ordered and hashed; all derivation programs under the checking allocator; all programs of 4 events on the origin (store, file, tree dropped, modified, written, reopened), after each of which all blobs are compared; non-trivial: a non-empty result",
        bounds: format!("blobs of 0 to {} bytes; derivations of {} steps; unmapped file pages become inaccessible", if thorough { 14 } else { 9 }, if thorough { 5 } else { 4 }),
        assumptions: vec!["64 bit platform", "owned_new is called with an owner that keeps the bytes alive"],
        units,
        quarantine: true,
    }
}

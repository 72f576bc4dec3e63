//! P07: what a store holds on to (memory, mappings, the file), and that it gives everything back.
use crate::alloc;
use crate::core::*;
use crate::eng_attach::ok;
use crate::stores::memfd;
use crate::sysio::{self, Fault};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::fs::File;
use std::os::fd::AsRawFd;
use std::sync::Arc;

const MAXB: usize = 4096;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    /// write a blob of this length
    W(usize),
    /// read all blobs
    Read,
    /// ids that are not those of blobs
    Bad,
    /// keep the oldest and the newest blob
    Keep,
    /// drop the blobs that were kept
    Drop,
    /// one more handle of the store, the previous handle is dropped at the next such operation
    Clone,
    Reopen,
    Sync,
}
/// What is held, by the measures of the allocator and the kernel.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Held {
    heap: isize,
    maps: usize,
    mapped: usize,
    fds: usize,
}
fn id_of(f: &File) -> (u64, u64) {
    unsafe {
        let mut s: libc::stat = std::mem::zeroed();
        assert_eq!(libc::fstat(f.as_raw_fd(), &mut s), 0);
        (s.st_dev, s.st_ino)
    }
}
fn held(file: (u64, u64), heap0: isize) -> Held {
    let heap = alloc::balance().1 - heap0;
    let mut h = Held { heap, maps: 0, mapped: 0, fds: 0 };
    for fd in 0..256 {
        let mut s: libc::stat = unsafe { std::mem::zeroed() };
        if unsafe { libc::fstat(fd, &mut s) } == 0 && (s.st_dev, s.st_ino) == file {
            h.fds += 1;
        }
    }
    let ino = file.1.to_string();
    for l in std::fs::read_to_string("/proc/self/maps").expect("/proc/self/maps").lines() {
        let mut w = l.split_ascii_whitespace();
        let (range, i) = (w.next().unwrap(), w.nth(3));
        if i == Some(&ino[..]) && l.contains("memfd:db") {
            let (a, b) = range.split_once('-').unwrap();
            h.maps += 1;
            h.mapped += usize::from_str_radix(b, 16).unwrap() - usize::from_str_radix(a, 16).unwrap();
        }
    }
    h
}
struct State {
    st: Option<PagedFileStore>,
    second: Option<PagedFileStore>,
    /// id and length of all blobs
    ids: Vec<(u64, usize)>,
    kept: Vec<Blob<'static>>,
    per_page: Vec<usize>,
    hit: Option<sysio::Kind>,
}
impl State {
    fn new() -> State {
        State { st: None, second: None, ids: Vec::with_capacity(MAXB), kept: Vec::with_capacity(64), per_page: vec![0; MAXB], hit: None }
    }
}
fn page_of(id: u64, page: u64) -> u64 {
    (id - 1) / page
}
fn read_all(s: &State, bad: bool) -> R<()> {
    let st = s.st.as_ref().unwrap();
    for (id, n) in &s.ids {
        let b = ok("read", st.read(&id.to_be_bytes()))?;
        ensure!(b.len() == *n, "read({id}) returns {} bytes instead of {n}", b.len());
    }
    if bad {
        let end = s.ids.last().map(|x| x.0).unwrap_or(0);
        for id in [0, 1, 4, 5, end.saturating_sub(1), end.saturating_sub(4), end + 1, end + 4, end + 5000, u64::MAX, u64::MAX - 4096] {
            if s.ids.iter().all(|x| x.0 != id) {
                // an error, or some bytes of the file
                let _ = st.read(&id.to_be_bytes());
            }
        }
        let _ = st.read(&[]);
        let _ = st.read(&[0; 9]);
    }
    Ok(())
}
fn step(s: &mut State, o: Op, page: u64, f: &File, faulty: bool, buf: &[u8]) -> R<()> {
    match o {
        Op::W(n) => {
            let st = s.second.as_ref().or(s.st.as_ref()).unwrap();
            match st.write(&buf[..n]) {
                Ok(id) => {
                    let id = u64::from_be_bytes(id[..].try_into().unwrap());
                    s.ids.push((id, n));
                    s.per_page[page_of(id, page) as usize % MAXB] += 1;
                }
                Err(e) => ensure!(faulty, "a write of {n} bytes fails: {e:?}"),
            }
        }
        Op::Read | Op::Bad => {
            let r = read_all(s, o == Op::Bad);
            if !faulty {
                r?;
            }
        }
        Op::Keep => {
            for i in [0, s.ids.len().max(1) - 1] {
                if let (Some((id, _)), true) = (s.ids.get(i), s.kept.len() < 60) {
                    match s.st.as_ref().unwrap().read(&id.to_be_bytes()) {
                        Ok(b) => {
                            s.kept.push(b);
                        }
                        Err(e) => ensure!(faulty, "read({id}) fails: {e:?}"),
                    }
                }
            }
        }
        Op::Drop => {
            s.kept.clear();
        }
        Op::Clone => s.second = s.st.clone(),
        Op::Reopen => {
            s.second = None;
            s.st = None;
            let st = PagedFileStore::new(f.try_clone().unwrap(), page);
            match st {
                Ok(st) => s.st = Some(st),
                Err(e) => {
                    ensure!(faulty, "open fails: {e:?}");
                    // the error has gone
                    s.hit = sysio::hit();
                    sysio::set_fault(Fault::None);
                    s.st = Some(ok("open", PagedFileStore::new(f.try_clone().unwrap(), page))?);
                }
            }
        }
        Op::Sync => {
            let r = s.st.as_ref().unwrap().sync();
            if !faulty {
                ok("sync", r)?;
            }
        }
    }
    Ok(())
}
/// a history, with a fault in one of its operations
fn case(page: u64, h: &[Op], fault: Option<(usize, Fault)>, buf: &[u8], ctx: &mut Ctx) -> R<Option<sysio::Kind>> {
    let f = memfd();
    let file = id_of(&f);
    let mut hit = None;
    let mut s = State::new();
    let heap0 = alloc::balance().1;
    let start = held(file, heap0);
    ensure!(start == Held { heap: 0, maps: 0, mapped: 0, fds: 1 }, "before: {start:?}");
    if fault.is_some() {
        sysio::start(&f, Fault::None, false);
    }
    s.st = Some(ok("open", PagedFileStore::new(f.try_clone().unwrap(), page))?);
    for (i, o) in h.iter().enumerate() {
        match fault {
            Some((at, x)) if at == i => {
                sysio::set_fault(x);
                step(&mut s, *o, page, &f, true, buf)?;
                hit = s.hit.or(sysio::hit());
                sysio::set_fault(Fault::None);
            }
            _ => step(&mut s, *o, page, &f, fault.is_some(), buf)?,
        }
    }
    if fault.is_some() {
        sysio::stop();
    }
    ctx.traces += 1;
    ctx.transitions += h.len() as u64;
    ctx.evals += 4;
    let len = f.metadata().unwrap().len().max(4096) - 4096;
    let pages = (len / page) as usize;
    let most = *s.per_page.iter().max().unwrap();
    let one = (page as usize).next_multiple_of(4096) + 4096;
    let keeps: isize = s.kept.iter().map(|b| b.len() as isize + 256).sum();
    let limit = |n: usize| (n, n * one);
    let all = held(file, heap0);
    let (m, b) = limit(pages + s.kept.len());
    ensure!(all.maps <= m && all.mapped <= b, "with {pages} complete pages and {} blobs kept, {} parts of the file with {} bytes are mapped", s.kept.len(), all.maps, all.mapped);
    let heap = 4096 + 3 * page as isize + 600 * most as isize + 300 * pages as isize + keeps;
    ensure!(all.heap <= heap, "with {pages} complete pages of {page} bytes, at most {most} blobs in one, {} bytes are held in memory", all.heap);
    ensure!(all.fds == 2, "the file is open {} times", all.fds - 1);
    // reading again needs nothing more
    read_all(&s, true)?;
    let first = held(file, heap0);
    for _ in 0..2 {
        read_all(&s, true)?;
    }
    let again = held(file, heap0);
    ensure!(again.heap <= first.heap && again.maps <= first.maps && again.mapped <= first.mapped, "reading the same blobs again makes the store hold more: {first:?}, then {again:?}");
    ensure!(first.heap <= heap + (600 * most) as isize, "after reading all blobs, {} bytes are held in memory with {pages} complete pages", first.heap);
    let (m, b) = limit(pages + s.kept.len());
    ensure!(first.maps <= m && first.mapped <= b, "after reading all blobs of {pages} complete pages, {} parts of the file with {} bytes are mapped", first.maps, first.mapped);
    let mut key = H128::new();
    key.bytes(&page.to_be_bytes());
    for (id, n) in &s.ids {
        key.bytes(&id.to_be_bytes());
        key.bytes(&n.to_be_bytes());
    }
    key.bytes(&[s.kept.len() as u8, s.second.is_some() as u8]);
    for b in &s.kept {
        key.bytes(&b.len().to_be_bytes());
    }
    let several = s.ids.len() >= 2;
    // one more blob, of the last page that is complete
    if let Some((id, _)) = s.ids.iter().rev().find(|x| page_of(x.0, page) + 1 < s.ids.last().unwrap().0.div_ceil(page)) {
        s.kept.push(ok("read", s.st.as_ref().unwrap().read(&id.to_be_bytes()))?);
    }
    let keeps: isize = s.kept.iter().map(|b| b.len() as isize + 256).sum();
    // only blobs are left
    s.second = None;
    s.st = None;
    let left = held(file, heap0);
    ensure!(left.fds == 1, "the file stays open when the last handle is dropped");
    // each blob may be from another opening
    let (m, b) = limit(s.kept.len());
    ensure!(left.maps <= m && left.mapped <= b, "the store is dropped and {} blobs kept, but {} parts of the file with {} bytes stay mapped", s.kept.len(), left.maps, left.mapped);
    ensure!(left.heap <= keeps + 64, "the store is dropped and {} blobs of {} bytes kept, but {} bytes stay in use", s.kept.len(), keeps - 256 * s.kept.len() as isize, left.heap);
    // down to the last one
    while s.kept.len() > 1 {
        s.kept.remove(0);
        if s.kept.len() < 3 {
            let left = held(file, heap0);
            let (m, b) = limit(s.kept.len());
            let keeps: isize = s.kept.iter().map(|b| b.len() as isize + 256).sum();
            ensure!(left.maps <= m && left.mapped <= b, "only {} blobs are left, but {} parts of the file with {} bytes are mapped", s.kept.len(), left.maps, left.mapped);
            ensure!(left.heap <= keeps + 64, "only {} blobs are left, but {} bytes are in use", s.kept.len(), left.heap);
        }
    }
    s.kept.clear();
    let end = held(file, heap0);
    ensure!(end == start, "the store and all its blobs are dropped, but {end:?} is held");
    drop(s);
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<(u64, u64)>> = Default::default());
    ctx.states += SEEN.with(|x| x.borrow_mut().insert(key.get())) as u64;
    ctx.nontrivial += several as u64;
    ctx.note_max("pages", pages as u64);
    Ok(hit)
}
fn show(page: u64, h: &[Op]) -> String {
    if h.len() > 20 {
        format!("page size {page}, {} operations {:?}..", h.len(), &h[..4])
    } else {
        format!("page size {page}, history {h:?}")
    }
}
fn ops(page: u64) -> Vec<Op> {
    let m = page as usize - 8;
    vec![Op::W(0), Op::W(m / 2), Op::W(m), Op::Read, Op::Bad, Op::Keep, Op::Drop, Op::Clone, Op::Reopen]
}
fn all(o: &[Op], n: usize, f: &mut dyn FnMut(&[Op]) -> R<()>) -> R<()> {
    fn rec(o: &[Op], n: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op]) -> R<()>) -> R<()> {
        if !cur.is_empty() {
            f(cur)?;
        }
        if cur.len() == n {
            return Ok(());
        }
        for &x in o {
            if !matches!(x, Op::W(_)) && cur.last() == Some(&x) || x == Op::Drop && !cur.contains(&Op::Keep) {
                continue;
            }
            cur.push(x);
            rec(o, n, cur, f)?;
            cur.pop();
        }
        Ok(())
    }
    rec(o, n, &mut vec![], f)
}
/// everything that was ever used is initialised
fn warm() -> R<()> {
    let buf = vec![7u8; 8192];
    for _ in 0..2 {
        let mut c = Ctx::default();
        // the result does not matter here
        let _ = case(64, &[Op::W(56), Op::W(30), Op::Read, Op::Bad, Op::Clone, Op::Reopen, Op::Sync], Some((4, Fault::Errno(1, libc::EIO, true))), &buf, &mut c);
        sysio::abandon();
    }
    Ok(())
}
fn memory(seq: &[usize], keep: usize, buf: &[u8], ctx: &mut Ctx) -> R<()> {
    let mut ids: Vec<u64> = Vec::with_capacity(seq.len());
    let mut kept: Vec<Blob<'static>> = Vec::with_capacity(64);
    let heap0 = alloc::balance().1;
    {
        let st = MemStore::default();
        let dy: DynBlobStore = Arc::new(st.clone());
        let mut sum = 0;
        for (i, n) in seq.iter().enumerate() {
            let id = ok("write", if i % 2 == 0 { st.write(&buf[..*n]) } else { dy.write(&buf[..*n]) })?;
            ids.push(u64::from_be_bytes(id[..].try_into().unwrap()));
            sum += *n as isize;
        }
        let limit = 2048 + sum + 300 * seq.len() as isize;
        for _ in 0..3 {
            for id in &ids {
                ok("read", st.read(&id.to_be_bytes()))?;
                ok("read", dy.read(&id.to_be_bytes()))?;
            }
            let _ = st.read(&[1; 8]);
            let _ = st.read(&[1; 3]);
            ctx.evals += 1;
            let h = alloc::balance().1 - heap0;
            ensure!(h <= limit, "{} blobs with {sum} bytes need {h} bytes of memory", seq.len());
        }
        for (i, id) in ids.iter().enumerate() {
            if keep >> (i % 8) & 1 == 1 && kept.len() < 60 {
                kept.push(ok("read", dy.read(&id.to_be_bytes()))?);
            }
        }
    }
    let h = alloc::balance().1 - heap0;
    let most: isize = kept.iter().map(|b| b.len() as isize + 256).sum();
    ensure!(h <= most, "the store is dropped and {} blobs are kept, but {h} bytes stay in use", kept.len());
    kept.clear();
    let h = alloc::balance().1 - heap0;
    ensure!(h == 0, "the store and all its blobs are dropped, but {h} bytes stay in use");
    ctx.traces += 1;
    ctx.transitions += seq.len() as u64;
    ctx.nontrivial += (seq.len() > 1) as u64;
    Ok(())
}
/// Trees and everything that comes from them, dropped in different orders.
fn trees(page: u64, order: usize, paged: bool, ctx: &mut Ctx) -> R<()> {
    let f = memfd();
    let file = id_of(&f);
    let heap0 = alloc::balance().1;
    {
        let mut st: Option<DynBlobStore> = Some(if paged { Arc::new(ok("open", PagedFileStore::new(f.try_clone().unwrap(), page))?) } else { Arc::new(MemStore::default()) });
        let mut t = RadixTree::default();
        for i in 0..12u8 {
            t.insert([b'k', i / 4, i], vec![i; if i % 3 == 0 { 150 } else { 3 }]);
        }
        t.insert(vec![b'l'; 140], "v");
        let mut a = Some(ok("attach", t.try_attached(st.clone().unwrap()))?);
        let id = ok("reattach", a.as_mut().unwrap().try_reattach())?;
        let mut b = Some(ok("load", RadixTree::try_load(st.clone().unwrap(), Some(&id)))?);
        ok("insert", b.as_mut().unwrap().try_insert([b'k', 1, 5, 9], "new"))?;
        let mut it = Some(b.as_ref().unwrap().try_iter());
        let mut entries = Some(it.as_mut().unwrap().by_ref().take(5).collect::<Vec<_>>());
        let mut vals = Some(a.as_ref().unwrap().try_values());
        vals.as_mut().unwrap().next();
        let mut got = Some(ok("get", a.as_ref().unwrap().try_get([b'k', 0, 0]))?);
        let mut blob = Some(match got.as_ref().unwrap() {
            Some(v) => Some(ok("load", v.load(st.as_ref().unwrap()))?),
            None => return viol("a value is missing"),
        });
        let mut sub = Some(ok("filter_prefix", b.as_ref().unwrap().try_filter_prefix("k", "x"))?);
        let mut k = order;
        for n in (1..=9).rev() {
            // the order in which things are dropped
            let mut i = k % n;
            k /= n;
            macro_rules! release {
                ($($x:ident),*) => { $( if $x.is_some() { if i == 0 { $x = None; } i = i.wrapping_sub(1); } )* };
            }
            release!(st, a, b, it, entries, vals, got, blob, sub);
            let _ = i;
            if n == 2 && (st.is_some() || a.is_some() || b.is_some() || it.is_some() || vals.is_some() || sub.is_some()) == false {
                let h = held(file, heap0);
                ensure!(h.fds == 1, "the store is dropped with everything that uses it, but the file stays open");
            }
        }
    }
    let h = held(file, heap0);
    ensure!(h == Held { heap: 0, maps: 0, mapped: 0, fds: 1 }, "everything is dropped, but {h:?} is held");
    ctx.traces += 1;
    ctx.evals += 2;
    ctx.transitions += 9;
    ctx.nontrivial += 1;
    Ok(())
}
pub fn p07(thorough: bool) -> Check {
    let mut units = vec![];
    for page in if thorough { vec![16u64, 24, 64, 1024, 4096, 8192] } else { vec![16u64, 64, 4096] } {
        for first in 0..3 {
            units.push(unit(format!("histories{page}-{first}"), move |ctx| {
                warm()?;
                let buf = vec![7u8; page as usize];
                let o = ops(page);
                all(&o, if ctx.thorough { 5 } else { 4 }, &mut |h| {
                    let h = [&[o[first]], h].concat();
                    guarded(|| show(page, &h), || case(page, &h, None, &buf, ctx).map(|_| ()))
                })
            }));
        }
    }
    // every point of failure
    for page in [16u64, 64, 4096] {
        for first in 0..3 {
            units.push(unit(format!("faults{page}-{first}"), move |ctx| {
                warm()?;
                let buf = vec![7u8; page as usize];
                let mut o = ops(page);
                o.push(Op::Sync);
                all(&o, if ctx.thorough { 4 } else { 2 }, &mut |h| {
                    let h = [&[o[first]], h].concat();
                    let at = h.len() - 1;
                    for tail in [vec![], vec![Op::W(3.min(page as usize - 8)), Op::Read], vec![Op::Reopen, Op::W(page as usize - 8)]] {
                        let h = [&h[..], &tail].concat();
                        for mk in [|k| Fault::Errno(k, libc::EIO, false), |k| Fault::Errno(k, libc::ENOSPC, true), |k| Fault::ShortErr(k, libc::EIO)] {
                            for k in 0..64 {
                                let fault = mk(k);
                                sysio::abandon();
                                let r = guarded(|| format!("{} with {fault:?} in operation {at}", show(page, &h)), || case(page, &h, Some((at, fault)), &buf, ctx));
                                sysio::abandon();
                                if r?.is_none() {
                                    break;
                                }
                            }
                        }
                    }
                    Ok(())
                })
            }));
        }
    }
    // growth: many blobs and pages
    for (page, n) in [(64u64, 400usize), (1024, 900), (4096, 1500), (8192, 1500)] {
        units.push(unit(format!("growth{page}"), move |ctx| {
            warm()?;
            let buf = vec![7u8; page as usize];
            let m = page as usize - 8;
            for len in [0, 8.min(m), m / 9, m / 3, m / 2, m] {
                let n = if len == m { n / 6 } else { n };
                for every in [0usize, 7, 100] {
                    for other in [Op::Read, Op::Reopen, Op::Bad] {
                        if every == 0 && other != Op::Read || every == 7 && other != Op::Reopen {
                            continue;
                        }
                        let mut h = vec![];
                        for i in 0..n {
                            h.push(Op::W(len));
                            if every > 0 && i % every == every - 1 {
                                h.push(other);
                            }
                        }
                        crate::tick();
                        guarded(|| format!("{n} blobs of {len} bytes, after every {every} {other:?}; {}", show(page, &h)), || case(page, &h, None, &buf, ctx).map(|_| ()))?;
                    }
                }
            }
            Ok(())
        }));
    }
    units.push(unit("memory", |ctx| {
        let buf = vec![7u8; 70000];
        let mut c = Ctx::default();
        memory(&[1, 2, 3], 1, &buf, &mut c)?;
        let ls = [0usize, 1, 90, 3000];
        for n in 0..=5u32 {
            for k in 0..4usize.pow(n) {
                crate::tick();
                let seq: Vec<usize> = (0..n).map(|i| ls[k / 4usize.pow(i) % 4]).collect();
                for keep in 0..1 << n.min(3) {
                    guarded(|| format!("memory store, blobs of {seq:?} bytes, {keep:b} kept"), || memory(&seq, keep, &buf, ctx))?;
                }
            }
        }
        for len in [0usize, 200, 66000] {
            guarded(|| format!("memory store, 500 blobs of {len} bytes"), || memory(&vec![len; 500], 5, &buf, ctx))?;
        }
        Ok(())
    }));
    for paged in [false, true] {
        for part in 0..4usize {
            units.push(unit(format!("trees-{paged}-{part}"), move |ctx| {
                warm()?;
                let mut c = Ctx::default();
                for o in 0..2 {
                    // first uses
                    let _ = trees(1024, o, paged, &mut c);
                }
                let n: usize = if ctx.thorough { 362880 } else { 9 * 8 * 7 * 6 };
                for order in (part..n).step_by(4) {
                    crate::tick();
                    for page in [512u64, 4096] {
                        guarded(|| format!("page size {page}, dropped in order {order}"), || trees(page, order, paged, ctx))?;
                    }
                }
                Ok(())
            }));
        }
    }
    Check {
        id: "P07",
        level: "model_checking",
        rule: "all histories of writes, reads of everything (also with invalid ids), keeping and dropping blobs, cloning and reopening; all points of failure of short histories; long runs of blobs of one size; all orders of dropping a store, trees, iterators, entries, values and blobs (first four choices in the quick tier). Measured at the end of each history: bytes on the heap, mapped parts of the file, open descriptors, after reading everything once and again, after dropping the store, and after dropping all blobs; a state is what is stored and what is kept; non-trivial: at least two blobs",
        bounds: format!("histories of {} operations over 9; faults in histories of {} operations; 1500 blobs; allowed: one mapping per complete page or kept blob; on the heap 4 KiB, three pages, 600 bytes per blob of one page and 300 bytes per page", if thorough { 6 } else { 5 }, if thorough { 5 } else { 3 }),
        assumptions: vec!["64 bit platform", "/proc is mounted"],
        units,
        quarantine: false,
    }
}

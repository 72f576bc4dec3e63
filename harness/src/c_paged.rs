//! P01 to P05: the in-memory store and the paged file store.
use crate::core::*;
use crate::stores::*;
use crate::sysio::{self, Eff, Fault};
use radixdb::store::{BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::collections::HashSet;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::Arc;

type Id = Vec<u8>;
/// id and data of every acknowledged blob, in order
type Acked = Vec<(Id, Vec<u8>)>;

/// What the bytes of the n-th blob are
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fill {
    /// different in every blob and at every position
    Count,
    /// zeros, like padding
    Zero,
    /// like trailing lengths
    Lens,
}
fn data(fill: Fill, n: usize, len: usize) -> Vec<u8> {
    match fill {
        Fill::Count => (0..len).map(|i| (n * 67 + i * 11 + i / 23 + 129) as u8).collect(),
        Fill::Zero => vec![0; len],
        Fill::Lens => {
            let w: [[u8; 4]; 6] = [[0, 0, 0, 1], [0xff; 4], [0, 0, 0, 4], [0x7f, 0xff, 0xff, 0xff], [0, 0, 0, 9], [0; 4]];
            (0..len).map(|i| w[(n + i / 4) % 6][(i + n / 6) % 4]).collect()
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// write a blob of this length
    W(usize),
    /// read all blobs, newest first, through a clone
    ReadAll,
    /// read the oldest blob and the newest one
    Ends,
    Reopen,
    Sync,
}
#[derive(Clone, Debug)]
pub struct Setup {
    pub page: u64,
    pub lens: Vec<usize>,
    pub fill: Fill,
}
fn open(f: &File, page: u64) -> anyhow::Result<PagedFileStore> {
    PagedFileStore::new(f.try_clone()?, page)
}
fn get(st: &PagedFileStore, id: &[u8]) -> Result<Vec<u8>, String> {
    match st.read(id) {
        Ok(b) => Ok(b.to_vec()),
        Err(e) => Err(format!("{e:?}")),
    }
}
fn expect(st: &PagedFileStore, id: &[u8], want: &[u8], what: &str) -> R<()> {
    match get(st, id) {
        Ok(b) if b == want => Ok(()),
        Ok(b) => viol(format!("{what}: read({}) returns {} instead of {}", show_id(id), show(&b), show(want))),
        Err(e) => viol(format!("{what}: read({}) fails: {e}", show_id(id))),
    }
}
fn show_id(id: &[u8]) -> String {
    match <[u8; 8]>::try_from(id) {
        Ok(x) => format!("{}", u64::from_be_bytes(x)),
        Err(_) => format!("{id:02x?}"),
    }
}
fn read_all(st: &PagedFileStore, acked: &Acked, what: &str) -> R<()> {
    for (id, d) in acked {
        expect(st, id, d, what)?;
    }
    Ok(())
}
fn last(st: &PagedFileStore, acked: &Acked, what: &str) -> R<()> {
    let l = st.last_id().map(|x| x.to_vec());
    let w = acked.last().map(|x| x.0.clone());
    ensure!(l == w, "{what}: last_id() is {:?} instead of {:?}", l.map(|x| show_id(&x)), w.map(|x| show_id(&x)));
    Ok(())
}
fn put(st: &PagedFileStore, d: &[u8], acked: &mut Acked) -> R<()> {
    match st.write(d) {
        Ok(id) => {
            ensure!(!acked.iter().any(|x| x.0 == id), "the id {} is returned twice", show_id(&id));
            acked.push((id, d.to_vec()));
            Ok(())
        }
        Err(e) => viol(format!("a write of {} bytes fails: {e:?}", d.len())),
    }
}
pub fn image(f: &File) -> Vec<u8> {
    let n = f.metadata().unwrap().len() as usize;
    let mut v = vec![0; n];
    f.read_exact_at(&mut v, 0).unwrap();
    v
}
pub fn hash(v: &[u8], extra: u64) -> (u64, u64) {
    let mut h = H128::new();
    // the header is mostly zero
    h.bytes(&(v.len() as u64).to_be_bytes());
    h.bytes(&extra.to_be_bytes());
    let n = v.len().min(64);
    h.bytes(&v[..n]);
    if v.len() > 4096 {
        h.bytes(&v[4096..]);
    }
    h.get()
}
pub fn file_of(img: &[u8]) -> File {
    let f = memfd();
    if !img.is_empty() {
        f.set_len(img.len() as u64).unwrap();
        f.write_all_at(&img[..img.len().min(64)], 0).unwrap();
        if img.len() > 4096 {
            f.write_all_at(&img[4096..], 4096).unwrap();
        }
        debug_assert!(img.iter().take(4096).skip(64).all(|x| *x == 0));
    }
    f
}
/// Run a history; with `judge` the last ids and results are checked on the way.
fn run(s: &Setup, ops: &[Op], f: &File, st: &mut PagedFileStore, acked: &mut Acked, failed: &mut Vec<Vec<u8>>) -> R<()> {
    for o in ops {
        match *o {
            Op::W(len) => {
                let d = data(s.fill, acked.len(), len);
                if len as u64 + 8 > s.page {
                    // may be refused; if not, it is a blob like any other
                    if let Ok(id) = st.write(&d) {
                        ensure!(!acked.iter().any(|x| x.0 == id), "the id {} is returned twice", show_id(&id));
                        acked.push((id, d));
                    }
                } else {
                    put(st, &d, acked)?;
                }
            }
            Op::ReadAll => {
                let c = st.clone();
                for (id, d) in acked.iter().rev() {
                    expect(&c, id, d, "through a clone")?;
                }
            }
            Op::Ends => {
                for x in acked.first().into_iter().chain(acked.last()) {
                    expect(st, &x.0, &x.1, "in the history")?;
                }
            }
            Op::Reopen => {
                // the old handle is gone before the new one opens the file
                *st = {
                    let dummy = memfd();
                    let d = open(&dummy, s.page);
                    drop(std::mem::replace(st, ok_("open", d)?));
                    ok_("reopen", open(f, s.page))?
                };
                if !failed.is_empty() {
                    reopened_after_failure(st, acked, &std::mem::take(failed))?;
                }
            }
            Op::Sync => ok_("sync", st.sync())?,
        }
        last(st, acked, "in the history")?;
    }
    Ok(())
}
/// a write that reported an error may be there after all
fn reopened_after_failure(st: &PagedFileStore, acked: &mut Acked, failed: &[Vec<u8>]) -> R<()> {
    let l = st.last_id().map(|x| x.to_vec());
    if l != acked.last().map(|x| x.0.clone()) {
        match l {
            Some(l) => {
                let got = get(st, &l);
                match failed.iter().find(|d| got.as_ref() == Ok(*d)) {
                    Some(d) => acked.push((l, d.clone())),
                    None => last(st, acked, "after a failed write and reopening")?,
                }
            }
            None => last(st, acked, "after a failed write and reopening")?,
        }
    }
    Ok(())
}
fn ok_<T>(what: &str, r: anyhow::Result<T>) -> R<T> {
    crate::eng_attach::ok(what, r)
}
/// all sequences of operations up to a length without useless repetitions
fn histories(ops: &[Op], max: usize, first: Option<Op>, mut f: impl FnMut(&[Op]) -> R<()>) -> R<()> {
    fn rec(ops: &[Op], max: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op]) -> R<()>) -> R<()> {
        if !cur.is_empty() {
            f(cur)?;
        }
        if cur.len() == max {
            return Ok(());
        }
        for &o in ops {
            if !matches!(o, Op::W(_)) && (cur.last() == Some(&o) || cur.is_empty() && o != Op::Reopen) {
                continue;
            }
            cur.push(o);
            rec(ops, max, cur, f)?;
            cur.pop();
        }
        Ok(())
    }
    let mut cur: Vec<Op> = first.into_iter().collect();
    rec(ops, max, &mut cur, &mut f)
}
/// interesting lengths for a page: limits of what fits, of what fits with another one, and small ones
fn lens(page: u64, n: usize) -> Vec<usize> {
    let m = page as usize - 8;
    let mut v: Vec<usize> = [0, m, m / 2, 1, m.saturating_sub(1), m.saturating_sub(4), m / 2 + 1, m.saturating_sub(8), 4, m / 3, 7, m.saturating_sub(5), m / 2 - m.min(4) / 4]
        .into_iter()
        .filter(|x| *x <= m)
        .collect();
    let mut seen = HashSet::new();
    v.retain(|x| seen.insert(*x));
    v.truncate(n);
    v.sort();
    v
}
fn setups(pages: &[u64], n: usize) -> Vec<Setup> {
    pages
        .iter()
        .flat_map(|&page| {
            let all = page <= 24;
            let lens = if all { (0..=page as usize - 8).collect() } else { lens(page, n) };
            [Fill::Count, Fill::Zero, Fill::Lens].into_iter().map(move |fill| Setup { page, lens: lens.clone(), fill })
        })
        .filter(|s| s.fill == Fill::Count || s.page <= 64 || s.fill == Fill::Zero && s.page == 1024)
        .collect()
}
fn name(s: &Setup) -> String {
    format!("page{}-{:?}", s.page, s.fill)
}
fn with_reads(s: &Setup) -> Vec<Op> {
    let mut v: Vec<Op> = s.lens.iter().map(|l| Op::W(*l)).collect();
    v.extend([Op::Reopen, Op::ReadAll, Op::Ends]);
    v
}
/// the same with blobs that are too large by a few bytes
fn with_large(s: &Setup) -> Vec<Op> {
    let p = s.page as usize;
    let over = if p <= 24 { vec![p - 7, p - 5, p - 4, p] } else { vec![p - 7, p - 4] };
    over.into_iter().map(Op::W).chain(with_reads(s)).collect()
}

// ---------------------------------------------------------------- P01

fn p01_case(s: &Setup, ops: &[Op], ctx: &mut Ctx, seen: &mut HashSet<(u64, u64)>) -> R<()> {
    let f = memfd();
    let mut st = ok_("open", open(&f, s.page))?;
    let mut acked = vec![];
    last(&st, &acked, "new file")?;
    run(s, ops, &f, &mut st, &mut acked, &mut vec![])?;
    // dynamic use of the same store
    let dy: DynBlobStore = Arc::new(st.clone());
    for (id, d) in acked.iter().step_by(2) {
        match dy.read(id) {
            Ok(b) if b.as_ref() == &d[..] => {}
            x => return viol(format!("through a DynBlobStore: read({}) returns {:?}", show_id(id), x)),
        }
    }
    read_all(&st, &acked, "at the end")?;
    read_all(&st, &acked, "at the end, again")?;
    last(&st, &acked, "at the end")?;
    drop((st, dy));
    for i in 0..2 {
        let st = ok_("reopen", open(&f, s.page))?;
        last(&st, &acked, "after reopening")?;
        if i == 0 {
            for (id, d) in acked.iter().rev() {
                expect(&st, id, d, "after reopening")?;
            }
        }
        read_all(&st, &acked, "after reopening")?;
    }
    if seen.insert(hash(&image(&f), 0)) {
        ctx.states += 1;
    }
    ctx.traces += 1;
    ctx.transitions += ops.len() as u64;
    ctx.evals += 5 * acked.len() as u64 + 2;
    ctx.nontrivial += (acked.len() >= 2) as u64;
    Ok(())
}
pub fn p01(thorough: bool) -> Check {
    let mut units = vec![];
    let pages: &[u64] = if thorough { &[8, 16, 24, 32, 40, 64, 128, 1024, 2048, 4096, 4104, 8192, 65536] } else { &[8, 16, 24, 32, 64, 1024, 4096, 4104, 8192] };
    for s in setups(pages, if thorough { 11 } else { 9 }) {
        for first in with_large(&s) {
            if matches!(first, Op::ReadAll | Op::Ends) {
                continue;
            }
            let s = s.clone();
            units.push(unit(format!("{}-{first:?}", name(&s)), move |ctx| {
                let ops = with_large(&s);
                let mut n = 4;
                if ctx.thorough && ops.len() < 18 {
                    n = 5;
                }
                let mut seen = HashSet::new();
                histories(&ops, n, Some(first), |h| {
                    if ctx.traces % 32 == 0 {
                        crate::tick();
                    }
                    if ctx.traces == 777 {
                        ctx.sample(|| format!("{h:?}"));
                    }
                    guarded(|| format!("page size {} history {h:?}", s.page), || p01_case(&s, h, ctx, &mut seen))
                })
            }));
        }
    }
    // few lengths, but long histories
    for page in [16u64, 32, 64, 1024, 4096] {
        let m = page as usize - 8;
        for (k, ls) in [vec![0, m], vec![m / 2 - 1, m / 2], vec![1, m - 1], vec![m / 3, m / 2 + 4.min(m / 2)], vec![m + 4, m / 2]].into_iter().enumerate() {
          // equal blobs as well
          for fill in [Fill::Count, Fill::Zero] {
            let ls = ls.clone();
            if fill == Fill::Zero && k % 2 == 0 {
                continue;
            }
            units.push(unit(format!("long{page}-{k}-{fill:?}"), move |ctx| {
                let s = Setup { page, lens: ls.clone(), fill };
                let ops: Vec<Op> = ls.iter().map(|l| Op::W(*l)).chain([Op::Reopen, Op::Ends]).collect();
                let mut seen = HashSet::new();
                histories(&ops, if ctx.thorough { 8 } else { 6 }, None, |h| {
                    if ctx.traces % 32 == 0 {
                        crate::tick();
                    }
                    guarded(|| format!("page size {page} history {h:?}"), || p01_case(&s, h, ctx, &mut seen))
                })
            }));
          }
        }
    }
    // many blobs of one size: every alignment of the blobs to the pages
    for page in [16u64, 24, 64, 128, 1024, 4096] {
        units.push(unit(format!("runs{page}"), move |ctx| {
            let m = page as usize - 8;
            let mut seen = HashSet::new();
            let step = (m / 96).max(1);
            for len in (0..=m).step_by(step).chain(m + 1..=m + 8) {
                for every in [0usize, 1, 5] {
                    crate::tick();
                    let s = Setup { page, lens: vec![], fill: Fill::Count };
                    let mut h = vec![];
                    let n = (3 * page as usize / (len + 4)).clamp(5, 60);
                    for i in 0..n {
                        h.push(Op::W(len));
                        if every > 0 && i % every == 0 {
                            h.push(if i % 2 == 0 { Op::Reopen } else { Op::ReadAll });
                        }
                    }
                    guarded(|| format!("page size {page}, {n} blobs of {len} bytes, reopened or read every {every}"), || p01_case(&s, &h, ctx, &mut seen))?;
                }
            }
            Ok(())
        }));
    }
    // large pages and blobs
    for page in [1u64 << 16, 1 << 17, 1 << 18, 1 << 20] {
        units.push(unit(format!("big{page}"), move |ctx| {
            let m = page as usize - 8;
            let mut ls: Vec<usize> = [32767, 32768, 65527, 65528, 65529, 65531, 65532, 65533, 65535, 65536, 65537, 131063, 131064, 131068, 131072, m / 2, m - 1, m].into_iter().filter(|l| *l <= m).collect();
            ls.sort();
            ls.dedup();
            let s = Setup { page, lens: ls.clone(), fill: Fill::Count };
            let mut seen = HashSet::new();
            for &a in &ls {
                for &b in &ls {
                    for h in [vec![Op::W(a), Op::W(b), Op::W(1)], vec![Op::W(3), Op::W(a), Op::Reopen, Op::W(b), Op::Ends]] {
                        crate::tick();
                        guarded(|| format!("page size {page} history {h:?}"), || p01_case(&s, &h, ctx, &mut seen))?;
                    }
                }
            }
            Ok(())
        }));
    }
    // blobs beyond 16, 20, 21 and 24 bits of length
    for (page, ls) in [
        (1u64 << 22, vec![(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, (1 << 22) - 8]),
        (1 << 25, vec![(1 << 23) + 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) - 8]),
    ] {
        for (k, &a) in ls.iter().enumerate() {
            let ls = ls.clone();
            units.push(unit(format!("huge{page}-{k}"), move |ctx| {
                let s = Setup { page, lens: ls.clone(), fill: Fill::Count };
                let mut seen = HashSet::new();
                let b = ls[(k + 1) % ls.len()];
                for h in [vec![Op::W(a), Op::W(1), Op::Reopen, Op::W(2)], vec![Op::W(3), Op::W(a), Op::W(b)]] {
                    crate::tick();
                    guarded(|| format!("page size {page} history {h:?}"), || p01_case(&s, &h, ctx, &mut seen))?;
                }
                Ok(())
            }));
        }
    }
    // many blobs and pages
    for (page, n) in [(16u64, 3000usize), (64, 3000), (1024, 3000), (4096, 3000)] {
        units.push(unit(format!("many{page}"), move |ctx| {
            let m = page as usize - 8;
            let s = Setup { page, lens: vec![], fill: Fill::Count };
            let mut seen = HashSet::new();
            for every in [0usize, 1000] {
                let mut h = vec![];
                for i in 0..n {
                    h.push(Op::W(i * 37 % (m.min(700) + 1)));
                    if every > 0 && i % every == 500 {
                        h.push(Op::Reopen);
                        h.push(Op::ReadAll);
                    }
                }
                crate::tick();
                guarded(|| format!("page size {page}, {n} blobs, reopened every {every}"), || p01_case(&s, &h, ctx, &mut seen))?;
            }
            Ok(())
        }));
    }
    units.extend(far_units(thorough));
    units.push(unit("mem", |ctx| {
        let ls = [0usize, 1, 5, 200];
        for n in 1..=5usize {
            for k in 0..ls.len().pow(n as u32) {
                crate::tick();
                let mut x = k;
                let seq: Vec<usize> = (0..n)
                    .map(|_| {
                        let r = ls[x % 4];
                        x /= 4;
                        r
                    })
                    .collect();
                for fill in [Fill::Count, Fill::Zero] {
                    guarded(|| format!("memory store, blobs of {seq:?} bytes ({fill:?})"), || mem_case(fill, &seq, ctx))?;
                }
            }
        }
        guarded(|| "memory store, 700 blobs".into(), || mem_case(Fill::Count, &vec![3; 700], ctx))?;
        for n in [16, 17, 20, 24] {
            for d in [-1, 0, 1] {
                crate::tick();
                let n = ((1isize << n) + d) as usize;
                guarded(|| format!("memory store, blobs of {n}, 1 and {n} bytes"), || mem_case(Fill::Count, &[n, 1, n], ctx))?;
            }
        }
        crate::tick();
        guarded(|| "memory store, 70000 blobs".into(), || mem_many(70000, ctx))
    }));
    Check {
        id: "P01",
        level: "model_checking",
        rule: "all histories of writes (all lengths up to the limit for small pages, lengths around the limits for larger ones; larger blobs may be refused), reads and reopenings; at the end every blob is read in the same handle, a clone, and after reopening twice; a state is a distinct file content; non-trivial: at least two blobs",
        bounds: format!(
            "page sizes {pages:?}; histories of up to {} operations over 11 to 24 operations, up to {} over 4 operations; runs of up to 60 blobs of every length; pages up to 2^25; 3000 blobs; files that already hold up to 2^40 bytes (as a hole)",
            if thorough { "5" } else { "4" },
            if thorough { 8 } else { 6 }
        ),
        assumptions: vec!["64 bit platform", "the file is only changed through one handle and its clones", "the page size is the same at each opening"],
        units,
        quarantine: false,
    }
}
fn mem_case(fill: Fill, seq: &[usize], ctx: &mut Ctx) -> R<()> {
    let st = MemStore::default();
    let c = st.clone();
    let dy: DynBlobStore = Arc::new(st.clone());
    let mut acked: Acked = vec![];
    for (i, &l) in seq.iter().enumerate() {
        let d = data(fill, i, l);
        let id = match i % 3 {
            0 => st.write(&d),
            1 => c.write(&d),
            _ => dy.write(&d),
        };
        let id = ok_("write", id)?;
        ensure!(!acked.iter().any(|x| x.0 == id), "the id {} is returned twice", show_id(&id));
        acked.push((id, d));
        ok_("sync", st.sync())?;
        if seq.len() > 50 && i % 100 != 0 {
            continue;
        }
        for (id, d) in &acked {
            for s in [&st, &c] {
                let b = ok_("read", s.read(id))?;
                ensure!(b.as_ref() == &d[..], "read({}) returns {} instead of {}", show_id(id), show(&b), show(d));
                ctx.evals += 1;
            }
        }
    }
    ctx.traces += 1;
    ctx.states += 1;
    ctx.transitions += seq.len() as u64;
    ctx.nontrivial += (seq.len() >= 2) as u64;
    Ok(())
}
/// more blobs than 16 bits can count
fn mem_many(n: usize, ctx: &mut Ctx) -> R<()> {
    let st = MemStore::default();
    let mut ids = vec![];
    for i in 0..n {
        ids.push(ok_("write", st.write(&be(i as u64 * 7)))?);
    }
    crate::tick();
    for (i, id) in ids.iter().enumerate() {
        let b = ok_("read", st.read(id))?;
        ensure!(b.as_ref() == &be(i as u64 * 7)[..], "read({}) returns {}", show_id(id), show(&b));
    }
    ensure!(st.count() == n, "the store counts {} of {n} blobs", st.count());
    ctx.traces += 1;
    ctx.evals += n as u64;
    Ok(())
}

// ---------------------------------------------------------------- P02, P03

pub fn apply(img: &mut Vec<u8>, e: &Eff) {
    match e {
        Eff::Write { off, data } => {
            let end = *off as usize + data.len();
            if img.len() < end {
                img.resize(end, 0);
            }
            img[*off as usize..end].copy_from_slice(data);
        }
        Eff::Len(n) => img.resize(*n as usize, 0),
        _ => {}
    }
}
pub fn is_header(e: &Eff) -> bool {
    matches!(e, Eff::Write{off, data} if *off == 16 && data.len() == 8)
}
/// where a torn write may be cut
pub fn cuts(n: usize) -> Vec<usize> {
    if n <= 12 {
        (1..n).collect()
    } else {
        let mut v = vec![1, 2, 3, 4, 5, 8, n / 2, n - 5, n - 4, n - 3, n - 2, n - 1];
        for b in [512usize, 1024, 2048, 4096] {
            v.extend([b - 1, b, b + 1]);
        }
        v.retain(|x| *x < n && *x > 0);
        v.sort();
        v.dedup();
        v
    }
}
/// what is written to a recovered store
fn continuations(page: u64) -> Vec<Vec<usize>> {
    let m = page as usize - 8;
    vec![vec![m, 0], vec![1.min(m), m, m / 2], vec![m / 2, m / 2, 0]]
}
struct Crash<'a> {
    s: &'a Setup,
    h: &'a [Op],
    /// power loss instead of process crash
    power: bool,
    seen: HashSet<(u64, u64)>,
    deep: bool,
}
impl Crash<'_> {
    /// open the image, judge, continue, and judge again
    fn recover(&mut self, img: &[u8], acked: &Acked, inflight: &[Vec<u8>], level: u32, ctx: &mut Ctx) -> R<()> {
        if !self.seen.insert(hash(img, acked.len() as u64 * 8 + inflight.len().min(3) as u64 * 2 + (level > 0) as u64)) {
            return Ok(());
        }
        ctx.states += 1;
        ctx.nontrivial += !acked.is_empty() as u64;
        for (ci, cont) in continuations(self.s.page).into_iter().enumerate() {
            if level > 0 && ci > 0 {
                break;
            }
            let f = file_of(img);
            let nested = level == 0 && ci < if self.deep { 3 } else { 1 };
            if nested {
                sysio::start(&f, Fault::None, true);
            }
            let mut all = acked.clone();
            let r = self.judge(&f, &mut all, inflight, &cont, nested, ctx);
            let log = if nested { sysio::stop().log } else { vec![] };
            r?;
            if nested {
                self.crashes(img, &log, &all, &[], 1, ctx)?;
            }
        }
        Ok(())
    }
    fn judge(&self, f: &File, all: &mut Acked, inflight: &[Vec<u8>], cont: &[usize], nested: bool, ctx: &mut Ctx) -> R<()> {
        let page = self.s.page;
        let st = ok_("opening the file after the crash", open(f, page))?;
        let n0 = all.len();
        let l = st.last_id().map(|x| x.to_vec());
        if self.power {
            if let Some(l) = &l {
                // what was not synced may be anything
                let _ = get(&st, l);
            }
        } else if l != all.last().map(|x| x.0.clone()) {
            match (&l, inflight) {
                (Some(l), [.., d]) => {
                    // the blob that was being written, or one whose write failed
                    let got = get(&st, l);
                    let d = inflight.iter().find(|d| got.as_ref() == Ok(*d)).unwrap_or(d);
                    expect(&st, l, d, "after the crash, last_id() is not that of the last acknowledged blob, and")?;
                    all.push((l.clone(), d.to_vec()));
                }
                _ => {
                    return viol(format!(
                        "after the crash last_id() is {:?}, but the last acknowledged blob is {:?}",
                        l.map(|x| show_id(&x)),
                        all.last().map(|x| show_id(&x.0))
                    ))
                }
            }
        }
        read_all(&st, all, "after the crash")?;
        for (i, len) in cont.iter().enumerate() {
            if nested {
                sysio::mark(all.len());
            }
            let d = data(Fill::Count, 100 + i, *len);
            put(&st, &d, all)?;
            last(&st, all, "after the crash and another write")?;
            if i % 2 == 0 {
                read_all(&st, all, "after the crash and another write")?;
            }
        }
        if nested {
            sysio::mark(all.len());
        }
        read_all(&st, all, "after the crash and further writes")?;
        drop(st);
        let st = ok_("reopening", open(f, page))?;
        last(&st, all, "after the crash, further writes and reopening")?;
        read_all(&st, all, "after the crash, further writes and reopening")?;
        ctx.evals += (2 * n0 + 3 * all.len()) as u64;
        Ok(())
    }
    /// all crash points of a log that starts at the image `base`; `all` are the blobs that it finally has.
    /// Marks in the log tell how many were acknowledged.
    /// Marks from 2000 on tell that the write of one of `failed` reported an error.
    fn crashes(&mut self, base: &[u8], log: &[Eff], all: &Acked, failed: &[Vec<u8>], level: u32, ctx: &mut Ctx) -> R<()> {
        let mut img = base.to_vec();
        let mut acked = match log.iter().find_map(|e| if let Eff::Mark(n) = e { Some(*n) } else { None }) {
            Some(n) => n,
            None => return Ok(()),
        };
        let mut writing = false;
        let mut failures: Vec<Vec<u8>> = vec![];
        for e in log {
            if let Eff::Mark(n) = e {
                if *n >= 2000 {
                    failures.push(failed[n - 2000].clone());
                    continue;
                }
                if *n > acked {
                    failures.clear();
                }
                acked = *n;
                writing = true;
                continue;
            }
            let known: Acked = all[..acked.min(all.len())].to_vec();
            let mut infl = failures.clone();
            if writing {
                infl.extend(all.get(acked).map(|x| x.1.clone()));
            }
            let at = |img: &[u8], this: &mut Self, ctx: &mut Ctx, what: String| -> R<()> {
                ctx.transitions += 1;
                this.recover(img, &known, &infl, level, ctx).map_err(|v| Viol { what: format!("crash {what}{}: {}", if level > 0 { " after an earlier crash" } else { "" }, v.what) })
            };
            at(&img, self, ctx, format!("before {}", show_eff(e)))?;
            if let Eff::Write { off, data } = e {
                if !is_header(e) {
                    for c in cuts(data.len()) {
                        let mut torn = img.clone();
                        apply(&mut torn, &Eff::Write { off: *off, data: data[..c].to_vec() });
                        at(&torn, self, ctx, format!("after {c} bytes of {}", show_eff(e)))?;
                    }
                }
            }
            apply(&mut img, e);
            at(&img, self, ctx, format!("after {}", show_eff(e)))?;
        }
        Ok(())
    }
    /// All power losses of a log. What can be lost at an effect is contained in what can be lost just before the next
    /// fsync, so that only these points are enumerated.
    fn losses(&mut self, log: &[Eff], all: &Acked, ctx: &mut Ctx) -> R<()> {
        let mut durable: Vec<u8> = vec![];
        let mut synced = 0;
        let mut pending: Vec<Eff> = vec![];
        let end = Eff::Mark(0);
        for (i, e) in log.iter().chain([&end, &Eff::Sync]).enumerate() {
            match e {
                // a completed sync of the store, with the number of blobs written before
                Eff::Mark(n) if *n >= 1000 => synced = n - 1000,
                Eff::Mark(_) => {}
                Eff::Sync => {
                    self.subsets(&durable, &pending, &all[..synced].to_vec(), ctx)
                        .map_err(|v| Viol { what: format!("power loss before effect {i}, {synced} blobs synced: {}", v.what) })?;
                    for p in pending.drain(..) {
                        apply(&mut durable, &p);
                    }
                }
                e => pending.extend(split(e)),
            }
        }
        Ok(())
    }
    fn subsets(&mut self, durable: &[u8], pending: &[Eff], known: &Acked, ctx: &mut Ctx) -> R<()> {
        after_loss(durable, pending, 14, ctx, &mut |img, ctx| self.recover(img, known, &[], 1, ctx))
    }
}
/// All files that there can be after a power loss: any subset of the pending effects, and any size that the file had.
pub fn after_loss(durable: &[u8], pending: &[Eff], limit: usize, ctx: &mut Ctx, judge: &mut dyn FnMut(&[u8], &mut Ctx) -> R<()>) -> R<()> {
    // sizes the file had since the sync: one of them is recorded
    let mut sizes = vec![durable.len()];
    let mut full = durable.to_vec();
    // effects whose loss makes a difference to the content; updates of the size in the header separately, because
    // only the last one that is kept matters
    let mut effs: Vec<&Eff> = vec![];
    let mut heads: Vec<&Eff> = vec![];
    let low = pending.iter().any(|e| !is_header(e) && matches!(e, Eff::Write{off, ..} if *off < 24));
    for e in pending {
        let n = full.len();
        match e {
            Eff::Write { off, data } => {
                let a = (*off as usize).min(n);
                let b = (*off as usize + data.len()).min(n);
                if !low && is_header(e) {
                    heads.push(e);
                } else if !data.iter().chain(&full[a..b]).all(|x| *x == 0) {
                    effs.push(e);
                }
            }
            Eff::Len(l) if (*l as usize) < n => effs.push(e),
            _ => {}
        }
        apply(&mut full, e);
        if !sizes.contains(&full.len()) {
            sizes.push(full.len());
        }
    }
    let n = effs.len();
    ctx.note_max("unsynced effects", pending.len() as u64);
    ctx.note_max("unsynced effects that are enumerated", (n + heads.len()) as u64);
    // beyond the limit the earlier effects are all there or all lost
    let fixed = n.saturating_sub(limit);
    if fixed > 0 {
        ctx.note("positions where not all subsets are enumerated", 1);
    }
    for m in 0..(1u64 << (n - fixed + (fixed > 0) as usize)) {
        let mask = if fixed == 0 { m } else { (m >> 1) << fixed | if m & 1 == 1 { (1 << fixed) - 1 } else { 0 } };
        let mut base = durable.to_vec();
        for (i, e) in effs.iter().enumerate() {
            if mask >> i & 1 == 0 {
                continue;
            }
            match e {
                // what was cut off is gone even if the file is extended again
                Eff::Len(l) => {
                    let l = (*l as usize).min(base.len());
                    base[l..].fill(0)
                }
                e => apply(&mut base, e),
            }
        }
        for h in 0..=heads.len() {
            let mut img = base.clone();
            if h > 0 {
                apply(&mut img, heads[h - 1]);
            }
            for &size in &sizes {
                img.resize(size.max(img.len()), 0);
                ctx.transitions += 1;
                judge(&img[..size], ctx)
                    .map_err(|v| Viol { what: format!("kept {mask:0n$b} of {n} content effects, header update {h} of {}, file size {size}: {}", heads.len(), v.what) })?;
            }
        }
    }
    Ok(())
}
/// a write is not atomic beyond a block of the device
pub fn split(e: &Eff) -> Vec<Eff> {
    match e {
        Eff::Write { off, data } if !is_header(e) => {
            let mut r = vec![];
            let mut o = *off;
            let mut d = &data[..];
            while !d.is_empty() {
                let n = ((4096 - o % 4096) as usize).min(d.len());
                r.push(Eff::Write { off: o, data: d[..n].to_vec() });
                o += n as u64;
                d = &d[n..];
            }
            r
        }
        _ => vec![e.clone()],
    }
}
pub fn show_eff(e: &Eff) -> String {
    match e {
        Eff::Write { off, data } => format!("write of {} bytes at {off}", data.len()),
        Eff::Len(n) => format!("set_len({n})"),
        Eff::Sync => "fsync".into(),
        Eff::Mark(_) => "the operation".into(),
    }
}
/// run the history with recording
fn recorded(s: &Setup, h: &[Op]) -> R<(Vec<Eff>, Acked)> {
    let f = memfd();
    sysio::start(&f, Fault::None, true);
    sysio::mark(0);
    let r = (|| {
        let mut st = ok_("open", open(&f, s.page))?;
        let mut acked = vec![];
        for (i, o) in h.iter().enumerate() {
            sysio::mark(acked.len());
            run(s, &h[i..i + 1], &f, &mut st, &mut acked, &mut vec![])?;
            if *o == Op::Sync {
                sysio::mark(1000 + acked.len());
            }
        }
        sysio::mark(acked.len());
        Ok(acked)
    })();
    let log = sysio::stop().log;
    Ok((log, r?))
}
fn p02_case(s: &Setup, h: &[Op], ctx: &mut Ctx, seen: &mut HashSet<(u64, u64)>) -> R<()> {
    let (log, all) = recorded(s, h)?;
    ctx.traces += 1;
    let log: Vec<Eff> = log.into_iter().filter(|e| !matches!(e, Eff::Sync) && !matches!(e, Eff::Mark(n) if *n >= 1000)).collect();
    let mut c = Crash { s, h, power: false, seen: std::mem::take(seen), deep: ctx.thorough };
    let _ = c.h;
    let r = c.crashes(&[], &log, &all, &[], 0, ctx);
    *seen = c.seen;
    r
}
/// Run the history with recording and with a fault in the operation `at`. The result: the effects, the acknowledged
/// blobs, the blobs whose write failed (at most one), and whether the fault was hit.
fn recorded_faulty(s: &Setup, h: &[Op], at: usize, fault: Fault) -> R<(Vec<Eff>, Acked, Vec<Vec<u8>>, bool)> {
    let f = memfd();
    sysio::start(&f, Fault::None, true);
    sysio::mark(0);
    let r = (|| {
        let mut st = ok_("open", open(&f, s.page))?;
        let (mut acked, mut failed, mut hit) = (vec![], vec![], false);
        for (i, o) in h.iter().enumerate() {
            if i == at {
                sysio::set_fault(fault);
            }
            sysio::mark(acked.len());
            match *o {
                Op::W(len) => {
                    let d = data(s.fill, acked.len() + failed.len(), len);
                    // in flight
                    failed.push(d.clone());
                    sysio::mark(2000 + failed.len() - 1);
                    match st.write(&d) {
                        Ok(id) => {
                            acked.push((id, d));
                            sysio::mark(acked.len());
                        }
                        Err(e) => ensure!(sysio::hit().is_some(), "write fails without a reason: {e:?}"),
                    }
                }
                Op::Sync => match st.sync() {
                    Ok(()) => sysio::mark(1000 + acked.len()),
                    Err(e) => ensure!(sysio::hit().is_some(), "sync fails without a reason: {e:?}"),
                },
                Op::Reopen => {
                    let dummy = memfd();
                    let tmp = ok_("open", open(&dummy, s.page))?;
                    drop(std::mem::replace(&mut st, tmp));
                    st = match open(&f, s.page) {
                        Ok(x) => x,
                        Err(e) => {
                            ensure!(sysio::hit().is_some(), "reopening fails without a reason: {e:?}");
                            hit = true;
                            sysio::set_fault(Fault::None);
                            ok_("reopening after the error has gone", open(&f, s.page))?
                        }
                    };
                    // what failed may be there now
                    let l = st.last_id().map(|x| x.to_vec());
                    if let (Some(l), true) = (&l, l != acked.last().map(|x: &(Id, Vec<u8>)| x.0.clone())) {
                        let got = get(&st, l);
                        if let Some(d) = failed.iter().find(|d| got.as_ref() == Ok(*d)) {
                            acked.push((l.clone(), d.clone()));
                            sysio::mark(acked.len());
                        }
                    }
                }
                _ => run(s, &h[i..i + 1], &f, &mut st, &mut acked, &mut vec![])?,
            }
            if i == at {
                hit |= sysio::hit().is_some();
                sysio::set_fault(Fault::None);
            }
        }
        sysio::mark(acked.len());
        Ok((acked, failed, hit))
    })();
    let log = if r.is_ok() {
        sysio::stop().log
    } else {
        sysio::abandon();
        vec![]
    };
    let (acked, failed, hit) = r?;
    Ok((log, acked, failed, hit))
}
/// a crash or a power loss in a history in which an operation on the file fails
fn faulty_case(s: &Setup, h: &[Op], power: bool, ctx: &mut Ctx, seen: &mut HashSet<(u64, u64)>) -> R<()> {
    for at in 0..h.len() {
        for kind in 0..3 {
            for k in 0..64 {
                crate::tick();
                let fault = match kind {
                    0 => Fault::Errno(k, libc::EIO, false),
                    1 => Fault::Errno(k, libc::ENOSPC, true),
                    _ => Fault::ShortErr(k, libc::ENOSPC),
                };
                let mut go = || -> R<bool> {
                    let (log, all, failed, hit) = recorded_faulty(s, h, at, fault)?;
                    ctx.traces += 1;
                    if !hit {
                        return Ok(false);
                    }
                    ctx.note("faults hit", 1);
                    let mut c = Crash { s, h, power, seen: std::mem::take(seen), deep: false };
                    let r = if power {
                        let log: Vec<Eff> = log.into_iter().filter(|e| !matches!(e, Eff::Mark(n) if *n >= 2000)).collect();
                        c.losses(&log, &all, ctx)
                    } else {
                        let log: Vec<Eff> = log.into_iter().filter(|e| !matches!(e, Eff::Sync) && !matches!(e, Eff::Mark(n) if (1000..2000).contains(n))).collect();
                        c.crashes(&[], &log, &all, &failed, 0, ctx)
                    };
                    *seen = c.seen;
                    r.map(|_| true)
                };
                let hit = guarded(|| format!("page size {} history {h:?} with {fault:?} in operation {at}", s.page), &mut go)?;
                // short transfers skip the other operations
                if !hit && (kind < 2 || k > 24) {
                    break;
                }
            }
        }
    }
    Ok(())
}
fn faulty_units(power: bool, thorough: bool) -> Vec<Unit> {
    let mut units = vec![];
    for page in [16u64, 64, 1024] {
        let m = page as usize - 8;
        let mut ops = vec![Op::W(m / 2), Op::W(m), Op::Reopen];
        if power {
            ops.push(Op::Sync);
        }
        for first in [Op::W(m / 2), Op::W(m)] {
            let ops = ops.clone();
            units.push(unit(format!("faulty{page}-{first:?}"), move |ctx| {
                let s = Setup { page, lens: vec![], fill: Fill::Count };
                let mut seen = HashSet::new();
                let n = if thorough { 5 } else if power { 4 } else { 3 };
                // also the same operation again, which may now have to do what failed before
                for c in 0..ops.len().pow(n as u32 - 1) {
                    let mut h = vec![first];
                    h.extend((0..n as u32 - 1).map(|i| ops[c / ops.len().pow(i) % ops.len()]));
                    if power && !h.contains(&Op::Sync) {
                        continue;
                    }
                    faulty_case(&s, &h, power, ctx, &mut seen)?;
                }
                Ok(())
            }));
        }
    }
    units
}
fn p03_case(s: &Setup, h: &[Op], ctx: &mut Ctx, seen: &mut HashSet<(u64, u64)>) -> R<()> {
    let (log, all) = recorded(s, h)?;
    ctx.traces += 1;
    let mut c = Crash { s, h, power: true, seen: std::mem::take(seen), deep: ctx.thorough };
    let r = c.losses(&log, &all, ctx);
    *seen = c.seen;
    r
}
fn crash_pages(thorough: bool) -> &'static [u64] {
    if thorough {
        &[8, 16, 24, 32, 64, 1024, 2048, 4096, 8192]
    } else {
        &[16, 24, 64, 1024, 4096, 8192]
    }
}
pub fn p02(thorough: bool) -> Check {
    let mut units = vec![];
    for mut s in setups(crash_pages(thorough), if thorough { 8 } else { 6 }) {
        if s.fill == Fill::Zero {
            continue;
        }
        if s.page == 24 {
            s.lens.retain(|x| [0, 1, 4, 7, 8, 11, 12, 15, 16].contains(x));
        }
        let mut firsts: Vec<Op> = s.lens.iter().map(|l| Op::W(*l)).collect();
        firsts.push(Op::Reopen);
        for first in firsts.clone() {
            let (s, ops) = (s.clone(), firsts.clone());
            units.push(unit(format!("{}-{first:?}", name(&s)), move |ctx| {
                let mut seen = HashSet::new();
                let n = if ctx.thorough { if s.page <= 64 { 4 } else { 3 } } else { 3 };
                histories(&ops, n, Some(first), |h| {
                    crate::tick();
                    if ctx.traces == 50 {
                        ctx.sample(|| format!("{h:?}"));
                    }
                    // prefixes are covered by longer histories
                    if h.len() < n {
                        return Ok(());
                    }
                    guarded(|| format!("page size {} history {h:?}", s.page), || p02_case(&s, h, ctx, &mut seen))
                })
            }));
        }
    }
    // longer histories with two lengths, so that several pages are closed
    for page in [16u64, 32, 64, 1024] {
        units.push(unit(format!("long{page}"), move |ctx| {
            let m = page as usize - 8;
            let s = Setup { page, lens: vec![], fill: Fill::Count };
            let mut seen = HashSet::new();
            let n = if ctx.thorough { 7 } else { 5 };
            histories(&[Op::W(m / 2), Op::W(m), Op::Reopen], n, None, |h| {
                crate::tick();
                if h.len() < n {
                    return Ok(());
                }
                guarded(|| format!("page size {page} history {h:?}"), || p02_case(&s, h, ctx, &mut seen))
            })
        }));
    }
    units.extend(faulty_units(false, thorough));
    Check {
        id: "P02",
        level: "fault_enumeration",
        rule: "all histories of writes and reopenings are run with a log of their file effects; the file after every prefix of the log, and with the next write cut at every byte (at selected places in writes above 12 bytes), is opened, judged, written to in several ways, judged, reopened and judged; in the first way all crash points of the recovery and of these writes are again explored; the same for all histories of 3 operations over 3 in which any one call on the file fails once or permanently or is short; distinct files are counted; non-trivial: at least one acknowledged blob",
        bounds: format!("page sizes {:?}; histories of {} operations (5 over 3 operations, thorough 7); at most two crashes", crash_pages(thorough), if thorough { "3 to 4" } else { "3" }),
        assumptions: vec!["64 bit platform", "the 8 byte update of the size in the header is atomic", "file effects are those of libc calls on the file"],
        units,
        quarantine: false,
    }
}
pub fn p03(thorough: bool) -> Check {
    let mut units = vec![];
    let pages: &[u64] = if thorough { &[16, 24, 64, 1024, 2048, 4096, 8192] } else { &[16, 64, 1024, 8192] };
    for mut s in setups(pages, if thorough { 6 } else { 5 }) {
        if s.fill != Fill::Count {
            continue;
        }
        if s.page <= 24 {
            let m = s.page as usize - 8;
            s.lens.retain(|x| [0, 1, m / 2, m - 1, m].contains(x));
        }
        let mut firsts: Vec<Op> = s.lens.iter().map(|l| Op::W(*l)).collect();
        firsts.push(Op::Reopen);
        firsts.push(Op::Sync);
        for first in firsts.clone() {
            let (s, ops) = (s.clone(), firsts.clone());
            if first == Op::Sync {
                continue;
            }
            units.push(unit(format!("{}-{first:?}", name(&s)), move |ctx| {
                let mut seen = HashSet::new();
                let n = if ctx.thorough && s.page <= 1024 { 5 } else { 4 };
                histories(&ops, n, Some(first), |h| {
                    crate::tick();
                    if h.len() < n || !h[..n - 1].contains(&Op::Sync) {
                        return Ok(());
                    }
                    ctx.sample(|| format!("{h:?}"));
                    guarded(|| format!("page size {} history {h:?}", s.page), || p03_case(&s, h, ctx, &mut seen))
                })
            }));
        }
    }
    for page in [16u64, 32, 64, 1024] {
        units.push(unit(format!("long{page}"), move |ctx| {
            let m = page as usize - 8;
            let s = Setup { page, lens: vec![], fill: Fill::Count };
            let mut seen = HashSet::new();
            let n = if ctx.thorough { 7 } else { 6 };
            histories(&[Op::W(m / 2), Op::Sync, Op::W(m)], n, None, |h| {
                crate::tick();
                if h.len() < n || !h[..n - 1].contains(&Op::Sync) {
                    return Ok(());
                }
                guarded(|| format!("page size {page} history {h:?}"), || p03_case(&s, h, ctx, &mut seen))
            })
        }));
    }
    units.extend(faulty_units(true, thorough));
    Check {
        id: "P03",
        level: "fault_enumeration",
        rule: "all histories of writes, syncs and reopenings are run with a log of their file effects; at every point of the log, every subset of the writes (split at 4096 byte blocks) since the last completed fsync, with every file size since then, gives a file, which is opened; all blobs written before the last completed sync are read, more are written, and all are read again, also after reopening; the same for all histories of 4 operations over 4 in which any one call on the file fails once or permanently or is short; distinct files are counted; non-trivial: at least one synced blob",
        bounds: format!("page sizes {pages:?}; histories of {} operations; every subset of the unsynced effects (see details)", if thorough { "4 to 7" } else { "4 to 6" }),
        assumptions: vec!["64 bit platform", "the 8 byte update of the size in the header is atomic", "fsync and fdatasync make all earlier effects durable", "the size of the file after power loss is one that it had"],
        units,
        quarantine: false,
    }
}

// ---------------------------------------------------------------- P04

fn p04_case(s: &Setup, h: &[Op], faults: &[(usize, Fault)], ctx: &mut Ctx) -> R<Vec<Option<sysio::Kind>>> {
    let f = memfd();
    let mut acked: Acked = vec![];
    // open is operation 0
    let fault_at = |i: usize| faults.iter().find(|x| x.0 == i).map(|x| x.1);
    sysio::start(&f, fault_at(0).unwrap_or(Fault::None), false);
    let r = (|| -> R<Vec<Option<sysio::Kind>>> {
        let mut hits = vec![];
        let st = open(&f, s.page);
        if fault_at(0).is_some() {
            hits.push(sysio::hit());
            sysio::set_fault(Fault::None);
        }
        let mut st = match st {
            Ok(st) => st,
            Err(e) if !matches!(hits.last(), Some(Some(_))) => return viol(format!("open fails: {e:?}")),
            Err(_) => ok_("opening again after the error has gone", open(&f, s.page))?,
        };
        let mut failed: Vec<Vec<u8>> = vec![];
        for (i, o) in h.iter().enumerate() {
            let Some(fault) = fault_at(i + 1) else {
                run(s, &[*o], &f, &mut st, &mut acked, &mut failed)?;
                continue;
            };
            let mut hit = None;
            let clear = |hit: &mut Option<sysio::Kind>| {
                *hit = sysio::hit();
                sysio::set_fault(Fault::None);
            };
            match *o {
                Op::W(len) => {
                    let d = data(s.fill, acked.len() + failed.len(), len);
                    sysio::set_fault(fault);
                    let r = st.write(&d);
                    clear(&mut hit);
                    match r {
                        Ok(id) => {
                            ensure!(!acked.iter().any(|x| x.0 == id), "the id {} is returned twice", show_id(&id));
                            acked.push((id, d));
                        }
                        Err(e) => {
                            ensure!(hit.is_some(), "write fails without a reason: {e:?}");
                            failed.push(d);
                        }
                    }
                }
                Op::ReadAll | Op::Ends => {
                    let order: Vec<usize> = if *o == Op::ReadAll { (0..acked.len()).rev().collect() } else { vec![0, acked.len().max(1) - 1] };
                    sysio::set_fault(fault);
                    let got: Vec<_> = order.iter().filter(|i| **i < acked.len()).map(|i| (*i, get(&st, &acked[*i].0))).collect();
                    clear(&mut hit);
                    for (i, r) in got {
                        match r {
                            Ok(b) => ensure!(b == acked[i].1, "with a failing file, read({}) returns {} instead of {}", show_id(&acked[i].0), show(&b), show(&acked[i].1)),
                            Err(e) => ensure!(hit.is_some(), "read fails without a reason: {e}"),
                        }
                    }
                }
                Op::Reopen => {
                    let dummy = memfd();
                    let tmp = ok_("open", open(&dummy, s.page))?;
                    drop(std::mem::replace(&mut st, tmp));
                    sysio::set_fault(fault);
                    let r = open(&f, s.page);
                    clear(&mut hit);
                    st = match r {
                        Ok(x) => x,
                        Err(e) => {
                            ensure!(hit.is_some(), "reopening fails without a reason: {e:?}");
                            ok_("reopening after the error has gone", open(&f, s.page))?
                        }
                    };
                    if !failed.is_empty() {
                        reopened_after_failure(&st, &mut acked, &std::mem::take(&mut failed))?;
                    }
                }
                Op::Sync => {
                    sysio::set_fault(fault);
                    let r = st.sync();
                    clear(&mut hit);
                    match r {
                        Err(e) => ensure!(hit.is_some(), "sync fails without a reason: {e:?}"),
                        Ok(()) => ensure!(hit != Some(sysio::Kind::Sync) || matches!(fault, Fault::Intr(_)), "sync reports success although the fsync failed"),
                    }
                }
            }
            hits.push(hit);
            // in the same handle, before and after further writes
            last(&st, &acked, "after the failure")?;
            read_all(&st, &acked, "after the failure")?;
            // what a reopened store may report
            if i + 1 == h.len() {
                let copy = file_of(&image(&f));
                let re = ok_("reopening after the failure", open(&copy, s.page))?;
                read_all(&re, &acked, "after the failure and reopening")?;
                let mut more = acked.clone();
                if !failed.is_empty() {
                    reopened_after_failure(&re, &mut more, &failed)?;
                }
                last(&re, &more, "after the failure and reopening")?;
                for len in [s.page as usize - 8, 0, (s.page as usize - 8) / 2] {
                    put(&re, &data(Fill::Count, 50 + len, len), &mut more)?;
                }
                read_all(&re, &more, "after the failure, reopening and further writes")?;
            }
        }
        for len in [1.min(s.page as usize - 8), s.page as usize - 8, (s.page as usize - 8) / 2, 0] {
            put(&st, &data(Fill::Count, 70 + len, len), &mut acked)?;
            last(&st, &acked, "after the failure and further writes")?;
        }
        read_all(&st, &acked, "after the failure and further writes")?;
        drop(st);
        let st = ok_("reopening", open(&f, s.page))?;
        last(&st, &acked, "after the failure, further writes and reopening")?;
        read_all(&st, &acked, "after the failure, further writes and reopening")?;
        ctx.evals += 3 * acked.len() as u64;
        Ok(hits)
    })();
    if r.is_ok() {
        sysio::stop();
    } else {
        sysio::abandon();
    }
    r
}
/// all faults in the given operation of a history
fn p04_op(s: &Setup, h: &[Op], at: usize, ctx: &mut Ctx) -> R<()> {
    let kinds: Vec<fn(u64) -> Fault> = vec![
        |k| Fault::Errno(k, libc::EIO, false),
        |k| Fault::Errno(k, libc::ENOSPC, true),
        |k| Fault::Short(k),
        |k| Fault::ShortErr(k, libc::ENOSPC),
        |k| Fault::Trickle(k),
        |k| Fault::Intr(k),
    ];
    for (ki, mk) in kinds.iter().enumerate() {
        // the operation makes at most so many calls: stop after a few that were not hit
        let mut misses = 0;
        for k in 0..4000u64 {
            ctx.traces += 1;
            let fault = mk(k);
            let hit = guarded(|| format!("page size {} history {h:?} with {fault:?} in operation {at}", s.page), || p04_case(s, h, &[(at, fault)], ctx))
                .inspect_err(|_| sysio::abandon())?;
            match hit.first().copied().flatten() {
                Some(_) => {
                    misses = 0;
                    ctx.transitions += 1;
                    ctx.nontrivial += 1;
                }
                None => {
                    misses += 1;
                    // faults that only concern reads and writes can skip some calls
                    if misses > if ki < 2 { 0 } else { 6 } {
                        break;
                    }
                }
            }
        }
    }
    Ok(())
}
/// one fault in each of two operations of a history
fn p04_two(s: &Setup, h: &[Op], at: [usize; 2], ctx: &mut Ctx) -> R<()> {
    let kinds: [fn(u64) -> Fault; 3] = [|k| Fault::Errno(k, libc::EIO, false), |k| Fault::Errno(k, libc::ENOSPC, true), |k| Fault::ShortErr(k, libc::ENOSPC)];
    for (k1, first) in kinds.iter().enumerate() {
        let mut missed1 = 0;
        for n1 in 0..200 {
            let mut hit1 = false;
            for (k2, second) in kinds.iter().enumerate() {
                let mut missed2 = 0;
                for n2 in 0..200 {
                    ctx.traces += 1;
                    let fs = [(at[0], first(n1)), (at[1], second(n2))];
                    let hits = guarded(|| format!("page size {} history {h:?} with the faults {fs:?}", s.page), || p04_case(s, h, &fs, ctx)).inspect_err(|_| sysio::abandon())?;
                    if hits[0].is_none() {
                        break;
                    }
                    hit1 = true;
                    if hits[1].is_some() {
                        missed2 = 0;
                        ctx.transitions += 2;
                        ctx.nontrivial += 1;
                    } else {
                        missed2 += 1;
                        if missed2 > if k2 < 2 { 0 } else { 4 } {
                            break;
                        }
                    }
                }
                if !hit1 {
                    break;
                }
            }
            missed1 = if hit1 { 0 } else { missed1 + 1 };
            if missed1 > if k1 < 2 { 0 } else { 4 } {
                break;
            }
        }
    }
    Ok(())
}
pub fn p04(thorough: bool) -> Check {
    let mut units = vec![];
    let pages: &[u64] = if thorough { &[16, 24, 32, 64, 1024, 2048, 4096] } else { &[16, 64, 2048] };
    for mut s in setups(pages, if thorough { 7 } else { 5 }) {
        if s.fill != Fill::Count {
            continue;
        }
        let m = s.page as usize - 8;
        if s.page <= 24 {
            s.lens.retain(|x| [0, 1, m / 2, m].contains(x));
        }
        let mut ops: Vec<Op> = s.lens.iter().map(|l| Op::W(*l)).collect();
        ops.extend([Op::Reopen, Op::ReadAll, Op::Ends, Op::Sync]);
        for first in ops.clone() {
            if matches!(first, Op::ReadAll | Op::Ends | Op::Sync) {
                continue;
            }
            let (s, ops) = (s.clone(), ops.clone());
            units.push(unit(format!("{}-{first:?}", name(&s)), move |ctx| {
                let n = if ctx.thorough && s.page <= 64 { 4 } else { 3 };
                histories(&ops, n, Some(first), |h| {
                    crate::tick();
                    // the last operation is faulty; the others are covered by shorter histories
                    if h.len() == 1 {
                        p04_op(&s, h, 0, ctx)?;
                    }
                    ctx.states += 1;
                    if ctx.states == 20 {
                        ctx.sample(|| format!("{h:?} with each fault in the last operation"));
                    }
                    p04_op(&s, h, h.len(), ctx)?;
                    // the failing operation is followed by others
                    if h.len() == 3 && matches!(h[1], Op::W(_)) {
                        p04_op(&s, h, 2, ctx)?;
                    }
                    Ok(())
                })
            }));
        }
    }
    for page in [16u64, 64, 1024] {
        let m = page as usize - 8;
        let ops = vec![Op::W(m / 2), Op::W(m), Op::Reopen, Op::Sync, Op::ReadAll];
        for first in [Op::W(m / 2), Op::W(m)] {
            for second in ops.clone() {
                let ops = ops.clone();
                units.push(unit(format!("two-faults{page}-{first:?}-{second:?}"), move |ctx| {
                    let s = Setup { page, lens: vec![], fill: Fill::Count };
                    for &third in &ops {
                        let h = [first, second, third];
                        crate::tick();
                        ctx.states += 1;
                        for at in [[1, 2], [1, 3], [2, 3]] {
                            p04_two(&s, &h, at, ctx)?;
                        }
                        if ctx.thorough {
                            for &fourth in &ops {
                                let h = [first, second, third, fourth];
                                for at in [[1, 4], [2, 4], [3, 4], [2, 3]] {
                                    p04_two(&s, &h, at, ctx)?;
                                }
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    Check {
        id: "P04",
        level: "fault_enumeration",
        rule: "all histories; the last (or second of three) operation is performed with each of its file operations failing once, failing from then on, transferring half, half and then failing, transferring single bytes, or interrupted; then all acknowledged blobs are read in the same handle and a reopened copy, more blobs are written over page boundaries, and all are read again, also after reopening; non-trivial: the fault took effect",
        bounds: format!("page sizes {pages:?}; histories of up to {} operations; one fault per history (or a permanent one during one operation), or one in each of two operations", if thorough { 4 } else { 3 }),
        assumptions: vec!["64 bit platform", "faults are those of libc calls on the file"],
        units,
        quarantine: false,
    }
}

// ---------------------------------------------------------------- P05

fn be(x: u64) -> Vec<u8> {
    x.to_be_bytes().to_vec()
}
fn bad_ids(st: &PagedFileStore, end: u64, page: u64, acked: &Acked, ctx: &mut Ctx) -> R<()> {
    let mut offs: Vec<u64> = (0..end + 2 * page + 8).collect();
    if offs.len() > 3000 {
        offs.retain(|o| o % page < 24 || o % page > page - 24 || *o > end.saturating_sub(80) && *o < end + 80 || o % 61 == 0);
    }
    for b in [1u64 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, u64::MAX - 4096, u64::MAX - page] {
        for d in 0..6 {
            offs.push(b.wrapping_sub(d));
            offs.push(b.wrapping_add(d));
        }
    }
    offs.extend((0..20).map(|d| u64::MAX - d));
    offs.extend([1u64, 3, 7, 8, 9, 100].iter().map(|k| (u64::MAX / page).saturating_sub(*k) * page + 3));
    let limit = (end + 2 * page + 4096) as usize;
    let one = |id: &[u8], ctx: &mut Ctx| -> R<()> {
        ctx.evals += 1;
        match catch(|| st.read(id).map(|b| b.iter().fold(b.len(), |a, x| a ^ (*x as usize) << 32) & 0xffff_ffff)) {
            Err(p) => viol(format!("read({}) panics: {p}", show_id(id))),
            Ok(Ok(n)) => {
                ensure!(n <= limit, "read({}) returns {n} bytes", show_id(id));
                Ok(())
            }
            Ok(Err(_)) => Ok(()),
        }
    };
    for o in &offs {
        let id = be(*o);
        one(&id, ctx)?;
        ctx.nontrivial += !acked.iter().any(|x| x.0 == id) as u64;
    }
    // other lengths, with all first bytes
    for b in 0..=255u8 {
        one(&[b], ctx)?;
        one(&[b; 7], ctx)?;
        one(&[0, 0, 0, 0, 0, 0, 0, 0, b], ctx)?;
    }
    one(&[], ctx)?;
    for n in [2usize, 3, 4, 5, 6, 16, 300] {
        for c in [0u8, 1, 4, 0x7f, 0x80, 0xff] {
            one(&vec![c; n], ctx)?;
        }
    }
    // valid ids with other bits set
    for (v, _) in acked {
        for bit in 0..64 {
            let mut id = v.clone();
            id[7 - bit / 8] ^= 1 << (bit % 8);
            match catch(|| st.read(&id).map(|b| b.len())) {
                Err(p) => return viol(format!("read({}) panics: {p}", show_id(&id))),
                // beyond the end of the file, there is nothing to return
                Ok(Ok(n)) => ensure!(u64::from_be_bytes(id[..].try_into().unwrap()) <= end, "read({}) returns {n} bytes, although the file has only {end}", show_id(&id)),
                Ok(Err(_)) => {}
            }
            ctx.evals += 1;
        }
    }
    if let Some((id, _)) = acked.last() {
        for n in 0..8 {
            one(&id[..n], ctx)?;
            one(&id[8 - n..], ctx)?;
        }
        one(&[&id[..], &[0]].concat(), ctx)?;
        one(&[&[0], &id[..]].concat(), ctx)?;
    }
    Ok(())
}
fn p05_case(s: &Setup, h: &[Op], big: Option<usize>, ctx: &mut Ctx) -> R<()> {
    let f = memfd();
    let mut st = ok_("open", open(&f, s.page))?;
    let mut acked = vec![];
    run(s, h, &f, &mut st, &mut acked, &mut vec![])?;
    let end = f.metadata().unwrap().len() - 4096;
    match big {
        None => {
            bad_ids(&st, end, s.page, &acked, ctx)?;
            last(&st, &acked, "after reading invalid ids")?;
        }
        Some(n) => {
            let d = vec![0x5a; n];
            ctx.evals += 1;
            ctx.nontrivial += 1;
            match catch(|| st.write(&d)) {
                Err(p) => return viol(format!("writing {n} bytes panics: {p}")),
                Ok(Ok(id)) => {
                    ensure!(n + 4 <= s.page as usize, "a blob of {n} bytes is accepted");
                    acked.push((id, d));
                }
                Ok(Err(_)) => ensure!(n > s.page as usize - 8, "a blob of {n} bytes is rejected"),
            }
            last(&st, &acked, "after writing a large blob")?;
        }
    }
    read_all(&st, &acked, "afterwards")?;
    for len in [1.min(s.page as usize - 8), s.page as usize - 8, (s.page as usize - 8) / 2] {
        put(&st, &data(Fill::Count, 70 + len, len), &mut acked)?;
        last(&st, &acked, "afterwards, with further writes")?;
    }
    read_all(&st, &acked, "afterwards, with further writes")?;
    drop(st);
    let st = ok_("reopening", open(&f, s.page))?;
    last(&st, &acked, "afterwards, reopened")?;
    read_all(&st, &acked, "afterwards, reopened")?;
    ctx.traces += 1;
    ctx.states += 1;
    Ok(())
}
pub fn p05(thorough: bool) -> Check {
    let mut units = vec![];
    let pages: &[u64] = if thorough { &[8, 16, 24, 32, 64, 128, 1024, 4096, 8192] } else { &[8, 16, 24, 64, 1024, 4096] };
    for mut s in setups(pages, if thorough { 7 } else { 5 }) {
        let m = s.page as usize - 8;
        if s.page <= 24 {
            s.lens.retain(|x| [0, 1, m / 2, m.saturating_sub(1), m].contains(x));
        }
        let mut ops: Vec<Op> = s.lens.iter().map(|l| Op::W(*l)).collect();
        ops.push(Op::Reopen);
        if thorough {
            ops.push(Op::ReadAll);
        }
        for first in ops.clone() {
            if first == Op::ReadAll {
                continue;
            }
            let (s, ops) = (s.clone(), ops.clone());
            units.push(unit(format!("{}-{first:?}", name(&s)), move |ctx| {
                let n = if ctx.thorough && s.page <= 64 { 4 } else { 3 };
                histories(&ops, n, Some(first), |h| {
                    crate::tick();
                    let what = |x: &str| format!("page size {} history {h:?} {x}", s.page);
                    guarded(|| what("then reading invalid ids"), || p05_case(&s, h, None, ctx))?;
                    let p = s.page as usize;
                    let mut sizes: Vec<usize> = (p - 8..=p + 9).collect();
                    sizes.extend([2 * p - 5, 2 * p - 4, 2 * p, 3 * p + 1, 65536 + p]);
                    if h.len() == 1 {
                        sizes.push(1 << 20);
                    }
                    for n in sizes {
                        guarded(|| what(&format!("then writing {n} bytes")), || p05_case(&s, h, Some(n), ctx))?;
                    }
                    Ok(())
                })
            }));
        }
    }
    units.push(unit("empty-store", |ctx| {
        for page in [8u64, 16, 64, 1024, 4096] {
            let f = memfd();
            let st = ok_("open", open(&f, page))?;
            guarded(|| "new store".into(), || bad_ids(&st, 0, page, &vec![], ctx))?;
            let mut a = vec![];
            put(&st, b"", &mut a)?;
            read_all(&st, &a, "new store after invalid reads")?;
        }
        Ok(())
    }));
    units.push(unit("mem", |ctx| {
        for n in 0..4usize {
            let st = MemStore::default();
            let mut ids = vec![];
            for i in 0..n {
                ids.push(ok_("write", st.write(&[i as u8; 3]))?);
            }
            let mut cand: Vec<Vec<u8>> = (0..300u64).map(be).collect();
            cand.extend([1u64 << 32, 1 << 63, u64::MAX, u64::MAX - 1].map(be));
            for id in &ids {
                // another bit or byte
                for bit in 0..id.len() * 8 {
                    let mut x = id.clone();
                    x[bit / 8] ^= 1 << (bit % 8);
                    cand.push(x);
                }
                for i in 0..id.len() {
                    for b in [0xff, 0x7f, 0x80] {
                        let mut x = id.clone();
                        x[i] = b;
                        cand.push(x);
                    }
                }
                for k in 1..id.len() {
                    cand.push(id[k..].to_vec());
                    cand.push(id[..k].to_vec());
                }
                cand.push([&id[..], &[0]].concat());
                cand.push([&[0], &id[..]].concat());
            }
            for len in 0..=9usize {
                for b in 0..=255u8 {
                    cand.push(vec![b; len]);
                    let mut x = vec![0; len];
                    if let Some(l) = x.last_mut() {
                        *l = b;
                    }
                    cand.push(x);
                }
            }
            for id in cand {
                crate::tick();
                let r = catch(|| st.read(&id).map(|x| x.to_vec()));
                ctx.evals += 1;
                match (r, ids.iter().position(|x| *x == id)) {
                    (Err(p), _) => return viol(format!("memory store: read({id:02x?}) panics: {p}")),
                    (Ok(Ok(x)), Some(i)) => ensure!(x == [i as u8; 3], "memory store: read({id:02x?}) returns {x:?}"),
                    (Ok(Err(e)), Some(_)) => return viol(format!("memory store: read({id:02x?}) fails: {e:?}")),
                    (Ok(Ok(x)), None) => return viol(format!("memory store: read({id:02x?}) of an id that was never returned gives {x:?}")),
                    (Ok(Err(_)), None) => ctx.nontrivial += 1,
                }
            }
            ctx.traces += 1;
            for (i, id) in ids.iter().enumerate() {
                ensure!(ok_("read", st.read(id))?.as_ref() == [i as u8; 3], "memory store: a blob changed");
            }
        }
        Ok(())
    }));
    Check {
        id: "P05",
        level: "exploration",
        rule: "in the stores reached by all short histories: reads of all offsets up to two pages beyond the end, of offsets around powers of two and the largest number, and of ids of other lengths; writes of all lengths around the limit and far above; afterwards all blobs, further writes and the reopened file are judged; non-trivial: ids that were never returned and blobs that are too large",
        bounds: format!("page sizes {pages:?}; histories of up to {} writes and reopenings; contents that are zero, counting, or look like lengths", if thorough { 4 } else { 3 }),
        assumptions: vec!["64 bit platform"],
        units,
        quarantine: false,
    }
}

// ---------------------------------------------------------------- P06

/// the layout, written down once more: header of 4096 bytes with the committed size as 8 big endian bytes at offset
/// 16; blobs followed by their length as 4 big endian bytes; a blob and its length lie in one page
struct Layout {
    f: File,
    page: u64,
    end: u64,
    acked: Acked,
}
impl Layout {
    fn new(page: u64, start: u64) -> Self {
        let f = memfd();
        f.set_len(4096 + start).unwrap();
        let l = Layout { f, page, end: start, acked: vec![] };
        l.f.write_all_at(&start.to_be_bytes(), 16).unwrap();
        l
    }
    fn add(&mut self, d: &[u8]) {
        let n = d.len() as u64 + 4;
        if (self.end + n) / self.page != self.end / self.page {
            // the rest of the page stays empty
            self.end = self.end.next_multiple_of(self.page);
            if (self.end + n) / self.page != self.end / self.page {
                panic!("harness: a blob of {} bytes in pages of {}", d.len(), self.page);
            }
        }
        self.f.write_all_at(d, 4096 + self.end).unwrap();
        self.end += n;
        self.f.write_all_at(&(d.len() as u32).to_be_bytes(), 4096 + self.end - 4).unwrap();
        self.f.write_all_at(&self.end.to_be_bytes(), 16).unwrap();
        self.acked.push((self.end.to_be_bytes().to_vec(), d.to_vec()));
    }
}
/// what the file holds, without the store
fn check_file(f: &File, page: u64, acked: &Acked, start: u64) -> R<()> {
    let len = f.metadata().unwrap().len();
    ensure!(len >= 4096, "the file has only {len} bytes");
    let mut h = [0; 8];
    f.read_exact_at(&mut h, 16).unwrap();
    let size = u64::from_be_bytes(h);
    let want = acked.last().map(|x| u64::from_be_bytes(x.0[..].try_into().unwrap_or([0xff; 8]))).unwrap_or(start);
    ensure!(size == want, "the committed size in the header is {size} instead of {want}");
    ensure!(len >= 4096 + size, "the file has {len} bytes but the header says {size}");
    let mut end = start;
    for (id, d) in acked {
        let id: [u8; 8] = match id[..].try_into() {
            Ok(x) => x,
            Err(_) => return viol(format!("the id {id:02x?} does not have 8 bytes")),
        };
        let id = u64::from_be_bytes(id);
        let n = d.len() as u64 + 4;
        ensure!(id >= end + n && id <= size, "the blob of {} bytes with the id {id} overlaps the one that ends at {end}", d.len());
        ensure!((id - n) / page == (id - 1) / page, "the blob of {} bytes with the id {id} crosses a page boundary", d.len());
        let mut b = vec![0; n as usize];
        f.read_exact_at(&mut b, 4096 + id - n).unwrap();
        ensure!(b[..d.len()] == d[..], "the file holds {} before the id {id} instead of {}", show(&b[..d.len()]), show(d));
        ensure!(b[d.len()..] == (d.len() as u32).to_be_bytes(), "the length stored before the id {id} is {} instead of {}", show(&b[d.len()..]), d.len());
        end = id;
    }
    Ok(())
}
fn p06_case(s: &Setup, ops: &[Op], ctx: &mut Ctx, seen: &mut HashSet<(u64, u64)>) -> R<()> {
    // what the store writes
    let f = memfd();
    let mut st = ok_("open", open(&f, s.page))?;
    let mut acked = vec![];
    for i in 0..ops.len() {
        run(s, &ops[i..i + 1], &f, &mut st, &mut acked, &mut vec![])?;
        check_file(&f, s.page, &acked, 0)?;
    }
    ok_("sync", st.sync())?;
    drop(st);
    check_file(&f, s.page, &acked, 0)?;
    // what another program writes
    let mut l = Layout::new(s.page, 0);
    let ds: Vec<Vec<u8>> = acked.iter().map(|x| x.1.clone()).filter(|d| d.len() as u64 + 8 <= s.page).collect();
    for d in &ds {
        l.add(d);
    }
    check_file(&l.f, s.page, &l.acked, 0)?;
    read_foreign(s, l, ctx)?;
    if seen.insert(hash(&image(&f), 0)) {
        ctx.states += 1;
    }
    ctx.traces += 1;
    ctx.transitions += ops.len() as u64;
    ctx.evals += 4 * acked.len() as u64 + 3;
    ctx.nontrivial += (acked.len() >= 2) as u64;
    Ok(())
}
fn read_foreign(s: &Setup, l: Layout, ctx: &mut Ctx) -> R<()> {
    let start = if l.acked.is_empty() { l.end } else { 0 };
    let mut all = l.acked.clone();
    {
        let st = ok_("opening a file in the documented layout", open(&l.f, s.page))?;
        if !all.is_empty() {
            last(&st, &all, "file in the documented layout")?;
        }
        read_all(&st, &all, "file in the documented layout")?;
        for n in continuations(s.page).concat() {
            put(&st, &data(s.fill, all.len(), n), &mut all)?;
        }
        read_all(&st, &all, "file in the documented layout, after writing more")?;
    }
    check_file(&l.f, s.page, &all, start)?;
    let st = ok_("reopen", open(&l.f, s.page))?;
    last(&st, &all, "file in the documented layout, after reopening")?;
    read_all(&st, &all, "file in the documented layout, after reopening")?;
    ctx.evals += 4 * all.len() as u64;
    Ok(())
}
/// a store that already holds so much that offsets and page numbers are near the limits of smaller integers; the
/// earlier content is a hole in the file
fn far_case(s: &Setup, start: u64, before: &[usize], ops: &[Op], ctx: &mut Ctx, seen: &mut HashSet<(u64, u64)>) -> R<()> {
    let mut l = Layout::new(s.page, 0);
    let m = s.page as usize - 8;
    for (i, n) in [m, m / 2, m.min(1)].iter().enumerate() {
        l.add(&data(s.fill, i + 90, *n));
    }
    // the hole
    l.end = start;
    l.f.set_len(4096 + start).unwrap();
    for (i, n) in before.iter().enumerate() {
        l.add(&data(s.fill, i + 3, *n));
    }
    let mut acked = l.acked.clone();
    let f = l.f;
    let mut st = ok_("open", open(&f, s.page))?;
    last(&st, &acked, "far file")?;
    read_all(&st, &acked, "far file")?;
    run(s, ops, &f, &mut st, &mut acked, &mut vec![])?;
    read_all(&st, &acked, "far file, at the end")?;
    drop(st);
    check_file(&f, s.page, &acked, 0)?;
    let st = ok_("reopen", open(&f, s.page))?;
    last(&st, &acked, "far file, after reopening")?;
    for (id, d) in acked.iter().rev() {
        expect(&st, id, d, "far file, after reopening")?;
    }
    let mut h = H128::new();
    h.bytes(&start.to_be_bytes());
    for a in &acked {
        h.bytes(&a.0);
    }
    if seen.insert(h.get()) {
        ctx.states += 1;
    }
    ctx.traces += 1;
    ctx.transitions += ops.len() as u64;
    ctx.evals += 3 * acked.len() as u64;
    ctx.nontrivial += (acked.len() >= 2) as u64;
    Ok(())
}
/// starting offsets around powers of two, aligned and not aligned to pages
fn far_starts(page: u64) -> Vec<u64> {
    let mut v = vec![];
    for p in [1u64 << 16, 1 << 24, 1 << 31, 1 << 32, page << 16, page << 8, (page << 16) - page, 1 << 36, 1 << 40] {
        let p = p.next_multiple_of(page);
        for d in [-(page as i64), -(page as i64) / 2, -16, 0, page as i64 / 3] {
            let x = p.saturating_add_signed(d);
            // a page count that could have been written
            if x > 4 * page && x + 16 * page < 1 << 42 {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn far_units(thorough: bool) -> Vec<Unit> {
    let mut units = vec![];
    for page in [16u64, 64, 1024, 4096, 65536, 1 << 20] {
        units.push(unit(format!("far{page}"), move |ctx| {
            let m = page as usize - 8;
            let s = Setup { page, lens: vec![], fill: Fill::Count };
            let mut seen = HashSet::new();
            let ops = [Op::W(m), Op::W(m / 2), Op::W(0), Op::Reopen, Op::ReadAll];
            for start in far_starts(page).into_iter().step_by(if page > 65536 && !ctx.thorough { 4 } else { 1 }) {
                for before in [vec![0], vec![1.min(m)], vec![m / 2, m]] {
                    crate::tick();
                    histories(&ops, if ctx.thorough && page < 65536 { 4 } else if page < 65536 { 3 } else { 2 }, None, |h| {
                        guarded(
                            || format!("page size {page}, {start} bytes used before, then {before:?}, history {h:?}"),
                            || far_case(&s, start, &before, h, ctx, &mut seen),
                        )
                    })?;
                }
            }
            Ok(())
        }));
    }
    let _ = thorough;
    units
}
pub fn p06(thorough: bool) -> Check {
    let mut units = vec![];
    let pages: &[u64] = if thorough { &[16, 24, 32, 40, 64, 128, 1024, 2048, 4096, 4104, 8192, 65536] } else { &[16, 24, 32, 64, 1024, 4096, 8192] };
    for s in setups(pages, if thorough { 9 } else { 7 }) {
        for first in with_large(&s) {
            if matches!(first, Op::ReadAll | Op::Ends) {
                continue;
            }
            let s = s.clone();
            units.push(unit(format!("{}-{first:?}", name(&s)), move |ctx| {
                let ops: Vec<Op> = with_large(&s).into_iter().filter(|o| *o != Op::Ends).collect();
                let mut seen = HashSet::new();
                histories(&ops, if ctx.thorough { 4 } else { 3 }, Some(first), |h| {
                    if ctx.traces % 32 == 0 {
                        crate::tick();
                    }
                    if ctx.traces == 77 {
                        ctx.sample(|| format!("{h:?}"));
                    }
                    guarded(|| format!("page size {} history {h:?}", s.page), || p06_case(&s, h, ctx, &mut seen))
                })
            }));
        }
    }
    for page in [16u64, 64, 128, 1024] {
        units.push(unit(format!("runs{page}"), move |ctx| {
            let m = page as usize - 8;
            let mut seen = HashSet::new();
            for len in (0..=m).step_by((m / 96).max(1)) {
                crate::tick();
                let s = Setup { page, lens: vec![], fill: Fill::Count };
                let n = (3 * page as usize / (len + 4)).clamp(5, 40);
                let h: Vec<Op> = (0..n).flat_map(|i| [Op::W(len), Op::W(i % (m + 1))]).collect();
                guarded(|| format!("page size {page}, {n} blobs of {len} bytes among others"), || p06_case(&s, &h, ctx, &mut seen))?;
            }
            Ok(())
        }));
    }
    units.extend(far_units(thorough));
    Check {
        id: "P06",
        level: "model_checking",
        rule: "all histories of writes, reads and reopenings: after every operation the bytes of the file are compared with the layout by an independent reader; the same blobs are laid out by an independent writer, opened, read and extended; files that already hold up to 2^40 bytes (as a hole); a state is a distinct file content; non-trivial: at least two blobs",
        bounds: format!("page sizes {pages:?}; histories of up to {} operations; starting offsets around 2^16, 2^24, 2^31, 2^32, 2^36, 2^40 and the same numbers of pages", if thorough { 4 } else { 3 }),
        assumptions: vec!["64 bit platform", "the file is only changed through one handle and its clones", "the independent reader and writer of the layout in the harness"],
        units,
        quarantine: false,
    }
}

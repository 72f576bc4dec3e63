//! S09: trees in a paged file after restarts, crashes and power losses.
use crate::c_paged::{after_loss, apply, cuts, file_of, hash, is_header, show_eff, split};
use crate::core::*;
use crate::stores::memfd;
use crate::sysio::{self, Eff, Fault};
use crate::tree::g_check;
use radixdb::store::{BlobStore, DynBlobStore, PagedFileStore};
use radixdb::RadixTree;
use std::collections::HashSet;
use std::fs::File;
use std::sync::Arc;

type Tree = RadixTree<DynBlobStore>;
type Versions = Vec<(Vec<u8>, Map)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum D {
    Ins(usize),
    Rem(usize),
    RemPrefix,
    /// in-place combination with a tree in memory
    Join,
    /// detach, and attach the copy to the same store
    Copy,
    Write,
    /// write only if there is a version, through a clone of the tree that is then dropped
    WriteClone,
    Sync,
    /// close the file, open it again, load the last version
    Reopen,
    /// continue with the first version
    First,
}
use D::*;
fn entries(page: u64) -> Vec<(Vec<u8>, Vec<u8>)> {
    let long = (page as usize - 8).min(140);
    vec![
        (b"a".to_vec(), b"x".to_vec()),
        (b"ab".to_vec(), vec![0x31; long]),
        ([b"b".to_vec(), vec![b'c'; long]].concat(), b"y".to_vec()),
        (b"ba".to_vec(), vec![]),
    ]
}
struct World {
    paged: PagedFileStore,
    store: DynBlobStore,
    tree: Tree,
    m: Map,
}
fn open(f: &File, page: u64) -> R<(PagedFileStore, DynBlobStore)> {
    let p = crate::eng_attach::ok("open", PagedFileStore::new(f.try_clone().unwrap(), page))?;
    let d: DynBlobStore = Arc::new(p.clone());
    Ok((p, d))
}
fn okk<T>(what: &str, r: anyhow::Result<T>) -> R<T> {
    crate::eng_attach::ok(what, r)
}
fn load(st: &DynBlobStore, v: &(Vec<u8>, Map), what: &str) -> R<Tree> {
    let t = match Tree::try_load(st.clone(), Some(&v.0)) {
        Ok(t) => t,
        Err(e) => return viol(format!("{what}: loading the root {:?} of the version {} fails: {e:?}", v.0, show_map(&v.1))),
    };
    g_check(&t, &v.1).map_err(|e| Viol { what: format!("{what}: the version with the root {:?}: {}", v.0, e.what) })?;
    Ok(t)
}
fn all_versions(st: &DynBlobStore, vs: &Versions, what: &str) -> R<()> {
    vs.iter().try_for_each(|v| load(st, v, what).map(|_| ()))
}
fn last(p: &PagedFileStore, vs: &Versions, what: &str) -> R<()> {
    let (l, w) = (p.last_id().map(|x| x.to_vec()), vs.last().map(|x| x.0.clone()));
    ensure!(l == w, "{what}: the last id is {l:?} instead of {w:?}, the root of the last version");
    Ok(())
}
const BEGIN: usize = 3000;
impl World {
    fn new(f: &File, page: u64) -> R<Self> {
        let (paged, store) = open(f, page)?;
        Ok(World { paged, tree: RadixTree::empty(store.clone()), store, m: Map::new() })
    }
    /// let go of the file before it is opened again
    fn close(&mut self) -> R<()> {
        let (p, s) = open(&memfd(), 1024)?;
        self.tree = RadixTree::empty(s.clone());
        self.store = s;
        self.paged = p;
        Ok(())
    }
    /// An error is returned as it is; the operation can then be repeated.
    fn step(&mut self, op: D, page: u64, f: &File, vs: &mut Versions) -> R<anyhow::Result<()>> {
        let es = entries(page);
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => return Ok(Err(e)),
                }
            };
        }
        match op {
            Ins(i) => {
                tri!(self.tree.try_insert(&es[i].0, &es[i].1));
                self.m.insert(es[i].0.clone(), es[i].1.clone());
            }
            Rem(i) => {
                tri!(self.tree.try_remove(&es[i].0));
                self.m.remove(&es[i].0);
            }
            RemPrefix => {
                tri!(self.tree.try_remove_prefix("a"));
                self.m.retain(|k, _| !k.starts_with(b"a"));
            }
            Join => {
                let mut o = RadixTree::default();
                o.insert("ab", "joined");
                o.insert("c", "new");
                tri!(self.tree.try_outer_combine_with(&o, radixdb::node::DowncastConverter, |_, _| Ok(())));
                self.m.entry(b"ab".to_vec()).or_insert(b"joined".to_vec());
                self.m.entry(b"c".to_vec()).or_insert(b"new".to_vec());
            }
            Copy => {
                let d = tri!(self.tree.try_detached());
                sysio::mark(BEGIN);
                self.tree = tri!(d.try_attached(self.store.clone()));
            }
            Write => {
                sysio::mark(BEGIN);
                let id = tri!(self.tree.try_reattach());
                vs.push((id, self.m.clone()));
                sysio::mark(vs.len());
                last(&self.paged, vs, "after a write-back")?;
            }
            WriteClone => {
                sysio::mark(BEGIN);
                let mut c = self.tree.clone();
                let id = tri!(c.try_reattach());
                vs.push((id, self.m.clone()));
                sysio::mark(vs.len());
                last(&self.paged, vs, "after a write-back of a clone")?;
            }
            Sync => {
                tri!(self.store.sync());
                sysio::mark(1000 + vs.len());
            }
            Reopen => {
                self.close()?;
                let p = tri!(PagedFileStore::new(f.try_clone().unwrap(), page));
                let s: DynBlobStore = Arc::new(p.clone());
                self.tree = match vs.last() {
                    Some(v) => {
                        self.m = v.1.clone();
                        tri!(Tree::try_load(s.clone(), Some(&v.0)))
                    }
                    None => {
                        self.m.clear();
                        RadixTree::empty(s.clone())
                    }
                };
                self.paged = p;
                self.store = s;
            }
            First => {
                if let Some(v) = vs.first() {
                    self.tree = tri!(Tree::try_load(self.store.clone(), Some(&v.0)));
                    self.m = v.1.clone();
                }
            }
        }
        Ok(Ok(()))
    }
}
/// Run with recording; the operation `fault.0` is performed with this fault, and then repeated.
/// The last value: whether the fault was hit.
fn recorded(page: u64, h: &[D], fault: Option<(usize, Fault)>) -> R<(Vec<Eff>, Versions, bool)> {
    let f = memfd();
    sysio::start(&f, Fault::None, true);
    sysio::mark(0);
    let mut hit = false;
    let r = (|| {
        let mut vs = vec![];
        let mut w = World::new(&f, page)?;
        for (i, op) in h.iter().enumerate() {
            match fault {
                Some((at, x)) if at == i => {
                    let before = w.m.clone();
                    sysio::set_fault(x);
                    let r = w.step(*op, page, &f, &mut vs)?;
                    hit = sysio::hit().is_some();
                    sysio::set_fault(Fault::None);
                    if let Err(e) = r {
                        ensure!(hit, "{op:?} fails without a reason: {e:?}");
                        if *op != Reopen {
                            g_check(&w.tree, &before).map_err(|v| Viol { what: format!("after {op:?} failed: {}", v.what) })?;
                        }
                        okk("repeating the operation after the failure has gone", w.step(*op, page, &f, &mut vs)?)?;
                    }
                }
                _ => okk(&format!("{op:?}"), w.step(*op, page, &f, &mut vs)?)?,
            }
            g_check(&w.tree, &w.m).map_err(|v| Viol { what: format!("after {op:?}: {}", v.what) })?;
            all_versions(&w.store, &vs, &format!("after {op:?}"))?;
        }
        Ok(vs)
    })();
    let log = if r.is_ok() {
        sysio::stop().log
    } else {
        sysio::abandon();
        vec![]
    };
    Ok((log, r?, hit))
}
struct Judge {
    page: u64,
    seen: HashSet<(u64, u64)>,
}
impl Judge {
    /// `exact`: the last id must be the last root
    fn judge(&mut self, img: &[u8], vs: &Versions, exact: bool, ctx: &mut Ctx) -> R<()> {
        // the ids tell the versions of one unit apart well enough: they are part of the file
        let mut x = vs.len() as u64 * 2 + exact as u64;
        for v in vs {
            x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(u64::from_be_bytes(v.0[..8].try_into().unwrap())).wrapping_mul(31).wrapping_add(v.1.iter().map(|(k, v)| k.len() * 1000 + v.len()).sum::<usize>() as u64);
        }
        ctx.transitions += 1;
        if !self.seen.insert(hash(img, x)) {
            return Ok(());
        }
        ctx.states += 1;
        ctx.nontrivial += !vs.is_empty() as u64;
        ctx.evals += vs.len() as u64 * 4;
        let f = file_of(img);
        let page = self.page;
        let (p, s) = open(&f, page).map_err(|v| Viol { what: format!("afterwards: {}", v.what) })?;
        if exact {
            last(&p, vs, "afterwards")?;
        }
        all_versions(&s, vs, "afterwards")?;
        let mut vs = vs.clone();
        let (mut t, mut m) = match vs.last() {
            Some(v) => (load(&s, v, "afterwards")?, v.1.clone()),
            None => (RadixTree::empty(s.clone()), Map::new()),
        };
        for n in 0..2u8 {
            let k = if n == 0 { b"abz".to_vec() } else { b"b".to_vec() };
            okk("insertion afterwards", t.try_insert(&k, [n; 20]))?;
            m.insert(k, vec![n; 20]);
            if n == 1 {
                okk("removal afterwards", t.try_remove("a"))?;
                m.remove(&b"a"[..]);
            }
            let id = okk("write-back afterwards", t.try_reattach())?;
            vs.push((id, m.clone()));
            last(&p, &vs, "after another write-back")?;
        }
        all_versions(&s, &vs, "after further write-backs")?;
        drop((t, p, s));
        let (p, s) = open(&f, page)?;
        last(&p, &vs, "after further write-backs and reopening")?;
        all_versions(&s, &vs, "after further write-backs and reopening")
    }
    fn crashes(&mut self, log: &[Eff], vs: &Versions, ctx: &mut Ctx) -> R<()> {
        let mut img = vec![];
        let (mut known, mut exact) = (0, true);
        for e in log {
            match e {
                Eff::Mark(n) if *n < 1000 => (known, exact) = (*n, true),
                Eff::Mark(BEGIN) => exact = false,
                Eff::Mark(_) | Eff::Sync => {}
                _ => {
                    let v = vs[..known].to_vec();
                    let at = |v: Viol, what: &str| Viol { what: format!("crash {what} {}: {}", show_eff(e), v.what) };
                    self.judge(&img, &v, exact, ctx).map_err(|v| at(v, "before"))?;
                    if let (Eff::Write { off, data }, false) = (e, is_header(e)) {
                        for c in cuts(data.len()) {
                            let mut torn = img.clone();
                            apply(&mut torn, &Eff::Write { off: *off, data: data[..c].to_vec() });
                            self.judge(&torn, &v, exact, ctx).map_err(|v| at(v, &format!("after {c} bytes of")))?;
                        }
                    }
                    apply(&mut img, e);
                    self.judge(&img, &v, exact, ctx).map_err(|v| at(v, "after"))?;
                }
            }
        }
        self.judge(&img, vs, exact, ctx).map_err(|v| Viol { what: format!("crash at the end: {}", v.what) })
    }
    fn losses(&mut self, log: &[Eff], vs: &Versions, limit: usize, ctx: &mut Ctx) -> R<()> {
        let mut durable: Vec<u8> = vec![];
        let mut synced = 0;
        let mut pending: Vec<Eff> = vec![];
        for (i, e) in log.iter().chain([&Eff::Sync]).enumerate() {
            match e {
                Eff::Mark(n) if (1000..BEGIN).contains(n) => synced = n - 1000,
                Eff::Mark(_) => {}
                Eff::Sync => {
                    let v = vs[..synced].to_vec();
                    if synced > 0 {
                        after_loss(&durable, &pending, limit, ctx, &mut |img, ctx| self.judge(img, &v, false, ctx))
                            .map_err(|v| Viol { what: format!("power loss before effect {i}, {synced} versions synced: {}", v.what) })?;
                    }
                    for p in pending.drain(..) {
                        apply(&mut durable, &p);
                    }
                }
                e => pending.extend(split(e)),
            }
        }
        Ok(())
    }
}
fn ends(h: &[D]) -> bool {
    // what does not change the file after the last one that does is covered by shorter histories
    matches!(h.last(), Some(Write | WriteClone | Copy | Reopen | Sync))
}
fn sequences(ops: &[D], n: usize, cur: &mut Vec<D>, f: &mut dyn FnMut(&[D]) -> R<()>) -> R<()> {
    if n == 0 {
        return f(cur);
    }
    for &o in ops {
        if cur.last() == Some(&o) && !matches!(o, Write) {
            continue;
        }
        cur.push(o);
        sequences(ops, n - 1, cur, f)?;
        cur.pop();
    }
    Ok(())
}
pub fn s09(thorough: bool) -> Check {
    let mut units = vec![];
    let ops = vec![Ins(0), Ins(1), Ins(2), Rem(0), Rem(1), RemPrefix, Join, Copy, Write, WriteClone, Sync, Reopen, First];
    for page in [160u64, 1024, 4096] {
        for base in [vec![], vec![Ins(0), Ins(1), Ins(3), Write], vec![Ins(2), Ins(3), Write, Sync, Ins(0)]] {
            for &first in &ops {
                let (ops, base) = (ops.clone(), base.clone());
                units.push(unit(format!("histories{page}-{}-{first:?}", base.len()), move |ctx| {
                    let n = if ctx.thorough { 4 } else { 3 };
                    let mut j = Judge { page, seen: HashSet::new() };
                    let mut h = base.clone();
                    h.push(first);
                    sequences(&ops, n - 1, &mut h, &mut |h| {
                        if !ends(h) {
                            return Ok(());
                        }
                        guarded(
                            || format!("page size {page} history {h:?}"),
                            || {
                                let (log, vs, _) = recorded(page, h, None)?;
                                ctx.traces += 1;
                                if ctx.traces == 30 {
                                    ctx.sample(|| format!("page size {page} history {h:?}"));
                                }
                                j.crashes(&log, &vs, ctx)?;
                                j.losses(&log, &vs, if ctx.thorough { 9 } else { 5 }, ctx)
                            },
                        )
                        .inspect_err(|_| sysio::abandon())
                    })
                }));
            }
        }
        // the same with an operation on the file that fails
        let few = vec![Ins(1), RemPrefix, Copy, Write, Sync, Reopen];
        for base in [vec![Ins(0), Ins(1)], vec![Ins(2), Ins(3), Write, Ins(0), Sync]] {
            for &first in &few {
                let (few, base) = (few.clone(), base.clone());
                units.push(unit(format!("faulty{page}-{}-{first:?}", base.len()), move |ctx| {
                    let mut j = Judge { page, seen: HashSet::new() };
                    let mut h = base.clone();
                    h.push(first);
                    let n = if ctx.thorough { 4 } else { 3 };
                    sequences(&few, n - 1, &mut h, &mut |h| {
                        if !ends(h) {
                            return Ok(());
                        }
                        for at in base.len()..h.len() {
                            for kind in 0..3 {
                                for k in 0..200 {
                                    let x = match kind {
                                        0 => Fault::Errno(k, libc::EIO, false),
                                        1 => Fault::Errno(k, libc::ENOSPC, true),
                                        _ => Fault::ShortErr(k, libc::ENOSPC),
                                    };
                                    let hit = guarded(
                                        || format!("page size {page} history {h:?} with {x:?} in operation {at}"),
                                        || {
                                            let (log, vs, hit) = recorded(page, h, Some((at, x)))?;
                                            ctx.traces += 1;
                                            if hit {
                                                ctx.note("faults hit", 1);
                                                j.crashes(&log, &vs, ctx)?;
                                                j.losses(&log, &vs, if ctx.thorough { 8 } else { 4 }, ctx)?;
                                            }
                                            Ok(hit)
                                        },
                                    )
                                    .inspect_err(|_| sysio::abandon())?;
                                    if !hit && (kind < 2 || k > 12) {
                                        break;
                                    }
                                }
                            }
                        }
                        Ok(())
                    })
                }));
            }
        }
    }
    Check {
        id: "S09",
        level: "fault_enumeration",
        rule: "all histories of tree operations, write-backs, syncs, reopenings and returns to the first version, on a tree in a paged file used through a DynBlobStore, are run with a log of their file effects; the file after every prefix of the log, with the next write cut at selected bytes, and after every power loss (subsets of the effects since the last fsync, all sizes), is opened; all versions written (power loss: synced) are loaded and compared, the last one is modified and written twice, and all are loaded again, also after reopening; the same for histories in which one file call fails and the operation is repeated; distinct files are counted; non-trivial: at least one version must be there",
        bounds: format!("page sizes 160, 1024, 4096; 3 initial histories, each followed by all of {} of {} operations; power loss: all subsets of the last {} unsynced effects, the earlier ones all or none", if thorough { 4 } else { 3 }, ops.len(), if thorough { 9 } else { 5 }),
        assumptions: vec!["64 bit platform", "the 8 byte update of the size in the header is atomic", "fsync and fdatasync make all earlier effects durable", "the size of the file after power loss is one that it had"],
        units,
        quarantine: false,
    }
}

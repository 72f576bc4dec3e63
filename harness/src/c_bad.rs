//! S07: malformed, truncated and foreign blocks.
use crate::c_attach::*;
use crate::c_blob::guarded_blob;
use crate::core::*;
use crate::eng_attach::DT;
use crate::profiles::*;
use crate::refmodel::{Join, JOINS};
use crate::tree::*;
use radixdb::node::IdentityConverter;
use radixdb::store::{Blob, BlobStore, DynBlobStore};
use radixdb::RadixTree;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// more reads than any operation on the enumerated acyclic blocks can need
const BUDGET: u64 = 20_000;
/// Blocks under chosen ids in guarded memory; what is written later gets ids that no enumerated block refers to.
pub struct BadStore {
    blobs: Mutex<HashMap<Vec<u8>, Blob<'static>>>,
    extra: Mutex<Vec<Blob<'static>>>,
    reads: AtomicU64,
}
impl fmt::Debug for BadStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BadStore")
    }
}
impl BadStore {
    fn new() -> Arc<Self> {
        Arc::new(BadStore { blobs: Default::default(), extra: Default::default(), reads: AtomicU64::new(0) })
    }
    fn set(&self, id: &[u8], d: Option<&[u8]>, front: bool) {
        let mut g = self.blobs.lock().unwrap();
        match d {
            Some(d) => g.insert(id.to_vec(), guarded_blob(d, front)),
            None => g.remove(id),
        };
    }
    fn reset(&self) {
        self.reads.store(0, SeqCst);
        self.extra.lock().unwrap().clear();
    }
}
const MAGIC: &[u8] = b"\xe7\xe8\xe9written";
impl BlobStore for BadStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        if self.reads.fetch_add(1, SeqCst) > BUDGET {
            panic!("more than {BUDGET} reads in one operation");
        }
        if id.len() == MAGIC.len() + 2 && id.starts_with(MAGIC) {
            let n = u16::from_be_bytes([id[MAGIC.len()], id[MAGIC.len() + 1]]) as usize;
            return self.extra.lock().unwrap().get(n).cloned().ok_or_else(|| anyhow::Error::msg("no such blob"));
        }
        self.blobs.lock().unwrap().get(id).cloned().ok_or_else(|| anyhow::Error::msg("no such blob"))
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let mut g = self.extra.lock().unwrap();
        let n = g.len() as u16;
        g.push(Blob::copy_from_slice(data));
        let mut id = MAGIC.to_vec();
        id.extend(n.to_be_bytes());
        Ok(id)
    }
    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}
/// one byte ids, as they are written
struct Recorder(Mutex<Vec<Vec<u8>>>);
impl fmt::Debug for Recorder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Recorder")
    }
}
impl BlobStore for Recorder {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        Ok(Blob::copy_from_slice(&self.0.lock().unwrap()[id[0] as usize - 1]))
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let mut g = self.0.lock().unwrap();
        g.push(data.to_vec());
        Ok(vec![g.len() as u8])
    }
    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

// ---- the independent, lenient reader: entries in stored order up to the first error ----

type Blocks = BTreeMap<Vec<u8>, Vec<u8>>;
enum Stop {
    Error,
    Cyclic,
    Big,
}
struct Lenient<'a> {
    b: &'a Blocks,
    es: Es,
    path: Vec<Vec<u8>>,
    nodes: usize,
    /// sorted by first byte, no empty prefix below the root, no duplicate key, true record sizes
    nice: bool,
}
/// (prefix, value, children) as (is id, payload)
type Fields<'a> = [(bool, &'a [u8]); 3];
fn parse(d: &[u8], mut i: usize) -> Option<(Fields<'_>, usize)> {
    let mut r: Fields = [(false, &[]); 3];
    for (n, f) in r.iter_mut().enumerate() {
        let h = *d.get(i)?;
        let len = (h & 0x7f) as usize;
        i += 1;
        let p = d.get(i..i + len)?;
        i += len;
        *f = (h & 0x80 != 0, p);
        if n == 0 && h == 0x80 || n == 2 && h & 0x80 == 0 {
            return None;
        }
    }
    Some((r, i))
}
fn parse_all(d: &[u8]) -> Option<Vec<Fields<'_>>> {
    let mut i = 0;
    let mut r = vec![];
    loop {
        let (f, n) = parse(d, i)?;
        r.push(f);
        i = n;
        if i == d.len() {
            return Some(r);
        }
    }
}
impl Lenient<'_> {
    fn get(&self, id: &[u8]) -> Result<&Vec<u8>, Stop> {
        self.b.get(id).ok_or(Stop::Error)
    }
    fn node(&mut self, f: &Fields, key: &[u8], root: bool) -> Result<Option<u8>, Stop> {
        self.nodes += 1;
        if self.nodes > 2000 {
            return Err(Stop::Big);
        }
        let mut key = key.to_vec();
        let pre = match f[0] {
            (true, p) => self.get(&p[1..])?.clone(),
            (_, p) => p.to_vec(),
        };
        if f[0].0 && pre.first() != f[0].1.first() {
            self.nice = false;
        }
        self.nice &= root || !pre.is_empty();
        key.extend_from_slice(&pre);
        match f[1] {
            (true, []) => {}
            (true, id) => {
                let v = self.get(id)?.clone();
                self.es.push((key.clone(), v));
            }
            (_, v) => self.es.push((key.clone(), v.to_vec())),
        }
        let c = f[2].1;
        if !c.is_empty() {
            if self.path.contains(&c[1..].to_vec()) {
                return Err(Stop::Cyclic);
            }
            let b = self.get(&c[1..])?.clone();
            self.path.push(c[1..].to_vec());
            let ns = parse_all(&b).ok_or(Stop::Error)?;
            // a reader may rely on the record size that is stored with the reference
            if c[0] != 0 {
                let at = b.as_ptr() as usize;
                let size = b.len() / ns.len();
                self.nice &= size == c[0] as usize && ns.iter().enumerate().all(|(i, f)| f[0].1.as_ptr() as usize - at == i * size + 1);
            }
            let mut last = None;
            for n in &ns {
                let first = self.node(n, &key, false)?;
                self.nice &= last < first;
                last = first;
            }
            self.path.pop();
        }
        Ok(pre.first().copied())
    }
}
/// does any chain of references lead back to a block on it, even where an error comes first?
fn cyclic(b: &Blocks, d: &[u8], path: &mut Vec<Vec<u8>>) -> bool {
    let mut i = 0;
    while let Some((f, n)) = parse(d, i) {
        let c = f[2].1;
        if !c.is_empty() {
            let id = c[1..].to_vec();
            if path.contains(&id) {
                return true;
            }
            if let Some(x) = b.get(&id) {
                path.push(id);
                let r = cyclic(b, x, path);
                path.pop();
                if r {
                    return true;
                }
            }
        }
        i = n;
    }
    false
}

// ---- one case ----

fn use_all(t: &DT) {
    // whatever the content is: read it completely
    let st = RadixTree::store(t).clone();
    for x in t.try_iter() {
        let Ok((_, v)) = x else { break };
        let _ = v.load(&st);
    }
}
struct Rig {
    st: Arc<BadStore>,
    dy: DynBlobStore,
    small: RadixTree,
    probes: Vec<Vec<u8>>,
    deep: bool,
}
impl Rig {
    fn new(probes: Vec<Vec<u8>>, deep: bool) -> Self {
        let st = BadStore::new();
        let mut m = Map::new();
        for (k, x) in [("", "0K"), ("a", "1T"), ("ab", "2D"), ("b", "3K")] {
            m.insert(v(k), v(x));
        }
        Rig { dy: st.clone(), st, small: build(&m), probes, deep }
    }
    /// the store holds the blocks; the tree is loaded from the root block
    fn case(&self, b: &Blocks, root: &[u8], ctx: &mut Ctx) -> R<()> {
        ctx.traces += 1;
        self.st.reset();
        let Some(d) = b.get(root) else {
            ensure!(RadixTree::try_load(self.dy.clone(), Some(root)).is_err(), "loading an unknown root succeeds");
            return Ok(());
        };
        if cyclic(b, d, &mut vec![root.to_vec()]) {
            ctx.note("blocks that refer back to themselves, skipped", 1);
            return Ok(());
        }
        let loaded = RadixTree::try_load(self.dy.clone(), Some(root));
        let ns = parse_all(d).filter(|x| x.len() == 1);
        ctx.evals += 1;
        let t: DT = match (loaded, &ns) {
            (Err(_), None) => return Ok(()),
            (Err(e), Some(_)) => return viol(format!("a well-formed root does not load: {e:?}")),
            (Ok(_), None) => return viol("a malformed root block loads"),
            (Ok(t), Some(_)) => t,
        };
        ctx.nontrivial += 1;
        let mut l = Lenient { b, es: vec![], path: vec![root.to_vec()], nodes: 0, nice: true };
        let end = match l.node(&ns.unwrap()[0], &[], true) {
            Ok(_) => Ok(()),
            Err(Stop::Error) => Err(()),
            Err(_) => {
                ctx.note("blocks with very many nodes, skipped", 1);
                return Ok(());
            }
        };
        // iteration against the independent reader
        let mut it = t.try_iter();
        let mut got: Es = vec![];
        let mut err = false;
        while let Some(x) = it.next() {
            match x.and_then(|(k, v)| Ok((k.to_vec(), v.load(&self.dy)?.to_vec()))) {
                Ok(e) => got.push(e),
                Err(_) => {
                    err = true;
                    break;
                }
            }
            ensure!(got.len() <= l.es.len(), "iteration yields more than the stored {} entries, {} => {} is the next", l.es.len(), show(&got[got.len() - 1].0), show(&got[got.len() - 1].1));
        }
        ensure!(err == end.is_err(), "iteration {} although the blocks are {}", if err { "fails" } else { "ends without an error" }, if err { "readable" } else { "not readable" });
        ensure!(got[..] == l.es[..got.len()] && (err || got.len() == l.es.len()), "iteration yields {} entries, not those stored", got.len());
        ctx.evals += 1;
        let d = t.try_detached();
        self.st.reset();
        match (&d, &end) {
            (Ok(d), Ok(())) => {
                let x: Es = d.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
                ensure!(x == l.es, "the detached tree has {} entries, not those stored", x.len());
            }
            (Err(_), Err(())) => {}
            (d, _) => return viol(format!("detach {} although the blocks are {}", if d.is_ok() { "succeeds" } else { "fails" }, if end.is_ok() { "readable" } else { "not readable" })),
        }
        if end.is_ok() && l.nice {
            let m: Map = l.es.iter().cloned().collect();
            let mut probes = self.probes.clone();
            probes.extend(m.keys().cloned());
            for p in &probes {
                let g = t.try_get(p).and_then(|v| v.map(|v| Ok(v.load(&self.dy)?.to_vec())).transpose());
                let w = m.get(p);
                ensure!(matches!(&g, Ok(x) if x.as_ref() == w), "try_get({}) is {g:?}, not {w:?}", show(p));
                let g = t.try_contains_key(p);
                ensure!(matches!(&g, Ok(x) if *x == w.is_some()), "try_contains_key({}) is {g:?}, not {w:?}", show(p));
                let g: Result<Es, _> = t.try_scan_prefix(p).and_then(|it| it.map(|x| x.and_then(|(k, v)| Ok((k.to_vec(), v.load(&self.dy)?.to_vec())))).collect());
                let w: Es = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(matches!(&g, Ok(x) if *x == w), "try_scan_prefix({}) gives {g:?}, not {w:?}", show(p));
            }
            ctx.note("readable cases with sorted children", 1);
            ctx.evals += probes.len() as u64;
        }
        self.all_ops(&t, d.ok(), ctx)
    }
    /// nothing of this may panic, go out of bounds or fail to end
    fn all_ops(&self, t: &DT, d: Option<RadixTree>, ctx: &mut Ctx) -> R<()> {
        let st = &self.dy;
        for x in t.try_values() {
            let Ok(v) = x else { break };
            let _ = v.load(st);
        }
        let _ = t.try_first_value().map(|v| v.map(|v| v.load(st).map(|x| x.len())));
        let _ = t.try_last_value().map(|v| v.map(|v| v.load(st).map(|x| x.len())));
        let _ = t.try_first_entry(vec![1]);
        let _ = t.try_last_entry(vec![1]);
        let _ = (t.is_empty(), t.is_leaf(), t.prefix().to_owned().load(st).is_ok(), t.value().is_some());
        for k in 0..3 {
            self.st.reset();
            for g in t.try_group_by(|p, _| Ok(k == 0 || k == 2 && p.len() < 2)) {
                let Ok(g) = g else { break };
                use_all(&g);
            }
        }
        ctx.evals += 10;
        let step = |f: &dyn Fn(&mut DT) -> bool| {
            self.st.reset();
            let mut x = t.clone();
            let _ = f(&mut x);
            self.st.reset();
            use_all(&x);
            let _ = x.try_reattach();
            self.st.reset();
            use_all(&x);
        };
        for p in &self.probes {
            self.st.reset();
            let _ = t.try_get(p).map(|v| v.map(|v| v.load(st).map(|x| x.len())));
            let _ = t.try_contains_key(p);
            let _ = t.try_has_prefix(p);
            if let Ok(it) = t.try_scan_prefix(p) {
                for x in it {
                    let Ok((_, v)) = x else { break };
                    let _ = v.load(st);
                }
            }
            if let Ok(x) = t.try_filter_prefix(p, b"s") {
                use_all(&x);
            }
            ctx.evals += 5;
            step(&|x| x.try_insert(p, b"new").is_ok());
            step(&|x| x.try_remove(p).is_ok());
            step(&|x| x.try_remove_prefix(p).is_ok());
            ctx.transitions += 3;
        }
        let log: Log = RefCell::new(vec![]);
        let tabs: &[Table] = if self.deep { TABLES } else { &TABLES[3..4] };
        for tab in tabs {
            for j in JOINS {
                self.st.reset();
                // the functions decode the values of the right operand, so the malformed one is only used on the left,
                // or with fixed answers
                let _ = fun(j, t, &self.small, tab, &log);
                let r = |x: &radixdb::node::ValueRef, _: &radixdb::node::ValueRef<DynBlobStore>| -> anyhow::Result<Option<radixdb::node::Value>> { Ok(Some(x.to_owned())) };
                let _ = match j {
                    Join::Outer => self.small.try_outer_combine::<DynBlobStore, anyhow::Error, _>(t, r),
                    Join::Inner => self.small.try_inner_combine::<DynBlobStore, anyhow::Error, _>(t, r),
                    Join::Left => self.small.try_left_combine::<DynBlobStore, anyhow::Error, _>(t, r),
                };
                step(&|x| inp(j, x, &self.small, radixdb::node::DowncastConverter, tab, &log).is_ok());
                if self.deep {
                    // both operands malformed
                    step(&|x| {
                        let y = t.clone();
                        let f = |_: &mut radixdb::node::Value<DynBlobStore>, _: &radixdb::node::ValueRef<DynBlobStore>| Ok(());
                        match j {
                            Join::Outer => x.try_outer_combine_with(&y, IdentityConverter, f),
                            Join::Inner => x.try_inner_combine_with(&y, IdentityConverter, f),
                            Join::Left => x.try_left_combine_with(&y, IdentityConverter, f),
                        }
                        .is_ok()
                    });
                }
                ctx.transitions += 3;
            }
            for b in [false, true] {
                self.st.reset();
                let _ = pred(b, t, &self.small, tab);
                let f = |_: &radixdb::node::ValueRef, _: &radixdb::node::ValueRef<DynBlobStore>| -> anyhow::Result<bool> { Ok(false) };
                let _ = if b {
                    self.small.try_inner_combine_pred::<DynBlobStore, anyhow::Error, _>(t, f)
                } else {
                    self.small.try_left_combine_pred::<DynBlobStore, anyhow::Error, _>(t, f)
                };
                step(&|x| pre(b, x, &self.small, tab).is_ok());
                ctx.transitions += 3;
            }
        }
        if self.deep {
            // a good attached tree on the left
            for j in JOINS {
                self.st.reset();
                let Ok(mut x) = self.small.try_attached(self.dy.clone()) else { continue };
                let f = |_: &mut radixdb::node::Value<DynBlobStore>, _: &radixdb::node::ValueRef<DynBlobStore>| Ok(());
                let _ = match j {
                    Join::Outer => x.try_outer_combine_with(t, IdentityConverter, f),
                    Join::Inner => x.try_inner_combine_with(t, IdentityConverter, f),
                    Join::Left => x.try_left_combine_with(t, IdentityConverter, f),
                };
                use_all(&x);
                let Ok(mut x) = self.small.try_attached(self.dy.clone()) else { continue };
                let f = |_: &mut radixdb::node::Value<DynBlobStore>, _: &radixdb::node::ValueRef| Ok(());
                if let Some(d) = &d {
                    let _ = match j {
                        Join::Outer => x.try_outer_combine_with(d, radixdb::node::DowncastConverter, f),
                        Join::Inner => x.try_inner_combine_with(d, radixdb::node::DowncastConverter, f),
                        Join::Left => x.try_left_combine_with(d, radixdb::node::DowncastConverter, f),
                    };
                    use_all(&x);
                }
                ctx.transitions += 2;
            }
        }
        // in memory: what a detached malformed tree does
        if let Some(d) = d {
            for p in &self.probes {
                let _ = (d.get(p).is_some(), d.contains_key(p), d.has_prefix(p), d.scan_prefix(p).count());
                let mut x = d.clone();
                x.insert(p, b"new");
                let _ = x.iter().count();
                let mut x = d.clone();
                x.remove(p);
                let _ = x.iter().count();
                let mut x = d.clone();
                x.remove_prefix(p);
                let _ = x.iter().count();
                let _ = d.filter_prefix(p, b"s").iter().count();
            }
            ctx.transitions += 4 * self.probes.len() as u64;
            for j in JOINS {
                let mut x = d.clone();
                let f = |_: &mut radixdb::node::Value, _: &radixdb::node::ValueRef| {};
                match j {
                    Join::Outer => x.outer_combine_with(&self.small, f),
                    Join::Inner => x.inner_combine_with(&self.small, f),
                    Join::Left => x.left_combine_with(&self.small, f),
                }
                let _ = x.iter().count();
                let mut x = self.small.clone();
                match j {
                    Join::Outer => x.outer_combine_with(&d, f),
                    Join::Inner => x.inner_combine_with(&d, f),
                    Join::Left => x.left_combine_with(&d, f),
                }
                let _ = x.iter().count();
            }
        }
        Ok(())
    }
}

/// header bytes and others that mean something
const ALPHA: &[u8] = &[0, 1, 2, 3, 5, 9, 0x61, 0x62, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x89, 0xff];

fn bases() -> Vec<(String, Map)> {
    let long = val(130, b'p');
    let mk = |e: &[(&[u8], &[u8])]| -> Map { e.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect() };
    let pa: Vec<u8> = [&long[..], b"a"].concat();
    let pb: Vec<u8> = [&long[..], b"b"].concat();
    let ap: Vec<u8> = [b"a", &long[..]].concat();
    let mut wide = Map::new();
    for i in 0..=255u8 {
        wide.insert(vec![i], vec![]);
    }
    vec![
        ("empty".into(), mk(&[])),
        ("root-value".into(), mk(&[(b"", b"x")])),
        ("single".into(), mk(&[(b"a", b"1")])),
        ("two".into(), mk(&[(b"a", b"1"), (b"b", b"2")])),
        ("stem".into(), mk(&[(b"abc", b""), (b"abd", b"22")])),
        ("deep".into(), mk(&[(b"", b"0"), (b"a", b"1"), (b"aa", b"2"), (b"ab", b"3"), (b"aba", b"4"), (b"b", b"5")])),
        ("inner".into(), mk(&[(b"aa", b"2"), (b"ab", b"333"), (b"ba", b"4"), (b"bb", b"5")])),
        ("nine".into(), mk(&[(b"123456789", b"123456789"), (b"12345678", b"12345678")])),
        ("long-value".into(), mk(&[(b"a", &long), (b"b", b"2")])),
        ("long-prefix".into(), mk(&[(&pa, b"1"), (&pb, b"2")])),
        ("long-child".into(), mk(&[(&ap, b"1"), (b"b", &long), (b"", b"0")])),
        ("wide".into(), wide),
    ]
}
/// the blocks of a persisted tree, and the root id
fn persist(m: &Map) -> R<(Blocks, Vec<u8>)> {
    let rec = Arc::new(Recorder(Mutex::new(vec![])));
    let st: DynBlobStore = rec.clone();
    let t = build(m).try_attached(st);
    let id = t.and_then(|mut t| t.try_reattach()).map_err(|e| Viol { what: format!("writing fails: {e:?}") })?;
    let b = rec.0.lock().unwrap().iter().enumerate().map(|(i, d)| (vec![i as u8 + 1], d.clone())).collect();
    Ok((b, id))
}
/// all changes of one block
fn changes(d: &[u8], all: &[Vec<u8>], thorough: bool) -> Vec<(String, Option<Vec<u8>>)> {
    let mut r: Vec<(String, Option<Vec<u8>>)> = vec![("missing".into(), None)];
    for n in 0..d.len() {
        r.push((format!("cut to {n} bytes"), Some(d[..n].to_vec())));
    }
    for n in 1..d.len() {
        r.push((format!("without the first {n} bytes"), Some(d[n..].to_vec())));
    }
    for (i, x) in all.iter().enumerate() {
        r.push((format!("replaced by block {}", i + 1), Some(x.clone())));
        r.push((format!("followed by block {}", i + 1), Some([d, x].concat())));
    }
    let every = d.len() <= if thorough { 300 } else { 48 };
    for i in 0..d.len() {
        let mut x = d.to_vec();
        x.remove(i);
        r.push((format!("without byte {i}"), Some(x)));
        let vals: Vec<u8> = if every { (0..=255).collect() } else { ALPHA.to_vec() };
        for c in vals {
            if c != d[i] {
                let mut x = d.to_vec();
                x[i] = c;
                r.push((format!("byte {i} is {c:02x}"), Some(x)));
            }
        }
    }
    for i in 0..=d.len() {
        for &c in if d.len() <= 300 { ALPHA } else { &ALPHA[..3] } {
            let mut x = d.to_vec();
            x.insert(i, c);
            r.push((format!("{c:02x} inserted at {i}"), Some(x)));
        }
    }
    if d.len() <= if thorough { 40 } else { 12 } {
        for i in 0..d.len() {
            for j in i + 1..d.len() {
                for &a in ALPHA {
                    for &b in ALPHA {
                        let mut x = d.to_vec();
                        x[i] = a;
                        x[j] = b;
                        r.push((format!("bytes {i} and {j} are {a:02x} and {b:02x}"), Some(x)));
                    }
                }
            }
        }
    }
    r
}
fn probes_of(m: &Map, deep: bool) -> Vec<Vec<u8>> {
    let mut p = vec![vec![], v("a"), v("ab"), v("b"), v("abca"), vec![0], vec![0xff]];
    let ks: Vec<_> = m.keys().filter(|k| k.len() > 3).collect();
    for k in ks {
        p.push(k.clone());
        p.push(k[..k.len() - 2].to_vec());
        p.push(k[..1].to_vec());
    }
    p.sort();
    p.dedup();
    if !deep && p.len() > 8 {
        p.truncate(8);
    }
    p
}

pub fn s07(thorough: bool) -> Check {
    let mut units = vec![];
    for (name, m) in bases() {
        let n = if name == "wide" || name.starts_with("long") { 8 } else { 4 };
        for sh in 0..n {
            let m = m.clone();
            units.push(unit(format!("change-{name}-{sh}"), move |ctx| {
                let (b, root) = persist(&m)?;
                let wide = m.len() > 100;
                let rig = Rig::new(if wide { vec![vec![], v("a"), vec![0xff]] } else { probes_of(&m, thorough) }, thorough && !wide);
                let all: Vec<Vec<u8>> = b.values().cloned().collect();
                for (id, d) in &b {
                    rig.st.set(id, Some(d), false);
                }
                let mut n_cases = 0usize;
                for (id, d) in &b {
                    let mut fresh = b.clone();
                    let mut list = changes(d, &all, thorough);
                    // only a root of one node can be loaded, so most of these end at once; for the others it depends
                    list.dedup_by(|x, y| x.1 == y.1);
                    for (what, x) in list {
                        n_cases += 1;
                        if n_cases % n != sh {
                            continue;
                        }
                        crate::tick();
                        ctx.states += 1;
                        for front in [false, true] {
                            if front && !thorough && n_cases % 7 != 0 {
                                continue;
                            }
                            rig.st.set(id, x.as_deref(), front);
                            match &x {
                                Some(x) => fresh.insert(id.clone(), x.clone()),
                                None => fresh.remove(id),
                            };
                            guarded(
                                || format!("content {}, block {} of {} ({}) {what}: {}", show_map(&m), id[0], b.len(), show(d), x.as_ref().map(|x| show(x)).unwrap_or_default()),
                                || rig.case(&fresh, &root, ctx),
                            )?;
                        }
                    }
                    rig.st.set(id, Some(d), false);
                }
                ctx.sample(|| format!("content {}: {n_cases} changes of {} blocks", show_map(&m), b.len()));
                Ok(())
            }));
        }
    }
    // all short strings as root and as children block
    let letters: &[u8] = &[0, 1, 2, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xff];
    let max = if thorough { 7 } else { 5 };
    for first in 0..letters.len() {
        for second in 0..letters.len() {
            units.push(unit(format!("short-{:02x}{:02x}", letters[first], letters[second]), move |ctx| {
                let thorough = ctx.thorough;
                let rig = Rig::new(vec![vec![], v("a"), vec![1, 0], v("ab")], false);
                let mut b = Blocks::new();
                // leaf a => x; children b and c; a short and an empty blob
                b.insert(vec![1], vec![1, b'a', 1, b'x', 0x80]);
                b.insert(vec![2], vec![1, b'b', 1, b'x', 0x80, 1, b'c', 0x80, 0x82, 0, 1]);
                b.insert(vec![0x61], v("abc"));
                b.insert(vec![0], vec![]);
                // an indirect block: the enumerated one is the children block of this one
                b.insert(v("R"), vec![0, 0x80, 0x82, 5, b'C']);
                b.insert(v("S"), vec![1, b'a', 1, b'x', 0x83, 0, b'C', b'C']);
                for (id, d) in &b {
                    rig.st.set(id, Some(d), false);
                }
                for len in 0..=max {
                    if len < 2 && (first, second) != (0, len) {
                        continue;
                    }
                    let rest = len.max(2) - 2;
                    for n in 0..letters.len().pow(rest as u32) {
                        if n % 64 == 0 {
                            crate::tick();
                        }
                        let mut x = match len {
                            0 => vec![],
                            1 => vec![letters[first]],
                            _ => vec![letters[first], letters[second]],
                        };
                        let mut k = n;
                        for _ in 0..rest {
                            x.push(letters[k % letters.len()]);
                            k /= letters.len();
                        }
                        for (root, id) in [(v("C"), v("C")), (v("R"), v("C")), (v("S"), v("CC"))] {
                            if root == b"S" && !thorough && len > 4 {
                                continue;
                            }
                            ctx.states += 1;
                            rig.st.set(&id, Some(&x), n % 5 == 1);
                            b.insert(id.clone(), x.clone());
                            guarded(
                                || format!("{} block {}", if root == b"C" { "root" } else { "children" }, show(&x)),
                                || rig.case(&b, &root, ctx),
                            )?;
                        }
                    }
                }
                // one letter strings
                if second == 0 {
                    let x = vec![letters[first]];
                    rig.st.set(b"C", Some(&x), false);
                    b.insert(v("C"), x);
                    for root in [v("C"), v("R")] {
                        rig.case(&b, &root, ctx)?;
                    }
                }
                Ok(())
            }));
        }
    }
    Check {
        id: "S07",
        level: "exploration",
        rule: "every stored block of 12 persisted trees is cut, shortened, replaced, extended and changed in every single byte (short ones in every pair of bytes), and all short strings over the meaningful bytes are root and children blocks; an independent reader decides what loads, and what iteration and detach give; every query, modification, combination and write-back is run on what loads, with the blocks between inaccessible pages; non-trivial: the root loads",
        bounds: format!("all 256 values per byte in blocks up to {} bytes, else 15; strings up to {max} bytes over 10 letters; at most {BUDGET} reads per operation", if thorough { 300 } else { 48 }),
        assumptions: vec!["64 bit platform", "blocks do not refer back to themselves (such cases are counted and skipped)"],
        units,
        quarantine: false,
    }
}

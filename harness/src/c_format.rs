//! S05: the serialized form.
use crate::c_attach::*;
use crate::codec::*;
use crate::core::*;
use crate::eng_attach::*;
use crate::profiles::*;
use crate::stores::*;
use crate::tree::*;
use radixdb::store::{BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::node::IdentityConverter;
use radixdb::RadixTree;
use std::sync::Arc;

fn intern_decode(s: &Arc<InternStore>, id: &[u8], canonical: bool, ctx: &mut Ctx) -> R<Map> {
    let read = |id: &[u8]| -> R<Vec<u8>> {
        match s.blob(id) {
            Some(x) => Ok(x.to_vec()),
            None => viol(format!("a block refers to the id {id:02x?} which does not exist")),
        }
    };
    let mut d = Decoder { read: &read, canonical, nodes: 0, blocks: 0 };
    let root = read(id)?;
    let m = d.root(&root)?;
    ctx.note("nodes decoded", d.nodes);
    ctx.note("blocks decoded", d.blocks);
    Ok(m)
}
fn dyn_decode(s: &DynBlobStore, id: &[u8]) -> R<Map> {
    let read = |id: &[u8]| -> R<Vec<u8>> { ok("read", s.read(id).map(|x| x.to_vec())) };
    let mut d = Decoder { read: &read, canonical: true, nodes: 0, blocks: 0 };
    let root = read(id)?;
    d.root(&root)
}
fn eqm(got: &Map, want: &Map, what: &str) -> R<()> {
    ensure!(got == want, "{what}: decoded {} instead of {}", show_map(got), show_map(want));
    Ok(())
}
/// what the library writes for a content decodes to the content; equal contents give equal bytes
fn written(t: &mut DT, m: &Map, s: &Arc<InternStore>, ctx: &mut Ctx) -> R<()> {
    let id = ok("reattach", t.try_reattach())?;
    eqm(&intern_decode(s, &id, true, ctx)?, m, "the written blocks")?;
    // the harness' encoder is independent: same bytes expected
    let root = Enc::default().encode(m, &|b| s.put(b));
    let have = s.blob(&id).unwrap();
    ensure!(**have == root, "the root block is {} instead of {} for content {}", show(&have), show(&root), show_map(m));
    ctx.evals += 2;
    Ok(())
}
pub const ENCS: &[Enc] = &[
    Enc { indirect_prefix: false, indirect_value: false, split: 0 },
    Enc { indirect_prefix: true, indirect_value: false, split: 0 },
    Enc { indirect_prefix: false, indirect_value: true, split: 0 },
    Enc { indirect_prefix: true, indirect_value: true, split: 0 },
    Enc { indirect_prefix: false, indirect_value: false, split: 1 },
    Enc { indirect_prefix: true, indirect_value: true, split: 1 },
    Enc { indirect_prefix: false, indirect_value: true, split: 100 },
];
/// blocks written by an independent encoder are read correctly
fn conforming(m: &Map, p: &Profile, e: Enc, s: &Arc<InternStore>, ctx: &mut Ctx) -> R<()> {
    if e.split == 1 && m.keys().any(|k| k.len() > 300) {
        return Ok(());
    }
    let root = e.encode(m, &|b| s.put(b));
    let id = s.put(&root);
    eqm(&intern_decode(s, &id, false, ctx)?, m, "harness: the encoder")?;
    let t: DT = ok("load", RadixTree::try_load(dynstore(s.clone()), Some(&id)))?;
    ctx.evals += 1;
    let what = |v: Viol| Viol { what: format!("{e:?}: {}", v.what) };
    if e.split == 0 {
        g_reads(&t, m, &p.probes).map_err(what)?;
        let d = ok("detach", t.try_detached())?;
        is_build(&d, m).map_err(what)?;
        // what comes out of other blocks is written like anything else
        let c = ok("combine", RadixTree::<radixdb::store::Detached>::default().try_outer_combine::<DynBlobStore, anyhow::Error, _>(&t, |_, _| Ok(None)))?;
        is_build(&c, m).map_err(what)?;
        let mut x = RadixTree::default();
        x.insert(b"tmp", b"");
        let mut x: DT = ok("attach", x.try_attached(dynstore(s.clone())))?;
        ok("remove", x.try_remove(b"tmp"))?;
        ok("combine in place", x.try_outer_combine_with(&t, IdentityConverter, |_, _| Ok(())))?;
        let x2 = ok("detach", x.try_detached())?;
        is_build(&x2, m).map_err(what)?;
        for (d, how) in [(&d, "detached"), (&c, "combined"), (&x2, "combined in place")] {
            let st: DynBlobStore = Arc::new(MemStore::default());
            let mut y = ok("attach", d.try_attached(st.clone()))?;
            let id = ok("reattach", y.try_reattach())?;
            eqm(&dyn_decode(&st, &id)?, m, &format!("the blocks of the tree that was {how} and written again")).map_err(what)?;
        }
        // modifications
        for k in &p.keys {
            let mut u = t.clone();
            let mut um = m.clone();
            ok("insert", u.try_insert(k, b"modified"))?;
            um.insert(k.clone(), v("modified"));
            g_check(&u, &um).map_err(what)?;
            ok("reattach", u.try_reattach())?;
            g_check(&u, &um).map_err(what)?;
            let mut u = t.clone();
            let mut um = m.clone();
            ok("remove", u.try_remove(k))?;
            um.remove(k);
            g_check(&u, &um).map_err(what)?;
            let mut u = t.clone();
            let mut um = m.clone();
            ok("remove_prefix", u.try_remove_prefix(k))?;
            crate::refmodel::remove_prefix(&mut um, k);
            g_check(&u, &um).map_err(what)?;
            ctx.evals += 4;
        }
    } else {
        // not path compressed: conforms to the description as well
        g_check(&t, m).map_err(what)?;
        check_iter(&ok("detach", t.try_detached())?, m).map_err(what)?;
        let st = RadixTree::store(&t).clone();
        for q in &p.probes {
            let g = match ok("try_get", t.try_get(q))? {
                Some(v) => Some(ok("load", v.load(&st))?.to_vec()),
                None => None,
            };
            ensure!(g.as_ref() == m.get(q), "{e:?}: try_get({}) is {:?} for content {}", show(q), g, show_map(m));
            let h = ok("try_has_prefix", t.try_has_prefix(q))?;
            ensure!(h == crate::refmodel::has_prefix(m, q), "{e:?}: try_has_prefix({}) is {h} for content {}", show(q), show_map(m));
            let mut n = 0;
            for x in ok("scan", t.try_scan_prefix(q))? {
                let (k, _) = ok("scan", x)?;
                ensure!(m.contains_key(&k[..]) && k.starts_with(q), "{e:?}: try_scan_prefix({}) yields {}", show(q), show(&k));
                n += 1;
            }
            ensure!(n == crate::refmodel::scan(m, q).len(), "{e:?}: try_scan_prefix({}) yields {n} entries", show(q));
            ctx.evals += 3;
        }
    }
    Ok(())
}
/// the worked examples of the documentation
fn doc_examples(ctx: &mut Ctx) -> R<()> {
    let unhex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    // `..` stands for an id of 8 bytes, which must lead to the next of `blocks`; in which order they are written, and so
    // which id each gets, is not documented
    let one = |m: Map, root: &str, blocks: &[Vec<u8>]| -> R<()> {
        let st: DynBlobStore = Arc::new(MemStore::default());
        let mut t = ok("attach", build(&m).try_attached(st.clone()))?;
        let id = ok("reattach", t.try_reattach())?;
        let got = ok("read", st.read(&id))?.to_vec();
        let mut at = 0;
        for (n, part) in root.split("..").enumerate() {
            if n > 0 {
                ensure!(got.len() >= at + 8, "the root block of {} is {} and not {root} as documented", show_map(&m), show(&got));
                let b = ok("read", st.read(&got[at..at + 8]))?.to_vec();
                ensure!(b == blocks[n - 1], "block {n} of {} is {} and not {} as documented", show_map(&m), show(&b), show(&blocks[n - 1]));
                at += 8;
            }
            let part = unhex(part);
            ensure!(got[at..].starts_with(&part), "the root block of {} is {} and not {root} as documented", show_map(&m), got.iter().map(|b| format!("{b:02x}")).collect::<String>());
            at += part.len();
        }
        ensure!(at == got.len(), "the root block of {} has {} bytes, not {at} as documented", show_map(&m), got.len());
        Ok(())
    };
    let m = |x: &[(&[u8], &[u8])]| -> Map { x.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect() };
    one(m(&[]), "008080", &[])?;
    one(m(&[(b"", b"")]), "000080", &[])?;
    one(m(&[(b"hello", b"world!")]), "0568656c6c6f06776f726c642180", &[])?;
    one(m(&[(&[b'a'; 256], &[b'b'; 256])]), "8961..88..80", &[val(256, b'a'), val(256, b'b')])?;
    one(m(&[(b"aa", b""), (b"ab", b"")]), "0161808904..", &[unhex("0161008001620080")])?;
    ctx.evals += 5;
    ctx.states += 5;
    Ok(())
}
/// a store whose ids have all kinds of lengths
#[derive(Debug, Default)]
struct VarStore(std::sync::Mutex<std::collections::BTreeMap<Vec<u8>, Vec<u8>>>);
impl BlobStore for VarStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<radixdb::store::Blob<'static>> {
        match self.0.lock().unwrap().get(id) {
            Some(x) => Ok(radixdb::store::Blob::copy_from_slice(x)),
            None => anyhow::bail!("no such id {id:02x?}"),
        }
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let mut g = self.0.lock().unwrap();
        let n = g.len();
        let mut id = vec![(n >> 8) as u8, n as u8];
        id.resize([2, 3, 126, 8, 64, 7, 9, 125, 127][n % 8], 0xcc);
        g.insert(id.clone(), data.to_vec());
        Ok(id)
    }
    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}
fn stores(m: &Map, ctx: &mut Ctx) -> R<()> {
    let f = memfd();
    let list: Vec<DynBlobStore> = vec![
        Arc::new(MemStore::default()),
        Arc::new(ok("PagedFileStore::new", PagedFileStore::new(f.try_clone().unwrap(), 1 << 17))?),
        Arc::new(VarStore::default()),
    ];
    for st in list {
        let mut t = ok("attach", build(m).try_attached(st.clone()))?;
        let id = ok("reattach", t.try_reattach())?;
        eqm(&dyn_decode(&st, &id)?, m, "the written blocks")?;
        let u: DT = ok("load", RadixTree::try_load(st.clone(), Some(&id)))?;
        g_check(&u, m)?;
        ctx.evals += 2;
    }
    Ok(())
}
fn s05_written(ctx: &mut Ctx, q: &Profile, idlen: usize) -> R<()> {
    let s = InternStore::new(if idlen == 1 { 2 } else { idlen }, 0x11);
    aexplore(
        q,
        &s,
        ctx,
        |_, _, _, _| Ok(()),
        |ctx, tr| {
            let mut t = tr.t.clone();
            written(&mut t, tr.m, &s, ctx)
        },
    )?;
    Ok(())
}
fn s05_conforming(ctx: &mut Ctx, q: &Profile, idlen: usize, sh: u64, n: u64) -> R<()> {
    let s = InternStore::new(if idlen == 1 { 2 } else { idlen.max(3) }, 0x11);
    for k in (sh..q.nstates()).step_by(n as usize) {
        let m = q.map(&q.nth(k));
        ctx.states += 1;
        ctx.traces += 1;
        ctx.nontrivial += (m.len() >= 2) as u64;
        for e in ENCS {
            crate::tick();
            ctx.transitions += 1;
            guarded(|| format!("content {}", show_map(&m)), || conforming(&m, q, *e, &s, ctx))?;
        }
        if sh == 0 && q.vals[0].len() < 60000 {
            guarded(|| format!("content {}", show_map(&m)), || stores(&m, ctx))?;
        }
    }
    Ok(())
}
pub fn s05(thorough: bool) -> Check {
    let mut units = vec![unit("doc-examples", doc_examples)];
    for (p, idlen) in aprofiles(thorough) {
        let q = p.clone();
        units.push(unit(format!("written-{}", p.name), move |ctx| s05_written(ctx, &q, idlen)));
        let n = if p.nstates() > 1000 { 4 } else { 1 };
        for sh in 0..n {
            let q = p.clone();
            units.push(unit(format!("conforming-{}#{sh}", p.name), move |ctx| s05_conforming(ctx, &q, idlen, sh, n)));
        }
    }
    units.extend(length_units(thorough, "lengths-written", s05_written));
    units.extend(length_units(thorough, "lengths-conforming", |ctx, p, idlen| s05_conforming(ctx, p, idlen, 0, 1)));
    // larger universes: every content written once
    for (p, n) in crate::c_map::map_profiles(thorough) {
        if p.nstates() > if thorough { 200_000 } else { 40_000 } {
            continue;
        }
        for sh in 0..n {
            let p = p.clone();
            units.push(unit(format!("all-{}#{sh}", p.name), move |ctx| {
                let s = InternStore::new(4, 1);
                for k in (sh as u64..p.nstates()).step_by(n) {
                    let m = p.map(&p.nth(k));
                    if k % 16 == 0 {
                        crate::tick();
                    }
                    ctx.states += 1;
                    ctx.nontrivial += (m.len() >= 2) as u64;
                    guarded(
                        || format!("content {}", show_map(&m)),
                        || {
                            let mut t = ok("attach", build(&m).try_attached(dynstore(s.clone())))?;
                            written(&mut t, &m, &s, ctx)
                        },
                    )?;
                }
                Ok(())
            }));
        }
    }
    for kind in 0..crate::c_attach::KINDS {
        units.push(unit(format!("wide-{kind}"), move |ctx| {
            let ws: Vec<usize> = if ctx.thorough { (1..257).collect() } else { WIDES.to_vec() };
            for w in ws {
                crate::tick();
                let m = wide_content(w, kind);
                let mut p = Profile::new("wide", m.keys().take(3).cloned().collect(), vec![v("x")]);
                p.probes.extend((0..=255u8).map(|b| vec![b]));
                ctx.states += 1;
                ctx.nontrivial += 1;
                guarded(
                    || format!("{w} children of kind {kind}"),
                    || {
                        let s = InternStore::new(8, 1);
                        let mut t = ok("attach", build(&m).try_attached(dynstore(s.clone())))?;
                        written(&mut t, &m, &s, ctx)?;
                        for e in ENCS {
                            conforming(&m, &p, *e, &s, ctx)?;
                        }
                        stores(&m, ctx)
                    },
                )?;
            }
            Ok(())
        }));
    }
    // record sizes around the limit of the size byte
    units.push(unit("record-sizes", |ctx| {
        for l in 0..=127usize {
            for n in [1usize, 2, 3] {
                for vl in [0usize, 1, 100, 120, 124, 125, 126, 127, 128] {
                    crate::tick();
                    let mut m = Map::new();
                    for i in 0..n {
                        let mut k = vec![b'a' + i as u8];
                        k.resize(l.max(1), b'k');
                        m.insert(k, val(vl, b'v'));
                    }
                    m.insert(vec![], vec![]);
                    ctx.states += 1;
                    guarded(
                        || format!("content {}", show_map(&m)),
                        || {
                            let s = InternStore::new(8, 1);
                            let mut t = ok("attach", build(&m).try_attached(dynstore(s.clone())))?;
                            written(&mut t, &m, &s, ctx)?;
                            let p = Profile::new("r", m.keys().cloned().collect(), vec![v("x")]);
                            g_reads(&t, &m, &p.probes)
                        },
                    )?;
                }
            }
        }
        Ok(())
    }));
    Check {
        id: "S05",
        level: "model_checking",
        rule: "the blocks written in every transition of the graphs of S01, and for every content of the universes of T01, are decoded by an independent decoder that checks well-formedness, and compared with the bytes of an independent encoder; blocks of the encoder in 7 styles (short data stored indirectly, paths not compressed) are read by the library; the examples of the documentation; non-trivial: at least two entries",
        bounds: "as S01; all contents of the universes of T01 up to 40000 (thorough 200000) contents; record sizes up to 260; ids of length 1..126, also mixed".into(),
        assumptions: vec!["64 bit platform", "the description does not require that blocks are path compressed or that short data is inline, so reading must not either"],
        units,
        quarantine: false,
    }
}

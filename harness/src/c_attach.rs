//! S01 to S04: trees attached to stores.
use crate::c_join::{aval, bval};
use crate::core::*;
use crate::eng_attach::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::refmodel::{Join, JOINS};
use crate::stores::*;
use crate::tree::*;
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, NodeConverter, Value, ValueRef};
use radixdb::store::{BlobStore, Detached, DynBlobStore, MemStore, NoError, PagedFileStore};
use radixdb::RadixTree;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

fn x1() -> Vec<Vec<u8>> {
    vec![v("x")]
}
/// the universes with the id length of the store
pub fn aprofiles(thorough: bool) -> Vec<(Profile, usize)> {
    let mut r = vec![
        (bin(b'a', b'b', 2, x1()), 8),
        (bin(0, 0xff, 2, vec![val(200, b'L')]), 2),
        (bin(0x7f, 0x80, 1, vec![vec![], v("x"), val(8, b'y'), val(9, b'z')]), 32),
        (tern(1, vec![v("x"), val(128, b'L')]), 126),
        (chain(5, 1, x1()), 4),
        (Profile::new("values", vec![v(""), v("a"), v("ab")], [0, 1, 8, 9, 127, 128, 300].iter().map(|n| val(*n, b'v')).collect()), 8),
        // keys and values that look like records
        (
            Profile::new(
                "records",
                vec![v("a"), v("b"), vec![b'c', 0, 0, 1, b'x'], v("d")],
                vec![vec![], v("1"), vec![0, 0, 1, b'x', 1, b'y'], [&[0x80, 0x80, 0, 0, 0, 1, b'x', 0, 0x80][..], &[1, b'z', 0]].concat()],
            ),
            7,
        ),
        (Profile::new("id1", vec![v(""), v("a"), v("ab"), v("b")], x1()), 1),
    ];
    for l in if thorough { vec![7, 8, 9, 64, 126, 127, 128, 129, 255, 256, 300] } else { vec![8, 9, 127, 128, 256] } {
        for tail in [false, true] {
            let s = segs(l, tail);
            let (a, b) = (&s[0], &s[1]);
            let keys = vec![vec![], a.clone(), [&a[..], a].concat(), [&a[..], b].concat(), b.clone()];
            r.push((Profile::new(format!("seg{l}{}", if tail { "t" } else { "h" }), keys, x1()), if l % 2 == 0 { 8 } else if l == 9 { 12 } else { 3 }));
        }
    }
    // a long prefix that is cut in its inner part
    let l = val(200, b'p');
    r.push((
        Profile::new("cut", vec![l[..1].to_vec(), l[..100].to_vec(), l[..130].to_vec(), l.clone(), [&l[..150], b"q"].concat()], x1()),
        8,
    ));
    r.push((seg(128, true, 2, x1()), 8));
    r.push((seg(9, false, 2, vec![vec![]]), 8));
    r.push((chain(4, 130, x1()), 8));
    r.push((Profile::new("mixed", vec![v(""), v("a"), val(128, b'a'), [&val(128, b'a')[..], b"b"].concat(), [&val(127, b'a')[..], b"c"].concat()], vec![v("x"), val(128, b'L')]), 8));
    if thorough {
        r.push((bin(b'a', b'b', 2, vec![v("x"), val(130, b'y')]), 8));
        r.push((chain(8, 3, x1()), 8));
        r.push((tern(1, vec![vec![], v("x"), val(9, b'M'), val(128, b'L')]), 8));
        let mut k = words(&[v("a"), v("b")], 3);
        k.truncate(11);
        r.push((Profile::new("bin-d3-part", k, x1()), 8));
        r.push((Profile::new("mixed6", vec![v(""), v("a"), val(128, b'a'), [&val(128, b'a')[..], b"b"].concat(), [&val(127, b'a')[..], b"c"].concat(), v("b")], vec![v("x"), val(128, b'L')]), 8));
    }
    r
}
/// units that run `f` for the profile of every length, in stores with ids of different lengths
pub fn length_units(thorough: bool, name: &str, f: impl Fn(&mut Ctx, &Profile, usize) -> R<()> + Clone + Send + 'static) -> Vec<Unit> {
    (0..LENGTH_GROUPS)
        .map(|g| {
            let f = f.clone();
            unit(format!("{name}#{g}"), move |ctx| {
                for (i, mut p) in length_group_small(thorough, g).into_iter().enumerate() {
                    if p.keys.len() > 3 {
                        // by turns without the continuation, the string, or the side branch
                        p.keys.remove(1 + i % 3);
                        p = Profile::new(p.name.clone(), p.keys, p.vals);
                    }
                    f(ctx, &p, [8, 2, 32, 126, 5][i % 5])?;
                }
                Ok(())
            })
        })
        .collect()
}
pub fn attach(t: &RadixTree, st: &DynBlobStore) -> R<DT> {
    ok("attach", t.try_attached(st.clone()))
}
pub fn is_build(t: &RadixTree, m: &Map) -> R<()> {
    let w = build(m);
    ensure!(*t == w && w == *t, "the detached tree is not equal to the tree with the content {}", show_map(m));
    check_iter(t, m)
}
fn bad_reads(s: &Arc<InternStore>) -> R<()> {
    ensure!(s.bad_reads.load(SeqCst) == 0, "the store was asked {} times for an id that it never returned", s.bad_reads.load(SeqCst));
    Ok(())
}

// ---------------------------------------------------------------- S01

/// everything S01 says about one attached tree
fn s01_state(t: &DT, m: &Map, other: &Arc<InternStore>, evals: &mut u64) -> R<()> {
    let st = RadixTree::store(t).clone();
    let d = ok("detach", t.try_detached())?;
    is_build(&d, m)?;
    let o: DynBlobStore = other.clone();
    let mut a = attach(&d, &o)?;
    g_check(&a, m)?;
    let id = ok("reattach", a.try_reattach())?;
    g_check(&a, m)?;
    let b = ok("load", RadixTree::try_load(o.clone(), Some(&id)))?;
    g_check(&b, m)?;
    is_build(&ok("detach", b.try_detached())?, m)?;
    is_build(&ok("detach", a.try_detached())?, m)?;
    // written back where it is
    let mut c = t.clone();
    let id = ok("reattach", c.try_reattach())?;
    g_check(&c, m)?;
    g_check(t, m)?;
    let b = ok("load", RadixTree::try_load(st, Some(&id)))?;
    g_check(&b, m)?;
    is_build(&ok("detach", b.try_detached())?, m)?;
    // a second time
    let mut b2 = b.clone();
    let id2 = ok("reattach", b2.try_reattach())?;
    g_check(&ok("load", RadixTree::try_load(RadixTree::store(t).clone(), Some(&id2)))?, m)?;
    *evals += 10;
    Ok(())
}
fn fresh_file(page: u64) -> R<(std::fs::File, PagedFileStore)> {
    let f = memfd();
    let s = ok("PagedFileStore::new", PagedFileStore::new(f.try_clone().unwrap(), page))?;
    Ok((f, s))
}
/// round trip through a library store with a fresh handle
fn s01_store(m: &Map, page: Option<u64>, evals: &mut u64) -> R<()> {
    let t = build(m);
    let (file, st): (Option<std::fs::File>, DynBlobStore) = match page {
        None => (None, Arc::new(MemStore::default())),
        Some(p) => {
            let (f, s) = fresh_file(p)?;
            (Some(f), Arc::new(s))
        }
    };
    let mut a = attach(&t, &st)?;
    g_check(&a, m)?;
    let id = ok("reattach", a.try_reattach())?;
    g_check(&a, m)?;
    is_build(&ok("detach", a.try_detached())?, m)?;
    let b = ok("load", RadixTree::try_load(st.clone(), Some(&id)))?;
    g_check(&b, m)?;
    is_build(&ok("detach", b.try_detached())?, m)?;
    if let (Some(f), Some(p)) = (file, page) {
        ok("sync", st.sync())?;
        drop((a, st));
        let s2 = ok("reopen", PagedFileStore::new(f.try_clone().unwrap(), p))?;
        ensure!(s2.last_id().map(|x| x.to_vec()) == Some(id.clone()), "last_id after reopening is {:?} instead of the root id {:?}", s2.last_id(), id);
        let s2: DynBlobStore = Arc::new(s2);
        let c = ok("load", RadixTree::try_load(s2, Some(&id)))?;
        g_check(&c, m)?;
        is_build(&ok("detach", c.try_detached())?, m)?;
        g_check(&b, m)?;
        *evals += 3;
    }
    *evals += 6;
    Ok(())
}
/// contents with so many levels: keys that are prefixes of each other, with side branches or without
pub fn deep_content(n: usize, branches: bool) -> Map {
    let mut m = Map::new();
    let mut k = vec![];
    for i in 0..n {
        if branches {
            // each fourth level has only one child and a value, the others two or three children
            k.extend(vec![b'a' + (i % 5) as u8; 1 + i % 3]);
            if i % 4 == 0 {
                m.insert(k.clone(), val(i % 12, b'v'));
            } else {
                m.insert([&k[..], &[0, 255]].concat(), val(if i % 50 == 7 { 200 } else { i % 3 }, b's'));
                if i % 3 == 0 {
                    m.insert([&k[..], &[255]].concat(), vec![]);
                }
            }
        } else {
            k.push(b'a');
            m.insert(k.clone(), vec![i as u8]);
        }
    }
    m
}
/// kinds of contents with many children on one node (0 to 5, below another node 8) or many levels
pub const KINDS: usize = 9;
pub fn wide_content(w: usize, kind: usize) -> Map {
    if kind == 8 {
        // two nodes with many children below another one, with neighbours
        let mut m: Map = ["a", "pa", "z"].iter().map(|k| (v(k), val(3, b'n'))).collect();
        for b in 0..w {
            let c = (255 - b) as u8;
            m.insert([&[b'p', b'q', c][..], &val(b % 4, b't')].concat(), val(b % 11, b'v'));
            m.insert(vec![b'p', b'r', c, b't'], val(if b % 7 == 0 { 130 } else { 2 }, b'v'));
        }
        if w % 2 == 1 {
            m.insert(v("pq"), val(9, b'r'));
        }
        if w % 4 == 1 {
            // the node is the last one on its path
            m.retain(|k, _| k < &v("pr"));
        }
        return m;
    }
    if kind >= 6 {
        return deep_content(w, kind == 7);
    }
    let mut m = Map::new();
    for b in 0..w {
        // spread over the byte range
        let c = if w > 200 { b as u8 } else { (b * 255 / w.max(2)) as u8 };
        match kind {
            0 => {
                m.insert(vec![c], vec![b'v']);
            }
            1 => {
                m.insert(vec![c], val(b % 11, b'v'));
            }
            2 => {
                m.insert(vec![c], val(if b % 7 == 0 { 130 } else { b % 3 }, b'v'));
                if b % 5 == 0 {
                    m.insert(vec![c, 1], vec![]);
                }
            }
            3 => {
                m.insert([&[c][..], &val(129, b'k')].concat(), vec![c]);
            }
            5 => {
                // the largest records that hold everything inline: with all 256 children more than 64 KiB
                m.insert([&[c][..], &ramp(126)].concat(), [&[c][..], &ramp(126)].concat());
                if b % 3 != 1 {
                    m.insert([&[c][..], &ramp(126), &[c]].concat(), vec![]);
                }
            }
            _ => {
                // records of one size but with children
                m.insert(vec![c, b'l'], vec![c]);
                m.insert(vec![c, b'r'], vec![c]);
            }
        }
    }
    if w % 2 == 1 {
        m.insert(vec![], val(kind, b'r'));
    }
    m
}
pub const WIDES: &[usize] = &[1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 32, 33, 48, 64, 65, 85, 127, 128, 129, 254, 255, 256];

fn s01_graph(ctx: &mut Ctx, q: &Profile, idlen: usize) -> R<()> {
    let s = InternStore::new(idlen, 0x11);
    let o = InternStore::new(if idlen == 1 { 2 } else { 5 }, 0x22);
    let mut evals = 0;
    let o2 = o.clone();
    let sts = aexplore(
        q,
        &s,
        ctx,
        |_, _, _, _| Ok(()),
        |ctx, tr| {
            if matches!(tr.op, AOp::Persist | AOp::Reload | AOp::Detach) {
                g_check(tr.t, tr.m)?;
                ctx.evals += 1;
            }
            if tr.new {
                s01_state(tr.t, tr.m, &o2, &mut ctx.evals)?;
            }
            Ok(())
        },
    )?;
    s01_state(&sts[0].t, &Map::new(), &o, &mut evals)?;
    ctx.evals += evals;
    let e = ok("load", RadixTree::try_load(dynstore(s.clone()), None::<Vec<u8>>))?;
    g_check(&e, &Map::new())?;
    bad_reads(&s)?;
    bad_reads(&o)
}

pub fn s01(thorough: bool) -> Check {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        units.push(unit(format!("graph-{}", p.name), move |ctx| s01_graph(ctx, &p, idlen)));
    }
    units.extend(length_units(thorough, "lengths", s01_graph));
    units.extend(length_units(thorough, "lengths-stores", |ctx, p, _| {
        for k in 0..p.nstates() {
            crate::tick();
            let m = p.map(&p.nth(k));
            ctx.states += 1;
            ctx.traces += 1;
            ctx.nontrivial += (m.len() >= 2) as u64;
            for page in [None, Some(if p.vals[0].len() < 1000 { 1024 } else { 1 << 20 })] {
                guarded(|| format!("content {}", show_map(&m)), || s01_store(&m, page, &mut ctx.evals))?;
            }
        }
        Ok(())
    }));
    for (p, _) in aprofiles(thorough) {
        for page in [None, Some(1024u64), Some(4096), Some(1 << 16)] {
            let p = p.clone();
            let name = match page {
                None => "mem".to_string(),
                Some(x) => format!("file{x}"),
            };
            units.push(unit(format!("{name}-{}", p.name), move |ctx| {
                for k in 0..p.nstates() {
                    crate::tick();
                    let m = p.map(&p.nth(k));
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.nontrivial += (m.len() >= 2) as u64;
                    guarded(|| format!("content {}", show_map(&m)), || s01_store(&m, page, &mut ctx.evals))?;
                }
                Ok(())
            }));
        }
    }
    for kind in 0..KINDS {
        units.push(unit(format!("wide-{kind}"), move |ctx| {
            for &w in WIDES {
                crate::tick();
                let m = wide_content(w, kind);
                let s = InternStore::new(8, 1);
                let o = InternStore::new(3, 2);
                ctx.states += 1;
                ctx.traces += 1;
                ctx.nontrivial += 1;
                guarded(
                    || format!("{w} children of kind {kind}"),
                    || {
                        let t = attach(&build(&m), &dynstore(s.clone()))?;
                        s01_state(&t, &m, &o, &mut ctx.evals)?;
                        s01_store(&m, None, &mut ctx.evals)?;
                        s01_store(&m, Some(1 << 17), &mut ctx.evals)?;
                        bad_reads(&s)?;
                        bad_reads(&o)
                    },
                )?;
            }
            Ok(())
        }));
    }
    // large values, up to what the store can hold
    units.push(unit("large-values", |ctx| {
        for n in [1000usize, 1016, 1017, 4088, 65528] {
            let m: Map = [(v("k"), val(n, b'v')), (val(900, b'k'), val(n / 2, b'w'))].into_iter().collect();
            for page in [Some(1u64 << 16), Some((n as u64 + 8).next_multiple_of(4096)), None] {
                crate::tick();
                ctx.states += 1;
                guarded(|| format!("values of {n} bytes"), || s01_store(&m, page, &mut ctx.evals))?;
            }
        }
        Ok(())
    }));
    units.extend(crate::c_types::s01_units());
    Check {
        id: "S01",
        level: "model_checking",
        rule: "breadth first to closure over contents and persistence states of trees attached to a content-addressed store; in each state: detach, attach to another store, write, load in a fresh handle, write again; plus all contents through MemStore and PagedFileStore with reopening; non-trivial: at least two entries",
        bounds: "6 types of stores (zero sized, large, infallible, with ids of changing length, with errors of their own, paged) in 12 pairs; universes of 3-7 keys (thorough 11) with prefixes and values around the limits 8, 127, 128, 256; 1..256 children; id lengths 1, 2, 3, 4, 5, 8, 32, 126; page sizes 1024, 4096, 65536".into(),
        assumptions: vec!["64 bit platform", "a page can hold the blobs of the tree"],
        units,
        quarantine: false,
    }
}

/// T08: detached trees are equal to what was attached
pub fn detach_equal(ctx: &mut Ctx) -> R<()> {
    for (p, idlen) in aprofiles(false).into_iter().filter(|x| ["bin6162d2v1", "cut", "seg128t", "seg9h"].contains(&&x.0.name[..])) {
        let s = InternStore::new(idlen, 9);
        let sts = states_only(&p, &s, ctx)?;
        for st in &sts {
            crate::tick();
            guarded(|| format!("attached tree with content {}", show_map(&st.m)), || is_build(&ok("detach", st.t.try_detached())?, &st.m))?;
            ctx.evals += 2;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S02

/// what the attached tree reports about its root
pub fn g_root<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map) -> R<()>
where
    S::Error: std::fmt::Debug,
{
    let st = RadixTree::store(t);
    ensure!(t.is_empty() == m.is_empty(), "is_empty() is {} for content {}", t.is_empty(), show_map(m));
    ensure!(t.is_leaf() == (m.len() <= 1), "is_leaf() is {} for content {}", t.is_leaf(), show_map(m));
    let l = rm::lcp(m);
    let p = ld(&t.prefix(), st).map_err(|e| format!("{e:?}"));
    ensure!(p.as_ref() == Ok(&l), "prefix() is {:?} instead of {} for content {}", p.map(|x| show(&x)), show(&l), show_map(m));
    let v = t.value().map(|v| ld(&v, st).map_err(|e| format!("{e:?}")));
    ensure!(v == m.get(&l).map(|x| Ok(x.clone())), "value() is {:?} for content {}", v.map(|x| x.map(|y| show(&y))), show_map(m));
    Ok(())
}
fn s02_state(t: &DT, m: &Map, p: &Profile, ctx: &mut Ctx, deep: bool) -> R<()> {
    g_reads(t, m, &p.probes)?;
    g_root(t, m)?;
    ctx.evals += 6 + 4 * p.probes.len() as u64;
    let subst = [vec![], v("s"), val(9, b's'), val(130, b's')];
    g_filter(t, m, &p.prefixes, if deep { &subst } else { &subst[..2] })?;
    ctx.evals += (p.prefixes.len() * if deep { 4 } else { 2 }) as u64;
    g_groups(t, m, if deep { 7 } else { 4 }, &mut ctx.evals)
}
pub fn s02(thorough: bool) -> Check {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        let n = if p.nstates() > 1000 { 8 } else { 2 };
        for sh in 0..n {
            let p = p.clone();
            units.push(unit(format!("{}#{sh}", p.name), move |ctx| {
                let s = InternStore::new(idlen, 0x11);
                let sts = states_only(&p, &s, &mut Ctx::default())?;
                for (i, st) in sts.iter().enumerate() {
                    if i % n != sh {
                        continue;
                    }
                    crate::tick();
                    ctx.states += 1;
                    ctx.transitions += 1;
                    ctx.traces += 1;
                    ctx.nontrivial += (st.m.len() >= 2) as u64;
                    let deep = ctx.thorough || sts.len() < 400;
                    guarded(|| format!("after {}", ahistory(&p, &sts, i)), || s02_state(&st.t, &st.m, &p, ctx, deep))?;
                }
                if sh == 0 {
                    ctx.sample(|| ahistory(&p, &sts, sts.len() / 2));
                }
                bad_reads(&s)
            }));
        }
    }
    units.extend(length_units(thorough, "lengths", |ctx, p, idlen| {
        let s = InternStore::new(idlen, 0x11);
        let sts = states_only(p, &s, ctx)?;
        for (i, st) in sts.iter().enumerate() {
            crate::tick();
            guarded(|| format!("after {}", ahistory(p, &sts, i)), || s02_state(&st.t, &st.m, p, ctx, true))?;
        }
        bad_reads(&s)
    }));
    for kind in 0..KINDS {
        units.push(unit(format!("wide-{kind}"), move |ctx| {
            for &w in WIDES {
                crate::tick();
                let m = wide_content(w, kind);
                let s = InternStore::new(8, 1);
                let mut probes: Vec<Vec<u8>> = (0..256usize).map(|b| vec![b as u8]).collect();
                for k in m.keys().step_by(3) {
                    probes.push(k.clone());
                    probes.push([&k[..], b"x"].concat());
                    if k.len() > 100 {
                        probes.push(k[..100].to_vec());
                    }
                }
                probes.push(vec![]);
                ctx.states += 1;
                ctx.nontrivial += 1;
                guarded(
                    || format!("{w} children of kind {kind}"),
                    || {
                        let mut t = attach(&build(&m), &dynstore(s.clone()))?;
                        ok("reattach", t.try_reattach())?;
                        g_reads(&t, &m, &probes)?;
                        g_filter(&t, &m, &probes[250..], &[vec![], v("x")])?;
                        ctx.evals += 4 * probes.len() as u64;
                        // a part of it loaded and modified
                        let mut m2 = m.clone();
                        for k in [vec![0u8, 7], vec![128, 7], vec![255, 7]] {
                            ok("insert", t.try_insert(&k, b"new"))?;
                            m2.insert(k, v("new"));
                        }
                        ctx.transitions += 3;
                        g_reads(&t, &m2, &probes)
                    },
                )?;
            }
            Ok(())
        }));
    }
    Check {
        id: "S02",
        level: "model_checking",
        rule: "all states (content and persistence state) reachable by modifications, write-backs, loads, detach/attach; in each all queries for all probe strings are compared with the reference; non-trivial: at least two entries",
        bounds: "6 types of stores (zero sized, large, infallible, with ids of changing length, with errors of their own, paged) in 12 pairs; universes of 3-7 keys (thorough 11) with prefixes and values around the limits 8, 127, 128, 256; 1..256 children; id lengths 1..126; group_by decision tables over up to 7 positions".into(),
        assumptions: vec!["64 bit platform"],
        units,
        quarantine: false,
    }
}

// ---------------------------------------------------------------- S03

fn ld<S: BlobStore + Clone>(x: &ValueRef<S>, st: &S) -> Result<Vec<u8>, S::Error> {
    Ok(x.to_owned().load(st)?.to_vec())
}
pub type Log = RefCell<Vec<(Vec<u8>, Vec<u8>)>>;
/// decision for the key with the given index: K keep, T take, D drop
pub type Table = &'static [u8];
pub const TABLES: &[Table] = &[b"KKKKKKK", b"TTTTTTT", b"DDDDDDD", b"KTDKTDK", b"DKTTDKD"];
pub fn dec(tab: Table, b: &[u8]) -> u8 {
    tab[(b[1] - b'0') as usize % tab.len()]
}
pub fn fun<A: BlobStore + Clone, B: BlobStore + Clone>(j: Join, a: &RadixTree<A>, b: &RadixTree<B>, tab: Table, log: &Log) -> Result<RadixTree, anyhow::Error>
where
    anyhow::Error: From<A::Error> + From<B::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let f = |x: &ValueRef<A>, y: &ValueRef<B>| -> Result<Option<Value>, anyhow::Error> {
        fault_point("the combiner")?;
        let (x, y) = (ld(x, sa)?, ld(y, sb)?);
        log.borrow_mut().push((x.clone(), y.clone()));
        Ok(match dec(tab, &y) {
            b'K' => Some(value_of(&x)),
            b'T' => Some(value_of(&y)),
            _ => None,
        })
    };
    match j {
        Join::Outer => a.try_outer_combine::<B, anyhow::Error, _>(b, f),
        Join::Inner => a.try_inner_combine::<B, anyhow::Error, _>(b, f),
        Join::Left => a.try_left_combine::<B, anyhow::Error, _>(b, f),
    }
}
pub fn pred<A: BlobStore + Clone, B: BlobStore + Clone>(inner: bool, a: &RadixTree<A>, b: &RadixTree<B>, tab: Table) -> Result<bool, anyhow::Error>
where
    anyhow::Error: From<A::Error> + From<B::Error>,
{
    let sb = RadixTree::store(b);
    let f = |_: &ValueRef<A>, y: &ValueRef<B>| -> Result<bool, anyhow::Error> {
        fault_point("the predicate")?;
        Ok(dec(tab, &ld(y, sb)?) == b'T')
    };
    if inner {
        a.try_inner_combine_pred::<B, anyhow::Error, _>(b, f)
    } else {
        a.try_left_combine_pred::<B, anyhow::Error, _>(b, f)
    }
}
pub fn inp<A: BlobStore + Clone, B: BlobStore + Clone, C: NodeConverter<B, A> + Clone>(j: Join, a: &mut RadixTree<A>, b: &RadixTree<B>, c: C, tab: Table, log: &Log) -> Result<(), A::Error>
where
    A::Error: From<B::Error> + From<NoError>,
{
    let sa = RadixTree::store(a).clone();
    let sb = RadixTree::store(b);
    let sa = &sa;
    let f = move |x: &mut Value<A>, y: &ValueRef<B>| -> Result<(), A::Error> {
        fault_point("the combiner")?;
        let xv = x.load(sa)?.to_vec();
        let yv = ld(y, sb)?;
        match dec(tab, &yv) {
            b'K' => {}
            b'T' => {
                let t = RadixTree::single(b"", &yv);
                x.set(t.value().as_ref().map(|v| v.downcast()));
            }
            _ => x.set(None),
        }
        log.borrow_mut().push((xv, yv));
        Ok(())
    };
    match j {
        Join::Outer => a.try_outer_combine_with(b, c, f),
        Join::Inner => a.try_inner_combine_with(b, c, f),
        Join::Left => a.try_left_combine_with(b, c, f),
    }
}
/// as users write it when both trees use one store
fn inp_same(j: Join, a: &mut DT, b: &DT, tab: Table, log: &Log) -> Result<(), anyhow::Error> {
    let st = RadixTree::store(a).clone();
    let f = |x: &mut Value<DynBlobStore>, y: &ValueRef<DynBlobStore>| -> Result<(), anyhow::Error> {
        let xv = x.load(&st)?.to_vec();
        let yv = ld(y, &st)?;
        match dec(tab, &yv) {
            b'K' => {}
            b'T' => x.set(Some(y)),
            _ => x.set(None),
        }
        log.borrow_mut().push((xv, yv));
        Ok(())
    };
    match j {
        Join::Outer => a.try_outer_combine_with(b, IdentityConverter, f),
        Join::Inner => a.try_inner_combine_with(b, IdentityConverter, f),
        Join::Left => a.try_left_combine_with(b, IdentityConverter, f),
    }
}
pub fn pre<A: BlobStore + Clone, B: BlobStore + Clone>(keep: bool, a: &mut RadixTree<A>, b: &RadixTree<B>, tab: Table) -> Result<(), A::Error>
where
    A::Error: From<B::Error> + From<NoError>,
{
    let sb = RadixTree::store(b);
    let f = |y: &ValueRef<B>| -> Result<bool, A::Error> {
        fault_point("the predicate")?;
        Ok(dec(tab, &ld(y, sb)?) == b'T')
    };
    if keep {
        a.try_retain_prefix_with(b, f)
    } else {
        a.try_remove_prefix_with(b, f)
    }
}
pub fn ref_dec(tab: Table, a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    match dec(tab, b) {
        b'K' => Some(a.to_vec()),
        b'T' => Some(b.to_vec()),
        _ => None,
    }
}
fn check_log(log: &Log, am: &Map, bm: &Map) -> R<()> {
    let mut l = log.borrow_mut();
    l.sort();
    let mut want: Vec<_> = am.iter().filter_map(|(k, v)| bm.get(k).map(|w| (v.clone(), w.clone()))).collect();
    want.sort();
    ensure!(*l == want, "the combiner was called with {} pairs instead of {}, or with wrong values", l.len(), want.len());
    l.clear();
    Ok(())
}
pub fn e2s<T, E: std::fmt::Debug>(r: Result<T, E>) -> R<T> {
    r.map_err(|e| Viol { what: format!("fails: {e:?}") })
}
/// A family of keys; value of key i is aval(i) or bval(i), made long for some keys
fn lval(mut x: Vec<u8>, i: usize) -> Vec<u8> {
    if i % 3 == 1 {
        x.resize(140, b'.');
    }
    x
}
/// all persistence forms of all contents over the keys with one value each
fn forms(keys: &[Vec<u8>], left: bool, store: &Arc<InternStore>, per_content: usize) -> R<Vec<(Map, DT)>> {
    Ok(Forms::new(keys, left, store.clone(), per_content)?.sts.into_iter().map(|x| (x.m, x.t)).collect())
}
pub struct Forms {
    pub p: Profile,
    pub all: Map,
    pub st: DynBlobStore,
    pub sts: Vec<ASt>,
}
impl Forms {
    pub fn new(keys: &[Vec<u8>], left: bool, st: DynBlobStore, per_content: usize) -> R<Forms> {
        let all: Map = keys
            .iter()
            .enumerate()
            .map(|(i, k)| (k.clone(), lval(if left { aval(i) } else { bval(i, b'V') }, i)))
            .collect();
        // explore with the final values: one profile whose value depends on the key
        let p = Profile::new("forms", keys.to_vec(), vec![v("x")]);
        let sts = vec![ASt { m: Map::new(), t: RadixTree::empty(st.clone()), prev: None }];
        let mut f = Forms { p, all, st, sts };
        let mut seen: HashMap<Map, Vec<(u64, u64)>> = HashMap::new();
        seen.insert(Map::new(), vec![fingerprint(&f.sts[0].t)]);
        let mut i = 0;
        while i < f.sts.len() {
            for o in aops(&f.p) {
                let mut m = f.sts[i].m.clone();
                let mut t = f.sts[i].t.clone();
                f.apply(o, &mut t, &mut m)?;
                let fp = fingerprint(&t);
                let vs = seen.entry(m.clone()).or_default();
                if !vs.contains(&fp) && vs.len() < per_content {
                    vs.push(fp);
                    f.sts.push(ASt { m, t, prev: Some((i, o)) });
                }
            }
            i += 1;
        }
        Ok(f)
    }
    fn apply(&self, o: AOp, t: &mut DT, m: &mut Map) -> R<()> {
        match o {
            AOp::Insert(k, _) => {
                let k = &self.p.keys[k as usize];
                e2s(t.try_insert(k, &self.all[k]))?;
                m.insert(k.clone(), self.all[k].clone());
            }
            _ => {
                apply_a(&self.p, t, o)?;
                step_amap(&self.p, m, o);
            }
        }
        Ok(())
    }
    /// built again, sharing nothing
    pub fn fresh(&self, mut i: usize) -> R<DT> {
        let mut h = vec![];
        while let Some((j, o)) = self.sts[i].prev {
            h.push(o);
            i = j;
        }
        let mut t = RadixTree::empty(self.st.clone());
        let mut m = Map::new();
        for o in h.into_iter().rev() {
            self.apply(o, &mut t, &mut m)?;
        }
        Ok(t)
    }
}
struct Side {
    m: Map,
    t: DT,
    d: RadixTree,
}
fn s03_pair(a: &Side, b: &Side, b2: &Side, tabs: &[Table], ctx: &mut Ctx, log: &Log) -> R<()> {
    let (am, bm) = (&a.m, &b.m);
    for &tab in tabs {
        for j in JOINS {
            let want = rm::join(j, am, bm, |x, y| ref_dec(tab, x, y));
            let what = |s: &str| format!("{j:?} combine, {s}, decisions {}", show(tab));
            let chk_d = |r: &RadixTree, s: &str| -> R<()> {
                check_iter(r, &want)
                    .and_then(|_| check_log(log, am, bm))
                    .and_then(|_| {
                        ensure!(r.is_empty() == want.is_empty(), "is_empty() is wrong");
                        Ok(())
                    })
                    .map_err(|v| Viol { what: format!("{}: {}", what(s), v.what) })
            };
            chk_d(&e2s(fun(j, &a.t, &b.t, tab, log))?, "functional, attached and attached")?;
            chk_d(&e2s(fun(j, &a.t, &b2.t, tab, log))?, "functional, attached to different stores")?;
            chk_d(&e2s(fun(j, &a.t, &b.d, tab, log))?, "functional, attached and in memory")?;
            chk_d(&e2s(fun(j, &a.d, &b.t, tab, log))?, "functional, in memory and attached")?;
            let chk_a = |r: Result<(), anyhow::Error>, t: &DT, s: &str| -> R<()> {
                e2s(r).and_then(|_| g_check(t, &want)).and_then(|_| check_log(log, am, bm)).and_then(|_| {
                    ensure!(t.is_empty() == want.is_empty(), "is_empty() is wrong");
                    Ok(())
                }).map_err(|v| Viol { what: format!("{}: {}", what(s), v.what) })
            };
            let mut t = a.t.clone();
            let r = inp(j, &mut t, &b.t, IdentityConverter, tab, log);
            chk_a(r, &t, "in place, same store")?;
            let mut t = a.t.clone();
            let r = inp_same(j, &mut t, &b.t, tab, log);
            chk_a(r, &t, "in place, same store, values are set directly")?;
            let id = ok("reattach", t.try_reattach())?;
            let l = ok("load", RadixTree::try_load(RadixTree::store(&a.t).clone(), Some(&id)))?;
            g_check(&l, &want).map_err(|v| Viol { what: format!("{}, written and loaded: {}", what("in place, same store, values are set directly"), v.what) })?;
            let mut t = a.t.clone();
            let r = inp(j, &mut t, &b2.t, DetachConverter, tab, log);
            chk_a(r, &t, "in place, different stores")?;
            // what was combined can be written
            let id = ok("reattach", t.try_reattach())?;
            let l = ok("load", RadixTree::try_load(RadixTree::store(&a.t).clone(), Some(&id)))?;
            g_check(&l, &want).map_err(|v| Viol { what: format!("{}, written and loaded: {}", what("in place, different stores"), v.what) })?;
            let mut t = a.t.clone();
            let r = inp(j, &mut t, &b.d, DowncastConverter, tab, log);
            chk_a(r, &t, "in place, right in memory (downcast)")?;
            let mut t = a.t.clone();
            let r = inp(j, &mut t, &b.d, DetachConverter, tab, log);
            chk_a(r, &t, "in place, right in memory (detach)")?;
            let mut t = a.d.clone();
            e2s(inp(j, &mut t, &b.t, DetachConverter, tab, log))?;
            chk_d(&t, "in place, left in memory")?;
            ctx.evals += 11;
        }
        for inner in [true, false] {
            let want = am.iter().any(|(k, _)| match bm.get(k) {
                Some(y) => dec(tab, y) == b'T',
                None => !inner,
            });
            for (s, got) in [
                ("attached and attached", pred(inner, &a.t, &b.t, tab)),
                ("attached to different stores", pred(inner, &a.t, &b2.t, tab)),
                ("attached and in memory", pred(inner, &a.t, &b.d, tab)),
                ("in memory and attached", pred(inner, &a.d, &b.t, tab)),
            ] {
                let got = e2s(got)?;
                ensure!(got == want, "{} predicate, {s}, decisions {}: {got}", if inner { "inner" } else { "left" }, show(tab));
            }
            ctx.evals += 4;
        }
        for keep in [true, false] {
            let want = rm::prefix_set(am, bm, keep, |y| dec(tab, y) == b'T');
            let what = |s: &str| format!("{}_prefix_with, {s}, decisions {}", if keep { "retain" } else { "remove" }, show(tab));
            let chk = |r: Result<(), anyhow::Error>, t: &DT, s: &str| -> R<()> {
                e2s(r).and_then(|_| g_check(t, &want)).map_err(|v| Viol { what: format!("{}: {}", what(s), v.what) })
            };
            let mut t = a.t.clone();
            let r = pre(keep, &mut t, &b.t, tab);
            chk(r, &t, "same store")?;
            let mut t = a.t.clone();
            let r = pre(keep, &mut t, &b2.t, tab);
            chk(r, &t, "different stores")?;
            let id = ok("reattach", t.try_reattach())?;
            let l = ok("load", RadixTree::try_load(RadixTree::store(&a.t).clone(), Some(&id)))?;
            g_check(&l, &want).map_err(|v| Viol { what: format!("{}, written and loaded: {}", what("different stores"), v.what) })?;
            let mut t = a.t.clone();
            let r = pre(keep, &mut t, &b.d, tab);
            chk(r, &t, "right in memory")?;
            let mut t = a.d.clone();
            e2s(pre(keep, &mut t, &b.t, tab))?;
            check_iter(&t, &want).map_err(|v| Viol { what: format!("{}: {}", what("left in memory"), v.what) })?;
            ctx.evals += 4;
        }
        ctx.transitions += 50;
    }
    Ok(())
}
pub fn pair_keys(thorough: bool) -> Vec<(String, Vec<Vec<u8>>, usize)> {
    let w = |x: &[&str]| x.iter().map(|s| v(s)).collect::<Vec<_>>();
    let sg = |l: usize| {
        let s = segs(l, true);
        let (a, b) = (&s[0], &s[1]);
        vec![a.clone(), [&a[..], a].concat(), [&a[..], b].concat(), b.clone()]
    };
    let mut r = vec![
        ("short".to_string(), w(&["", "a", "aa", "ab"]), 8),
        ("nested".to_string(), w(&["a", "aba", "abb", "ab"]), 8),
        ("fan".to_string(), w(&["a", "b", "ca", "cb"]), 8),
        ("seg9".to_string(), sg(9), 8),
        ("seg127".to_string(), sg(127), 8),
        ("seg128".to_string(), sg(128), 8),
        (
            "cut".to_string(),
            {
                let l = val(200, b'p');
                vec![l[..100].to_vec(), l.clone(), [&l[..150], b"q"].concat(), [&l[..], b"r"].concat()]
            },
            8,
        ),
    ];
    r.push(("long".into(), sg(5000), 8));
    r.push(("five".into(), w(&["", "a", "aa", "ab", "b"]), 32));
    if thorough {
        r.push(("deep".into(), w(&["a", "aa", "aaa", "aab", "ab"]), 64));
        r.push(("seg129-5".into(), [sg(129), vec![vec![]]].concat(), 64));
        r.push(("seg256".into(), sg(256), 16));
        r.push(("chain".into(), (0..5).map(|i| vec![b'a'; i]).collect(), 64));
    }
    r
}
/// subtrees obtained by filtering and grouping can be modified and written like any other tree
fn derived(t: &DT, m: &Map, p: &Profile, evals: &mut u64) -> R<()> {
    let st = RadixTree::store(t).clone();
    let k2 = [&p.keys[p.keys.len() / 2][..], b"+"].concat();
    let mut check = |f: &DT, want: &Map, what: &dyn Fn() -> String| -> R<()> {
        *evals += 2;
        let go = || -> R<()> {
            let mut f = f.clone();
            let mut want = want.clone();
            ok("insert", f.try_insert(&k2, b"derived"))?;
            want.insert(k2.clone(), v("derived"));
            g_check(&f, &want)?;
            if let Some(k) = want.keys().next().cloned() {
                ok("remove", f.try_remove(&k))?;
                want.remove(&k);
            }
            let id = ok("reattach", f.try_reattach())?;
            g_check(&f, &want)?;
            g_check(&ok("load", RadixTree::try_load(st.clone(), Some(&id)))?, &want)
        };
        go().map_err(|v| Viol { what: format!("{}, then insert, remove, write: {}", what(), v.what) })
    };
    for q in &p.prefixes {
        for s in [vec![], v("s"), val(130, b's')] {
            let f = ok("filter_prefix", t.try_filter_prefix(q, &s))?;
            check(&f, &rm::filter(m, q, &s), &|| format!("filter_prefix({}, {})", show(q), show(&s)))?;
        }
    }
    for g in t.try_group_by(|p, _| Ok(p.len() < 2)) {
        let g = ok("group_by", g)?;
        let want: Map = match g_entries(&g) {
            Ok(x) => x.into_iter().collect(),
            Err(e) => return viol(e),
        };
        check(&g, &want, &|| format!("the group {}", show_map(&want)))?;
    }
    Ok(())
}
fn s03_graph(ctx: &mut Ctx, p: &Profile, idlen: usize) -> R<()> {
    let s = InternStore::new(idlen, 0x11);
    aexplore(
        p,
        &s,
        ctx,
        |_, _, _, _| Ok(()),
        |ctx, tr| {
            ctx.evals += 2;
            g_check(tr.t, tr.m)?;
            ensure!(tr.t.is_empty() == tr.m.is_empty(), "is_empty() is {} for content {}", tr.t.is_empty(), show_map(tr.m));
            ensure!(tr.t.is_leaf() == (tr.m.len() <= 1), "is_leaf() is {} for content {}", tr.t.is_leaf(), show_map(tr.m));
            if tr.new {
                derived(tr.t, tr.m, tr.p, &mut ctx.evals)?;
            }
            Ok(())
        },
    )?;
    bad_reads(&s)
}
pub fn s03(thorough: bool) -> Check {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        units.push(unit(format!("graph-{}", p.name), move |ctx| s03_graph(ctx, &p, idlen)));
    }
    units.extend(length_units(thorough, "lengths", s03_graph));
    for (i, (name, keys, n)) in pair_keys(thorough).into_iter().enumerate() {
        for sh in 0..n {
            let keys = keys.clone();
            units.push(unit(format!("pairs-{name}#{sh}"), move |ctx| {
                // ids that are stored in the node itself, and longer ones
                let x = InternStore::new(if i % 2 == 0 { 8 } else { 12 }, 0x11);
                let y = InternStore::new(3, 0x22);
                let per = if keys.iter().any(|k| k.len() > 1000) { 2 } else if ctx.thorough { 12 } else { 5 };
                let side = |(m, t): (Map, DT)| -> R<Side> {
                    let d = build(&m);
                    Ok(Side { m, t, d })
                };
                let a: Vec<Side> = forms(&keys, true, &x, per)?.into_iter().map(side).collect::<R<_>>()?;
                let b: Vec<Side> = forms(&keys, false, &x, per)?.into_iter().map(side).collect::<R<_>>()?;
                let b2: Vec<Side> = forms(&keys, false, &y, per)?.into_iter().map(side).collect::<R<_>>()?;
                ensure!(b.len() == b2.len() && b.iter().zip(&b2).all(|(x, y)| x.m == y.m), "the persistence states depend on the store");
                ctx.note("forms", (a.len() + b.len()) as u64 / n as u64);
                let log: Log = RefCell::new(vec![]);
                for (i, sa) in a.iter().enumerate() {
                    if i % n != sh {
                        continue;
                    }
                    for (k, sb) in b.iter().enumerate() {
                        crate::tick();
                        // without common keys all decisions are the same for the joins
                        let common = sa.m.keys().any(|k| sb.m.contains_key(k));
                        let tabs = match (ctx.thorough, common) {
                            (true, true) => TABLES,
                            (true, false) => &TABLES[1..4],
                            (false, true) => &TABLES[1..4],
                            (false, false) => &TABLES[3..4],
                        };
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.nontrivial += (sa.m.len() >= 2 && sb.m.len() >= 2) as u64;
                        guarded(
                            || format!("left {:?} content {}, right {:?} content {}", sa.t, show_map(&sa.m), sb.t, show_map(&sb.m)),
                            || s03_pair(sa, sb, &b2[k], tabs, ctx, &log),
                        )?;
                        ctx.sample(|| format!("left {:?} content {}, right {:?} content {}", sa.t, show_map(&sa.m), sb.t, show_map(&sb.m)));
                    }
                }
                for s in a.iter().chain(&b).chain(&b2) {
                    g_check(&s.t, &s.m).map_err(|v| Viol { what: format!("an operand was changed: {}", v.what) })?;
                    check_iter(&s.d, &s.m).map_err(|v| Viol { what: format!("an operand was changed: {}", v.what) })?;
                }
                bad_reads(&x)?;
                bad_reads(&y)
            }));
        }
    }
    for kind in 0..KINDS {
        units.push(unit(format!("wide-{kind}"), move |ctx| {
            for &w in WIDES {
                let m = wide_content(w, kind);
                let s = InternStore::new(8, 1);
                let mut base = attach(&build(&m), &dynstore(s.clone()))?;
                ok("reattach", base.try_reattach())?;
                for b in [0usize, 1, 2, 63, 127, 128, 200, 253, 254, 255] {
                    let mut ks = vec![vec![b as u8], vec![b as u8, 1], vec![b as u8, b'l']];
                    if let Some(k) = m.keys().nth(b % m.len().max(1)) {
                        ks.push(k.clone());
                    }
                    for k in ks {
                        for o in 0..4 {
                            crate::tick();
                            ctx.transitions += 1;
                            ctx.evals += 3;
                            guarded(
                                || format!("{w} children of kind {kind}, operation {o} with key {}", show(&k)),
                                || {
                                    let mut t = base.clone();
                                    let mut m = m.clone();
                                    match o {
                                        0 => {
                                            ok("insert", t.try_insert(&k, b"new"))?;
                                            m.insert(k.clone(), v("new"));
                                        }
                                        1 => {
                                            ok("remove", t.try_remove(&k))?;
                                            m.remove(&k);
                                        }
                                        2 => {
                                            ok("remove_prefix", t.try_remove_prefix(&k))?;
                                            rm::remove_prefix(&mut m, &k);
                                        }
                                        _ => {
                                            // as the right operand, below the empty key and on top of an existing one
                                            let mut l = attach(&RadixTree::single(&k, b"left"), RadixTree::store(&t))?;
                                            ok("combine", l.try_outer_combine_with(&t, IdentityConverter, |_, _| Ok(())))?;
                                            m.insert(k.clone(), v("left"));
                                            t = l;
                                        }
                                    }
                                    g_check(&t, &m)?;
                                    ok("reattach", t.try_reattach())?;
                                    g_check(&t, &m)
                                },
                            )?;
                        }
                    }
                }
                ctx.states += 1;
                ctx.traces += 1;
                ctx.nontrivial += 1;
            }
            Ok(())
        }));
    }
    units.extend(crate::c_types::s03_units());
    Check {
        id: "S03",
        level: "model_checking",
        rule: "all transitions of the graph of contents and persistence states of each universe; all pairs of (content, persistence state) over 4 keys (thorough 5) for every combination operation, with both operands attached to the same or to different stores or one of them in memory; compared with the reference, also after writing and loading the result; non-trivial: two entries (in both operands)",
        bounds: "6 types of stores (zero sized, large, infallible, with ids of changing length, with errors of their own, paged) in 12 pairs; universes of 3-7 keys (thorough 11) with prefixes and values around the limits 8, 127, 128, 256; up to 5 (thorough 12) persistence states of a content in pairs; 3 (thorough 5) decision tables; 1..256 children".into(),
        assumptions: vec!["64 bit platform", "an in-memory left operand is not combined with a store that fails"],
        units,
        quarantine: false,
    }
}

// ---------------------------------------------------------------- S04

/// programs over versions
const POPS: usize = 18;
struct Prog {
    h: [DT; 2],
    hm: [Map; 2],
    versions: Vec<(Vec<u8>, Map)>,
    loaded: Vec<(DT, Map)>,
    iters: Vec<(radixdb::node::KeyValueIter<DynBlobStore>, DynBlobStore, Vec<(Vec<u8>, Vec<u8>)>)>,
}
fn prog_op(s: &mut Prog, o: usize, keys: &[Vec<u8>; 4]) -> R<()> {
    // even operations act on handle 0, odd ones on handle 1
    let h = o % 2;
    let st = RadixTree::store(&s.h[h]).clone();
    match o / 2 {
        0 => {
            ok("insert", s.h[h].try_insert(&keys[1], b"n1"))?;
            s.hm[h].insert(keys[1].clone(), v("n1"));
        }
        1 => {
            let val = [b'0' + s.versions.len() as u8; 3];
            ok("insert", s.h[h].try_insert(&keys[3], val))?;
            s.hm[h].insert(keys[3].clone(), val.to_vec());
        }
        2 => {
            ok("remove", s.h[h].try_remove(&keys[2]))?;
            s.hm[h].remove(&keys[2]);
        }
        3 => {
            ok("remove_prefix", s.h[h].try_remove_prefix(&keys[1]))?;
            rm::remove_prefix(&mut s.hm[h], &keys[1]);
        }
        4 => {
            let id = ok("reattach", s.h[h].try_reattach())?;
            s.versions.push((id, s.hm[h].clone()));
        }
        5 => {
            // load the oldest (even) or the newest (odd) version
            let i = if h == 0 { 0 } else { s.versions.len() - 1 };
            let (id, m) = s.versions[i].clone();
            s.h[h] = ok("load", RadixTree::try_load(st, Some(&id)))?;
            s.hm[h] = m.clone();
            s.loaded.push((s.h[h].clone(), m));
        }
        6 => {
            // clone the other handle
            s.h[h] = s.h[1 - h].clone();
            s.hm[h] = s.hm[1 - h].clone();
        }
        7 => {
            let mut it = s.h[h].try_iter();
            let mut rest: Vec<_> = s.hm[h].iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            if !rest.is_empty() {
                rest.remove(0);
                match it.next() {
                    Some(Ok(_)) => {}
                    x => return viol(format!("the iterator yields {:?}", x.map(|x| x.map(|_| ())))),
                }
            }
            s.iters.push((it, st, rest));
        }
        _ => {
            // merge the other handle, the values of the other win
            let (a, b) = s.h.split_at_mut(1);
            let (l, r) = if h == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
            ok("combine", l.try_outer_combine_with(r, IdentityConverter, |x, y| {
                x.set(Some(y));
                Ok(())
            }))?;
            let other = s.hm[1 - h].clone();
            s.hm[h].extend(other);
        }
    }
    Ok(())
}
fn prog_check(s: Prog, reopen: Option<DynBlobStore>) -> R<()> {
    for i in 0..2 {
        g_check(&s.h[i], &s.hm[i]).map_err(|v| Viol { what: format!("handle {i}: {}", v.what) })?;
    }
    for (i, (t, m)) in s.loaded.iter().enumerate() {
        g_check(t, m).map_err(|v| Viol { what: format!("loaded version {i}: {}", v.what) })?;
    }
    for (it, st, rest) in s.iters {
        let mut got = vec![];
        for x in it {
            match x {
                Ok((k, v)) => got.push((k.to_vec(), ok("load", v.load(&st))?.to_vec())),
                Err(e) => return viol(format!("a started iterator fails: {e:?}")),
            }
        }
        ensure!(got == rest, "a started iterator yields {} entries that are not the {} expected ones", got.len(), rest.len());
    }
    let st = reopen.unwrap_or_else(|| RadixTree::store(&s.h[0]).clone());
    for (i, (id, m)) in s.versions.iter().enumerate() {
        let t = ok("load", RadixTree::try_load(st.clone(), Some(id)))?;
        g_check(&t, m).map_err(|v| Viol { what: format!("version {i}: {}", v.what) })?;
    }
    Ok(())
}
fn programs(ctx: &mut Ctx, depth: usize, first: usize, store: usize, long: bool) -> R<()> {
    let keys: [Vec<u8>; 4] = if long {
        let l = val(128, b'k');
        [vec![], l.clone(), [&l[..], b"x"].concat(), [&l[..100], b"y"].concat()]
    } else {
        [v(""), v("k"), v("kx"), v("kyz")]
    };
    let total = (POPS as u64).pow(depth as u32 - 1);
    for k in 0..total {
        if k % 64 == 0 {
            crate::tick();
        }
        let mut seq = vec![first];
        let mut x = k;
        for _ in 1..depth {
            seq.push((x % POPS as u64) as usize);
            x /= POPS as u64;
        }
        guarded(
            || format!("program {seq:?}"),
            || {
                let mut file = None;
                let st: DynBlobStore = match store {
                    0 => Arc::new(MemStore::default()),
                    1 => InternStore::new(if long { 12 } else { 8 }, 3),
                    _ => {
                        let (f, s) = fresh_file(4096)?;
                        file = Some(f);
                        Arc::new(s)
                    }
                };
                let m0: Map = keys.iter().take(3).enumerate().map(|(i, k)| (k.clone(), val(if i == 1 { 130 } else { i }, b'v'))).collect();
                let mut t = attach(&build(&m0), &st)?;
                let id = ok("reattach", t.try_reattach())?;
                let mut s = Prog { h: [t.clone(), t], hm: [m0.clone(), m0.clone()], versions: vec![(id, m0)], loaded: vec![], iters: vec![] };
                for &o in &seq {
                    prog_op(&mut s, o, &keys)?;
                }
                let reopen = match &file {
                    Some(f) => {
                        let s: DynBlobStore = Arc::new(ok("reopen", PagedFileStore::new(f.try_clone().unwrap(), 4096))?);
                        Some(s)
                    }
                    None => None,
                };
                prog_check(s, reopen)
            },
        )?;
        ctx.traces += 1;
        ctx.states += 1;
        ctx.transitions += depth as u64;
        ctx.evals += 3;
        ctx.nontrivial += seq.contains(&8) as u64 | seq.contains(&9) as u64;
    }
    Ok(())
}
fn s04_graph(ctx: &mut Ctx, p: &Profile, idlen: usize) -> R<()> {
    let s = InternStore::new(idlen, 0x11);
    let versions: RefCell<HashMap<Vec<u8>, Map>> = Default::default();
    let iters = RefCell::new(vec![]);
    let es = |m: &Map, n: usize| -> Vec<(Vec<u8>, Vec<u8>)> { m.iter().skip(n).map(|(k, v)| (k.clone(), v.clone())).collect() };
    let sts = aexplore(
        p,
        &s,
        ctx,
        |_, sts, i, _| {
            // iterators started before the operation
            let t = &sts[i].t;
            let mut v = vec![];
            for n in 0..2usize.min(sts[i].m.len() + 1) {
                let mut it = t.try_iter();
                for _ in 0..n {
                    it.next();
                }
                v.push((it, n));
            }
            *iters.borrow_mut() = v;
            Ok(())
        },
        |ctx, tr| {
            let before = &tr.sts[tr.from];
            g_check(&before.t, &before.m).map_err(|v| Viol { what: format!("the tree before the operation changed: {}", v.what) })?;
            let st = RadixTree::store(tr.t).clone();
            for (it, n) in iters.borrow_mut().drain(..) {
                let mut got = vec![];
                for x in it {
                    match x {
                        Ok((k, v)) => got.push((k.to_vec(), ok("load", v.load(&st))?.to_vec())),
                        Err(e) => return viol(format!("an iterator started before fails: {e:?}")),
                    }
                }
                ensure!(got == es(&before.m, n), "an iterator started before the operation yields {} entries that are not the expected ones of {}", got.len(), show_map(&before.m));
            }
            let mut c = tr.t.clone();
            let id = ok("reattach", c.try_reattach())?;
            ctx.evals += 4;
            let mut vs = versions.borrow_mut();
            match vs.get(&id) {
                None => {
                    g_check(&ok("load", RadixTree::try_load(st, Some(&id)))?, tr.m)?;
                    vs.insert(id, tr.m.clone());
                }
                Some(m) => ensure!(m == tr.m, "the id of the content {} is returned for the content {}", show_map(m), show_map(tr.m)),
            }
            Ok(())
        },
    )?;
    // all versions at the end
    let st: DynBlobStore = s.clone();
    for (id, m) in versions.borrow().iter() {
        g_check(&ok("load", RadixTree::try_load(st.clone(), Some(id)))?, m).map_err(|v| Viol { what: format!("a persisted version: {}", v.what) })?;
        ctx.evals += 1;
    }
    ctx.note("versions", versions.borrow().len() as u64);
    for (i, st) in sts.iter().enumerate() {
        g_check(&st.t, &st.m).map_err(|v| Viol { what: format!("the tree after {} changed: {}", ahistory(p, &sts, i), v.what) })?;
    }
    bad_reads(&s)
}
pub fn s04(thorough: bool) -> Check {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        units.push(unit(format!("graph-{}", p.name), move |ctx| s04_graph(ctx, &p, idlen)));
    }
    units.extend(length_units(thorough, "lengths", s04_graph));
    // nodes with many children: every operation on a clone of a persisted, a loaded and a read tree
    for kind in 0..KINDS {
        units.push(unit(format!("wide-{kind}"), move |ctx| {
            for &w in WIDES.iter().filter(|w| thorough || kind < 6 || **w <= 64 || kind == 8) {
                let m = wide_content(w, kind);
                let n = m.len();
                let mut keys: Vec<Vec<u8>> = [0, n / 2, n - 1].iter().map(|i| m.keys().nth(*i).unwrap().clone()).collect();
                keys.push([&keys[1][..], b"x"].concat());
                keys.sort();
                keys.dedup();
                let p = Profile::new(format!("wide{w}"), keys, vec![val(9, b'w')]);
                let s = InternStore::new(8, 1);
                let st = dynstore(s.clone());
                let mut written = attach(&build(&m), &st)?;
                let id0 = ok("reattach", written.try_reattach())?;
                ctx.states += 1;
                ctx.nontrivial += 1;
                for form in 0..3 {
                    let mut base = if form == 0 { written.clone() } else { ok("load", RadixTree::try_load(st.clone(), Some(&id0)))? };
                    if form == 2 {
                        // everything on the way to one key is in memory
                        ok("insert", base.try_insert(&p.keys[0], b""))?;
                        match m.get(&p.keys[0]) {
                            Some(x) => ok("insert", base.try_insert(&p.keys[0], x))?,
                            None => ok("remove", base.try_remove(&p.keys[0]))?,
                        }
                    }
                    for o in aops(&p) {
                        crate::tick();
                        ctx.transitions += 1;
                        ctx.traces += 1;
                        ctx.evals += 4;
                        guarded(
                            || format!("{w} children of kind {kind}, form {form}, {}", aname(&p, o)),
                            || {
                                let mut t = base.clone();
                                let mut m1 = m.clone();
                                step_amap(&p, &mut m1, o);
                                let started = base.try_iter();
                                apply_a(&p, &mut t, o)?;
                                let id1 = ok("reattach", t.try_reattach())?;
                                let mut n = 0;
                                for (x, (k, val)) in started.zip(&m) {
                                    let (k1, v1) = x.map_err(|e| Viol { what: format!("an iterator started before fails: {e:?}") })?;
                                    ensure!(k1.as_ref() == &k[..] && ok("load", v1.load(&st))?.as_ref() == &val[..], "an iterator started before yields another entry at {}", show(k));
                                    n += 1;
                                }
                                ensure!(n == m.len(), "an iterator started before ends early");
                                g_check(&base, &m).map_err(|v| Viol { what: format!("the tree before the operation changed: {}", v.what) })?;
                                g_check(&ok("load", RadixTree::try_load(st.clone(), Some(&id1)))?, &m1)?;
                                g_check(&ok("load", RadixTree::try_load(st.clone(), Some(&id0)))?, &m).map_err(|v| Viol { what: format!("the persisted version: {}", v.what) })
                            },
                        )?;
                    }
                }
                bad_reads(&s)?;
            }
            Ok(())
        }));
    }
    for f in 0..POPS {
        for (store, name) in ["mem", "intern", "file"].into_iter().enumerate() {
            for long in [false, true] {
                if long && store == 0 {
                    continue;
                }
                units.push(unit(format!("programs-{name}-{}-{f}", if long { "long" } else { "short" }), move |ctx| {
                    let depth = if ctx.thorough { if store == 2 { 4 } else { 5 } } else if store == 2 { 3 } else if store == 1 && !long { 5 } else { 4 };
                    programs(ctx, depth, f, store, long)
                }));
            }
        }
    }
    Check {
        id: "S04",
        level: "model_checking",
        rule: "each transition of the graph of contents and persistence states: previous trees, started iterators and all persisted versions are re-read; all programs over two handles (modify, write, load the oldest or newest version, clone, iterate, merge), at the end of which all versions are loaded (file store: from a reopened file); non-trivial: at least two entries, or at least one write",
        bounds: format!("universes of 3-7 keys (thorough 11); 1..256 children; programs of {} operations out of {POPS}", if thorough { "4 to 5" } else { "3 to 5" }),
        assumptions: vec!["64 bit platform"],
        units,
        quarantine: true,
    }
}

// ---------------------------------------------------------------- T10
fn memory_graph(ctx: &mut Ctx, p: &Profile, idlen: usize) -> R<()> {
    let s = InternStore::new(idlen, 0x11);
    let sts = states_only(p, &s, ctx)?;
    // a second pass, so that the store already has all blobs: every transition must release what it allocates
    for (i, st) in sts.iter().enumerate() {
        crate::tick();
        for o in aops(&p) {
            let mut m = st.m.clone();
            step_amap(p, &mut m, o);
            ctx.transitions += 1;
            ctx.evals += 1;
            guarded(
                || format!("attached tree after {} then {}", ahistory(p, &sts, i), aname(p, o)),
                || {
                    crate::c_snap::measured(|| {
                        let mut t = st.t.clone();
                        let mut it = t.try_iter();
                        let kept = it.next();
                        apply_a(p, &mut t, o)?;
                        let d = ok("detach", t.try_detached())?;
                        let q = p.prefixes[i % p.prefixes.len()].clone();
                        let f = ok("filter", t.try_filter_prefix(&q, b"s"))?;
                        drop(t);
                        let _ = d.iter().count();
                        let _ = it.next();
                        let _ = g_entries(&f);
                        drop((kept, it));
                        Ok(())
                    })
                },
            )?;
        }
    }
    Ok(())
}
pub fn memory_units(thorough: bool) -> Vec<Unit> {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        if p.nstates() > 3000 && !thorough {
            continue;
        }
        units.push(unit(format!("attached-{}", p.name), move |ctx| memory_graph(ctx, &p, idlen)));
    }
    units.extend(length_units(thorough, "attached-lengths", memory_graph));
    // combinations of attached trees
    for (name, keys, _) in pair_keys(false) {
        units.push(unit(format!("attached-pairs-{name}"), move |ctx| {
            let x = InternStore::new(8, 0x11);
            let a = forms(&keys, true, &x, 3)?;
            let b = forms(&keys, false, &x, 3)?;
            let log: Log = RefCell::new(Vec::with_capacity(64));
            for (am, at) in &a {
                for (bm, bt) in &b {
                    crate::tick();
                    ctx.states += 1;
                    ctx.transitions += 10;
                    ctx.evals += 1;
                    let run = || -> R<()> {
                        for j in JOINS {
                            let mut t = at.clone();
                            ok("combine", inp(j, &mut t, bt, IdentityConverter, TABLES[3], &log))?;
                            let mut t = at.clone();
                            ok("combine", inp(j, &mut t, bt, DetachConverter, TABLES[3], &log))?;
                            drop(ok("combine", fun(j, at, bt, TABLES[3], &log))?);
                        }
                        let mut t = at.clone();
                        ok("retain", pre(true, &mut t, bt, TABLES[3]))?;
                        let mut t = at.clone();
                        ok("remove", pre(false, &mut t, bt, TABLES[3]))?;
                        log.borrow_mut().clear();
                        log.borrow_mut().shrink_to(64);
                        Ok(())
                    };
                    guarded(|| format!("attached trees {} and {}", show_map(am), show_map(bm)), || crate::c_snap::measured(run))?;
                }
            }
            Ok(())
        }));
    }
    units
}
#[allow(dead_code)]
fn _types(_: Detached) {}

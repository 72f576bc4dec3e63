//! T09 snapshot isolation, T10 memory.
use crate::c_join::{inplace_join, Pairs};
use crate::core::*;
use crate::eng_map::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::refmodel::{Join, JOINS};
use crate::tree::*;
use radixdb::node::{IterKey, KeyValueIter, Value, ValueIter, ValueRef};
use radixdb::store::Blob;
use radixdb::RadixTree;
use std::cell::RefCell;

struct Snap {
    clone: RadixTree,
    iters: Vec<(usize, KeyValueIter)>,
    values: Vec<(usize, ValueIter)>,
    scans: Vec<(usize, KeyValueIter)>,
    kept: Vec<(IterKey, Value)>,
    /// keys that were copied while the iteration went on
    copies: Vec<(Vec<IterKey>, Blob<'static>)>,
    got: Vec<Option<Value>>,
    filtered: Vec<RadixTree>,
    groups: Vec<RadixTree>,
    ends: Vec<Option<(Vec<u8>, Value)>>,
}
fn take(t: &RadixTree, p: &Profile, n: usize) -> R<Snap> {
    let mut iters = vec![];
    let mut values = vec![];
    for j in 0..=n {
        let mut it = t.try_iter();
        let mut vi = t.try_values();
        for _ in 0..j {
            ensure!(it.next().is_some() && vi.next().is_some(), "an iterator ends early");
        }
        iters.push((j, it));
        values.push((j, vi));
    }
    let mut scans = vec![];
    for q in &p.prefixes {
        for j in 0..2 {
            let mut it = t.try_scan_prefix(q).unwrap();
            for _ in 0..j {
                it.next();
            }
            scans.push((j, it));
        }
    }
    Ok(Snap {
        clone: t.clone(),
        iters,
        values,
        scans,
        kept: t.iter().collect(),
        copies: t.iter().map(|(k, _)| (vec![k.clone(), k.clone(), k.clone(), k.clone()], k.to_owned_blob())).collect(),
        got: p.keys.iter().map(|k| t.get(k)).collect(),
        filtered: p.prefixes.iter().map(|q| t.filter_prefix(q, q)).collect(),
        groups: t.group_by(|p, _| p.is_empty()).collect(),
        ends: vec![t.first_entry(vec![]), t.last_entry(vec![])],
    })
}
fn eq_iter(it: impl Iterator<Item = (IterKey, Value)>, m: &Map, skip: usize, what: &str) -> R<()> {
    let mut w = m.iter().skip(skip);
    for (k, v) in it {
        match w.next() {
            Some((k1, v1)) if k.as_ref() == &k1[..] && v.as_ref() == &v1[..] => {}
            x => {
                return viol(format!(
                    "{what} (after {skip} entries) yields {}=>{} instead of {:?}",
                    show(&k),
                    show(&v),
                    x.map(|x| show(x.0))
                ))
            }
        }
    }
    ensure!(w.next().is_none(), "{what} (after {skip} entries) ends early");
    Ok(())
}
/// everything in the snapshot must still show `m`
fn verify(s: Snap, p: &Profile, m: &Map, order: usize) -> R<()> {
    let Snap { clone, iters, values, scans, kept, copies, got, filtered, groups, ends } = s;
    // different orders of consumption and release
    let mut first: Option<RadixTree> = None;
    if order % 2 == 0 {
        check_iter(&clone, m).map_err(|v| Viol { what: format!("a clone was changed: {}", v.what) })?;
        drop(clone);
    } else {
        first = Some(clone);
    }
    for (j, it) in iters {
        eq_iter(it.map(|x| x.unwrap()), m, j, "an iterator that was started before")?;
    }
    for (j, it) in values {
        let mut w = m.values().skip(j);
        for x in it {
            let x = x.unwrap();
            ensure!(w.next().map(|y| &y[..]) == Some(x.as_ref()), "a value iterator that was started before yields {}", show(&x));
        }
        ensure!(w.next().is_none(), "a value iterator that was started before ends early");
    }
    let mut i = 0;
    for (j, it) in scans {
        let want = rm::scan(m, &p.prefixes[i / 2]);
        eq_iter(it.map(|x| x.unwrap()), &want, j, "a scan that was started before")?;
        i += 1;
    }
    ensure!(kept.len() == m.len(), "number of entries");
    for ((k, v), (k1, v1)) in kept.iter().zip(m) {
        ensure!(k.as_ref() == &k1[..] && v.as_ref() == &v1[..], "a yielded entry changed to {}=>{}, was {}=>{}", show(k), show(v), show(k1), show(v1));
        ensure!(&k.to_owned_blob()[..] == &k1[..], "to_owned_blob() of a key");
    }
    for ((ks, b), k1) in copies.iter().zip(m.keys()) {
        ensure!(ks.iter().all(|k| k.as_ref() == &k1[..]) && &b[..] == &k1[..], "a copy of the yielded key {} changed to {} or {}", show(k1), show(&ks[0]), show(b));
    }
    for (g, k) in got.iter().zip(&p.keys) {
        ensure!(g.as_ref().map(|x| x.as_ref()) == m.get(k).map(|x| &x[..]), "the value obtained for {} changed to {:?}", show(k), g);
    }
    for (f, q) in filtered.iter().zip(&p.prefixes) {
        check_iter(f, &rm::scan(m, q)).map_err(|v| Viol { what: format!("a filtered subtree was changed: {}", v.what) })?;
    }
    let n: usize = groups.iter().map(|g| g.iter().count()).sum();
    ensure!(n == m.len(), "the groups obtained before changed");
    for g in &groups {
        for (k, v) in g.iter() {
            ensure!(m.get(k.as_ref() as &[u8]).map(|x| &x[..]) == Some(v.as_ref()), "a group obtained before changed at {}", show(&k));
        }
    }
    for (e, w) in ends.iter().zip([m.iter().next(), m.iter().next_back()]) {
        ensure!(
            e.as_ref().map(|x| (&x.0[..], x.1.as_ref())) == w.map(|x| (&x.0[..], &x.1[..])),
            "a first or last entry obtained before changed"
        );
    }
    if order % 3 == 0 {
        drop(filtered);
        drop(kept);
    } else {
        drop(kept);
        drop(groups);
    }
    if let Some(c) = first {
        check_iter(&c, m).map_err(|v| Viol { what: format!("a clone was changed: {}", v.what) })?;
    }
    Ok(())
}

/// takes snapshots of every content, changes the tree and compares
fn snapshots(ctx: &mut Ctx, p: &Profile, i: u64, n: u64) -> R<()> {
    let all = ops(p);
    for k in 0..p.nstates() {
        if k % n != i {
            continue;
        }
        crate::tick();
        snapshots_of(ctx, p, &p.map(&p.nth(k)), k, &all)?;
    }
    Ok(())
}
fn snapshots_of(ctx: &mut Ctx, p: &Profile, m: &Map, k: u64, all: &[Op]) -> R<()> {
        let base = build(m);
        let steps = m.len().min(12);
        ctx.states += 1;
        ctx.nontrivial += (m.len() >= 2) as u64;
        for (x, &o) in all.iter().enumerate() {
            guarded(
                || format!("tree {} then {}", show_map(m), op_name(p, o)),
                || {
                    let mut t = deep(&base);
                    let snap = take(&t, p, steps)?;
                    let mut m1 = m.clone();
                    step_map(p, &mut m1, o);
                    apply(p, &mut t, o);
                    check_iter(&t, &m1)?;
                    ctx.transitions += 1;
                    ctx.traces += 1;
                    ctx.evals += 20;
                    // a second operation on another clone and on the tree itself
                    let o2 = all[(x * 7 + k as usize) % all.len()];
                    let mut c = snap.clone.clone();
                    apply(p, &mut c, o2);
                    let mut m2 = m.clone();
                    step_map(p, &mut m2, o2);
                    check_iter(&t, &m1).map_err(|v| Viol { what: format!("changing a clone changed the tree: {}", v.what) })?;
                    let c2 = t.clone();
                    apply(p, &mut t, o2);
                    check_iter(&c, &m2)?;
                    drop(c);
                    verify(snap, p, m, x)?;
                    check_iter(&c2, &m1)?;
                    drop(t);
                    check_iter(&c2, &m1)
                },
            )?;
        }
        check_iter(&base, m)
}

/// a few keys of a large content, and some that are not in it
fn wide_profile(m: &Map) -> Profile {
    let n = m.len();
    let mut keys: Vec<Vec<u8>> = [0, n / 2, n - 1].iter().map(|i| m.keys().nth(*i).unwrap().clone()).collect();
    keys.push([&keys[1][..], b"x"].concat());
    keys.push(rm::lcp(m));
    keys.sort();
    keys.dedup();
    Profile::new("wide", keys, vec![val(9, b'w')])
}
pub fn t09(thorough: bool) -> Check {
    let long = || vec![val(9, b'l'), v("s")];
    let mut ps = vec![
        (bin(b'a', b'b', 2, long()), if thorough { 16 } else { 16 }),
        (chain(5, 9, vec![val(20, b'x')]), 4),
        (Profile::new("same-lengths", vec![v(""), v("a"), v("ab")], vec![val(9, b'l'), val(9, b'm'), val(128, b'n'), val(128, b'o'), vec![]]), 1),
        (Profile::new("fan6", words(&[vec![0], vec![1], vec![2], vec![3], vec![0xff]], 1), vec![val(10, b'y')]), 1),
    ];
    for l in [9usize, 128] {
        ps.push((seg(l, true, 2, vec![v("x")]), 4));
    }
    if thorough {
        ps.push((bin(b'a', b'b', 3, vec![val(9, b'x')]), 64));
        ps.push((tern(2, vec![v("x")]), 32));
    }
    let mut units = vec![];
    for (p, n) in ps {
        for i in 0..n {
            let p = p.clone();
            units.push(unit(format!("{}#{i}", p.name), move |ctx| snapshots(ctx, &p, i as u64, n as u64)));
        }
    }
    for g in 0..LENGTH_GROUPS {
        units.push(unit(format!("lengths#{g}"), move |ctx| {
            for p in length_group_small(false, g) {
                let mut w = p.vals[0].clone();
                w[0] ^= 0x55;
                // a second value of the same length
                snapshots(ctx, &Profile::new(p.name.clone(), p.keys[..3].to_vec(), vec![p.vals[0].clone(), w]), 0, 1)?;
            }
            Ok(())
        }));
    }
    // nodes with many children, and many levels
    for (i, (name, m)) in crate::c_map::wide_maps().into_iter().enumerate() {
        if !thorough && i % 3 != 0 && !name.contains("nested") {
            continue;
        }
        units.push(unit(name, move |ctx| {
            let p = wide_profile(&m);
            let all = ops(&p);
            for (j, o) in all.chunks(8).enumerate() {
                crate::tick();
                snapshots_of(ctx, &p, &m, j as u64, o)?;
            }
            Ok(())
        }));
    }
    // all pairs of operations on a tree and its clone, interleaved
    let p = Profile::new("two-clones", words(&[v("a"), v("b")], 2), vec![val(9, b'x')]);
    for i in 0..8u64 {
        let p = p.clone();
        units.push(unit(format!("two-clones#{i}"), move |ctx| {
            let all = ops(&p);
            for k in 0..p.nstates() {
                if k % 8 != i {
                    continue;
                }
                let m = p.map(&p.nth(k));
                for &o1 in &all {
                    crate::tick();
                    for &o2 in &all {
                        guarded(
                            || format!("tree {}, {} on it, {} on its clone", show_map(&m), op_name(&p, o1), op_name(&p, o2)),
                            || {
                                let mut a = build(&m);
                                let mut b = a.clone();
                                let keep = a.clone();
                                let it = a.iter();
                                apply(&p, &mut a, o1);
                                apply(&p, &mut b, o2);
                                let (mut ma, mut mb) = (m.clone(), m.clone());
                                step_map(&p, &mut ma, o1);
                                step_map(&p, &mut mb, o2);
                                check_iter(&a, &ma)?;
                                drop(keep);
                                check_iter(&b, &mb)?;
                                apply(&p, &mut a, o2);
                                step_map(&p, &mut ma, o2);
                                check_iter(&b, &mb)?;
                                check_iter(&a, &ma)?;
                                drop(a);
                                check_iter(&b, &mb)?;
                                eq_iter(it, &m, 0, "an iterator that was started before")
                            },
                        )?;
                        ctx.transitions += 3;
                        ctx.traces += 1;
                        ctx.evals += 6;
                    }
                }
                ctx.states += 1;
            }
            Ok(())
        }));
    }
    // operands and results of combinations
    for (name, keys) in [
        ("operands-short", vec![v(""), v("a"), v("ab"), v("b")]),
        ("operands-long", vec![val(9, b'a'), val(130, b'a'), [val(9, b'a'), v("b")].concat(), v("b")]),
    ] {
        for i in 0..4u64 {
            let p = Profile::new(name, keys.clone(), vec![v("x"), val(9, b'y')]);
            units.push(unit(format!("{name}#{i}"), move |ctx| operands(ctx, &p, i, 4)));
        }
    }
    Check {
        id: "T09",
        level: "model_checking",
        rule: "in every content of each universe: clones, iterators at every position, yielded keys and values, filtered subtrees and groups are taken, then every operation is applied to the tree, and all snapshots are compared; non-trivial: at least two entries",
        bounds: "universes of 5 to 7 keys (thorough: 13 and 15), all pairs of operations on a tree and its clone, all pairs of operands over 4 keys with 2 values with all following operations".into(),
        assumptions: vec!["the reference is std BTreeMap", "memory is poisoned when it is released, so that reads after release are seen"],
        units,
        quarantine: true,
    }
}
fn operands(ctx: &mut Ctx, p: &Profile, i: u64, n: u64) -> R<()> {
    let all = ops(p);
    // a copy of the bytes, or another owner of the same buffer
    let own = std::cell::Cell::new(false);
    let tk = |_: &ValueRef, b: &ValueRef| Some(if own.get() { b.to_owned() } else { value_of(vr(b)) });
    let set = |a: &mut Value, b: &ValueRef| a.set(Some(b));
    for ka in 0..p.nstates() {
        if ka % n != i {
            continue;
        }
        let am = p.map(&p.nth(ka));
        for kb in 0..p.nstates() {
            crate::tick();
            own.set((ka + kb) % 2 == 1);
            let bm = p.map(&p.nth(kb));
            ctx.states += 1;
            ctx.traces += 1;
            ctx.nontrivial += (am.len() > 1 && bm.len() > 1) as u64;
            guarded(
                || format!("left {} right {}", show_map(&am), show_map(&bm)),
                || {
                    for j in JOINS {
                        let want = rm::join(j, &am, &bm, |_, b| Some(b.to_vec()));
                        for inplace in [false, true] {
                            let a = build(&am);
                            let b = build(&bm);
                            let res = if inplace {
                                let mut t = deep(&a);
                                match j {
                                    Join::Outer => t.outer_combine_with(&b, set),
                                    Join::Inner => t.inner_combine_with(&b, set),
                                    Join::Left => t.left_combine_with(&b, set),
                                }
                                t
                            } else {
                                match j {
                                    Join::Outer => a.outer_combine(&b, tk),
                                    Join::Inner => a.inner_combine(&b, tk),
                                    Join::Left => a.left_combine(&b, tk),
                                }
                            };
                            for &o in &all {
                                // change the result, the left and the right operand in turn
                                let (mut x, mut y, mut z) = (res.clone(), a.clone(), b.clone());
                                apply(p, &mut x, o);
                                check_iter(&b, &bm)?;
                                check_iter(&a, &am)?;
                                apply(p, &mut y, o);
                                apply(p, &mut z, o);
                                ctx.transitions += 3;
                            }
                            check_iter(&res, &want)?;
                            // directly, without clones: the nodes may be shared only between operands and result
                            let mut a = a;
                            let mut b = b;
                            let mut m1 = bm.clone();
                            for &o in &all[..4.min(all.len())] {
                                apply(p, &mut b, o);
                                step_map(p, &mut m1, o);
                                apply(p, &mut a, o);
                            }
                            check_iter(&b, &m1)?;
                            check_iter(&res, &want)?;
                            let mut res = res;
                            drop(a);
                            let mut w = want.clone();
                            for &o in all.iter().rev().take(4) {
                                apply(p, &mut res, o);
                                step_map(p, &mut w, o);
                            }
                            check_iter(&b, &m1)?;
                            drop(b);
                            check_iter(&res, &w)?;
                            ctx.evals += 6 + 2 * all.len() as u64;
                        }
                    }
                    Ok(())
                },
            )?;
        }
    }
    Ok(())
}

/// Run `f` and compare the balance of allocations before and after.
pub fn measured(f: impl Fn() -> R<()>) -> R<()> {
    for round in 0..2 {
        let b0 = crate::alloc::balance();
        f()?;
        let b1 = crate::alloc::balance();
        if b0 == b1 {
            return Ok(());
        }
        // the first time something may have been initialized lazily
        if round == 1 {
            return viol(format!("{} blocks and {} bytes are not released", b1.0 - b0.0, b1.1 - b0.1));
        }
    }
    Ok(())
}

/// every operation on one content, with all that it allocates
fn memory_of(ctx: &mut Ctx, p: &Profile, m: &Map, k: u64, all: &[Op]) -> R<()> {
                    ctx.states += 1;
                    ctx.nontrivial += (m.len() >= 2) as u64;
                    let base = build(m);
                    for &o in all {
                        crate::tick();
                        ctx.transitions += 2;
                        ctx.traces += 1;
                        ctx.evals += 1;
                        guarded(
                            || format!("{} on {}", op_name(p, o), show_map(m)),
                            || {
                                measured(|| {
                                    let mut t = deep(&base);
                                    let mut c = t.clone();
                                    apply(p, &mut t, o);
                                    // dropped in both orders, with an iterator that is not finished
                                    let mut it = c.iter();
                                    let x = it.next();
                                    if k % 2 == 0 {
                                        drop(t);
                                        apply(p, &mut c, o);
                                    } else {
                                        apply(p, &mut c, o);
                                        drop(c);
                                    }
                                    drop(it);
                                    drop(x);
                                    Ok(())
                                })
                            },
                        )?;
                    }
                    guarded(
                        || format!("building and dropping {}", show_map(m)),
                        || {
                            measured(|| {
                                let t = build(m);
                                let g: Vec<RadixTree> = t.group_by(|p, _| p.len() < 2).collect();
                                let f: Vec<RadixTree> = p.keys.iter().map(|k| t.filter_prefix(k, b"some long substitution")).collect();
                                let v: Vec<Option<Value>> = p.keys.iter().map(|k| t.get(k)).collect();
                                let s: usize = p.keys.iter().map(|k| t.scan_prefix(k).take(1).count()).sum();
                                drop(t);
                                let _ = (g.len(), f.len(), v.len(), s);
                                Ok(())
                            })
                        },
                    )?;
    Ok(())
}
pub fn t10(thorough: bool) -> Check {
    let mut units = vec![];
    // every transition of the content graph
    for (p, n) in crate::c_map::map_profiles(thorough) {
        if p.nstates() > 40000 {
            continue;
        }
        for i in 0..n {
            let p = p.clone();
            units.push(unit(format!("transitions-{}#{i}", p.name), move |ctx| {
                let all = ops(&p);
                for k in 0..p.nstates() {
                    if k % n as u64 != i as u64 {
                        continue;
                    }
                    crate::tick();
                    memory_of(ctx, &p, &p.map(&p.nth(k)), k, &all)?;
                }
                Ok(())
            }));
        }
    }
    for (i, (name, m)) in crate::c_map::wide_maps().into_iter().enumerate() {
        if !thorough && i % 3 != 0 && !name.contains("nested") {
            continue;
        }
        units.push(unit(name, move |ctx| {
            let p = wide_profile(&m);
            memory_of(ctx, &p, &m, i as u64, &ops(&p))
        }));
    }
    // sequences over two trees, an iterator and kept items
    let depth = if thorough { 5 } else { 4 };
    for f in 0..NSEQ {
        units.push(unit(format!("histories-{f}"), move |ctx| histories(ctx, depth, f)));
    }
    // combinations
    for (p, n) in crate::c_join::small_join_profiles(thorough) {
        for i in 0..n {
            let p = p.clone();
            units.push(unit(format!("joins-{}-{i}", p.name), move |ctx| joins(ctx, &p, (i, n))));
        }
    }
    // functions that panic
    let mut ps = crate::c_join::small_join_profiles(thorough);
    if !thorough {
        ps.retain(|p| p.0.name != "bin-d2");
        ps[0].0.keys.truncate(4);
        ps.push((Pairs { name: "short".into(), keys: vec![v(""), v("ab"), v("ac"), v("b"), v("abc")], opts: crate::c_join::INP.to_vec(), pad: 0 }, 1));
    }
    for (p, n) in ps {
        for i in 0..n {
            let p = p.clone();
            units.push(unit(format!("panics-{}-{i}", p.name), move |ctx| panics(ctx, &p, (i, n))));
        }
    }
    units.extend(crate::c_attach::memory_units(thorough));
    Check {
        id: "T10",
        level: "model_checking",
        rule: "each history (operations on trees, clones, iterators, values, combinations, also on attached trees and with failing stores) is executed with an accounting allocator: afterwards nothing may be left, nothing released twice, and released memory (poisoned, quarantined and verified) not written; non-trivial: at least two entries",
        bounds: format!("all transitions of the universes of T01 with up to 40000 contents; all operations on contents with up to 256 children of a node or 600 levels; all sequences of {depth} of {NSEQ} operations on two trees with an iterator; all pairs of contents over 5 and 7 keys"),
        assumptions: vec!["reads of released memory show as changed content or as a crash, since released blocks are overwritten", "64 bit platform"],
        units,
        quarantine: true,
    }
}
const NSEQ: usize = 24;
struct Slots {
    t: RadixTree,
    u: RadixTree,
    it: Option<KeyValueIter>,
    kept: Vec<(IterKey, Value)>,
    mt: Map,
    mu: Map,
}
fn seq_op(s: &mut Slots, o: usize, keys: &[Vec<u8>; 3]) {
    let log = RefCell::new(vec![]);
    let f = |a: &ValueRef, b: &ValueRef| if vr(a).len() > 5 { Some(value_of(vr(b))) } else { None };
    match o {
        0..=2 => {
            s.t.insert(&keys[o], [b'v'; 12]);
            s.mt.insert(keys[o].clone(), vec![b'v'; 12]);
        }
        3 => {
            s.t.insert(&keys[1], b"KT");
            s.mt.insert(keys[1].clone(), b"KT".to_vec());
        }
        4..=6 => {
            s.t.remove(&keys[o - 4]);
            s.mt.remove(&keys[o - 4]);
        }
        7 => {
            s.t.remove_prefix(&keys[1]);
            rm::remove_prefix(&mut s.mt, &keys[1]);
        }
        8 => {
            s.u = s.t.clone();
            s.mu = s.mt.clone();
        }
        9 => {
            std::mem::swap(&mut s.t, &mut s.u);
            std::mem::swap(&mut s.mt, &mut s.mu);
        }
        10 => {
            s.u = RadixTree::default();
            s.mu.clear();
        }
        11 => s.it = Some(s.t.try_iter()),
        12 => {
            if let Some(Ok(x)) = s.it.as_mut().and_then(|x| x.next()) {
                s.kept.push(x)
            }
        }
        13 => s.it = None,
        14 => {
            s.u = s.t.filter_prefix(&keys[1][..1], b"another prefix");
            s.mu = rm::filter(&s.mt, &keys[1][..1], b"another prefix");
        }
        15..=17 => {
            let j = JOINS[o - 15];
            inplace_join(j, &mut s.t, &s.u, &log);
            s.mt = rm::join(j, &s.mt, &s.mu, |a, b| match b.first() {
                Some(b'K') => Some(a.to_vec()),
                Some(b'T') => Some(b.to_vec()),
                _ => None,
            });
        }
        18..=20 => {
            let j = JOINS[o - 18];
            s.t = match j {
                Join::Outer => s.t.outer_combine(&s.u, f),
                Join::Inner => s.t.inner_combine(&s.u, f),
                Join::Left => s.t.left_combine(&s.u, f),
            };
            s.mt = rm::join(j, &s.mt, &s.mu, |a, b| if a.len() > 5 { Some(b.to_vec()) } else { None });
        }
        21 => {
            s.t.retain_prefix_with(&s.u, |x| vr(x).len() > 5);
            s.mt = rm::prefix_set(&s.mt, &s.mu, true, |x| x.len() > 5);
        }
        22 => {
            s.t.remove_prefix_with(&s.u, |x| vr(x).len() > 5);
            s.mt = rm::prefix_set(&s.mt, &s.mu, false, |x| x.len() > 5);
        }
        _ => {
            s.kept.clear();
            let g: Vec<RadixTree> = s.t.group_by(|p, _| p.len() < 10).collect();
            if let Some(g) = g.into_iter().next() {
                s.u = g;
                s.mu = s.u.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
            }
        }
    }
}
fn histories(ctx: &mut Ctx, depth: usize, first: usize) -> R<()> {
    let keys = [vec![], val(10, b'a'), [val(9, b'a'), v("b")].concat()];
    let total = (NSEQ as u64).pow(depth as u32 - 1);
    for start in 0..2 {
        for k in 0..total {
            if k % 256 == 0 {
                crate::tick();
            }
            let mut seq = vec![first];
            let mut x = k;
            for _ in 1..depth {
                seq.push((x % NSEQ as u64) as usize);
                x /= NSEQ as u64;
            }
            guarded(
                || format!("history {seq:?} from {}", if start == 0 { "the empty tree" } else { "three entries" }),
                || {
                    measured(|| {
                        let mut s = Slots { t: RadixTree::default(), u: RadixTree::default(), it: None, kept: vec![], mt: Map::new(), mu: Map::new() };
                        if start == 1 {
                            for o in 0..3 {
                                seq_op(&mut s, o, &keys);
                            }
                            seq_op(&mut s, 8, &keys);
                            seq_op(&mut s, 11, &keys);
                            seq_op(&mut s, 12, &keys);
                        }
                        for &o in &seq {
                            seq_op(&mut s, o, &keys);
                        }
                        check_iter(&s.t, &s.mt)?;
                        let Slots { t, u, it, kept, mu, .. } = s;
                        if k % 2 == 0 {
                            drop(t);
                            check_iter(&u, &mu)?;
                            drop(it);
                        }
                        for (k, _) in &kept {
                            ensure!(keys.iter().any(|x| x[..] == k[..]) || k.starts_with(b"another"), "a kept key changed to {}", show(k));
                        }
                        Ok(())
                    })
                },
            )?;
            ctx.traces += 1;
            ctx.states += 1;
            ctx.transitions += depth as u64;
            ctx.evals += 2;
            ctx.nontrivial += start;
        }
    }
    Ok(())
}
fn joins(ctx: &mut Ctx, p: &Pairs, shard: (usize, usize)) -> R<()> {
    crate::c_join::all_pairs(p, shard, ctx, |ctx, p| {
        let f = |a: &ValueRef, b: &ValueRef| crate::c_join::decide(vr(a), vr(b)).map(|x| value_of(&x));
        ctx.transitions += 8;
        ctx.evals += 1;
        measured(|| {
            let a = deep(p.a);
            let b = deep(p.b);
            let log = RefCell::new(vec![]);
            for j in JOINS {
                let mut t = deep(p.a);
                inplace_join(j, &mut t, &b, &log);
                let mut t = a.clone();
                inplace_join(j, &mut t, &b, &log);
            }
            let x = a.outer_combine(&b, f);
            let y = a.inner_combine(&b, f);
            let mut z = a.left_combine(&b, f);
            drop(a);
            z.retain_prefix_with(&b, |x| vr(x).first() == Some(&b'T'));
            let mut w = x.clone();
            w.remove_prefix_with(&b, |x| vr(x).first() == Some(&b'T'));
            drop(b);
            let _ = (x.is_empty(), y.is_empty());
            Ok(())
        })
    })
}

/// The functions that the user passes in panic at their k-th call, for every k.
fn panics(ctx: &mut Ctx, p: &Pairs, shard: (usize, usize)) -> R<()> {
    thread_local! {
        static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    }
    fn point() {
        LEFT.with(|l| {
            if l.get() == 0 {
                // does not go through the panic hook
                std::panic::resume_unwind(Box::new(()));
            }
            l.set(l.get() - 1);
        })
    }
    crate::c_join::all_pairs(p, shard, ctx, |ctx, p| {
        if p.am.is_empty() {
            return Ok(());
        }
        let fun = |a: &ValueRef, b: &ValueRef| {
            let r = crate::c_join::decide(vr(a), vr(b)).map(|x| value_of(&x));
            point();
            r
        };
        let inp = |a: &mut Value, b: &ValueRef| {
            // the value may already be changed
            match b.data().and_then(|x| x.first()) {
                Some(b'K') => {}
                Some(b'T') => a.set(Some(b)),
                _ => a.set(None),
            }
            point();
        };
        let pred = |_: &ValueRef, _: &ValueRef| {
            point();
            false
        };
        let one = |_: &ValueRef| {
            point();
            true
        };
        for op in 0..12 {
            let mut k = 0;
            loop {
                let done = std::cell::Cell::new(false);
                let run = || -> R<()> {
                    let a = deep(p.a);
                    let b = deep(p.b);
                    // shared with a clone, or not
                    for shared in [false, true] {
                        let keep = if shared { Some(a.clone()) } else { None };
                        let mut t = if shared { a.clone() } else { deep(&a) };
                        LEFT.with(|l| l.set(k));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
                            0 => drop(a.outer_combine(&b, fun)),
                            1 => drop(a.inner_combine(&b, fun)),
                            2 => drop(a.left_combine(&b, fun)),
                            3 => t.outer_combine_with(&b, inp),
                            4 => t.inner_combine_with(&b, inp),
                            5 => t.left_combine_with(&b, inp),
                            6 => drop(a.inner_combine_pred(&b, pred)),
                            7 => drop(a.left_combine_pred(&b, pred)),
                            8 => t.retain_prefix_with(&b, one),
                            9 => t.remove_prefix_with(&b, one),
                            10 => {
                                let n = a
                                    .group_by(|_, _| {
                                        point();
                                        true
                                    })
                                    .count();
                                let _ = n;
                            }
                            _ => {
                                let mut it = a.group_by(|p, _| {
                                    point();
                                    p.len() < 2
                                });
                                let _ = (it.next(), it.next());
                            }
                        }));
                        done.set(r.is_ok());
                        drop(r);
                        // what the function does not own is as before
                        check_iter(&b, p.bm).map_err(|v| Viol { what: format!("after a panic in a user function the right operand is changed: {}", v.what) })?;
                        check_iter(&a, p.am).map_err(|v| Viol { what: format!("after a panic in a user function a clone of the left operand is changed: {}", v.what) })?;
                        if let Some(c) = keep {
                            check_iter(&c, p.am)?;
                        }
                        if op < 3 || op == 6 || op == 7 || op >= 10 {
                            check_iter(&t, p.am)?;
                        }
                        // the left operand itself can be read, changed and dropped
                        for (key, _) in t.iter() {
                            let key: &[u8] = key.as_ref();
                            ensure!(p.am.contains_key(key) || p.bm.contains_key(key), "after a panic in a user function the left operand contains {}", show(key));
                        }
                        t.insert(b"a", b"a value that is not inline");
                        ensure!(t.get(b"a").is_some(), "after a panic in a user function an insertion has no effect");
                        if let Some(key) = p.am.keys().next() {
                            t.remove(key);
                        }
                        drop(t);
                    }
                    Ok(())
                };
                measured(run).map_err(|v| Viol { what: format!("operation {op}, panic in call {k} of the user function: {}", v.what) })?;
                ctx.transitions += 2;
                ctx.evals += 6;
                if done.get() {
                    break;
                }
                k += 1;
            }
        }
        Ok(())
    })
}

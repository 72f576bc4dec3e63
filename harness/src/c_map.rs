//! T01, T02, T07, T08: one in-memory tree against the reference map.
use crate::core::*;
use crate::eng_map::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::tree::*;
use radixdb::{radixtree, RadixTree};

/// the universes and the number of shards of each
pub fn map_profiles(thorough: bool) -> Vec<(Profile, usize)> {
    let x = || vec![v("x")];
    let xy = || vec![v("x"), v("")];
    let long = || vec![val(9, b'l'), val(8, b's')];
    let mut r = vec![
        (bin(0, 0xff, 2, xy()), 1),
        (bin(0x7f, 0x80, 2, long()), 1),
        (bin(b'a', b'b', 3, x()), if thorough { 8 } else { 16 }),
        (tern(2, x()), 2),
        (chain(7, 1, x()), 1),
        (chain(5, 9, x()), 1),
        (values(), 1),
    ];
    for l in seg_lens(thorough) {
        r.push((seg(l, false, 2, x()), 1));
        r.push((seg(l, true, 2, x()), 1));
    }
    if thorough {
        r.push((bin(b'a', b'b', 2, vec![v(""), v("x"), val(9, b'v')]), 8));
        r.push((bin(0, 1, 3, vec![val(20, b'v')]), 8));
        r.push((seg(5, true, 3, x()), 8));
        r.push((seg(128, true, 2, xy()), 2));
        r.push((tern(2, xy()), 64));
        r.push((chain(12, 1, x()), 8));
        r.push((Profile::new("quat-d1", words(&[vec![0], vec![1], vec![0x80], vec![0xff]], 1), vec![v(""), v("x"), val(9, b'z'), val(128, b'w')]), 2));
    }
    r
}
fn units_over(
    thorough: bool,
    ps: Vec<(Profile, usize)>,
    f: impl Fn(&mut Ctx, &Profile, (usize, usize)) -> R<()> + Clone + Send + 'static,
) -> Vec<Unit> {
    let mut us = vec![];
    for g in 0..LENGTH_GROUPS {
        let f = f.clone();
        us.push(unit(format!("lengths#{g}"), move |ctx| {
            for p in length_group(thorough, g) {
                f(ctx, &p, (0, 1))?;
            }
            Ok(())
        }));
    }
    for (p, n) in ps {
        for i in 0..n {
            let p = p.clone();
            let f = f.clone();
            us.push(unit(if n == 1 { p.name.clone() } else { format!("{}#{i}", p.name) }, move |ctx| f(ctx, &p, (i, n))));
        }
    }
    us
}

/// nodes with many children
pub fn wide_maps() -> Vec<(String, Map)> {
    let mut r = vec![];
    for n in [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 48, 49, 64, 65, 127, 128, 129, 254, 255, 256] {
        for kind in ["low", "high", "spread"] {
            if (n == 1 || n == 256) && kind != "low" {
                continue;
            }
            let bs: Vec<u8> = (0..n)
                .map(|i| match kind {
                    "low" => i as u8,
                    "high" => (256 - n + i) as u8,
                    _ => (i * 256 / n) as u8,
                })
                .collect();
            for (shape, mk) in [
                ("plain", (|b: u8| vec![b]) as fn(u8) -> Vec<u8>),
                ("prefixed", |b| vec![b'p', b'q', b]),
                ("tailed", |b| vec![b, b't']),
                ("nested", |b| [&[b'p', b'q', b][..], &val(b as usize % 3, b't')].concat()),
            ] {
                if shape == "nested" && (kind == "spread" || n > 8 && n % 2 == 0 && n != 256) {
                    continue;
                }
                let mut m: Map = bs.iter().map(|b| (mk(*b), vec![*b])).collect();
                if shape == "prefixed" {
                    m.insert(v("pq"), v("inner"));
                }
                if shape == "nested" {
                    // the node has neighbours, and another one of its kind next to it
                    m.extend([(v("a"), vec![]), (v("pa"), vec![])]);
                    if kind == "low" {
                        m.insert(v("z"), vec![]);
                        m.extend(bs.iter().map(|b| (vec![b'p', b'r', *b, b't'], vec![*b])));
                    } else {
                        // or is the last one, with a value
                        m.insert(v("pq"), v("inner"));
                    }
                }
                if shape == "tailed" {
                    // every third child is a branch itself
                    for b in bs.iter().step_by(3) {
                        m.insert(vec![*b, b'u'], vec![]);
                    }
                }
                r.push((format!("wide{n}{kind}-{shape}"), m));
            }
        }
    }
    for n in [30usize, 126, 127, 128, 129, 255, 256, 300, 600] {
        for branches in [false, true] {
            if branches && n > 300 {
                continue;
            }
            r.push((format!("deep{n}-{branches}"), crate::c_attach::deep_content(n, branches)));
        }
    }
    r
}
fn byte_probes(m: &Map) -> Vec<Vec<u8>> {
    let mut r = vec![vec![], v("p"), v("pq")];
    let pre = rm::lcp(m);
    for b in 0..=255u8 {
        let mut x = pre.clone();
        x.push(b);
        r.push(x.clone());
        x.push(b't');
        r.push(x);
        r.push(vec![b]);
    }
    r.extend(m.keys().cloned());
    r.sort();
    r.dedup();
    r
}

pub fn t01(thorough: bool) -> Check {
    let mut units = units_over(thorough, map_profiles(thorough), |ctx, p, sh| {
        let small = p.nstates() <= 20000;
        explore(
            p,
            sh,
            ctx,
            |ctx, p, sts, i| {
                ctx.evals += p.probes.len() as u64 + 3;
                check_all(&sts[i].t, &sts[i].m, &p.probes)
            },
            |ctx, tr| {
                if tr.new || (small && !tr.shared) {
                    ctx.evals += tr.p.probes.len() as u64 + 3;
                    check_all(tr.t, tr.m, &tr.p.probes)
                } else {
                    ctx.evals += 1;
                    check_iter(tr.t, tr.m)?;
                    check_points(tr.t, tr.m, &tr.p.keys)
                }
            },
        )
    });
    // complete sequences on one tree
    let p = bin(b'a', b'b', 2, vec![v("x")]);
    let n = ops(&p).len();
    for f in 0..n {
        let p = p.clone();
        units.push(unit(format!("sequences-{}", op_name(&p, ops(&p)[f])), move |ctx| {
            let d = if ctx.thorough { 5 } else { 4 };
            sequences(&p, d, Some(f), ctx, |ctx, t, m| {
                ctx.evals += 1;
                ctx.nontrivial += (m.len() >= 2) as u64;
                check_iter(t, m)
            })
        }));
    }
    for (n, l) in [("sequences-long-short", 9usize), ("sequences-128", 128)] {
        let p = Profile::new(n, words(&segs(l, true), 1).into_iter().chain([v("a"), vec![b'a'; l - 1]]).collect(), vec![v(""), val(l, b'v')]);
        units.push(unit(n, move |ctx| {
            let d = if ctx.thorough { 4 } else { 3 };
            sequences(&p, d, None, ctx, |ctx, t, m| {
                ctx.evals += 1;
                ctx.nontrivial += (m.len() >= 2) as u64;
                check_all(t, m, &p.probes)
            })
        }));
    }
    // bulk construction
    units.push(unit("from-iterator", |ctx| {
        let keys = [v(""), v("a"), v("ab"), v("b"), val(130, b'a')];
        let vals = [v("1"), v("")];
        let n = keys.len() * vals.len();
        for len in 0..=4usize {
            for k in 0..n.pow(len as u32) {
                let mut x = k;
                let list: Vec<(Vec<u8>, Vec<u8>)> = (0..len)
                    .map(|_| {
                        let i = x % n;
                        x /= n;
                        (keys[i % keys.len()].clone(), vals[i / keys.len()].clone())
                    })
                    .collect();
                let m: Map = list.iter().cloned().collect();
                let t: RadixTree = list.iter().map(|(k, v)| (k, v)).collect();
                ctx.states += 1;
                ctx.transitions += len as u64;
                ctx.traces += 1;
                ctx.evals += keys.len() as u64 + 3;
                if let Err(v) = check_all(&t, &m, &keys) {
                    return viol(format!("collect() of {:?}: {}", list.iter().map(|x| (show(&x.0), show(&x.1))).collect::<Vec<_>>(), v.what));
                }
            }
        }
        Ok(())
    }));
    units.push(unit("constructors", |ctx| {
        let lens = [0usize, 1, 7, 8, 9, 127, 128, 300, 70000];
        for k in lens {
            for l in lens {
                let (key, value) = (val(k, b'k'), val(l, b'v'));
                let m: Map = [(key.clone(), value.clone())].into_iter().collect();
                check_all(&RadixTree::single(&key, &value), &m, &[vec![], key.clone(), val(k + 1, b'k')])?;
                let mut t = RadixTree::default();
                t.insert(&key, &value);
                check_all(&t, &m, &[vec![], key.clone(), val(k + 1, b'k')])?;
                ctx.evals += 2;
                ctx.states += 1;
                ctx.transitions += 1;
            }
            let m: Map = [(vec![], val(k, b'v'))].into_iter().collect();
            check_all(&RadixTree::leaf(val(k, b'v')), &m, &[vec![], v("a")])?;
        }
        check_all(&RadixTree::default(), &Map::new(), &[vec![], v("a")])?;
        check_all(&RadixTree::empty(radixdb::store::Detached), &Map::new(), &[vec![], v("a")])?;
        let t = radixtree! { "a" => "1", "b" => "", "a" => "2", };
        check_all(&t, &[(v("a"), v("2")), (v("b"), v(""))].into_iter().collect(), &[v("a"), v("b"), v("")])?;
        let t = radixtree! { "ab", "a", "" };
        check_all(&t, &[(v("a"), v("")), (v("ab"), v("")), (v(""), v(""))].into_iter().collect(), &[v("a"), v("ab"), v("")])
    }));
    for (name, m) in wide_maps() {
        units.push(unit(name.clone(), move |ctx| {
            let probes = byte_probes(&m);
            let mut orders: Vec<Vec<Vec<u8>>> = vec![m.keys().cloned().collect(), m.keys().rev().cloned().collect()];
            let k: Vec<Vec<u8>> = m.keys().cloned().collect();
            orders.push(k.iter().step_by(2).chain(k.iter().skip(1).step_by(2)).cloned().collect());
            for o in orders {
                let mut t = RadixTree::default();
                for k in &o {
                    t.insert(k, &m[k]);
                }
                ctx.states += 1;
                ctx.traces += 1;
                ctx.nontrivial += 1;
                ctx.evals += probes.len() as u64;
                check_all(&t, &m, &probes)?;
                // every single removal, and back
                for k in &o {
                    crate::tick();
                    let mut m1 = m.clone();
                    m1.remove(k);
                    let mut t1 = t.clone();
                    t1.remove(k);
                    check_iter(&t1, &m1)?;
                    check_points(&t1, &m1, &[k.clone(), o[0].clone(), o[o.len() - 1].clone()])?;
                    t1.insert(k, b"back");
                    m1.insert(k.clone(), v("back"));
                    check_iter(&t1, &m1)?;
                    check_points(&t1, &m1, &probes[..8.min(probes.len())])?;
                    ctx.transitions += 2;
                    ctx.evals += 2;
                }
                check_iter(&t, &m)?;
                // shrink to nothing
                let mut m1 = m.clone();
                for k in &o {
                    t.remove(k);
                    m1.remove(k);
                    ctx.transitions += 1;
                    check_points(&t, &m1, &o)?;
                    check_iter(&t, &m1)?;
                }
            }
            Ok(())
        }));
    }
    Check {
        id: "T01",
        level: "model_checking",
        rule: "breadth first exploration to closure of all contents over each key universe; every operation in every state, on shared and on unshared nodes; non-trivial: at least two entries",
        bounds: format!(
            "universes: all byte strings up to length 2 or 3 over 2 or 3 letters (incl. 00/ff, 7f/80), chains, segments of length {:?}, values of length 0..300, 1..256 children; sequences of length {} from the empty tree",
            seg_lens(thorough),
            if thorough { 5 } else { 4 }
        ),
        assumptions: vec!["the reference is std BTreeMap", "64 bit platform"],
        units,
        quarantine: false,
    }
}

pub fn t02(thorough: bool) -> Check {
    let mut units = units_over(thorough, map_profiles(thorough), |ctx, p, sh| {
        let small = p.nstates() <= 5000;
        let big = p.keys.last().map(|k| k.len() > 20).unwrap_or(false);
        let visit = |ctx: &mut Ctx, t: &RadixTree, m: &Map| {
            ctx.evals += 3 * p.probes.len() as u64 + 6;
            check_prefix_queries(t, m, &p.probes)?;
            check_extremes(t, m, &[vec![], v("lead"), vec![0xff]])?;
            let mut subst = vec![vec![], v("s")];
            if small && !big {
                subst.push(val(9, b't'));
                subst.push(val(128, b'u'));
            }
            for q in &p.probes {
                for (i, s) in subst.iter().chain(&rm::alike(q)).enumerate() {
                    let want = rm::filter(m, q, s);
                    let got = t.filter_prefix(q, s);
                    ctx.evals += 1;
                    let r = check_iter(&got, &want).and_then(|_| {
                        if i < 2 {
                            check_values(&got, &want)?;
                            if let Some(k) = want.keys().next_back() {
                                check_points(&got, &want, &[k.clone(), q.clone(), s.clone()])?;
                            }
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        return viol(format!("filter_prefix({}, {}) of {}: {}", show(q), show(s), show_map(m), e.what));
                    }
                }
            }
            Ok(())
        };
        explore(
            p,
            sh,
            ctx,
            |ctx, _, sts, i| visit(ctx, &sts[i].t, &sts[i].m),
            |ctx, tr| {
                // results of operations on unshared nodes have a different allocation history
                if small && !tr.shared {
                    check_prefix_queries(tr.t, tr.m, &tr.p.keys)?;
                    check_extremes(tr.t, tr.m, &[vec![]])?;
                    ctx.evals += tr.p.keys.len() as u64 + 4;
                }
                Ok(())
            },
        )
    });
    for (name, m) in wide_maps() {
        units.push(unit(name.clone(), move |ctx| {
            let probes = byte_probes(&m);
            let t = build(&m);
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += m.len() as u64;
            ctx.evals += probes.len() as u64;
            ctx.nontrivial += 1;
            check_extremes(&t, &m, &[vec![], v("lead")])?;
            for p in probes.chunks(16) {
                crate::tick();
                check_prefix_queries(&t, &m, p)?;
                for q in p {
                    let want = rm::filter(&m, q, b"z");
                    check_iter(&t.filter_prefix(q, b"z"), &want)?;
                }
            }
            Ok(())
        }));
    }
    Check {
        id: "T02",
        level: "model_checking",
        rule: "exploration to closure of all contents over each universe; in every state all prefix queries, filters (with substitutions) and extremes for all probes (prefixes, extensions and neighbours of all keys); non-trivial: at least two entries",
        bounds: format!("universes as for T01, segments of length {:?}, 1..256 children", seg_lens(thorough)),
        assumptions: vec!["the reference is std BTreeMap", "64 bit platform"],
        units,
        quarantine: false,
    }
}

pub fn t07(thorough: bool) -> Check {
    let x = || vec![v("x")];
    let mut ps = vec![
        (bin(0, 0xff, 2, vec![v("x"), v("")]), 4),
        (tern(2, x()), 16),
        (chain(7, 1, x()), 2),
        (values(), 1),
        (bin(b'a', b'b', 3, x()), 8),
    ];
    for l in seg_lens(thorough) {
        ps.push((seg(l, true, 2, x()), 1));
        ps.push((seg(l, false, 2, x()), 1));
    }
    let mut units = units_over(thorough, ps, move |ctx, p, sh| {
        let full = p.nstates() <= 3000;
        explore(
            p,
            sh,
            ctx,
            |ctx, _, sts, i| {
                let (t, m) = (&sts[i].t, &sts[i].m);
                let mut evals = 0;
                g_groups(t, m, if full { 10 } else if thorough { 7 } else { 4 }, &mut evals)?;
                // the infallible variant
                for mode in 0..3usize {
                    let want: Vec<Map> = match mode {
                        0 => m.iter().map(|(k, v)| [(k.clone(), v.clone())].into_iter().collect()).collect(),
                        _ => {
                            let ps = rm::positions(m);
                            if mode == 1 {
                                if m.is_empty() { vec![] } else { vec![m.clone()] }
                            } else {
                                // descend at the root only
                                let mut r = vec![];
                                for (i, q) in ps.iter().enumerate() {
                                    if i == 0 {
                                        if q.has_value {
                                            r.push([(q.path.clone(), m[&q.path].clone())].into_iter().collect());
                                        }
                                    } else if q.parent == Some(0) {
                                        r.push(rm::scan(m, &q.path));
                                    }
                                }
                                r
                            }
                        }
                    };
                    let root = rm::lcp(m);
                    let got: Vec<RadixTree> = t
                        .group_by(|p, _| match mode {
                            0 => true,
                            1 => false,
                            _ => p.len() == root.len(),
                        })
                        .filter(|g| !(m.is_empty() && g.is_empty()))
                        .collect();
                    ensure!(got.len() == want.len(), "group_by (mode {mode}) yields {} groups for {}", got.len(), show_map(m));
                    for (g, w) in got.iter().zip(&want) {
                        check_all(g, w, &p.keys)?;
                    }
                    evals += 1;
                }
                ctx.evals += evals;
                Ok(())
            },
            |_, _| Ok(()),
        )
    });
    for (name, m) in wide_maps() {
        units.push(unit(name.clone(), move |ctx| {
            let t = build(&m);
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += m.len() as u64;
            ctx.nontrivial += 1;
            let mut e = 0;
            g_groups(&t, &m, 5, &mut e)?;
            ctx.evals += e;
            Ok(())
        }));
    }
    Check {
        id: "T07",
        level: "model_checking",
        rule: "in every reachable content of each universe, all decision tables of the descend function over the positions of the content; non-trivial: at least two entries",
        bounds: format!("all decision tables on universes of up to 3000 contents, tables over the first {} positions elsewhere", if thorough { 7 } else { 4 }),
        assumptions: vec!["positions are the branching points of the content and its keys", "64 bit platform"],
        units,
        quarantine: false,
    }
}

pub fn t08(thorough: bool) -> Check {
    let x = || vec![v("x")];
    let mut units = units_over(thorough, map_profiles(thorough), |ctx, p, sh| {
        let ps = p.clone();
        let canon = std::cell::RefCell::new(std::collections::HashMap::<Map, RadixTree>::new());
        explore(
            p,
            sh,
            ctx,
            |ctx, _, sts, i| {
                ctx.evals += 4;
                check_root(&sts[i].t, &sts[i].m)
            },
            |ctx, tr| {
                check_root(tr.t, tr.m)?;
                let mut c = canon.borrow_mut();
                if c.len() > 5000 {
                    c.clear();
                }
                let other = c.entry(tr.m.clone()).or_insert_with(|| build(tr.m));
                ensure!(tr.t == other && other == tr.t, "the tree is not equal to one built by inserting its content {}", show_map(tr.m));
                // and differs from the tree before, if the content changed
                let before = &tr.sts[tr.from];
                ensure!(
                    (*tr.t == before.t) == (*tr.m == before.m),
                    "equality with the previous version is wrong: {} and {}",
                    show_map(tr.m),
                    show_map(&before.m)
                );
                if tr.new && ps.nstates() < 20000 {
                    // a filtered subtree is canonical as well
                    for q in &ps.keys {
                        for s in [vec![], v("s"), q.clone()] {
                            let want = rm::filter(tr.m, q, &s);
                            let got = tr.t.filter_prefix(q, &s);
                            check_root(&got, &want)?;
                            ensure!(got == build(&want), "filter_prefix({}, {}) of {} is not equal to the tree of its content", show(q), show(&s), show_map(tr.m));
                            ctx.evals += 2;
                        }
                    }
                }
                ctx.evals += 6;
                Ok(())
            },
        )
    });
    // all pairs of contents: equality is exact
    for (p, n) in [
        (bin(b'a', b'b', 2, vec![v("x")]), 1usize),
        (Profile::new("pairs-4v3", vec![v(""), v("a"), v("ab"), v("b")], vec![v(""), v("x"), val(9, b'x')]), 1),
        (Profile::new("pairs-3v6", vec![v(""), v("a"), v("ab")], vec![v(""), v("x"), v("y"), val(8, b'x'), val(9, b'x'), val(9, b'y')]), 1),
        (seg(128, true, 2, x()), 1),
        (seg(9, true, 2, x()), 1),
        (values(), 1),
    ] {
        for i in 0..n {
            let p = p.clone();
            units.push(unit(format!("pairs-{}-{i}", p.name), move |ctx| {
                let ts: Vec<(Vec<u8>, RadixTree)> = (0..p.nstates()).map(|k| (p.nth(k), build(&p.map(&p.nth(k))))).collect();
                for a in &ts {
                    crate::tick();
                    for b in &ts {
                        ctx.evals += 1;
                        ensure!(
                            (a.1 == b.1) == (a.0 == b.0),
                            "equality of {} and {} is {}",
                            show_map(&p.map(&a.0)),
                            show_map(&p.map(&b.0)),
                            a.1 == b.1
                        );
                    }
                    ctx.states += 1;
                }
                Ok(())
            }));
        }
    }
    // nodes with many children, and many levels: every change of one entry makes a difference, and undoing it none
    for (name, m) in wide_maps() {
        units.push(unit(format!("edits-{name}"), move |ctx| {
            let t = build(&m);
            let rev = m.iter().rev().fold(RadixTree::default(), |mut t, (k, v)| {
                t.insert(k, v);
                t
            });
            ensure!(t == rev && rev == t, "{name}: the tree built in descending order is not equal");
            for (i, (k, val)) in m.iter().enumerate() {
                crate::tick();
                if name.starts_with("deep") && i % 8 != 7 && i > 16 && i + 16 < m.len() {
                    continue;
                }
                ctx.states += 1;
                ctx.nontrivial += 1;
                let longer = [&val[..], b"!"].concat();
                let other = match val.split_last() {
                    Some((l, rest)) => [rest, &[l ^ 1]].concat(),
                    None => vec![0],
                };
                let child = [&k[..], b"new"].concat();
                type Edit<'a> = (&'a [u8], Option<&'a [u8]>);
                for (key, new) in [(&k[..], None), (&k[..], Some(&longer[..])), (&k[..], Some(&other[..])), (&child[..], Some(&b""[..]))] as [Edit; 4] {
                    let mut e = t.clone();
                    match new {
                        None => e.remove(key),
                        Some(x) => e.insert(key, x),
                    }
                    ensure!(e != t && t != e, "{name}: the tree is equal to one with another entry {} {:?}", show(key), new.map(show));
                    match m.get(key) {
                        None => e.remove(key),
                        Some(x) => e.insert(key, x),
                    }
                    ensure!(e == t && t == e && e == rev, "{name}: the tree is not equal after undoing a change of {}", show(key));
                    ctx.evals += 5;
                    ctx.traces += 2;
                    ctx.transitions += 2;
                }
            }
            Ok(())
        }));
    }
    // long keys and values: every byte matters
    units.push(unit("edits-bytes", move |ctx| {
        let long: &[usize] = if ctx.thorough { &[511, 512, 513, 1023, 1024, 1025, 4096, 65536] } else { &[512, 1025] };
        for n in (1..=300usize).chain(long.iter().cloned()) {
            crate::tick();
            let x = crate::profiles::ramp(n);
            let trees = |x: &[u8]| {
                let mut below = RadixTree::single(x, b"v");
                below.insert([x, b"a"].concat(), b"w");
                let mut part = RadixTree::single(b"q", b"");
                part.insert([b"z", x].concat(), b"");
                let mut value = RadixTree::single(b"k", x);
                value.insert(b"l", x);
                [RadixTree::single(x, b"v"), below, part, RadixTree::single(b"k", x), value]
            };
            let ts = trees(&x);
            ctx.states += 1;
            ctx.nontrivial += 1;
            let mut others = vec![(n, x[..n - 1].to_vec()), (n, [&x[..], &[0]].concat())];
            for i in 0..n {
                if n > 300 && i % 16 != 15 && i > 8 && i + 8 < n {
                    continue;
                }
                let mut y = x.clone();
                y[i] ^= if i % 2 == 0 { 1 } else { 0x80 };
                others.push((i, y));
            }
            for (i, y) in others {
                for (a, b) in ts.iter().zip(trees(&y)) {
                    ensure!(*a != b && b != *a, "trees that differ at byte {i} of {n} are equal");
                    ctx.evals += 2;
                }
            }
            for (a, b) in ts.iter().zip(trees(&x)) {
                ensure!(*a == b, "trees with the same {n} bytes are not equal");
            }
            ctx.traces += 1;
        }
        Ok(())
    }));
    // results of combinations are canonical
    for (p, shards) in crate::c_join::small_join_profiles(thorough) {
        for i in 0..shards {
            let p = p.clone();
            units.push(unit(format!("joins-{}-{i}", p.name), move |ctx| crate::c_join::canonical_results(ctx, &p, (i, shards))));
        }
    }
    units.push(unit("attach-detach", move |ctx| crate::c_attach::detach_equal(ctx)));
    Check {
        id: "T08",
        level: "model_checking",
        rule: "all transitions of the content graph of each universe, and all results of combinations of all pairs: the result must equal the tree built from its content, differ from all others, and report its root; non-trivial: at least two entries",
        bounds: format!("universes as for T01, segments of length {:?}; all pairs of contents of 6 universes; all changes of one entry of nodes with up to 256 children, all changes of one byte of keys and values of up to 300 bytes; combinations of all pairs over 4-7 keys", seg_lens(thorough)),
        assumptions: vec!["the reference tree is built with insert in ascending order", "64 bit platform"],
        units,
        quarantine: false,
    }
}

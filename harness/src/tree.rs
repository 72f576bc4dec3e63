//! Reading trees through the public interface and comparing them with the reference.
use crate::core::*;
use crate::refmodel as rm;
use radixdb::node::{TreeNodeRef, Value, ValueRef};
use radixdb::store::BlobStore;
use radixdb::RadixTree;
use std::cell::RefCell;
use std::fmt::Write as _;

pub fn build(m: &Map) -> RadixTree {
    let mut t = RadixTree::default();
    for (k, v) in m {
        t.insert(k, v);
    }
    t
}
pub fn deep(t: &RadixTree) -> RadixTree {
    t.try_detached().unwrap()
}
/// hash of everything the debug output of all nodes shows: representation, not only content
pub fn fingerprint<S: BlobStore + Clone>(t: &RadixTree<S>) -> (u64, u64) {
    let h = RefCell::new(H128::new());
    let f = |p: &[u8], n: &TreeNodeRef<S>| {
        let mut h = h.borrow_mut();
        h.bytes(&(p.len() as u32).to_be_bytes());
        let _ = write!(h, "{:?}", n);
        Ok(true)
    };
    for x in t.try_group_by(f) {
        if x.is_err() {
            break;
        }
    }
    let r = h.borrow().get();
    r
}
/// the number of nodes for which the debug output says that they are read from a block
pub fn check_iter(t: &RadixTree, m: &Map) -> R<()> {
    let mut it = t.iter();
    let mut n = 0;
    for (k, v) in m {
        match it.next() {
            None => return viol(format!("iter() ends after {n} of {} entries of {}", m.len(), show_map(m))),
            Some((k1, v1)) => {
                if k1.as_ref() != &k[..] || v1.as_ref() != &v[..] {
                    return viol(format!(
                        "iter() entry {n} is {}=>{} instead of {}=>{} for content {}",
                        show(k1.as_ref()),
                        show(v1.as_ref()),
                        show(k),
                        show(v),
                        show_map(m)
                    ));
                }
            }
        }
        n += 1;
    }
    if let Some((k, v)) = it.next() {
        return viol(format!("iter() yields the extra entry {}=>{} for content {}", show(k.as_ref()), show(v.as_ref()), show_map(m)));
    }
    Ok(())
}
pub fn check_values(t: &RadixTree, m: &Map) -> R<()> {
    let mut it = t.values();
    for v in m.values() {
        match it.next() {
            Some(x) if x.as_ref() == &v[..] => {}
            x => return viol(format!("values() yields {:?} instead of {} for content {}", x, show(v), show_map(m))),
        }
    }
    ensure!(it.next().is_none(), "values() yields an extra value for content {}", show_map(m));
    ensure!(t.is_empty() == m.is_empty(), "is_empty() is {} for content {}", t.is_empty(), show_map(m));
    Ok(())
}
pub fn check_points(t: &RadixTree, m: &Map, probes: &[Vec<u8>]) -> R<()> {
    for p in probes {
        let want = m.get(p);
        let got = t.get(p);
        ensure!(
            got.as_ref().map(|x| x.as_ref()) == want.map(|x| &x[..]),
            "get({}) is {:?} instead of {:?} for content {}",
            show(p),
            got,
            want.map(|x| show(x)),
            show_map(m)
        );
        ensure!(t.contains_key(p) == want.is_some(), "contains_key({}) is wrong for content {}", show(p), show_map(m));
    }
    Ok(())
}
pub fn check_all(t: &RadixTree, m: &Map, probes: &[Vec<u8>]) -> R<()> {
    check_iter(t, m)?;
    check_values(t, m)?;
    check_points(t, m, probes)
}
/// what the tree reports about its root
pub fn check_root(t: &RadixTree, m: &Map) -> R<()> {
    ensure!(t.is_empty() == m.is_empty(), "is_empty() is {} for content {}", t.is_empty(), show_map(m));
    ensure!(t.is_leaf() == (m.len() <= 1), "is_leaf() is {} for content {}", t.is_leaf(), show_map(m));
    let l = rm::lcp(m);
    let p = t.prefix();
    ensure!(p.data() == Some(&l[..]), "prefix() is {:?} instead of {} for content {}", p, show(&l), show_map(m));
    let v = t.value();
    ensure!(
        v.as_ref().map(|x| x.data()) == m.get(&l).map(|x| Some(&x[..])),
        "value() is {:?} for content {}",
        v,
        show_map(m)
    );
    Ok(())
}
pub fn opt(x: Option<&[u8]>) -> String {
    x.map(show).unwrap_or_else(|| "none".into())
}
pub fn check_prefix_queries(t: &RadixTree, m: &Map, probes: &[Vec<u8>]) -> R<()> {
    for p in probes {
        let want = rm::has_prefix(m, p);
        ensure!(t.has_prefix(p) == want, "has_prefix({}) is {} for content {}", show(p), !want, show_map(m));
        let want = rm::scan(m, p);
        let mut it = t.scan_prefix(p);
        for (k, v) in &want {
            match it.next() {
                Some((k1, v1)) if k1.as_ref() == &k[..] && v1.as_ref() == &v[..] => {}
                Some((k1, v1)) => {
                    return viol(format!(
                        "scan_prefix({}) yields {}=>{} instead of {}=>{} for content {}",
                        show(p),
                        show(&k1),
                        show(&v1),
                        show(k),
                        show(v),
                        show_map(m)
                    ))
                }
                None => return viol(format!("scan_prefix({}) ends before {} for content {}", show(p), show(k), show_map(m))),
            }
        }
        if let Some((k, _)) = it.next() {
            return viol(format!("scan_prefix({}) yields the extra entry {} for content {}", show(p), show(&k), show_map(m)));
        }
    }
    Ok(())
}
pub fn check_extremes(t: &RadixTree, m: &Map, lead: &[Vec<u8>]) -> R<()> {
    let f = m.iter().next();
    let l = m.iter().next_back();
    let gf = t.first_value();
    let gl = t.last_value();
    ensure!(gf.as_ref().map(|x| x.as_ref()) == f.map(|x| &x.1[..]), "first_value() is {:?} for content {}", gf, show_map(m));
    ensure!(gl.as_ref().map(|x| x.as_ref()) == l.map(|x| &x.1[..]), "last_value() is {:?} for content {}", gl, show_map(m));
    for p in lead {
        for (name, got, want) in [("first_entry", t.first_entry(p.clone()), f), ("last_entry", t.last_entry(p.clone()), l)] {
            let want = want.map(|(k, v)| {
                let mut x = p.clone();
                x.extend_from_slice(k);
                (x, v)
            });
            let ok = match (&got, &want) {
                (None, None) => true,
                (Some((k, v)), Some((k1, v1))) => k == k1 && v.as_ref() == &v1[..],
                _ => false,
            };
            ensure!(ok, "{name}({}) is {:?} for content {}", show(p), got.map(|(k, v)| (show(&k), show(&v))), show_map(m));
        }
    }
    Ok(())
}
pub fn vr<'a>(x: &'a ValueRef<'_>) -> &'a [u8] {
    x.data().unwrap_or(b"<no data>")
}
/// a detached value with the given bytes
pub fn value_of(b: &[u8]) -> Value {
    RadixTree::single(b"", b).get(b"").expect("value")
}

// ---- the fallible interface, for any store ----

pub type Es = Vec<(Vec<u8>, Vec<u8>)>;
fn e<E: std::fmt::Debug>(what: &str) -> impl Fn(E) -> String + '_ {
    move |e| format!("{what} fails: {e:?}")
}
pub fn g_entries<S: BlobStore + Clone>(t: &RadixTree<S>) -> Result<Es, String> {
    let st = RadixTree::store(t).clone();
    let mut r = vec![];
    for x in t.try_iter() {
        let (k, v) = x.map_err(e("iteration"))?;
        r.push((k.as_ref().to_vec(), v.load(&st).map_err(e("Value::load"))?.to_vec()));
    }
    Ok(r)
}
pub fn g_check<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map) -> R<()> {
    let es = match g_entries(t) {
        Ok(x) => x,
        Err(x) => return viol(format!("{x} for content {}", show_map(m))),
    };
    if !(es.len() == m.len() && es.iter().zip(m.iter()).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1)) {
        let g: Vec<String> = es.iter().map(|(k, v)| format!("{}=>{}", show(k), show(v))).collect();
        return viol(format!("try_iter() yields {{{}}} for content {}", g.join(", "), show_map(m)));
    }
    Ok(())
}
pub fn g_reads<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map, probes: &[Vec<u8>]) -> R<()> {
    g_check(t, m)?;
    let st = RadixTree::store(t).clone();
    let c = || show_map(m);
    let load = |v: Option<Value<S>>| -> R<Option<Vec<u8>>> {
        match v {
            None => Ok(None),
            Some(v) => match v.load(&st) {
                Ok(x) => Ok(Some(x.to_vec())),
                Err(x) => viol(format!("Value::load fails: {x:?}")),
            },
        }
    };
    macro_rules! ok {
        ($x:expr, $what:expr) => {
            match $x {
                Ok(x) => x,
                Err(x) => return viol(format!("{} fails for content {}: {:?}", $what, c(), x)),
            }
        };
    }
    let mut vs = m.values();
    for v in t.try_values() {
        let v = load(Some(ok!(v, "try_values")))?;
        ensure!(v.as_ref() == vs.next(), "try_values() yields {} for content {}", opt(v.as_deref()), c());
    }
    ensure!(vs.next().is_none(), "try_values() ends early for content {}", c());
    ensure!(t.is_empty() == m.is_empty(), "is_empty() is {} for content {}", t.is_empty(), c());
    ensure!(t.is_leaf() == (m.len() <= 1), "is_leaf() is {} for content {}", t.is_leaf(), c());
    for p in probes {
        let g = load(ok!(t.try_get(p), "try_get"))?;
        ensure!(g.as_ref() == m.get(p), "try_get({}) is {} for content {}", show(p), opt(g.as_deref()), c());
        let g = ok!(t.try_contains_key(p), "try_contains_key");
        ensure!(g == m.contains_key(p), "try_contains_key({}) is {g} for content {}", show(p), c());
        let g = ok!(t.try_has_prefix(p), "try_has_prefix");
        ensure!(g == rm::has_prefix(m, p), "try_has_prefix({}) is {g} for content {}", show(p), c());
        let want = rm::scan(m, p);
        let mut wi = want.iter();
        for x in ok!(t.try_scan_prefix(p), "try_scan_prefix") {
            let (k, v) = ok!(x, "try_scan_prefix");
            let v = load(Some(v))?.unwrap();
            match wi.next() {
                Some((k1, v1)) if k.as_ref() == &k1[..] && *v1 == v => {}
                w => {
                    return viol(format!(
                        "try_scan_prefix({}) yields {}=>{} instead of {:?} for content {}",
                        show(p),
                        show(&k),
                        show(&v),
                        w.map(|x| show(x.0)),
                        c()
                    ))
                }
            }
        }
        ensure!(wi.next().is_none(), "try_scan_prefix({}) ends early for content {}", show(p), c());
    }
    let f = m.iter().next();
    let l = m.iter().next_back();
    let g = load(ok!(t.try_first_value(), "try_first_value"))?;
    ensure!(g.as_ref() == f.map(|x| x.1), "try_first_value() is {} for content {}", opt(g.as_deref()), c());
    let g = load(ok!(t.try_last_value(), "try_last_value"))?;
    ensure!(g.as_ref() == l.map(|x| x.1), "try_last_value() is {} for content {}", opt(g.as_deref()), c());
    for lead in [&b""[..], b"lead"] {
        for first in [true, false] {
            let g = if first {
                ok!(t.try_first_entry(lead.to_vec()), "try_first_entry")
            } else {
                ok!(t.try_last_entry(lead.to_vec()), "try_last_entry")
            };
            let g = match g {
                None => None,
                Some((k, v)) => Some((k, load(Some(v))?.unwrap())),
            };
            let w = if first { f } else { l }.map(|(k, v)| ([lead, &k[..]].concat(), v.clone()));
            ensure!(
                g == w,
                "try_{}_entry({}) is {:?} for content {}",
                if first { "first" } else { "last" },
                show(lead),
                g.map(|(k, v)| (show(&k), show(&v))),
                c()
            );
        }
    }
    Ok(())
}
/// filter by every prefix with every substitution
pub fn g_filter<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map, probes: &[Vec<u8>], subst: &[Vec<u8>]) -> R<()> {
    for p in probes {
        for s in subst.iter().chain(&rm::alike(p)) {
            let want = rm::filter(m, p, s);
            let got = match t.try_filter_prefix(p, s) {
                Ok(x) => x,
                Err(x) => return viol(format!("try_filter_prefix fails: {x:?}")),
            };
            if let Err(v) = g_check(&got, &want) {
                return viol(format!("try_filter_prefix({}, {}) of {}: {}", show(p), show(s), show_map(m), v.what));
            }
        }
    }
    Ok(())
}
/// all decision tables of group_by (at most 2^maxbits of them)
pub fn g_groups<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map, maxbits: usize, evals: &mut u64) -> R<()> {
    let pos = rm::positions(m);
    let n = pos.len();
    let st = RadixTree::store(t).clone();
    // masks over positions in preorder; beyond maxbits the remaining ones are all 0 or all 1
    let bits = n.min(maxbits);
    for mask in 0..(1u64 << bits) {
        for rest in [false, true] {
            if n <= maxbits && rest {
                continue;
            }
            let dec = |i: usize| if i < bits { mask >> i & 1 == 1 } else { rest };
            // skip tables that decide at positions that are not reached
            if (0..bits).any(|i| dec(i) && !pos[i].parent.map(dec).unwrap_or(true)) {
                continue;
            }
            *evals += 1;
            let mut want: Vec<Map> = vec![];
            let mut consulted: Vec<&[u8]> = vec![];
            for (i, p) in pos.iter().enumerate() {
                if !p.parent.map(dec).unwrap_or(true) {
                    continue;
                }
                // reached only if all ancestors were descended
                let mut a = p.parent;
                let mut reached = true;
                while let Some(j) = a {
                    reached &= dec(j);
                    a = pos[j].parent;
                }
                if !reached {
                    continue;
                }
                consulted.push(&p.path);
                if dec(i) {
                    if p.has_value {
                        want.push([(p.path.clone(), m[&p.path].clone())].into_iter().collect());
                    }
                } else {
                    want.push(rm::scan(m, &p.path));
                }
            }
            let log: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
            let f = |p: &[u8], _: &TreeNodeRef<S>| {
                log.borrow_mut().push(p.to_vec());
                Ok(match pos.iter().position(|x| x.path == p) {
                    Some(i) => dec(i),
                    None => mask & 1 == 1,
                })
            };
            let mut got = vec![];
            for g in t.try_group_by(f) {
                match g {
                    Ok(g) => got.push(g),
                    Err(x) => return viol(format!("try_group_by fails for content {}: {x:?}", show_map(m))),
                }
            }
            let what = || {
                let d: Vec<String> = (0..n).filter(|i| dec(*i)).map(|i| show(&pos[i].path)).collect();
                format!("group_by descending at [{}] of {}", d.join(","), show_map(m))
            };
            let _ = &st;
            got.retain(|g| !(m.is_empty() && g.is_empty()));
            ensure!(got.len() == want.len(), "{}: {} groups instead of {}", what(), got.len(), want.len());
            for (g, w) in got.iter().zip(&want) {
                if let Err(v) = g_check(g, w) {
                    return viol(format!("{}: wrong group: {}", what(), v.what));
                }
            }
            if !m.is_empty() {
                let l = log.borrow();
                ensure!(
                    l.len() == consulted.len() && l.iter().zip(&consulted).all(|(a, b)| a == b),
                    "{}: consulted at {:?}",
                    what(),
                    l.iter().map(|x| show(x)).collect::<Vec<_>>()
                );
            }
        }
    }
    Ok(())
}

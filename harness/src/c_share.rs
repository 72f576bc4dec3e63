//! T11: what an operation does not concern is shared, not copied.
//!
//! Each operation is measured (bytes allocated) on a tree and on the same tree in which everything that does not concern
//! it is much larger: all values, and everything below the keys that are not on the paths of the operation.
use crate::core::*;
use crate::profiles::*;
use crate::refmodel::Join;
use crate::tree::*;
use radixdb::RadixTree;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum O {
    Clone,
    Get,
    Contains,
    HasPrefix,
    First,
    Last,
    Iter,
    Values,
    Scan,
    Filter,
    Group,
    GroupWhole,
    Insert,
    Remove,
    RemovePrefix,
    With(Join),
    RemWith,
    RetWith,
}
use O::*;
const READS: &[O] = &[Clone, Get, Contains, HasPrefix, Scan, Filter, Group, GroupWhole];
/// these concern the first and the last key
const FIRST: &[O] = &[First, Iter, Values];
const LAST: &[O] = &[Last];
const CHANGES: &[O] = &[Insert, Remove, RemovePrefix, With(Join::Outer), With(Join::Inner), With(Join::Left), RemWith, RetWith];
const BULK: &[O] = &[With(Join::Outer), With(Join::Inner), With(Join::Left), RemWith, RetWith];

/// bytes that an operation may additionally use when the rest of the tree is larger
const SLACK: usize = 1024;
const BIG: usize = 6000;
const FAN: usize = 64;

/// the operation on `t`, which may be shared with `other`; what it leaves is dropped after the measurement
fn run(o: O, mut t: RadixTree, k: &[u8], b: &RadixTree) -> usize {
    let start = crate::alloc::taken();
    let used = |start: usize| crate::alloc::taken() - start;
    macro_rules! held {
        ($e:expr) => {{
            let x = $e;
            let n = used(start);
            drop(x);
            n
        }};
    }
    match o {
        Clone => held!(t.clone()),
        Get => held!(t.get(k)),
        Contains => held!(t.contains_key(k)),
        HasPrefix => held!(t.has_prefix(k)),
        First => held!((t.first_value(), t.first_entry(vec![]))),
        Last => held!((t.last_value(), t.last_entry(vec![]))),
        Iter => held!({
            let mut i = t.iter();
            (i.next(), i.next(), 0)
        }),
        Values => held!({
            let mut i = t.values();
            (i.next(), i.next(), 0)
        }),
        Scan => held!({
            let mut i = t.scan_prefix(k);
            i.next()
        }),
        Filter => held!((t.filter_prefix(k, b"new"), t.filter_prefix(k, k), t.filter_prefix(k, b""))),
        Group => held!(t.group_by(|p, _| !p.starts_with(k) && k.starts_with(p)).next()),
        GroupWhole => held!(t.group_by(|_, _| false).next()),
        Insert => {
            t.insert(k, b"another value of 22 byt");
            used(start)
        }
        Remove => {
            t.remove(k);
            used(start)
        }
        RemovePrefix => {
            t.remove_prefix(k);
            used(start)
        }
        With(Join::Outer) => {
            t.outer_combine_with(b, |x, y| x.set(Some(y)));
            used(start)
        }
        With(Join::Inner) => {
            t.inner_combine_with(b, |_, _| ());
            used(start)
        }
        With(Join::Left) => {
            t.left_combine_with(b, |x, y| x.set(Some(y)));
            used(start)
        }
        RemWith => {
            t.remove_prefix_with(b, |_| true);
            used(start)
        }
        RetWith => {
            t.retain_prefix_with(b, |_| true);
            used(start)
        }
    }
}
/// everything that is not on the paths of `ks` is larger
fn enlarged(m: &Map, ks: &[&[u8]]) -> Map {
    let mut r = Map::new();
    for (k, x) in m {
        let mut big = x.clone();
        big.resize(BIG, 1);
        r.insert(k.clone(), big);
        if !ks.iter().any(|q| q.starts_with(k)) {
            for i in 0..FAN {
                r.insert([&k[..], &[7, i as u8], b"some more"].concat(), if i % 16 == 0 { vec![i as u8; BIG] } else { vec![i as u8; 20] });
            }
        }
    }
    r
}
struct Trees {
    cache: HashMap<Vec<Vec<u8>>, (RadixTree, RadixTree)>,
}
impl Trees {
    /// the tree, and the tree that is larger where it does not matter
    fn get(&mut self, m: &Map, ks: &[&[u8]]) -> &(RadixTree, RadixTree) {
        let on: Vec<Vec<u8>> = m.keys().filter(|k| ks.iter().any(|q| q.starts_with(k))).cloned().collect();
        self.cache.entry(on).or_insert_with(|| (build(m), build(&enlarged(m, ks))))
    }
}
fn case(m: &Map, ks: &[&[u8]], ops: &[O], both: bool, trees: &mut Trees, ctx: &mut Ctx) -> R<()> {
    let b: Map = ks.iter().map(|k| (k.to_vec(), v("a value of 18 byte"))).collect();
    let b = build(&b);
    let (small, large) = trees.get(m, ks);
    for o in ops {
        crate::tick();
        // copies of a path in a tree that is shared
        let s = run(*o, small.clone(), ks[0], &b);
        let l = run(*o, large.clone(), ks[0], &b);
        let keys: Vec<String> = ks.iter().map(|k| show(k)).collect();
        ensure!(
            l <= s + SLACK,
            "{o:?} with {keys:?} on a clone of the tree with {} allocates {s} bytes, but {l} bytes if values and the entries below other keys are larger",
            show_map(m)
        );
        ctx.transitions += 2;
        ctx.evals += 1;
        ctx.nontrivial += m.keys().any(|w| !ks.iter().any(|k| k.starts_with(w))) as u64;
        if both {
            // a tree of its own
            let l = run(*o, deep(large), ks[0], &b);
            let s = run(*o, deep(small), ks[0], &b);
            ensure!(
                l <= s + SLACK,
                "{o:?} with {keys:?} on the unshared tree with {} allocates {s} bytes, but {l} bytes if values and the entries below other keys are larger",
                show_map(m)
            );
            ctx.transitions += 2;
            ctx.evals += 1;
        }
    }
    Ok(())
}
fn show_map(m: &Map) -> String {
    let ks: Vec<String> = m.keys().map(|k| show(k)).collect();
    format!("keys {ks:?}")
}
fn content(m: &Map, probes: &[Vec<u8>], pairs: bool, both: bool, ctx: &mut Ctx) -> R<()> {
    let mut trees = Trees { cache: HashMap::new() };
    ctx.states += 1;
    let all: Vec<O> = READS.iter().chain(CHANGES).cloned().collect();
    if let (Some(a), Some(b)) = (m.keys().next(), m.keys().next_back()) {
        case(m, &[a], FIRST, both, &mut trees, ctx)?;
        case(m, &[b], LAST, both, &mut trees, ctx)?;
    }
    for k in probes {
        case(m, &[k], &all, both, &mut trees, ctx)?;
        if pairs {
            for k2 in probes {
                if k2 > k {
                    case(m, &[k, k2], BULK, both, &mut trees, ctx)?;
                }
            }
        }
    }
    ctx.traces += 1;
    ctx.sample(|| format!("{}: {} keys", show_map(m), probes.len()));
    Ok(())
}
fn subsets(keys: &[Vec<u8>], max: usize, f: &mut impl FnMut(&Map) -> R<()>) -> R<()> {
    fn go(keys: &[Vec<u8>], at: usize, left: usize, m: &mut Map, f: &mut impl FnMut(&Map) -> R<()>) -> R<()> {
        f(m)?;
        if left > 0 {
            for i in at..keys.len() {
                m.insert(keys[i].clone(), val(20, i as u8));
                go(keys, i + 1, left - 1, m, f)?;
                m.remove(&keys[i]);
            }
        }
        Ok(())
    }
    go(keys, 0, max, &mut Map::new(), f)
}
pub fn t11(thorough: bool) -> Check {
    let mut units = vec![];
    let two = vec![vec![b'a'], vec![0xff]];
    let w2 = words(&two, 2);
    let w3 = words(&two, 3);
    {
        let w2 = w2.clone();
        units.push(unit("all-pairs", move |ctx| {
            let max = w2.len();
            subsets(&w2, max, &mut |m| content(m, &w2, true, true, ctx))
        }));
    }
    let max = if thorough { 6 } else { 3 };
    for (i, first) in w3.iter().enumerate() {
        let (w3, first) = (w3.clone(), first.clone());
        units.push(unit(format!("words3-{i}"), move |ctx| {
            let rest: Vec<Vec<u8>> = w3[i + 1..].to_vec();
            subsets(&rest, max - 1, &mut |m| {
                let mut m = m.clone();
                m.insert(first.clone(), val(20, 99));
                content(&m, &w3, false, m.len() <= 2, ctx)
            })
        }));
    }
    // prefixes that are inline, in memory of their own, and longer than a header can tell
    for len in [7usize, 8, 9, 127, 128, 300] {
        units.push(unit(format!("prefixes-{len}"), move |ctx| {
            for tail in [false, true] {
                let keys = words(&segs(len, tail), 2);
                let mut probes = keys.clone();
                // cut in the middle of prefixes
                for k in &keys {
                    for n in [1, len - 1, len, len + 1, len + len / 2] {
                        if n < k.len() {
                            probes.push(k[..n].to_vec());
                            probes.push([&k[..n], b"z"].concat());
                        }
                    }
                }
                probes.sort();
                probes.dedup();
                subsets(&keys, 3, &mut |m| content(m, &probes, false, m.len() <= 2, ctx))?;
            }
            Ok(())
        }));
    }
    for n in if thorough { vec![2usize, 16, 17, 64, 127, 128, 129, 255, 256] } else { vec![2, 17, 128, 256] } {
        units.push(unit(format!("fan-{n}"), move |ctx| {
            let mut m = Map::new();
            for i in 0..n {
                m.insert(vec![b'p', (i * 256 / n) as u8], val(20, i as u8));
            }
            let probes: Vec<Vec<u8>> = vec![v("p"), v("px"), vec![b'p', 0], vec![b'p', 255], vec![b'p', 128, 1], v("q"), v("")];
            content(&m, &probes, true, true, ctx)
        }));
    }
    // nested nodes
    for n in [10usize, 60] {
        units.push(unit(format!("chain-{n}"), move |ctx| {
            let mut m = Map::new();
            for i in 0..n {
                let k = vec![b'c'; i];
                m.insert([&k[..], b"b"].concat(), val(20, i as u8));
                m.insert([&k[..], b"d"].concat(), val(20, i as u8));
            }
            let probes: Vec<Vec<u8>> = (0..=n).step_by(n / 5).map(|i| vec![b'c'; i]).chain([v("x"), v("ccb"), v("ccbx"), v("cccd")]).collect();
            content(&m, &probes, true, true, ctx)
        }));
    }
    Check {
        id: "T11",
        level: "model_checking",
        rule: "each operation is executed on a tree, shared with a clone or not, and on the tree in which all values have 6000 bytes and 64 entries were added below every key that is not on the path of the operation; the bytes that it allocates may not grow by more than 1024; non-trivial: something in the tree is not on the path",
        bounds: format!("all contents of the 7 words of length <= 2 over two letters x all pairs of them; all contents of up to {max} of the 15 words of length <= 3 x all words; prefixes of 7 to 300 bytes cut in all ways; fans of up to 256 children; 60 nested nodes; 12 reading operations, 8 modifying ones"),
        assumptions: vec!["64 bit platform", "memory is counted in the global allocator, so only what is allocated counts, not time"],
        units,
        quarantine: false,
    }
}

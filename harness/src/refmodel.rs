//! The reference: what every operation means on an ordered map.
use crate::core::*;
use std::ops::Bound;

pub fn has_prefix(m: &Map, p: &[u8]) -> bool {
    m.range::<[u8], _>((Bound::Included(p), Bound::Unbounded)).next().map(|(k, _)| k.starts_with(p)).unwrap_or(false)
}
pub fn scan(m: &Map, p: &[u8]) -> Map {
    m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn filter(m: &Map, p: &[u8], s: &[u8]) -> Map {
    m.iter()
        .filter(|(k, _)| k.starts_with(p))
        .map(|(k, v)| {
            let mut x = s.to_vec();
            x.extend_from_slice(&k[p.len()..]);
            (x, v.clone())
        })
        .collect()
}
/// substitutions that have something in common with a prefix: the same, the same but one byte, the same length
pub fn alike(p: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![p.to_vec()];
    if let Some(n) = p.len().checked_sub(1) {
        for i in if n == 0 { vec![0] } else { vec![0, n] } {
            let mut x = p.to_vec();
            x[i] ^= 1;
            r.push(x);
        }
    }
    r
}
pub fn remove_prefix(m: &mut Map, p: &[u8]) {
    m.retain(|k, _| !k.starts_with(p))
}
pub fn lcp(m: &Map) -> Vec<u8> {
    match (m.keys().next(), m.keys().next_back()) {
        (Some(a), Some(b)) => a.iter().zip(b).take_while(|(x, y)| x == y).map(|(x, _)| *x).collect(),
        _ => vec![],
    }
}
/// keep (or with `keep` false: remove) the entries which have a prefix in `b` accepted by `f`
pub fn prefix_set(a: &Map, b: &Map, keep: bool, f: impl Fn(&[u8]) -> bool) -> Map {
    a.iter()
        .filter(|(k, _)| b.iter().any(|(p, v)| k.starts_with(p) && f(v)) == keep)
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Join {
    Outer,
    Inner,
    Left,
}
pub const JOINS: [Join; 3] = [Join::Outer, Join::Inner, Join::Left];
pub fn join(j: Join, a: &Map, b: &Map, f: impl Fn(&[u8], &[u8]) -> Option<Vec<u8>>) -> Map {
    let mut r = Map::new();
    for (k, av) in a {
        match b.get(k) {
            Some(bv) => {
                if let Some(x) = f(av, bv) {
                    r.insert(k.clone(), x);
                }
            }
            None => {
                if j != Join::Inner {
                    r.insert(k.clone(), av.clone());
                }
            }
        }
    }
    if j == Join::Outer {
        for (k, bv) in b {
            if !a.contains_key(k) {
                r.insert(k.clone(), bv.clone());
            }
        }
    }
    r
}
/// A position of the canonical tree of a content: all entries below `path`
#[derive(Debug, Clone)]
pub struct Pos {
    pub path: Vec<u8>,
    pub has_value: bool,
    /// index of the parent position
    pub parent: Option<usize>,
}
/// positions in preorder
pub fn positions(m: &Map) -> Vec<Pos> {
    fn go(es: &[&Vec<u8>], parent: Option<usize>, out: &mut Vec<Pos>) {
        let (a, b) = (es[0], es[es.len() - 1]);
        let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
        let path = a[..n].to_vec();
        let has_value = a.len() == n;
        let me = out.len();
        out.push(Pos { path, has_value, parent });
        let mut i = has_value as usize;
        while i < es.len() {
            let mut j = i;
            while j < es.len() && es[j][n] == es[i][n] {
                j += 1;
            }
            go(&es[i..j], Some(me), out);
            i = j;
        }
    }
    let mut out = vec![];
    let es: Vec<&Vec<u8>> = m.keys().collect();
    if !es.is_empty() {
        go(&es, None, &mut out);
    }
    out
}

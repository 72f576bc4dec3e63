//! Universes of keys, values and probes. A state assigns to each key of a universe nothing or one of the values.
use crate::core::*;

#[derive(Clone)]
pub struct Profile {
    pub name: String,
    pub keys: Vec<Vec<u8>>,
    pub vals: Vec<Vec<u8>>,
    /// byte strings for queries: the keys, their prefixes and neighbours
    pub probes: Vec<Vec<u8>>,
    /// byte strings for remove_prefix and filter_prefix transitions
    pub prefixes: Vec<Vec<u8>>,
}
impl Profile {
    pub fn new(name: impl Into<String>, mut keys: Vec<Vec<u8>>, vals: Vec<Vec<u8>>) -> Self {
        keys.sort();
        keys.dedup();
        let probes = probes(&keys);
        let mut prefixes = keys.clone();
        // inner positions that are not keys
        for k in &keys {
            for n in [0, 1, k.len() / 2, k.len().saturating_sub(1)] {
                if n <= k.len() {
                    prefixes.push(k[..n].to_vec());
                }
            }
        }
        prefixes.sort();
        prefixes.dedup();
        if prefixes.len() > 3 * keys.len() {
            prefixes = keys.clone();
        }
        Profile { name: name.into(), keys, vals, probes, prefixes }
    }
    pub fn map(&self, st: &[u8]) -> Map {
        let mut m = Map::new();
        for (i, &v) in st.iter().enumerate() {
            if v != 0 {
                m.insert(self.keys[i].clone(), self.vals[v as usize - 1].clone());
            }
        }
        m
    }
    pub fn nstates(&self) -> u64 {
        (self.vals.len() as u64 + 1).pow(self.keys.len() as u32)
    }
    pub fn nth(&self, mut n: u64) -> Vec<u8> {
        let b = self.vals.len() as u64 + 1;
        (0..self.keys.len())
            .map(|_| {
                let d = (n % b) as u8;
                n /= b;
                d
            })
            .collect()
    }
}
/// keys, their proper prefixes at interesting places, extensions, and strings that leave at each place
fn probes(keys: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], vec![b'z']];
    for k in keys {
        r.push(k.clone());
        let mut cuts: Vec<usize> = if k.len() <= 6 {
            (0..k.len()).collect()
        } else {
            vec![0, 1, 7, 8, 9, k.len() / 2 - 1, k.len() / 2, k.len() / 2 + 1, k.len() - 1]
        };
        cuts.retain(|c| *c < k.len());
        for c in cuts {
            r.push(k[..c].to_vec());
            if k.len() > 6 || keys.len() <= 7 {
                let mut x = k.clone();
                x[c] ^= 1;
                r.push(x);
                let mut x = k[..c].to_vec();
                x.push(k[c].wrapping_add(1));
                r.push(x);
                let mut x = k[..c].to_vec();
                x.push(k[c].wrapping_sub(1));
                r.push(x);
            }
        }
        for e in [0u8, 0xff, b'a'] {
            let mut x = k.clone();
            x.push(e);
            r.push(x);
        }
    }
    r.sort();
    r.dedup();
    r
}
pub fn words(alpha: &[Vec<u8>], depth: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for w in &last {
            for a in alpha {
                let mut x = w.clone();
                x.extend_from_slice(a);
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn bytes(v: &[u8]) -> Vec<Vec<u8>> {
    v.iter().map(|b| vec![*b]).collect()
}
pub fn bin(a: u8, b: u8, depth: usize, vals: Vec<Vec<u8>>) -> Profile {
    Profile::new(format!("bin{a:02x}{b:02x}d{depth}v{}", vals.len()), words(&bytes(&[a, b]), depth), vals)
}
pub fn tern(depth: usize, vals: Vec<Vec<u8>>) -> Profile {
    Profile::new(format!("tern-d{depth}v{}", vals.len()), words(&bytes(&[0, b'a', 0xff]), depth), vals)
}
pub fn v(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
pub fn val(n: usize, c: u8) -> Vec<u8> {
    vec![c; n]
}
/// two segments of the given length, that differ in their first byte or only in their last
pub fn segs(len: usize, tail: bool) -> Vec<Vec<u8>> {
    let mut a = vec![b'a'; len];
    let mut b = vec![b'a'; len];
    let i = if tail { len - 1 } else { 0 };
    a[i] = b'a';
    b[i] = b'b';
    vec![a, b]
}
pub fn seg(len: usize, tail: bool, depth: usize, vals: Vec<Vec<u8>>) -> Profile {
    Profile::new(
        format!("seg{len}{}d{depth}v{}", if tail { "t" } else { "h" }, vals.len()),
        words(&segs(len, tail), depth),
        vals,
    )
}
/// a chain of prefixes with side branches
pub fn chain(n: usize, step: usize, vals: Vec<Vec<u8>>) -> Profile {
    let mut keys = vec![];
    for i in 0..n {
        keys.push(vec![b'a'; i * step]);
        if i % 2 == 1 {
            let mut x = vec![b'a'; i * step];
            x.push(b'b');
            keys.push(x);
        }
    }
    Profile::new(format!("chain{n}x{step}v{}", vals.len()), keys, vals)
}
/// three short keys with many different values
pub fn values() -> Profile {
    let lens = [0, 1, 7, 8, 9, 127, 128, 300];
    Profile::new("values", vec![v(""), v("a"), v("ab")], lens.iter().map(|n| val(*n, b'0' + (*n % 10) as u8)).collect())
}
/// prefixes at the byte-length limits of the inline, heap and indirect representation
pub fn seg_lens(thorough: bool) -> Vec<usize> {
    if thorough {
        vec![2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 126, 127, 128, 129, 255, 256, 257]
    } else {
        vec![7, 8, 9, 64, 127, 128, 256]
    }
}
/// a string of the given length in which no two nearby positions hold the same byte
pub fn ramp(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + i / 251 * 3 + 1) as u8).collect()
}
/// every length up to a limit, and the neighbourhood of powers of two up to 2^16
pub fn lengths(thorough: bool) -> Vec<usize> {
    let mut r: Vec<usize> = (1..=if thorough { 2100 } else { 300 }).collect();
    r.extend([509, 510, 511, 512, 513, 767, 768, 1023, 1024, 1025, 4095, 4096, 65534, 65535, 65536, 65537]);
    r.sort();
    r.dedup();
    r
}
/// For every length n: a string P of n bytes, cut at c; the cut, P, a continuation of P, and a string that leaves P
/// at the cut. The values have the length n as well. Every length occurs as the length of a prefix, of the part
/// before a split, of the part behind it, and of a value.
pub fn length_profiles(thorough: bool) -> Vec<Profile> {
    let mut r = vec![];
    for n in lengths(thorough) {
        let mut cuts = vec![0, n / 2, n - 1];
        if n <= 24 {
            cuts = (0..n).collect();
        }
        if n > 600 && n < 4000 {
            cuts = vec![n / 2];
        }
        cuts.dedup();
        let p = ramp(n);
        for c in cuts {
            let mut side = p[..c].to_vec();
            side.push(p[c] ^ 0x80);
            let mut val = ramp(n);
            val.reverse();
            r.push(Profile::new(
                format!("len{n}cut{c}"),
                vec![p[..c].to_vec(), p.clone(), [&p[..], b"b"].concat(), side],
                vec![val],
            ));
        }
    }
    r
}
pub const LENGTH_GROUPS: usize = 8;
/// a shorter list for the checks in which a state costs more
pub fn length_group_small(thorough: bool, g: usize) -> Vec<Profile> {
    let mut r = length_profiles(thorough);
    r.retain(|p| p.vals[0].len() <= if thorough { 600 } else { 300 } || p.vals[0].len() > 60000);
    r.into_iter().enumerate().filter(|(i, _)| i % LENGTH_GROUPS == g).map(|x| x.1).collect()
}
/// the length profiles that belong to a group
pub fn length_group(thorough: bool, g: usize) -> Vec<Profile> {
    length_profiles(thorough).into_iter().enumerate().filter(|(i, _)| i % LENGTH_GROUPS == g).map(|x| x.1).collect()
}

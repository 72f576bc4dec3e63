//! Independent reader and writer of the documented block format.
use crate::core::*;
use std::collections::BTreeMap;

/// Decode a root block; checks well-formedness. `read` reads a block by id. `canonical`: also what the library
/// promises about its own blocks (short data inline, exact record size).
pub struct Decoder<'a> {
    pub read: &'a dyn Fn(&[u8]) -> R<Vec<u8>>,
    pub canonical: bool,
    pub nodes: u64,
    pub blocks: u64,
}
struct Cur<'a> {
    d: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize, what: &str) -> R<&'a [u8]> {
        ensure!(self.i + n <= self.d.len(), "block {} ends inside {what}", show(self.d));
        let r = &self.d[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    /// (is id, payload)
    fn field(&mut self, what: &str) -> R<(bool, &'a [u8])> {
        let h = self.take(1, what)?[0];
        let p = self.take((h & 0x7f) as usize, what)?;
        Ok((h & 0x80 != 0, p))
    }
}
impl<'a> Decoder<'a> {
    pub fn root(&mut self, data: &[u8]) -> R<Map> {
        let mut m = Map::new();
        let mut c = Cur { d: data, i: 0 };
        self.blocks += 1;
        self.node(&mut c, &[], true, &mut m)?;
        ensure!(c.i == data.len(), "{} bytes after the root node in {}", data.len() - c.i, show(data));
        Ok(m)
    }
    /// returns the first byte of the prefix
    fn node(&mut self, c: &mut Cur, path: &[u8], root: bool, m: &mut Map) -> R<Option<u8>> {
        self.nodes += 1;
        let start = c.i;
        let (id, p) = c.field("a prefix")?;
        let prefix = if id {
            ensure!(!p.is_empty(), "a prefix without data in {}", show(c.d));
            let data = (self.read)(&p[1..])?;
            ensure!(data.first() == Some(&p[0]), "the first byte of an indirect prefix is {:02x}, the prefix is {}", p[0], show(&data));
            ensure!(!self.canonical || data.len() > 127, "a prefix of {} bytes is stored indirectly", data.len());
            data
        } else {
            p.to_vec()
        };
        ensure!(root || !prefix.is_empty(), "an empty prefix below the root in {}", show(c.d));
        let mut key = path.to_vec();
        key.extend_from_slice(&prefix);
        let (id, p) = c.field("a value")?;
        let value = match (id, p.is_empty()) {
            (true, true) => None,
            (true, false) => {
                let data = (self.read)(p)?;
                ensure!(!self.canonical || data.len() > 127, "a value of {} bytes is stored indirectly", data.len());
                Some(data)
            }
            _ => Some(p.to_vec()),
        };
        let (id, p) = c.field("children")?;
        ensure!(id, "children are stored inline in {}", show(&c.d[start..]));
        ensure!(value.is_some() || !p.is_empty() || (root && prefix.is_empty()), "a node without value and children in {}", show(c.d));
        let has_value = value.is_some();
        if let Some(v) = value {
            ensure!(m.insert(key.clone(), v).is_none(), "the key {} is stored twice", show(&key));
        }
        if !p.is_empty() {
            let block = (self.read)(&p[1..])?;
            self.blocks += 1;
            ensure!(!block.is_empty(), "an empty children block");
            let mut c2 = Cur { d: &block, i: 0 };
            let mut last: Option<u8> = None;
            let mut sizes = vec![];
            while c2.i < block.len() {
                let s = c2.i;
                let first = self.node(&mut c2, &key, false, m)?;
                sizes.push(c2.i - s);
                ensure!(last < first, "children are not sorted by their first byte in {}", show(&block));
                last = first;
            }
            let want = if sizes.iter().all(|x| *x == sizes[0]) && sizes[0] < 256 { sizes[0] as u8 } else { 0 };
            ensure!(p[0] == want, "the record size is {} for records of sizes {:?}", p[0], &sizes[..sizes.len().min(8)]);
            ensure!(!self.canonical || has_value || sizes.len() > 1, "a node without value and with a single child at {}", show(&key));
        }
        Ok(prefix.first().copied())
    }
}

/// How to encode
#[derive(Clone, Copy, Debug, Default)]
pub struct Enc {
    pub indirect_prefix: bool,
    pub indirect_value: bool,
    /// one node per `split` bytes of the path, 0: as compact as possible
    pub split: usize,
}
#[derive(Default, Clone)]
struct N {
    prefix: Vec<u8>,
    value: Option<Vec<u8>>,
    children: BTreeMap<u8, N>,
}
fn tree(es: &[(&[u8], &[u8])]) -> N {
    let n = match (es.first(), es.last()) {
        (Some(a), Some(b)) => a.0.iter().zip(b.0).take_while(|(x, y)| x == y).count(),
        _ => 0,
    };
    let mut r = N::default();
    if es.is_empty() {
        return r;
    }
    r.prefix = es[0].0[..n].to_vec();
    let mut i = 0;
    if es[0].0.len() == n {
        r.value = Some(es[0].1.to_vec());
        i = 1;
    }
    while i < es.len() {
        let b = es[i].0[n];
        let mut j = i;
        while j < es.len() && es[j].0[n] == b {
            j += 1;
        }
        let sub: Vec<(&[u8], &[u8])> = es[i..j].iter().map(|(k, v)| (&k[n..], *v)).collect();
        r.children.insert(b, tree(&sub));
        i = j;
    }
    r
}
impl Enc {
    pub fn encode(&self, m: &Map, write: &dyn Fn(&[u8]) -> Vec<u8>) -> Vec<u8> {
        let es: Vec<(&[u8], &[u8])> = m.iter().map(|(k, v)| (&k[..], &v[..])).collect();
        let mut out = vec![];
        self.node(&tree(&es), write, &mut out);
        out
    }
    fn node(&self, n: &N, write: &dyn Fn(&[u8]) -> Vec<u8>, out: &mut Vec<u8>) {
        if self.split > 0 && n.prefix.len() > self.split {
            // the rest of the prefix, the value and the children go to a single child
            let mut rest = n.clone();
            rest.prefix = n.prefix[self.split..].to_vec();
            let mut top = N { prefix: n.prefix[..self.split].to_vec(), ..Default::default() };
            top.children.insert(rest.prefix[0], rest);
            return self.node(&top, write, out);
        }
        if n.prefix.len() > 127 || (self.indirect_prefix && !n.prefix.is_empty()) {
            let id = write(&n.prefix);
            out.push(0x80 | (id.len() + 1) as u8);
            out.push(n.prefix[0]);
            out.extend_from_slice(&id);
        } else {
            out.push(n.prefix.len() as u8);
            out.extend_from_slice(&n.prefix);
        }
        match &n.value {
            None => out.push(0x80),
            Some(v) if v.len() > 127 || self.indirect_value => {
                let id = write(v);
                out.push(0x80 | id.len() as u8);
                out.extend_from_slice(&id);
            }
            Some(v) => {
                out.push(v.len() as u8);
                out.extend_from_slice(v);
            }
        }
        if n.children.is_empty() {
            out.push(0x80);
        } else {
            let mut block = vec![];
            let mut sizes = vec![];
            for c in n.children.values() {
                let s = block.len();
                self.node(c, write, &mut block);
                sizes.push(block.len() - s);
            }
            let id = write(&block);
            out.push(0x80 | (id.len() + 1) as u8);
            out.push(if sizes.iter().all(|x| *x == sizes[0]) && sizes[0] < 256 { sizes[0] as u8 } else { 0 });
            out.extend_from_slice(&id);
        }
    }
}

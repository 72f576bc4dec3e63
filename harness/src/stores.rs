//! User-defined blob stores for the attached engines.
use radixdb::store::{Blob, BlobStore, DynBlobStore};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Inner {
    ids: HashMap<Vec<u8>, Vec<u8>>,
    blobs: BTreeMap<Vec<u8>, Arc<Vec<u8>>>,
}
/// Content addressed store with ids of a fixed length: equal blobs have equal ids, so that the states of trees
/// attached to it form a finite graph. `salt` makes the ids of different stores disjoint.
pub struct InternStore {
    pub idlen: usize,
    salt: u8,
    inner: Mutex<Inner>,
    pub reads: AtomicU64,
    pub writes: AtomicU64,
    pub bad_reads: AtomicU64,
    pub syncs: AtomicU64,
}
impl fmt::Debug for InternStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("InternStore")
    }
}
impl InternStore {
    pub fn new(idlen: usize, salt: u8) -> Arc<Self> {
        Arc::new(InternStore {
            idlen,
            salt,
            inner: Default::default(),
            reads: AtomicU64::new(0),
            writes: AtomicU64::new(0),
            bad_reads: AtomicU64::new(0),
            syncs: AtomicU64::new(0),
        })
    }
    pub fn count(&self) -> usize {
        self.inner.lock().unwrap().blobs.len()
    }
    pub fn blob(&self, id: &[u8]) -> Option<Arc<Vec<u8>>> {
        self.inner.lock().unwrap().blobs.get(id).cloned()
    }
    pub fn put(&self, data: &[u8]) -> Vec<u8> {
        let mut g = self.inner.lock().unwrap();
        if let Some(id) = g.ids.get(data) {
            return id.clone();
        }
        let n = g.blobs.len() as u32;
        let nb = self.idlen.min(4);
        assert!(nb == 4 || n >> (8 * nb) == 0, "harness: too many blobs for the id length");
        let mut id = vec![self.salt; self.idlen];
        id[..nb].copy_from_slice(&n.to_le_bytes()[..nb]);
        if nb == 4 {
            id[3] ^= self.salt;
        }
        g.ids.insert(data.to_vec(), id.clone());
        g.blobs.insert(id.clone(), Arc::new(data.to_vec()));
        id
    }
    pub fn get(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        match self.inner.lock().unwrap().blobs.get(id) {
            Some(x) => Ok(Blob::from_arc_vec(x.clone())),
            None => {
                self.bad_reads.fetch_add(1, SeqCst);
                Err(anyhow::anyhow!("read of an id that was never returned: {id:02x?}"))
            }
        }
    }
}
impl BlobStore for InternStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        self.reads.fetch_add(1, SeqCst);
        self.get(id)
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        self.writes.fetch_add(1, SeqCst);
        Ok(self.put(data))
    }
    fn sync(&self) -> anyhow::Result<()> {
        self.syncs.fetch_add(1, SeqCst);
        Ok(())
    }
}
pub fn dynstore<S: BlobStore<Error = anyhow::Error>>(s: Arc<S>) -> DynBlobStore {
    s
}
/// A writable, readable memory file
pub fn memfd() -> std::fs::File {
    use std::os::fd::FromRawFd;
    let fd = unsafe { libc::memfd_create(c"db".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    unsafe { std::fs::File::from_raw_fd(fd) }
}

// ---- fault plans: one counter for store calls and calls of user functions of this thread ----

#[derive(Clone, Copy, Default)]
struct Plan {
    on: bool,
    n: u64,
    at: u64,
    perm: bool,
    hit: bool,
}
thread_local! {
    static PLAN: std::cell::Cell<Plan> = const { std::cell::Cell::new(Plan { on: false, n: 0, at: 0, perm: false, hit: false }) };
}
/// the call number `at` fails, and with `perm` all later ones
pub fn plan(at: u64, perm: bool) {
    PLAN.with(|p| p.set(Plan { on: true, n: 0, at, perm, hit: false }))
}
/// end the plan: the number of calls and whether one failed
pub fn plan_end() -> (u64, bool) {
    PLAN.with(|p| {
        let x = p.get();
        p.set(Plan::default());
        (x.n, x.hit)
    })
}
pub fn fault_point(what: &str) -> anyhow::Result<()> {
    PLAN.with(|p| {
        let mut x = p.get();
        if !x.on {
            return Ok(());
        }
        let k = x.n;
        x.n += 1;
        let fail = k == x.at || x.perm && k > x.at;
        x.hit |= fail;
        p.set(x);
        if fail {
            Err(anyhow::anyhow!("injected failure of {what}"))
        } else {
            Ok(())
        }
    })
}
/// a store whose calls fail as planned
#[derive(Debug)]
pub struct FaultStore(pub Arc<InternStore>);
impl FaultStore {
    pub fn new(idlen: usize, salt: u8) -> Arc<Self> {
        Arc::new(FaultStore(InternStore::new(idlen, salt)))
    }
}
impl BlobStore for FaultStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        fault_point("read")?;
        self.0.read(id)
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        fault_point("write")?;
        self.0.write(data)
    }
    fn sync(&self) -> anyhow::Result<()> {
        fault_point("sync")?;
        self.0.sync()
    }
}

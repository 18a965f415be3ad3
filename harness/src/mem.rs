//! Instrumented in-memory Storage and Indexer.  Each keeps its maps behind its
//! own lock but does every read-modify-write in separate steps with a
//! suspension point between them, as the real key-value backends do: only the
//! callers' own locking makes compound operations atomic.
use crate::chaos;
use monolith::chunk::ChunkOpts;
use monolith::indexer::Indexer;
use monolith::label::Labels;
use monolith::option::DbOpts;
use monolith::storage::Storage;
use monolith::time_point::TimePoint;
use monolith::{Builder, HasTypeName, MonolithErr, Result};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Shared {
    pub stores: Mutex<HashMap<PathBuf, Arc<StoreMap>>>,
    pub indexes: Mutex<HashMap<PathBuf, Arc<IndexMap>>>,
    /// refuse to build further chunks (ends the rotation of a finished run)
    pub stopped: AtomicBool,
    /// the next `n` builds fail
    pub fail_builds: AtomicU64,
    pub panic_builds: AtomicU64,
    pub fail_writes: AtomicU64,
    pub fail_reads: AtomicU64,
    pub builds: AtomicU64,
    /// the storages made for chunks: directory, when, and whether the one before failed
    pub made: Mutex<Vec<(PathBuf, u64, bool)>>,
    failed: AtomicBool,
}
#[derive(Default)]
pub struct StoreMap {
    series: Mutex<BTreeMap<u64, Vec<TimePoint>>>,
    shared: Option<Arc<Shared>>,
}
#[derive(Default)]
pub struct IndexMap {
    exact: Mutex<BTreeMap<Vec<(String, String)>, u64>>,
    meta: Mutex<BTreeMap<u64, Vec<(String, String)>>>,
    by_label: Mutex<BTreeMap<(String, String), Vec<u64>>>,
}

fn take(n: &AtomicU64) -> bool {
    n.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| v.checked_sub(1)).is_ok()
}
fn injected() -> MonolithErr {
    MonolithErr::InternalErr("injected".into())
}

fn norm(l: &Labels) -> Vec<(String, String)> {
    let mut v: Vec<_> = l.vec().iter().map(|x| (x.key().clone(), x.value().clone())).collect();
    v.sort();
    v
}

pub struct MemStorage(pub Arc<StoreMap>);
impl HasTypeName for MemStorage {
    fn get_type_name() -> &'static str {
        "MemStorage"
    }
}
impl Storage for MemStorage {
    fn write_time_point(&self, id: u64, timestamp: u64, value: f64) -> Result<()> {
        chaos::point();
        if let Some(s) = &self.0.shared {
            if take(&s.fail_writes) {
                return Err(injected());
            }
        }
        let old = self.0.series.lock().unwrap().get(&id).cloned();
        chaos::point();
        let mut v = old.unwrap_or_default();
        let at = v.partition_point(|p| p.timestamp <= timestamp);
        v.insert(at, TimePoint::new(timestamp, value));
        self.0.series.lock().unwrap().insert(id, v);
        chaos::point();
        Ok(())
    }
    fn read_time_series(&self, id: u64, start: u64, end: u64) -> Result<Vec<TimePoint>> {
        chaos::point();
        if let Some(s) = &self.0.shared {
            if take(&s.fail_reads) {
                return Err(injected());
            }
        }
        let v = self.0.series.lock().unwrap().get(&id).cloned().ok_or(MonolithErr::NotFoundErr)?;
        chaos::point();
        let (a, b) = (v[0].timestamp, v[v.len() - 1].timestamp);
        if a > end || b < start {
            return Err(MonolithErr::OutOfRangeErr(a, b));
        }
        Self::trim_time_series(v, start, end)
    }
}

pub struct MemIndexer(pub Arc<IndexMap>);
impl HasTypeName for MemIndexer {
    fn get_type_name() -> &'static str {
        "MemIndexer"
    }
}
impl Indexer for MemIndexer {
    fn get_series_metadata_contains_labels(&self, labels: Labels) -> Result<Vec<(u64, Labels)>> {
        let ids = self.get_series_id_contains_labels(labels)?;
        let mut out = vec![];
        for id in ids {
            chaos::point();
            if let Some(m) = self.0.meta.lock().unwrap().get(&id) {
                out.push((id, crate::backends::labels(m)));
            }
        }
        Ok(out)
    }
    fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<u64>> {
        let mut acc: Option<Vec<u64>> = None;
        for l in norm(&labels) {
            chaos::point();
            let ids = self.0.by_label.lock().unwrap().get(&l).cloned().unwrap_or_default();
            acc = Some(match acc {
                None => ids,
                Some(a) => a.into_iter().filter(|x| ids.contains(x)).collect(),
            });
        }
        Ok(acc.unwrap_or_default())
    }
    fn get_series_id_by_labels(&self, labels: Labels) -> Result<Option<u64>> {
        chaos::point();
        let r = self.0.exact.lock().unwrap().get(&norm(&labels)).cloned();
        chaos::point();
        Ok(r)
    }
    fn create_index(&self, labels: Labels, id: u64) -> Result<()> {
        let n = norm(&labels);
        chaos::point();
        self.0.meta.lock().unwrap().insert(id, n.clone());
        for l in &n {
            chaos::point();
            let mut v = self.0.by_label.lock().unwrap().get(l).cloned().unwrap_or_default();
            chaos::point();
            v.push(id);
            self.0.by_label.lock().unwrap().insert(l.clone(), v);
        }
        chaos::point();
        self.0.exact.lock().unwrap().insert(n, id);
        Ok(())
    }
}

pub struct MemStorageBuilder(pub Arc<Shared>);
pub struct MemIndexerBuilder(pub Arc<Shared>);

impl Builder<MemStorage> for MemStorageBuilder {
    fn build(&self, path: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<MemStorage> {
        chaos::point();
        self.0.builds.fetch_add(1, Ordering::SeqCst);
        if take(&self.0.fail_builds) {
            self.0.failed.store(true, Ordering::SeqCst);
            return Err(injected());
        }
        if take(&self.0.panic_builds) {
            self.0.failed.store(true, Ordering::SeqCst);
            panic!("injected");
        }
        let after = self.0.failed.swap(false, Ordering::SeqCst);
        self.0.made.lock().unwrap().push((path.clone().into(), crate::core::now_ms(), after));
        let m = Arc::new(StoreMap { series: Default::default(), shared: Some(self.0.clone()) });
        let m = self.0.stores.lock().unwrap().entry(PathBuf::from(path).join("storage")).or_insert(m).clone();
        Ok(MemStorage(m))
    }
    fn write_to_chunk(&self, _: &Path) -> Result<()> {
        if self.0.stopped.load(Ordering::SeqCst) {
            return Err(injected());
        }
        Ok(())
    }
    fn read_from_chunk(&self, dir: &Path, _: Option<&ChunkOpts>) -> Result<Option<MemStorage>> {
        Ok(self.0.stores.lock().unwrap().get(dir).cloned().map(MemStorage))
    }
    fn write_config(&self, _: &Path) -> Result<()> {
        Ok(())
    }
    fn read_config(&self, _: &Path) -> Result<()> {
        Ok(())
    }
}
impl Builder<MemIndexer> for MemIndexerBuilder {
    fn build(&self, path: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<MemIndexer> {
        chaos::point();
        if take(&self.0.fail_builds) {
            self.0.failed.store(true, Ordering::SeqCst);
            return Err(injected());
        }
        if take(&self.0.panic_builds) {
            self.0.failed.store(true, Ordering::SeqCst);
            panic!("injected");
        }
        let m = self.0.indexes.lock().unwrap().entry(PathBuf::from(path).join("indexer")).or_default().clone();
        Ok(MemIndexer(m))
    }
    fn write_to_chunk(&self, _: &Path) -> Result<()> {
        if self.0.stopped.load(Ordering::SeqCst) {
            return Err(injected());
        }
        Ok(())
    }
    fn read_from_chunk(&self, dir: &Path, _: Option<&ChunkOpts>) -> Result<Option<MemIndexer>> {
        Ok(self.0.indexes.lock().unwrap().get(dir).cloned().map(MemIndexer))
    }
    fn write_config(&self, _: &Path) -> Result<()> {
        Ok(())
    }
    fn read_config(&self, _: &Path) -> Result<()> {
        Ok(())
    }
}

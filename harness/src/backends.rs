//! One interface over the databases, chunks, indexers and storages of every
//! backend combination the repository offers (and the instrumented one).
use crate::gen::LabelSet;
use crate::mem::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::label::{Label, Labels};
use monolith::option::DbOpts;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::{Builder, MonolithDb, MonolithErr, TiKvRawBackendSingleton};
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;

pub type Pt = (u64, f64);
pub type QOut = Vec<(LabelSet, Vec<Pt>)>;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    OutOfRange,
    Other(String),
}
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            E::OutOfRange => write!(f, "out of range"),
            E::Other(s) => write!(f, "{}", s),
        }
    }
}
fn e(x: MonolithErr) -> E {
    match x {
        MonolithErr::OutOfRangeErr(..) => E::OutOfRange,
        o => E::Other(o.to_string()),
    }
}

pub fn labels(l: &[(String, String)]) -> Labels {
    Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect())
}
pub fn unlabels(l: &Labels) -> LabelSet {
    let mut v: LabelSet = l.vec().iter().map(|x| (x.key().clone(), x.value().clone())).collect();
    v.sort();
    v
}
fn points(p: &[Pt]) -> Vec<TimePoint> {
    p.iter().map(|(t, v)| TimePoint::new(*t, *v)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    SledSled,
    TikvTikv,
    SledTikv,
    TikvSled,
    Mem,
}
pub const REAL: [Kind; 4] = [Kind::SledSled, Kind::TikvTikv, Kind::SledTikv, Kind::TikvSled];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::SledSled => "sled/sled",
            Kind::TikvTikv => "tikv/tikv",
            Kind::SledTikv => "sled/tikv",
            Kind::TikvSled => "tikv/sled",
            Kind::Mem => "mem/mem",
        }
    }
    pub fn from_name(s: &str) -> Kind {
        for k in [Kind::SledSled, Kind::TikvTikv, Kind::SledTikv, Kind::TikvSled, Kind::Mem] {
            if k.name() == s {
                return k;
            }
        }
        panic!("backend {}", s)
    }
    /// The storage half takes samples of one series in any order.
    pub fn any_order(self) -> bool {
        matches!(self, Kind::SledSled | Kind::SledTikv | Kind::Mem)
    }
    pub fn uses_sled(self) -> bool {
        matches!(self, Kind::SledSled | Kind::SledTikv | Kind::TikvSled)
    }
    pub fn uses_tikv(self) -> bool {
        matches!(self, Kind::TikvTikv | Kind::SledTikv | Kind::TikvSled)
    }
}

pub trait TDb: Send + Sync {
    fn write(&self, l: &[(String, String)], p: &[Pt]) -> Result<(), E>;
    fn write1(&self, l: &[(String, String)], p: Pt) -> Result<(), E>;
    fn query(&self, m: &[(String, String)], a: u64, b: u64) -> Result<QOut, E>;
}
impl<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static> TDb for Arc<MonolithDb<S, I>> {
    fn write(&self, l: &[(String, String)], p: &[Pt]) -> Result<(), E> {
        self.write_time_points(labels(l), points(p)).map_err(e)
    }
    fn write1(&self, l: &[(String, String)], p: Pt) -> Result<(), E> {
        self.write_time_point(labels(l), TimePoint::new(p.0, p.1)).map_err(e)
    }
    fn query(&self, m: &[(String, String)], a: u64, b: u64) -> Result<QOut, E> {
        let r = MonolithDb::query(self, labels(m), a, b).map_err(e)?;
        Ok(r.iter().map(|(l, p)| (unlabels(l), p.iter().map(|t| (t.timestamp, t.value)).collect())).collect())
    }
}

pub trait TChunk: Send + Sync {
    fn insert(&self, l: &[(String, String)], p: Pt) -> Result<(), E>;
    fn query(&self, m: &[(String, String)], a: u64, b: u64) -> Result<QOut, E>;
    /// with the series ids
    fn query_ids(&self, m: &[(String, String)], a: u64, b: u64) -> Result<Vec<(u64, LabelSet)>, E>;
    fn window(&self) -> (u64, u64);
    fn overlaps(&self, a: u64, b: u64) -> bool;
    fn close(&self);
    fn is_closed(&self) -> bool;
}
impl<S: Storage + Send + Sync, I: Indexer + Send + Sync> TChunk for Chunk<S, I> {
    fn insert(&self, l: &[(String, String)], p: Pt) -> Result<(), E> {
        Chunk::insert(self, labels(l), TimePoint::new(p.0, p.1)).map_err(e)
    }
    fn query(&self, m: &[(String, String)], a: u64, b: u64) -> Result<QOut, E> {
        let r = Chunk::query(self, labels(m), a, b).map_err(e)?;
        Ok(r.iter().map(|t| (unlabels(t.meta_data()), t.time_points().iter().map(|t| (t.timestamp, t.value)).collect())).collect())
    }
    fn query_ids(&self, m: &[(String, String)], a: u64, b: u64) -> Result<Vec<(u64, LabelSet)>, E> {
        let r = Chunk::query(self, labels(m), a, b).map_err(e)?;
        Ok(r.iter().map(|t| (t.id(), unlabels(t.meta_data()))).collect())
    }
    fn window(&self) -> (u64, u64) {
        self.start_end_time()
    }
    fn overlaps(&self, a: u64, b: u64) -> bool {
        self.is_with_range(a, b)
    }
    fn close(&self) {
        Chunk::close(self)
    }
    fn is_closed(&self) -> bool {
        Chunk::is_closed(self)
    }
}

pub trait TIdx: Send + Sync {
    fn create(&self, l: &[(String, String)], id: u64) -> Result<(), E>;
    fn exact(&self, l: &[(String, String)]) -> Result<Option<u64>, E>;
    fn ids(&self, l: &[(String, String)]) -> Result<Vec<u64>, E>;
    fn meta(&self, l: &[(String, String)]) -> Result<Vec<(u64, LabelSet)>, E>;
}
pub struct IdxBox<I>(pub I);
impl<I: Indexer + Send + Sync> TIdx for IdxBox<I> {
    fn create(&self, l: &[(String, String)], id: u64) -> Result<(), E> {
        self.0.create_index(labels(l), id).map_err(e)
    }
    fn exact(&self, l: &[(String, String)]) -> Result<Option<u64>, E> {
        self.0.get_series_id_by_labels(labels(l)).map_err(e)
    }
    fn ids(&self, l: &[(String, String)]) -> Result<Vec<u64>, E> {
        self.0.get_series_id_contains_labels(labels(l)).map_err(e)
    }
    fn meta(&self, l: &[(String, String)]) -> Result<Vec<(u64, LabelSet)>, E> {
        Ok(self
            .0
            .get_series_metadata_contains_labels(labels(l))
            .map_err(e)?
            .into_iter()
            .map(|(i, l)| (i, unlabels(&l)))
            .collect())
    }
}
pub trait TSto: Send + Sync {
    fn write(&self, id: u64, p: Pt) -> Result<(), E>;
    /// `None`: the storage says the series is unknown or has nothing in range
    fn read(&self, id: u64, a: u64, b: u64) -> Result<Option<Vec<Pt>>, E>;
}
pub struct StoBox<S>(pub S);
impl<S: Storage + Send + Sync> TSto for StoBox<S> {
    fn write(&self, id: u64, p: Pt) -> Result<(), E> {
        self.0.write_time_point(id, p.0, p.1).map_err(e)
    }
    fn read(&self, id: u64, a: u64, b: u64) -> Result<Option<Vec<Pt>>, E> {
        match self.0.read_time_series(id, a, b) {
            Ok(v) => Ok(Some(v.iter().map(|t| (t.timestamp, t.value)).collect())),
            Err(MonolithErr::NotFoundErr) | Err(MonolithErr::OutOfRangeErr(..)) => Ok(None),
            Err(x) => Err(e(x)),
        }
    }
}

/// A backend singleton on the named stub cluster ("" = the repository's dry-run mode).
pub fn tikv(cluster: &str) -> TiKvRawBackendSingleton {
    if cluster.is_empty() {
        TiKvRawBackendSingleton::default()
    } else {
        TiKvRawBackendSingleton::new(tikv_client::Config::new(vec![cluster.to_string()])).unwrap()
    }
}

pub fn db_opts(dir: &Path, chunk_size: Duration) -> DbOpts {
    let mut o = DbOpts::default();
    o.base_dir = dir.to_path_buf();
    o.chunk_size = chunk_size;
    o
}

pub fn open_db(kind: Kind, dir: &Path, chunk_size: Duration, cluster: &str, shared: &Arc<Shared>) -> Result<Arc<dyn TDb>, E> {
    let o = db_opts(dir, chunk_size);
    Ok(match kind {
        Kind::SledSled => Arc::new(
            MonolithDb::<SledStorage, SledIndexer>::new(o, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).map_err(e)?,
        ),
        Kind::TikvTikv => Arc::new(
            MonolithDb::<TiKvStorage, TiKvIndexer>::new(
                o,
                Box::new(TiKvStorageBuilder::new(tikv(cluster)).map_err(e)?),
                Box::new(TiKvIndexerBuilder::new(tikv(cluster)).map_err(e)?),
            )
            .map_err(e)?,
        ),
        Kind::SledTikv => Arc::new(
            MonolithDb::<SledStorage, TiKvIndexer>::new(
                o,
                Box::new(SledStorageBuilder::new()),
                Box::new(TiKvIndexerBuilder::new(tikv(cluster)).map_err(e)?),
            )
            .map_err(e)?,
        ),
        Kind::TikvSled => Arc::new(
            MonolithDb::<TiKvStorage, SledIndexer>::new(
                o,
                Box::new(TiKvStorageBuilder::new(tikv(cluster)).map_err(e)?),
                Box::new(SledIndexerBuilder::new()),
            )
            .map_err(e)?,
        ),
        Kind::Mem => Arc::new(
            MonolithDb::<MemStorage, MemIndexer>::new(
                o,
                Box::new(MemStorageBuilder(shared.clone())),
                Box::new(MemIndexerBuilder(shared.clone())),
            )
            .map_err(e)?,
        ),
    })
}

pub fn chunk_opts(start: u64, end: u64) -> ChunkOpts {
    let mut c = ChunkOpts::default();
    c.start_time = Some(start);
    c.end_time = Some(end);
    c
}

pub fn open_chunk(kind: Kind, dir: &Path, start: u64, end: u64, cluster: &str, shared: &Arc<Shared>) -> Result<Arc<dyn TChunk>, E> {
    open_chunk_with(kind, dir, chunk_opts(start, end), cluster, shared)
}
pub fn open_chunk_with(kind: Kind, dir: &Path, c: ChunkOpts, cluster: &str, shared: &Arc<Shared>) -> Result<Arc<dyn TChunk>, E> {
    let p = dir.to_str().unwrap().to_string();
    let sb = SledStorageBuilder::new();
    let ib = SledIndexerBuilder::new();
    Ok(match kind {
        Kind::SledSled => Arc::new(Chunk::new(sb.build(p.clone(), Some(&c), None).map_err(e)?, ib.build(p, Some(&c), None).map_err(e)?, &c)),
        Kind::TikvTikv => Arc::new(Chunk::new(tsto(cluster, &p, &c)?, tidx(cluster, &p, &c)?, &c)),
        Kind::SledTikv => Arc::new(Chunk::new(sb.build(p.clone(), Some(&c), None).map_err(e)?, tidx(cluster, &p, &c)?, &c)),
        Kind::TikvSled => Arc::new(Chunk::new(tsto(cluster, &p, &c)?, ib.build(p, Some(&c), None).map_err(e)?, &c)),
        Kind::Mem => Arc::new(Chunk::new(
            MemStorageBuilder(shared.clone()).build(p.clone(), Some(&c), None).map_err(e)?,
            MemIndexerBuilder(shared.clone()).build(p, Some(&c), None).map_err(e)?,
            &c,
        )),
    })
}
fn tsto(cluster: &str, p: &str, c: &ChunkOpts) -> Result<TiKvStorage, E> {
    TiKvStorageBuilder::new(tikv(cluster)).map_err(e)?.build(p.into(), Some(c), None).map_err(e)
}
fn tidx(cluster: &str, p: &str, c: &ChunkOpts) -> Result<TiKvIndexer, E> {
    TiKvIndexerBuilder::new(tikv(cluster)).map_err(e)?.build(p.into(), Some(c), None).map_err(e)
}
pub fn open_idx(tikv_backed: bool, dir: &Path, cluster: &str) -> Result<Arc<dyn TIdx>, E> {
    let c = chunk_opts(0, u64::MAX);
    Ok(if tikv_backed {
        Arc::new(IdxBox(tidx(cluster, dir.to_str().unwrap(), &c)?))
    } else {
        Arc::new(IdxBox(SledIndexer::new(dir).map_err(e)?))
    })
}
pub fn open_sto(kind: &str, dir: &Path, cluster: &str, shared: &Arc<Shared>) -> Result<Arc<dyn TSto>, E> {
    let c = chunk_opts(0, u64::MAX);
    Ok(match kind {
        "tikv" => Arc::new(StoBox(tsto(cluster, dir.to_str().unwrap(), &c)?)),
        "sled" => Arc::new(StoBox(SledStorage::new(dir).map_err(e)?)),
        _ => Arc::new(StoBox(MemStorageBuilder(shared.clone()).build(dir.to_str().unwrap().into(), Some(&c), None).map_err(e)?)),
    })
}

/// A chunk on the disk as a database makes it (its directory, metadata, backends), with any
/// window.  Closed when it is dropped.
pub fn forge(kind: Kind, base: &Path, start: u64, end: u64, cluster: &str) -> Result<Arc<dyn TChunk>, E> {
    let dir = base.join(monolith::utils::encode_chunk_dir(start, end));
    let c = chunk_opts(start, end);
    c.write_config_to_dir(&dir).map_err(e)?;
    let p = dir.to_str().unwrap().to_string();
    let sb = SledStorageBuilder::new();
    let ib = SledIndexerBuilder::new();
    Ok(match kind {
        Kind::SledSled => Arc::new(Chunk::new(sb.build(p.clone(), Some(&c), None).map_err(e)?, ib.build(p, Some(&c), None).map_err(e)?, &c)),
        Kind::TikvTikv => Arc::new(Chunk::new(tsto(cluster, &p, &c)?, tidx(cluster, &p, &c)?, &c)),
        Kind::SledTikv => Arc::new(Chunk::new(sb.build(p.clone(), Some(&c), None).map_err(e)?, tidx(cluster, &p, &c)?, &c)),
        Kind::TikvSled => Arc::new(Chunk::new(tsto(cluster, &p, &c)?, ib.build(p, Some(&c), None).map_err(e)?, &c)),
        Kind::Mem => unimplemented!(),
    })
}

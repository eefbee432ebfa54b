//! A simulated file system and executor: crash points, injected failures, varied schedules and
//! virtual time.

use std::{
    collections::{BTreeMap, HashMap, HashSet},
    error::Error as StdError,
    future::Future,
    io::{Error as IoError, ErrorKind},
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering},
    },
    time::{Duration, Instant, SystemTime},
};

use fusio::{
    IoBuf, IoBufMut, Read, Write,
    durability::FileCommit,
    dynamic::{MaybeSend, MaybeSendFuture},
    error::Error,
    executor::{Executor, Timer},
    fs::{CasCondition, FileMeta, FileSystemTag, Fs, FsCas, OpenOptions},
    path::Path,
};
use futures::{Stream, stream};
use serde::{Deserialize, Serialize};

/// What happens at a numbered mutating operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// The process dies at this operation; of a write, `keep` 256ths of the bytes survive.
    Crash { keep: u16 },
    /// The operation fails without effect; later ones succeed.
    Fail,
    /// The operation fails after having had `keep` 256ths of its effect.
    FailPartial { keep: u16 },
}

#[derive(Default, Clone)]
struct Node {
    data: Vec<u8>,
    meta: HashMap<String, String>,
    tag: u64,
}

type Shared = Arc<Mutex<Node>>;

#[derive(Default)]
struct State {
    files: BTreeMap<String, Shared>,
    tags: u64,
    /// Mutating operations so far.
    ops: u64,
    /// Pending faults by operation number.
    faults: BTreeMap<u64, Fault>,
    /// Every operation fails once the simulated process is dead.
    dead: bool,
    /// Bumped by `restart`, so that handles of a dead process stay dead.
    generation: u64,
    /// Seed of the schedule: how often operations yield.
    schedule: u64,
    removed: Vec<String>,
    log: Vec<String>,
    /// Injected failures do not hit removals (which are best effort).
    spare_removes: bool,
    /// Faults that took effect since the last restart.
    fired: u64,
    /// Not 0: a local disk under `/tonbo-sim/<id>/` whose files survive a power failure up to
    /// where they were last synced.
    disk: u64,
    synced: HashMap<String, usize>,
    syncs: u64,
    /// Files truncated to be rewritten.
    rewriting: HashSet<String>,
    /// Faults survive `restart`.
    recovery_faults: bool,
    /// Faults do not spare the rewriting of a file in place.
    harsh: bool,
}

/// Simulated file system. Clones share the content; a clone made before a crash stays dead after
/// `restart`.
#[derive(Clone)]
pub struct SimFs {
    state: Arc<Mutex<State>>,
    generation: u64,
}

fn dead() -> Error {
    Error::Io(IoError::new(ErrorKind::BrokenPipe, "simulated crash"))
}
fn failed() -> Error {
    Error::Io(IoError::other("injected failure"))
}
fn missing(path: &str) -> Error {
    Error::Io(IoError::new(ErrorKind::NotFound, format!("path {path} not found")))
}

impl Default for SimFs {
    fn default() -> Self {
        Self::new()
    }
}

impl SimFs {
    pub fn new() -> Self {
        SimFs {
            state: Arc::new(Mutex::new(State::default())),
            generation: 0,
        }
    }

    pub fn with_schedule(seed: u64) -> Self {
        let fs = Self::new();
        fs.state.lock().unwrap().schedule = seed;
        fs
    }

    /// A local disk: files are made durable by the (intercepted) system calls for that.
    pub fn disk(seed: u64) -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(1);
        let fs = Self::with_schedule(seed);
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        fs.state.lock().unwrap().disk = id;
        let mut disks = disk::DISKS.lock().unwrap();
        if id % 1024 == 0 {
            disks.retain(|_, d| d.strong_count() > 0);
        }
        disks.insert(id, Arc::downgrade(&fs.state));
        drop(disks);
        fs
    }

    /// Directory prefix of this file system.
    pub fn root(&self) -> String {
        match self.state.lock().unwrap().disk {
            0 => String::new(),
            id => format!("tonbo-sim/{id}/"),
        }
    }

    /// Bytes of a file that a power failure cannot take away.
    pub fn synced_len(&self, path: &str) -> usize {
        self.state.lock().unwrap().synced.get(path).copied().unwrap_or(0)
    }

    /// Files made durable so far.
    pub fn syncs(&self) -> u64 {
        self.state.lock().unwrap().syncs
    }

    /// Power failure: `keep` 256ths of the unsynced bytes of the matching files survive. Returns
    /// the number of bytes lost.
    pub fn power_loss(&self, keep: u16, matches: impl Fn(&str) -> bool) -> usize {
        let mut s = self.state.lock().unwrap();
        s.dead = true;
        let mut lost = 0;
        let files: Vec<(String, Shared)> =
            s.files.iter().map(|(k, v)| (k.clone(), Arc::clone(v))).collect();
        for (path, node) in files.into_iter().filter(|(k, _)| matches(k)) {
            let synced = s.synced.get(&path).copied().unwrap_or(0);
            let mut node = node.lock().unwrap();
            let loose = node.data.len().saturating_sub(synced);
            let left = synced + loose * keep.min(256) as usize / 256;
            if left < node.data.len() {
                lost += node.data.len() - left;
                node.data.truncate(left);
            }
        }
        lost
    }

    /// Let faults hit the rewriting of a file in place.
    pub fn harsh(&self) {
        self.state.lock().unwrap().harsh = true;
    }

    /// Let faults hit the next start as well.
    pub fn arm_recovery(&self, after: u64, fault: Fault) {
        self.arm(after, fault);
        self.state.lock().unwrap().recovery_faults = true;
    }

    pub fn ops(&self) -> u64 {
        self.state.lock().unwrap().ops
    }

    /// Arm a fault `after` mutating operations from now (0 = the next one).
    pub fn arm(&self, after: u64, fault: Fault) {
        let mut s = self.state.lock().unwrap();
        let at = s.ops + after;
        s.faults.insert(at, fault);
    }

    pub fn spare_removes(&self) {
        self.state.lock().unwrap().spare_removes = true;
    }

    pub fn disarm(&self) {
        self.state.lock().unwrap().faults.clear();
    }

    pub fn is_dead(&self) -> bool {
        self.state.lock().unwrap().dead
    }

    /// Faults that took effect since the last restart.
    pub fn faults_fired(&self) -> u64 {
        self.state.lock().unwrap().fired
    }

    /// Kill the simulated process now.
    pub fn kill(&self) {
        self.state.lock().unwrap().dead = true;
    }

    /// A new process over what survived.
    pub fn restart(&self) -> SimFs {
        let mut s = self.state.lock().unwrap();
        s.generation += 1;
        s.dead = false;
        s.fired = 0;
        if !s.recovery_faults {
            s.faults.clear();
        }
        s.recovery_faults = false;
        SimFs {
            state: Arc::clone(&self.state),
            generation: s.generation,
        }
    }

    /// Independent copy of the current content.
    pub fn fork(&self) -> SimFs {
        let s = self.state.lock().unwrap();
        let files = s
            .files
            .iter()
            .map(|(k, v)| (k.clone(), Arc::new(Mutex::new(v.lock().unwrap().clone()))))
            .collect();
        SimFs {
            state: Arc::new(Mutex::new(State {
                files,
                tags: s.tags,
                disk: s.disk,
                schedule: s.schedule,
                ..State::default()
            })),
            generation: 0,
        }
    }

    /// Files whose path starts with `prefix`, with their content.
    pub fn files(&self, prefix: &str) -> Vec<(String, Vec<u8>)> {
        let s = self.state.lock().unwrap();
        s.files
            .iter()
            .filter(|(k, _)| k.starts_with(prefix))
            .map(|(k, v)| (k.clone(), v.lock().unwrap().data.clone()))
            .collect()
    }

    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        let s = self.state.lock().unwrap();
        s.files.get(path).map(|n| n.lock().unwrap().data.clone())
    }

    pub fn set_file(&self, path: &str, data: Vec<u8>) {
        let mut s = self.state.lock().unwrap();
        s.tags += 1;
        let tag = s.tags;
        let node = s.files.entry(path.to_string()).or_default().clone();
        let mut node = node.lock().unwrap();
        node.data = data;
        node.tag = tag;
    }

    pub fn delete_file(&self, path: &str) {
        self.state.lock().unwrap().files.remove(path);
    }

    /// Paths removed through the file system so far.
    pub fn removed(&self) -> Vec<String> {
        self.state.lock().unwrap().removed.clone()
    }

    /// Mutating operations so far, for diagnostics.
    pub fn log(&self) -> Vec<String> {
        self.state.lock().unwrap().log.clone()
    }

    fn alive(&self) -> Result<(), Error> {
        let s = self.state.lock().unwrap();
        if s.dead || s.generation != self.generation {
            return Err(dead());
        }
        Ok(())
    }

    /// Account for one mutating operation of `len` bytes; returns how many bytes take effect and
    /// the error to report, if any.
    fn mutate(&self, what: &str, path: &str, len: usize) -> (usize, Option<Error>) {
        let mut s = self.state.lock().unwrap();
        if s.dead || s.generation != self.generation {
            return (0, Some(dead()));
        }
        let at = s.ops;
        s.ops += 1;
        if s.log.len() < 4000 {
            s.log.push(format!("{at} {what} {path} {len}"));
        }
        let rewrite = what == "truncate" || (what == "write" && s.rewriting.contains(path));
        if rewrite && !s.harsh && s.faults.contains_key(&at) {
            // Rewriting in place: the fault strikes right after it.
            let fault = s.faults.remove(&at).unwrap();
            s.faults.insert(at + 1, fault);
        }
        let fault = s.faults.remove(&at).filter(|_| !(s.spare_removes && what == "remove"));
        s.fired += fault.is_some() as u64;
        match fault {
            None => (len, None),
            Some(Fault::Crash { keep }) => {
                s.dead = true;
                (len * keep.min(256) as usize / 256, Some(dead()))
            }
            Some(Fault::Fail) => (0, Some(failed())),
            Some(Fault::FailPartial { keep }) => {
                (len * keep.min(256) as usize / 256, Some(failed()))
            }
        }
    }

    async fn pause(&self) {
        let n = {
            let mut s = self.state.lock().unwrap();
            if s.schedule == 0 {
                0
            } else {
                s.schedule = s
                    .schedule
                    .wrapping_mul(6364136223846793005)
                    .wrapping_add(1442695040888963407)
                    | 1;
                match (s.schedule >> 40) % 8 {
                    0 => 1,
                    1 => 2,
                    2 => 5,
                    _ => 0,
                }
            }
        };
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
    }

    fn next_tag(&self) -> u64 {
        let mut s = self.state.lock().unwrap();
        s.tags += 1;
        s.tags
    }

    /// A file rewritten in place counts as durable: its rewriting is one step here.
    fn rewritten(&self, path: &str) {
        let mut s = self.state.lock().unwrap();
        if s.rewriting.remove(path) {
            let len = s.files.get(path).map_or(0, |n| n.lock().unwrap().data.len());
            s.synced.insert(path.to_string(), len);
        }
    }

    fn node(&self, key: &str) -> Option<Shared> {
        self.state.lock().unwrap().files.get(key).cloned()
    }
}

fn key_of(path: &Path) -> String {
    path.as_ref().to_string()
}

pub struct SimFile {
    fs: SimFs,
    path: String,
    node: Shared,
    options: (bool, bool),
}

impl Read for SimFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        self.fs.pause().await;
        if let Err(e) = self.fs.alive() {
            return (Err(e), buf);
        }
        let node = self.node.lock().unwrap();
        let pos = pos as usize;
        let len = buf.bytes_init();
        if pos + len > node.data.len() {
            return (
                Err(IoError::new(ErrorKind::UnexpectedEof, "read past end").into()),
                buf,
            );
        }
        buf.as_slice_mut().copy_from_slice(&node.data[pos..pos + len]);
        (Ok(()), buf)
    }

    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        self.fs.pause().await;
        if let Err(e) = self.fs.alive() {
            return (Err(e), buf);
        }
        let node = self.node.lock().unwrap();
        let pos = pos as usize;
        if pos > node.data.len() {
            return (
                Err(IoError::new(ErrorKind::UnexpectedEof, "read past end").into()),
                buf,
            );
        }
        buf.extend_from_slice(&node.data[pos..]);
        (Ok(()), buf)
    }

    async fn size(&self) -> Result<u64, Error> {
        self.fs.alive()?;
        Ok(self.node.lock().unwrap().data.len() as u64)
    }
}

impl Write for SimFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        self.fs.pause().await;
        if !self.options.1 {
            return (
                Err(Error::Unsupported {
                    message: "file opened without write permissions".into(),
                }),
                buf,
            );
        }
        let (n, err) = self.fs.mutate("write", &self.path, buf.as_slice().len());
        if n > 0 {
            let tag = self.fs.next_tag();
            let mut node = self.node.lock().unwrap();
            node.data.extend_from_slice(&buf.as_slice()[..n]);
            node.tag = tag;
        }
        self.fs.rewritten(&self.path);
        (err.map_or(Ok(()), Err), buf)
    }

    async fn flush(&mut self) -> Result<(), Error> {
        self.fs.pause().await;
        self.fs.alive()
    }

    async fn close(&mut self) -> Result<(), Error> {
        self.fs.pause().await;
        self.fs.rewritten(&self.path);
        self.fs.alive()
    }
}

impl FileCommit for SimFile {
    async fn commit(&mut self) -> Result<(), Error> {
        self.fs.alive()?;
        let tag = self.fs.next_tag();
        self.node.lock().unwrap().tag = tag;
        Ok(())
    }
}

impl Fs for SimFs {
    type File = SimFile;

    fn file_system(&self) -> FileSystemTag {
        match self.state.lock().unwrap().disk {
            0 => FileSystemTag::Memory,
            _ => FileSystemTag::Local,
        }
    }

    async fn open_options(&self, path: &Path, options: OpenOptions) -> Result<SimFile, Error> {
        self.pause().await;
        self.alive()?;
        let key = key_of(path);
        let (read, write) = if !options.read && !options.write {
            (true, false)
        } else {
            (options.read, options.write)
        };
        let node = match self.node(&key) {
            Some(node) => {
                if options.truncate {
                    // Truncation happens entirely or not at all.
                    let (_, err) = self.mutate("truncate", &key, 0);
                    if let Some(e) = err {
                        return Err(e);
                    }
                    node.lock().unwrap().data.clear();
                    self.state.lock().unwrap().rewriting.insert(key.clone());
                }
                node
            }
            None if options.create => {
                let (_, err) = self.mutate("create", &key, 0);
                if let Some(e) = err {
                    return Err(e);
                }
                let tag = self.next_tag();
                let node = Arc::new(Mutex::new(Node {
                    tag,
                    ..Node::default()
                }));
                self.state
                    .lock()
                    .unwrap()
                    .files
                    .insert(key.clone(), Arc::clone(&node));
                node
            }
            None => return Err(missing(&key)),
        };
        Ok(SimFile {
            fs: self.clone(),
            path: key,
            node,
            options: (read, write),
        })
    }

    async fn create_dir_all(_path: &Path) -> Result<(), Error> {
        Ok(())
    }

    async fn list(
        &self,
        path: &Path,
    ) -> Result<impl Stream<Item = Result<FileMeta, Error>> + MaybeSend, Error> {
        self.pause().await;
        self.alive()?;
        let prefix = path.as_ref().to_string();
        let mut entries: Vec<Result<FileMeta, Error>> = self
            .state
            .lock()
            .unwrap()
            .files
            .iter()
            .filter(|(k, _)| {
                prefix.is_empty()
                    || (k.starts_with(&prefix)
                        && (k.len() == prefix.len() || k[prefix.len()..].starts_with('/')))
            })
            .map(|(k, v)| {
                Ok(FileMeta {
                    path: Path::from(k.clone()),
                    size: v.lock().unwrap().data.len() as u64,
                })
            })
            .collect();
        // Directory order is unspecified: hand the files out in reverse.
        entries.reverse();
        Ok(stream::iter(entries))
    }

    async fn remove(&self, path: &Path) -> Result<(), Error> {
        self.pause().await;
        let key = key_of(path);
        let (n, err) = self.mutate("remove", &key, 256);
        if n > 128 || err.is_none() {
            let mut s = self.state.lock().unwrap();
            s.files.remove(&key);
            s.synced.remove(&key);
            s.removed.push(key);
        }
        err.map_or(Ok(()), Err)
    }

    async fn copy(&self, from: &Path, to: &Path) -> Result<(), Error> {
        let Some(source) = self.node(&key_of(from)) else {
            return Err(missing(from.as_ref()));
        };
        let (_, err) = self.mutate("copy", to.as_ref(), 0);
        if let Some(e) = err {
            return Err(e);
        }
        let mut node = source.lock().unwrap().clone();
        node.tag = self.next_tag();
        self.state
            .lock()
            .unwrap()
            .files
            .insert(key_of(to), Arc::new(Mutex::new(node)));
        Ok(())
    }

    async fn link(&self, _from: &Path, _to: &Path) -> Result<(), Error> {
        Err(Error::Unsupported {
            message: "no hard links".into(),
        })
    }

    async fn exists(&self, path: &Path) -> Result<bool, Error> {
        self.alive()?;
        Ok(self.node(&key_of(path)).is_some())
    }
}

impl FsCas for SimFs {
    fn load_with_tag(
        &self,
        path: &Path,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<(Vec<u8>, String)>, Error>> + '_>> {
        let key = key_of(path);
        Box::pin(async move {
            self.pause().await;
            self.alive()?;
            Ok(self.node(&key).map(|n| {
                let n = n.lock().unwrap();
                (n.data.clone(), format!("{:016x}", n.tag))
            }))
        })
    }

    fn put_conditional(
        &self,
        path: &Path,
        payload: &[u8],
        _content_type: Option<&str>,
        metadata: Option<Vec<(String, String)>>,
        condition: CasCondition,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<String, Error>> + '_>> {
        let key = key_of(path);
        let payload = payload.to_vec();
        Box::pin(async move {
            self.pause().await;
            self.alive()?;
            let current = self.node(&key);
            match (&condition, &current) {
                (CasCondition::IfNotExists, Some(_)) => return Err(Error::PreconditionFailed),
                (CasCondition::IfMatch(_), None) => return Err(Error::PreconditionFailed),
                (CasCondition::IfMatch(tag), Some(n)) => {
                    if format!("{:016x}", n.lock().unwrap().tag) != *tag {
                        return Err(Error::PreconditionFailed);
                    }
                }
                _ => {}
            }
            // Conditional puts are atomic: they take effect entirely or not at all.
            let (n, err) = self.mutate("put", &key, 256);
            if n < 128 && err.is_some() {
                return Err(err.unwrap());
            }
            let tag = self.next_tag();
            let node = Node {
                data: payload,
                meta: metadata.unwrap_or_default().into_iter().collect(),
                tag,
            };
            let mut s = self.state.lock().unwrap();
            match s.files.get(&key) {
                Some(existing) => *existing.lock().unwrap() = node,
                None => {
                    s.files.insert(key, Arc::new(Mutex::new(node)));
                }
            }
            match err {
                Some(e) => Err(e),
                None => Ok(format!("{tag:016x}")),
            }
        })
    }
}

impl fusio_manifest::ObjectHead for SimFs {
    fn head_metadata<'a>(
        &'a self,
        path: &'a Path,
    ) -> Pin<
        Box<dyn MaybeSendFuture<Output = Result<Option<HashMap<String, String>>, Error>> + 'a>,
    > {
        let key = key_of(path);
        Box::pin(async move {
            self.alive()?;
            Ok(self.node(&key).map(|n| n.lock().unwrap().meta.clone()))
        })
    }
}

/// Tokio tasks with virtual time.
#[derive(Clone, Copy, Default)]
pub struct SimExec;

impl Executor for SimExec {
    type JoinHandle<R>
        = SimJoin<R>
    where
        R: MaybeSend;
    type Mutex<T>
        = tokio::sync::Mutex<T>
    where
        T: MaybeSend + fusio::dynamic::MaybeSync;
    type RwLock<T>
        = tokio::sync::RwLock<T>
    where
        T: MaybeSend + fusio::dynamic::MaybeSync;

    fn spawn<F>(&self, future: F) -> Self::JoinHandle<F::Output>
    where
        F: Future + MaybeSend + 'static,
        F::Output: MaybeSend,
    {
        SimJoin(tokio::spawn(future))
    }
    fn mutex<T>(value: T) -> Self::Mutex<T>
    where
        T: MaybeSend + fusio::dynamic::MaybeSync,
    {
        tokio::sync::Mutex::new(value)
    }
    fn rw_lock<T>(value: T) -> Self::RwLock<T>
    where
        T: MaybeSend + fusio::dynamic::MaybeSync,
    {
        tokio::sync::RwLock::new(value)
    }
}

pub struct SimJoin<R>(tokio::task::JoinHandle<R>);

impl<R: MaybeSend> fusio::executor::JoinHandle<R> for SimJoin<R> {
    async fn join(self) -> Result<R, Box<dyn StdError + Send + Sync>> {
        self.0
            .await
            .map_err(|e| Box::new(e) as Box<dyn StdError + Send + Sync>)
    }
}

impl Timer for SimExec {
    fn sleep(&self, dur: Duration) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> {
        Box::pin(tokio::time::sleep(dur))
    }
    fn now(&self) -> Instant {
        tokio::time::Instant::now().into_std()
    }
    fn system_time(&self) -> SystemTime {
        // Virtual as well, so that leases expire when a case sleeps.
        static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
        let start = *START.get_or_init(Instant::now);
        SystemTime::UNIX_EPOCH
            + Duration::from_secs(1_700_000_000)
            + self.now().saturating_duration_since(start)
    }
}

/// Run a case on a fresh single-threaded runtime with virtual time. A case that makes no progress
/// for an hour of virtual time is reported instead of hanging.
pub fn block_on<T>(fut: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let out = rt.block_on(async {
        match tokio::time::timeout(Duration::from_secs(3600), fut).await {
            Ok(r) => r,
            Err(_) => Err("no progress: the operation never completed".to_string()),
        }
    });
    // Background tasks of the simulated process are dropped with the runtime.
    rt.shutdown_background();
    out
}

/// The system calls that open a simulated disk's file and make it durable. Defined here, they
/// take precedence over libc's for the whole program; every other file goes straight to the kernel.
mod disk {
    use std::{
        collections::HashMap,
        ffi::{CStr, c_char, c_int, c_long},
        sync::{Arc, LazyLock, Mutex, Weak},
    };

    use super::{SimFs, State};

    pub static DISKS: LazyLock<Mutex<HashMap<u64, Weak<Mutex<State>>>>> =
        LazyLock::new(Default::default);
    static OPEN: LazyLock<Mutex<HashMap<c_int, (u64, String)>>> = LazyLock::new(Default::default);

    unsafe extern "C" {
        fn syscall(number: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    const OPENAT: c_long = 257;
    const FSYNC: c_long = 74;
    const FDATASYNC: c_long = 75;
    const AT_FDCWD: c_int = -100;

    fn fail(errno: c_int) -> c_int {
        unsafe { *__errno_location() = errno };
        -1
    }

    fn find(id: u64) -> Option<SimFs> {
        let state: Arc<Mutex<State>> = DISKS.lock().unwrap().get(&id)?.upgrade()?;
        let generation = state.lock().unwrap().generation;
        Some(SimFs { state, generation })
    }

    unsafe fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        let text = unsafe { CStr::from_ptr(path) }.to_bytes();
        if let Some(rest) = text.strip_prefix(b"/tonbo-sim/") {
            let rest = String::from_utf8_lossy(rest);
            let id: u64 = rest.split('/').next().and_then(|n| n.parse().ok()).unwrap_or(0);
            let key = format!("tonbo-sim/{rest}");
            if !find(id).is_some_and(|fs| fs.node(&key).is_some()) {
                return fail(2);
            }
            let fd = unsafe { syscall(OPENAT, AT_FDCWD, c"/dev/null".as_ptr(), flags, 0) } as c_int;
            if fd >= 0 {
                OPEN.lock().unwrap().insert(fd, (id, key));
            }
            return fd;
        }
        let fd = unsafe { syscall(OPENAT, AT_FDCWD, path, flags, mode) as c_int };
        OPEN.lock().unwrap().remove(&fd);
        fd
    }

    fn sync(fd: c_int, number: c_long) -> c_int {
        let Some((id, path)) = OPEN.lock().unwrap().get(&fd).cloned() else {
            return unsafe { syscall(number, fd) as c_int };
        };
        let Some(fs) = find(id) else { return fail(5) };
        let (_, err) = fs.mutate("sync", &path, 0);
        if err.is_some() {
            return fail(5);
        }
        let len = fs.node(&path).map_or(0, |n| n.lock().unwrap().data.len());
        let mut s = fs.state.lock().unwrap();
        s.synced.insert(path, len);
        s.syncs += 1;
        0
    }

    #[unsafe(no_mangle)]
    unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        unsafe { open(path, flags, mode) }
    }
    #[unsafe(no_mangle)]
    extern "C" fn fsync(fd: c_int) -> c_int {
        sync(fd, FSYNC)
    }
    #[unsafe(no_mangle)]
    extern "C" fn fdatasync(fd: c_int) -> c_int {
        sync(fd, FDATASYNC)
    }
}

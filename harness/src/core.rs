//! Observation, construction and mutation of arbitrary steit values, driven by JSON.
use std::{
    any::Any,
    cell::Cell,
    collections::HashMap,
    hash::{Hash, Hasher},
    io::{self, Read, Write},
};

use steit::{
    de::{Deserialize, Reader},
    log::{loggers::BufferLogger, LogEntry, Logger},
    meta::{HasMeta, MetaLink, NameMeta, TypeMeta},
    rt::{LoggerHandle, Runtime},
    ser::Serialize,
    state::State,
    types::{Bytes, List, Map, MapKey, Maybe},
};

use crate::json::J;

// ---------------------------------------------------------------- loggers

/// A buffering logger which can be told to refuse entries.
pub struct Rec {
    pub inner: BufferLogger,
    /// Refuse the n-th entry from now (0 = the next one); `None` accepts everything.
    pub fail_at: Option<u32>,
    /// Refuse a batch as a whole if any of its entries is refused.
    pub atomic: bool,
    /// How many entries came with each call.
    pub batches: Vec<u32>,
    /// What has been reported already but is still kept by the logger.
    pub told: Vec<u8>,
}

impl Rec {
    pub fn new() -> Self {
        Rec { inner: BufferLogger::new(), fail_at: None, atomic: false, batches: Vec::new(), told: Vec::new() }
    }
    /// What has been logged since the last time; the logger is emptied sometimes only,
    /// and all it keeps is reported again if anything but its end has changed.
    pub fn news(&mut self) -> Vec<u8> {
        let mut bytes = match style(6) {
            0 | 1 => self.inner.pluck_bytes(),
            2 => {
                let bytes = self.inner.bytes();
                self.inner.clear();
                bytes
            }
            _ => {
                let bytes = self.inner.bytes();
                let told = std::mem::replace(&mut self.told, bytes.clone());
                return match bytes.strip_prefix(&told[..]) {
                    Some(news) => news.to_vec(),
                    None => [&bytes[..], &[0]].concat(),
                };
            }
        };
        let told = std::mem::take(&mut self.told);
        if bytes.starts_with(&told) {
            bytes.drain(..told.len());
        } else {
            bytes.push(0);
        }
        bytes
    }
    fn take(&mut self, entry: LogEntry) -> io::Result<()> {
        if self.refuse() {
            return Err(io::Error::new(io::ErrorKind::Other, "refused"));
        }
        self.inner.log(entry)
    }
    fn refuse(&mut self) -> bool {
        match self.fail_at {
            Some(0) => true,
            Some(n) => {
                self.fail_at = Some(n - 1);
                false
            }
            None => false,
        }
    }
}

impl Logger for Rec {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        self.batches.push(1);
        self.take(entry)
    }
    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
        self.batches.push(entries.len() as u32);
        if self.atomic {
            if let Some(n) = self.fail_at {
                if (n as usize) < entries.len() {
                    self.fail_at = Some(0);
                    return Err(io::Error::new(io::ErrorKind::Other, "refused"));
                }
            }
        }
        for entry in entries {
            self.take(entry)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- I/O shapes

/// How many bytes are moved at a time: all (0), or up to n; 100 + n: the same, interrupted each time.
pub struct Chunk {
    n: usize,
    interrupts: bool,
    interrupted: bool,
}

impl Chunk {
    pub fn of(op: &J) -> Self {
        let n = op.num("chunk", 0) as usize;
        Chunk { n: n % 100, interrupts: n >= 100, interrupted: false }
    }
    pub fn turn(&mut self) -> io::Result<()> {
        self.interrupted = self.interrupts && !self.interrupted;
        if self.interrupted {
            Err(io::ErrorKind::Interrupted.into())
        } else {
            Ok(())
        }
    }
    pub fn limit(&self, len: usize) -> usize {
        if self.n > 0 {
            len.min(self.n)
        } else {
            len
        }
    }
}

/// Delivers at most `chunk` bytes per read, and fails at `fail` bytes if set.
pub struct ChunkRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: Chunk,
    pub fail: Option<usize>,
}

impl<'a> Read for ChunkRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.chunk.turn()?;
        let mut end = self.data.len();
        if let Some(fail) = self.fail {
            if self.pos >= fail && !buf.is_empty() {
                return Err(io::Error::new(io::ErrorKind::Other, "broken source"));
            }
            end = end.min(fail);
        }
        let n = self.chunk.limit(buf.len().min(end - self.pos));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts at most `chunk` bytes per write, and fails after `fail` bytes if set.
pub struct ChunkWrite {
    pub data: Vec<u8>,
    pub chunk: Chunk,
    pub fail: Option<usize>,
    /// Accepts nothing instead of failing.
    pub zero: bool,
}

impl Write for ChunkWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.chunk.turn()?;
        let mut n = self.chunk.limit(buf.len());
        if let Some(fail) = self.fail {
            if self.data.len() >= fail && n > 0 {
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(io::ErrorKind::Other, "broken sink"));
            }
            n = n.min(fail - self.data.len());
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn reader<'a>(data: &'a [u8], op: &J) -> Reader<ChunkRead<'a>> {
    Reader::new(ChunkRead {
        data,
        pos: 0,
        chunk: Chunk::of(op),
        fail: op.get("rfail").map(|n| n.n() as usize),
    })
}

pub fn res(r: io::Result<()>) -> J {
    J::str(if r.is_ok() { "ok" } else { "err" })
}

// ---------------------------------------------------------------- styles

thread_local! {
    static STYLE: Cell<u32> = Cell::new(1);
    pub static TRY: Cell<bool> = Cell::new(false);
}

thread_local! {
    /// How much is in the log for which values are being built, and how often constructing logged.
    pub static LOGGED: std::cell::RefCell<Option<Box<dyn Fn() -> usize>>> = std::cell::RefCell::new(None);
    pub static ECHOES: Cell<i64> = Cell::new(0);
}

fn logged() -> usize {
    LOGGED.with(|l| l.borrow().as_ref().map_or(0, |l| l()))
}

/// Constructs something, which is not supposed to log.
pub fn quiet<T>(make: impl FnOnce() -> T) -> T {
    let before = logged();
    let made = make();
    if logged() != before {
        ECHOES.with(|e| e.set(e.get() + 1));
    }
    made
}

pub fn set_style(seed: u32) {
    STYLE.with(|s| s.set(seed.wrapping_mul(2654435761).wrapping_add(1)));
}

/// A reproducible choice between equivalent ways to do the same thing.
pub fn style(n: u32) -> u32 {
    STYLE.with(|s| {
        let v = s.get().wrapping_mul(1103515245).wrapping_add(12345);
        s.set(v);
        (v >> 16) % n
    })
}

struct Carried<T>(T);

unsafe impl<T> Send for Carried<T> {}

impl<T> Carried<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Does something in another thread, which this one waits for.
pub fn elsewhere<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    let f = Carried(f);
    std::thread::scope(|scope| scope.spawn(move || Carried(f.get()())).join()).map(Carried::get)
}

/// The same items from iterators which know more or less of how many there are.
pub fn some_iter<'a, T: 'a>(mut items: impl Iterator<Item = T> + 'a) -> Box<dyn Iterator<Item = T> + 'a> {
    match style(4) {
        0 => Box::new(items),
        1 => Box::new(std::iter::from_fn(move || items.next())),
        2 => Box::new(items.filter(|_| true)),
        _ => {
            let first: Vec<T> = items.by_ref().take(1).collect();
            Box::new(first.into_iter().chain(std::iter::from_fn(move || items.next())))
        }
    }
}

// ---------------------------------------------------------------- context

pub struct Cx {
    pub pocket: Vec<Option<Box<dyn Slot>>>,
    pub foreign: (Runtime, LoggerHandle<Rec>),
    /// Another state to change from within a construction callback.
    pub side: Option<(*mut dyn Slot, J)>,
    /// The state at some place, to be changed from another thread.
    pub found: Option<*mut dyn Slot>,
}

impl Cx {
    pub fn new() -> Self {
        Cx { pocket: Vec::new(), foreign: Runtime::with_logger_returned(Rec::new()), side: None, found: None }
    }
    pub fn keep<T: Node>(&mut self, op: &J, value: Option<T>) -> J {
        match value {
            Some(value) => {
                let ret = J::A(vec![value.obs()]);
                if op.get("keep").is_some() {
                    self.pocket.push(Some(Box::new(value)));
                }
                ret
            }
            None => J::A(vec![]),
        }
    }
}

/// The value an operation refers to: taken from the pocket, or built from JSON in one of several ways.
pub fn take<T: Node>(op: &J, cx: &mut Cx) -> T {
    if let Some(pk) = op.get("pk") {
        let slot = cx.pocket[pk.n() as usize].take().expect("harness: empty pocket");
        return *slot.into_any().downcast::<T>().expect("harness: pocket type");
    }
    match op.num("bs", 0) {
        0 => T::build(op.at("v")),
        1 => T::build_in(op.at("v"), Runtime::new()),
        _ => {
            let value = T::build_in(op.at("v"), cx.foreign.0.nested(7));
            cx.foreign.1.lock().unwrap().inner.clear();
            value
        }
    }
}

/// The body of a construction callback.
pub fn make<T: Node>(op: &J, cx: &mut Cx, runtime: Runtime) -> T {
    match op.num("w", 0) {
        1 => T::build_in(op.at("v"), runtime),
        2 => take(op, cx),
        3 => {
            if let Some((slot, side)) = cx.side.take() {
                let slot = unsafe { &mut *slot };
                let mut inner = Cx::new();
                slot.apply(&side.at("at").u32s(), side.at("op"), &mut inner);
            }
            T::build_in(op.at("v"), runtime)
        }
        4 => {
            let _half = T::build_in(op.at("v"), runtime);
            panic!("callback panics");
        }
        // The callback changes its mind: a first value, then another one, from the same runtime.
        5 => {
            let first = T::build_in(op.at("v"), runtime.clone());
            drop(first);
            T::build_in(op.at("v"), runtime)
        }
        // Others go on meanwhile.
        6 => {
            if op.num("gate", 1) == 2 {
                crate::conc::gate();
                return T::build_in(op.at("v"), runtime);
            }
            let value = T::build_in(op.at("v"), runtime);
            crate::conc::gate();
            value
        }
        w => panic!("harness: w {}", w),
    }
}

// ---------------------------------------------------------------- traits

pub trait Val: Sized + Clone + 'static + Serialize + Deserialize {
    fn obs(&self) -> J;
    fn build(j: &J) -> Self;
    fn eqv(&self, other: &Self) -> bool;
    fn hashv(&self) -> Option<u64> {
        None
    }
}

pub trait Node: Val + State {
    fn build_in(j: &J, runtime: Runtime) -> Self;
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J;
    fn paths(&self, out: &mut Vec<J>);
    fn roots(&self, out: &mut Vec<J>);
    fn is_prim() -> bool {
        false
    }
}

pub fn hash_of(value: &impl Hash) -> u64 {
    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    value.hash(&mut hasher);
    hasher.finish()
}

/// Operations any nested state offers, whatever its type.
pub fn node_op<T: Node>(node: &mut T, op: &J, cx: &mut Cx) -> Option<J> {
    match op.at("o").s() {
        "ptr" => {
            cx.found = Some(node as &mut dyn Slot as *mut dyn Slot);
            Some(J::A(vec![]))
        }
        "nreplay" => {
            let bytes = op.at("bytes").bytes();
            Some(res(node.replay(&mut reader(&bytes, op))))
        }
        "merge" => {
            let bytes = op.at("bytes").bytes();
            Some(res(node.merge(&mut reader(&bytes, op))))
        }
        "hup" => {
            let bytes = op.at("bytes").bytes();
            Some(res(node.handle_update(&mut reader(&bytes, op))))
        }
        o @ "pause" | o @ "unpause" => {
            let times = op.get("times").map_or(1, |n| n.n());
            let mut depth = 0;
            let act = |runtime: &Runtime| if o == "pause" { runtime.pause_logger() } else { runtime.unpause_logger() };
            for k in 0..times {
                // Whoever pauses need not be who is going to change something, or to resume.
                depth = if k == 0 && style(3) == 0 {
                    elsewhere(|| act(node.runtime())).unwrap()
                } else {
                    act(node.runtime())
                };
            }
            Some(J::N(depth as i64))
        }
        // Everything which must not have any effect.
        "peek" => {
            let bytes = node.to_bytes();
            let size = node.compute_size();
            node.cache_size();
            let copy = T::deserialize(&mut Reader::new(&bytes[..]));
            let eq = copy.map(|copy| copy.eqv(node)).unwrap_or(false);
            let _ = format!("{}", node.runtime().is_root());
            Some(J::A(vec![J::of_bytes(&bytes), J::N(size as i64), J::B(eq), J::N(node.cached_size() as i64)]))
        }
        // Moves the state somewhere else in memory, and back.
        "shake" => {
            let boxed = Box::new(std::mem::replace(node, T::with_runtime(Runtime::new())));
            let back = *boxed;
            *node = back;
            Some(J::A(vec![]))
        }
        // Re-links the state explicitly to where it already is.
        "relink" => {
            // An enum reports the runtime of its variant.
            let runtime = node.runtime().clone();
            let runtime = if op.num("up", 0) == 1 { runtime.parent() } else { runtime };
            node.set_runtime(runtime);
            Some(J::A(vec![]))
        }
        _ => None,
    }
}

/// Another thread which has the logger of a runtime for a while, as one does which drains it.
pub struct Holder(Option<std::thread::JoinHandle<()>>);

impl Holder {
    pub fn new(runtime: &Runtime, cmd: &J) -> Self {
        if cmd.num("held", 0) == 0 {
            return Holder(None);
        }
        let runtime = runtime.clone();
        let (tell, told) = std::sync::mpsc::channel();
        let thread = std::thread::spawn(move || {
            let guard = runtime.logger().lock();
            tell.send(()).unwrap();
            std::thread::sleep(std::time::Duration::from_millis(2));
            drop(guard);
        });
        told.recv().unwrap();
        Holder(Some(thread))
    }
}

impl Drop for Holder {
    fn drop(&mut self) {
        if let Some(thread) = self.0.take() {
            let _ = thread.join();
        }
    }
}

pub fn path_of(runtime: &Runtime) -> J {
    J::of_u32s(&runtime.path().collect_values())
}

// ---------------------------------------------------------------- object-safe view

pub trait Slot {
    fn obs(&self) -> J;
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J;
    fn paths(&self) -> J;
    fn roots(&self) -> J;
    fn replay(&mut self, bytes: &[u8], op: &J) -> J;
    fn bytes(&self) -> Vec<u8>;
    fn size(&self) -> u32;
    fn root_runtime(&self) -> Runtime;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn as_any(&self) -> &dyn Any;
    fn dup(&self) -> Box<dyn Slot>;
    fn eq_to(&self, other: &dyn Slot) -> J;
}

impl<T: Node> Slot for T {
    fn obs(&self) -> J {
        Val::obs(self)
    }
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J {
        Node::apply(self, at, op, cx)
    }
    fn paths(&self) -> J {
        let mut out = Vec::new();
        Node::paths(self, &mut out);
        J::A(out)
    }
    fn roots(&self) -> J {
        let mut out = Vec::new();
        Node::roots(self, &mut out);
        J::A(out)
    }
    fn replay(&mut self, bytes: &[u8], op: &J) -> J {
        res(State::replay(self, &mut reader(bytes, op)))
    }
    fn bytes(&self) -> Vec<u8> {
        self.to_bytes()
    }
    fn size(&self) -> u32 {
        self.compute_size()
    }
    fn root_runtime(&self) -> Runtime {
        let mut runtime = self.runtime().clone();
        while runtime.is_child() {
            runtime = runtime.parent();
        }
        runtime
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn dup(&self) -> Box<dyn Slot> {
        Box::new(self.clone())
    }
    fn eq_to(&self, other: &dyn Slot) -> J {
        let other = other.as_any().downcast_ref::<T>().expect("harness: eq of different types");
        let hash = match (self.hashv(), other.hashv()) {
            (Some(a), Some(b)) => J::A(vec![J::B(a == b)]),
            _ => J::A(vec![]),
        };
        J::A(vec![J::B(self.eqv(other)), J::B(other.eqv(self)), hash])
    }
}

// ---------------------------------------------------------------- primitives

macro_rules! int {
    ($t:ty) => {
        impl Val for $t {
            fn obs(&self) -> J {
                J::of_bytes(&self.to_le_bytes())
            }
            fn build(j: &J) -> Self {
                let mut b = [0; std::mem::size_of::<$t>()];
                b.copy_from_slice(&j.bytes());
                <$t>::from_le_bytes(b)
            }
            fn eqv(&self, other: &Self) -> bool {
                self == other
            }
            fn hashv(&self) -> Option<u64> {
                Some(hash_of(self))
            }
        }
        prim_node!($t);
    };
}

macro_rules! prim_node {
    ($t:ty) => {
        impl Node for $t {
            fn build_in(j: &J, _runtime: Runtime) -> Self {
                Self::build(j)
            }
            fn apply(&mut self, _at: &[u32], op: &J, _cx: &mut Cx) -> J {
                let bytes = op.at("bytes").bytes();
                match op.at("o").s() {
                    "merge" => res(self.merge(&mut reader(&bytes, op))),
                    "hup" => res(self.handle_update(&mut reader(&bytes, op))),
                    o => panic!("harness: no {} on a primitive", o),
                }
            }
            fn paths(&self, _out: &mut Vec<J>) {}
            fn roots(&self, _out: &mut Vec<J>) {}
            fn is_prim() -> bool {
                true
            }
        }
    };
}

int!(u8);
int!(u16);
int!(u32);
int!(u64);
int!(i8);
int!(i16);
int!(i32);
int!(i64);

impl Val for bool {
    fn obs(&self) -> J {
        J::B(*self)
    }
    fn build(j: &J) -> Self {
        j.b()
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
    fn hashv(&self) -> Option<u64> {
        Some(hash_of(self))
    }
}
prim_node!(bool);

impl Val for String {
    fn obs(&self) -> J {
        J::of_bytes(self.as_bytes())
    }
    fn build(j: &J) -> Self {
        String::from_utf8(j.bytes()).expect("harness: utf8")
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
    fn hashv(&self) -> Option<u64> {
        Some(hash_of(self))
    }
}

impl Val for Bytes {
    fn obs(&self) -> J {
        J::of_bytes(&self.clone().into_raw())
    }
    fn build(j: &J) -> Self {
        Bytes::from_raw(j.bytes())
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
    fn hashv(&self) -> Option<u64> {
        Some(hash_of(self))
    }
}

// ---------------------------------------------------------------- std containers

/// Types whose hash is available. (`Val::hashv` cannot be conditional.)
impl<T: Val + PartialEq> Val for Option<T> {
    fn obs(&self) -> J {
        J::A(self.iter().map(|v| v.obs()).collect())
    }
    fn build(j: &J) -> Self {
        j.a().first().map(T::build)
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
}

impl<T: Val + PartialEq> Val for Vec<T> {
    fn obs(&self) -> J {
        J::A(self.iter().map(|v| v.obs()).collect())
    }
    fn build(j: &J) -> Self {
        j.a().iter().map(T::build).collect()
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
}

macro_rules! array {
    ($n:literal : $($i:literal)+) => {
        impl<T: Val + PartialEq> Val for [T; $n] where [T; $n]: Default {
            fn obs(&self) -> J {
                J::A(self.iter().map(|v| v.obs()).collect())
            }
            fn build(j: &J) -> Self {
                [$(T::build(&j.a()[$i])),+]
            }
            fn eqv(&self, other: &Self) -> bool {
                self == other
            }
        }
    };
}
array!(1: 0);
array!(2: 0 1);
array!(3: 0 1 2);
array!(4: 0 1 2 3);
array!(5: 0 1 2 3 4);
array!(6: 0 1 2 3 4 5);
array!(7: 0 1 2 3 4 5 6);

macro_rules! tuple {
    ($($t:ident $i:tt)+) => {
        impl<$($t: Val + PartialEq),+> Val for ($($t),+) {
            fn obs(&self) -> J {
                J::A(vec![$(self.$i.obs()),+])
            }
            fn build(j: &J) -> Self {
                ($($t::build(&j.a()[$i])),+)
            }
            fn eqv(&self, other: &Self) -> bool {
                self == other
            }
        }
    };
}
tuple!(A 0 B 1);
tuple!(A 0 B 1 C 2);
tuple!(A 0 B 1 C 2 D 3);
tuple!(A 0 B 1 C 2 D 3 E 4);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6);

impl<K: Val + Eq + Hash, V: Val + PartialEq> Val for HashMap<K, V> {
    fn obs(&self) -> J {
        let mut pairs: Vec<_> = self.iter().map(|(k, v)| J::A(vec![k.obs(), v.obs()])).collect();
        pairs.sort_by_key(|pair| pair.text());
        J::A(pairs)
    }
    fn build(j: &J) -> Self {
        j.a().iter().map(|pair| (K::build(&pair.a()[0]), V::build(&pair.a()[1]))).collect()
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
}

impl<T: Val + PartialEq> Val for Box<T> {
    fn obs(&self) -> J {
        (**self).obs()
    }
    fn build(j: &J) -> Self {
        Box::new(T::build(j))
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
    fn hashv(&self) -> Option<u64> {
        (**self).hashv()
    }
}

impl<T: Node + PartialEq> Node for Box<T> {
    fn build_in(j: &J, runtime: Runtime) -> Self {
        Box::new(T::build_in(j, runtime))
    }
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J {
        // Generic operations go through the box itself.
        if at.is_empty() && !T::is_prim() {
            if let Some(ret) = node_op(self, op, cx) {
                return ret;
            }
        }
        (**self).apply(at, op, cx)
    }
    fn paths(&self, out: &mut Vec<J>) {
        (**self).paths(out)
    }
    fn roots(&self, out: &mut Vec<J>) {
        if !T::is_prim() {
            out.push(J::B(self.is_root()));
            let mut inner = Vec::new();
            (**self).roots(&mut inner);
            out.extend(inner.into_iter().skip(1));
        }
    }
    fn is_prim() -> bool {
        T::is_prim()
    }
}

// ---------------------------------------------------------------- steit containers

impl<T: Node + PartialEq> Val for List<T> {
    fn obs(&self) -> J {
        J::A(self.iter().map(|v| v.obs()).collect())
    }
    fn build(j: &J) -> Self {
        match style(2) {
            0 => some_iter(j.a().iter().map(T::build)).collect(),
            _ => {
                let mut list = List::new(Runtime::new());
                for item in j.a() {
                    list.push(T::build(item));
                }
                list
            }
        }
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
}

impl<T: Node + PartialEq> Node for List<T> {
    fn build_in(j: &J, runtime: Runtime) -> Self {
        let items = j.a();
        match style(4) {
            0 => quiet(|| List::from_iter(runtime, some_iter(items.iter().map(T::build)))),
            1 => {
                let mut list: List<T> = some_iter(items.iter().map(T::build)).collect();
                quiet(|| list.set_runtime(runtime));
                list
            }
            2 => {
                let mut list = quiet(|| List::new(runtime));
                for item in items {
                    list.push(T::build(item));
                }
                list
            }
            _ => {
                let mut list = quiet(|| List::with_runtime(runtime));
                for item in items {
                    list.push_with(|runtime| T::build_in(item, runtime));
                }
                list
            }
        }
    }
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J {
        if let Some((&i, rest)) = at.split_first() {
            let i = i as usize;
            return match op.num("nv", 0) {
                0 => self.get_mut(i).expect("harness: index").apply(rest, op, cx),
                1 => self[i].apply(rest, op, cx),
                2 => self.iter_mut().nth(i).expect("harness: index").apply(rest, op, cx),
                _ => {
                    for (j, item) in (&mut *self).into_iter().enumerate() {
                        if i == j {
                            return item.apply(rest, op, cx);
                        }
                    }
                    panic!("harness: index")
                }
            };
        }
        if let Some(ret) = node_op(self, op, cx) {
            return ret;
        }
        match op.at("o").s() {
            "push" => J::N(if op.num("w", 0) == 0 {
                let item = take(op, cx);
                self.push(item)
            } else {
                self.push_with(|runtime| make(op, cx, runtime))
            } as i64),
            "pop" => {
                let removed = self.pop();
                cx.keep(op, removed)
            }
            "swap" => {
                let removed = self.swap_remove(op.at("i").n() as usize);
                cx.keep(op, removed)
            }
            "each" => {
                let at = op.at("at").u32s();
                let op = op.at("op");
                let mut rets = Vec::new();
                for item in self.iter_mut() {
                    rets.push(item.apply(&at, op, cx));
                }
                J::A(rets)
            }
            "views" => {
                let len = self.len();
                let mut views = Vec::new();
                views.push(J::A((0..len).map(|i| self[i].obs()).collect()));
                views.push(J::A((0..len).map(|i| self.get(i).unwrap().obs()).collect()));
                views.push(J::A((&*self).into_iter().map(|v| v.obs()).collect()));
                views.push(J::A(self.iter_mut().map(|v| v.obs()).collect()));
                views.push(J::A((&mut *self).into_iter().map(|v| v.obs()).collect()));
                views.push(J::A((0..len).map(|i| self.get_mut(i).unwrap().obs()).collect()));
                J::O(vec![
                    ("len".into(), J::N(len as i64)),
                    ("views".into(), J::A(views)),
                    (
                        "out".into(),
                        J::B(
                            self.get(len).is_none()
                                && self.get_mut(len).is_none()
                                && self.get_mut(usize::max_value()).is_none()
                                && self.is_empty() == (len == 0),
                        ),
                    ),
                ])
            }
            o => panic!("harness: no {} on a list", o),
        }
    }
    fn paths(&self, out: &mut Vec<J>) {
        out.push(path_of(self.runtime()));
        for item in self.iter() {
            item.paths(out);
        }
    }
    fn roots(&self, out: &mut Vec<J>) {
        out.push(J::B(self.is_root()));
        for item in self.iter() {
            item.roots(out);
        }
    }
}

/// Keys as the harness builds them.
pub trait KeyOf: MapKey + Eq + Hash + 'static {
    fn mk(n: u32) -> Self;
}
impl KeyOf for u8 {
    fn mk(n: u32) -> Self {
        n as u8
    }
}
impl KeyOf for u16 {
    fn mk(n: u32) -> Self {
        n as u16
    }
}
impl KeyOf for u32 {
    fn mk(n: u32) -> Self {
        n
    }
}

fn pair<K: KeyOf>(key: &K, value: J) -> J {
    let n = key.as_field_number();
    J::O(vec![("k".into(), J::N(if n > 0x7fff_fffe { -1 } else { n as i64 })), ("v".into(), value)])
}

fn key<K: KeyOf>(op: &J) -> K {
    K::mk(op.at("k").n() as u32)
}

impl<K: KeyOf, V: Node + PartialEq> Val for Map<K, V>
where
    Map<K, V>: Clone,
{
    fn obs(&self) -> J {
        J::A(self.iter().map(|(k, v)| pair(&k, v.obs())).collect())
    }
    fn build(j: &J) -> Self {
        match style(2) {
            0 => some_iter(j.a().iter().map(|e| (key::<K>(e), V::build(e.at("v"))))).collect(),
            _ => {
                let mut map = Map::new(Runtime::new());
                for e in j.a() {
                    map.insert(key(e), V::build(e.at("v")));
                }
                map
            }
        }
    }
    fn eqv(&self, other: &Self) -> bool {
        self == other
    }
}

impl<K: KeyOf, V: Node + PartialEq> Node for Map<K, V>
where
    Map<K, V>: Clone,
{
    fn build_in(j: &J, runtime: Runtime) -> Self {
        let items = j.a();
        match style(4) {
            0 => quiet(|| Map::from_iter(runtime, some_iter(items.iter().map(|e| (key(e), V::build(e.at("v"))))))),
            1 => {
                let mut map: Map<K, V> = some_iter(items.iter().map(|e| (key::<K>(e), V::build(e.at("v"))))).collect();
                quiet(|| map.set_runtime(runtime));
                map
            }
            2 => {
                let mut map = quiet(|| Map::new(runtime));
                for e in items {
                    map.insert(key(e), V::build(e.at("v")));
                }
                map
            }
            _ => {
                let mut map = quiet(|| Map::with_runtime(runtime));
                for e in items {
                    map.insert_with(key(e), |runtime| V::build_in(e.at("v"), runtime));
                }
                map
            }
        }
    }
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J {
        if let Some((&k, rest)) = at.split_first() {
            let k = K::mk(k);
            return match op.num("nv", 0) {
                0 => self.get_mut(&k).expect("harness: key").apply(rest, op, cx),
                1 => self[&k].apply(rest, op, cx),
                2 => {
                    for (key, value) in self.iter_mut() {
                        if key == k {
                            return value.apply(rest, op, cx);
                        }
                    }
                    panic!("harness: key")
                }
                _ => {
                    for (key, value) in &mut *self {
                        if key == k {
                            return value.apply(rest, op, cx);
                        }
                    }
                    panic!("harness: key")
                }
            };
        }
        if let Some(ret) = node_op(self, op, cx) {
            return ret;
        }
        match op.at("o").s() {
            "ins" => {
                let k = key::<K>(op);
                let old = if op.num("w", 0) == 0 {
                    let value = take(op, cx);
                    self.insert(k, value)
                } else {
                    self.insert_with(k, |runtime| make(op, cx, runtime))
                };
                cx.keep(op, old)
            }
            "rem" => {
                let removed = self.remove(&key(op));
                cx.keep(op, removed)
            }
            "each" => {
                let at = op.at("at").u32s();
                let op = op.at("op");
                let mut rets = Vec::new();
                for (_, item) in self.iter_mut() {
                    rets.push(item.apply(&at, op, cx));
                }
                J::A(rets)
            }
            "views" => {
                let len = self.len();
                let mut views = Vec::new();
                views.push(J::A(self.iter().map(|(k, v)| pair(&k, v.obs())).collect()));
                views.push(J::A((&*self).into_iter().map(|(k, v)| pair(&k, v.obs())).collect()));
                views.push(J::A(self.iter_mut().map(|(k, v)| pair(&k, v.obs())).collect()));
                views.push(J::A((&mut *self).into_iter().map(|(k, v)| pair(&k, v.obs())).collect()));
                let keys: Vec<K> = self.iter().map(|(k, _)| k).collect();
                views.push(J::A(keys.iter().map(|k| pair(k, self.get(k).unwrap().obs())).collect()));
                views.push(J::A(keys.iter().map(|k| pair(k, self[k].obs())).collect()));
                views.push(J::A(keys.iter().map(|k| pair(k, self.get_mut(k).unwrap().obs())).collect()));
                // Lookups of keys which may or may not be there.
                let asked = op.at("ks").a();
                let has: Vec<J> = asked
                    .iter()
                    .map(|k| {
                        let k = K::mk(k.n() as u32);
                        let has = self.contains(&k);
                        J::A(vec![J::B(has), J::B(self.get(&k).is_some()), J::B(self.get_mut(&k).is_some())])
                    })
                    .collect();
                J::O(vec![
                    ("len".into(), J::N(len as i64)),
                    ("views".into(), J::A(views)),
                    ("has".into(), J::A(has)),
                    ("out".into(), J::B(self.iter().count() == len)),
                ])
            }
            o => panic!("harness: no {} on a map", o),
        }
    }
    fn paths(&self, out: &mut Vec<J>) {
        out.push(path_of(self.runtime()));
        for (_, item) in self.iter() {
            item.paths(out);
        }
    }
    fn roots(&self, out: &mut Vec<J>) {
        out.push(J::B(self.is_root()));
        for (_, item) in self.iter() {
            item.roots(out);
        }
    }
}

impl<T: Node + PartialEq> Val for Maybe<T> {
    fn obs(&self) -> J {
        let (t, f) = match self {
            Maybe::None { .. } => (0, vec![]),
            Maybe::Some { value, .. } => (1, vec![value.obs()]),
        };
        J::O(vec![("t".into(), J::N(t)), ("f".into(), J::A(f))])
    }
    fn build(j: &J) -> Self {
        Self::build_in(j, Runtime::new())
    }
    fn eqv(&self, other: &Self) -> bool {
        let option = match other {
            Maybe::Some { value, .. } => Some(value.clone()),
            Maybe::None { .. } => None,
        };
        let (same, as_option) = (self == other, *self == option);
        // They should agree. If not, either may be what is wrong.
        if style(2) == 0 { same } else { as_option }
    }
}

impl<T: Node + PartialEq> Node for Maybe<T> {
    fn build_in(j: &J, runtime: Runtime) -> Self {
        if j.at("t").n() == 0 {
            return match style(3) {
                0 => quiet(|| Maybe::none(runtime)),
                1 => quiet(|| Maybe::new_none(runtime)),
                _ => quiet(|| Maybe::from_option(runtime, None)),
            };
        }
        let v = &j.at("f").a()[0];
        match style(4) {
            0 => quiet(|| Maybe::some(runtime, T::build(v))),
            1 => quiet(|| Maybe::from_option(runtime, Some(T::build(v)))),
            2 => {
                let mut maybe = quiet(|| Maybe::new(runtime));
                maybe.set_some_value(T::build(v));
                maybe
            }
            _ => {
                let mut maybe = quiet(|| Maybe::new_some(runtime));
                maybe.set_some_value_with(|runtime| T::build_in(v, runtime));
                maybe
            }
        }
    }
    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J {
        if let Some((_, rest)) = at.split_first() {
            return match self {
                Maybe::Some { value, .. } => value.apply(rest, op, cx),
                Maybe::None { .. } => panic!("harness: inside none"),
            };
        }
        if let Some(ret) = node_op(self, op, cx) {
            return ret;
        }
        match op.at("o").s() {
            "vset" => {
                if op.num("w", 0) == 0 {
                    let value = take(op, cx);
                    self.set_some_value(value);
                } else {
                    self.set_some_value_with(|runtime| make(op, cx, runtime));
                }
                J::A(vec![])
            }
            "maybe" => {
                let option = match self {
                    Maybe::Some { value, .. } => Some(value.clone()),
                    Maybe::None { .. } => None,
                };
                J::A(vec![J::B(self.is_some()), J::B(self.is_none()), J::B(*self == option), J::B(*self == None)])
            }
            o => panic!("harness: no {} on a maybe", o),
        }
    }
    fn paths(&self, out: &mut Vec<J>) {
        out.push(path_of(self.runtime()));
        if let Maybe::Some { value, .. } = self {
            value.paths(out);
        }
    }
    fn roots(&self, out: &mut Vec<J>) {
        out.push(J::B(self.is_root()));
        if let Maybe::Some { value, .. } = self {
            value.roots(out);
        }
    }
}

/// A key type which is not a plain number.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Key {
    One,
    Two,
    Seven,
    Big,
    Max,
    /// Cannot be represented on the wire.
    Beyond(u32),
}

impl MapKey for Key {
    fn try_from_field_number(n: u32) -> io::Result<Self> {
        match n {
            1 => Ok(Key::One),
            2 => Ok(Key::Two),
            7 => Ok(Key::Seven),
            300 => Ok(Key::Big),
            536870911 => Ok(Key::Max),
            _ => Err(io::Error::new(io::ErrorKind::InvalidData, "unknown key")),
        }
    }
    fn as_field_number(&self) -> u32 {
        match self {
            Key::One => 1,
            Key::Two => 2,
            Key::Seven => 7,
            Key::Big => 300,
            Key::Max => 536870911,
            Key::Beyond(n) => *n,
        }
    }
}

impl HasMeta for Key {
    const NAME: &'static NameMeta = u32::NAME;
    const TYPE: &'static TypeMeta = u32::TYPE;
    const LINK: &'static MetaLink = u32::LINK;
}

impl KeyOf for Key {
    fn mk(n: u32) -> Self {
        Key::try_from_field_number(n).unwrap_or(Key::Beyond(n))
    }
}

//! Loggers and runtimes on their own, and log entries as values.
use std::{
    io::{self, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

use steit::{
    log::{
        loggers::{BufferLogger, NoopLogger, WriterLogger},
        LogEntry, LogEntryKind, Logger,
    },
    rt::{LoggerHandle, PausableLogger, Runtime, SizeCache},
    ser::Serialize,
    types::Bytes,
};

use crate::{core::*, gen, json::J, panic_text};

fn obj(fields: Vec<(&str, J)>) -> J {
    J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn u32v(n: u32) -> J {
    J::of_bytes(&n.to_le_bytes())
}

fn u32_of(j: &J) -> u32 {
    let b = j.bytes();
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

impl Val for LogEntry {
    fn obs(&self) -> J {
        let path = |p: &Vec<u32>| J::A(p.iter().map(|n| u32v(*n)).collect());
        let raw = |b: &Bytes| J::of_bytes(&b.clone().into_raw());
        let (t, f) = match self {
            LogEntry::Update { path: p, value, .. } => (0, vec![path(p), raw(value)]),
            LogEntry::ListPush { path: p, item, .. } => (8, vec![path(p), raw(item)]),
            LogEntry::ListPop { path: p, .. } => (9, vec![path(p)]),
            LogEntry::MapRemove { path: p, key, .. } => (12, vec![path(p), u32v(*key)]),
        };
        let kind = match self.kind() {
            LogEntryKind::Update => 0,
            LogEntryKind::ListPush => 8,
            LogEntryKind::ListPop => 9,
            LogEntryKind::MapRemove => 12,
        };
        obj(vec![("t", J::N(if kind == t && self.kind() as i64 == t { t } else { -1 })), ("f", J::A(f))])
    }
    fn build(j: &J) -> Self {
        let f = j.at("f").a();
        let path: Vec<u32> = f[0].a().iter().map(u32_of).collect();
        let raw = |i: usize| Bytes::from_raw(f[i].bytes());
        let size_cache = SizeCache::new();
        match j.at("t").n() {
            0 => LogEntry::Update { path, value: raw(1), size_cache },
            8 => LogEntry::ListPush { path, item: raw(1), size_cache },
            9 => LogEntry::ListPop { path, size_cache },
            12 => LogEntry::MapRemove { path, key: u32_of(&f[1]), size_cache },
            t => panic!("harness: entry {}", t),
        }
    }
    fn eqv(&self, other: &Self) -> bool {
        self.obs().text() == other.obs().text()
    }
}

// ---------------------------------------------------------------- loggers

/// Records how it is called.
struct Batches(Arc<Mutex<Vec<Vec<LogEntry>>>>);

impl Logger for Batches {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        self.0.lock().unwrap().push(vec![entry]);
        Ok(())
    }
    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
        self.0.lock().unwrap().push(entries);
        Ok(())
    }
}

/// Takes entries one by one, and refuses one now and then.
struct Picky {
    batches: Arc<Mutex<Vec<Vec<LogEntry>>>>,
    refuse: Arc<Mutex<Option<i64>>>,
    sink: Sink,
}

impl Logger for Picky {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        let mut refuse = self.refuse.lock().unwrap();
        match *refuse {
            Some(0) => {
                *refuse = None;
                self.sink.0.lock().unwrap().broke = true;
                return Err(io::Error::new(io::ErrorKind::Other, "refused"));
            }
            Some(n) => *refuse = Some(n - 1),
            None => {}
        }
        self.batches.lock().unwrap().push(vec![entry]);
        Ok(())
    }
}

#[derive(Clone)]
struct Sink(Arc<Mutex<SinkData>>);

struct SinkData {
    data: Vec<u8>,
    chunk: Chunk,
    room: Option<usize>,
    broke: bool,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        s.chunk.turn()?;
        let mut n = s.chunk.limit(buf.len());
        if let Some(room) = s.room {
            if room == 0 && n > 0 {
                s.broke = true;
                return Err(io::Error::new(io::ErrorKind::Other, "broken sink"));
            }
            n = n.min(room);
            s.room = Some(room - n);
        }
        s.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Handle {
    Buffer(LoggerHandle<BufferLogger>),
    Boxed(LoggerHandle<Box<BufferLogger>>),
    Dyn(LoggerHandle<Box<dyn Logger>>),
}

pub struct Lg {
    runtime: Runtime,
    handle: Handle,
    kind: String,
    sink: Sink,
    batches: Arc<Mutex<Vec<Vec<LogEntry>>>>,
    refuse: Arc<Mutex<Option<i64>>>,
}

/// The entries which a writer wrote, as far as they are complete: bytes at the ends of lines.
fn written(text: &[u8]) -> J {
    let text = String::from_utf8_lossy(text);
    let mut out = Vec::new();
    let mut lines: Vec<&str> = text.split('\n').collect();
    lines.pop();
    for line in lines {
        if let Some(at) = line.find("=> [") {
            let list = line[at + 4..].trim_end_matches(']');
            out.extend(list.split(',').map(|n| n.trim()).filter(|n| !n.is_empty()).map(|n| J::N(n.parse().unwrap_or(-1))));
        }
    }
    J::A(out)
}

fn entry(runtime: &Runtime, op: &J) -> LogEntry {
    gen::codec(op.get("ty").map_or("u8", |t| t.s())).entry(runtime, op)
}

fn entry_bytes(entries: &[LogEntry]) -> J {
    let mut out = Vec::new();
    for e in entries {
        // By other means than those of the loggers.
        let body = e.to_bytes();
        let mut n = body.len();
        while n >= 128 {
            out.push((n & 127 | 128) as u8);
            n >>= 7;
        }
        out.push(n as u8);
        out.extend(body);
    }
    J::of_bytes(&out)
}

impl Lg {
    pub fn holder(&self, cmd: &J) -> Holder {
        Holder::new(&self.runtime, cmd)
    }

    pub fn open(op: &J) -> Lg {
        let kind = op.at("kind").s().to_string();
        let sink = Sink(Arc::new(Mutex::new(SinkData {
            data: Vec::new(),
            chunk: Chunk::of(op),
            room: op.get("room").map(|n| n.n() as usize),
            broke: false,
        })));
        let batches = Arc::new(Mutex::new(Vec::new()));
        let refuse = Arc::new(Mutex::new(None));
        let (runtime, handle) = match kind.as_str() {
            "buffer" if op.num("boxed", 0) == 1 => {
                let (r, h) = Runtime::with_logger_returned(Box::new(BufferLogger::new()));
                (r, Handle::Boxed(h))
            }
            "buffer" => {
                let (r, h) = Runtime::with_logger_returned(BufferLogger::default());
                (r, Handle::Buffer(h))
            }
            _ => {
                let (r, h) = Runtime::with_logger_returned(Self::inner(&kind, &sink, &batches, &refuse));
                (r, Handle::Dyn(h))
            }
        };
        Lg { runtime, handle, kind, sink, batches, refuse }
    }

    fn inner(
        kind: &str,
        sink: &Sink,
        batches: &Arc<Mutex<Vec<Vec<LogEntry>>>>,
        refuse: &Arc<Mutex<Option<i64>>>,
    ) -> Box<dyn Logger> {
        match kind {
            "writer" => Box::new(WriterLogger::new(sink.clone())),
            "batches" => Box::new(Batches(batches.clone())),
            "picky" => {
                Box::new(Picky { batches: batches.clone(), refuse: refuse.clone(), sink: sink.clone() })
            }
            "noop" => Box::new(NoopLogger::new()),
            k => panic!("harness: logger {}", k),
        }
    }

    fn at(&self, nav: &J) -> Runtime {
        let mut r = self.runtime.clone();
        for step in nav.a() {
            let s = step.a();
            r = match s[0].s() {
                "n" => r.nested(s[1].n() as u32),
                "s" => r.sibling(s[1].n() as u32),
                "p" => r.parent(),
                "d" => r.detached(),
                x => panic!("harness: nav {}", x),
            };
        }
        r
    }

    pub fn run(&mut self, op: &J) -> J {
        let mut out = obj(vec![]);
        *self.refuse.lock().unwrap() = op.get("refuse").map(|n| n.n());
        let ret = if op.num("th", 0) == 1 {
            elsewhere(|| self.step(op))
        } else {
            catch_unwind(AssertUnwindSafe(|| self.step(op)))
        };
        match ret {
            Ok(fields) => {
                for (k, v) in fields {
                    out.put(k, v);
                }
            }
            Err(e) => {
                let text = panic_text(e);
                if text.starts_with("harness:") {
                    panic!("{}", text);
                }
                out.put("res", J::S(format!("panic: {}", text)));
            }
        }
        let held = match &self.handle {
            Handle::Buffer(h) => h.lock().unwrap().bytes(),
            Handle::Boxed(h) => h.lock().unwrap().bytes(),
            Handle::Dyn(_) => Vec::new(),
        };
        out.put("held", J::of_bytes(&held));
        let mut sink = self.sink.0.lock().unwrap();
        out.put("sink", written(&sink.data));
        out.put("broke", J::B(sink.broke));
        sink.broke = false;
        drop(sink);
        let batches = self.batches.lock().unwrap();
        out.put("batches", J::A(batches.iter().map(|b| entry_bytes(b)).collect()));
        out
    }

    fn step(&mut self, op: &J) -> Vec<(&'static str, J)> {
        match op.at("o").s() {
            "nav" => {
                let r = self.at(op.at("nav"));
                vec![
                    ("path", path_of(&r)),
                    ("root", J::A(vec![J::B(r.is_root()), J::B(!r.is_child())])),
                    ("num", J::A(r.get_field_number().into_iter().map(u32v).collect())),
                    ("num2", J::A(if r.is_root() { vec![] } else { vec![u32v(r.field_number())] })),
                ]
            }
            "log" => {
                let r = self.at(op.at("nav"));
                let e = op.at("e");
                let done = match op.num("via", 0) {
                    0 => gen::codec(e.get("ty").map_or("u8", |t| t.s())).log(&r, e),
                    1 => r.log(entry(&r, e)),
                    2 => r.logger().lock().unwrap().log(entry(&r, e)),
                    _ => {
                        let entry = entry(&r, e);
                        match &self.handle {
                            Handle::Buffer(h) => h.lock().unwrap().log(entry),
                            Handle::Boxed(h) => h.lock().unwrap().log(entry),
                            Handle::Dyn(h) => h.lock().unwrap().log(entry),
                        }
                    }
                };
                vec![("res", res(done))]
            }
            "multi" => {
                let es: Vec<LogEntry> = op.at("es").a().iter().map(|x| entry(&self.at(x.at("nav")), x.at("e"))).collect();
                let done = match op.num("via", 0) {
                    0 => self.at(op.at("nav")).log_multi(es),
                    1 => self.runtime.logger().lock().unwrap().log_multi(es),
                    _ => match &self.handle {
                        Handle::Buffer(h) => h.lock().unwrap().log_multi(es),
                        Handle::Boxed(h) => h.lock().unwrap().log_multi(es),
                        Handle::Dyn(h) => h.lock().unwrap().log_multi(es),
                    },
                };
                vec![("res", res(done))]
            }
            o @ "pause" | o @ "unpause" => {
                let r = self.at(op.at("nav"));
                let pause = o == "pause";
                let depth = match op.num("via", 0) {
                    0 if pause => r.pause_logger(),
                    0 => r.unpause_logger(),
                    1 if pause => r.logger().lock().unwrap().pause(),
                    1 => r.logger().lock().unwrap().unpause(),
                    _ => match &self.handle {
                        Handle::Buffer(h) if pause => h.lock().unwrap().pause(),
                        Handle::Boxed(h) if pause => h.lock().unwrap().pause(),
                        Handle::Dyn(h) if pause => h.lock().unwrap().pause(),
                        Handle::Buffer(h) => h.lock().unwrap().unpause(),
                        Handle::Boxed(h) => h.lock().unwrap().unpause(),
                        Handle::Dyn(h) => h.lock().unwrap().unpause(),
                    },
                };
                vec![("depth", J::N(depth as i64))]
            }
            "replace" => {
                match &self.handle {
                    Handle::Buffer(h) => h.lock().unwrap().replace(BufferLogger::new()),
                    Handle::Boxed(h) => h.lock().unwrap().replace(Box::new(BufferLogger::new())),
                    Handle::Dyn(h) => {
                        if self.kind == "batches" || self.kind == "picky" {
                            self.batches = Arc::new(Mutex::new(Vec::new()));
                        }
                        h.lock().unwrap().replace(Self::inner(&self.kind, &self.sink, &self.batches, &self.refuse))
                    }
                }
                vec![]
            }
            how => {
                let out = match &self.handle {
                    Handle::Buffer(h) => Self::drain(&mut *h.lock().unwrap(), how),
                    Handle::Boxed(h) => Self::drain(&mut *h.lock().unwrap(), how),
                    Handle::Dyn(_) => panic!("harness: {} of another logger", how),
                };
                vec![("out", out)]
            }
        }
    }

    fn drain(b: &mut BufferLogger, how: &str) -> J {
        match how {
            "bytes" => J::of_bytes(&b.bytes()),
            "pluck" => entry_bytes(&b.pluck()),
            "pluck_bytes" => J::of_bytes(&b.pluck_bytes()),
            "clear" => {
                b.clear();
                J::A(vec![])
            }
            o => panic!("harness: logger operation {}", o),
        }
    }
}

/// Makes, or logs, the entry an operation describes.
pub fn entry_of<T: Serialize>(r: &Runtime, op: &J, value: Option<T>) -> LogEntry {
    match op.at("k").s() {
        "update" => r.entry_update(&value.unwrap()),
        "child" => r.entry_update_child(op.at("tag").n() as u32, &value.unwrap()),
        "push" => r.entry_list_push(&value.unwrap()),
        "pop" => r.entry_list_pop(),
        "remove" => r.entry_map_remove(u32_of(op.at("key"))),
        k => panic!("harness: entry {}", k),
    }
}

pub fn log_of<T: Serialize>(r: &Runtime, op: &J, value: Option<T>) -> io::Result<()> {
    match op.at("k").s() {
        "update" => r.log_update(&value.unwrap()),
        "child" => r.log_update_child(op.at("tag").n() as u32, &value.unwrap()),
        "push" => r.log_list_push(&value.unwrap()),
        "pop" => r.log_list_pop(),
        "remove" => r.log_map_remove(u32_of(op.at("key"))),
        k => panic!("harness: entry {}", k),
    }
}

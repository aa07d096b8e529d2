//! Drives the code under test: one JSON command per line in, one JSON observation per line out.
mod alloc;
mod conc;
mod core;
mod gen;
mod json;
mod misc;

use std::{
    collections::HashMap,
    io::{self, BufRead, Write},
    marker::PhantomData,
    panic::{catch_unwind, AssertUnwindSafe},
};

use steit::{
    de::{Deserialize, Reader},
    gen::{generators::CSharpSetting, Setting},
    log::LogEntry,
    rt::{LoggerHandle, Runtime},
    ser::Serialize,
    wire_fmt::WireType,
};

use crate::{core::*, json::J};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

// ---------------------------------------------------------------- registries

pub struct Of<T> {
    hash: Option<fn(&T) -> u64>,
    _marker: PhantomData<fn() -> T>,
}

impl<T> Of<T> {
    pub fn new() -> Self {
        Of { hash: None, _marker: PhantomData }
    }
}

impl<T: std::hash::Hash> Of<T> {
    pub fn hashed() -> Self {
        Of { hash: Some(|value| hash_of(value)), _marker: PhantomData }
    }
}

/// What is read from a reader, step by step, until an error.
fn script<R: io::Read>(reader: &mut Reader<R>, ops: &[J], out: &mut Vec<J>) -> bool {
    for op in ops {
        let op = op.a();
        let got: io::Result<Vec<i64>> = match op[0].s() {
            "eof" => reader.eof().map(|eof| vec![eof as i64]),
            "exact" => {
                let mut buf = vec![0; op[1].n() as usize];
                io::Read::read_exact(reader, &mut buf).map(|_| buf.iter().map(|b| *b as i64).collect())
            }
            "all" => {
                let mut buf = Vec::new();
                io::Read::read_to_end(reader, &mut buf).map(|_| buf.iter().map(|b| *b as i64).collect())
            }
            "num" => u32::deserialize(reader).map(|n| n.to_le_bytes().iter().map(|b| *b as i64).collect()),
            "tag" => reader.read_tag().map(|(num, wire_type)| vec![num as i64, wire_type as i64]),
            "skip" => {
                let wire_type = if op[1].n() == 0 { WireType::Varint } else { WireType::Sized };
                reader.skip_field(wire_type).map(|_| Vec::new())
            }
            "sub" => {
                out.push(J::A(Vec::new()));
                if !script(&mut reader.as_mut_read(), op[1].a(), out) {
                    return false;
                }
                continue;
            }
            "nest" => match reader.nested() {
                Ok(mut nested) => {
                    out.push(J::A(Vec::new()));
                    if !script(&mut nested, op[1].a(), out) {
                        return false;
                    }
                    continue;
                }
                Err(e) => Err(e),
            },
            x => panic!("harness: reading {}", x),
        };
        match got {
            Ok(got) => out.push(J::A(got.into_iter().map(J::N).collect())),
            Err(_) => {
                out.push(J::A(vec![J::N(-1)]));
                return false;
            }
        }
    }
    true
}

pub trait RootType {
    fn make(&self, v: &J, how: i64, runtime: Runtime) -> Box<dyn Slot>;
    /// Deserializes bytes in one of several ways.
    fn load(&self, bytes: &[u8], op: &J, how: i64, runtime: Runtime) -> io::Result<Box<dyn Slot>>;
}

impl<T: Node> RootType for Of<T> {
    fn make(&self, v: &J, how: i64, runtime: Runtime) -> Box<dyn Slot> {
        Box::new(match how {
            0 => T::build_in(v, runtime),
            1 => {
                let mut value = T::build(v);
                value.set_runtime(runtime);
                value
            }
            2 => {
                let bytes = T::build(v).to_bytes();
                let mut value = T::with_runtime(runtime);
                value.merge(&mut Reader::new(&bytes[..])).unwrap();
                value
            }
            3 => {
                let bytes = T::build(v).to_bytes();
                let mut value = T::deserialize(&mut Reader::new(&bytes[..])).unwrap();
                value.set_runtime(runtime);
                value
            }
            _ => {
                // Lived somewhere else before.
                let mut value = T::build_in(v, Runtime::new().nested(3).nested(5));
                value.cache_size();
                value.set_runtime(runtime);
                let copy = value.clone();
                drop(value);
                copy
            }
        })
    }
    fn load(&self, bytes: &[u8], op: &J, how: i64, runtime: Runtime) -> io::Result<Box<dyn Slot>> {
        Ok(Box::new(if how == 0 {
            let mut value = T::with_runtime(runtime);
            value.merge(&mut reader(bytes, op))?;
            value
        } else {
            let mut value = T::deserialize(&mut reader(bytes, op))?;
            value.set_runtime(runtime);
            value
        }))
    }
}

pub trait CodecType {
    fn run(&self, op: &J) -> J;
    fn entry(&self, runtime: &Runtime, op: &J) -> LogEntry;
    fn log(&self, runtime: &Runtime, op: &J) -> io::Result<()>;
}

fn obj(fields: Vec<(&str, J)>) -> J {
    J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl<T: Val> CodecType for Of<T> {
    fn entry(&self, runtime: &Runtime, op: &J) -> LogEntry {
        misc::entry_of(runtime, op, op.get("v").map(T::build))
    }
    fn log(&self, runtime: &Runtime, op: &J) -> io::Result<()> {
        misc::log_of(runtime, op, op.get("v").map(T::build))
    }
    fn run(&self, op: &J) -> J {
        match op.at("c").s() {
            "ser" => {
                let value = T::build(op.at("v"));
                ser_obs(&value, op)
            }
            // Serializes into a sink which is slow and may break.
            "wr" => {
                let value = T::build(op.at("v"));
                let mut sink = ChunkWrite {
                    data: Vec::new(),
                    chunk: Chunk::of(op),
                    fail: op.get("wfail").map(|n| n.n() as usize),
                    zero: op.num("zero", 0) == 1,
                };
                let res = res(match op.num("nested", 0) {
                    0 => value.steit_serialize(&mut sink),
                    1 => {
                        value.cache_size();
                        value.serialize_nested(None, false, &mut sink)
                    }
                    _ => {
                        value.cache_size();
                        value.serialize_nested(op.at("num").n() as u32, true, &mut sink)
                    }
                });
                obj(vec![("res", res), ("b", J::of_bytes(&sink.data)), ("full", J::of_bytes(&value.to_bytes()))])
            }
            "de" => {
                let bytes = op.at("b").bytes();
                match T::deserialize(&mut reader(&bytes, op)) {
                    Ok(value) => obj(vec![("res", J::str("ok")), ("obs", value.obs())]),
                    Err(_) => obj(vec![("res", J::str("err"))]),
                }
            }
            "mrg" => {
                let mut value = T::build(op.at("v"));
                if op.num("warm", 0) == 1 {
                    value.cache_size();
                }
                let bytes = op.at("b").bytes();
                let res = res(if op.num("nested", 0) == 1 {
                    value.merge_nested(T::WIRE_TYPE, &mut reader(&bytes, op))
                } else {
                    value.merge(&mut reader(&bytes, op))
                });
                obj(vec![("res", res), ("obs", value.obs()), ("after", ser_obs(&value, op))])
            }
            // There and back again.
            "trip" => {
                let value = T::build(op.at("v"));
                let bytes = value.to_bytes();
                match T::deserialize(&mut reader(&bytes, op)) {
                    Ok(back) => obj(vec![
                        ("res", J::str("ok")),
                        ("obs", back.obs()),
                        ("b", J::of_bytes(&bytes)),
                        ("b2", J::of_bytes(&back.to_bytes())),
                        ("eq", J::B(back.eqv(&value) && value.eqv(&back))),
                    ]),
                    Err(_) => obj(vec![("res", J::str("err")), ("b", J::of_bytes(&bytes))]),
                }
            }
            "eq" => {
                let a = T::build(op.at("a"));
                let mut b = T::build(op.at("b"));
                // Neither cached sizes nor copies matter.
                if op.num("cold", 0) == 1 {
                    let bytes = b.to_bytes();
                    b = T::deserialize(&mut Reader::new(&bytes[..])).unwrap();
                }
                if op.num("warm", 0) == 1 {
                    a.cache_size();
                }
                let a = if op.num("copy", 0) == 1 { a.clone() } else { a };
                let hash = J::A(self.hash.iter().map(|hash| J::B(hash(&a) == hash(&b))).collect());
                obj(vec![("obs", b.obs()), ("ab", J::B(a.eqv(&b))), ("ba", J::B(b.eqv(&a))), ("aa", J::B(a.eqv(&a))), ("h", hash)])
            }
            // A collection made of entries which may repeat, or can't be.
            "of" => match catch_unwind(AssertUnwindSafe(|| T::build(op.at("v")))) {
                Ok(value) => obj(vec![("res", J::str("ok")), ("obs", value.obs()), ("b", J::of_bytes(&value.to_bytes()))]),
                Err(_) => obj(vec![("res", J::str("refused"))]),
            },
            // Several threads serialize one value.
            "par" => {
                let value = T::build(op.at("v"));
                let want = value.to_bytes();
                let bad = conc::hammer_serialize(&value, &want, op.num("threads", 4) as usize, op.num("rounds", 50) as usize);
                obj(vec![("bad", J::N(bad as i64)), ("b", J::of_bytes(&want))])
            }
            c => panic!("harness: codec {}", c),
        }
    }
}

/// Everything observable about how a value is serialized, in an order which would show stale caches.
pub fn ser_obs<T: Serialize>(value: &T, op: &J) -> J {
    let num = op.num("num", 1) as u32;
    let size = value.compute_size();
    let bytes = value.to_bytes();
    let cached = value.cached_size();
    let nested = |field: Option<u32>, omit: bool| {
        let size = value.compute_size_nested(field, omit).unwrap();
        let mut out = Vec::new();
        value.serialize_nested(field, omit, &mut out).unwrap();
        J::A(vec![J::N(size as i64), J::of_bytes(&out)])
    };
    let plain = nested(None, false);
    let tagged = nested(Some(num), false);
    let omit = nested(Some(num), true);
    let none_omit = nested(None, true);
    value.cache_size();
    let mut again = Vec::new();
    value.serialize_cached(&mut again).unwrap();
    obj(vec![
        ("sz", J::N(size as i64)),
        ("csz", J::N(cached as i64)),
        ("b", J::of_bytes(&bytes)),
        ("n", plain),
        ("t", tagged),
        ("o", omit),
        ("no", none_omit),
        ("again", J::of_bytes(&again)),
    ])
}

// ---------------------------------------------------------------- sessions

pub struct Sess {
    pub slot: Box<dyn Slot>,
    pub runtime: Runtime,
    pub handle: LoggerHandle<Rec>,
    pub ty: String,
}

impl Sess {
    fn full(&self, out: &mut J) {
        out.put("obs", self.slot.obs());
        out.put("paths", self.slot.paths());
        out.put("roots", self.slot.roots());
        out.put("sz", J::N(self.slot.size() as i64));
        let calls = self.handle.lock().unwrap_or_else(|e| e.into_inner()).batches.clone();
        out.put("calls", J::of_u32s(&calls));
        out.put("log", J::of_bytes(&self.drain()));
    }
    fn drain(&self) -> Vec<u8> {
        let mut logger = self.handle.lock().unwrap_or_else(|e| e.into_inner());
        logger.batches.clear();
        logger.news()
    }
}

struct World {
    sessions: HashMap<i64, Sess>,
    cx: Cx,
    lg: Option<misc::Lg>,
}

impl World {
    fn sess(&mut self, key: &str, cmd: &J) -> &mut Sess {
        let id = cmd.at(key).n();
        self.sessions.get_mut(&id).unwrap_or_else(|| panic!("harness: no session {}", id))
    }

    fn run(&mut self, cmd: &J) -> J {
        let mut out = obj(vec![]);
        set_style(cmd.num("st", 1) as u32);
        match cmd.at("c").s() {
            "new" => {
                let (runtime, handle) = match cmd.get("share") {
                    Some(id) => {
                        let other = &self.sessions[&id.n()];
                        (other.runtime.clone(), other.handle.clone())
                    }
                    None => Runtime::with_logger_returned(Rec::new()),
                };
                let ty = cmd.at("ty").s().to_string();
                let watched = handle.clone();
                LOGGED.with(|l| *l.borrow_mut() = Some(Box::new(move || watched.lock().map_or(0, |h| h.inner.bytes().len()))));
                let slot = gen::root(&ty).make(cmd.at("v"), cmd.num("how", 0), runtime.clone());
                LOGGED.with(|l| *l.borrow_mut() = None);
                out.put("echoes", J::N(ECHOES.with(|e| e.replace(0))));
                let sess = Sess { slot, runtime, handle, ty };
                sess.drain();
                sess.full(&mut out);
                self.sessions.insert(cmd.at("s").n(), sess);
            }
            "snap" => {
                let (ty, bytes) = {
                    let src = self.sess("s", cmd);
                    (src.ty.clone(), src.slot.bytes())
                };
                out.put("b", J::of_bytes(&bytes));
                let (runtime, handle) = Runtime::with_logger_returned(Rec::new());
                match gen::root(&ty).load(&bytes, cmd, cmd.num("how", 0), runtime.clone()) {
                    Ok(slot) => {
                        let sess = Sess { slot, runtime, handle, ty };
                        sess.full(&mut out);
                        out.put("res", J::str("ok"));
                        self.sessions.insert(cmd.at("f").n(), sess);
                    }
                    Err(_) => out.put("res", J::str("err")),
                }
            }
            "op" => {
                let at = cmd.at("at").u32s();
                let op = cmd.at("op").clone();
                if let Some(side) = op.get("side") {
                    let other = &mut *self.sess("s", side).slot as *mut dyn Slot;
                    self.cx.side = Some((other, side.clone()));
                }
                self.cx.foreign.1.lock().unwrap().inner.clear();
                let kept_before = self.cx.pocket.len();
                let cx = &mut self.cx as *mut Cx;
                let sess = self.sess("s", cmd);
                if let Some(n) = cmd.get("fail") {
                    let mut logger = sess.handle.lock().unwrap();
                    logger.fail_at = Some(n.n() as u32);
                    logger.atomic = cmd.num("atomic", 1) == 1;
                }
                let holder = Holder::new(&sess.runtime, cmd);
                let ret = catch_unwind(AssertUnwindSafe(|| sess.slot.apply(&at, &op, unsafe { &mut *cx })));
                drop(holder);
                sess.handle.lock().unwrap_or_else(|e| e.into_inner()).fail_at = None;
                match ret {
                    Ok(ret) => {
                        out.put("pn", J::B(false));
                        out.put("ret", ret);
                    }
                    Err(e) => {
                        let text = panic_text(e);
                        if text.starts_with("harness:") {
                            panic!("{}", text);
                        }
                        out.put("pn", J::B(true));
                        out.put("why", J::S(text));
                        out.put("ret", J::A(vec![]));
                    }
                }
                sess.full(&mut out);
                if cmd.num("bytes", 0) == 1 {
                    out.put("b", J::of_bytes(&sess.slot.bytes()));
                }
                if let Some(side) = op.get("side") {
                    let mut other = obj(vec![]);
                    self.sess("s", side).full(&mut other);
                    out.put("side", other);
                }
                let foreign = self.cx.foreign.1.lock().unwrap().inner.pluck_bytes();
                out.put("fl", J::of_bytes(&foreign));
                let kept = self.cx.pocket.last().and_then(|slot| slot.as_ref());
                if self.cx.pocket.len() > kept_before {
                    if let Some(slot) = kept {
                        out.put("kept", J::A(vec![slot.obs(), slot.paths(), slot.roots()]));
                        out.put("pocket", J::N(self.cx.pocket.len() as i64 - 1));
                    }
                }
            }
            // Changes a value in the pocket.
            "pop" => {
                let at = cmd.at("at").u32s();
                let i = cmd.at("pk").n() as usize;
                let mut slot = self.cx.pocket[i].take().expect("harness: empty pocket");
                let ret = catch_unwind(AssertUnwindSafe(|| slot.apply(&at, cmd.at("op"), &mut self.cx)));
                out.put("pn", J::B(ret.is_err()));
                out.put("ret", ret.unwrap_or(J::A(vec![])));
                out.put("obs", slot.obs());
                out.put("paths", slot.paths());
                out.put("roots", slot.roots());
                if cmd.get("drop").is_none() {
                    self.cx.pocket[i] = Some(slot);
                }
                let sess = self.sess("s", cmd);
                let mut other = obj(vec![]);
                sess.full(&mut other);
                out.put("src", other);
            }
            "replay" => {
                let bytes = cmd.at("b").bytes();
                let sess = self.sess("s", cmd);
                let holder = Holder::new(&sess.runtime, cmd);
                out.put("res", sess.slot.replay(&bytes, cmd));
                drop(holder);
                sess.full(&mut out);
                if cmd.num("bytes", 0) == 1 {
                    out.put("b", J::of_bytes(&sess.slot.bytes()));
                }
            }
            "look" => {
                let sess = self.sess("s", cmd);
                sess.full(&mut out);
                out.put("b", J::of_bytes(&sess.slot.bytes()));
            }
            // Replays bytes onto a fresh state.
            "rp" => {
                let (runtime, handle) = Runtime::with_logger_returned(Rec::new());
                let ty = cmd.at("ty").s().to_string();
                let slot = gen::root(&ty).make(cmd.at("v"), cmd.num("how", 0), runtime.clone());
                let mut sess = Sess { slot, runtime, handle, ty };
                sess.drain();
                let bytes = cmd.at("b").bytes();
                alloc::reset();
                out.put("res", sess.slot.replay(&bytes, cmd));
                out.put("peak", J::N(alloc::peak()));
                sess.full(&mut out);
            }
            "script" => {
                let bytes = cmd.at("b").bytes();
                let mut got = Vec::new();
                script(&mut reader(&bytes, cmd), cmd.at("ops").a(), &mut got);
                out.put("got", J::A(got));
            }
            "codec" => {
                alloc::reset();
                let got = gen::codec(cmd.at("ty").s()).run(cmd.at("op"));
                out = got;
                out.put("peak", J::N(alloc::peak()));
            }
            "eq" => {
                let id = cmd.at("b").n();
                let a = &self.sessions[&cmd.at("a").n()];
                out.put("eq", a.slot.eq_to(&*self.sessions[&id].slot));
                a.full(&mut out);
            }
            "drop" => {
                self.sessions.remove(&cmd.at("s").n());
            }
            "reset" => {
                self.sessions.clear();
                self.cx = Cx::new();
                self.lg = None;
            }
            "lg" => {
                let op = cmd.at("op");
                let _holder = self.lg.as_ref().map(|lg| lg.holder(cmd));
                if op.at("o").s() == "open" {
                    self.lg = Some(misc::Lg::open(op));
                } else {
                    out = self.lg.as_mut().expect("harness: no logger").run(op);
                }
            }
            // Generates client code.
            "emit" => {
                let set = cmd.at("set");
                let texts = |name: &str| -> Vec<String> {
                    set.get(name).map_or(vec![], |xs| xs.a().iter().map(|x| x.s().to_string()).collect())
                };
                let mut inner = CSharpSetting::new(set.at("ns").s());
                if set.get("using").is_some() {
                    inner = inner.using_namespaces(texts("using"));
                }
                let mut setting = Setting::new(&set.at("dir").s(), inner);
                if let Some(names) = set.get("names") {
                    setting = if names.s() == "rust" { setting.get_name_rust() } else { setting.get_name_csharp() };
                }
                if let Some(skip) = set.get("skip_builtins") {
                    setting = setting.skip_builtins(skip.n() == 1);
                }
                if set.get("skip").is_some() {
                    setting = setting.skip_names(texts("skip"));
                }
                match gen::emit(cmd.at("ty").s(), &setting) {
                    Ok(names) => out.put("names", J::A(names.into_iter().map(J::S).collect())),
                    Err(e) => out.put("err", J::S(e.to_string())),
                }
            }
            "conc" => {
                let sess = self.sess("s", cmd);
                out.put("steps", conc::run(sess, cmd));
                sess.full(&mut out);
            }
            "hammer" => {
                let sess = self.sess("s", cmd);
                let (chunks, rets) = conc::hammer(sess, cmd);
                out.put("chunks", chunks);
                out.put("rets", rets);
                sess.full(&mut out);
            }
            c => panic!("harness: command {}", c),
        }
        out
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

fn main() {
    if std::env::var("HARNESS_BACKTRACE").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    // Deep values are driven on a roomy stack: only the depth of the input is bounded, not ours.
    std::thread::Builder::new().stack_size(512 << 20).spawn(serve).unwrap().join().unwrap();
}

fn serve() {
    let mut world = World { sessions: HashMap::new(), cx: Cx::new(), lg: None };
    let stdin = io::stdin();
    let stdout = io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let cmd = J::parse(&line);
        let out = match catch_unwind(AssertUnwindSafe(|| world.run(&cmd))) {
            Ok(out) => out,
            Err(e) => obj(vec![("panic", J::S(panic_text(e)))]),
        };
        let mut stdout = stdout.lock();
        stdout.write_all(out.text().as_bytes()).unwrap();
        stdout.write_all(b"\n").unwrap();
        stdout.flush().unwrap();
    }
}

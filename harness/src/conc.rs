//! Schedules with several threads.
use std::{
    cell::RefCell,
    sync::{
        atomic::{AtomicUsize, Ordering},
        mpsc::{channel, Receiver, Sender},
        Arc, Barrier,
    },
    thread,
    time::{Duration, Instant},
};

use steit::ser::Serialize;

use crate::{
    core::{Cx, Slot},
    json::J,
    Sess,
};

struct Shared<T>(*const T);
unsafe impl<T> Sync for Shared<T> {}

/// How many of the concurrent serializations of one value gave other bytes than expected.
pub fn hammer_serialize<T: Serialize>(value: &T, want: &[u8], threads: usize, rounds: usize) -> usize {
    let shared = Shared(value as *const T);
    let shared = &shared;
    let bad = AtomicUsize::new(0);
    let barrier = Barrier::new(threads);
    thread::scope(|scope| {
        for _ in 0..threads {
            scope.spawn(|| {
                let value = unsafe { &*shared.0 };
                barrier.wait();
                for _ in 0..rounds {
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| value.to_bytes()));
                    if got.map_or(true, |got| got != want) {
                        bad.fetch_add(1, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    bad.into_inner()
}

// ---------------------------------------------------------------- threads

enum Mark {
    /// In a callback, half-way through an operation.
    Half,
    Done(Option<J>),
}

struct Gate {
    go: Receiver<()>,
    mark: Sender<Mark>,
}

thread_local! {
    static GATE: RefCell<Option<Gate>> = RefCell::new(None);
}

/// Called in a construction callback: others may go on meanwhile.
pub fn gate() {
    GATE.with(|gate| match &*gate.borrow() {
        Some(gate) => {
            gate.mark.send(Mark::Half).unwrap();
            gate.go.recv().unwrap();
        }
        None => (0..3).for_each(|_| thread::yield_now()),
    });
}

struct Part(*mut dyn Slot);
unsafe impl Send for Part {}

impl Part {
    fn apply(&mut self, op: &J) -> Option<J> {
        let slot = unsafe { &mut *self.0 };
        let ret = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| slot.apply(&[], op, &mut Cx::new())));
        ret.ok()
    }
}

fn parts(sess: &mut Sess, cmd: &J) -> Vec<(Part, Vec<J>)> {
    let mut parts = Vec::new();
    for th in cmd.at("th").a() {
        let mut cx = Cx::new();
        let find = J::O(vec![("o".to_string(), J::str("ptr"))]);
        sess.slot.apply(&th.at("at").u32s(), &find, &mut cx);
        parts.push((Part(cx.found.expect("harness: no part")), th.at("ops").a().to_vec()));
    }
    parts
}

const PATIENCE: Duration = Duration::from_secs(8);

fn stuck() -> ! {
    eprintln!("harness: threads are stuck");
    std::process::exit(3)
}

/// Takes the threads through their operations, one step at a time, in the order of a schedule.
pub fn run(sess: &mut Sess, cmd: &J) -> J {
    let parts = parts(sess, cmd);
    let mut ends = Vec::new();
    for (mut part, ops) in parts {
        let (go_in, go) = channel();
        let (mark, marks) = channel();
        let child = thread::spawn(move || {
            let done = mark.clone();
            GATE.with(|gate| *gate.borrow_mut() = Some(Gate { go, mark }));
            for op in ops {
                GATE.with(|gate| gate.borrow().as_ref().unwrap().go.recv().unwrap());
                let _ = done.send(Mark::Done(part.apply(&op)));
            }
        });
        ends.push((go_in, marks, child));
    }
    let mut steps = Vec::new();
    for id in cmd.at("sched").a() {
        let (go, marks, _) = &ends[id.n() as usize - 1];
        let mut step = J::O(vec![]);
        let mut half = false;
        let ret = match go.send(()) {
            Err(_) => panic!("harness: the thread is over"),
            Ok(()) => match marks.recv_timeout(PATIENCE) {
                Ok(Mark::Half) => {
                    half = true;
                    J::A(vec![])
                }
                Ok(Mark::Done(Some(ret))) => J::A(vec![ret]),
                Ok(Mark::Done(None)) => panic!("harness: the operation panicked"),
                Err(_) => stuck(),
            },
        };
        step.put("half", J::B(half));
        step.put("ret", ret);
        step.put("log", J::of_bytes(&sess.drain()));
        steps.push(step);
    }
    for (go, _, child) in ends {
        drop(go);
        let _ = child.join();
    }
    J::A(steps)
}

/// Lets the threads run freely, while the log is taken out again and again.
pub fn hammer(sess: &mut Sess, cmd: &J) -> (J, J) {
    let parts = parts(sess, cmd);
    let barrier = Arc::new(Barrier::new(parts.len() + 1));
    let mut ends = Vec::new();
    for (mut part, ops) in parts {
        let (done, end) = channel();
        let barrier = barrier.clone();
        thread::spawn(move || {
            barrier.wait();
            let rets = ops.iter().map(|op| part.apply(op)).collect::<Vec<_>>();
            let _ = done.send(rets);
        });
        ends.push(end);
    }
    barrier.wait();
    let (mut chunks, mut rets) = (Vec::new(), Vec::new());
    let start = Instant::now();
    while !ends.is_empty() {
        match ends[0].try_recv() {
            Ok(got) => {
                rets.push(J::A(got.into_iter().map(|ret| J::A(ret.into_iter().collect())).collect()));
                ends.remove(0);
            }
            Err(_) if start.elapsed() > PATIENCE => stuck(),
            Err(_) => {}
        }
        let chunk = sess.drain();
        if !chunk.is_empty() {
            chunks.push(J::of_bytes(&chunk));
        }
    }
    let chunk = sess.drain();
    if !chunk.is_empty() {
        chunks.push(J::of_bytes(&chunk));
    }
    (J::A(chunks), J::A(rets))
}

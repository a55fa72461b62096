//! A bus with all of its endpoints in this process, observed through the public API only.

use ipmb::{EndpointReceiver, EndpointSender, Label, LabelOp, Message, MessageBox, Options, RecvError, Selector, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    fs::File,
    io::Read,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Condvar, Mutex, OnceLock,
    },
    thread::{self, JoinHandle},
    time::Duration,
};
use type_uuid::TypeUuid;

use crate::interpose::real_now;

// ------------------------------------------------------------------ generated expressions

/// A serializable mirror of selector expressions, with its own evaluator (the reference).
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Expr {
    T,
    F,
    L(String),
    N(Box<Expr>),
    A(Box<Expr>, Box<Expr>),
    O(Box<Expr>, Box<Expr>),
}

impl Expr {
    pub fn leaf(s: &str) -> Self {
        Expr::L(s.to_owned())
    }

    pub fn eval(&self, label: &[String]) -> bool {
        match self {
            Expr::T => true,
            Expr::F => false,
            Expr::L(s) => label.iter().any(|l| l == s),
            Expr::N(e) => !e.eval(label),
            Expr::A(a, b) => a.eval(label) & b.eval(label),
            Expr::O(a, b) => a.eval(label) | b.eval(label),
        }
    }

    pub fn op(&self) -> LabelOp {
        match self {
            Expr::T => LabelOp::True,
            Expr::F => LabelOp::False,
            Expr::L(s) => LabelOp::from(s.as_str()),
            Expr::N(e) => !e.op(),
            Expr::A(a, b) => a.op().and(b.op()),
            Expr::O(a, b) => a.op().or(b.op()),
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Expr::T | Expr::F | Expr::L(_) => 1,
            Expr::N(e) => 1 + e.size(),
            Expr::A(a, b) | Expr::O(a, b) => 1 + a.size() + b.size(),
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Expr::T | Expr::F | Expr::L(_) => 1,
            Expr::N(e) => 1 + e.depth(),
            Expr::A(a, b) | Expr::O(a, b) => 1 + a.depth().max(b.depth()),
        }
    }
}

pub fn expr_strategy(names: impl Strategy<Value = String> + 'static + Clone, depth: u32) -> BoxedStrategy<Expr> {
    let leaf = prop_oneof![1 => Just(Expr::T), 1 => Just(Expr::F), 8 => names.prop_map(Expr::L)];
    leaf.prop_recursive(depth, 24, 2, |inner| {
        prop_oneof![
            1 => inner.clone().prop_map(|e| Expr::N(Box::new(e))),
            1 => (inner.clone(), inner.clone()).prop_map(|(a, b)| Expr::A(Box::new(a), Box::new(b))),
            1 => (inner.clone(), inner).prop_map(|(a, b)| Expr::O(Box::new(a), Box::new(b))),
        ]
    })
    .boxed()
}

/// Short names used by the routing histories, overlapping as substrings
pub const NAMES: [&str; 6] = ["a", "b", "c", "ab", "A", "d"];

pub fn name_strategy() -> BoxedStrategy<String> {
    prop_oneof![
        5 => Just("a"), 5 => Just("b"), 4 => Just("c"), 2 => Just("ab"), 1 => Just("A"), 2 => Just("d")
    ]
    .prop_map(|s| s.to_owned())
    .boxed()
}

pub fn label_strategy() -> BoxedStrategy<Vec<String>> {
    prop::collection::vec(name_strategy(), 0..4)
        .prop_map(|v| {
            let mut out: Vec<String> = vec![];
            for s in v {
                if !out.contains(&s) {
                    out.push(s);
                }
            }
            out
        })
        .boxed()
}

pub fn make_label(l: &[String]) -> Label {
    Label::from(l)
}

// ------------------------------------------------------------------ message types

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6a01"]
pub struct Tagged {
    pub seq: u64,
    pub from: u16,
    pub lane: u16,
    #[serde(with = "serde_bytes")]
    pub body: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6a02"]
pub struct Fence {
    pub n: u64,
}

/// A value which cannot be serialized, after part of it has been
#[derive(Debug, Clone, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6a03"]
pub struct Unencodable {
    pub n: u32,
}

impl Serialize for Unencodable {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeTuple};
        let mut t = s.serialize_tuple(self.n as usize + 1)?;
        for i in 0..self.n {
            t.serialize_element(&i)?;
        }
        Err(S::Error::custom("this value has no encoding"))
    }
}

#[derive(MessageBox)]
pub enum Msg {
    Tagged(Tagged),
    Fence(Fence),
    Bytes(ipmb::BytesMessage),
    Unencodable(Unencodable),
}

/// Deterministic filler
pub fn body(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(len);
    v
}

// ------------------------------------------------------------------ names

pub fn unique() -> u64 {
    static RAND: OnceLock<u64> = OnceLock::new();
    static N: AtomicU64 = AtomicU64::new(0);
    let r = *RAND.get_or_init(|| {
        let mut b = [0u8; 8];
        File::open("/dev/urandom").unwrap().read_exact(&mut b).unwrap();
        u64::from_le_bytes(b) & 0xffff_ffff_ffff
    });
    r.wrapping_mul(1 << 16).wrapping_add(N.fetch_add(1, SeqCst))
}

/// A bus identifier which no other case and no other process uses
pub fn fresh_identifier() -> String {
    format!("vh.{}.{:x}", std::process::id(), unique())
}

// ------------------------------------------------------------------ errors

/// How a case can end without passing
#[derive(Debug, Clone)]
pub enum Bad {
    /// The property is violated, certain from the observed values
    Fail(String),
    /// Something that should happen didn't within a generous time
    Slow(String),
    /// Known finding with this signature
    Known(String, String),
    /// The case could not be executed
    Skip(String),
}

pub type Res<T = ()> = Result<T, Bad>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::bus::Bad::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::bus::Bad::Fail(format!($($t)*))) } };
}

/// The time after which something that usually takes less than a millisecond is suspicious
pub const PATIENCE: Duration = Duration::from_secs(8);

// ------------------------------------------------------------------ readers

pub enum Event<R> {
    Msg(Message<R>),
    Decode(String),
    Error(String),
}

struct Shared<R> {
    queue: Mutex<Vec<Event<R>>>,
    cond: Condvar,
    stop: AtomicBool,
    pace: AtomicU64,
    stall: AtomicU64,
}

/// How a reader receives
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    /// With a limit of 10 ms
    Short,
    /// Without limit
    Never,
    /// With a limit that doesn't pass
    Long,
    /// Without waiting
    Poll,
}

impl Mode {
    /// Of the endpoint with that index
    pub fn of(modes: &[u8], idx: usize) -> Self {
        if modes.is_empty() {
            return Mode::Short;
        }
        match modes[idx % modes.len()] % 4 {
            0 => Mode::Short,
            1 => Mode::Never,
            2 => Mode::Long,
            _ => Mode::Poll,
        }
    }

    pub fn waits(self) -> bool {
        matches!(self, Mode::Never | Mode::Long)
    }
}

pub fn modes_strategy() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![]).boxed(), 1 => prop::collection::vec(0u8..4, 1..5).boxed()].boxed()
}

/// A thread receiving everything that arrives at an endpoint
pub struct Reader<R: MessageBox> {
    shared: Arc<Shared<R>>,
    thread: Option<JoinHandle<EndpointReceiver<R>>>,
    pub mode: Mode,
}

impl<R: MessageBox> Reader<R> {
    pub fn spawn(rx: EndpointReceiver<R>) -> Self
    where
        R: Send,
    {
        Self::spawn_as(rx, Mode::Short, |_| false)
    }

    /// Receiving in that manner, some messages are only there to wake it
    pub fn spawn_as(mut rx: EndpointReceiver<R>, mode: Mode, ignore: fn(&R) -> bool) -> Self
    where
        R: Send,
    {
        let limit = match mode {
            Mode::Short => Some(Duration::from_millis(10)),
            Mode::Never => None,
            Mode::Long => Some(Duration::from_secs(40 * 24 * 3600)),
            Mode::Poll => Some(Duration::ZERO),
        };
        let shared = Arc::new(Shared {
            queue: Mutex::new(vec![]),
            cond: Condvar::new(),
            stop: AtomicBool::new(false),
            pace: AtomicU64::new(0),
            stall: AtomicU64::new(0),
        });
        let s = shared.clone();
        let thread = thread::Builder::new()
            .name("reader".into())
            .spawn(move || {
                while !s.stop.load(SeqCst) {
                    let ms = s.stall.swap(0, SeqCst);
                    if ms > 0 {
                        thread::sleep(Duration::from_millis(ms));
                        if s.stop.load(SeqCst) {
                            break;
                        }
                    }
                    let ev = match rx.recv(limit) {
                        Ok(m) if ignore(&m.payload) => continue,
                        Ok(m) => Event::Msg(m),
                        Err(RecvError::Timeout) => {
                            if mode == Mode::Poll {
                                thread::sleep(Duration::from_micros(200));
                            }
                            continue;
                        }
                        Err(RecvError::Decode(e)) => Event::Decode(e.to_string()),
                        Err(e) => {
                            thread::sleep(Duration::from_millis(5));
                            Event::Error(e.to_string())
                        }
                    };
                    s.queue.lock().unwrap().push(ev);
                    s.cond.notify_all();
                    let us = s.pace.load(SeqCst);
                    if us > 0 {
                        thread::sleep(Duration::from_micros(us));
                    }
                }
                rx
            })
            .unwrap();
        Self { shared, thread: Some(thread), mode }
    }

    /// Sleep that long after each message
    pub fn pace(&self, us: u64) {
        self.shared.pace.store(us, SeqCst);
    }

    /// Don't receive for that long
    pub fn stall(&self, ms: u64) {
        self.shared.stall.store(ms, SeqCst);
    }

    /// Wait until the predicate holds for the queue of events
    pub fn wait<T>(&self, patience: Duration, mut f: impl FnMut(&mut Vec<Event<R>>) -> Option<T>) -> Option<T> {
        let end = real_now() + patience;
        let mut q = self.shared.queue.lock().unwrap();
        loop {
            if let Some(t) = f(&mut q) {
                return Some(t);
            }
            if real_now() >= end {
                return None;
            }
            q = self.shared.cond.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
        }
    }

    pub fn take(&self) -> Vec<Event<R>> {
        std::mem::take(&mut *self.shared.queue.lock().unwrap())
    }

    pub fn stop_soon(&self) {
        self.shared.stop.store(true, SeqCst);
    }

    /// It stops as soon as this made a message arrive
    pub fn wake(&self, mut send: impl FnMut()) {
        self.shared.stop.store(true, SeqCst);
        let end = real_now() + PATIENCE;
        while self.mode.waits() && !self.thread.as_ref().unwrap().is_finished() && real_now() < end {
            send();
            let soon = real_now() + Duration::from_millis(50);
            while !self.thread.as_ref().unwrap().is_finished() && real_now() < soon {
                thread::sleep(Duration::from_micros(100));
            }
        }
    }

    /// Stop reading and give back the receiver
    pub fn stop(mut self) -> (EndpointReceiver<R>, Vec<Event<R>>) {
        self.shared.stop.store(true, SeqCst);
        let rx = self.thread.take().unwrap().join().unwrap();
        let q = self.take();
        (rx, q)
    }
}

impl<R: MessageBox> Drop for Reader<R> {
    fn drop(&mut self) {
        self.shared.stop.store(true, SeqCst);
        if let Some(t) = self.thread.take() {
            // there's nothing that would wake it
            if !self.mode.waits() || t.is_finished() {
                let _ = t.join();
            }
        }
    }
}

// ------------------------------------------------------------------ world

pub struct Ep {
    pub idx: usize,
    pub label: Vec<String>,
    pub sender: Option<EndpointSender<Msg>>,
    pub reader: Option<Reader<Msg>>,
    pub host: bool,
}

impl Ep {
    pub fn live(&self) -> bool {
        self.reader.is_some()
    }
}

/// A bus, its first endpoint hosts it
pub struct World {
    pub identifier: String,
    pub token: String,
    pub eps: Vec<Ep>,
    /// How the endpoints receive
    pub modes: Vec<u8>,
    /// Not only the first one
    pub all_may_host: bool,
    fence: u64,
}

pub struct Got {
    pub ep: usize,
    pub msg: Message<Msg>,
}

pub fn join_options(identifier: &str, token: &str, label: &[String], affinity: bool) -> Options {
    let mut o = Options::new(identifier, make_label(label), token);
    o.controller_affinity = affinity;
    o
}

impl World {
    pub fn new(token: &str) -> Self {
        Self { identifier: fresh_identifier(), token: token.to_owned(), eps: vec![], modes: vec![], all_may_host: false, fence: 0 }
    }

    /// Returns the index of the new endpoint
    pub fn join(&mut self, label: &[String]) -> Res<usize> {
        self.join_unread(label).map(|(idx, rx)| {
            let mode = Mode::of(&self.modes, idx);
            self.eps[idx].reader = Some(Reader::spawn_as(rx, mode, |m| matches!(m, Msg::Fence(f) if f.n == 0)));
            idx
        })
    }

    pub fn join_unread(&mut self, label: &[String]) -> Res<(usize, EndpointReceiver<Msg>)> {
        let idx = self.eps.len();
        let opts = join_options(&self.identifier, &self.token, label, idx == 0 || self.all_may_host);
        match ipmb::join::<Msg, Msg>(opts, Some(PATIENCE)) {
            Ok((tx, rx)) => {
                self.eps.push(Ep { idx, label: label.to_vec(), sender: Some(tx), reader: None, host: idx == 0 });
                Ok((idx, rx))
            }
            Err(ipmb::JoinError::Timeout) => Err(Bad::Slow("join timed out".into())),
            Err(e) => Err(Bad::Fail(format!("join: {e}"))),
        }
    }

    pub fn refused_join(&self) -> Res {
        let token = format!("{}x", self.token);
        let opts = join_options(&self.identifier, &token, &["a".to_owned(), "b".to_owned()], false);
        match ipmb::join::<Msg, Msg>(opts, Some(PATIENCE)) {
            Ok(_) => Err(Bad::Fail("admitted with a wrong token".into())),
            Err(ipmb::JoinError::TokenMismatch) => Ok(()),
            Err(ipmb::JoinError::Timeout) => Err(Bad::Slow("a join with a wrong token timed out".into())),
            Err(e) => Err(Bad::Fail(format!("join with a wrong token: {e}"))),
        }
    }

    pub fn live(&self) -> Vec<usize> {
        self.eps.iter().filter(|e| e.live()).map(|e| e.idx).collect()
    }

    pub fn matching(&self, e: &Expr) -> Vec<usize> {
        self.eps.iter().filter(|ep| ep.live() && e.eval(&ep.label)).map(|ep| ep.idx).collect()
    }

    /// Drop the receiving half
    pub fn close_reader(&mut self, i: usize) -> Vec<Event<Msg>> {
        match self.eps[i].reader.take() {
            Some(r) => {
                if r.mode.waits() {
                    self.wake(&r, i);
                }
                let (rx, q) = r.stop();
                drop(rx);
                q
            }
            None => vec![],
        }
    }

    /// Send it something that is ignored by all readers
    fn wake(&self, r: &Reader<Msg>, i: usize) {
        let is = |n: &str| self.eps[i].label.iter().any(|l| l == n);
        // only endpoints with the very same label notice
        let mut e = Expr::T;
        for n in NAMES {
            let l = Expr::leaf(n);
            e = Expr::A(Box::new(e), Box::new(if is(n) { l } else { Expr::N(Box::new(l)) }));
        }
        for l in self.eps[i].label.iter().filter(|l| !NAMES.contains(&l.as_str())) {
            e = Expr::A(Box::new(e), Box::new(Expr::leaf(l)));
        }
        let mut own = self.eps[i].sender.as_ref().or_else(|| self.eps.iter().find_map(|e| e.sender.as_ref())).cloned();
        r.wake(|| {
            if own.is_none() {
                let o = join_options(&self.identifier, &self.token, &["waker".to_owned()], false);
                own = ipmb::join::<Msg, Msg>(o, Some(PATIENCE)).ok().map(|x| x.0);
            }
            if let Some(tx) = &own {
                let _ = tx.send(Message::new(selector(SelectorMode::Multicast, &e, 0), Msg::Fence(Fence { n: 0 })));
            }
        });
    }

    pub fn leave(&mut self, i: usize) {
        self.close_reader(i);
        self.eps[i].sender = None;
    }

    pub fn send(&self, from: usize, selector: Selector, msg: Msg) -> Res {
        self.send_message(from, Message::new(selector, msg))
    }

    pub fn send_message(&self, from: usize, m: Message<Msg>) -> Res {
        match self.eps[from].sender.as_ref().unwrap().send(m) {
            Ok(()) => Ok(()),
            Err(e) => Err(Bad::Fail(format!("send from endpoint {from}: {e}"))),
        }
    }

    /// Wait until everything sent before by endpoint `from` has been routed and received, and
    /// return it. Everything routed by the bus before is included, too.
    pub fn fence(&mut self, from: usize) -> Res<Vec<Got>> {
        self.fence += 1;
        let n = self.fence;
        let mut sel = Selector::multicast(LabelOp::True);
        sel.ttl = Duration::ZERO;
        self.send(from, sel, Msg::Fence(Fence { n }))?;
        let mut got = vec![];
        if self.live().is_empty() {
            // nobody can observe the fence; two refused attempts to join come after it in the queue
            for _ in 0..2 {
                self.refused_join()?;
            }
        }
        for ep in self.eps.iter().filter(|ep| ep.live()) {
            let mut seen = 0;
            let mut bad = None;
            let r = ep.reader.as_ref().unwrap().wait(PATIENCE, |q| {
                // newest events are enough, but the queue is short
                seen = q
                    .iter()
                    .filter(|e| matches!(e, Event::Msg(m) if matches!(&m.payload, Msg::Fence(f) if f.n == n)))
                    .count();
                if let Some(Event::Error(e)) = q.iter().find(|e| matches!(e, Event::Error(_))) {
                    bad = Some(e.clone());
                    return Some(());
                }
                (seen > 0).then_some(())
            });
            if let Some(e) = bad {
                fail!("endpoint {} got an error from recv: {}", ep.idx, e);
            }
            if r.is_none() {
                return Err(Bad::Slow(format!(
                    "a multicast to all sent by endpoint {from} did not reach endpoint {} ({:?})",
                    ep.idx, ep.label
                )));
            }
            ensure!(seen == 1, "endpoint {} received the multicast {n} {seen} times", ep.idx);
            for e in ep.reader.as_ref().unwrap().take() {
                match e {
                    Event::Msg(msg) => {
                        if let Msg::Fence(f) = &msg.payload {
                            if f.n == n {
                                continue;
                            }
                            fail!("endpoint {} received the multicast {} again or late (at {n})", ep.idx, f.n);
                        }
                        got.push(Got { ep: ep.idx, msg });
                    }
                    Event::Decode(e) => fail!("endpoint {}: unexpected decode error {e}", ep.idx),
                    Event::Error(e) => fail!("endpoint {}: unexpected error {e}", ep.idx),
                }
            }
        }
        Ok(got)
    }

    /// Everybody leaves, the hosting endpoint last
    pub fn finish(&mut self) {
        for e in &self.eps {
            if let Some(r) = &e.reader {
                r.stop_soon();
            }
        }
        for i in (0..self.eps.len()).rev() {
            self.leave(i);
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.finish();
    }
}

pub fn selector(mode: SelectorMode, e: &Expr, ttl_ms: u64) -> Selector {
    let mut s = match mode {
        SelectorMode::Unicast => Selector::unicast(e.op()),
        SelectorMode::Multicast => Selector::multicast(e.op()),
    };
    s.ttl = Duration::from_millis(ttl_ms);
    s
}

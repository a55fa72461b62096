//! C22: signals and delays at system calls, under the oracles of other properties.

use super::{concurrency, objects, payload, routing, timing};
use crate::{
    bus::Res,
    def::{Cx, Prop},
    interpose::{self, raw6},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Once,
    },
    thread,
    time::Duration,
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Inner {
    Concurrent(<concurrency::Order as Prop>::Case),
    Routing(<routing::Multicast as Prop>::Case),
    Unicast(<routing::Unicast as Prop>::Case),
    Waiting(<routing::Ttl as Prop>::Case),
    Departing(<routing::Departure as Prop>::Case),
    Counts(<objects::RefCount as Prop>::Case),
    Objects(<objects::Objects as Prop>::Case),
    Payload(<payload::Payload as Prop>::Case),
    Limits(<timing::Limits as Prop>::Case),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    inner: Inner,
    seed: u64,
    /// Per mille of the calls
    eintr: u16,
    delay: u16,
    /// Microseconds between real signals sent to random threads, 0: none
    signals: u16,
}

pub struct Interrupted;

static HANDLED: AtomicU64 = AtomicU64::new(0);

extern "C" fn handler(_: i32) {
    HANDLED.fetch_add(1, SeqCst);
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = handler as *const () as usize;
        // without SA_RESTART
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    });
}

/// Sends signals to the threads of this process until dropped
struct Storm {
    stop: Arc<AtomicBool>,
    thread: Option<thread::JoinHandle<()>>,
}

impl Storm {
    fn start(seed: u64, pause: u16) -> Self {
        let stop = Arc::new(AtomicBool::new(false));
        let s = stop.clone();
        let thread = (pause > 0).then(|| {
            thread::spawn(move || unsafe {
                let pid = libc::getpid();
                let me = raw6(libc::SYS_gettid, 0, 0, 0, 0, 0, 0);
                let mut x = seed | 1;
                let mut tids: Vec<i64> = vec![];
                let mut k = 0u32;
                while !s.load(SeqCst) {
                    if k % 16 == 0 {
                        tids = std::fs::read_dir("/proc/self/task")
                            .map(|d| d.flatten().filter_map(|e| e.file_name().to_string_lossy().parse().ok()).filter(|t| *t != me).collect())
                            .unwrap_or_default();
                    }
                    k += 1;
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    if !tids.is_empty() {
                        let t = tids[(x >> 20) as usize % tids.len()];
                        raw6(libc::SYS_tgkill, pid as i64, t, libc::SIGUSR1 as i64, 0, 0, 0);
                    }
                    thread::sleep(Duration::from_micros(pause as u64));
                }
            })
        });
        Storm { stop, thread }
    }
}

impl Drop for Storm {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

impl Prop for Interrupted {
    const ID: &'static str = "C22";
    const RULE: &'static str = "cases of C03, C04, C05, C06, C07, C09, C12, C16 and C19 with their full oracles while system calls of all threads (hosting thread included) fail with EINTR with probability 0..0.5 (at most 4 times in a row) before doing anything, are delayed at random, and real signals with a handler without SA_RESTART are sent to random threads; non-trivial: the inner case was non-trivial and at least 3 calls were interrupted or signals handled";
    type Case = Case;
    const CASES: (usize, usize) = (2400, 60_000);
    const SHARDS: usize = 16;
    const RECYCLE: usize = 60;
    const LIMIT: u64 = 120;

    fn strategy(t: bool) -> BoxedStrategy<Case> {
        let inner = prop_oneof![
            3 => concurrency::Order::strategy(t).prop_map(Inner::Concurrent),
            1 => routing::Multicast::strategy(t).prop_map(Inner::Routing),
            1 => routing::Unicast::strategy(t).prop_map(Inner::Unicast),
            1 => routing::Ttl::strategy(t).prop_map(Inner::Waiting),
            1 => routing::Departure::strategy(t).prop_map(Inner::Departing),
            2 => objects::RefCount::strategy(t).prop_map(Inner::Counts),
            1 => objects::Objects::strategy(t).prop_map(Inner::Objects),
            1 => payload::Payload::strategy(t).prop_map(Inner::Payload),
            2 => timing::Limits::strategy(t).prop_map(Inner::Limits),
        ];
        (
            inner,
            any::<u64>(),
            prop_oneof![1 => Just(0u16), 3 => 1u16..100, 2 => 100u16..500],
            prop_oneof![1 => Just(0u16), 2 => 1u16..120],
            prop_oneof![1 => Just(0u16), 2 => 50u16..1000],
        )
            .prop_map(|(inner, seed, eintr, delay, signals)| Case { inner, seed, eintr, delay, signals })
            .boxed()
    }

    fn run(c: &Case, cx: &mut Cx) -> Res {
        install();
        let before = HANDLED.load(SeqCst);
        interpose::arm(c.seed, c.eintr as u64, c.delay as u64);
        let storm = Storm::start(c.seed, c.signals);
        let r = match &c.inner {
            Inner::Concurrent(i) => concurrency::Order::run(i, cx),
            Inner::Routing(i) => routing::Multicast::run(i, cx),
            Inner::Unicast(i) => routing::Unicast::run(i, cx),
            Inner::Waiting(i) => routing::Ttl::run(i, cx),
            Inner::Departing(i) => routing::Departure::run(i, cx),
            Inner::Counts(i) => objects::RefCount::run(i, cx),
            Inner::Objects(i) => objects::Objects::run(i, cx),
            Inner::Payload(i) => payload::Payload::run(i, cx),
            Inner::Limits(i) => timing::Limits::run(i, cx),
        };
        drop(storm);
        let (_, eintrs, delays) = interpose::disarm();
        let handled = HANDLED.load(SeqCst) - before;
        r?;
        let what = match &c.inner {
            Inner::Concurrent(_) => "concurrent traffic",
            Inner::Routing(_) | Inner::Unicast(_) => "routing",
            Inner::Waiting(_) => "waiting messages",
            Inner::Departing(_) => "departures",
            Inner::Counts(_) => "reference counts",
            Inner::Objects(_) => "objects",
            Inner::Payload(_) => "payloads",
            Inner::Limits(_) => "time limits",
        };
        cx.class_if(eintrs > 0, &format!("EINTR: {what}"));
        cx.class_if(handled > 0, &format!("signals: {what}"));
        cx.class_if(delays > 0, &format!("delays: {what}"));
        cx.nontrivial &= eintrs as u64 + handled >= 3;
        Ok(())
    }
}

//! C16: time limits, in real time.

use crate::{
    agent::{Agent, Order, Report},
    bus::{fresh_identifier, join_options, selector, Bad, Expr, Fence, Msg, Res, Tagged, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::real_now,
    raw::{self, Ack},
};
use ipmb::{EndpointReceiver, EndpointSender, JoinError, LabelOp, Message, MessageBox, RecvError, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    os::fd::{AsRawFd, OwnedFd},
    sync::atomic::{AtomicBool, Ordering::SeqCst},
    thread,
    time::Duration,
};

/// Receives fences only, messages of other types are ignored
#[derive(MessageBox)]
pub enum OnlyFence {
    Fence(Fence),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Limit {
    None,
    Nanos(u64),
    Max,
    Seconds(u64),
}

impl Limit {
    fn get(&self) -> Option<Duration> {
        match self {
            Limit::None => None,
            Limit::Nanos(n) => Some(Duration::from_nanos(*n)),
            Limit::Max => Some(Duration::MAX),
            Limit::Seconds(s) => Some(Duration::from_secs(*s)),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Timing {
    /// Receive once per element: limit, microseconds after which a message is sent (None: never),
    /// whether it is there before the call; ignored messages arrive every so many microseconds
    Recv { host: bool, calls: Vec<(Limit, Option<u32>, bool)>, ignored: Option<u16> },
    /// Nobody hosts; several attempts on the same identifier
    JoinNobody { limits: Vec<u64> },
    /// Somebody hosts
    JoinBus { limit: Limit, affinity: bool },
    /// Somebody starts to host after that many milliseconds
    JoinLater { after: u16, limit: Limit },
    /// The bus disappears and the endpoint may not host; receive with these limits (nanoseconds),
    /// then the bus returns
    BusGone {
        limits: Vec<u64>,
        affinity: bool,
        back: bool,
        /// Milliseconds before (negative) or after the bus disappears when another thread sends
        #[serde(default)]
        sending: Option<i8>,
        /// The bus disappears this many milliseconds after the first recv
        #[serde(default)]
        during: Option<u16>,
    },
    /// The process hosting the bus is killed and another one hosts, the endpoint joins it by
    /// sending or receiving; then it receives with these limits. A process forked from the one of
    /// the endpoint may hold duplicates of everything.
    Rejoined { fork: bool, by_sending: bool, limits: Vec<u64> },
}

/// How much later than the limit is suspicious
const SLACK: Duration = Duration::from_millis(700);

pub struct Limits;

struct Timed<R> {
    r: R,
    took: Duration,
}

fn timed<R>(f: impl FnOnce() -> R) -> Timed<R> {
    let t = real_now();
    let r = f();
    Timed { r, took: real_now() - t }
}

fn expired(what: &str, took: Duration, limit: Duration) -> Res {
    ensure!(took >= limit, "{what} with the limit {limit:?} reported a timeout after {took:?}");
    if took > limit + SLACK {
        return Err(Bad::Slow(format!("{what} with the limit {limit:?} reported a timeout after {took:?} only")));
    }
    Ok(())
}

fn join<T: MessageBox, R: MessageBox>(id: &str, label: &str, affinity: bool, limit: Option<Duration>) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
    ipmb::join::<T, R>(join_options(id, "t", &[label.to_owned()], affinity), limit)
}

fn slow_join(e: JoinError) -> Bad {
    match e {
        JoinError::Timeout => Bad::Slow("join timed out".into()),
        e => Bad::Fail(format!("join: {e}")),
    }
}

fn fence_msg(to: &str, n: u64) -> Message<Msg> {
    Message::new(selector(SelectorMode::Multicast, &Expr::leaf(to), 0), Msg::Fence(Fence { n }))
}

fn recv_calls(host: bool, calls: &[(Limit, Option<u32>, bool)], ignored: Option<u16>, cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let mine;
    let other: (EndpointSender<Msg>, EndpointReceiver<Msg>);
    if host {
        mine = join::<Msg, OnlyFence>(&id, "me", true, Some(PATIENCE)).map_err(slow_join)?;
        other = join(&id, "other", false, Some(PATIENCE)).map_err(slow_join)?;
    } else {
        // joins first, messages are routed to it before the others
        let hosting = join::<Msg, Msg>(&id, "host", true, Some(PATIENCE)).map_err(slow_join)?;
        mine = join::<Msg, OnlyFence>(&id, "me", false, Some(PATIENCE)).map_err(slow_join)?;
        other = join(&id, "other", false, Some(PATIENCE)).map_err(slow_join)?;
        // nothing is sent to it
        std::mem::forget(hosting);
    }
    let (_tx, mut rx) = mine;
    let (tx, mut rx2) = other;
    let mut n = 0;
    for (limit, send_after, before) in calls {
        let limit = limit.get();
        let send_after = match (send_after, limit) {
            // something has to happen
            (None, None) => Some(1000),
            (None, Some(l)) if l > Duration::from_secs(60) => Some(1000),
            (s, _) => *s,
        };
        n += 1;
        if *before {
            // routed twice through the bus: everything before has been delivered
            tx.send(fence_msg("me", n)).map_err(|e| Bad::Fail(format!("send: {e}")))?;
            for _ in 0..2 {
                tx.send(fence_msg("other", 0)).map_err(|e| Bad::Fail(format!("send: {e}")))?;
                rx2.recv(Some(PATIENCE)).map_err(|_| Bad::Slow("a message was not received".into()))?;
            }
        }
        let stop = AtomicBool::new(false);
        let t0 = real_now();
        let sent_at = std::sync::Mutex::new(None);
        let (res, took) = thread::scope(|s| {
            let (tx, stop, sent_at) = (&tx, &stop, &sent_at);
            if let Some(us) = ignored {
                s.spawn(move || {
                    let mut seq = 0;
                    while !stop.load(SeqCst) && real_now() - t0 < Duration::from_secs(5) {
                        seq += 1;
                        let m = Msg::Tagged(Tagged { seq, from: 0, lane: 0, body: vec![] });
                        let _ = tx.send(Message::new(selector(SelectorMode::Unicast, &Expr::leaf("me"), 0), m));
                        thread::sleep(Duration::from_micros(us.max(50) as u64));
                    }
                });
            }
            if let (false, Some(us)) = (before, send_after) {
                s.spawn(move || {
                    thread::sleep(Duration::from_micros(us as u64));
                    *sent_at.lock().unwrap() = Some(real_now());
                    let _ = tx.send(fence_msg("me", n));
                });
            }
            let t = timed(|| rx.recv(limit));
            stop.store(true, SeqCst);
            (t.r, t.took)
        });
        let sent = !before && send_after.is_some();
        match res {
            Ok(m) => {
                let OnlyFence::Fence(f) = m.payload;
                ensure!(*before || sent, "received message {} which was not sent", f.n);
                ensure!(f.n == n, "received message {} instead of {n}", f.n);
                if *before && took > SLACK {
                    return Err(Bad::Slow(format!("an available message was returned after {took:?}")));
                }
                if sent && took > Duration::from_micros(send_after.unwrap() as u64) + SLACK {
                    return Err(Bad::Slow(format!("a message sent after {send_after:?} us was returned after {took:?}")));
                }
                cx.class(if *before { "message available" } else { "message arrived during the call" });
            }
            Err(RecvError::Timeout) => {
                let Some(limit) = limit else { fail!("recv without limit reported a timeout after {took:?}") };
                ensure!(!*before, "recv with the limit {limit:?} reported a timeout although a message was available");
                expired("recv", took, limit)?;
                cx.class_if(ignored.is_some() && took > Duration::from_millis(5), "timeout despite ignored messages");
                cx.class_if(limit < Duration::from_millis(1), "limit below a millisecond");
                cx.class(if host { "timeout of the hosting endpoint" } else { "timeout of another endpoint" });
                cx.nontrivial = true;
                if sent {
                    // it may have arrived just after
                    let at = sent_at.lock().unwrap().unwrap();
                    if at + SLACK < t0 + limit {
                        return Err(Bad::Slow(format!("a message sent {:?} before the limit was not returned", t0 + limit - at)));
                    }
                    match rx.recv(Some(PATIENCE)) {
                        Ok(m) => {
                            let OnlyFence::Fence(f) = m.payload;
                            ensure!(f.n == n, "received message {} instead of {n}", f.n)
                        }
                        Err(e) => return Err(Bad::Slow(format!("a message sent around the limit was lost: {e}"))),
                    }
                    cx.class("message arrived after the limit");
                }
            }
            Err(e) => fail!("recv: {e}"),
        }
    }
    if host {
        // its process goes on hosting
        drop(rx2);
    }
    Ok(())
}

/// Admit one endpoint to a bus made by hand
fn admit(listener: &OwnedFd) -> Res<(OwnedFd, OwnedFd)> {
    let slow = |e: std::io::Error| Bad::Slow(format!("the joining endpoint: {e}"));
    let sock = raw::accept(listener.as_raw_fd(), PATIENCE).map_err(slow)?;
    let Some((_, mut fds)) = raw::recv(sock.as_raw_fd(), PATIENCE).map_err(slow)? else { fail!("the endpoint hung up") };
    ensure!(fds.len() == 1, "strange connect message");
    let reply = fds.remove(0);
    let s = raw::RawSelector::new(LabelOp::True, SelectorMode::Unicast, raw::CONNECT_ACK);
    raw::send(reply.as_raw_fd(), &raw::message(&s, &ipmb::encode(Ack::Ok([7; 16])).unwrap()), &[]).expect("reply");
    Ok((sock, reply))
}

fn bus_gone(limits: &[u64], affinity: bool, back: bool, sending: Option<i8>, during: Option<u16>, cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let listener = raw::listen(&id).expect("listen");
    let id2 = id.clone();
    let t = thread::spawn(move || join::<Msg, OnlyFence>(&id2, "me", affinity, Some(PATIENCE)));
    let (sock, reply) = admit(&listener)?;
    let (tx, mut rx) = t.join().unwrap().map_err(slow_join)?;
    if let Some(ms) = sending {
        // sends until the bus has gone, and then until it has come back
        let tx = tx.clone();
        let gone = std::sync::Arc::new(AtomicBool::new(false));
        let gone2 = gone.clone();
        thread::spawn(move || {
            let msg = || Message::new(selector(SelectorMode::Unicast, &Expr::leaf("nobody"), 0), Msg::Tagged(Tagged { seq: 0, from: 0, lane: 0, body: vec![] }));
            if ms < 0 {
                while !gone2.load(SeqCst) {
                    if tx.send(msg()).is_err() {
                        return;
                    }
                    thread::sleep(Duration::from_micros(100));
                }
            } else {
                thread::sleep(Duration::from_millis(ms as u64));
            }
            let _ = tx.send(msg());
        });
        thread::sleep(Duration::from_millis((-ms).clamp(0, 50) as u64));
        drop((listener, sock, reply));
        gone.store(true, SeqCst);
        cx.class("another thread sends without a bus");
    } else if let Some(ms) = during {
        thread::spawn(move || {
            thread::sleep(Duration::from_millis(ms as u64));
            drop((listener, sock, reply));
        });
        cx.class("the bus disappears while receiving");
    } else {
        drop((listener, sock, reply));
    }
    let r = bus_gone_limits(&id, &mut rx, limits, back, cx);
    // the other thread may be waiting for a bus
    std::mem::forget(rx);
    r
}

fn bus_gone_limits(id: &str, rx: &mut EndpointReceiver<OnlyFence>, limits: &[u64], back: bool, cx: &mut Cx) -> Res {
    for l in limits {
        let limit = Duration::from_nanos(*l);
        let t = timed(|| rx.recv(Some(limit)));
        match t.r {
            Err(RecvError::Timeout) => expired("recv without a bus", t.took, limit)?,
            Err(e) => fail!("recv without a bus: {e}"),
            Ok(_) => fail!("recv without a bus returned a message"),
        }
        cx.class("timeout without a bus");
        cx.nontrivial = true;
    }
    if back {
        let (tx, _rx) = join::<Msg, Msg>(id, "x", true, Some(PATIENCE)).map_err(slow_join)?;
        let mut s = selector(SelectorMode::Unicast, &Expr::leaf("me"), 0);
        s.ttl = Duration::from_secs(1000);
        tx.send(Message::new(s, Msg::Fence(Fence { n: 5 }))).map_err(|e| Bad::Fail(format!("send: {e}")))?;
        match rx.recv(Some(PATIENCE)) {
            Ok(_) => cx.class("bus came back"),
            Err(RecvError::Timeout) => return Err(Bad::Slow("the endpoint did not join the bus which came back".into())),
            Err(e) => fail!("recv after the bus came back: {e}"),
        }
    }
    Ok(())
}

/// A copy of this process which does nothing
struct Forked(i32);

impl Forked {
    fn new() -> Self {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                loop {
                    libc::pause();
                }
            }
            assert!(pid > 0, "fork");
            Forked(pid)
        }
    }
}

impl Drop for Forked {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.0, libc::SIGKILL);
            libc::waitpid(self.0, std::ptr::null_mut(), 0);
        }
    }
}

fn host_agent(id: &str) -> Result<Agent, Bad> {
    let mut a = Agent::spawn();
    a.tell(&Order::Join { identifier: id.into(), token: "t".into(), label: vec!["x".into()], affinity: true, limit: None, deaf: false });
    match a.wait(PATIENCE, |q| q.iter().find(|r| matches!(r, Report::Joined | Report::JoinFailed(_) | Report::Panic(_))).cloned()) {
        Some(Report::Joined) => Ok(a),
        Some(r) => Err(Bad::Fail(format!("hosting: {r:?}"))),
        None => Err(Bad::Slow("hosting".into())),
    }
}

fn rejoined(fork: bool, by_sending: bool, limits: &[u64], cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let mut host = host_agent(&id)?;
    let (tx, mut rx) = join::<Msg, OnlyFence>(&id, "me", false, Some(PATIENCE)).map_err(slow_join)?;
    let _forked = fork.then(Forked::new);
    host.kill(libc::SIGKILL);
    let _host = host_agent(&id)?;
    if by_sending {
        tx.send(fence_msg("nobody", 0)).map_err(|e| Bad::Fail(format!("send: {e}")))?;
    }
    for l in limits {
        let limit = Duration::from_nanos(*l);
        let t = timed(|| rx.recv(Some(limit)));
        match t.r {
            Err(RecvError::Timeout) => expired("recv on the new bus", t.took, limit)?,
            Err(e) => fail!("recv on the new bus: {e}"),
            Ok(_) => fail!("recv on the new bus returned a message"),
        }
        cx.class("timeout on another bus");
        cx.class_if(fork, "timeout on another bus with a forked process");
        cx.nontrivial = true;
    }
    tx.send(fence_msg("me", 3)).map_err(|e| Bad::Fail(format!("send: {e}")))?;
    match rx.recv(Some(PATIENCE)) {
        Ok(_) => Ok(()),
        Err(RecvError::Timeout) => Err(Bad::Slow("a message did not arrive on the new bus".into())),
        Err(e) => Err(Bad::Fail(format!("recv on the new bus: {e}"))),
    }
}

impl Prop for Limits {
    const ID: &'static str = "C16";
    const RULE: &'static str = "real time: sequences of recv calls with random limits (zero, nanoseconds, below and around milliseconds, fractions of a second, years, the maximum, none) on the hosting or another endpoint with messages available before, arriving during, around or after the limit, with or without a stream of ignored messages; joining without anybody hosting, with somebody hosting, with somebody starting to host; receiving while or after the bus disappears, also while another thread of the endpoint sends; receiving on the bus of another process after the hosting one was killed, also with a forked process holding duplicates of the descriptors; a timeout must not be reported before the limit nor (reproducibly) more than 0.7 s after it, and no message may be lost; non-trivial: a timeout was reported";
    type Case = Timing;
    const CASES: (usize, usize) = (1600, 30_000);
    const SHARDS: usize = 16;
    const RECYCLE: usize = 60;

    fn strategy(_t: bool) -> BoxedStrategy<Timing> {
        let nanos = prop_oneof![
            2 => Just(0u64),
            1 => 1u64..1000,
            3 => 1_000u64..1_000_000,
            2 => (1u64..30, 0u64..3).prop_map(|(ms, d)| ms * 1_000_000 + d - 1),
            3 => 1_000_000u64..30_000_000,
            2 => 30_000_000u64..250_000_000,
        ];
        let nanos2 = nanos.clone();
        let limit = prop_oneof![
            12 => nanos.clone().prop_map(Limit::Nanos),
            1 => Just(Limit::None),
            1 => Just(Limit::Max),
            1 => prop::sample::select(vec![3600u64 * 24 * 24, 2147484, 4294968, 3600 * 24 * 365 * 300, i64::MAX as u64, u64::MAX, u64::MAX / 1000]).prop_map(Limit::Seconds),
        ];
        let after = prop::option::weighted(0.5, prop_oneof![2 => 0u32..2000, 2 => 0u32..30_000, 1 => 0u32..150_000]);
        let calls = prop::collection::vec((limit.clone(), after, prop::bool::weighted(0.2)), 1..6);
        let ignored = prop::option::weighted(0.4, prop_oneof![1 => 50u16..500, 1 => 500u16..20_000]);
        let big = prop_oneof![1 => limit, 1 => Just(Limit::Max), 1 => Just(Limit::Nanos(0))];
        prop_oneof![
            24 => (any::<bool>(), calls, ignored).prop_map(|(host, calls, ignored)| Timing::Recv { host, calls, ignored }),
            5 => prop::collection::vec(nanos.clone(), 1..4).prop_map(|limits| Timing::JoinNobody { limits }),
            3 => (big, any::<bool>()).prop_map(|(limit, affinity)| Timing::JoinBus { limit, affinity }),
            1 => (0u16..300, prop_oneof![Just(Limit::None), Just(Limit::Seconds(5)), Just(Limit::Max)]).prop_map(|(after, limit)| Timing::JoinLater { after, limit }),
            5 => (prop::collection::vec(nanos, 1..4), any::<bool>(), prop::bool::weighted(0.3), prop::option::weighted(0.4, -20i8..60)).prop_map(|(limits, affinity, back, sending)| Timing::BusGone { limits, affinity, back, sending, during: None }),
            2 => (1_000_000_000u64..1_300_000_000, 0u16..300, prop::bool::weighted(0.3)).prop_map(|(limit, before, back)| Timing::BusGone { limits: vec![limit], affinity: false, back, sending: None, during: Some((limit / 1_000_000) as u16 - before) }),
            2 => (any::<bool>(), any::<bool>(), prop::collection::vec(nanos2, 1..4)).prop_map(|(fork, by_sending, limits)| Timing::Rejoined { fork, by_sending, limits }),
        ]
        .boxed()
    }

    fn run(c: &Timing, cx: &mut Cx) -> Res {
        match c {
            Timing::Recv { host, calls, ignored } => recv_calls(*host, calls, *ignored, cx),
            Timing::JoinNobody { limits } => {
                let id = fresh_identifier();
                for l in limits {
                    let limit = Duration::from_nanos(*l);
                    let t = timed(|| join::<Msg, Msg>(&id, "me", false, Some(limit)));
                    match t.r {
                        Err(JoinError::Timeout) => expired("join", t.took, limit)?,
                        Err(e) => fail!("join without anybody hosting: {e}"),
                        Ok(_) => fail!("an endpoint that declined to host joined although nobody hosts"),
                    }
                    cx.class("join timed out");
                    cx.nontrivial = true;
                }
                Ok(())
            }
            Timing::JoinBus { limit, affinity } => {
                let id = fresh_identifier();
                let _host = join::<Msg, Msg>(&id, "host", true, limit.get()).map_err(|e| Bad::Fail(format!("hosting with the limit {limit:?}: {e}")))?;
                let t = timed(|| join::<Msg, Msg>(&id, "me", *affinity, limit.get()));
                if let Err(e) = t.r {
                    fail!("joining an existing bus with the limit {limit:?}: {e}");
                }
                if t.took > SLACK {
                    return Err(Bad::Slow(format!("joining an existing bus took {:?}", t.took)));
                }
                cx.class("joined an existing bus");
                Ok(())
            }
            Timing::JoinLater { after, limit } => {
                let id = fresh_identifier();
                let id2 = id.clone();
                let l = limit.get();
                let t = thread::spawn(move || timed(|| join::<Msg, Msg>(&id2, "me", false, l)));
                thread::sleep(Duration::from_millis(*after as u64));
                let _host = join::<Msg, Msg>(&id, "host", true, Some(PATIENCE)).map_err(slow_join)?;
                let t = t.join().map_err(|_| Bad::Fail("join panicked".into()))?;
                if let Err(e) = t.r {
                    fail!("join with the limit {limit:?} while a host appeared after {after} ms: {e} after {:?}", t.took);
                }
                if t.took > Duration::from_secs(4) {
                    return Err(Bad::Slow(format!("a bus which appeared after {after} ms was joined after {:?}", t.took)));
                }
                cx.class("bus appeared while joining");
                Ok(())
            }
            Timing::BusGone { limits, affinity, back, sending, during } => bus_gone(limits, *affinity, *back, *sending, *during, cx),
            Timing::Rejoined { fork, by_sending, limits } => rejoined(*fork, *by_sending, limits, cx),
        }
    }
}

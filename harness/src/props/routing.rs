//! C03, C04, C12, C19: histories of joins, departures, sends and time, checked against a model.

use crate::{
    agent::{Agent, Order, Report},
    bus::{body, expr_strategy, label_strategy, modes_strategy, name_strategy, selector, Bad, Event, Expr, Mode, Msg, Res, Tagged, World, PATIENCE},
    def::{Cx, Prop},
    ensure, fail, interpose,
};
use ipmb::SelectorMode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    time::{Duration, Instant},
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Join { label: Vec<String> },
    /// Drop the receiver of an endpoint
    CloseRx { who: u8 },
    /// Drop the sender of an endpoint
    CloseTx { who: u8 },
    Leave { who: u8 },
    Send { from: u8, expr: Expr, uni: bool, ttl: u64, size: u32 },
    /// A selector which names exactly the labels of an endpoint
    SendTo { from: u8, to: u8, uni: bool, ttl: u64, size: u32 },
    /// Many messages for one name, with increasing time to live
    Burst { from: u8, name: String, n: u16, uni: bool, ttl: u64, step: u64 },
    /// One of the most recent selectors, after a departure, a join or both
    Again { from: u8, back: u8, leave: Option<u8>, join: Option<Vec<String>> },
    Advance { ms: u64 },
    Settle,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
    pub host: Vec<String>,
    pub ops: Vec<Op>,
    /// How the endpoints receive
    #[serde(default)]
    pub modes: Vec<u8>,
    /// Seconds between the messages sent after all have left
    #[serde(default)]
    pub late: Vec<u8>,
    /// Instead: the hosting process dies when some of its peers have closed their receivers. For
    /// each peer whether it has, and whether it's in the group
    #[serde(default)]
    pub rejoin: Vec<(bool, bool)>,
    /// Instead: many send at the same time while some drop their receivers
    #[serde(default)]
    pub crowd: Option<super::concurrency::Case>,
}

struct Waiting {
    seq: u64,
    expr: Expr,
    /// Bounds of the expiration time
    lo: Instant,
    hi: Instant,
}

struct Sent {
    expr: Expr,
    uni: bool,
    size: u32,
    /// Endpoints to which it must be delivered now; for unicast one of them
    targets: Vec<usize>,
    /// Or to these: somebody joined meanwhile
    later: Option<Vec<usize>>,
    ttl: u64,
    before: Instant,
}

pub struct Engine<'a> {
    pub w: World,
    seq: u64,
    pending: BTreeMap<usize, Vec<u64>>,
    sent: BTreeMap<u64, Sent>,
    waiting: Vec<Waiting>,
    /// Departed since the last settled state
    fresh_departure: bool,
    recent: Vec<(Expr, bool, u64)>,
    cx: &'a mut Cx,
}

fn nth(list: &[usize], k: u8) -> Option<usize> {
    if list.is_empty() {
        None
    } else {
        Some(list[k as usize * list.len() / 256])
    }
}

impl<'a> Engine<'a> {
    pub fn new(host: &[String], modes: &[u8], cx: &'a mut Cx) -> Res<Self> {
        let mut w = World::new("t");
        w.modes = modes.to_vec();
        cx.class_if(Mode::of(modes, 0).waits(), "host receives without limit");
        cx.class_if((1..4).any(|i| Mode::of(modes, i).waits()), "endpoint receives without limit");
        w.join(host)?;
        Ok(Self { w, seq: 0, pending: BTreeMap::new(), sent: BTreeMap::new(), waiting: vec![], fresh_departure: false, recent: vec![], cx })
    }

    fn senders(&self) -> Vec<usize> {
        self.w.eps.iter().filter(|e| e.sender.is_some()).map(|e| e.idx).collect()
    }

    fn check_intact(m: &ipmb::Message<Msg>, ep: usize) -> Res<(u64, usize)> {
        match &m.payload {
            Msg::Tagged(t) => {
                let Some(len) = t.body.len().checked_sub(0) else { fail!("?") };
                ensure!(t.body == body(t.seq, len), "endpoint {ep} received message {} with a corrupt body", t.seq);
                ensure!(m.objects.is_empty() && m.memory_regions.is_empty(), "endpoint {ep} received message {} with attachments", t.seq);
                Ok((t.seq, len))
            }
            _ => fail!("endpoint {ep} received a message of unexpected type"),
        }
    }

    /// Fence every endpoint with unsettled messages and compare what arrived with the model
    pub fn settle(&mut self) -> Res {
        let mut got: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        let mut order: BTreeMap<(usize, usize), Vec<u64>> = BTreeMap::new();
        let pending = std::mem::take(&mut self.pending);
        for from in pending.keys() {
            for g in self.w.fence(*from)? {
                let (seq, len) = Self::check_intact(&g.msg, g.ep)?;
                let Some(s) = self.sent.get(&seq) else {
                    fail!("endpoint {} received message {seq} which is not due", g.ep)
                };
                ensure!(len == s.size as usize, "message {seq}: {len} bytes instead of {}", s.size);
                let Msg::Tagged(t) = &g.msg.payload else { unreachable!() };
                got.entry(seq).or_default().push(g.ep);
                order.entry((t.from as usize, g.ep)).or_default().push(seq);
            }
        }
        for ((from, ep), seqs) in &order {
            ensure!(seqs.windows(2).all(|w| w[0] < w[1]), "endpoint {ep} received messages of endpoint {from} in order {seqs:?}");
        }
        let after = Instant::now();
        for seq in pending.into_values().flatten() {
            let mut s = self.sent.remove(&seq).unwrap();
            let mut eps = got.remove(&seq).unwrap_or_default();
            eps.sort();
            if let Some(t) = s.later.filter(|t| if s.uni { eps.iter().all(|e| !s.targets.contains(e)) && !eps.is_empty() } else { eps == *t }) {
                s.targets = t;
            }
            if s.uni {
                if s.targets.is_empty() {
                    ensure!(eps.is_empty(), "unicast {seq} ({:?}) matches no live endpoint but was received by {eps:?}", s.expr);
                } else {
                    ensure!(
                        eps.len() == 1 && s.targets.contains(&eps[0]),
                        "unicast {seq} ({:?}) must be received by exactly one of {:?}, was received by {eps:?}",
                        s.expr,
                        s.targets
                    );
                }
                self.cx.class_if(s.targets.len() > 1, "unicast with several candidates");
            } else {
                ensure!(
                    eps == s.targets,
                    "multicast {seq} ({:?}) must be received by {:?}, was received by {eps:?}",
                    s.expr,
                    s.targets
                );
                self.cx.class_if(s.targets.len() > 1, "multicast to several");
            }
            if s.targets.is_empty() {
                self.cx.class("unmatched");
                if s.ttl > 0 {
                    let ttl = Duration::from_millis(s.ttl);
                    let far = Duration::from_secs(3600 * 24 * 365);
                    self.waiting.push(Waiting {
                        seq,
                        expr: s.expr,
                        lo: s.before + ttl.min(far),
                        hi: after + ttl.min(far),
                    });
                }
            }
        }
        if let Some((seq, eps)) = got.into_iter().next() {
            fail!("message {seq} was received again or late by {eps:?}");
        }
        Ok(())
    }

    fn join(&mut self, label: &[String]) -> Res<usize> {
        self.settle()?;
        let t0 = Instant::now();
        let idx = self.w.join(label)?;
        if self.waiting.is_empty() {
            return Ok(idx);
        }
        let got = self.w.fence(idx)?;
        let t1 = Instant::now();
        let mut arrived = vec![];
        for g in &got {
            let (seq, _) = Self::check_intact(&g.msg, g.ep)?;
            ensure!(g.ep == idx, "waiting message {seq} was received by endpoint {} when {idx} joined", g.ep);
            arrived.push(seq);
        }
        let mut must = vec![];
        let mut may = vec![];
        let mut keep = vec![];
        for wt in std::mem::take(&mut self.waiting) {
            let matches = wt.expr.eval(label);
            if !matches {
                keep.push(wt);
                continue;
            }
            if wt.lo > t1 {
                self.cx.class("waiting message delivered to late joiner");
                self.cx.nontrivial = true;
                must.push(wt.seq);
                may.push(wt.seq);
            } else if wt.hi <= t0 {
                self.cx.class("waiting message expired before join");
                self.cx.nontrivial = true;
            } else {
                self.cx.class("expiration too close to join");
                may.push(wt.seq);
            }
        }
        self.waiting = keep;
        for s in &must {
            ensure!(arrived.contains(s), "message {s} was waiting for endpoint {idx} but was not delivered when it joined");
        }
        for s in &arrived {
            ensure!(may.contains(s), "message {s} was delivered to late joiner {idx} after its time to live or without matching or again");
        }
        ensure!(arrived.windows(2).all(|w| w[0] < w[1]), "waiting messages were delivered in order {arrived:?}");
        Ok(idx)
    }

    pub fn step(&mut self, op: &Op) -> Res {
        match op {
            Op::Join { label } => {
                if self.w.eps.len() < 24 {
                    self.join(label)?;
                }
            }
            Op::CloseRx { who } => {
                if let Some(i) = nth(&self.w.live(), *who) {
                    self.settle()?;
                    self.w.close_reader(i);
                    self.fresh_departure = true;
                    self.cx.class(if i == 0 { "host closed receiver" } else { "closed receiver" });
                }
            }
            Op::CloseTx { who } => {
                let s = self.senders();
                if let (Some(i), true) = (nth(&s, *who), s.len() > 1) {
                    self.settle()?;
                    self.w.eps[i].sender = None;
                }
            }
            Op::Leave { who } => {
                let s = self.senders();
                let c: Vec<usize> = self.w.eps.iter().filter(|e| e.live() || e.sender.is_some()).map(|e| e.idx).collect();
                if let Some(i) = nth(&c, *who) {
                    if s.iter().any(|x| *x != i) {
                        self.settle()?;
                        self.w.leave(i);
                        self.fresh_departure = true;
                        self.cx.class(if i == 0 { "host endpoint left" } else { "endpoint left" });
                    }
                }
            }
            Op::Send { from, expr, uni, ttl, size } => self.send(*from, expr.clone(), *uni, *ttl, *size)?,
            Op::SendTo { from, to, uni, ttl, size } => {
                let label = &self.w.eps[*to as usize * self.w.eps.len() / 256].label;
                let e = label
                    .iter()
                    .map(|l| Expr::leaf(l))
                    .reduce(|a, b| Expr::A(Box::new(a), Box::new(b)))
                    .unwrap_or(Expr::T);
                self.send(*from, e, *uni, *ttl, *size)?
            }
            Op::Burst { from, name, n, uni, ttl, step } => {
                let e = Expr::leaf(name);
                if self.w.matching(&e).is_empty() {
                    self.settle()?;
                    for i in 0..*n as u64 {
                        self.post(*from, e.clone(), *uni, ttl.saturating_add(i * step), (i % 7) as u32)?;
                    }
                    self.cx.class_if(*n > 64, "more than 64 messages waiting");
                    self.settle()?;
                }
            }
            Op::Again { from, back, leave, join } => {
                let n = self.recent.len();
                let Some(i) = (n > 0).then(|| n - 1 - *back as usize % n) else { return Ok(()) };
                let (expr, uni, ttl) = self.recent[i].clone();
                if let Some(k) = leave {
                    // somebody who is concerned, if any
                    let c: Vec<usize> = self.w.matching(&expr).into_iter().filter(|i| *i != 0).collect();
                    let all: Vec<usize> = self.w.live().into_iter().filter(|i| *i != 0).collect();
                    if let Some(i) = nth(&c, *k).or(nth(&all, *k)) {
                        self.settle()?;
                        self.w.close_reader(i);
                        self.fresh_departure = true;
                        // nothing else passes the bus until it's sent again
                        if ttl == 0 && self.waiting.is_empty() && *back % 4 > 0 {
                            let known = self.seq;
                            self.post(*from, expr.clone(), uni, 0, 1)?;
                            if let (Some(l), true) = (join, self.w.eps.len() < 24) {
                                self.w.join(l)?;
                                let t = self.w.matching(&expr);
                                if let Some(s) = self.sent.get_mut(&(known + 1)) {
                                    s.later = Some(t);
                                }
                            }
                            self.post(*from, expr, uni, 0, 2)?;
                            self.cx.class("same selector again at once");
                            return self.settle();
                        }
                        self.send(*from, expr.clone(), uni, ttl, 1)?;
                    }
                }
                if let Some(l) = join {
                    if self.w.eps.len() < 24 {
                        self.join(l)?;
                    }
                }
                self.send(*from, expr, uni, ttl, 2)?;
                self.cx.class("same selector again");
            }
            Op::Advance { ms } => {
                self.settle()?;
                interpose::advance(Duration::from_millis(*ms));
            }
            Op::Settle => self.settle()?,
        }
        Ok(())
    }

    fn send(&mut self, from: u8, expr: Expr, uni: bool, ttl: u64, size: u32) -> Res {
        self.post(from, expr, uni, ttl, size)?;
        // keep the volume in flight bounded
        let n: usize = self.pending.values().map(|v| v.len()).sum();
        if n >= 8 || ttl > 0 {
            self.settle()?;
        }
        Ok(())
    }

    fn post(&mut self, from: u8, expr: Expr, uni: bool, ttl: u64, size: u32) -> Res {
        let Some(from) = nth(&self.senders(), from) else { return Ok(()) };
        self.seq += 1;
        let seq = self.seq;
        let targets = self.w.matching(&expr);
        self.cx.class_if(targets.contains(&from), "sender matches");
        self.cx.class_if(targets.contains(&0), "host matches");
        self.cx.class_if(targets.iter().any(|t| *t != 0) && from != 0, "client to client");
        self.cx.class_if(self.fresh_departure, "sent right after a departure");
        self.cx.class_if(
            uni && self.w.eps.iter().any(|e| !e.live() && e.idx != 0 && expr.eval(&e.label)) && !targets.is_empty(),
            "unicast with departed candidate",
        );
        self.fresh_departure = false;
        if targets.len() > 1 {
            self.cx.nontrivial = true;
        }
        let mode = if uni { SelectorMode::Unicast } else { SelectorMode::Multicast };
        let sel = selector(mode, &expr, ttl);
        let before = Instant::now();
        self.w.send(from, sel, Msg::Tagged(Tagged { seq, from: from as u16, lane: 0, body: body(seq, size as usize) }))?;
        if !self.recent.iter().any(|r| r.0 == expr && r.1 == uni) {
            if self.recent.len() == 3 {
                self.recent.remove(0);
            }
            self.recent.push((expr.clone(), uni, ttl));
        }
        self.sent.insert(seq, Sent { expr, uni, size, targets, later: None, ttl, before });
        self.pending.entry(from).or_default().push(seq);
        Ok(())
    }
}

fn run_history(h: &History, cx: &mut Cx) -> Res {
    let mut e = Engine::new(&h.host, &h.modes, cx)?;
    for op in &h.ops {
        e.step(op)?;
    }
    e.settle()?;
    // nothing may arrive twice or late
    if let Some(i) = e.senders().first().copied() {
        let got = e.w.fence(i)?;
        ensure!(got.is_empty(), "{} messages arrived again or late", got.len());
    }
    Ok(())
}

fn size() -> BoxedStrategy<u32> {
    prop_oneof![6 => 0u32..64, 2 => 0u32..2000, 1 => 0u32..30_000].boxed()
}

struct Weights {
    join: u32,
    close_rx: u32,
    close_tx: u32,
    leave: u32,
    send: u32,
    send_to: u32,
    advance: u32,
    settle: u32,
    burst: u32,
    again: u32,
    uni: f64,
    ttl: BoxedStrategy<u64>,
    ops: std::ops::Range<usize>,
    joins_first: std::ops::Range<usize>,
}

fn history(w: Weights) -> BoxedStrategy<History> {
    let Weights { join, close_rx, close_tx, leave, send, send_to, advance, settle, burst, again, uni, ttl, ops, joins_first } = w;
    let op = prop_oneof![
        join => label_strategy().prop_map(|label| Op::Join { label }),
        close_rx => any::<u8>().prop_map(|who| Op::CloseRx { who }),
        close_tx => any::<u8>().prop_map(|who| Op::CloseTx { who }),
        leave => any::<u8>().prop_map(|who| Op::Leave { who }),
        send => (any::<u8>(), expr_strategy(name_strategy(), 3), prop::bool::weighted(uni), ttl.clone(), size())
            .prop_map(|(from, expr, uni, ttl, size)| Op::Send { from, expr, uni, ttl, size }),
        send_to => (any::<u8>(), any::<u8>(), prop::bool::weighted(uni), ttl, size())
            .prop_map(|(from, to, uni, ttl, size)| Op::SendTo { from, to, uni, ttl, size }),
        advance => prop_oneof![Just(31_000u64), 1u64..2000, 1000u64..90_000, Just(3_600_000)].prop_map(|ms| Op::Advance { ms }),
        settle => Just(Op::Settle),
        again => (any::<u8>(), any::<u8>(), prop::option::weighted(0.6, any::<u8>()), prop::option::weighted(0.6, label_strategy()))
            .prop_map(|(from, back, leave, join)| Op::Again { from, back, leave, join }),
        burst => (any::<u8>(), name_strategy(), prop_oneof![3 => 2u16..20, 2 => 20u16..150, 1 => 150u16..700], prop::bool::weighted(uni), prop_oneof![2 => 1000u64..60_000, 1 => Just(u64::MAX)], prop_oneof![Just(0u64), Just(1), 1u64..2000])
            .prop_map(|(from, name, n, uni, ttl, step)| Op::Burst { from, name, n, uni, ttl, step }),
    ];
    let late = prop_oneof![1 => Just(vec![]).boxed(), 1 => prop::collection::vec(1u8..30, 1..6).boxed()];
    (label_strategy(), prop::collection::vec(label_strategy(), joins_first), prop::collection::vec(op, ops), modes_strategy(), late)
        .prop_map(|(host, first, rest, modes, late)| {
            let mut ops: Vec<Op> = first.into_iter().map(|label| Op::Join { label }).collect();
            ops.extend(rest);
            History { host, ops, modes, late, rejoin: vec![], crowd: None }
        })
        .boxed()
}

// ------------------------------------------------------------------ C03

pub struct Multicast;

impl Prop for Multicast {
    const ID: &'static str = "C03";
    const RULE: &'static str = "random histories (up to 40 operations, up to 24 endpoints, overlapping labels) of joins, departures of either or both halves, time jumps and multicasts from any endpoint (also with a former selector again, right after a departure and a join); after every batch the set of receivers of each message is compared with the model; non-trivial: a multicast matched at least two live endpoints";
    type Case = History;
    const CASES: (usize, usize) = (6000, 80_000);

    fn strategy(t: bool) -> BoxedStrategy<History> {
        history(Weights {
            join: 4,
            close_rx: 1,
            close_tx: 1,
            leave: 1,
            send: 12,
            send_to: 3,
            advance: 1,
            settle: 2,
            burst: 0,
            again: 3,
            uni: 0.0,
            ttl: Just(0).boxed(),
            ops: 4..if t { 80 } else { 36 },
            joins_first: 0..5,
        })
    }

    fn run(h: &History, cx: &mut Cx) -> Res {
        run_history(h, cx)
    }
}

// ------------------------------------------------------------------ C04

pub struct Unicast;

impl Prop for Unicast {
    const ID: &'static str = "C04";
    const RULE: &'static str = "as C03 but with unicasts (and more departures immediately before sends, so that the first candidates of the bus are gone); each unicast must have exactly one receiver among the matching live endpoints, or none if there is none; non-trivial: a unicast had at least two live candidates";
    type Case = History;
    const CASES: (usize, usize) = (6000, 80_000);

    fn strategy(t: bool) -> BoxedStrategy<History> {
        history(Weights {
            join: 4,
            close_rx: 2,
            close_tx: 1,
            leave: 3,
            send: 10,
            send_to: 6,
            advance: 1,
            settle: 1,
            burst: 0,
            again: 3,
            uni: 0.92,
            ttl: Just(0).boxed(),
            ops: 4..if t { 80 } else { 36 },
            joins_first: 1..6,
        })
    }

    fn run(h: &History, cx: &mut Cx) -> Res {
        run_history(h, cx)
    }
}

// ------------------------------------------------------------------ C12

pub struct Ttl;

fn ttl() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(0u64),
        1 => 1u64..20,
        2 => 500u64..5000,
        3 => 1000u64..60_000,
        1 => Just(3_000_000u64),
        1 => Just(1u64 << 40),
        1 => Just(u64::MAX),
    ]
    .boxed()
}

impl Prop for Ttl {
    const ID: &'static str = "C12";
    const RULE: &'static str = "random histories of sends with arbitrary time to live (zero, milliseconds to minutes, maximal) whose selectors often match nobody yet (single ones and bursts of up to 700), jumps of the virtual clock, joins and departures; each late joiner must get exactly the waiting messages that match and have not expired, in order; non-trivial: a waiting message was delivered to a late joiner, or had expired when a matching endpoint joined";
    type Case = History;
    const CASES: (usize, usize) = (6000, 80_000);

    fn strategy(t: bool) -> BoxedStrategy<History> {
        history(Weights {
            join: 7,
            close_rx: 1,
            close_tx: 0,
            leave: 2,
            send: 9,
            send_to: 4,
            advance: 5,
            settle: 1,
            burst: 1,
            again: 3,
            uni: 0.6,
            ttl: ttl(),
            ops: 6..if t { 80 } else { 40 },
            joins_first: 0..3,
        })
    }

    fn run(h: &History, cx: &mut Cx) -> Res {
        cx.nontrivial = false;
        let r = run_history(h, cx);
        cx.nontrivial = cx.classes.iter().any(|c| c.starts_with("waiting message"));
        r
    }
}

// ------------------------------------------------------------------ C19

pub struct Departure;

pub fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// Endpoints which closed their receivers rejoin when the host dies, and still must not receive
fn rejoin(peers: &[(bool, bool)], cx: &mut Cx) -> Res {
    let mut w = World::new("t");
    let mut host = Agent::spawn();
    host.tell(&Order::Join { identifier: w.identifier.clone(), token: "t".into(), label: vec!["host".into()], affinity: true, limit: None, deaf: false });
    if host.wait(PATIENCE, |q| q.iter().any(|r| matches!(r, Report::Joined)).then_some(())).is_none() {
        return Err(Bad::Slow("the host did not start".into()));
    }
    w.all_may_host = true;
    for (i, (deaf, group)) in peers.iter().enumerate() {
        let mut l = vec![format!("e{i}")];
        if *group {
            l.push("g".into());
        }
        w.join(&l)?;
        if *deaf {
            w.close_reader(i);
        }
    }
    let n = peers.len();
    let hearing: Vec<usize> = (0..n).filter(|i| !peers[*i].0).collect();
    host.kill(libc::SIGKILL);
    let mut seq = 0u64;
    let mut send = |w: &World, i: usize, lane: u16, e: &Expr, uni: bool| -> Res<u64> {
        seq += 1;
        let mode = if uni { SelectorMode::Unicast } else { SelectorMode::Multicast };
        w.send(i, selector(mode, e, 0), Msg::Tagged(Tagged { seq, from: i as u16, lane, body: vec![] }))?;
        Ok(seq)
    };
    // until all have found the new host
    let end = interpose::real_now() + PATIENCE;
    let mut heard = BTreeMap::new();
    while hearing.iter().any(|j| (0..n).any(|i| !heard.contains_key(&(i, *j)))) {
        if interpose::real_now() > end {
            return Err(Bad::Slow(format!("the endpoints do not find each other after the host died: {peers:?}, {heard:?}")));
        }
        for i in 0..n {
            send(&w, i, 0, &Expr::T, false)?;
        }
        std::thread::sleep(Duration::from_millis(5));
        for j in &hearing {
            for e in w.eps[*j].reader.as_ref().unwrap().take() {
                match e {
                    Event::Msg(m) => {
                        if let Msg::Tagged(t) = &m.payload {
                            heard.insert((t.from as usize, *j), ());
                        }
                    }
                    Event::Error(e) | Event::Decode(e) => fail!("endpoint {j}: {e}"),
                }
            }
        }
    }
    let group: Vec<usize> = hearing.iter().copied().filter(|i| peers[*i].1).collect();
    let mut due: BTreeMap<u64, usize> = BTreeMap::new();
    for i in 0..n {
        for _ in 0..n + 2 {
            due.insert(send(&w, i, 1, &Expr::leaf("g"), true)?, group.len().min(1));
        }
        for j in 0..n {
            due.insert(send(&w, i, 2, &Expr::leaf(&format!("e{j}")), true)?, usize::from(!peers[j].0));
        }
        due.insert(send(&w, i, 3, &Expr::T, false)?, hearing.len());
    }
    let mut got: BTreeMap<u64, usize> = BTreeMap::new();
    for i in 0..n {
        for g in w.fence(i)? {
            if let Msg::Tagged(t) = &g.msg.payload {
                if t.lane > 0 {
                    *got.entry(t.seq).or_default() += 1;
                }
            }
        }
    }
    for (s, k) in &due {
        let x = got.get(s).copied().unwrap_or(0);
        ensure!(x == *k, "message {s} was received by {x} instead of {k} endpoints after the host died; (receiver closed, in group): {peers:?}");
    }
    cx.class("host died with closed receivers");
    cx.nontrivial = hearing.len() < n && !hearing.is_empty();
    Ok(())
}

impl Prop for Departure {
    const ID: &'static str = "C19";
    const RULE: &'static str = "random histories dominated by joins and departures (receiver only, sender only, both; also of the hosting endpoint) with unicasts and multicasts of the others in between, checked against the routing model; at the end all but the hosting endpoint leave, 31 s pass on the virtual clock at once or in steps with messages in between, one message is sent, and the number of open descriptors must fall to its value when only the host had joined; or: the process hosting the bus is killed when some of 2..5 endpoints have closed their receivers, and after all have rejoined those must still receive nothing and swallow no unicast; or: the concurrent workloads of C05 while receivers are dropped, with their oracle for everybody else; non-trivial: at least two endpoints left before the end and a message was sent afterwards, or receivers were closed when the host died, or the workload was non-trivial";
    type Case = History;
    const CASES: (usize, usize) = (5000, 60_000);

    fn strategy(t: bool) -> BoxedStrategy<History> {
        let peers = prop::collection::vec((any::<bool>(), prop::bool::weighted(0.7)), 2..6)
            .prop_map(|rejoin| History { host: vec![], ops: vec![], modes: vec![], late: vec![], rejoin, crowd: None });
        let crowd = (super::concurrency::Order::strategy(t), super::concurrency::quits_strategy(0, 1)).prop_map(|(mut c, quits)| {
            c.quits = quits;
            History { host: vec![], ops: vec![], modes: vec![], late: vec![], rejoin: vec![], crowd: Some(c) }
        });
        let h = history(Weights {
            join: 8,
            close_rx: 3,
            close_tx: 2,
            leave: 5,
            send: 8,
            send_to: 4,
            advance: 1,
            settle: 1,
            burst: 0,
            again: 3,
            uni: 0.5,
            ttl: prop_oneof![5 => Just(0u64), 1 => Just(5000u64)].boxed(),
            ops: 6..if t { 90 } else { 40 },
            joins_first: 0..4,
        });
        prop_oneof![30 => h, 1 => peers, 3 => crowd].boxed()
    }

    fn run(h: &History, cx: &mut Cx) -> Res {
        if !h.rejoin.is_empty() {
            return rejoin(&h.rejoin, cx);
        }
        if let Some(c) = &h.crowd {
            return super::concurrency::Order::run(c, cx);
        }
        let mut e = Engine::new(&h.host, &h.modes, cx)?;
        e.w.fence(0)?;
        let base = open_fds();
        for op in &h.ops {
            // somebody has to trigger the release at the end
            if let Op::CloseTx { who } | Op::Leave { who } = op {
                if *who < 40 && e.w.eps[0].sender.is_some() {
                    continue;
                }
                let c = e.senders();
                if nth(&c, *who) == Some(0) {
                    continue;
                }
            }
            e.step(op)?;
        }
        e.settle()?;
        let mut left = e.w.eps.iter().filter(|x| !x.live()).count();
        if e.w.eps[0].sender.is_none() {
            return Err(Bad::Skip("the host cannot send".into()));
        }
        let later = left >= 2;
        for x in &e.w.eps[1..] {
            if let Some(r) = &x.reader {
                r.stop_soon();
            }
        }
        for i in (1..e.w.eps.len()).rev() {
            if e.w.eps[i].live() || e.w.eps[i].sender.is_some() {
                left += 1;
            }
            e.w.leave(i);
        }
        // the messages match nobody, so that only the liveness probe can notice the departures
        let nobody = |e: &mut Engine| e.w.send(0, selector(SelectorMode::Unicast, &Expr::F, 0), Msg::Tagged(Tagged { seq: 0, from: 0, lane: 0, body: vec![] }));
        let mut rest = 31_000u64;
        for s in &h.late {
            let ms = (*s as u64 * 1000).min(rest);
            rest -= ms;
            interpose::advance(Duration::from_millis(ms));
            nobody(&mut e)?;
            // it has been routed after these
            e.w.refused_join()?;
            e.w.refused_join()?;
            e.cx.class("time passed in steps");
        }
        interpose::advance(Duration::from_millis(rest));
        nobody(&mut e)?;
        let end = interpose::real_now() + PATIENCE / 4;
        let mut n;
        loop {
            n = open_fds();
            if n <= base {
                break;
            }
            if interpose::real_now() > end {
                return Err(Bad::Slow(format!(
                    "{n} descriptors are open after {left} endpoints left, {base} when only the host had joined"
                )));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        e.cx.nontrivial = later;
        e.cx.class(format!("{} departures", (left / 4) * 4));
        Ok(())
    }
}

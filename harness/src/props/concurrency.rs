//! C05: order, loss and duplication under concurrency.

use crate::{
    bus::{body, selector, Bad, Event, Expr, Got, Msg, Reader, Res, Tagged, World},
    def::{Cx, Prop},
    ensure, fail, interpose,
};
use ipmb::{MemoryRegion, Message, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Barrier,
    },
    thread,
    time::Duration,
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Target {
    /// Multicast to everybody
    All,
    /// Unicast to one endpoint
    One(u8),
    /// Unicast to any of the endpoints with label "g"
    Any,
    /// Multicast to the endpoints with label "g"
    Group,
}

/// What one thread sends
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lane {
    from: u8,
    target: Target,
    count: u16,
    /// Sizes cycle through these
    sizes: Vec<u16>,
    attach: bool,
    /// Microseconds slept after every 8th message
    pause: u16,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// For each endpoint whether it has the label "g" and microseconds slept after each message
    eps: Vec<(bool, u16)>,
    lanes: Vec<Lane>,
    /// Endpoints that join and leave meanwhile
    churn: u8,
    seed: u64,
    delay: u16,
    /// An endpoint doesn't receive for that many milliseconds
    #[serde(default)]
    stall: Option<(u8, u16)>,
    /// Endpoints which drop their receivers, after so many milliseconds of which they don't receive
    /// during the last ones
    #[serde(default)]
    pub quits: Vec<(u8, u16, u16)>,
}

pub fn quits_strategy(without: u32, with: u32) -> BoxedStrategy<Vec<(u8, u16, u16)>> {
    let quit = (any::<u8>(), 0u16..60, prop_oneof![1 => Just(0u16), 3 => 0u16..60]);
    prop_oneof![without => Just(vec![]), with => prop::collection::vec(quit, 1..3)].boxed()
}

/// An endpoint which drops its receiver
struct Quit {
    ep: usize,
    /// Milliseconds
    after: u64,
    stall: u64,
    reader: Reader<Msg>,
}

pub struct Order;

impl Prop for Order {
    const ID: &'static str = "C05";
    const RULE: &'static str = "random sets of 1..6 sending threads (several per endpoint, unicast to one or to any of a group, multicast) on a bus of 1..5 endpoints with receivers of random speed, sizes 0..60000 so that volumes exceed the socket buffers, memory regions attached at random, receivers standing still for up to 3 s while more than fits is sent to them, endpoints joining and leaving meanwhile, random delays injected before system calls; every receiver must see each lane's messages in order, complete, intact and with the right attachments, and a group unicast must be seen once in total; non-trivial: two threads sent at least 10 messages each or the volume exceeded 128 KiB";
    type Case = Case;
    const CASES: (usize, usize) = (5000, 60_000);
    const RECYCLE: usize = 60;

    fn strategy(t: bool) -> BoxedStrategy<Case> {
        let max = if t { 400u16 } else { 160 };
        let target = prop_oneof![
            2 => Just(Target::All),
            3 => any::<u8>().prop_map(Target::One),
            3 => Just(Target::Any),
            1 => Just(Target::Group),
        ];
        let size = prop_oneof![4 => 0u16..64, 2 => 0u16..3000, 1 => 0u16..60_000, 1 => Just(60_000u16)];
        let lane = (
            any::<u8>(),
            target,
            prop_oneof![1 => 1u16..10, 3 => 10u16..max],
            prop::collection::vec(size, 1..4),
            prop::bool::weighted(0.3),
            prop_oneof![3 => Just(0u16), 1 => 0u16..400],
        )
            .prop_map(|(from, target, count, sizes, attach, pause)| Lane { from, target, count, sizes, attach, pause });
        let ep = (prop::bool::weighted(0.6), prop_oneof![3 => Just(0u16), 1 => 0u16..400]);
        let stall = prop_oneof![2 => 100u16..700, 2 => 700u16..1400, 1 => 1400u16..3000];
        let stall = prop_oneof![28 => Just(None), 1 => (any::<u8>(), stall).prop_map(Some)];
        (
            prop::collection::vec(ep, 1..6),
            prop::collection::vec(lane, 1..7),
            prop_oneof![2 => Just(0u8), 1 => 1u8..8],
            any::<u64>(),
            prop_oneof![1 => Just(0u16), 2 => 1u16..120],
            stall,
            (10u16..60, 3000u16..30_000),
            quits_strategy(4, 1),
        )
            .prop_map(|(eps, mut lanes, churn, seed, delay, stall, (count, size), quits)| {
                if let Some((ep, _)) = stall {
                    // more than fits
                    lanes.push(Lane { from: ep.wrapping_add(count as u8), target: Target::One(ep), count: count + 20, sizes: vec![size], attach: false, pause: 0 });
                }
                Case { eps, lanes, churn, seed, delay, stall, quits }
            })
            .boxed()
    }

    fn run(c: &Case, cx: &mut Cx) -> Res {
        if c.eps.is_empty() {
            return Ok(());
        }
        let n = c.eps.len();
        let mut w = World::new("t");
        for (i, (g, _)) in c.eps.iter().enumerate() {
            let mut l = vec![format!("e{i}")];
            if *g {
                l.push("g".into());
            }
            w.join(&l)?;
        }
        w.fence(n - 1)?;
        for (i, (_, pace)) in c.eps.iter().enumerate() {
            w.eps[i].reader.as_ref().unwrap().pace(*pace as u64);
        }
        if let Some((ep, ms)) = c.stall {
            w.eps[ep as usize % n].reader.as_ref().unwrap().stall(ms as u64);
            // the receiver is between two calls of recv
            thread::sleep(Duration::from_millis(15));
            cx.class("a receiver stood still");
        }
        let group: Vec<usize> = (0..n).filter(|i| c.eps[*i].0).collect();

        let mut quits: Vec<Quit> = vec![];
        for (ep, after, stall) in &c.quits {
            let ep = *ep as usize % n;
            // the reader standing still would be waited for
            if c.stall.is_some_and(|(e, _)| e as usize % n == ep) {
                continue;
            }
            if let Some(reader) = w.eps[ep].reader.take() {
                quits.push(Quit { ep, after: *after as u64, stall: *stall as u64, reader });
            }
        }
        let quitters: Vec<usize> = quits.iter().map(|q| q.ep).collect();
        cx.class_if(!quits.is_empty(), "a receiver is dropped meanwhile");
        // when all of them are gone
        let gone = AtomicBool::new(quits.is_empty());
        let mut early: Vec<Got> = vec![];

        let barrier = Barrier::new(c.lanes.len());
        let stop = AtomicBool::new(false);
        let armed = interpose::armed();
        if !armed {
            interpose::arm(c.seed, 0, c.delay as u64);
        }
        let results: Vec<Res<u64>> = thread::scope(|s| {
            let quit = (!quits.is_empty()).then(|| {
                let gone = &gone;
                s.spawn(move || -> Res<Vec<Got>> {
                    let threads: Vec<_> = quits
                        .into_iter()
                        .map(|q| {
                            s.spawn(move || -> Res<Vec<Got>> {
                                thread::sleep(Duration::from_millis(q.after.saturating_sub(q.stall)));
                                q.reader.stall(q.stall.max(1));
                                thread::sleep(Duration::from_millis(q.stall.min(q.after)));
                                let (rx, events) = q.reader.stop();
                                drop(rx);
                                let mut got = vec![];
                                for e in events {
                                    match e {
                                        Event::Msg(msg) => got.push(Got { ep: q.ep, msg }),
                                        Event::Decode(e) | Event::Error(e) => fail!("recv of endpoint {}: {e}", q.ep),
                                    }
                                }
                                Ok(got)
                            })
                        })
                        .collect();
                    let mut all = vec![];
                    for t in threads {
                        all.extend(t.join().unwrap_or(Err(Bad::Fail("dropping a receiver panicked".into())))?);
                    }
                    gone.store(true, SeqCst);
                    Ok(all)
                })
            });
            let churn = (c.churn > 0).then(|| {
                let w = &w;
                let stop = &stop;
                s.spawn(move || {
                    for k in 0..c.churn {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let o = crate::bus::join_options(&w.identifier, &w.token, &["zz".to_owned()], false);
                        match ipmb::join::<Msg, Msg>(o, Some(Duration::from_secs(20))) {
                            Ok((tx, mut rx)) => {
                                if k % 2 == 0 {
                                    let _ = rx.recv(Some(Duration::from_micros(300)));
                                }
                                drop(tx);
                                drop(rx);
                            }
                            Err(e) => return Err(Bad::Slow(format!("join: {e}"))),
                        }
                    }
                    Ok(0)
                })
            });
            let threads: Vec<_> = c
                .lanes
                .iter()
                .enumerate()
                .map(|(li, l)| {
                    let from = l.from as usize % n;
                    let tx = w.eps[from].sender.as_ref().unwrap().clone();
                    let (barrier, gone) = (&barrier, &gone);
                    s.spawn(move || -> Res<u64> {
                        barrier.wait();
                        // the first message sent when all quitters were gone
                        let mut sure = None;
                        for seq in 0..l.count() {
                            if sure.is_none() && gone.load(SeqCst) {
                                sure = Some(seq);
                            }
                            let (mode, expr) = match &l.target {
                                Target::All => (SelectorMode::Multicast, Expr::T),
                                Target::Group => (SelectorMode::Multicast, Expr::leaf("g")),
                                Target::Any => (SelectorMode::Unicast, Expr::leaf("g")),
                                Target::One(k) => (SelectorMode::Unicast, Expr::leaf(&format!("e{}", *k as usize % n))),
                            };
                            let t = Tagged { seq, from: from as u16, lane: li as u16, body: body(seq * 31 + li as u64, l.size(seq)) };
                            let mut m = Message::new(selector(mode, &expr, 0), Msg::Tagged(t));
                            if l.attach {
                                let mut r = MemoryRegion::new(16).unwrap();
                                let b = r.map(..).unwrap();
                                b[..8].copy_from_slice(&(li as u64).to_le_bytes());
                                b[8..].copy_from_slice(&seq.to_le_bytes());
                                m.memory_regions.push(r);
                            }
                            if let Err(e) = tx.send(m) {
                                fail!("send of lane {li} message {seq}: {e}");
                            }
                            if l.pause > 0 && seq % 8 == 7 {
                                thread::sleep(Duration::from_micros(l.pause as u64));
                            }
                        }
                        Ok(sure.unwrap_or(l.count()))
                    })
                })
                .collect();
            let mut r: Vec<Res<u64>> = threads.into_iter().map(|t| t.join().unwrap_or(Err(Bad::Fail("sender panicked".into())))).collect();
            stop.store(true, SeqCst);
            if let Some(t) = churn {
                r.push(t.join().unwrap_or(Err(Bad::Fail("join panicked".into()))));
            }
            if let Some(t) = quit {
                match t.join().unwrap() {
                    Ok(got) => early = got,
                    Err(e) => r.push(Err(e)),
                }
            }
            r
        });
        let mut sure = vec![];
        for r in results {
            sure.push(r?);
        }
        // sequences per receiver and lane
        let mut got: HashMap<(usize, usize), Vec<u64>> = HashMap::new();
        let mut volume = 0;
        for from in 0..=n {
            // what quitters received before, and everything else
            for g in if from == 0 { std::mem::take(&mut early) } else { w.fence(from - 1)? } {
                let Msg::Tagged(t) = &g.msg.payload else { fail!("endpoint {} received an unexpected type", g.ep) };
                let li = t.lane as usize;
                ensure!(li < c.lanes.len(), "endpoint {} received a message of an unknown lane {li}", g.ep);
                let l = &c.lanes[li];
                ensure!(t.from as usize == l.from as usize % n, "sender of lane {li} is {}", t.from);
                ensure!(
                    t.body == body(t.seq * 31 + t.lane as u64, l.size(t.seq)),
                    "endpoint {} received lane {li} message {} corrupted",
                    g.ep,
                    t.seq
                );
                volume += t.body.len();
                let mut regions = g.msg.memory_regions;
                ensure!(
                    regions.len() == usize::from(l.attach) && g.msg.objects.is_empty(),
                    "endpoint {} received {} regions and {} objects with lane {li} message {}",
                    g.ep,
                    regions.len(),
                    g.msg.objects.len(),
                    t.seq
                );
                if let Some(r) = regions.first_mut() {
                    let b = r.map(..).map_err(|e| Bad::Fail(format!("map: {e}")))?;
                    let id = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
                    ensure!(id == (li as u64, t.seq), "endpoint {} received the region of {id:?} with lane {li} message {}", g.ep, t.seq);
                }
                got.entry((g.ep, li)).or_default().push(t.seq);
            }
        }
        if !armed {
            interpose::disarm();
        }
        let empty = vec![];
        for (li, l) in c.lanes.iter().enumerate() {
            let all: Vec<u64> = (0..l.count()).collect();
            let to: Vec<usize> = match &l.target {
                Target::All => (0..n).collect(),
                Target::Group | Target::Any => group.clone(),
                Target::One(k) => vec![*k as usize % n],
            };
            let mut union: Vec<u64> = vec![];
            for ep in 0..n {
                let seqs = got.get(&(ep, li)).unwrap_or(&empty);
                ensure!(to.contains(&ep) || seqs.is_empty(), "endpoint {ep} received messages {seqs:?} of lane {li} not meant for it");
                ensure!(seqs.windows(2).all(|p| p[0] < p[1]), "endpoint {ep} received lane {li} out of order or twice: {seqs:?}");
                let quit = quitters.contains(&ep);
                match l.target {
                    Target::Any => union.extend(seqs),
                    _ if quit => {
                        ensure!(seqs.len() <= all.len() && *seqs == all[..seqs.len()], "endpoint {ep} received lane {li} with gaps before it left: {seqs:?}")
                    }
                    _ if to.contains(&ep) => {
                        ensure!(*seqs == all, "endpoint {ep} received {} of {} messages of lane {li}: {seqs:?}", seqs.len(), all.len())
                    }
                    _ => {}
                }
            }
            if matches!(l.target, Target::Any) {
                union.sort_unstable();
                ensure!(union.windows(2).all(|p| p[0] < p[1]), "group unicasts of lane {li} were received twice: {union:?}");
                let mut expect = if group.is_empty() { vec![] } else { all };
                // what was on its way to a quitter is lost
                let lossy = group.iter().any(|ep| quitters.contains(ep));
                if lossy {
                    let live = group.iter().any(|ep| !quitters.contains(ep));
                    expect.retain(|seq| union.contains(seq) || (live && *seq >= sure[li]));
                }
                ensure!(union == expect, "group unicasts of lane {li} were received as {union:?} instead of once each");
            }
            cx.class(match l.target {
                Target::All => "multicast to all",
                Target::Group => "multicast to a group",
                Target::Any => "unicast to a group",
                Target::One(_) => "unicast to one",
            });
            cx.class_if(l.attach, "with regions");
        }
        let mut senders: Vec<usize> = c.lanes.iter().map(|l| l.from as usize % n).collect();
        senders.sort_unstable();
        let threads = senders.len();
        senders.dedup();
        cx.class_if(senders.len() < threads, "several threads of one endpoint");
        cx.class_if(senders.len() > 1, "several endpoints sending");
        cx.class_if(volume > 128 << 10, "volume above 128 KiB");
        cx.class_if(c.churn > 0, "churn");
        cx.nontrivial = volume > 128 << 10 || c.lanes.iter().filter(|l| l.count >= 10).count() > 1;
        Ok(())
    }
}

impl Lane {
    fn count(&self) -> u64 {
        // received regions are kept open until the end
        if self.attach {
            self.count.min(25) as u64
        } else {
            self.count as u64
        }
    }

    fn size(&self, seq: u64) -> usize {
        if self.sizes.is_empty() {
            0
        } else {
            self.sizes[seq as usize % self.sizes.len()] as usize
        }
    }
}

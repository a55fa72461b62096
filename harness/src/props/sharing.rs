//! C09, C10, C11: memory regions used by several threads and endpoints at the same time.

use crate::{
    bus::{join_options, selector, Bad, Event, Expr, Msg, Res, Tagged, World, PATIENCE},
    def::Cx,
    ensure, fail,
    interpose::{self, real_now},
};
use ipmb::{MemoryRegion, MemoryRegistry, Message, RecvError, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst},
        mpsc, Arc, Barrier, Mutex,
    },
    thread,
    time::Duration,
};

// ---------------------------------------------------------------- counts

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SOp {
    Clone { h: u8 },
    Drop { h: u8 },
    /// Send clones of handles; to: an endpoint, all of them or nobody
    Send { from: u8, to: u8, hs: Vec<u8> },
    /// As before, without keeping the handle
    Give { from: u8, to: u8, h: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Storm {
    eps: u8,
    regions: u8,
    threads: Vec<Vec<SOp>>,
    seed: u64,
    delay: u16,
}

pub fn storm_strategy() -> BoxedStrategy<Storm> {
    let h = any::<u8>();
    let op = prop_oneof![
        4 => h.prop_map(|h| SOp::Clone { h }),
        3 => h.prop_map(|h| SOp::Drop { h }),
        3 => (h, h, prop::collection::vec(h, 1..4)).prop_map(|(from, to, hs)| SOp::Send { from, to, hs }),
        2 => (h, h, h).prop_map(|(from, to, h)| SOp::Give { from, to, h }),
    ];
    let threads = prop::collection::vec(prop::collection::vec(op, 1..60), 2..5);
    (1u8..4, 1u8..3, threads, any::<u64>(), prop_oneof![1 => Just(0u16), 2 => 1u16..150])
        .prop_map(|(eps, regions, threads, seed, delay)| Storm { eps, regions, threads, seed, delay })
        .boxed()
}

fn read_id(mr: &mut MemoryRegion) -> Res<u64> {
    let b = mr.map(..8).map_err(|e| Bad::Fail(format!("map: {e}")))?;
    Ok(u64::from_le_bytes(b.try_into().unwrap()))
}

/// Where a message goes: an endpoint, all or nobody
fn target(to: u8, n: usize) -> (SelectorMode, Expr) {
    match to as usize % (n + 2) {
        k if k < n => (SelectorMode::Unicast, Expr::leaf(&format!("e{k}"))),
        k if k == n => (SelectorMode::Multicast, Expr::T),
        _ => (SelectorMode::Unicast, Expr::leaf("nobody")),
    }
}

pub fn storm(c: &Storm, cx: &mut Cx) -> Res {
    let n = c.eps.clamp(1, 4) as usize;
    let mut w = World::new("t");
    for i in 0..n {
        w.join(&[format!("e{i}")])?;
    }
    w.fence(n - 1)?;
    let nr = c.regions.clamp(1, 4) as usize;
    let mut anchors = vec![];
    for r in 0..nr {
        let Some(mut mr) = MemoryRegion::new(64) else { fail!("can't create a region") };
        mr.map(..8).map_err(|e| Bad::Fail(format!("map: {e}")))?.copy_from_slice(&(r as u64).to_le_bytes());
        anchors.push(mr);
    }
    let nt = c.threads.len() as u32;
    let sent = AtomicU64::new(0);
    let barrier = Barrier::new(c.threads.len());
    let armed = interpose::armed();
    if !armed {
        interpose::arm(c.seed, 0, c.delay as u64);
    }
    // every thread begins with a handle of each region and keeps one of each
    let starts: Vec<Vec<(usize, MemoryRegion)>> =
        c.threads.iter().map(|_| anchors.iter().enumerate().map(|(r, a)| (r, a.clone().expect("clone"))).collect()).collect();
    let kept: Vec<Res<Vec<(usize, MemoryRegion)>>> = thread::scope(|s| {
        let threads: Vec<_> = c
            .threads
            .iter()
            .zip(starts)
            .map(|(ops, mut held)| {
                let (w, barrier, sent) = (&w, &barrier, &sent);
                s.spawn(move || -> Res<Vec<(usize, MemoryRegion)>> {
                    barrier.wait();
                    let message = |seq: u64, from: u8, to: u8, mrs: Vec<MemoryRegion>| {
                        let (mode, expr) = target(to, n);
                        let mut m = Message::new(selector(mode, &expr, 0), Msg::Tagged(Tagged { seq, from: 0, lane: 0, body: vec![] }));
                        m.memory_regions = mrs;
                        sent.fetch_add(1, SeqCst);
                        w.eps[from as usize % n].sender.as_ref().unwrap().send(m).map_err(|e| Bad::Fail(format!("send: {e}")))
                    };
                    for (seq, op) in ops.iter().enumerate() {
                        match op {
                            SOp::Clone { h } => {
                                let (r, mr) = &held[*h as usize % held.len()];
                                let new = (*r, mr.clone().expect("clone"));
                                held.push(new);
                            }
                            SOp::Drop { h } if held.len() > nr => {
                                let i = nr + *h as usize % (held.len() - nr);
                                held.swap_remove(i);
                            }
                            SOp::Drop { .. } => {}
                            SOp::Send { from, to, hs } => {
                                let mrs = hs.iter().map(|h| held[*h as usize % held.len()].1.clone().expect("clone")).collect();
                                message(seq as u64, *from, *to, mrs)?;
                            }
                            SOp::Give { from, to, h } => {
                                let mr = if held.len() > nr {
                                    let i = nr + *h as usize % (held.len() - nr);
                                    held.swap_remove(i).1
                                } else {
                                    held[0].1.clone().expect("clone")
                                };
                                message(seq as u64, *from, *to, vec![mr])?;
                            }
                        }
                        // handles which are alive all the time
                        let (r, mr) = &held[seq % held.len()];
                        let own = held.iter().filter(|(x, _)| x == r).count() as u32;
                        let count = mr.ref_count();
                        ensure!(count >= nt + own && count < 1 << 20, "the count of region {r} is {count} while at least {} handles are alive", nt + own);
                    }
                    Ok(held)
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap_or(Err(Bad::Fail("a thread using regions panicked".into())))).collect()
    });
    let mut live = vec![];
    for k in kept {
        live.extend(k?);
    }
    // everything has been delivered, and dropped by the bus
    for from in 0..n {
        for g in w.fence(from)? {
            for mut mr in g.msg.memory_regions {
                live.push((read_id(&mut mr)? as usize, mr));
            }
        }
    }
    if !armed {
        interpose::disarm();
    }
    for (r, a) in anchors.iter().enumerate() {
        let expect = 1 + live.iter().filter(|(x, _)| *x == r).count() as u32;
        let count = a.ref_count();
        ensure!(count == expect, "after everything has been delivered the count of region {r} is {count} instead of {expect}");
    }
    drop(live);
    for (r, a) in anchors.iter().enumerate() {
        ensure!(a.ref_count() == 1, "the count of region {r} is {} when only one handle is left", a.ref_count());
    }
    cx.class("threads sharing regions");
    cx.nontrivial |= sent.load(SeqCst) > 0;
    Ok(())
}

// ---------------------------------------------------------------- registry

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Item {
    size: u16,
    tag: bool,
    to: u8,
    /// Microseconds for which receivers keep it
    hold: u16,
    /// Receivers send it on
    forward: bool,
    /// The owner keeps a handle until so many items later
    keep: u8,
    maintain: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Flow {
    workers: u8,
    /// Which endpoint hosts: the owner of the registry or a worker
    owner_hosts: bool,
    items: Vec<Item>,
    seed: u64,
    delay: u16,
}

pub fn flow_strategy() -> BoxedStrategy<Flow> {
    let size = prop_oneof![6 => prop::sample::select(vec![16u16, 24, 31]), 1 => 16u16..200, 1 => Just(5000u16)];
    let hold = prop_oneof![2 => Just(0u16), 2 => 0u16..100, 1 => 0u16..1500];
    let item = (size, prop::bool::weighted(0.1), any::<u8>(), hold, prop::bool::weighted(0.3), prop_oneof![3 => Just(0u8), 1 => 0u8..6], prop::bool::weighted(0.1))
        .prop_map(|(size, tag, to, hold, forward, keep, maintain)| Item { size, tag, to, hold, forward, keep, maintain });
    (1u8..4, any::<bool>(), prop::collection::vec(item, 5..120), any::<u64>(), prop_oneof![1 => Just(0u16), 2 => 1u16..200])
        .prop_map(|(workers, owner_hosts, items, seed, delay)| Flow { workers, owner_hosts, items, seed, delay })
        .boxed()
}

const KEEP: Duration = Duration::from_secs(5);

/// What is known about an allocation
#[derive(Default)]
struct Fate {
    /// Receivers which have finished with it
    done: AtomicU32,
    expected: u32,
    /// The owner has a handle
    kept: AtomicBool,
    calls: AtomicU32,
    at: Duration,
}

fn verify(mr: &mut MemoryRegion, serial: u64, who: &str) -> Res {
    let size = mr.buffer_size() as usize;
    let b = mr.map(..).map_err(|e| Bad::Fail(format!("map: {e}")))?;
    let (first, last) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[size - 8..].try_into().unwrap()));
    ensure!(
        first == serial && last == serial,
        "{who} has a handle of allocation {serial}, but its memory has been written by allocations {first} and {last}"
    );
    Ok(())
}

/// `contents`: check that allocations don't share memory, `callbacks`: check the calls
pub fn flow(c: &Flow, cx: &mut Cx, contents: bool, callbacks: bool) -> Res {
    let n = c.workers.clamp(1, 4) as usize;
    let id = crate::bus::fresh_identifier();
    let join = |label: &str, affinity| match ipmb::join::<Msg, Msg>(join_options(&id, "t", &[label.to_owned(), label[..1].to_owned()], affinity), Some(PATIENCE)) {
        Ok(x) => Ok(x),
        Err(ipmb::JoinError::Timeout) => Err(Bad::Slow("join timed out".into())),
        Err(e) => Err(Bad::Fail(format!("join: {e}"))),
    };
    let mut owner = None;
    if c.owner_hosts {
        owner = Some(join("owner", true)?);
    }
    let mut workers = vec![];
    for i in 0..n {
        workers.push(join(&format!("w{i}"), i == 0)?);
    }
    let (tx, rx) = match owner {
        Some(o) => o,
        None => join("owner", false)?,
    };
    let owner_reader = crate::bus::Reader::spawn(rx);

    let fates: Arc<Mutex<HashMap<u64, Arc<Fate>>>> = Default::default();
    let stop = AtomicBool::new(false);
    let armed = interpose::armed();
    if !armed {
        interpose::arm(c.seed, 0, c.delay as u64);
    }
    let mut problem: Res = Ok(());
    let mut reused = 0;
    let results: Vec<Res> = thread::scope(|s| {
        let threads: Vec<_> = workers
            .into_iter()
            .enumerate()
            .map(|(i, (tx, mut rx))| {
                let (fates, stop) = (fates.clone(), &stop);
                s.spawn(move || -> Res {
                    let who = format!("worker {i}");
                    // sends on by another thread and goes on receiving after a violation, so that nobody
                    // is blocked
                    let (queue, rest) = mpsc::channel::<Message<Msg>>();
                    let forward = s.spawn(move || rest.into_iter().try_for_each(|m| tx.send(m)).map_err(|e| Bad::Fail(format!("send: {e}"))));
                    let mut problem: Res = Ok(());
                    while !stop.load(SeqCst) {
                        let m = match rx.recv(Some(Duration::from_millis(10))) {
                            Ok(m) => m,
                            Err(RecvError::Timeout) => continue,
                            Err(e) => return Err(Bad::Fail(format!("recv: {e}"))),
                        };
                        let Msg::Tagged(t) = m.payload else { continue };
                        let hops = t.from;
                        let hold = t.lane as u64;
                        let mut mrs = m.memory_regions;
                        if mrs.len() != 1 {
                            problem = problem.and(Err(Bad::Fail(format!("{who} received {} regions instead of one", mrs.len()))));
                            continue;
                        }
                        let mut mr = mrs.remove(0);
                        let fate = fates.lock().unwrap()[&t.seq].clone();
                        let mut ok = verify(&mut mr, t.seq, &who);
                        if hold > 0 {
                            thread::sleep(Duration::from_micros(hold));
                            ok = ok.and(verify(&mut mr, t.seq, &who));
                        }
                        if contents {
                            problem = problem.and(ok);
                        }
                        if hops > 0 {
                            let to = Expr::leaf(&format!("w{}", (i + 1) % n));
                            let mut m = Message::new(selector(SelectorMode::Unicast, &to, 0), Msg::Tagged(Tagged { from: hops - 1, ..t }));
                            m.memory_regions.push(mr);
                            let _ = queue.send(m);
                        } else {
                            fate.done.fetch_add(1, SeqCst);
                            drop(mr);
                        }
                    }
                    drop(queue);
                    problem.and(forward.join().unwrap_or(Err(Bad::Fail("send panicked".into()))))
                })
            })
            .collect();

        let mut registry = MemoryRegistry::default();
        let early: Arc<Mutex<Option<String>>> = Default::default();
        let mut own: Vec<(usize, u64, Arc<Fate>, MemoryRegion)> = vec![];
        let mut inodes = std::collections::HashSet::new();
        let mut run = || -> Res {
            for (k, it) in c.items.iter().enumerate() {
                let serial = k as u64 + 1;
                // handles of the owner are kept for some time
                let mut i = 0;
                while i < own.len() {
                    if own[i].0 <= k {
                        let (_, serial, fate, mut mr) = own.swap_remove(i);
                        if contents {
                            verify(&mut mr, serial, "the owner")?;
                        }
                        fate.kept.store(false, SeqCst);
                        drop(mr);
                    } else {
                        i += 1;
                    }
                }
                if it.maintain {
                    registry.maintain();
                }
                let (mode, to, expected) = match it.to as usize % (n + 2) {
                    k if k < n => (SelectorMode::Unicast, Expr::leaf(&format!("w{k}")), 1),
                    k if k == n => (SelectorMode::Unicast, Expr::leaf("w"), 1),
                    _ => (SelectorMode::Multicast, Expr::leaf("w"), n as u32),
                };
                let fate = Arc::new(Fate { expected, kept: AtomicBool::new(it.keep > 0), at: real_now(), ..Default::default() });
                fates.lock().unwrap().insert(serial, fate.clone());
                let (f, e) = (fate.clone(), early.clone());
                let mr = registry.alloc_with_free(it.size as usize, it.tag.then_some("t"), move || {
                    if f.calls.fetch_add(1, SeqCst) > 0 {
                        *e.lock().unwrap() = Some(format!("the callback of allocation {serial} was called again"));
                    }
                    let done = f.done.load(SeqCst);
                    // a registry gives up after 5 s
                    if (done < f.expected || f.kept.load(SeqCst)) && real_now() - f.at < KEEP - Duration::from_millis(100) {
                        *e.lock().unwrap() = Some(format!("the callback of allocation {serial} was called when {done} of {} receivers had finished with it", f.expected));
                    }
                });
                let Some(mut mr) = mr else { fail!("allocating {} bytes returned nothing", it.size) };
                if !inodes.insert(mr.object().as_raw_ino()) {
                    reused += 1;
                }
                let size = mr.buffer_size() as usize;
                let b = mr.map(..).map_err(|e| Bad::Fail(format!("map: {e}")))?;
                b[..8].copy_from_slice(&serial.to_le_bytes());
                b[size - 8..].copy_from_slice(&serial.to_le_bytes());
                let mut m = Message::new(
                    selector(mode, &to, 0),
                    Msg::Tagged(Tagged { seq: serial, from: it.forward.into(), lane: it.hold, body: vec![] }),
                );
                if it.keep > 0 {
                    own.push((k + it.keep as usize, serial, fate, mr.clone().expect("clone")));
                }
                m.memory_regions.push(mr);
                tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
            }
            for (_, serial, fate, mut mr) in own.drain(..) {
                if contents {
                    verify(&mut mr, serial, "the owner")?;
                }
                fate.kept.store(false, SeqCst);
                drop(mr);
            }
            Ok(())
        };
        problem = run();
        if problem.is_ok() {
            // until all have finished
            let end = real_now() + PATIENCE;
            let all = || fates.lock().unwrap().values().all(|f| f.done.load(SeqCst) >= f.expected);
            while !all() {
                if real_now() > end {
                    problem = Err(Bad::Slow("some messages with regions were not received".into()));
                    break;
                }
                thread::sleep(Duration::from_micros(200));
            }
        }
        // the copies of the bus are gone when it has taken the next but one
        for k in 1..=2 {
            let m = Message::new(selector(SelectorMode::Unicast, &Expr::leaf("owner"), 0), Msg::Fence(crate::bus::Fence { n: k }));
            if problem.is_ok() {
                problem = tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")));
            }
            let seen = owner_reader.wait(PATIENCE, |q| q.iter().any(|e| matches!(e, Event::Msg(m) if matches!(&m.payload, Msg::Fence(f) if f.n == k))).then_some(()));
            if problem.is_ok() && seen.is_none() {
                problem = Err(Bad::Slow("a message was not received".into()));
            }
        }
        stop.store(true, SeqCst);
        let results: Vec<Res> = threads.into_iter().map(|t| t.join().unwrap_or(Err(Bad::Fail("a worker panicked".into())))).collect();
        if callbacks && problem.is_ok() {
            registry.maintain();
            for (serial, f) in fates.lock().unwrap().iter() {
                let calls = f.calls.load(SeqCst);
                if calls != 1 {
                    problem = Err(Bad::Fail(format!("all handles of allocation {serial} are gone, its callback was called {calls} times after maintain")));
                }
            }
        }
        drop(registry);
        if let (true, Some(e)) = (callbacks, early.lock().unwrap().take()) {
            problem = Err(Bad::Fail(e));
        }
        results
    });
    if !armed {
        interpose::disarm();
    }
    for r in results {
        r?;
    }
    problem?;
    cx.class("allocations used by other threads");
    cx.class_if(reused > 0, "reused while others are in use");
    cx.nontrivial |= reused > 0;
    Ok(())
}

trait Ino {
    fn as_raw_ino(&self) -> u64;
}

impl Ino for ipmb::Object {
    fn as_raw_ino(&self) -> u64 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            assert_eq!(libc::fstat(self.as_raw(), &mut st), 0);
            st.st_ino
        }
    }
}

//! C25: descriptors, mappings and memory come back.

use crate::{
    agent::{Agent, Order, Report},
    alloc,
    bus::{body, fresh_identifier, join_options, label_strategy, selector, Bad, Event, Expr, Fence, Msg, Reader, Res, Tagged, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::{self, real_now},
    props::objects::{new_object, obj_kind, ObjKind},
    raw,
};
use ipmb::{EndpointReceiver, EndpointSender, JoinError, Label, LabelOp, MemoryRegion, MemoryRegistry, Message, RecvError, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Arc,
    },
    thread,
    time::Duration,
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    /// A silent endpoint doesn't read
    Join { label: Vec<String>, silent: bool },
    Refused { version: bool },
    NoBus { ms: u64 },
    /// What is presented doesn't fit
    TooLong { label: bool, kb: u32, ms: u64 },
    /// The identifier belongs to somebody who is not a bus
    Impostor { how: u8, ms: u64, attempts: u8 },
    /// Drop the receiver, the sender or both
    Leave { e: u8, rx: bool, tx: bool },
    CloneSender { e: u8 },
    Send { e: u8, expr: Expr, uni: bool, ttl: u64, size: u32, objects: Vec<ObjKind>, regions: Vec<u16> },
    Oversized { e: u8, kb: u32, objects: u8, many: bool },
    /// Look at what arrived and drop it
    Consume { e: u8 },
    RecvTimeout,
    Region { size: u32, map: bool, clones: u8 },
    BadMap { size: u32 },
    Registry { sizes: Vec<u16>, keep: bool },
    DropRegions,
    /// A frame by somebody who is not a member, with attachments
    Raw { kind: u8, fds: u8 },
    Advance { ms: u64 },
    Spawn,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    History {
        hosts: u8,
        /// Processes are started all the time
        spawner: bool,
        ops: Vec<Op>,
    },
    /// The hosting process dies again and again
    Rejoin { kills: u8, signal: bool, receiver: bool, sends: u8, affinity: bool },
}

pub struct Leaks;

/// Open descriptors and mappings by kind
pub fn census() -> BTreeMap<String, i64> {
    let mut out = BTreeMap::new();
    for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
        let Ok(l) = std::fs::read_link(e.path()) else { continue };
        let l = l.to_string_lossy().into_owned();
        if l.starts_with("/proc/") {
            continue;
        }
        let kind = l.split(":[").next().unwrap().to_owned();
        *out.entry(kind).or_default() += 1;
    }
    for l in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
        if l.contains("memfd:") || l.contains("/dev/shm") || l.contains("(deleted)") {
            *out.entry("mapping".to_owned()).or_default() += 1;
        }
    }
    out
}

/// What the process was started with
pub fn inherited() {
    for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
        let fd: i32 = e.file_name().to_string_lossy().parse().unwrap_or(-1);
        if let Ok(l) = std::fs::read_link(e.path()) {
            let l = l.to_string_lossy();
            if fd > 2 && !l.starts_with("/proc/") {
                println!("{fd} {l}");
            }
        }
    }
}

fn spawn_helper(known: &[String]) -> Res {
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("fds")
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| Bad::Skip(format!("spawn: {e}")))?;
    let s = String::from_utf8_lossy(&out.stdout);
    for l in s.lines() {
        let link = l.split_once(' ').map_or("", |x| x.1);
        ensure!(known.iter().any(|k| k == link), "a process started by this one inherited {l}");
    }
    Ok(())
}

struct Member {
    tx: Vec<EndpointSender<Msg>>,
    rx: Option<EndpointReceiver<Msg>>,
    reader: Option<Reader<Msg>>,
    label: Vec<String>,
    unread: u64,
}

impl Member {
    fn drain(&mut self) -> Res {
        if let Some(rx) = self.rx.take() {
            self.reader = Some(Reader::spawn(rx));
            self.unread = 0;
        }
        Ok(())
    }
}

struct Bus {
    id: String,
    host: Member,
    members: Vec<Member>,
    fence: u64,
}

impl Bus {
    fn new() -> Res<Self> {
        let id = fresh_identifier();
        let (tx, rx) = ipmb::join::<Msg, Msg>(join_options(&id, "t", &["h".to_owned()], true), Some(PATIENCE)).map_err(|e| Bad::Slow(e.to_string()))?;
        Ok(Bus { id, host: Member { tx: vec![tx], rx: None, reader: Some(Reader::spawn(rx)), label: vec!["h".to_owned()], unread: 0 }, members: vec![], fence: 0 })
    }

    /// The host hears itself after everything sent before
    fn fence(&mut self) -> Res {
        self.fence += 1;
        let n = self.fence;
        let m = Message::new(selector(SelectorMode::Unicast, &Expr::leaf("h"), 0), Msg::Fence(Fence { n }));
        self.host.tx[0].send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
        let r = self.host.reader.as_ref().unwrap().wait(PATIENCE, |q| {
            let found = q.iter().any(|e| matches!(e, Event::Msg(m) if matches!(&m.payload, Msg::Fence(f) if f.n == n)));
            if found {
                q.clear();
            }
            found.then_some(())
        });
        r.ok_or(Bad::Slow("the host did not hear itself".into()))
    }

    /// A member joins, says something and leaves
    fn visit(&mut self) -> Res {
        let (tx, rx) = ipmb::join::<Msg, Msg>(join_options(&self.id, "t", &["v".to_owned()], false), Some(PATIENCE)).map_err(|e| Bad::Slow(e.to_string()))?;
        let mut r = MemoryRegion::new(64).unwrap();
        r.map(..).unwrap()[0] = 1;
        for expr in [Expr::leaf("h"), Expr::leaf("v"), Expr::leaf("nobody")] {
            let mut m = Message::new(selector(SelectorMode::Multicast, &expr, 5), Msg::Tagged(Tagged { seq: 0, from: 0, lane: 0, body: body(1, 50_000) }));
            m.objects.push(new_object(ObjKind::EventFd));
            m.memory_regions.push(r.clone().map_err(|e| Bad::Skip(e.to_string()))?);
            tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
        }
        let r = Reader::spawn(rx);
        r.wait(PATIENCE, |q| (!q.is_empty()).then_some(())).ok_or(Bad::Slow("a member did not hear itself".into()))?;
        Ok(())
    }

    /// The bus notices who has left and what has expired
    fn settle(&mut self) -> Res {
        interpose::advance(Duration::from_secs(31));
        self.fence()?;
        // what the others sent before leaving
        self.fence()
    }
}

fn find<'a>(buses: &'a mut [Bus], e: u8) -> &'a mut Member {
    let n: usize = buses.iter().map(|b| b.members.len() + 1).sum();
    let mut i = e as usize % n;
    for b in buses.iter_mut() {
        if i == 0 {
            return &mut b.host;
        }
        if i <= b.members.len() {
            return &mut b.members[i - 1];
        }
        i -= b.members.len() + 1;
    }
    unreachable!()
}

/// Messages are about to be sent: nobody may be too far behind
fn make_room(buses: &mut [Bus], size: u64) -> Res {
    for m in buses.iter_mut().flat_map(|b| b.members.iter_mut()) {
        m.unread += size + 4000;
        if m.unread > 60_000 {
            m.drain()?;
        }
    }
    Ok(())
}

fn raw_frame(id: &str, kind: u8, fds: &[RawFd]) -> Res {
    let slow = |e: std::io::Error| Bad::Skip(format!("raw: {e}"));
    let v = raw::own_version();
    let sel = |uuid| raw::selector_bytes(&raw::RawSelector::new(LabelOp::from("h"), SelectorMode::Unicast, uuid));
    let sock = raw::dial(id).map_err(slow)?;
    let mut reply = vec![];
    let data = match kind % 8 {
        0 => vec![],
        1 => vec![0xff; 40],
        2 => raw::frame((99, 0, 0), &sel(raw::CONNECT), &[]),
        3 => raw::frame(v, &sel(raw::CONNECT), &[1, 2, 3]),
        4 => raw::connect_frame(v, v, "wrong", &Label::default()),
        5 => raw::connect_frame(v, (99, 0, 0), "t", &Label::default()),
        6 => raw::connect_frame(v, v, "t", &Label::default()),
        _ => raw::frame(v, &sel([9; 16]), &[0; 16]),
    };
    if (2..7).contains(&(kind % 8)) {
        let (r, w) = raw::reply_pair();
        reply.push(r);
        reply.push(w);
    }
    let mut all: Vec<RawFd> = reply.get(1).map(|w| w.as_raw_fd()).into_iter().collect();
    all.extend_from_slice(fds);
    raw::send(sock.as_raw_fd(), &data, &all).map_err(slow)
}

/// Somebody who is not a bus listens. Nobody joins, nothing stays.
fn impostor(how: u8, ms: u64, attempts: u8) -> Res {
    let id = fresh_identifier();
    let listener = raw::listen(&id).map_err(|e| Bad::Skip(format!("raw: {e}")))?;
    let stop = Arc::new(AtomicBool::new(false));
    let other = {
        let stop = stop.clone();
        thread::spawn(move || {
            while !stop.load(SeqCst) {
                let Ok(sock) = raw::accept(listener.as_raw_fd(), Duration::from_millis(2)) else { continue };
                if how % 7 == 0 {
                    continue;
                }
                let Ok(Some((_, fds))) = raw::recv(sock.as_raw_fd(), Duration::from_millis(50)) else { continue };
                let v = raw::own_version();
                let sel = |uuid| raw::selector_bytes(&raw::RawSelector::new(LabelOp::True, SelectorMode::Unicast, uuid));
                let ack = |a: raw::Ack| raw::frame(v, &sel(raw::CONNECT_ACK), &ipmb::encode(&a).unwrap());
                let answer = match how % 7 {
                    1 => continue,
                    2 => vec![0x55; 64],
                    3 => ack(raw::Ack::ErrVersion((99, 0, 0))),
                    4 => ack(raw::Ack::ErrToken),
                    5 => raw::frame(v, &sel([7; 16]), &[1; 9]),
                    // truncated
                    _ => raw::frame(v, &sel(raw::CONNECT_ACK), &[9])[..14].to_vec(),
                };
                if let Some(f) = fds.first() {
                    let extra: Vec<OwnedFd> = (0..how / 7 % 3).map(|_| unsafe { OwnedFd::from_raw_fd(libc::eventfd(0, libc::EFD_CLOEXEC)) }).collect();
                    let _ = raw::send(f.as_raw_fd(), &answer, &extra.iter().map(|f| f.as_raw_fd()).collect::<Vec<_>>());
                }
            }
        })
    };
    interpose::fast_sleep(true);
    let mut r = Ok(());
    for _ in 0..1 + attempts % 3 {
        if ipmb::join::<Msg, Msg>(join_options(&id, "t", &["m".to_owned()], false), Some(Duration::from_millis(ms))).is_ok() {
            r = Err(Bad::Fail("joined what is not a bus".into()));
        }
    }
    interpose::fast_sleep(false);
    stop.store(true, SeqCst);
    other.join().map_err(|_| Bad::Fail("impostor".into()))?;
    r
}

fn history(hosts: u8, spawner: bool, ops: &[Op], cx: &mut Cx) -> Res {
    let inherited: Vec<String> = std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).map(|l| l.to_string_lossy().into_owned()).filter(|l| !l.starts_with("/proc")).collect();
    let mut buses = vec![];
    for _ in 0..hosts.clamp(1, 2) {
        buses.push(Bus::new()?);
    }
    for b in &mut buses {
        b.visit()?;
        b.settle()?;
        b.visit()?;
        b.settle()?;
    }
    // asynchronous parts of it
    let mut base = census();
    for _ in 0..200 {
        thread::sleep(Duration::from_millis(2));
        let c = census();
        if c == base {
            break;
        }
        base = c;
    }
    let held = alloc::everything();

    let stop = Arc::new(AtomicBool::new(false));
    let helper = spawner.then(|| {
        let (stop, known) = (stop.clone(), inherited.clone());
        thread::spawn(move || {
            let mut n = 0;
            loop {
                spawn_helper(&known)?;
                n += 1;
                if stop.load(SeqCst) || n > 60 {
                    break Ok::<_, Bad>(n);
                }
            }
        })
    });
    let mut regions: Vec<MemoryRegion> = vec![];
    let mut registries: Vec<MemoryRegistry> = vec![];
    let mut seq = 0;
    let mut bytes = 0u64;
    let mut run = || -> Res {
        for op in ops {
            match op {
                Op::Join { label, silent } => {
                    let n = buses.len();
                    let b = &mut buses[seq as usize % n];
                    if b.members.len() >= 6 {
                        continue;
                    }
                    let r = ipmb::join::<Msg, Msg>(join_options(&b.id, "t", label, true), Some(PATIENCE));
                    let (tx, rx) = r.map_err(|e| if matches!(e, JoinError::Timeout) { Bad::Slow(e.to_string()) } else { Bad::Fail(e.to_string()) })?;
                    let mut m = Member { tx: vec![tx], rx: Some(rx), reader: None, label: label.clone(), unread: 0 };
                    if !silent {
                        m.drain()?;
                    }
                    cx.class_if(*silent, "endpoint which doesn't read");
                    b.members.push(m);
                }
                Op::Refused { version } => {
                    let id = buses[0].id.clone();
                    if *version {
                        let r = raw::Conn::join(&id, raw::own_version(), (99, 0, 0), "t", &Label::default(), PATIENCE).map_err(|e| Bad::Slow(e.to_string()))?;
                        ensure!(matches!(r.1, Some((_, raw::Ack::ErrVersion(_)))), "another version was admitted");
                    } else {
                        let r = ipmb::join::<Msg, Msg>(join_options(&id, "wrong", &[], true), Some(PATIENCE));
                        ensure!(matches!(r, Err(JoinError::TokenMismatch)), "a wrong token was admitted");
                    }
                    cx.class("refused");
                }
                Op::NoBus { ms } => {
                    let r = ipmb::join::<Msg, Msg>(join_options(&fresh_identifier(), "t", &[], false), Some(Duration::from_millis(*ms)));
                    ensure!(r.is_err(), "joined nothing");
                }
                Op::TooLong { label, kb, ms } => {
                    let long = "x".repeat(*kb as usize * 1024);
                    let id = buses[0].id.clone();
                    let o = if *label { join_options(&id, "t", &[long], false) } else { join_options(&id, &long, &[], false) };
                    interpose::fast_sleep(true);
                    let r = ipmb::join::<Msg, Msg>(o, Some(Duration::from_millis(*ms)));
                    interpose::fast_sleep(false);
                    ensure!(r.is_err(), "joined with {kb} kB of {}", if *label { "label" } else { "token" });
                    cx.class("join which doesn't fit");
                }
                Op::Impostor { how, ms, attempts } => {
                    impostor(*how, *ms, *attempts)?;
                    cx.class("no bus at the identifier");
                }
                Op::Leave { e, rx, tx } => {
                    let m = find(&mut buses, *e);
                    if m.label == ["h"] {
                        continue;
                    }
                    if *rx {
                        m.rx = None;
                        m.reader = None;
                    }
                    if *tx {
                        m.tx.clear();
                    }
                    for b in &mut buses {
                        b.members.retain(|m| m.rx.is_some() || m.reader.is_some() || !m.tx.is_empty());
                    }
                    cx.class("endpoint left");
                }
                Op::CloneSender { e } => {
                    let m = find(&mut buses, *e);
                    if let Some(t) = m.tx.first() {
                        let t = t.clone();
                        m.tx.push(t);
                    }
                }
                Op::Send { e, expr, uni, ttl, size, objects, regions: rs } => {
                    make_room(&mut buses, *size as u64)?;
                    seq += 1;
                    let Some(tx) = find(&mut buses, *e).tx.first().cloned() else { continue };
                    let mode = if *uni { SelectorMode::Unicast } else { SelectorMode::Multicast };
                    let mut m = Message::new(selector(mode, expr, *ttl), Msg::Tagged(Tagged { seq, from: 0, lane: 0, body: body(seq, *size as usize) }));
                    m.objects.extend(objects.iter().map(|k| new_object(*k)));
                    for n in rs {
                        let r = if *n % 3 == 0 && !regions.is_empty() {
                            regions[*n as usize % regions.len()].clone().map_err(|e| Bad::Skip(e.to_string()))?
                        } else {
                            let mut r = MemoryRegion::new(*n as usize).ok_or(Bad::Skip("region".into()))?;
                            if n % 2 == 0 {
                                let _ = r.map(..);
                            }
                            r
                        };
                        m.memory_regions.push(r);
                    }
                    cx.class_if(!objects.is_empty() || !rs.is_empty(), "attachments sent");
                    cx.nontrivial |= !objects.is_empty() || !rs.is_empty();
                    bytes += *size as u64;
                    tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
                }
                Op::Oversized { e, kb, objects, many } => {
                    make_room(&mut buses, 60_000)?;
                    let m = find(&mut buses, *e);
                    let host = m.label == ["h"];
                    let Some(tx) = m.tx.first().cloned() else { continue };
                    let size = if *many { 10 } else { *kb as usize * 1024 };
                    let mut msg = Message::new(selector(SelectorMode::Multicast, &Expr::T, 0), Msg::Tagged(Tagged { seq: 0, from: 0, lane: 0, body: body(1, size) }));
                    let n = if *many { 254 + *objects as usize % 40 } else { *objects as usize % 5 };
                    for _ in 0..n {
                        msg.objects.push(new_object(ObjKind::EventFd));
                    }
                    msg.memory_regions.push(MemoryRegion::new(16).ok_or(Bad::Skip("region".into()))?);
                    let r = tx.send(msg);
                    ensure!(host || r.is_err(), "a message of {size} bytes and {n} objects was accepted");
                    cx.class("oversized");
                }
                Op::Consume { e } => {
                    let m = find(&mut buses, *e);
                    if let Some(r) = &m.reader {
                        for ev in r.take() {
                            if let Event::Msg(mut m) = ev {
                                for r in &mut m.memory_regions {
                                    let _ = r.map(..);
                                }
                                if let Some(r) = m.memory_regions.pop() {
                                    regions.push(r);
                                }
                            }
                        }
                    } else if let Some(rx) = m.rx.as_mut() {
                        match rx.recv(Some(Duration::from_millis(1))) {
                            Ok(_) | Err(RecvError::Timeout) => {}
                            Err(e) => fail!("recv: {e}"),
                        }
                    }
                }
                Op::RecvTimeout => {
                    for b in &mut buses {
                        for m in &mut b.members {
                            if let Some(rx) = m.rx.as_mut() {
                                let _ = rx.recv(Some(Duration::ZERO));
                            }
                        }
                    }
                }
                Op::Region { size, map, clones } => {
                    let mut r = MemoryRegion::new(*size as usize).ok_or(Bad::Skip("region".into()))?;
                    if *map {
                        let _ = r.map(..);
                        let _ = r.map(..);
                        let _ = r.map(1..);
                    }
                    for _ in 0..*clones {
                        regions.push(r.clone().map_err(|e| Bad::Skip(e.to_string()))?);
                    }
                    regions.push(r);
                }
                Op::BadMap { size } => {
                    let mut r = MemoryRegion::new(*size as usize).ok_or(Bad::Skip("region".into()))?;
                    ensure!(r.map(*size as usize + 1..).is_err(), "mapped nothing");
                    ensure!(MemoryRegion::new(usize::MAX).is_none(), "impossible region");
                }
                Op::Registry { sizes, keep } => {
                    let mut g = MemoryRegistry::default();
                    for s in sizes {
                        let mut r = g.alloc(*s as usize, None).ok_or(Bad::Skip("region".into()))?;
                        let _ = r.map(..);
                        if *s % 2 == 0 {
                            regions.push(r);
                        }
                    }
                    g.maintain();
                    if *keep {
                        registries.push(g);
                    }
                }
                Op::DropRegions => regions.clear(),
                Op::Raw { kind, fds } => {
                    let fds: Vec<OwnedFd> = (0..*fds % 6).map(|_| unsafe { OwnedFd::from_raw_fd(libc::eventfd(0, libc::EFD_CLOEXEC)) }).collect();
                    let raws: Vec<RawFd> = fds.iter().map(|f| f.as_raw_fd()).collect();
                    raw_frame(&buses[0].id.clone(), *kind, &raws)?;
                    cx.class("malformed");
                }
                Op::Advance { ms } => interpose::advance(Duration::from_millis(*ms)),
                Op::Spawn => {
                    spawn_helper(&inherited)?;
                    cx.class("process started");
                }
            }
        }
        Ok(())
    };
    let r = run();
    stop.store(true, SeqCst);
    if let Some(h) = helper {
        let n = h.join().map_err(|_| Bad::Fail("spawner".into()))??;
        cx.class(format!("{} processes started meanwhile", if n > 10 { "more than 10" } else { "some" }));
    }
    r?;
    regions.clear();
    registries.clear();
    for b in &mut buses {
        for m in &b.members {
            if let Some(r) = &m.reader {
                r.stop_soon();
            }
        }
        b.members.clear();
        // a message starts waiting when the bus takes it
        b.fence()?;
        b.fence()?;
        // the longest time to live
        interpose::advance(Duration::from_secs(100));
        b.settle()?;
    }
    let end = real_now() + PATIENCE;
    loop {
        let now = census();
        let more: Vec<String> = now.iter().filter(|(k, n)| **n > base.get(*k).copied().unwrap_or(0)).map(|(k, n)| format!("{k}: {n} instead of {}", base.get(k).copied().unwrap_or(0))).collect();
        if more.is_empty() {
            break;
        }
        if real_now() > end {
            fail!("left over although everything was dropped: {}", more.join(", "));
        }
        // a message may have been taken only after the clock was advanced, its time starts then
        interpose::advance(Duration::from_secs(100));
        for b in &mut buses {
            b.settle()?;
        }
        thread::sleep(Duration::from_millis(3));
    }
    let grown = alloc::everything() - held;
    ensure!(grown < 600_000, "{grown} bytes of memory are left over after messages of {bytes} bytes were sent and everything was dropped");
    Ok(())
}

fn rejoin(kills: u8, signal: bool, receiver: bool, sends: u8, affinity: bool, cx: &mut Cx) -> Res {
    interpose::fast_sleep(true);
    let r = rejoin_fast(kills, signal, receiver, sends, affinity, cx);
    interpose::fast_sleep(false);
    r
}

fn rejoin_fast(kills: u8, signal: bool, receiver: bool, sends: u8, affinity: bool, cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let host = || -> Res<Agent> {
        let mut a = Agent::spawn();
        a.tell(&Order::Join { identifier: id.clone(), token: "t".into(), label: vec!["h".into()], affinity: true, limit: Some(100), deaf: false });
        a.wait(PATIENCE, |r| r.iter().any(|r| matches!(r, Report::Joined)).then_some(())).ok_or(Bad::Slow("the host did not join".into()))?;
        Ok(a)
    };
    let mut a = host()?;
    let (tx, rx) = ipmb::join::<Msg, Msg>(join_options(&id, "t", &["m".to_owned()], false), Some(PATIENCE)).map_err(|e| Bad::Slow(e.to_string()))?;
    let mut reader = None;
    if receiver {
        reader = Some(Reader::spawn(rx));
    } else {
        drop(rx);
    }
    let mut first: Option<BTreeMap<String, i64>> = None;
    for k in 0..=kills.clamp(2, 4) {
        // both directions work
        let lane = k as u16;
        let hears = |r: &[Report]| r.iter().any(|r| matches!(r, Report::Got { lane: l, .. } if *l == lane)).then_some(());
        for s in 0..1 + sends % 4 {
            let mut m = Message::new(selector(SelectorMode::Multicast, &Expr::T, 1000), Msg::Tagged(Tagged { seq: s as u64, from: 0, lane, body: vec![] }));
            m.objects.push(new_object(ObjKind::EventFd));
            m.memory_regions.push(MemoryRegion::new(100).ok_or(Bad::Skip("region".into()))?);
            tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
        }
        a.wait(PATIENCE, hears).ok_or(Bad::Slow("the host did not hear the member".into()))?;
        if let Some(r) = &reader {
            r.wait(PATIENCE, |q| q.iter().any(|e| matches!(e, Event::Msg(m) if matches!(&m.payload, Msg::Tagged(t) if t.lane == lane))).then_some(())).ok_or(Bad::Slow("the member did not hear itself".into()))?;
        }
        let end = real_now() + PATIENCE;
        loop {
            if let Some(r) = &reader {
                r.take();
            }
            let now = census();
            // the pipes belong to the agents
            let f = first.get_or_insert_with(|| now.clone());
            let more: Vec<String> = now.iter().filter(|(n, c)| *n != "pipe" && **c > f.get(*n).copied().unwrap_or(0)).map(|(n, c)| format!("{n}: {c} instead of {}", f.get(n).copied().unwrap_or(0))).collect();
            if more.is_empty() {
                *first.as_mut().unwrap() = now;
                break;
            }
            if real_now() > end {
                fail!("after the death of {k} hosts more is open than before: {}", more.join(", "));
            }
            thread::sleep(Duration::from_millis(3));
        }
        if k == kills.clamp(2, 4) {
            break;
        }
        a.kill(if signal { libc::SIGKILL } else { libc::SIGTERM });
        a = host()?;
        if !receiver {
            // notices by sending only
            let _ = tx.send(Message::new(selector(SelectorMode::Multicast, &Expr::F, 0), Msg::Fence(Fence { n: 0 })));
        }
    }
    let _ = affinity;
    cx.nontrivial = true;
    cx.class("hosts died");
    Ok(())
}

impl Prop for Leaks {
    const ID: &'static str = "C25";
    const RULE: &'static str = "random histories in a process of its own hosting one or two buses: joins (also refused, in vain, too long for a frame, to somebody who isn't a bus, never reading), departures in any order, messages with attachments to anybody or nobody, oversized ones, malformed ones with attachments, regions, registries, all under a virtual clock and with processes started meanwhile, which must inherit nothing; at the end everything but the hosting endpoints is dropped and the open descriptors by kind, the mappings and (within 600 kB) the memory must be as before; or a member whose host dies again and again must not hold more each time; non-trivial: attachments were sent, or hosts died";
    type Case = Case;
    const CASES: (usize, usize) = (1600, 40_000);
    const RECYCLE: usize = 1;

    fn strategy(_t: bool) -> BoxedStrategy<Case> {
        let ix = any::<u8>;
        let expr = || {
            prop_oneof![
                2 => Just(Expr::T),
                1 => Just(Expr::F),
                2 => Just(Expr::leaf("h")),
                4 => prop::sample::select(vec!["a", "b", "c"]).prop_map(Expr::leaf),
            ]
        };
        let ttl = prop_oneof![4 => Just(0u64), 3 => 1u64..100_000];
        let size = prop_oneof![6 => 0u32..1000, 2 => 0u32..60_000];
        let op = prop_oneof![
            6 => (label_strategy(), prop::bool::weighted(0.4)).prop_map(|(label, silent)| Op::Join { label, silent }),
            1 => any::<bool>().prop_map(|version| Op::Refused { version }),
            1 => (0u64..20).prop_map(|ms| Op::NoBus { ms }),
            1 => (any::<bool>(), 300u32..1200, 0u64..20).prop_map(|(label, kb, ms)| Op::TooLong { label, kb, ms }),
            1 => (ix(), 0u64..30, ix()).prop_map(|(how, ms, attempts)| Op::Impostor { how, ms, attempts }),
            4 => (ix(), any::<bool>(), any::<bool>()).prop_map(|(e, rx, tx)| Op::Leave { e, rx, tx }),
            1 => ix().prop_map(|e| Op::CloneSender { e }),
            12 => (ix(), expr(), any::<bool>(), ttl, size, prop::collection::vec(obj_kind(), 0..4), prop::collection::vec(0u16..9000, 0..4))
                .prop_map(|(e, expr, uni, ttl, size, objects, regions)| Op::Send { e, expr, uni, ttl, size, objects, regions }),
            2 => (ix(), 300u32..1200, ix(), any::<bool>()).prop_map(|(e, kb, objects, many)| Op::Oversized { e, kb, objects, many }),
            3 => ix().prop_map(|e| Op::Consume { e }),
            1 => Just(Op::RecvTimeout),
            2 => (0u32..20_000, any::<bool>(), 0u8..3).prop_map(|(size, map, clones)| Op::Region { size, map, clones }),
            1 => (0u32..9000).prop_map(|size| Op::BadMap { size }),
            1 => (prop::collection::vec(1u16..9000, 1..5), any::<bool>()).prop_map(|(sizes, keep)| Op::Registry { sizes, keep }),
            1 => Just(Op::DropRegions),
            4 => (ix(), ix()).prop_map(|(kind, fds)| Op::Raw { kind, fds }),
            1 => (1u64..60_000).prop_map(|ms| Op::Advance { ms }),
            1 => Just(Op::Spawn),
        ];
        let history = (1u8..3, prop::bool::weighted(0.3), prop::collection::vec(op, 1..60)).prop_map(|(hosts, spawner, ops)| Case::History { hosts, spawner, ops });
        let rejoin = (2u8..5, any::<bool>(), any::<bool>(), any::<u8>(), any::<bool>()).prop_map(|(kills, signal, receiver, sends, affinity)| Case::Rejoin { kills, signal, receiver, sends, affinity });
        prop_oneof![14 => history, 1 => rejoin].boxed()
    }

    fn run(c: &Case, cx: &mut Cx) -> Res {
        match c {
            Case::History { hosts, spawner, ops } => history(*hosts, *spawner, ops, cx),
            Case::Rejoin { kills, signal, receiver, sends, affinity } => rejoin(*kills, *signal, *receiver, *sends, *affinity, cx),
        }
    }
}

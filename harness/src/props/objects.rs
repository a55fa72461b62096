//! C07, C08, C09: attachments and memory regions.

use crate::{
    bus::{body, expr_strategy, label_strategy, name_strategy, selector, Bad, Event, Expr, Msg, Res, Tagged, World, PATIENCE},
    def::{Cx, Prop},
    ensure, fail, interpose,
    props::routing::open_fds,
};
use ipmb::{MemoryRegion, Message, Object, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    ops::Bound,
    time::{Duration, Instant},
};

// ------------------------------------------------------------------ kernel objects

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum ObjKind {
    PipeRead,
    PipeWrite,
    Socket,
    EventFd,
    MemFd,
    Dir,
}

pub fn obj_kind() -> BoxedStrategy<ObjKind> {
    prop::sample::select(vec![ObjKind::PipeRead, ObjKind::PipeWrite, ObjKind::Socket, ObjKind::EventFd, ObjKind::MemFd, ObjKind::Dir]).boxed()
}

pub fn new_object(k: ObjKind) -> Object {
    unsafe {
        let mut p = [0; 2];
        let fd = match k {
            ObjKind::PipeRead | ObjKind::PipeWrite => {
                assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
                if k == ObjKind::PipeRead {
                    libc::close(p[1]);
                    p[0]
                } else {
                    libc::close(p[0]);
                    p[1]
                }
            }
            ObjKind::Socket => {
                assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()), 0);
                libc::close(p[1]);
                p[0]
            }
            ObjKind::EventFd => libc::eventfd(7, libc::EFD_CLOEXEC),
            ObjKind::MemFd => libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC),
            ObjKind::Dir => libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC),
        };
        assert!(fd >= 0, "can't create {k:?}");
        Object::from_raw(fd)
    }
}

/// Whether two descriptors of this process refer to the same open file description
pub fn same_file(a: i32, b: i32) -> bool {
    let pid = std::process::id() as i64;
    let r = unsafe { interpose::raw6(libc::SYS_kcmp, pid, pid, 0, a as i64, b as i64, 0) };
    assert!((0..=3).contains(&r), "kcmp: {r}");
    r == 0
}

// ------------------------------------------------------------------ C07

pub struct Objects;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Parcel {
    from: u8,
    to: u8,
    uni: bool,
    objects: Vec<ObjKind>,
    /// More objects which are all duplicates of one
    extra: u16,
    regions: Vec<u16>,
    size: u32,
    /// Send the received attachments on to this endpoint
    forward: Option<u8>,
}

fn region(id: u64, size: u16) -> MemoryRegion {
    let mut r = MemoryRegion::new(size as usize + 8).expect("region");
    r.map(..).expect("map")[..8].copy_from_slice(&id.to_le_bytes());
    r
}

fn region_id(r: &mut MemoryRegion) -> u64 {
    u64::from_le_bytes(r.map(..8).expect("map")[..8].try_into().unwrap())
}

impl Prop for Objects {
    const ID: &'static str = "C07";
    const RULE: &'static str = "random sequences of messages on a bus of 2..4 endpoints, each with 0..8 (sometimes up to 253) attached kernel objects of six kinds and 0..5 memory regions, unicast and multicast on every path, sometimes sent on by the receiver; every received object must be the same open file (kcmp) as the one attached at this position, every region must have the content of the one attached at this position, in every receiver; afterwards no descriptor may be left over; non-trivial: some message carried at least two objects or an object and a region";
    type Case = (u8, Vec<Parcel>);
    const CASES: (usize, usize) = (2400, 60_000);

    fn strategy(_t: bool) -> BoxedStrategy<Self::Case> {
        let extra = prop_oneof![8 => Just(0u16), 1 => 0u16..10, 1 => 0u16..250, 1 => prop::sample::select(vec![60u16, 61, 62, 63, 64, 120, 250, 251, 252, 253])];
        let p = (
            any::<u8>(),
            any::<u8>(),
            any::<bool>(),
            prop::collection::vec(obj_kind(), 0..8),
            extra,
            prop::collection::vec(any::<u16>(), 0..5),
            0u32..3000,
            prop::option::weighted(0.25, any::<u8>()),
        )
            .prop_map(|(from, to, uni, objects, extra, regions, size, forward)| Parcel { from, to, uni, objects, extra, regions, size, forward });
        (2u8..5, prop::collection::vec(p, 1..7)).boxed()
    }

    fn run((n, parcels): &Self::Case, cx: &mut Cx) -> Res {
        let n = (*n).clamp(1, 6) as usize;
        let mut w = World::new("t");
        for i in 0..n {
            w.join(&[format!("e{i}")])?;
        }
        w.fence(0)?;
        let base = open_fds();
        for (seq, p) in parcels.iter().enumerate() {
            let (from, to) = (p.from as usize % n, p.to as usize % n);
            let seq = seq as u64;
            let expr = if p.uni { Expr::leaf(&format!("e{to}")) } else { Expr::T };
            let mut m = Message::new(
                selector(if p.uni { SelectorMode::Unicast } else { SelectorMode::Multicast }, &expr, 0),
                Msg::Tagged(Tagged { seq, from: from as u16, lane: 0, body: body(seq, p.size as usize) }),
            );
            let mut originals = vec![];
            for k in &p.objects {
                originals.push(new_object(*k));
            }
            let room = 253usize.saturating_sub(p.objects.len() + p.regions.len());
            for i in 0..(p.extra as usize).min(room) {
                let o = if i == 0 { new_object(ObjKind::EventFd) } else { originals.last().unwrap().clone().expect("dup") };
                originals.push(o);
            }
            for o in &originals {
                m.objects.push(o.clone().expect("dup"));
            }
            for (i, s) in p.regions.iter().enumerate() {
                m.memory_regions.push(region(seq * 1000 + i as u64, *s));
            }
            let total = originals.len() + p.regions.len();
            if originals.len() >= 2 || (originals.len() == 1 && !p.regions.is_empty()) {
                cx.nontrivial = true;
            }
            cx.class_if(total == 253, "253 attachments");
            cx.class_if(total > 62, "more than 62 attachments");
            cx.class_if(total > 4, "more than 4 attachments");
            cx.class_if(!originals.is_empty() && !p.regions.is_empty(), "objects and regions");
            cx.class_if(total == 0, "no attachments");
            w.send_message(from, m)?;
            let mut expect = w.matching(&expr);
            let mut hop = p.forward.map(|f| f as usize % n);
            let mut sender = from;
            loop {
                let mut got = w.fence(sender)?;
                got.sort_by_key(|g| g.ep);
                let eps: Vec<usize> = got.iter().map(|g| g.ep).collect();
                ensure!(eps == expect, "message {seq} with {} objects and {} regions reached {eps:?} instead of {expect:?}", originals.len(), p.regions.len());
                for g in &mut got {
                    match &g.msg.payload {
                        Msg::Tagged(t) => ensure!(t.seq == seq && t.body == body(seq, p.size as usize), "endpoint {}: message differs", g.ep),
                        _ => fail!("endpoint {}: unexpected message", g.ep),
                    }
                    ensure!(
                        g.msg.objects.len() == originals.len() && g.msg.memory_regions.len() == p.regions.len(),
                        "endpoint {} received {} objects and {} regions instead of {} and {}",
                        g.ep,
                        g.msg.objects.len(),
                        g.msg.memory_regions.len(),
                        originals.len(),
                        p.regions.len()
                    );
                    for (i, (o, r)) in originals.iter().zip(&g.msg.objects).enumerate() {
                        ensure!(same_file(o.as_raw(), r.as_raw()), "endpoint {}: object {i} of message {seq} is another object", g.ep);
                    }
                    for (i, r) in g.msg.memory_regions.iter_mut().enumerate() {
                        ensure!(
                            r.buffer_size() == p.regions[i] as u64 + 8 && region_id(r) == seq * 1000 + i as u64,
                            "endpoint {}: region {i} of message {seq} is another region",
                            g.ep
                        );
                    }
                }
                let Some(f) = hop.take() else { break };
                let Some(g) = got.pop() else { break };
                cx.class("forwarded");
                drop(got);
                let Message { objects, memory_regions, .. } = g.msg;
                let e = Expr::leaf(&format!("e{f}"));
                let mut m = Message::new(
                    selector(SelectorMode::Unicast, &e, 0),
                    Msg::Tagged(Tagged { seq, from: g.ep as u16, lane: 0, body: body(seq, p.size as usize) }),
                );
                m.objects = objects;
                m.memory_regions = memory_regions;
                w.send_message(g.ep, m)?;
                sender = g.ep;
                expect = vec![f];
            }
            drop(originals);
            // everybody dropped everything, only the bus thread may still be about to
            let end = interpose::real_now() + PATIENCE;
            while open_fds() > base {
                if interpose::real_now() > end {
                    return Err(Bad::Slow(format!("{} descriptors are left over from message {seq}", open_fds() - base)));
                }
                std::thread::yield_now();
            }
        }
        w.finish();
        Ok(())
    }
}

// ------------------------------------------------------------------ C08

pub struct Regions;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum B {
    None,
    In(u64),
    Ex(u64),
    /// Relative to the size (65535 is the size itself)
    RelIn(u16),
    RelEx(u16),
}

impl B {
    fn at(&self, size: u64) -> B {
        let rel = |r: u16| (size as u128 * r as u128 / 65535) as u64;
        match self {
            B::RelIn(r) => B::In(rel(*r)),
            B::RelEx(r) => B::Ex(rel(*r)),
            b => *b,
        }
    }

    fn bound(&self) -> Bound<usize> {
        match self {
            B::RelIn(_) | B::RelEx(_) => unreachable!(),
            B::None => Bound::Unbounded,
            B::In(n) => Bound::Included(*n as usize),
            B::Ex(n) => Bound::Excluded(*n as usize),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum RegionOp {
    New { size: u64 },
    Clone { h: u8 },
    /// A handle from the underlying object
    FromObject { h: u8 },
    Drop { h: u8 },
    /// Clone a handle, send the clone to an endpoint and keep what it receives
    Send { h: u8, from: u8, to: u8 },
    Write { h: u8, start: B, end: B, seed: u64 },
    Read { h: u8, start: B, end: B },
    ReadAll { h: u8 },
}

struct RegionModel {
    size: u64,
    data: BTreeMap<u64, u8>,
}

struct Handle {
    region: usize,
    mr: MemoryRegion,
}

const SMALL: u64 = 40_000;

impl Regions {
    /// The range denoted by bounds within `size`, or None when it isn't a range of it
    fn range(start: &B, end: &B, size: u64) -> Option<(u64, u64)> {
        let s = match start {
            B::RelIn(_) | B::RelEx(_) => unreachable!(),
            B::None => 0u128,
            B::In(n) => *n as u128,
            B::Ex(n) => *n as u128 + 1,
        };
        let e = match end {
            B::RelIn(_) | B::RelEx(_) => unreachable!(),
            B::None => size as u128,
            B::In(n) => *n as u128 + 1,
            B::Ex(n) => *n as u128,
        };
        (s <= e && e <= size as u128).then_some((s as u64, e as u64))
    }
}

impl Prop for Regions {
    const ID: &'static str = "C08";
    const RULE: &'static str = "random histories of creating regions (sizes 0, 1, around pages, up to several MB, rarely terabytes), cloning handles, handles from objects, sending handles between three endpoints, dropping, and writing and reading through any handle with any combination of range bounds (inside, empty, crossing pages, ending at or beyond the end, inverted, at the integer limits), compared with a byte array per region; non-trivial: bytes written through one handle were read through another one, or a range outside of the region was requested";
    type Case = Vec<RegionOp>;
    const CASES: (usize, usize) = (12_000, 500_000);
    const RECYCLE: usize = 1000;

    fn strategy(_t: bool) -> BoxedStrategy<Self::Case> {
        let size = prop_oneof![
            2 => 0u64..20,
            3 => (prop::sample::select(vec![4096u64, 8192, 12288, 65536]), -20i64..20).prop_map(|(a, d)| (a as i64 + d) as u64),
            3 => 0u64..30_000,
            1 => 0u64..4_000_000,
            1 => Just(1u64 << 40),
        ];
        let pos = prop_oneof![
            4 => 0u64..64,
            3 => (prop::sample::select(vec![4084u64, 4096, 8180, 8192, 12276]), -16i64..16).prop_map(|(a, d)| (a as i64 + d) as u64),
            3 => 0u64..30_000,
            1 => 0u64..4_000_100,
            1 => prop::sample::select(vec![u64::MAX, u64::MAX - 1, u64::MAX - 11, u64::MAX - 12, u64::MAX - 13, i64::MAX as u64, 1 << 40, (1 << 40) + 1, (1 << 40) - 1, u64::MAX - 4095]),
        ];
        let low = prop_oneof![3 => 0u16..20_000, 1 => any::<u16>()];
        let high = prop_oneof![3 => 30_000u16..=65535, 1 => any::<u16>(), 1 => Just(65535u16)];
        let b = prop_oneof![
            2 => Just(B::None),
            3 => pos.clone().prop_map(B::In),
            3 => pos.prop_map(B::Ex),
            6 => low.clone().prop_map(B::RelIn),
            3 => low.prop_map(B::RelEx),
        ];
        let b2 = prop_oneof![2 => b.clone(), 2 => high.clone().prop_map(B::RelIn), 2 => high.prop_map(B::RelEx)];
        let h = any::<u8>();
        let op = prop_oneof![
            2 => size.prop_map(|size| RegionOp::New { size }),
            2 => h.prop_map(|h| RegionOp::Clone { h }),
            1 => h.prop_map(|h| RegionOp::FromObject { h }),
            1 => h.prop_map(|h| RegionOp::Drop { h }),
            1 => (h, h, h).prop_map(|(h, from, to)| RegionOp::Send { h, from, to }),
            8 => (h, b.clone(), b2.clone(), any::<u64>()).prop_map(|(h, start, end, seed)| RegionOp::Write { h, start, end, seed }),
            8 => (h, b, b2).prop_map(|(h, start, end)| RegionOp::Read { h, start, end }),
            2 => h.prop_map(|h| RegionOp::ReadAll { h }),
        ];
        prop::collection::vec(op, 2..30).boxed()
    }

    fn run(case: &Self::Case, cx: &mut Cx) -> Res {
        let mut w: Option<World> = None;
        let mut regions: Vec<RegionModel> = vec![];
        let mut handles: Vec<Handle> = vec![];
        let mut wrote: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut serial = 0usize;
        let mut serials: Vec<usize> = vec![];
        let pick = |hs: &Vec<Handle>, h: u8| if hs.is_empty() { None } else { Some(h as usize * hs.len() / 256) };
        macro_rules! push {
            ($r:expr, $mr:expr) => {{
                let mr = $mr;
                ensure!(mr.buffer_size() == regions[$r].size, "region of size {} has a handle of size {}", regions[$r].size, mr.buffer_size());
                handles.push(Handle { region: $r, mr });
                serial += 1;
                serials.push(serial);
            }};
        }
        let mut ops = vec![RegionOp::New { size: 5000 }];
        if matches!(case.first(), Some(RegionOp::New { .. })) {
            ops.clear();
        }
        ops.extend(case.iter().cloned());
        for (step, op) in ops.iter().enumerate() {
            match op {
                RegionOp::New { size } => {
                    let Some(mr) = MemoryRegion::new(*size as usize) else { fail!("step {step}: can't create a region of size {size}") };
                    regions.push(RegionModel { size: *size, data: BTreeMap::new() });
                    push!(regions.len() - 1, mr);
                }
                RegionOp::Clone { h } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    match handles[h].mr.clone() {
                        Ok(mr) => push!(handles[h].region, mr),
                        Err(e) => fail!("step {step}: clone: {e}"),
                    }
                }
                RegionOp::FromObject { h } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    let o = handles[h].mr.object().clone().expect("dup");
                    push!(handles[h].region, MemoryRegion::from_object(o));
                }
                RegionOp::Drop { h } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    handles.remove(h);
                    serials.remove(h);
                }
                RegionOp::Send { h, from, to } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    if w.is_none() {
                        let mut x = World::new("t");
                        for i in 0..3 {
                            x.join(&[format!("e{i}")])?;
                        }
                        w = Some(x);
                    }
                    let w = w.as_mut().unwrap();
                    let (from, to) = (*from as usize % 3, *to as usize % 3);
                    let mut m = Message::new(
                        selector(SelectorMode::Unicast, &Expr::leaf(&format!("e{to}")), 0),
                        Msg::Tagged(Tagged { seq: step as u64, from: 0, lane: 0, body: vec![] }),
                    );
                    m.memory_regions.push(handles[h].mr.clone().expect("clone"));
                    w.send_message(from, m)?;
                    let mut got = w.fence(from)?;
                    ensure!(got.len() == 1 && got[0].ep == to && got[0].msg.memory_regions.len() == 1, "step {step}: region was not delivered");
                    let mr = got.pop().unwrap().msg.memory_regions.pop().unwrap();
                    push!(handles[h].region, mr);
                    cx.class("sent");
                }
                RegionOp::Write { h, start, end, seed } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    let r = handles[h].region;
                    let (start, end) = (&start.at(regions[r].size), &end.at(regions[r].size));
                    let want = Self::range(start, end, regions[r].size);
                    let got = handles[h].mr.map((start.bound(), end.bound()));
                    match (want, got) {
                        (None, Err(_)) => {
                            cx.class("outside refused");
                            cx.nontrivial = true;
                        }
                        (None, Ok(b)) => fail!("step {step}: {start:?}..{end:?} of a region of size {} was mapped ({} bytes)", regions[r].size, b.len()),
                        (Some(_), Err(e)) => fail!("step {step}: {start:?}..{end:?} of a region of size {} was refused: {e}", regions[r].size),
                        (Some((s, e)), Ok(buf)) => {
                            ensure!(buf.len() as u64 == e - s, "step {step}: {} bytes were mapped for {start:?}..{end:?}", buf.len());
                            // first and last bytes of large ranges
                            let data = body(*seed, (e - s).min(SMALL) as usize);
                            let half = data.len() / 2;
                            for (i, v) in data.iter().enumerate() {
                                let at = if i < half { i as u64 } else { e - s - (data.len() - i) as u64 };
                                buf[at as usize] = *v;
                                regions[r].data.insert(s + at, *v);
                            }
                            if !data.is_empty() {
                                wrote.insert((r, 0), serials[h]);
                            }
                        }
                    }
                }
                RegionOp::Read { h, start, end } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    let m = &regions[handles[h].region];
                    let (start, end) = (&start.at(m.size), &end.at(m.size));
                    let want = Self::range(start, end, m.size);
                    let got = handles[h].mr.map((start.bound(), end.bound()));
                    match (want, got) {
                        (None, Err(_)) => {
                            cx.class("outside refused");
                            cx.nontrivial = true;
                        }
                        (None, Ok(b)) => fail!("step {step}: {start:?}..{end:?} of a region of size {} was mapped ({} bytes)", m.size, b.len()),
                        (Some(_), Err(e)) => fail!("step {step}: {start:?}..{end:?} of a region of size {} was refused: {e}", m.size),
                        (Some((s, e)), Ok(buf)) => {
                            check(m, s, e, buf, step)?;
                            cx.class_if(s == e, "empty range");
                            cx.class_if((s + 12) / 4096 != (e + 12) / 4096, "crossing a page");
                            if wrote.get(&(handles[h].region, 0)).is_some_and(|x| *x != serials[h]) {
                                cx.nontrivial = true;
                                cx.class("read what another handle wrote");
                            }
                        }
                    }
                }
                RegionOp::ReadAll { h } => {
                    let Some(h) = pick(&handles, *h) else { continue };
                    let m = &regions[handles[h].region];
                    if m.size > 1 << 30 {
                        continue;
                    }
                    match handles[h].mr.map(..) {
                        Ok(buf) => check(m, 0, m.size, buf, step)?,
                        Err(e) => fail!("step {step}: mapping all of {}: {e}", m.size),
                    }
                }
            }
        }
        // finally every handle sees everything
        for h in &mut handles {
            let m = &regions[h.region];
            ensure!(h.mr.buffer_size() == m.size, "size changed");
            if m.size <= 1 << 26 {
                match h.mr.map(..) {
                    Ok(buf) => check(m, 0, m.size, buf, ops.len())?,
                    Err(e) => fail!("mapping all of {}: {e}", m.size),
                }
            }
        }
        Ok(())
    }
}

fn check(m: &RegionModel, s: u64, e: u64, buf: &[u8], step: usize) -> Res {
    ensure!(buf.len() as u64 == e - s, "step {step}: {} bytes were mapped for {s}..{e}", buf.len());
    for (at, v) in m.data.range(s..e) {
        ensure!(buf[(at - s) as usize] == *v, "step {step}: byte {at} is {} instead of {v} through a mapping of {s}..{e}", buf[(at - s) as usize]);
    }
    // bytes never written are zero
    let n = (e - s).min(SMALL);
    for i in (0..n / 2).chain(e - s - (n - n / 2)..e - s) {
        if !m.data.contains_key(&(s + i)) {
            ensure!(buf[i as usize] == 0, "step {step}: byte {} of {s}..{e} is {} although it was never written", s + i, buf[i as usize]);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

pub struct RefCount;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum CountOp {
    New { size: u16 },
    Clone { h: u8 },
    FromObject { h: u8 },
    Drop { h: u8 },
    /// Send clones of the chosen handles (may be the same region several times)
    Send { from: u8, expr: Expr, uni: bool, ttl: u64, hs: Vec<u8>, size: u32, objects: u8 },
    Join { label: Vec<String> },
    Leave { who: u8 },
    Advance { ms: u64 },
    /// An endpoint joins, gets n messages and leaves without reading them
    Unread { from: u8, hs: Vec<u8>, n: u8 },
    /// Several threads use regions at the same time
    Storm(super::sharing::Storm),
}

struct Buffered {
    seq: u64,
    expr: Expr,
    regions: Vec<usize>,
    lo: Instant,
    hi: Instant,
    /// Can't be carried to another process
    oversize: bool,
}

struct CountEngine<'a> {
    w: World,
    /// Handles per region, with the endpoint holding it
    held: Vec<(usize, MemoryRegion)>,
    nregions: usize,
    buffered: Vec<Buffered>,
    seq: u64,
    cx: &'a mut Cx,
    far: Duration,
}

impl CountEngine<'_> {
    fn collect(&mut self, from: usize) -> Res<Vec<(usize, u64, Vec<MemoryRegion>, usize)>> {
        let mut out = vec![];
        for g in self.w.fence(from)? {
            match g.msg.payload {
                Msg::Tagged(t) => out.push((g.ep, t.seq, g.msg.memory_regions, g.msg.objects.len())),
                _ => fail!("unexpected message"),
            }
        }
        Ok(out)
    }

    fn verify(&mut self, what: &str) -> Res {
        // messages may be expiring right now
        let now = Instant::now();
        for r in 0..self.nregions {
            let live = self.held.iter().filter(|(x, _)| *x == r).count();
            if live == 0 {
                continue;
            }
            let copies = |f: &dyn Fn(&Buffered) -> bool| {
                self.buffered.iter().filter(|b| f(b)).flat_map(|b| &b.regions).filter(|x| **x == r).count()
            };
            let min = live + copies(&|b| b.lo > now);
            // an expired message may wait for the next traffic
            let max = live + copies(&|_| true);
            // the fence passes through the bus right before it drops the message before
            for (_, h) in self.held.iter().filter(|(x, _)| *x == r) {
                let c = h.ref_count() as usize;
                ensure!(
                    (min..=max).contains(&c),
                    "after {what}: the count of region {r} is {c}, there are {live} live handles and {} waiting copies",
                    max - live
                );
            }
        }
        Ok(())
    }

    fn purge(&mut self, before: Instant) {
        // traffic processed after the expiry has released them
        self.buffered.retain(|b| b.hi > before);
    }

    fn step(&mut self, op: &CountOp) -> Res {
        let pick = |hs: &Vec<(usize, MemoryRegion)>, h: u8| if hs.is_empty() { None } else { Some(h as usize * hs.len() / 256) };
        match op {
            CountOp::New { size } => {
                let Some(mr) = MemoryRegion::new(*size as usize) else { fail!("can't create a region of size {size}") };
                self.held.push((self.nregions, mr));
                self.nregions += 1;
            }
            CountOp::Clone { h } => {
                if let Some(i) = pick(&self.held, *h) {
                    let (r, mr) = &self.held[i];
                    let n = (*r, mr.clone().expect("clone"));
                    self.held.push(n);
                }
            }
            CountOp::FromObject { h } => {
                if let Some(i) = pick(&self.held, *h) {
                    let (r, mr) = &self.held[i];
                    let n = (*r, MemoryRegion::from_object(mr.object().clone().expect("dup")));
                    self.held.push(n);
                }
            }
            CountOp::Drop { h } => {
                if let Some(i) = pick(&self.held, *h) {
                    self.held.swap_remove(i);
                }
            }
            CountOp::Send { from, expr, uni, ttl, hs, size, objects } => {
                let from = {
                    let s: Vec<usize> = self.w.eps.iter().filter(|e| e.sender.is_some()).map(|e| e.idx).collect();
                    s[*from as usize * s.len() / 256]
                };
                self.seq += 1;
                let seq = self.seq;
                let mode = if *uni { SelectorMode::Unicast } else { SelectorMode::Multicast };
                let mut m = Message::new(
                    selector(mode, expr, *ttl),
                    Msg::Tagged(Tagged { seq, from: from as u16, lane: 0, body: vec![1; *size as usize] }),
                );
                let mut regions = vec![];
                for h in hs {
                    if let Some(i) = pick(&self.held, *h) {
                        regions.push(self.held[i].0);
                        m.memory_regions.push(self.held[i].1.clone().expect("clone"));
                    }
                }
                for _ in 0..*objects {
                    m.objects.push(new_object(ObjKind::EventFd));
                }
                let targets = self.w.matching(expr);
                let oversize = *size > 120_000 || *objects as usize + regions.len() > 253;
                let before = Instant::now();
                let sent = self.w.eps[from].sender.as_ref().unwrap().send(m);
                let got = self.collect(from)?;
                let after = Instant::now();
                // the bus purged after routing the message, before it took the fence
                self.purge(before);
                match &sent {
                    Err(e) => {
                        ensure!(oversize, "send: {e}");
                        self.cx.class("failed send");
                        self.cx.nontrivial |= !regions.is_empty();
                        ensure!(got.is_empty(), "a message was delivered although send failed");
                    }
                    Ok(()) => {
                        let n = got.iter().filter(|g| g.1 == seq).count();
                        if !oversize {
                            let ok = if *uni { n == targets.len().min(1) } else { n == targets.len() };
                            ensure!(ok && n == got.len(), "message {seq} was received {n} times, {} endpoints match", targets.len());
                        }
                        if n == 0 && *ttl > 0 {
                            let ttl = Duration::from_millis(*ttl).min(self.far);
                            self.buffered.push(Buffered { seq, expr: expr.clone(), regions: regions.clone(), lo: before + ttl, hi: after + ttl, oversize });
                            self.cx.class_if(!regions.is_empty(), "waiting copy");
                        }
                        self.cx.nontrivial |= !regions.is_empty();
                        self.cx.class_if(n > 1 && !regions.is_empty(), "received by several");
                        self.cx.class_if(n == 0 && !regions.is_empty(), "received by nobody");
                        self.cx.class_if(oversize, "too large from host");
                    }
                }
                for (ep, s, mrs, _) in got {
                    ensure!(s == seq && mrs.len() == regions.len(), "endpoint {ep} received another message or {} regions instead of {}", mrs.len(), regions.len());
                    for (mr, r) in mrs.into_iter().zip(&regions) {
                        self.held.push((*r, mr));
                    }
                }
            }
            CountOp::Join { label } => {
                if self.w.eps.len() >= 8 {
                    return Ok(());
                }
                let t0 = Instant::now();
                let idx = self.w.join(label)?;
                let t1 = Instant::now();
                let got = self.collect(idx)?;
                let mut left = vec![];
                let mut got: BTreeMap<u64, (usize, Vec<MemoryRegion>)> = got.into_iter().map(|(e, s, m, _)| (s, (e, m))).collect();
                for b in std::mem::take(&mut self.buffered) {
                    match got.remove(&b.seq) {
                        Some((ep, mrs)) => {
                            ensure!(ep == idx && b.expr.eval(label) && b.hi > t0, "message {} was delivered unexpectedly", b.seq);
                            ensure!(mrs.len() == b.regions.len(), "message {} arrived with {} regions", b.seq, mrs.len());
                            for (mr, r) in mrs.into_iter().zip(&b.regions) {
                                self.held.push((*r, mr));
                            }
                            self.cx.class_if(!b.regions.is_empty(), "waiting copy delivered");
                        }
                        None => {
                            ensure!(b.oversize || !(b.expr.eval(label) && b.lo > t1), "message {} was waiting for endpoint {idx}", b.seq);
                            left.push(b);
                        }
                    }
                }
                ensure!(got.is_empty(), "unexpected messages for endpoint {idx}");
                self.buffered = left;
                self.purge(t0);
            }
            CountOp::Leave { who } => {
                let l: Vec<usize> = self.w.live().into_iter().filter(|i| *i != 0).collect();
                if !l.is_empty() {
                    self.w.leave(l[*who as usize * l.len() / 256]);
                }
            }
            CountOp::Unread { from, hs, n } => {
                let label = ["mute".to_owned()];
                if self.w.eps.len() >= 8 || self.buffered.iter().any(|b| b.expr.eval(&label)) {
                    return Ok(());
                }
                let s: Vec<usize> = self.w.eps.iter().filter(|e| e.sender.is_some()).map(|e| e.idx).collect();
                let from = s[*from as usize * s.len() / 256];
                let (idx, rx) = self.w.join_unread(&label)?;
                let mut regions = 0;
                for k in 0..*n % 4 + 1 {
                    let mut m = Message::new(
                        selector(SelectorMode::Unicast, &Expr::leaf("mute"), 0),
                        Msg::Tagged(Tagged { seq: k as u64, from: from as u16, lane: 0, body: vec![] }),
                    );
                    for h in hs {
                        if let Some(i) = pick(&self.held, *h) {
                            m.memory_regions.push(self.held[i].1.clone().expect("clone"));
                            regions += 1;
                        }
                    }
                    m.objects.push(new_object(ObjKind::EventFd));
                    self.w.send_message(from, m)?;
                }
                let got = self.collect(from)?;
                ensure!(got.is_empty(), "a message for another endpoint was received");
                drop(rx);
                self.w.leave(idx);
                self.cx.nontrivial |= regions > 0;
                self.cx.class_if(regions > 0, "left unread");
            }
            CountOp::Storm(s) => super::sharing::storm(s, self.cx)?,
            CountOp::Advance { ms } => {
                interpose::advance(Duration::from_millis(*ms));
                let now = Instant::now();
                // the purge takes place after the first fence has been routed
                self.collect(0)?;
                self.collect(0)?;
                self.purge(now);
            }
        }
        Ok(())
    }
}

impl Prop for RefCount {
    const ID: &'static str = "C09";
    const RULE: &'static str = "random histories over up to 8 endpoints and several regions: create, clone, handle from object, drop, send to none, one or many with and without time to live (also the same region several times in a message, also too large so that sending fails), late joins which get waiting messages, departures, time jumps; after every operation the count reported by every live handle must equal the live handles plus the copies waiting in the bus; or 2..4 threads which clone, drop and send handles of the same regions at the same time with random delays, during which no count may be below the handles which are alive all the time and after which it must be exact; non-trivial: a region was sent";
    type Case = (Vec<String>, Vec<CountOp>);
    const CASES: (usize, usize) = (2400, 60_000);

    fn strategy(_t: bool) -> BoxedStrategy<Self::Case> {
        let h = any::<u8>();
        let ttl = prop_oneof![2 => Just(0u64), 1 => Just(2000u64), 1 => 1000u64..100_000, 1 => Just(u64::MAX)];
        let size = prop_oneof![8 => 0u32..200, 1 => 0u32..20_000, 1 => Just(200_000u32)];
        let objects = prop_oneof![8 => Just(0u8), 2 => 0u8..5, 1 => Just(254u8)];
        let op = prop_oneof![
            3 => any::<u16>().prop_map(|size| CountOp::New { size }),
            2 => h.prop_map(|h| CountOp::Clone { h }),
            1 => h.prop_map(|h| CountOp::FromObject { h }),
            3 => h.prop_map(|h| CountOp::Drop { h }),
            8 => (h, expr_strategy(name_strategy(), 2), any::<bool>(), ttl, prop::collection::vec(h, 0..4), size, objects)
                .prop_map(|(from, expr, uni, ttl, hs, size, objects)| CountOp::Send { from, expr, uni, ttl, hs, size, objects }),
            3 => label_strategy().prop_map(|label| CountOp::Join { label }),
            1 => h.prop_map(|who| CountOp::Leave { who }),
            1 => prop_oneof![Just(31_000u64), 0u64..3000].prop_map(|ms| CountOp::Advance { ms }),
            1 => (h, prop::collection::vec(h, 1..3), h).prop_map(|(from, hs, n)| CountOp::Unread { from, hs, n }),
        ];
        prop_oneof![
            3 => (label_strategy(), prop::collection::vec(op, 3..30)),
            1 => super::sharing::storm_strategy().prop_map(|s| (vec![], vec![CountOp::Storm(s)])),
        ]
        .boxed()
    }

    fn run((host, ops): &Self::Case, cx: &mut Cx) -> Res {
        let mut w = World::new("t");
        w.join(host)?;
        let mut e = CountEngine { w, held: vec![], nregions: 0, buffered: vec![], seq: 0, cx, far: Duration::from_secs(3600 * 24 * 365 * 1000) };
        for (i, op) in ops.iter().enumerate() {
            e.step(op)?;
            e.verify(&format!("step {i} {op:?}"))?;
        }
        // when nothing waits any more
        interpose::advance(Duration::from_secs(3600));
        e.collect(0)?;
        e.collect(0)?;
        let now = Instant::now();
        e.purge(now);
        e.verify("the end")?;
        Ok(())
    }
}

#[allow(unused)]
fn unused(_: Event<Msg>) {}

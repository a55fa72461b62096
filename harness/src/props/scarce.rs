//! C26: lacking a descriptor, a mapping, memory or a thread.

use crate::{
    bus::{body, fresh_identifier, join_options, selector, Bad, Event, Expr, Fence, Mode, Msg, Reader, Res, Tagged, World, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::{self, real_now, Call, Kind, Refusal},
    props::leaks::census,
};
use ipmb::{JoinError, LabelOp, MemoryRegion, MemoryRegistry, Message, SelectorMode, SendError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::HashMap,
    rc::Rc,
    thread,
    time::Duration,
};

/// Which calls of an operation are refused
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lack {
    pub call: u8,
    pub skip: u8,
    pub count: u8,
    pub error: u8,
}

impl Lack {
    pub fn refusal(&self, of: &[Call]) -> Refusal {
        Refusal { call: of[self.call as usize % of.len()], skip: self.skip as u32, count: self.count as u32, error: self.error }
    }
}

pub fn lack(count: u8) -> BoxedStrategy<Lack> {
    (any::<u8>(), prop_oneof![5 => Just(0u8), 2 => Just(1u8), 1 => 2u8..5], 1..=count, any::<u8>())
        .prop_map(|(call, skip, count, error)| Lack { call, skip, count, error })
        .boxed()
}

/// Those which regions need
pub const REGION: [Call; 4] = [Call::Mmap, Call::Dup, Call::Memfd, Call::Truncate];
/// Those which joining needs
const JOIN: [Call; 10] = [
    Call::Epoll,
    Call::Eventfd,
    Call::Watch,
    Call::Socket,
    Call::Connect,
    Call::Pair,
    Call::Bind,
    Call::Listen,
    Call::Send,
    Call::Thread,
];
const BUS: [Call; 4] = [Call::Accept, Call::Watch, Call::Send, Call::Mmap];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    New { size: u32, lack: Option<Lack> },
    Clone { h: u8, lack: Option<Lack> },
    Map { h: u8, from: u16, len: u16, lack: Option<Lack> },
    Drop { h: u8 },
    Alloc { size: u8, tag: bool, callback: bool, lack: Option<Lack> },
    Maintain,
    Advance { ms: u16 },
    /// With refusals which end
    Join { other: bool, lack: Lack },
    /// With refusals which don't
    Vain { other: bool, lack: Lack, ms: u8 },
    Leave { e: u8 },
    Send { from: u8, to: u8, hs: Vec<u8>, size: u16, lack: Option<Lack> },
    /// While the calls of the bus, or of receiving threads, are refused
    Others { reader: bool, lack: Lack, acts: Vec<Act> },
    /// The limit of open files is reached for a while
    Full { spare: u8, ms: u8, acts: Vec<Act> },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Act {
    Join,
    Send { from: u8, to: u8, hs: Vec<u8> },
    New { size: u16 },
    Clone { h: u8 },
    Alloc { size: u8 },
    Map { h: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    modes: Vec<u8>,
    ops: Vec<Op>,
}

/// The memory behind handles
struct Object {
    id: u8,
    size: usize,
    handles: u32,
    /// A message with it was lost on the way
    unknown: bool,
    registry: bool,
}

struct Held {
    obj: usize,
    mr: MemoryRegion,
}

struct Engine<'a> {
    cx: &'a mut Cx,
    w: World,
    objs: Vec<Object>,
    held: Vec<Held>,
    registry: Option<MemoryRegistry>,
    calls: Rc<RefCell<Vec<u32>>>,
    /// Callbacks of successful allocations
    good: Vec<usize>,
    seq: u64,
    others: u32,
    ping: u64,
    /// Messages sent while something was lacking
    sent: HashMap<u64, (SelectorMode, Vec<usize>)>,
}

/// What may happen to a message on its way
#[derive(Clone, Copy, PartialEq)]
enum Loss {
    Nothing,
    Message,
    /// Also without the receiver having had a chance to count its regions
    Attachments,
}

type Inode = (u64, u64);

fn inode(mr: &MemoryRegion) -> Inode {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        assert_eq!(libc::fstat(mr.object().as_raw(), &mut st), 0);
        (st.st_dev, st.st_ino)
    }
}

fn patient<T>(what: &str, limit: Duration, f: impl FnOnce() -> T) -> Res<T> {
    let t = real_now();
    let r = f();
    let took = real_now() - t;
    if took > limit + PATIENCE {
        return Err(Bad::Slow(format!("{what} took {took:?}")));
    }
    Ok(r)
}

impl Engine<'_> {
    fn pick(&self, h: u8) -> Option<usize> {
        (!self.held.is_empty()).then(|| h as usize * self.held.len() / 256)
    }

    fn forget(&mut self, i: usize) {
        let h = self.held.swap_remove(i);
        self.objs[h.obj].handles -= 1;
    }

    fn hold(&mut self, obj: usize, mr: MemoryRegion) {
        self.objs[obj].handles += 1;
        self.held.push(Held { obj, mr });
        if self.held.len() > 24 {
            self.forget(0);
        }
    }

    /// A new object, marked
    fn adopt(&mut self, mut mr: MemoryRegion, registry: bool) -> Res {
        let size = mr.buffer_size() as usize;
        let id = self.objs.len() as u8;
        if let Ok(b) = mr.map(..) {
            b.fill(id);
        } else {
            fail!("mapping a new region of {size} bytes failed");
        }
        self.objs.push(Object { id, size, handles: registry as u32, unknown: false, registry });
        self.hold(self.objs.len() - 1, mr);
        Ok(())
    }

    fn pool(&self, hits: u32, what: &str, cx: &str) -> String {
        format!("{what} while {cx} was refused {hits} times")
    }

    fn armed<T>(&mut self, lack: &Option<Lack>, of: &[Call], f: impl FnOnce(&mut Self) -> T) -> (T, u32, String) {
        let r = lack.as_ref().map(|l| l.refusal(of));
        interpose::refuse(r);
        let t = f(self);
        let hits = interpose::refuse(None);
        if hits > 0 {
            self.cx.class(format!("{:?} refused", r.unwrap().call));
            self.cx.nontrivial = true;
        }
        (t, hits, r.map_or(String::new(), |r| format!("{:?}", r.call)))
    }

    fn step(&mut self, op: &Op) -> Res {
        match op {
            Op::New { size, lack } => {
                let (r, hits, what) = self.armed(lack, &REGION, |_| MemoryRegion::new(*size as usize));
                match r {
                    Some(mr) => {
                        ensure!(mr.ref_count() == 1 && mr.buffer_size() == *size as u64, "a new region of {size} bytes has {} bytes and the count {}", mr.buffer_size(), mr.ref_count());
                        self.adopt(mr, false)?;
                    }
                    None => ensure!(hits > 0, "no region of {size} bytes ({what})"),
                }
            }
            Op::Clone { h, lack } => {
                let Some(i) = self.pick(*h) else { return Ok(()) };
                let (r, hits, _) = self.armed(lack, &REGION, |e| e.held[i].mr.clone());
                match r {
                    Ok(mr) => self.hold(self.held[i].obj, mr),
                    Err(e) => ensure!(hits > 0, "clone failed: {e}"),
                }
            }
            Op::Map { h, from, len, lack } => {
                let Some(i) = self.pick(*h) else { return Ok(()) };
                let size = self.objs[self.held[i].obj].size;
                let a = *from as usize % (size + 1);
                let b = a + *len as usize % (size - a + 1);
                let id = self.objs[self.held[i].obj].id;
                let (r, hits, what) = self.armed(lack, &REGION, |e| e.held[i].mr.map(a..b).map(|s| s.len() == b - a && s.iter().all(|x| *x == id)).map_err(|e| e.to_string()));
                match r {
                    Ok(good) => ensure!(good, "{}", self.pool(hits, "a range has other contents", &what)),
                    Err(e) => {
                        ensure!(hits > 0, "map({a}..{b}) of {size} bytes failed: {e}");
                        let r = self.held[i].mr.map(a..b).map(|s| s.len() == b - a && s.iter().all(|x| *x == id));
                        ensure!(matches!(r, Ok(true)), "a range can't be mapped, or has other contents, after it couldn't be mapped once");
                    }
                }
            }
            Op::Drop { h } => {
                if let Some(i) = self.pick(*h) {
                    self.forget(i);
                }
            }
            Op::Alloc { size, tag, callback, lack } => self.alloc(*size, *tag, *callback, lack)?,
            Op::Maintain => {
                self.registry.as_mut().unwrap().maintain();
            }
            Op::Advance { ms } => {
                interpose::advance(Duration::from_millis(*ms as u64));
                // what the registry gave up isn't tracked
            }
            Op::Join { other, lack } => {
                if self.w.live().len() >= 6 || *other && self.others >= 2 {
                    return Ok(());
                }
                let id = if *other { fresh_identifier() } else { self.w.identifier.clone() };
                let label = vec![format!("e{}", self.w.eps.len())];
                let opts = join_options(&id, "t", &label, *other);
                interpose::fast_sleep(true);
                let (r, hits, what) = self.armed(&Some(lack.clone()), &JOIN, |_| patient("join", Duration::ZERO, || ipmb::join::<Msg, Msg>(opts, Some(PATIENCE))));
                interpose::fast_sleep(false);
                match r? {
                    Ok((tx, rx)) if *other => {
                        self.others += 1;
                        // it is alive
                        let r = Reader::spawn(rx);
                        tx.send(Message::new(selector(SelectorMode::Unicast, &Expr::leaf(&label[0]), 0), Msg::Fence(Fence { n: 1 }))).map_err(|e| Bad::Fail(format!("send: {e}")))?;
                        r.wait(PATIENCE, |q| (!q.is_empty()).then_some(())).ok_or(Bad::Slow("a new bus is silent".into()))?;
                        self.cx.class("bus hosted");
                    }
                    Ok((tx, rx)) => {
                        let idx = self.w.eps.len();
                        let mode = Mode::of(&self.w.modes, idx);
                        let reader = Some(Reader::spawn_as(rx, mode, |m| matches!(m, Msg::Fence(f) if f.n == 0)));
                        self.w.eps.push(crate::bus::Ep { idx, label, sender: Some(tx), reader, host: false });
                    }
                    Err(JoinError::Timeout) => return Err(Bad::Slow(self.pool(hits, "join timed out", &what))),
                    Err(e) => fail!("{}: {e}", self.pool(hits, "join failed", &what)),
                }
            }
            Op::Vain { other, lack, ms } => {
                let id = if *other { fresh_identifier() } else { self.w.identifier.clone() };
                let opts = join_options(&id, "t", &["vain".to_owned()], *other);
                let lack = Lack { skip: 0, count: 255, ..lack.clone() };
                let limit = Duration::from_millis(*ms as u64);
                interpose::fast_sleep(true);
                let (r, hits, what) = self.armed(&Some(lack), &JOIN, |_| patient("join", limit, || ipmb::join::<Msg, Msg>(opts, Some(limit))));
                interpose::fast_sleep(false);
                match r? {
                    Ok(x) => {
                        ensure!(hits == 0 || hits < 255, "{}", self.pool(hits, "joined", &what));
                        if *other {
                            self.others += 1;
                        }
                        drop(x);
                    }
                    Err(JoinError::Timeout) => {}
                    Err(e) => fail!("{}: {e}", self.pool(hits, "join failed", &what)),
                }
            }
            Op::Leave { e } => {
                let live: Vec<usize> = self.w.live().into_iter().filter(|i| *i > 0).collect();
                if !live.is_empty() {
                    self.w.leave(live[*e as usize % live.len()]);
                }
            }
            Op::Send { from, to, hs, size, lack } => self.send(*from, *to, hs, *size, lack, Loss::Nothing)?,
            Op::Others { reader, lack, acts } => {
                let (kind, mut r) = if *reader { (Kind::Reader, lack.refusal(&[Call::Mmap])) } else { (Kind::Bus, lack.refusal(&BUS)) };
                if matches!(r.call, Call::Send | Call::Watch) && acts.iter().any(|a| matches!(a, Act::Join)) {
                    // an endpoint waits 2 s for each answer which doesn't come
                    r.count = 1;
                }
                // only then attachments may be lost, together with the connection
                let loss = if r.call == Call::Mmap { Loss::Attachments } else { Loss::Message };
                interpose::fast_sleep(true);
                interpose::refuse_others(Some((kind, r)));
                let mut res = Ok(());
                for a in acts {
                    res = self.act(a, loss);
                    if res.is_err() {
                        break;
                    }
                }
                let hits = interpose::refuse_others(None);
                let res = res.and_then(|()| self.recover());
                interpose::fast_sleep(false);
                if hits > 0 {
                    self.cx.class(format!("{:?} refused to {}", r.call, if *reader { "a receiver" } else { "the bus" }));
                    self.cx.nontrivial = true;
                }
                res?;
            }
            Op::Full { spare, ms, acts } => {
                let before = limit_files(*spare as usize);
                let wait = Duration::from_millis(*ms as u64);
                let lift = thread::spawn(move || {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: wait.as_nanos() as _ };
                    unsafe {
                        interpose::raw6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
                        libc::setrlimit(libc::RLIMIT_NOFILE, &before);
                    }
                });
                interpose::fast_sleep(true);
                let mut r = Ok(());
                for a in acts {
                    r = self.act(a, Loss::Attachments);
                    if r.is_err() {
                        break;
                    }
                }
                lift.join().unwrap();
                let r = r.and_then(|()| self.recover());
                interpose::fast_sleep(false);
                r?;
                self.cx.class("limit of open files reached");
                self.cx.nontrivial = true;
            }
        }
        self.check()
    }

    fn alloc(&mut self, size: u8, tag: bool, callback: bool, lack: &Option<Lack>) -> Res {
        let calls = self.calls.clone();
        let cid = calls.borrow().len();
        let tag = tag.then_some("x");
        if callback {
            calls.borrow_mut().push(0);
        }
        let (r, hits, what) = self.armed(lack, &REGION, |e| {
            let g = e.registry.as_mut().unwrap();
            if callback {
                g.alloc_with_free(size as usize, tag, move || calls.borrow_mut()[cid] += 1)
            } else {
                g.alloc(size as usize, tag)
            }
        });
        let Some(mr) = r else {
            ensure!(hits > 0, "no allocation of {size} bytes ({what})");
            return Ok(());
        };
        if callback {
            self.good.push(cid);
        }
        ensure!(mr.buffer_size() >= size as u64, "too small an allocation");
        ensure!(mr.ref_count() == 2, "{}", self.pool(hits, &format!("an allocation has the count {}", mr.ref_count()), &what));
        let key = inode(&mr);
        ensure!(!self.held.iter().any(|h| inode(&h.mr) == key), "{}", self.pool(hits, "an allocation shares the memory of another one", &what));
        self.adopt(mr, true)
    }

    fn send(&mut self, from: u8, to: u8, hs: &[u8], size: u16, lack: &Option<Lack>, loss: Loss) -> Res {
        let live = self.w.live();
        let from = live[from as usize % live.len()];
        let (mode, expr) = match to as usize % (live.len() + 2) {
            k if k < live.len() => (SelectorMode::Unicast, Expr::leaf(&self.w.eps[live[k]].label[0])),
            k if k == live.len() => (SelectorMode::Multicast, Expr::T),
            _ => (SelectorMode::Unicast, Expr::leaf("nobody")),
        };
        let receivers = self.w.matching(&expr);
        self.seq += 1;
        let seq = self.seq;
        let mut m = Message::new(selector(mode, &expr, 0), Msg::Tagged(Tagged { seq, from: 0, lane: 0, body: body(seq, size as usize) }));
        let mut objs = vec![];
        for h in hs {
            let Some(i) = self.pick(*h) else { break };
            match self.held[i].mr.clone() {
                Ok(mr) => m.memory_regions.push(mr),
                Err(_) if loss == Loss::Attachments => break,
                Err(e) => fail!("clone: {e}"),
            }
            objs.push(self.held[i].obj);
        }
        if loss == Loss::Attachments {
            for o in &objs {
                self.objs[*o].unknown = true;
            }
        }
        let tx = self.w.eps[from].sender.clone().unwrap();
        // the bus sends in a thread of its own
        let (r, hits, what) = self.armed(lack, &[Call::Send], |_| patient("send", Duration::ZERO, || tx.send(m)));
        let sent = match r? {
            Ok(()) => {
                ensure!(hits == 0, "{}", self.pool(hits, "send succeeded", &what));
                true
            }
            Err(SendError::IoError(e)) => {
                ensure!(hits > 0, "send failed: {e}");
                false
            }
            Err(e) => fail!("{}: {e}", self.pool(hits, "send failed", &what)),
        };
        if loss != Loss::Nothing {
            self.sent.insert(seq, (mode, receivers));
            return Ok(());
        }
        let got = self.w.fence(from)?;
        let mut seen: Vec<usize> = vec![];
        for g in got {
            self.take(g.ep, g.msg, sent.then_some(seq), &objs, &mut seen)?;
        }
        seen.sort();
        let due = if sent { receivers } else { vec![] };
        ensure!(seen == due, "{}: received by {seen:?} instead of {due:?}", self.pool(hits, "send", &what));
        Ok(())
    }

    fn take(&mut self, ep: usize, msg: Message<Msg>, seq: Option<u64>, objs: &[usize], seen: &mut Vec<usize>) -> Res {
        let Msg::Tagged(t) = &msg.payload else { fail!("something else was received") };
        ensure!(Some(t.seq) == seq, "message {} was received, expected was {seq:?}", t.seq);
        ensure!(t.body == body(t.seq, t.body.len()), "the contents of a message changed");
        ensure!(msg.memory_regions.len() == objs.len(), "a message has {} regions instead of {}", msg.memory_regions.len(), objs.len());
        seen.push(ep);
        for (mr, obj) in msg.memory_regions.into_iter().zip(objs) {
            self.hold(*obj, mr);
        }
        Ok(())
    }

    /// Something is done while a resource is lacking, it may fail
    fn act(&mut self, a: &Act, loss: Loss) -> Res {
        match a {
            Act::Join => {
                if self.w.live().len() >= 6 {
                    return Ok(());
                }
                let idx = self.w.eps.len();
                let label = vec![format!("e{idx}")];
                let opts = join_options(&self.w.identifier, "t", &label, false);
                match patient("join", Duration::ZERO, || ipmb::join::<Msg, Msg>(opts, Some(PATIENCE)))? {
                    Ok((tx, rx)) => {
                        let mode = Mode::of(&self.w.modes, idx);
                        let reader = Some(Reader::spawn_as(rx, mode, |m| matches!(m, Msg::Fence(f) if f.n == 0)));
                        self.w.eps.push(crate::bus::Ep { idx, label, sender: Some(tx), reader, host: false });
                    }
                    Err(JoinError::Timeout) => return Err(Bad::Slow("a join timed out although the resources were lacking for a moment".into())),
                    Err(e) => fail!("join: {e}"),
                }
            }
            Act::Send { from, to, hs } => self.send(*from, *to, hs, 10, &None, loss)?,
            Act::New { size } => {
                if let Some(mr) = MemoryRegion::new(*size as usize) {
                    let n = mr.ref_count();
                    ensure!(n == 1, "a new region has the count {n}");
                }
            }
            Act::Clone { h } => {
                if let Some(i) = self.pick(*h) {
                    if let Ok(mr) = self.held[i].mr.clone() {
                        self.hold(self.held[i].obj, mr);
                    }
                }
            }
            Act::Alloc { size } => {
                if let Some(mr) = self.registry.as_mut().unwrap().alloc(*size as usize, None) {
                    let n = mr.ref_count();
                    ensure!(n == 2, "an allocation has the count {n}");
                    let key = inode(&mr);
                    ensure!(!self.held.iter().any(|h| inode(&h.mr) == key), "an allocation shares the memory of another one");
                }
            }
            Act::Map { h } => {
                if let Some(i) = self.pick(*h) {
                    let id = self.objs[self.held[i].obj].id;
                    let r = self.held[i].mr.map(..);
                    // needs no descriptor
                    ensure!(r.is_ok_and(|b| b.iter().all(|x| *x == id)), "a region can't be mapped or has other contents");
                }
            }
        }
        Ok(())
    }

    /// After messages may have been lost together with connections: everybody gets in touch again
    fn recover(&mut self) -> Res {
        let end = real_now() + PATIENCE;
        loop {
            self.ping += 1;
            let base = (1u64 << 40) + self.ping * 1000;
            let live = self.w.live();
            for i in &live {
                let m = Message::new(selector(SelectorMode::Multicast, &Expr::T, 0), Msg::Fence(Fence { n: base + *i as u64 }));
                let tx = self.w.eps[*i].sender.as_ref().unwrap();
                patient("send", Duration::ZERO, || tx.send(m))?.map_err(|e| Bad::Fail(format!("send after the resources were available again: {e}")))?;
            }
            let mut complete = true;
            for i in &live {
                let mut n = 0;
                let r = self.w.eps[*i].reader.as_ref().unwrap().wait(Duration::from_secs(1), |q| {
                    n = q.iter().filter(|e| matches!(e, Event::Msg(m) if matches!(&m.payload, Msg::Fence(f) if f.n >= base && f.n < base + 1000))).count();
                    (n >= live.len()).then_some(())
                });
                complete &= r.is_some();
                ensure!(n <= live.len(), "endpoint {i} received {n} of {} messages", live.len());
            }
            for i in &live {
                for e in self.w.eps[*i].reader.as_ref().unwrap().take() {
                    match e {
                        Event::Msg(m) => match &m.payload {
                            Msg::Tagged(t) => {
                                ensure!(t.body == body(t.seq, t.body.len()), "the contents of a message changed");
                                let Some((mode, to)) = self.sent.get_mut(&t.seq) else { fail!("endpoint {i} received message {} late", t.seq) };
                                ensure!(to.contains(i), "endpoint {i} received message {} which is not for it, or again", t.seq);
                                to.retain(|x| x != i && *mode == SelectorMode::Multicast);
                            }
                            _ => {}
                        },
                        Event::Decode(e) | Event::Error(e) => fail!("endpoint {i}: {e}"),
                    }
                }
            }
            if complete {
                self.sent.clear();
                return Ok(());
            }
            if real_now() > end {
                return Err(Bad::Slow("not everybody is in touch after the resources were available again".into()));
            }
        }
    }

    fn check(&mut self) -> Res {
        for h in &mut self.held {
            let o = &self.objs[h.obj];
            let n = h.mr.ref_count();
            if o.unknown {
                ensure!(n >= o.handles - o.registry as u32, "a region with {} handles has the count {n}", o.handles);
                continue;
            }
            // the registry may have given it up
            ensure!(n == o.handles || o.registry && n == o.handles - 1, "a region with {} handles has the count {n}", o.handles);
        }
        let calls = self.calls.borrow();
        ensure!(calls.iter().all(|n| *n <= 1), "a callback was called again");
        Ok(())
    }
}

/// Let only so many files be opened; returns what was before
fn limit_files(spare: usize) -> libc::rlimit {
    let open: Vec<usize> = std::fs::read_dir("/proc/self/fd").unwrap().flatten().filter_map(|e| e.file_name().to_string_lossy().parse().ok()).collect();
    let mut n = 0;
    let mut free = 0;
    while free < spare || open.contains(&n) {
        free += !open.contains(&n) as usize;
        n += 1;
    }
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_NOFILE, &mut old), 0);
        let new = libc::rlimit { rlim_cur: n as _, ..old };
        assert_eq!(libc::setrlimit(libc::RLIMIT_NOFILE, &new), 0);
        old
    }
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let mut w = World::new("t");
    w.modes = c.modes.clone();
    w.join(&["e0".to_owned()])?;
    w.join(&["e1".to_owned()])?;
    w.fence(1)?;
    let base = census();
    let mut e = Engine {
        cx,
        w,
        objs: vec![],
        held: vec![],
        registry: Some(MemoryRegistry::default()),
        calls: Default::default(),
        good: vec![],
        seq: 0,
        others: 0,
        ping: 0,
        sent: HashMap::new(),
    };
    for op in &c.ops {
        e.step(op)?;
    }
    // everything works
    for i in e.w.live() {
        let got = e.w.fence(i)?;
        ensure!(got.is_empty(), "a message was received late");
    }
    e.held.clear();
    e.registry = None;
    {
        let calls = e.calls.borrow();
        ensure!(e.good.iter().all(|i| calls[*i] == 1), "a callback was not called until its registry was dropped");
    }
    for i in e.w.live().into_iter().filter(|i| *i > 1) {
        e.w.leave(i);
    }
    let others = e.others as i64;
    let end = real_now() + PATIENCE;
    loop {
        interpose::advance(Duration::from_secs(31));
        for i in e.w.live() {
            e.w.fence(i)?;
        }
        let now = census();
        let more: Vec<String> = now
            .iter()
            .filter_map(|(k, n)| {
                // a listener, and two to wait for it
                let fixed = match k.as_str() {
                    "anon_inode" => 2 * others,
                    "socket" => others,
                    _ => 0,
                };
                let b = base.get(k).copied().unwrap_or(0) + fixed;
                (*n > b).then(|| format!("{k}: {n} instead of {b}"))
            })
            .collect();
        if more.is_empty() {
            return Ok(());
        }
        if real_now() > end {
            fail!("left over although everything was dropped: {}", more.join(", "));
        }
        thread::sleep(Duration::from_millis(3));
    }
}

pub struct Scarce;

impl Prop for Scarce {
    const ID: &'static str = "C26";
    const RULE: &'static str = "random histories of a bus with several endpoints in one process: creating, cloning and mapping regions, registry allocations, joins (also hosting further buses), sends with regions, where chosen system calls of the operation (memfd_create, ftruncate, mmap, dup, epoll_create, eventfd, epoll_ctl, socket, connect, socketpair, bind, listen, sendmsg, starting a thread), or of the thread of the bus (accept, epoll_ctl, sendmsg, mmap) or a receiving one (mmap) meanwhile, fail with the errors the kernel reports for lacking resources, or where the limit of open files is really reached for up to 60 ms while things are done; an operation hit by that must return an error, nothing or (joins) succeed by trying again or time out; an operation not hit must succeed; nothing may panic or hang; counts, contents and sharing of regions are compared to a model after every step, everybody must hear everybody exactly once after the resources are available again, and at the end nothing may be left open; non-trivial: a call was refused or the limit was reached";
    type Case = Case;
    const CASES: (usize, usize) = (2_000, 60_000);
    const RECYCLE: usize = 1;

    fn strategy(_t: bool) -> BoxedStrategy<Case> {
        let h = any::<u8>;
        let some = || prop_oneof![2 => Just(None), 3 => lack(3).prop_map(Some)];
        let hs = || prop::collection::vec(h(), 0..4);
        let act = || {
            prop_oneof![
                2 => Just(Act::Join),
                5 => (h(), h(), hs()).prop_map(|(from, to, hs)| Act::Send { from, to, hs }),
                1 => (0u16..6000).prop_map(|size| Act::New { size }),
                1 => h().prop_map(|h| Act::Clone { h }),
                1 => (1u8..60).prop_map(|size| Act::Alloc { size }),
                1 => h().prop_map(|h| Act::Map { h }),
            ]
        };
        let op = prop_oneof![
            4 => (prop_oneof![0u32..100, 0u32..9000], some()).prop_map(|(size, lack)| Op::New { size, lack }),
            4 => (h(), some()).prop_map(|(h, lack)| Op::Clone { h, lack }),
            4 => (h(), any::<u16>(), any::<u16>(), some()).prop_map(|(h, from, len, lack)| Op::Map { h, from, len, lack }),
            3 => h().prop_map(|h| Op::Drop { h }),
            6 => (prop::sample::select(vec![1u8, 16, 17, 31, 32, 33, 200]), prop::bool::weighted(0.2), any::<bool>(), some())
                .prop_map(|(size, tag, callback, lack)| Op::Alloc { size, tag, callback, lack }),
            1 => Just(Op::Maintain),
            1 => (0u16..6000).prop_map(|ms| Op::Advance { ms }),
            3 => (prop::bool::weighted(0.4), lack(3)).prop_map(|(other, lack)| Op::Join { other, lack }),
            1 => (any::<bool>(), lack(1), 0u8..60).prop_map(|(other, lack, ms)| Op::Vain { other, lack, ms }),
            1 => h().prop_map(|e| Op::Leave { e }),
            5 => (h(), h(), hs(), 0u16..3000, some()).prop_map(|(from, to, hs, size, lack)| Op::Send { from, to, hs, size, lack }),
            4 => (prop::bool::weighted(0.2), lack(6), prop::collection::vec(act(), 1..4)).prop_map(|(reader, lack, acts)| Op::Others { reader, lack, acts }),
            1 => (0u8..5, 0u8..60, prop::collection::vec(act(), 1..5)).prop_map(|(spare, ms, acts)| Op::Full { spare, ms, acts }),
        ];
        (crate::bus::modes_strategy(), prop::collection::vec(op, 1..30)).prop_map(|(modes, ops)| Case { modes, ops }).boxed()
    }

    fn run(c: &Case, cx: &mut Cx) -> Res {
        run(c, cx)
    }
}

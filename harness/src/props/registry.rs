//! C10, C11: the memory registry.

use crate::{
    bus::{Expr, Msg, Res, Tagged, World},
    def::{Cx, Prop},
    ensure, fail, interpose,
};
use super::scarce::{lack, Lack, REGION};
use ipmb::{MemoryRegion, MemoryRegistry, Message, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::HashMap,
    rc::Rc,
    time::{Duration, Instant},
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum RegOp {
    Alloc { reg: u8, size: u64, tag: Option<String>, callback: bool },
    Maintain { reg: u8 },
    /// Drop the registry and continue with a new one
    Renew { reg: u8 },
    Clone { h: u8 },
    Drop { h: u8 },
    DropAll,
    Write { h: u8 },
    /// Clone a handle, send the clone to an endpoint which keeps what it receives
    Send { h: u8, to: u8 },
    /// Clone a handle, send the clone to nobody; it waits in the bus
    Wait { h: u8 },
    /// An endpoint joins for which the messages are waiting
    Collect,
    Advance { ms: u64 },
    /// Calls of the next allocation are refused for lack of resources
    Scarce(Lack),
    /// Other threads use the allocations at the same time
    Flow(super::sharing::Flow),
}

struct Block {
    reg: usize,
    size: u64,
    tag: Option<String>,
    /// The last allocation took place in between
    lo: Instant,
    hi: Instant,
    /// Number of the last allocation
    serial: u64,
}

#[derive(Clone, Copy)]
struct Callback {
    block: usize,
    reg: usize,
    lo: Instant,
    calls: usize,
}

struct Handle {
    block: usize,
    /// What the owner of the allocation wrote
    serial: u64,
    mr: MemoryRegion,
}

const KEEP: Duration = Duration::from_secs(5);

struct Engine<'a> {
    alloc: bool,
    callbacks: bool,
    cx: &'a mut Cx,
    regs: Vec<Option<MemoryRegistry>>,
    /// Numbers of the registries in use
    ids: Vec<usize>,
    next_id: usize,
    inodes: HashMap<(u64, u64), usize>,
    blocks: Vec<Block>,
    held: Vec<Handle>,
    waiting: Vec<(usize, u64)>,
    cbs: Vec<Option<Callback>>,
    log: Rc<RefCell<Vec<usize>>>,
    early: Vec<usize>,
    serial: u64,
    world: Option<World>,
    seq: u64,
    scarce: Option<Lack>,
}

fn inode(mr: &MemoryRegion) -> (u64, u64) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        assert_eq!(libc::fstat(mr.object().as_raw(), &mut st), 0);
        (st.st_dev, st.st_ino)
    }
}

impl Engine<'_> {
    fn free(&self, block: usize) -> bool {
        !self.held.iter().any(|h| h.block == block) && !self.waiting.iter().any(|(b, _)| *b == block)
    }

    fn world(&mut self) -> Res<&mut World> {
        if self.world.is_none() {
            let mut w = World::new("t");
            w.join(&["e0".to_owned()])?;
            w.join(&["e1".to_owned()])?;
            self.world = Some(w);
        }
        Ok(self.world.as_mut().unwrap())
    }

    fn pick(&self, h: u8) -> Option<usize> {
        (!self.held.is_empty()).then(|| h as usize * self.held.len() / 256)
    }

    /// Look at the callbacks called since, by something which ended before `now`
    fn called(&mut self, what: &str, dropped: Option<usize>, reused: Option<usize>) -> Res {
        let now = Instant::now();
        let log = std::mem::take(&mut *self.log.borrow_mut());
        for id in log {
            let Some(mut cb) = self.cbs[id] else {
                // of an allocation which hasn't returned yet or has failed
                self.early.push(id);
                continue;
            };
            cb.calls += 1;
            self.cbs[id] = Some(cb);
            if !self.callbacks {
                continue;
            }
            ensure!(cb.calls == 1, "{what}: callback {id} was called again");
            let given_up = now - cb.lo >= KEEP;
            // whether the handles of this allocation are gone
            let free = self.free(cb.block) || reused == Some(cb.block);
            if !(free || dropped == Some(cb.reg) || given_up) {
                fail!("{what}: callback {id} was called although a handle of the region is alive");
            }
            self.cx.class(if dropped == Some(cb.reg) {
                "callback by dropping the registry"
            } else if free {
                "callback after free"
            } else {
                "callback of a region given up"
            });
        }
        Ok(())
    }

    /// Callbacks which the call on this registry had to call
    fn due(&self, reg: usize) -> Vec<usize> {
        (0..self.cbs.len())
            .filter(|i| self.cbs[*i].is_some_and(|c| c.reg == reg && c.calls == 0 && self.free(c.block)))
            .collect()
    }

    fn check_due(&self, what: &str, due: &[usize]) -> Res {
        if self.callbacks {
            for i in due {
                ensure!(self.cbs[*i].unwrap().calls == 1, "{what}: callback {i} was not called although the region was free");
            }
        }
        Ok(())
    }

    fn step(&mut self, op: &RegOp) -> Res {
        match op {
            RegOp::Alloc { reg, size, tag, callback } => {
                let reg = *reg as usize % self.regs.len();
                let rid = self.ids[reg];
                let due = self.due(rid);
                // blocks which certainly can be reused
                let t0 = Instant::now();
                let fits = |b: &Block| b.reg == rid && b.size >= *size && b.size < size.saturating_mul(2) && b.tag == *tag;
                let cid = self.cbs.len();
                interpose::refuse(self.scarce.take().map(|l| l.refusal(&REGION)));
                let r = {
                    let registry = self.regs[reg].as_mut().unwrap();
                    if *callback {
                        self.cbs.push(None);
                        let log = self.log.clone();
                        registry.alloc_with_free(*size as usize, tag.as_deref(), move || log.borrow_mut().push(cid))
                    } else {
                        registry.alloc(*size as usize, tag.as_deref())
                    }
                };
                let refused = interpose::refuse(None) > 0;
                self.cx.class_if(refused, "resource refused");
                let t1 = Instant::now();
                let reusable = !refused && self.blocks.iter().enumerate().any(|(i, b)| fits(b) && t1 - b.lo < KEEP && self.free(i));
                let Some(mr) = r else {
                    ensure!(*size > 1 << 44 || refused, "allocating {size} bytes returned nothing");
                    self.cx.class("not satisfiable");
                    self.called("a failed allocation", None, None)?;
                    if refused {
                        // it may have ended before looking at the others
                        return Ok(());
                    }
                    self.check_due("a failed allocation", &due)?;
                    return Ok(());
                };
                let key = inode(&mr);
                let known = self.inodes.get(&key).copied();
                self.serial += 1;
                if self.alloc {
                    ensure!(mr.buffer_size() >= *size, "allocating {size} bytes returned a region of {}", mr.buffer_size());
                    ensure!(mr.ref_count() == 2, "a fresh allocation has the count {} instead of 2", mr.ref_count());
                }
                let block = match known {
                    Some(b) => {
                        let k = &self.blocks[b];
                        if self.alloc {
                            ensure!(k.reg == rid, "a region of another registry was allocated");
                            ensure!(self.free(b), "a region was allocated although a handle of it is alive (size {size} of {})", k.size);
                            ensure!(k.size == mr.buffer_size(), "the size of a region changed from {} to {}", k.size, mr.buffer_size());
                            ensure!(k.size < size.saturating_mul(2), "a region of {} bytes was reused for {size}", k.size);
                            ensure!(k.tag == *tag, "a region with tag {:?} was reused for {tag:?}", k.tag);
                        }
                        self.cx.class("reused");
                        self.cx.nontrivial |= self.alloc;
                        b
                    }
                    None => {
                        if self.alloc {
                            ensure!(
                                !reusable,
                                "a region was created for {size} bytes with tag {tag:?} although a free one last allocated less than 5 s before fits"
                            );
                        }
                        self.inodes.insert(key, self.blocks.len());
                        self.blocks.push(Block { reg: rid, size: mr.buffer_size(), tag: tag.clone(), lo: t0, hi: t1, serial: 0 });
                        self.cx.class("created");
                        self.blocks.len() - 1
                    }
                };
                self.called("an allocation", None, known)?;
                self.check_due("an allocation", &due)?;
                let b = &mut self.blocks[block];
                b.lo = t0;
                b.hi = t1;
                b.serial = self.serial;
                b.tag = tag.clone();
                if *callback {
                    ensure!(!self.callbacks || !self.early.contains(&cid), "callback {cid} was called by its own allocation");
                    self.cbs[cid] = Some(Callback { block, reg: rid, lo: t0, calls: 0 });
                }
                let mut h = Handle { block, serial: self.serial, mr };
                write_id(&mut h)?;
                self.held.push(h);
            }
            RegOp::Maintain { reg } => {
                let reg = *reg as usize % self.regs.len();
                let due = self.due(self.ids[reg]);
                self.regs[reg].as_mut().unwrap().maintain();
                self.called("maintain", None, None)?;
                self.check_due("maintain", &due)?;
            }
            RegOp::Renew { reg } => {
                let reg = *reg as usize % self.regs.len();
                let old = self.ids[reg];
                self.regs[reg] = None;
                self.called("dropping the registry", Some(old), None)?;
                self.check_dropped(old)?;
                self.regs[reg] = Some(MemoryRegistry::default());
                self.ids[reg] = self.next_id;
                self.next_id += 1;
            }
            RegOp::Clone { h } => {
                if let Some(i) = self.pick(*h) {
                    let h = &self.held[i];
                    let n = Handle { block: h.block, serial: h.serial, mr: h.mr.clone().expect("clone") };
                    self.held.push(n);
                }
            }
            RegOp::Drop { h } => {
                if let Some(i) = self.pick(*h) {
                    self.held.swap_remove(i);
                }
            }
            RegOp::DropAll => self.held.clear(),
            RegOp::Write { h } => {
                if let Some(i) = self.pick(*h) {
                    write_id(&mut self.held[i])?;
                }
            }
            RegOp::Send { h, to } => {
                if let Some(i) = self.pick(*h) {
                    let (block, serial) = (self.held[i].block, self.held[i].serial);
                    self.transfer(i, &format!("e{}", to % 2), 0)?;
                    let got = self.world()?.fence(0)?;
                    ensure!(got.len() == 1, "a message with a region was received {} times", got.len());
                    for g in got {
                        for mr in g.msg.memory_regions {
                            self.held.push(Handle { block, serial, mr });
                        }
                    }
                    self.cx.class("sent over the bus");
                }
            }
            RegOp::Wait { h } => {
                if let Some(i) = self.pick(*h) {
                    self.transfer(i, "late", u64::MAX)?;
                    let got = self.world()?.fence(0)?;
                    ensure!(got.is_empty(), "a message without receiver was received");
                    self.waiting.push((self.held[i].block, self.held[i].serial));
                    self.cx.class("waiting in the bus");
                }
            }
            RegOp::Collect => {
                if self.waiting.is_empty() {
                    return Ok(());
                }
                let waiting = std::mem::take(&mut self.waiting);
                let w = self.world()?;
                let idx = w.join(&["late".to_owned()])?;
                let got = w.fence(idx)?;
                w.leave(idx);
                ensure!(got.len() == waiting.len(), "{} of {} waiting messages were delivered", got.len(), waiting.len());
                for (g, (block, serial)) in got.into_iter().zip(waiting) {
                    for mr in g.msg.memory_regions {
                        self.held.push(Handle { block, serial, mr });
                    }
                }
            }
            RegOp::Scarce(l) => {
                self.scarce = Some(l.clone());
                return Ok(());
            }
            RegOp::Flow(f) => super::sharing::flow(f, self.cx, self.alloc, self.callbacks)?,
            RegOp::Advance { ms } => interpose::advance(Duration::from_millis(*ms)),
        }
        self.called("another operation", None, None)
    }

    fn transfer(&mut self, i: usize, to: &str, ttl: u64) -> Res {
        self.seq += 1;
        let mut m = Message::new(
            crate::bus::selector(SelectorMode::Unicast, &Expr::leaf(to), ttl),
            Msg::Tagged(Tagged { seq: self.seq, from: 0, lane: 0, body: vec![] }),
        );
        m.memory_regions.push(self.held[i].mr.clone().expect("clone"));
        self.world()?.send_message(0, m)
    }

    fn check_dropped(&self, rid: usize) -> Res {
        if self.callbacks {
            for (i, cb) in self.cbs.iter().enumerate() {
                if let Some(cb) = cb {
                    ensure!(cb.reg != rid || cb.calls == 1, "callback {i} was called {} times until its registry was dropped", cb.calls);
                }
            }
        }
        Ok(())
    }

    /// No allocation writes to memory of another one
    fn check_contents(&mut self) -> Res {
        if self.alloc {
            for h in &mut self.held {
                if h.mr.buffer_size() >= 8 {
                    let b = h.mr.map(..8).map_err(|e| crate::bus::Bad::Fail(format!("map: {e}")))?;
                    let id = u64::from_le_bytes(b.try_into().unwrap());
                    ensure!(id == h.serial, "the memory of allocation {} was changed by allocation {id}", h.serial);
                }
            }
        }
        Ok(())
    }
}

fn write_id(h: &mut Handle) -> Res {
    if h.mr.buffer_size() >= 8 {
        let b = h.mr.map(..8).map_err(|e| crate::bus::Bad::Fail(format!("map: {e}")))?;
        b.copy_from_slice(&h.serial.to_le_bytes());
    }
    Ok(())
}

fn strategy(callback: f64, n: usize) -> BoxedStrategy<(u8, Vec<RegOp>)> {
    let size = prop_oneof![
        9 => prop::sample::select(vec![16u64, 17, 31, 32, 33]),
        5 => prop::sample::select(vec![8u64, 9, 15, 50, 99, 100, 101, 199, 200, 201]),
        3 => prop::sample::select(vec![0u64, 1, 2, 3, 4, 7]),
        2 => prop::sample::select(vec![4096u64, 4084, 8192, 8191, 100_000]),
        2 => 8u64..300,
        1 => prop::sample::select(vec![1u64 << 40, (1 << 41) - 1, 1 << 62, i64::MAX as u64, i64::MAX as u64 - 11, u64::MAX, u64::MAX - 11, u64::MAX - 12, u64::MAX / 2 + 1]),
    ];
    let tag = prop_oneof![12 => Just(None), 3 => Just(Some("a")), 1 => Just(Some("b")), 1 => Just(Some("ab")), 1 => Just(Some(""))]
        .prop_map(|t| t.map(|t| t.to_owned()));
    let h = any::<u8>();
    let ms = prop_oneof![
        2 => prop::sample::select(vec![4990u64, 4999, 5000, 5001, 2500, 2499, 1000, 10_000]),
        5 => 0u64..1500,
        1 => 0u64..11_000,
    ];
    let op = prop_oneof![
        28 => (h, size, tag, prop::bool::weighted(callback)).prop_map(|(reg, size, tag, callback)| RegOp::Alloc { reg, size, tag, callback }),
        4 => h.prop_map(|reg| RegOp::Maintain { reg }),
        1 => h.prop_map(|reg| RegOp::Renew { reg }),
        3 => h.prop_map(|h| RegOp::Clone { h }),
        14 => h.prop_map(|h| RegOp::Drop { h }),
        3 => Just(RegOp::DropAll),
        2 => h.prop_map(|h| RegOp::Write { h }),
        1 => (h, h).prop_map(|(h, to)| RegOp::Send { h, to }),
        1 => h.prop_map(|h| RegOp::Wait { h }),
        1 => Just(RegOp::Collect),
        5 => ms.prop_map(|ms| RegOp::Advance { ms }),
        2 => lack(3).prop_map(RegOp::Scarce),
    ];
    prop_oneof![
        24 => (prop_oneof![3 => Just(1u8), 1 => Just(2u8)], prop::collection::vec(op, 2..n)),
        1 => super::sharing::flow_strategy().prop_map(|f| (1u8, vec![RegOp::Flow(f)])),
    ]
    .boxed()
}

fn run((n, ops): &(u8, Vec<RegOp>), cx: &mut Cx, alloc: bool, callbacks: bool) -> Res {
    let n = (*n).clamp(1, 3) as usize;
    let mut e = Engine {
        alloc,
        callbacks,
        cx,
        regs: (0..n).map(|_| Some(MemoryRegistry::default())).collect(),
        ids: (0..n).collect(),
        next_id: n,
        inodes: HashMap::new(),
        blocks: vec![],
        held: vec![],
        waiting: vec![],
        cbs: vec![],
        log: Default::default(),
        early: vec![],
        serial: 0,
        world: None,
        seq: 0,
        scarce: None,
    };
    for op in ops {
        e.step(op)?;
        e.check_contents()?;
    }
    for reg in 0..n {
        let id = e.ids[reg];
        e.regs[reg] = None;
        e.called("dropping the registry", Some(id), None)?;
        e.check_dropped(id)?;
    }
    e.held.clear();
    e.called("the end", None, None)?;
    if callbacks {
        let count = e.cbs.iter().flatten().count();
        e.cx.nontrivial |= count > 1;
    }
    Ok(())
}

pub struct Allocation;

impl Prop for Allocation {
    const ID: &'static str = "C10";
    const RULE: &'static str = "random histories over one or two registries: allocations of related sizes (equal, one more or less, double) and tags up to the largest integers, writes, clones, drops, sending handles to other endpoints, handles waiting in the bus, maintenance, allocations whose system calls are refused for lack of resources, dropping the registry and time jumps around 5 s; every region returned is identified by the inode of its object: it must be large enough and, when seen before, less than twice the size, of equal tag and without any live handle, and must be reused when a fitting free one was allocated less than 5 s before; contents of live allocations must stay as written; or allocations of a registry are sent to 1..4 endpoints which read, keep and send them on in threads of their own with random delays, and must never see the contents of another allocation; non-trivial: a region was reused";
    type Case = (u8, Vec<RegOp>);
    const CASES: (usize, usize) = (40_000, 1_000_000);
    const RECYCLE: usize = 2000;

    fn strategy(t: bool) -> BoxedStrategy<Self::Case> {
        strategy(0.2, if t { 80 } else { 40 })
    }

    fn run(c: &Self::Case, cx: &mut Cx) -> Res {
        run(c, cx, true, false)
    }
}

pub struct Callbacks;

impl Prop for Callbacks {
    const ID: &'static str = "C11";
    const RULE: &'static str = "random histories as for C10 where most allocations have a callback which records its call; after every operation each callback must have been called at most once, only when its region had no live handle (or its registry was dropped, or 5 s had passed since its allocation), and each allocation or maintenance must have called those of all regions which were free before; in the end each must have been called exactly once; or as the last of C10, where each callback must be called once and not before all receivers have finished with the region; non-trivial: at least two callbacks were given";
    type Case = (u8, Vec<RegOp>);
    const CASES: (usize, usize) = (40_000, 1_000_000);
    const RECYCLE: usize = 2000;

    fn strategy(t: bool) -> BoxedStrategy<Self::Case> {
        strategy(0.8, if t { 80 } else { 40 })
    }

    fn run(c: &Self::Case, cx: &mut Cx) -> Res {
        run(c, cx, false, true)
    }
}

//! C17: the hosting process dies, endpoints in processes of their own.

use crate::{
    agent::{listeners, owners, Agent, Order, Report},
    bus::{fresh_identifier, join_options, Bad, Expr, Msg, Res, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::real_now,
};
use ipmb::JoinError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{collections::HashMap, thread, time::Duration};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Spec {
    affinity: bool,
    group: bool,
    limit: Option<u64>,
    /// Only sends, its receiver is dropped
    deaf: bool,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum How {
    Kill,
    Exit,
    Abort,
    Term,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SOp {
    KillHost { how: How, helper: bool, streams: u8, after: u32 },
    /// A new endpoint is joining while the host dies
    JoinAndKill { spec: Spec, after: u32 },
    KillOther { who: u8, how: How, streams: u8 },
    Join { spec: Spec },
    /// Kill the host and, before anything else has happened, the next one
    KillTwice { after: u32 },
    WrongToken,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SCase {
    first: Spec,
    others: Vec<Spec>,
    ops: Vec<SOp>,
}

pub struct Survival;

struct Member {
    agent: Agent,
    spec: Spec,
}

struct Engine<'a> {
    id: String,
    members: Vec<Member>,
    round: u64,
    lane: u16,
    cx: &'a mut Cx,
    /// Whether /proc/net/unix shows our sockets
    visible: bool,
}

fn end(how: How, a: &mut Agent) {
    match how {
        How::Kill => a.kill(libc::SIGKILL),
        How::Term => a.kill(libc::SIGTERM),
        How::Exit => {
            a.tell(&Order::Exit);
            a.reap();
        }
        How::Abort => {
            a.tell(&Order::Abort);
            a.reap();
        }
    }
}

impl Engine<'_> {
    fn alive(&self) -> Vec<usize> {
        (0..self.members.len()).filter(|i| self.members[*i].agent.alive).collect()
    }

    fn hearing(&self) -> Vec<usize> {
        self.alive().into_iter().filter(|i| !self.members[*i].spec.deaf).collect()
    }

    fn start(&mut self, spec: &Spec) -> usize {
        let i = self.members.len();
        let mut agent = Agent::spawn();
        let mut label = vec![format!("e{i}")];
        if spec.group {
            label.push("g".into());
        }
        agent.tell(&Order::Join {
            identifier: self.id.clone(),
            token: "secret".into(),
            label,
            affinity: spec.affinity,
            limit: spec.limit,
            deaf: spec.deaf,
        });
        self.members.push(Member { agent, spec: spec.clone() });
        i
    }

    fn joined(&mut self, i: usize) -> Res {
        let end = real_now() + Duration::from_secs(20);
        let r = loop {
            let r = self.members[i].agent.wait(Duration::from_millis(300), |q| {
                q.iter().find_map(|r| match r {
                    Report::Joined => Some(Ok(())),
                    Report::JoinFailed(e) => Some(Err(e.clone())),
                    _ => None,
                })
            });
            if r.is_some() || real_now() > end {
                break r;
            }
            // an endpoint that does not receive notices the end of the bus when it sends
            self.round += 1;
            for d in self.alive() {
                if self.members[d].spec.deaf && d != i {
                    let seq = self.round;
                    self.members[d].agent.tell(&Order::Send { expr: Expr::T, uni: false, from: d as u16, lane: 0, seq });
                }
            }
        };
        match r {
            Some(Ok(())) => Ok(()),
            Some(Err(e)) => fail!("endpoint {i} could not join: {e}"),
            None => Err(Bad::Slow(format!("endpoint {i} did not join"))),
        }
    }

    /// Nobody crashed or got an error
    fn sane(&mut self) -> Res {
        for (i, m) in self.members.iter_mut().enumerate() {
            if m.agent.alive {
                if let Some(s) = m.agent.ended() {
                    fail!("the process of endpoint {i} ended: {s}");
                }
            }
            for r in m.agent.reports() {
                match r {
                    Report::Panic(p) => fail!("endpoint {i} panicked: {p}"),
                    Report::SendFailed(e) => fail!("endpoint {i}: send failed: {e}"),
                    Report::RecvFailed(e) => fail!("endpoint {i}: recv failed: {e}"),
                    Report::JoinFailed(e) => fail!("endpoint {i}: join failed: {e}"),
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn willing(&self) -> bool {
        self.alive().iter().any(|i| self.members[*i].spec.affinity)
    }

    fn host(&mut self) -> Res<Option<usize>> {
        let l = listeners(&self.id);
        if !self.visible {
            return Ok(None);
        }
        ensure!(l.len() <= 1, "{} sockets listen for one bus", l.len());
        let Some(inode) = l.first() else { return Ok(None) };
        let pids: Vec<i32> = self.alive().iter().map(|i| self.members[*i].agent.pid()).collect();
        let o = owners(*inode, &pids);
        ensure!(o.len() == 1, "{} processes of living endpoints have the listening socket of the bus open", o.len());
        Ok(self.alive().into_iter().find(|i| self.members[*i].agent.pid() == o[0]))
    }

    fn responsive(&mut self) -> bool {
        self.alive().into_iter().all(|i| {
            let a = &mut self.members[i].agent;
            let pongs = |q: &[Report]| q.iter().filter(|r| matches!(r, Report::Pong)).count();
            let before = pongs(&a.reports());
            a.tell(&Order::Ping);
            a.wait(Duration::from_millis(700), |q| (pongs(q) > before).then_some(())).is_some()
        })
    }

    /// All survivors exchange messages again
    fn settle(&mut self) -> Res {
        let first = self.round + 1;
        let begin = real_now();
        let mut asked = false;
        loop {
            self.round += 1;
            let n = self.round;
            let alive = self.alive();
            for i in &alive {
                self.members[*i].agent.tell(&Order::Send { expr: Expr::T, uni: false, from: *i as u16, lane: 0, seq: n });
            }
            let hearing = self.hearing();
            let missing = |e: &Engine| -> Vec<(usize, usize)> {
                let mut out = vec![];
                for i in &alive {
                    let q = e.members[*i].agent.shared.0.lock().unwrap();
                    if !q.iter().any(|r| matches!(r, Report::Sent { lane: 0, seq } if *seq >= first)) {
                        out.push((*i, *i));
                    }
                }
                for j in &hearing {
                    let q = e.members[*j].agent.shared.0.lock().unwrap();
                    for i in &alive {
                        let ok = q.iter().any(|r| matches!(r, Report::Got { from, lane: 0, seq } if *from as usize == *i && *seq >= first));
                        if !ok {
                            out.push((*i, *j));
                        }
                    }
                }
                out
            };
            let wait = real_now() + Duration::from_millis(150);
            let mut miss = missing(self);
            while !miss.is_empty() && real_now() < wait {
                thread::sleep(Duration::from_millis(3));
                miss = missing(self);
            }
            if miss.is_empty() {
                break;
            }
            self.sane()?;
            let late = real_now() - begin;
            if late > Duration::from_secs(20) && late < Duration::from_secs(45) && (asked || self.responsive()) {
                // The machine isn't too slow: wait for long enough to be sure of a hang
                asked = true;
                continue;
            }
            if late > Duration::from_secs(20) {
                let specs: Vec<&Spec> = self.members.iter().map(|m| &m.spec).collect();
                let m = format!("long after the host died messages still do not arrive (from, to): {miss:?} of {specs:?}");
                if asked && self.responsive() {
                    fail!("{m}, although all processes respond");
                }
                return Err(Bad::Slow(m));
            }
        }
        Ok(())
    }

    /// The bus is up: everything sent arrives exactly once at those who match
    fn strict(&mut self) -> Res {
        self.round += 1;
        let n = self.round;
        let alive = self.alive();
        let hearing = self.hearing();
        let group: Vec<usize> = hearing.iter().copied().filter(|i| self.members[*i].spec.group).collect();
        for i in &alive {
            let a = &mut self.members[*i].agent;
            let from = *i as u16;
            a.tell(&Order::Send { expr: Expr::T, uni: false, from, lane: 1, seq: n });
            for j in &hearing {
                a.tell(&Order::Send { expr: Expr::leaf(&format!("e{j}")), uni: true, from, lane: 100 + *j as u16, seq: n });
            }
            a.tell(&Order::Send { expr: Expr::leaf("g"), uni: true, from, lane: 2, seq: n });
            // everything before has been routed when this arrives
            a.tell(&Order::Send { expr: Expr::T, uni: false, from, lane: 3, seq: n });
        }
        for j in &hearing {
            let r = self.members[*j].agent.wait(PATIENCE, |q| {
                alive.iter().all(|i| q.iter().any(|r| matches!(r, Report::Got { from, lane: 3, seq } if *from as usize == *i && *seq == n))).then_some(())
            });
            if r.is_none() {
                self.sane()?;
                return Err(Bad::Slow(format!("a multicast did not reach endpoint {j} although the bus is up")));
            }
        }
        let mut uni: HashMap<u16, Vec<usize>> = HashMap::new();
        for j in &hearing {
            let got = self.members[*j].agent.reports();
            for i in &alive {
                let count = |l: u16| got.iter().filter(|r| matches!(r, Report::Got { from, lane, seq } if *from as usize == *i && *seq == n && *lane == l)).count();
                ensure!(count(1) == 1, "endpoint {j} received a multicast of endpoint {i} {} times", count(1));
                for k in &hearing {
                    let c = count(100 + *k as u16);
                    ensure!(c == usize::from(k == j), "endpoint {j} received a unicast of endpoint {i} to endpoint {k} {c} times");
                }
                for _ in 0..count(2) {
                    uni.entry(*i as u16).or_default().push(*j);
                }
            }
        }
        for i in &alive {
            let to = uni.remove(&(*i as u16)).unwrap_or_default();
            ensure!(to.len() == group.len().min(1) && to.iter().all(|t| group.contains(t)), "a unicast to the group {group:?} reached {to:?}");
        }
        if let Some(h) = self.host()? {
            ensure!(self.members[h].spec.affinity, "endpoint {h} hosts the bus although it declined to");
        } else {
            ensure!(!self.visible, "nobody listens for the bus although it is up");
        }
        self.sane()
    }

    /// A bus without anybody to host it stays away, endpoints are only waiting
    fn orphaned(&mut self) -> Res {
        thread::sleep(Duration::from_millis(400));
        ensure!(listeners(&self.id).is_empty(), "the bus is hosted although no living endpoint may host");
        self.cx.class("no survivor may host");
        self.sane()
    }

    fn after_death(&mut self) -> Res {
        if self.alive().is_empty() {
            return Ok(());
        }
        if self.willing() {
            self.settle()?;
            self.strict()
        } else {
            self.orphaned()
        }
    }

    fn streams(&mut self, n: u8) {
        let alive = self.alive();
        for k in 0..(n as usize).min(alive.len()) {
            let i = alive[k];
            self.lane += 1;
            let lane = 1000 + self.lane;
            self.members[i].agent.tell(&Order::Stream { expr: Expr::T, from: i as u16, lane, pause: 700, size: (lane as usize * 37) % 3000 });
        }
        self.cx.class_if(n > 0, "messages in flight");
    }

    fn quiet(&mut self) {
        for i in self.alive() {
            self.members[i].agent.tell(&Order::Quiet);
        }
    }

    /// The endpoint to kill as host
    fn victim(&mut self) -> Res<Option<usize>> {
        match self.host()? {
            Some(h) => Ok(Some(h)),
            // only known without looking while the first one is alive
            None => Ok(self.members[0].agent.alive.then_some(0).filter(|_| !self.visible)),
        }
    }

    fn step(&mut self, op: &SOp) -> Res {
        match op {
            SOp::KillHost { how, helper, streams, after } => {
                let Some(h) = self.victim()? else { return Ok(()) };
                if *helper {
                    self.members[h].agent.tell(&Order::Helper);
                    let r = self.members[h].agent.wait(PATIENCE, |q| q.iter().any(|r| matches!(r, Report::Helper(_))).then_some(()));
                    if r.is_none() {
                        return Err(Bad::Slow("the helper process did not start".into()));
                    }
                    self.cx.class("helper process of the host");
                }
                self.streams(*streams);
                thread::sleep(Duration::from_micros(*after as u64));
                end(*how, &mut self.members[h].agent);
                self.cx.class(format!("host ended by {how:?}"));
                self.cx.nontrivial |= !self.alive().is_empty();
                if *streams > 0 && self.willing() && !self.alive().is_empty() {
                    self.settle()?;
                }
                self.quiet();
                self.after_death()
            }
            SOp::KillTwice { after } => {
                let Some(h) = self.victim()? else { return Ok(()) };
                end(How::Kill, &mut self.members[h].agent);
                thread::sleep(Duration::from_micros(*after as u64));
                if let (true, Some(h)) = (self.visible, self.host()?) {
                    end(How::Kill, &mut self.members[h].agent);
                    self.cx.class("next host killed, too");
                }
                self.cx.nontrivial |= !self.alive().is_empty();
                self.after_death()
            }
            SOp::JoinAndKill { spec, after } => {
                let Some(h) = self.victim()? else { return Ok(()) };
                let i = self.start(spec);
                thread::sleep(Duration::from_micros(*after as u64));
                end(How::Kill, &mut self.members[h].agent);
                self.cx.class("host died while an endpoint joined");
                self.cx.nontrivial = true;
                if self.willing() {
                    self.joined(i)?;
                }
                self.after_death()
            }
            SOp::KillOther { who, how, streams } => {
                let h = self.victim()?;
                let o: Vec<usize> = self.alive().into_iter().filter(|i| Some(*i) != h).collect();
                if h.is_none() || o.is_empty() {
                    return Ok(());
                }
                let i = o[*who as usize * o.len() / 256];
                self.streams(*streams);
                end(*how, &mut self.members[i].agent);
                self.quiet();
                // the bus wasn't interrupted
                self.cx.class("another process ended");
                self.strict()
            }
            SOp::Join { spec } => {
                if self.members.len() > 8 {
                    return Ok(());
                }
                let i = self.start(spec);
                if self.willing() {
                    self.joined(i)?;
                    self.settle()?;
                    self.strict()
                } else {
                    self.orphaned()
                }
            }
            SOp::WrongToken => {
                if self.host()?.is_none() {
                    return Ok(());
                }
                match ipmb::join::<Msg, Msg>(join_options(&self.id, "Secret", &[], false), Some(PATIENCE)) {
                    Err(JoinError::TokenMismatch) => {}
                    Err(JoinError::Timeout) => return Err(Bad::Slow("a join with a wrong token timed out".into())),
                    Err(e) => fail!("join with a wrong token: {e}"),
                    Ok(_) => fail!("joined with a wrong token"),
                }
                self.cx.class("wrong token refused");
                self.strict()
            }
        }
    }

    fn no_duplicates(&self) -> Res {
        for (j, m) in self.members.iter().enumerate() {
            let mut last: HashMap<(u16, u16), u64> = HashMap::new();
            for r in m.agent.reports() {
                if let Report::Got { from, lane, seq } = r {
                    if let Some(p) = last.insert((from, lane), seq) {
                        ensure!(p < seq, "endpoint {j} received message {seq} of endpoint {from} (lane {lane}) after message {p}");
                    }
                }
            }
        }
        Ok(())
    }

    fn finish(&mut self) {
        for m in &mut self.members {
            for r in m.agent.reports() {
                if let Report::Helper(pid) = r {
                    let comm = std::fs::read_to_string(format!("/proc/{pid}/comm")).unwrap_or_default();
                    if comm.trim() == "sleep" {
                        unsafe {
                            libc::kill(pid as i32, libc::SIGKILL);
                        }
                    }
                }
            }
            if m.agent.alive {
                m.agent.kill(libc::SIGKILL);
            }
        }
    }
}

impl Drop for Engine<'_> {
    fn drop(&mut self) {
        self.finish();
    }
}

impl Prop for Survival {
    const ID: &'static str = "C17";
    const RULE: &'static str = "1..5 endpoints in processes of their own (willing or unwilling to host, receiving without limit or with limits, or only sending), then a random sequence of ending the hosting process (SIGKILL, exit, abort, SIGTERM; at random moments; while messages stream; with helper processes of the host alive; while another endpoint is joining; twice in a row), ending others and joining of more; afterwards the survivors must exchange messages without being told to reconnect as soon as one of them may host, then a strict round checks exactly-once routing, the single listening socket must belong to a willing survivor, nobody may have crashed or got an error and nobody may have received anything twice or out of order; without a willing survivor nobody may host; non-trivial: the host was ended while another endpoint was alive";
    type Case = SCase;
    const CASES: (usize, usize) = (500, 8_000);
    const SHARDS: usize = 24;
    const RECYCLE: usize = 20;
    const LIMIT: u64 = 150;

    fn strategy(_t: bool) -> BoxedStrategy<SCase> {
        let limit = prop_oneof![2 => Just(None), 1 => Just(Some(10u64)), 1 => Just(Some(300))];
        let spec = (prop::bool::weighted(0.6), any::<bool>(), limit, prop::bool::weighted(0.15))
            .prop_map(|(affinity, group, limit, deaf)| Spec { affinity, group, limit, deaf });
        let first = spec.clone().prop_map(|s| Spec { affinity: true, ..s });
        let how = prop_oneof![4 => Just(How::Kill), 1 => Just(How::Exit), 1 => Just(How::Abort), 1 => Just(How::Term)];
        let after = prop_oneof![2 => Just(0u32), 2 => 0u32..3000, 1 => 0u32..40_000];
        let streams = prop_oneof![2 => Just(0u8), 1 => 1u8..4];
        let op = prop_oneof![
            8 => (how.clone(), prop::bool::weighted(0.3), streams.clone(), after.clone())
                .prop_map(|(how, helper, streams, after)| SOp::KillHost { how, helper, streams, after }),
            2 => (spec.clone(), after.clone()).prop_map(|(spec, after)| SOp::JoinAndKill { spec, after }),
            2 => (any::<u8>(), how, streams).prop_map(|(who, how, streams)| SOp::KillOther { who, how, streams }),
            3 => spec.clone().prop_map(|spec| SOp::Join { spec }),
            2 => after.prop_map(|after| SOp::KillTwice { after }),
            1 => Just(SOp::WrongToken),
        ];
        (first, prop::collection::vec(spec, 0..5), prop::collection::vec(op, 1..4))
            .prop_map(|(first, others, ops)| SCase { first, others, ops })
            .boxed()
    }

    fn run(c: &SCase, cx: &mut Cx) -> Res {
        let mut e = Engine { id: fresh_identifier(), members: vec![], round: 0, lane: 0, cx, visible: true };
        e.start(&Spec { affinity: true, ..c.first.clone() });
        e.joined(0)?;
        e.visible = !listeners(&e.id).is_empty();
        e.cx.class_if(!e.visible, "listening sockets not visible");
        for s in &c.others {
            let i = e.start(s);
            e.joined(i)?;
        }
        e.strict()?;
        for op in &c.ops {
            e.step(op)?;
        }
        e.no_duplicates()?;
        e.sane()
    }
}

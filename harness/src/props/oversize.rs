//! C23: messages around and beyond what the transport can carry.

use crate::{
    bus::{body, selector, Bad, Expr, Msg, Res, Tagged, Unencodable, World},
    def::{Cx, Prop},
    ensure, fail,
    interpose::real_now,
};
use ipmb::{BytesMessage, MemoryRegion, Message, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    os::fd::{AsRawFd, IntoRawFd},
    time::Duration,
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Target {
    All,
    One(u8),
    /// Any of the group
    Any,
    Group,
    Nobody,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Letter {
    from: u8,
    target: Target,
    size: u32,
    regions: u16,
    objects: u16,
    /// Padding goes into the selector instead of the payload
    selector: bool,
    fence: bool,
    ttl: bool,
    /// Operators around the selector which never change the outcome
    #[serde(default)]
    nest: u16,
    /// The payload has no encoding
    #[serde(default)]
    unencodable: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// Whether in the group, host first
    eps: Vec<bool>,
    letters: Vec<Letter>,
}

pub struct Oversize;

/// Certainly within the limits
const SAFE: usize = 60_000;
const MAX_FDS: usize = 253;
/// A nesting of the selector which is certainly accepted
const SAFE_NEST: u16 = 500;
/// Bytes of an ordinary message
const ORDINARY: usize = 20;
/// Certainly beyond
const OVER: usize = 300_000;

fn sockets() -> BTreeSet<String> {
    std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).map(|l| l.to_string_lossy().into_owned()).filter(|l| l.starts_with("socket:")).collect())
        .unwrap_or_default()
}

struct Due {
    from: usize,
    to: Vec<usize>,
    uni: bool,
    /// Must be delivered, may be, must not
    must: bool,
    may: bool,
    size: usize,
    regions: usize,
    objects: usize,
}

/// `ordinary`: the receivers of the ordinary messages
fn collect(w: &mut World, due: &mut BTreeMap<u64, Due>, ordinary: &mut BTreeMap<u64, usize>, from: &[usize]) -> Res {
    let mut got: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for f in from {
        for g in w.fence(*f)? {
            if let Msg::Tagged(t) = &g.msg.payload {
                ensure!(ordinary.remove(&t.seq) == Some(g.ep), "endpoint {} received the ordinary message {} which is not due", g.ep, t.seq);
                ensure!(t.body == body(t.seq, ORDINARY) && g.msg.memory_regions.is_empty() && g.msg.objects.is_empty(), "the ordinary message {} arrived corrupted", t.seq);
                continue;
            }
            let Msg::Bytes(b) = &g.msg.payload else { fail!("unexpected type") };
            let seq = u64::from_le_bytes(b.data[..8].try_into().unwrap());
            let Some(d) = due.get(&seq) else { fail!("endpoint {} received message {seq} which is not due", g.ep) };
            ensure!(b.data.len() == d.size && b.data[8..] == body(seq, d.size - 8), "message {seq} of {} bytes arrived with {} bytes or corrupted", d.size, b.data.len());
            ensure!(
                g.msg.memory_regions.len() == d.regions && g.msg.objects.len() == d.objects,
                "message {seq} with {} regions and {} objects arrived with {} and {}",
                d.regions,
                d.objects,
                g.msg.memory_regions.len(),
                g.msg.objects.len()
            );
            got.entry(seq).or_default().push(g.ep);
        }
    }
    if let Some((seq, ep)) = ordinary.pop_first() {
        fail!("the ordinary message {seq} did not reach endpoint {ep}");
    }
    for (seq, d) in std::mem::take(due) {
        let mut eps = got.remove(&seq).unwrap_or_default();
        eps.sort_unstable();
        let what = format!("message {seq} of endpoint {} with {} bytes and {} attachments", d.from, d.size, d.regions + d.objects);
        ensure!(d.may || eps.is_empty(), "{what} was refused but reached {eps:?}");
        ensure!(eps.iter().all(|e| d.to.contains(e)), "{what} for {:?} reached {eps:?}", d.to);
        ensure!(eps.windows(2).all(|p| p[0] != p[1]), "{what} reached {eps:?}");
        if d.uni {
            ensure!(eps.len() <= 1, "{what} was a unicast but reached {eps:?}");
            ensure!(!d.must || d.to.is_empty() || eps.len() == 1, "{what} reached nobody of {:?}", d.to);
        } else {
            ensure!(!d.must || eps == d.to, "{what} reached {eps:?} instead of {:?}", d.to);
        }
    }
    Ok(())
}

impl Prop for Oversize {
    const ID: &'static str = "C23";
    const RULE: &'static str = "random sequences of messages with 8 bytes to 3 MB and 0..600 attachments (also huge or deeply nested selectors and payloads without encoding), around and beyond the limits of the transport, unicast or multicast, by the hosting and other endpoints, each followed by an ordinary one of another endpoint to one of the endpoints; what send refuses must reach nobody, what it accepts must be delivered whole, at most 60000 bytes, 253 attachments and 500 nested operators must be accepted, 300000 bytes, 254 attachments or a payload without encoding refused; everything else must arrive, no connection be replaced; non-trivial: a message was refused or sent by the host beyond the limits";
    type Case = Case;
    const CASES: (usize, usize) = (2400, 60_000);

    fn strategy(_t: bool) -> BoxedStrategy<Case> {
        let target = prop_oneof![2 => Just(Target::All), 3 => any::<u8>().prop_map(Target::One), 2 => Just(Target::Any), 1 => Just(Target::Group), 1 => Just(Target::Nobody)];
        let size = prop_oneof![
            4 => 8u32..3000,
            1 => 8u32..60_000,
            2 => 60_000u32..300_000,
            2 => 120_000u32..140_000,
            2 => 200_000u32..240_000,
            2 => 300_000u32..1_000_000,
            1 => 1_000_000u32..3_000_000,
        ];
        let n = || prop_oneof![8 => Just(0u16), 2 => 1u16..5, 1 => 100u16..300, 1 => 250u16..258];
        let nest = prop_oneof![16 => Just(0u16), 1 => 1u16..1000, 1 => 1000u16..1050, 2 => 1000u16..5000];
        let letter = (any::<u8>(), target, size, n(), n(), prop::bool::weighted(0.1), any::<bool>(), prop::bool::weighted(0.2), nest, prop::bool::weighted(0.08))
            .prop_map(|(from, target, size, regions, objects, selector, fence, ttl, nest, unencodable)| Letter { from, target, size, regions, objects, selector, fence, ttl, nest, unencodable });
        (prop::collection::vec(any::<bool>(), 1..5), prop::collection::vec(letter, 1..10)).prop_map(|(eps, letters)| Case { eps, letters }).boxed()
    }

    fn run(c: &Case, cx: &mut Cx) -> Res {
        if c.eps.is_empty() {
            return Ok(());
        }
        let n = c.eps.len();
        let mut w = World::new("t");
        for (i, g) in c.eps.iter().enumerate() {
            let mut l = vec![format!("e{i}")];
            if *g {
                l.push("g".into());
            }
            w.join(&l)?;
        }
        w.fence(n - 1)?;
        let before = sockets();
        let null = std::fs::File::open("/dev/null").unwrap();
        let region = MemoryRegion::new(16).unwrap();
        let mut due = BTreeMap::new();
        let mut ordinary = BTreeMap::new();
        let mut senders = vec![];
        for (k, l) in c.letters.iter().enumerate() {
            let seq = k as u64 + 1;
            let from = l.from as usize % n;
            let (mode, expr) = match &l.target {
                Target::All => (SelectorMode::Multicast, Expr::T),
                Target::Group => (SelectorMode::Multicast, Expr::leaf("g")),
                Target::Any => (SelectorMode::Unicast, Expr::leaf("g")),
                Target::One(k) => (SelectorMode::Unicast, Expr::leaf(&format!("e{}", *k as usize % n))),
                Target::Nobody => (SelectorMode::Multicast, Expr::leaf("nobody")),
            };
            let to = w.matching(&expr);
            let size = if l.selector { 8 } else { l.size.max(8) as usize };
            let mut data = seq.to_le_bytes().to_vec();
            data.extend(body(seq, size - 8));
            let sel = if l.selector {
                // never changes the outcome
                let pad = Expr::O(Box::new(expr.clone()), Box::new(Expr::A(Box::new(Expr::F), Box::new(Expr::L("x".repeat(l.size as usize))))));
                selector(mode, &pad, if l.ttl { 1000 } else { 0 })
            } else {
                selector(mode, &expr, if l.ttl { 1000 } else { 0 })
            };
            let mut sel = sel;
            for i in 0..l.nest {
                sel.label_op = match (i as u64 ^ seq) % 3 {
                    0 => sel.label_op.and(ipmb::LabelOp::True),
                    1 => ipmb::LabelOp::False.or(sel.label_op),
                    _ => sel.label_op.or(ipmb::LabelOp::False),
                };
            }
            let mut m = Message::new(sel, if l.unencodable { Msg::Unencodable(Unencodable { n: l.size % 3000 }) } else { Msg::Bytes(BytesMessage { format: 3, data }) });
            for _ in 0..l.regions {
                m.memory_regions.push(region.clone().unwrap());
            }
            for _ in 0..l.objects {
                m.objects.push(unsafe { ipmb::Object::from_raw(null.try_clone().unwrap().into_raw_fd()) });
            }
            let bytes = if l.selector { l.size as usize } else { size };
            let fds = (l.regions + l.objects) as usize;
            let within = bytes <= SAFE && fds <= MAX_FDS && l.nest <= SAFE_NEST && !l.unencodable;
            let beyond = bytes >= OVER || fds > MAX_FDS;
            let t = real_now();
            let r = w.eps[from].sender.as_ref().unwrap().send(m);
            let took = real_now() - t;
            if took > Duration::from_secs(4) {
                return Err(Bad::Slow(format!("sending {bytes} bytes took {took:?}")));
            }
            let host = from == 0;
            match &r {
                Ok(()) if l.unencodable => fail!("a message without encoding was sent without an error"),
                Ok(()) => ensure!(host || !beyond, "endpoint {from} sent {bytes} bytes and {fds} attachments without an error"),
                Err(e) => ensure!(!within, "sending {bytes} bytes and {fds} attachments with {} operators from endpoint {from} failed: {e}", l.nest),
            }
            cx.class_if(r.is_err() && bytes > SAFE, "refused: too many bytes");
            cx.class_if(r.is_err() && fds > MAX_FDS, "refused: too many attachments");
            cx.class_if(r.is_err() && l.nest > SAFE_NEST, "refused: too deeply nested selector");
            cx.class_if(r.is_err() && l.unencodable, "refused: no encoding");
            cx.class_if(r.is_ok() && l.nest > SAFE_NEST, "accepted deeply nested selector");
            cx.class_if(host && beyond, "beyond the limits from the host");
            cx.class_if(r.is_ok() && bytes > SAFE && !host, "accepted above 60000 bytes");
            cx.class_if(l.selector && bytes > SAFE, "huge selector");
            cx.class_if(fds == MAX_FDS, "253 attachments");
            cx.nontrivial |= r.is_err() || host && beyond;
            // what the host sends may be too large for some of the receivers
            let must = r.is_ok() && (within || !host || to == [0]);
            due.insert(seq, Due { from, to, uni: mode == SelectorMode::Unicast, must, may: r.is_ok(), size, regions: l.regions as usize, objects: l.objects as usize });
            if !senders.contains(&from) {
                senders.push(from);
            }
            // ordinary traffic of somebody else
            let o = (from + 1) % n;
            let k = (seq / 2) as usize % n;
            w.send(o, selector(SelectorMode::Unicast, &Expr::leaf(&format!("e{k}")), 0), Msg::Tagged(Tagged { seq, from: 0, lane: 0, body: body(seq, ORDINARY) }))?;
            ordinary.insert(seq, k);
            if !senders.contains(&o) {
                senders.push(o);
            }
            if l.fence {
                collect(&mut w, &mut due, &mut ordinary, &std::mem::take(&mut senders))?;
            }
        }
        let all: Vec<usize> = (0..n).collect();
        collect(&mut w, &mut due, &mut ordinary, &all)?;
        let new: Vec<String> = sockets().difference(&before).cloned().collect();
        ensure!(new.is_empty(), "{} connections were replaced", new.len());
        let _ = null.as_raw_fd();
        Ok(())
    }
}

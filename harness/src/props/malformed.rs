//! C18: malformed and hostile traffic, towards a bus and towards an endpoint.

use crate::{
    agent::{Agent, Order, Report},
    bus::{body, expr_strategy, fresh_identifier, join_options, name_strategy, selector, unique, Bad, Event, Expr, Msg, Reader, Res, Tagged, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::{self, real_now},
    raw::{self, Ack, Conn, RawSelector},
};
use ipmb::{EndpointSender, Label, MemoryRegion, Message, MessageBox, RecvError, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd},
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        mpsc, Arc, Mutex,
    },
    thread,
    time::Duration,
};
use type_uuid::TypeUuid;

// ------------------------------------------------------------------ generated traffic

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Uuid {
    Tagged,
    Bytes,
    Fence,
    Connect,
    Ack,
    Other(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Pay {
    Tagged { seq: u64, len: u16 },
    Bytes { format: u16, len: u16 },
    Connect { good_token: bool, label: Vec<String>, version: Option<(u8, u8, u8)> },
    Ack(u8),
    Raw(Vec<u8>),
    Big(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mutation {
    Flip { at: u32, bit: u8 },
    Byte { at: u32, value: u8 },
    Word { at: u32, value: u32 },
    Insert { at: u32, bytes: Vec<u8> },
    Remove { at: u32, n: u8 },
    Truncate { at: u32 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Frame {
    Raw(Vec<u8>),
    Built {
        header: Option<[u8; 4]>,
        expr: Expr,
        uni: bool,
        uuid: Uuid,
        regions: u16,
        ttl: u16,
        pay: Pay,
        muts: Vec<Mutation>,
        /// Claimed sizes instead of the real ones
        sel_size: Option<u32>,
        pay_size: Option<u32>,
    },
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Att {
    /// The socket an endpoint would attach
    Reply,
    /// One nobody reads, whose buffer is full
    FullReply,
    /// A stream whose other end is gone
    DeadStream,
    FullStream,
    Datagram,
    Listener,
    Own,
    Pipe,
    EventFd,
    Epoll,
    File(u16),
    ReadOnlyFile,
    Dir,
    DevZero,
    Region(u16),
    /// A region whose header claims this size
    Liar(u64),
    Sealed,
}

type Parcel = (Frame, Vec<Att>);

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum End {
    Close,
    HalfClose,
    /// Open until the end of the case
    Keep,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Attack {
    /// Ask for admission properly first
    admitted: bool,
    parcels: Vec<Parcel>,
    end: End,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AckKind {
    Good,
    ErrToken,
    ErrVersion((u8, u8, u8)),
    Parcel(Parcel),
    /// Hang up instead
    None,
    /// Don't answer
    Silent,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum HCase {
    Bus { eps: Vec<Vec<String>>, attacks: Vec<Attack> },
    Endpoint { label: Vec<String>, rounds: Vec<(AckKind, Vec<Parcel>)> },
    /// A region is truncated while it waits for a receiver
    Shrink { to: u16, touch: bool },
}

fn built_strategy() -> BoxedStrategy<Frame> {
    let uuid = prop_oneof![
        5 => Just(Uuid::Tagged), 4 => Just(Uuid::Bytes), 1 => Just(Uuid::Fence), 6 => Just(Uuid::Connect), 1 => Just(Uuid::Ack), 1 => any::<u8>().prop_map(Uuid::Other),
    ];
    let small = prop::collection::vec(any::<u8>(), 0..40);
    let ver = prop::option::weighted(0.2, (0u8..3, 0u8..4, any::<u8>()));
    let pay = move |u: Uuid| -> BoxedStrategy<Pay> {
        let own = match u {
            Uuid::Bytes => (any::<u16>(), prop_oneof![0u16..50, 0u16..9000]).prop_map(|(format, len)| Pay::Bytes { format, len }).boxed(),
            Uuid::Connect => (any::<bool>(), crate::bus::label_strategy(), ver.clone())
                .prop_map(|(good_token, label, version)| Pay::Connect { good_token, label, version })
                .boxed(),
            Uuid::Ack => any::<u8>().prop_map(Pay::Ack).boxed(),
            _ => (any::<u64>(), prop_oneof![0u16..50, 0u16..9000]).prop_map(|(seq, len)| Pay::Tagged { seq, len }).boxed(),
        };
        prop_oneof![8 => own, 2 => small.clone().prop_map(Pay::Raw), 1 => (0u32..150_000).prop_map(Pay::Big)].boxed()
    };
    let sizes = || prop::option::weighted(0.15, prop_oneof![4 => 0u32..100, 2 => 0u32..20_000, 1 => Just(u32::MAX), 1 => Just(u32::MAX - 3), 1 => Just(0x8000_0000u32), 1 => any::<u32>()]);
    let header = prop::option::weighted(0.15, prop_oneof![1 => (0u8..3, 0u8..12, any::<u8>()).prop_map(|(a, b, c)| [0xff, a, b, c]), 1 => any::<[u8; 4]>()]);
    let mutation = prop_oneof![
        3 => (0u32..200, 0u8..8).prop_map(|(at, bit)| Mutation::Flip { at, bit }),
        2 => (0u32..200, prop_oneof![Just(0u8), Just(255), Just(251), Just(252), Just(253), Just(254), any::<u8>()]).prop_map(|(at, value)| Mutation::Byte { at, value }),
        1 => (0u32..50, any::<u32>()).prop_map(|(at, value)| Mutation::Word { at, value }),
        1 => (0u32..200, prop::collection::vec(any::<u8>(), 1..9)).prop_map(|(at, bytes)| Mutation::Insert { at, bytes }),
        1 => (0u32..200, 1u8..20).prop_map(|(at, n)| Mutation::Remove { at, n }),
        2 => (0u32..200).prop_map(|at| Mutation::Truncate { at }),
    ];
    let regions = prop_oneof![5 => Just(0u16), 3 => 1u16..4, 1 => Just(253u16), 1 => any::<u16>()];
    let ttl = prop_oneof![2 => Just(0u16), 1 => 1u16..20_000];
    (
        uuid.prop_flat_map(move |u| (Just(u.clone()), pay(u))),
        header,
        expr_strategy(name_strategy(), 2),
        any::<bool>(),
        regions,
        ttl,
        prop_oneof![2 => Just(vec![]).boxed(), 3 => prop::collection::vec(mutation, 1..4).boxed()],
        sizes(),
        sizes(),
    )
        .prop_map(|((uuid, pay), header, expr, uni, regions, ttl, muts, sel_size, pay_size)| Frame::Built { header, expr, uni, uuid, regions, ttl, pay, muts, sel_size, pay_size })
        .boxed()
}

fn parcels_strategy(n: usize) -> BoxedStrategy<Vec<Parcel>> {
    let frame = prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..70).prop_map(Frame::Raw),
        12 => built_strategy(),
    ];
    let att = prop_oneof![
        8 => Just(Att::Reply),
        2 => Just(Att::FullReply),
        2 => Just(Att::DeadStream),
        1 => Just(Att::FullStream),
        1 => Just(Att::Datagram),
        1 => Just(Att::Listener),
        1 => Just(Att::Own),
        1 => Just(Att::Pipe),
        1 => Just(Att::EventFd),
        1 => Just(Att::Epoll),
        2 => prop_oneof![0u16..16, any::<u16>()].prop_map(Att::File),
        1 => Just(Att::ReadOnlyFile),
        1 => Just(Att::Dir),
        1 => Just(Att::DevZero),
        4 => any::<u16>().prop_map(Att::Region),
        2 => prop_oneof![Just(u64::MAX), Just(u64::MAX - 11), Just(1u64 << 63), Just(5000u64), any::<u64>()].prop_map(Att::Liar),
        1 => Just(Att::Sealed),
    ];
    let atts = prop_oneof![
        2 => Just(vec![]).boxed(),
        5 => prop::collection::vec(att.clone(), 1..4).boxed(),
        1 => (att, 4usize..253).prop_map(|(a, n)| vec![a; n]).boxed(),
    ];
    prop::collection::vec((frame, atts), 1..n).boxed()
}

// ------------------------------------------------------------------ making it

const TOKEN: &str = "secret";

fn uuid_of(u: &Uuid) -> [u8; 16] {
    match u {
        Uuid::Tagged => Tagged::UUID,
        Uuid::Bytes => <ipmb::BytesMessage as TypeUuid>::UUID,
        Uuid::Fence => crate::bus::Fence::UUID,
        Uuid::Connect => raw::CONNECT,
        Uuid::Ack => raw::CONNECT_ACK,
        Uuid::Other(n) => [*n; 16],
    }
}

fn payload_of(p: &Pay) -> Vec<u8> {
    match p {
        Pay::Tagged { seq, len } => ipmb::encode(Tagged { seq: *seq, from: 0xbad, lane: 0xbad, body: body(*seq, *len as usize) }).unwrap(),
        Pay::Bytes { format, len } => ipmb::encode(ipmb::BytesMessage { format: *format, data: body(1, *len as usize) }).unwrap(),
        Pay::Connect { good_token, label, version } => {
            raw::connect_payload(version.unwrap_or(raw::own_version()), if *good_token { TOKEN } else { "wrong" }, &Label::from(&label[..]))
        }
        Pay::Ack(k) => ipmb::encode(match k % 3 {
            0 => Ack::Ok([*k; 16]),
            1 => Ack::ErrToken,
            _ => Ack::ErrVersion((0, *k, 1)),
        })
        .unwrap(),
        Pay::Raw(v) => v.clone(),
        Pay::Big(n) => body(7, *n as usize),
    }
}

fn make_frame(f: &Frame) -> Vec<u8> {
    match f {
        Frame::Raw(v) => v.clone(),
        Frame::Built { header, expr, uni, uuid, regions, ttl, pay, muts, sel_size, pay_size } => {
            let sel = RawSelector {
                label_op: expr.op(),
                mode: if *uni { SelectorMode::Unicast } else { SelectorMode::Multicast },
                uuid: uuid_of(uuid),
                memory_region_count: *regions,
                ttl: Duration::from_millis(*ttl as u64),
            };
            let sel = raw::selector_bytes(&sel);
            let pay = payload_of(pay);
            let mut out = raw::frame(raw::own_version(), &sel, &pay);
            if let Some(h) = header {
                out[..4].copy_from_slice(h);
            }
            if let Some(n) = sel_size {
                out[4..8].copy_from_slice(&n.to_ne_bytes());
            }
            if let Some(n) = pay_size {
                let at = 8 + sel.len().div_ceil(4) * 4;
                out[at..at + 4].copy_from_slice(&n.to_ne_bytes());
            }
            for m in muts {
                let len = out.len();
                if len == 0 {
                    break;
                }
                match m {
                    Mutation::Flip { at, bit } => out[*at as usize % len] ^= 1 << (bit % 8),
                    Mutation::Byte { at, value } => out[*at as usize % len] = *value,
                    Mutation::Word { at, value } => {
                        let at = *at as usize * 4;
                        if at + 4 <= len {
                            out[at..at + 4].copy_from_slice(&value.to_ne_bytes());
                        }
                    }
                    Mutation::Insert { at, bytes } => {
                        let at = *at as usize % len;
                        out.splice(at..at, bytes.iter().copied());
                    }
                    Mutation::Remove { at, n } => {
                        let at = *at as usize % len;
                        out.drain(at..(at + *n as usize).min(len));
                    }
                    Mutation::Truncate { at } => out.truncate(*at as usize % len),
                }
            }
            out
        }
    }
}

fn memfd() -> OwnedFd {
    unsafe {
        let fd = libc::memfd_create(c"vh".as_ptr(), libc::MFD_CLOEXEC | libc::MFD_ALLOW_SEALING);
        assert!(fd >= 0);
        OwnedFd::from_raw_fd(fd)
    }
}

fn pair(kind: i32) -> (OwnedFd, OwnedFd) {
    unsafe {
        let mut p = [0; 2];
        assert_eq!(libc::socketpair(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()), 0);
        (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
    }
}

fn fill(fd: RawFd) {
    let b = [0u8; 4096];
    for size in [4096, 1] {
        for _ in 0..10_000 {
            let r = unsafe { interpose::raw6(libc::SYS_sendto, fd as i64, b.as_ptr() as i64, size, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as i64, 0, 0) };
            if r < 0 {
                break;
            }
        }
    }
}

/// What one side keeps while an attack goes on
#[derive(Default)]
struct Kept {
    fds: Vec<OwnedFd>,
    drains: Vec<(Arc<AtomicBool>, thread::JoinHandle<()>)>,
}

impl Kept {
    /// Read whatever arrives, as the bus would otherwise wait for us
    fn drain(&mut self, fd: OwnedFd) {
        let stop = Arc::new(AtomicBool::new(false));
        let s = stop.clone();
        let t = thread::spawn(move || {
            while !s.load(SeqCst) {
                match raw::recv(fd.as_raw_fd(), Duration::from_millis(5)) {
                    Ok(Some(_)) => {}
                    Err(e) if e.kind() == std::io::ErrorKind::TimedOut => {}
                    _ => break,
                }
            }
        });
        self.drains.push((stop, t));
    }
}

impl Drop for Kept {
    fn drop(&mut self) {
        for (s, _) in &self.drains {
            s.store(true, SeqCst);
        }
        for (_, t) in self.drains.drain(..) {
            let _ = t.join();
        }
    }
}

fn owned(r: i32) -> OwnedFd {
    assert!(r >= 0);
    unsafe { OwnedFd::from_raw_fd(r) }
}

fn make_att(a: Att, sock: RawFd, kept: &mut Kept) -> OwnedFd {
    unsafe {
        match a {
            Att::Reply => {
                let (r, w) = raw::reply_pair();
                kept.drain(r);
                w
            }
            Att::FullReply => {
                let (r, w) = raw::reply_pair();
                fill(w.as_raw_fd());
                kept.fds.push(r);
                w
            }
            Att::DeadStream => pair(libc::SOCK_STREAM).0,
            Att::FullStream => {
                let (r, w) = pair(libc::SOCK_STREAM);
                fill(w.as_raw_fd());
                kept.fds.push(r);
                w
            }
            Att::Datagram => pair(libc::SOCK_DGRAM).0,
            Att::Listener => {
                let s = owned(libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0));
                let mut a: libc::sockaddr_un = std::mem::zeroed();
                a.sun_family = libc::AF_UNIX as _;
                // autobind
                libc::bind(s.as_raw_fd(), &a as *const _ as _, 2);
                libc::listen(s.as_raw_fd(), 1);
                s
            }
            Att::Own => owned(libc::fcntl(sock, libc::F_DUPFD_CLOEXEC, 0)),
            Att::Pipe => {
                let mut p = [0; 2];
                assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
                kept.fds.push(owned(p[0]));
                owned(p[1])
            }
            Att::EventFd => owned(libc::eventfd(0, libc::EFD_CLOEXEC)),
            Att::Epoll => owned(libc::epoll_create1(libc::EPOLL_CLOEXEC)),
            Att::File(n) => {
                let f = memfd();
                libc::ftruncate(f.as_raw_fd(), n as _);
                f
            }
            Att::ReadOnlyFile => owned(libc::open(c"/proc/self/exe".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC)),
            Att::Dir => owned(libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC)),
            Att::DevZero => owned(libc::open(c"/dev/zero".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC)),
            Att::Region(n) => {
                let r = MemoryRegion::new(n as usize).unwrap();
                owned(libc::fcntl(r.object().as_raw(), libc::F_DUPFD_CLOEXEC, 0))
            }
            Att::Liar(n) => {
                let f = memfd();
                libc::ftruncate(f.as_raw_fd(), 12 + 100);
                libc::pwrite(f.as_raw_fd(), &n as *const _ as _, 8, 4);
                f
            }
            Att::Sealed => {
                let f = memfd();
                libc::ftruncate(f.as_raw_fd(), 4096);
                libc::fcntl(f.as_raw_fd(), libc::F_ADD_SEALS, libc::F_SEAL_WRITE | libc::F_SEAL_GROW | libc::F_SEAL_SHRINK);
                f
            }
        }
    }
}

/// Where our frames leave a member behind which sends everything back to the bus
fn loops(frame: &[u8], atts: &[Att]) -> bool {
    atts.contains(&Att::Own)
        && raw::parse(frame).is_some_and(|(_, s, p)| s.uuid == raw::CONNECT && p.windows(TOKEN.len()).any(|w| w == TOKEN.as_bytes()))
}

/// What may arrive: payloads of well-formed frames with the number of their attachments
#[derive(Default)]
struct Sent {
    list: Vec<(([u8; 16], Vec<u8>), usize, ipmb::LabelOp)>,
    /// Possibly kept by the bus for longer than we wait
    lasting: bool,
}

impl Sent {
    fn note(&mut self, frame: &[u8], atts: usize) {
        if let Some((_, s, p)) = raw::parse(frame) {
            if let Some(m) = decode(s.uuid, &p) {
                self.list.push((raw::encode_msg(&m), atts, s.label_op));
            }
            if s.ttl > Duration::from_secs(20) {
                self.lasting = true;
            }
        }
    }

    /// Something we received that isn't ours
    fn check(&self, who: &str, label: &Label, mut m: Message<Msg>) -> Res {
        let e = raw::encode_msg(&m.payload);
        let n = m.objects.len() + m.memory_regions.len();
        ensure!(
            self.list.iter().any(|(s, a, op)| *s == e && *a == n && op.validate(label)),
            "{who} received a message which nobody sent to it: {} bytes, {n} attachments, {:?}",
            e.1.len(),
            &e.1[..e.1.len().min(32)]
        );
        for r in &mut m.memory_regions {
            // must not be fatal
            if let Ok(b) = r.map(..) {
                if let (Some(x), Some(y)) = (b.first(), b.last()) {
                    std::hint::black_box(*x ^ *y);
                }
            }
            let _ = r.map(7..5000).map(|b| b.iter().map(|b| *b as u64).sum::<u64>());
        }
        Ok(())
    }
}

fn decode(uuid: [u8; 16], p: &[u8]) -> Option<Msg> {
    // needs 'static data
    let p: &'static [u8] = Box::leak(p.to_vec().into_boxed_slice());
    Msg::decode(uuid, p).ok()
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn what(cx: &mut Cx, atts: &[Att], frame: &[u8]) {
    for a in atts {
        let s = format!("{a:?}");
        cx.class(format!("attachment {}", s.split('(').next().unwrap()));
    }
    match raw::parse(frame) {
        None => cx.class("frame which can't be parsed"),
        Some((v, s, _)) => {
            cx.class_if(!raw::compatible(v, raw::own_version()), "incompatible version");
            cx.class_if(s.uuid == raw::CONNECT, "connect message");
            cx.class_if(s.memory_region_count as usize > atts.len(), "more regions than attachments");
        }
    }
}

// ------------------------------------------------------------------ towards a bus

struct Town {
    eps: Vec<(EndpointSender<Msg>, Reader<Msg>, Vec<String>)>,
    nonce: u64,
    round: u64,
    sent: Sent,
}

impl Town {
    /// Everybody talks to everybody
    fn ping(&mut self, cx: &mut Cx) -> Res {
        self.round += 1;
        let n = self.eps.len();
        let size = (self.round as usize * 97) % 2000;
        let make = |i: usize, lane: u16, round: u64, nonce: u64| Msg::Tagged(Tagged { seq: round, from: i as u16, lane, body: body(nonce ^ (round << 20 | (lane as u64) << 8 | i as u64), size) });
        for (i, (tx, _, _)) in self.eps.iter().enumerate() {
            for to in 0..n {
                tx.send(Message::new(selector(SelectorMode::Unicast, &Expr::leaf(&format!("e{to}")), 0), make(i, 1 + to as u16, self.round, self.nonce)))
                    .map_err(|e| Bad::Fail(format!("endpoint {i}: send: {e}")))?;
            }
            tx.send(Message::new(selector(SelectorMode::Multicast, &Expr::T, 0), make(i, 0, self.round, self.nonce)))
                .map_err(|e| Bad::Fail(format!("endpoint {i}: send: {e}")))?;
        }
        for (j, (_, reader, label)) in self.eps.iter().enumerate() {
            let (round, nonce) = (self.round, self.nonce);
            let mut foreign = vec![];
            let mut ours: Vec<(usize, u16)> = vec![];
            let mut bad = None;
            let mut decode_errors = 0;
            let r = reader.wait(PATIENCE, |q| {
                for ev in q.drain(..) {
                    match ev {
                        Event::Msg(m) => match &m.payload {
                            Msg::Tagged(t) if (t.from as usize) < n && t.seq <= round && t.body == body(nonce ^ (t.seq << 20 | (t.lane as u64) << 8 | t.from as u64), (t.seq as usize * 97) % 2000) => {
                                if t.seq != round {
                                    bad = Some(format!("received message {} of endpoint {} again", t.seq, t.from));
                                }
                                ours.push((t.from as usize, t.lane));
                            }
                            _ => foreign.push(m),
                        },
                        Event::Decode(_) => decode_errors += 1,
                        Event::Error(e) => bad = Some(format!("got an error from recv: {e}")),
                    }
                }
                (bad.is_some() || (0..n).all(|i| ours.contains(&(i, 0)))).then_some(())
            });
            cx.class_if(decode_errors > 0, "payload that can't be decoded");
            cx.class_if(!foreign.is_empty(), "well-formed message of an intruder");
            for m in foreign {
                self.sent.check(&format!("endpoint {j}"), &Label::from(&label[..]), m)?;
            }
            if let Some(b) = bad {
                fail!("endpoint {j} {b}");
            }
            if r.is_none() {
                return Err(Bad::Slow(format!("messages between others did not reach endpoint {j} after malformed traffic")));
            }
            ours.sort_unstable();
            let mut expect: Vec<(usize, u16)> = (0..n).flat_map(|i| [(i, 0), (i, 1 + j as u16)]).collect();
            expect.sort_unstable();
            ensure!(ours == expect, "endpoint {j} received {ours:?} (endpoint, lane) instead of {expect:?}");
        }
        Ok(())
    }
}

fn towards_bus(eps: &[Vec<String>], attacks: &[Attack], cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let mut town = Town { eps: vec![], nonce: unique(), round: 0, sent: Sent::default() };
    for (i, l) in eps.iter().enumerate() {
        let mut label = l.clone();
        label.push(format!("e{i}"));
        match ipmb::join::<Msg, Msg>(join_options(&id, TOKEN, &label, i == 0), Some(PATIENCE)) {
            Ok((tx, rx)) => town.eps.push((tx, Reader::spawn(rx), label)),
            Err(ipmb::JoinError::Timeout) => return Err(Bad::Slow("join timed out".into())),
            Err(e) => fail!("join: {e}"),
        }
    }
    town.ping(cx)?;
    let before = fds();
    {
        let mut kept = Kept::default();
        for a in attacks {
            let sock = if a.admitted {
                match Conn::join(&id, raw::own_version(), raw::own_version(), TOKEN, &Label::from(["a", "z"]), PATIENCE) {
                    Ok((c, Some((_, Ack::Ok(_))))) => {
                        cx.class("admitted intruder");
                        kept.drain(c.read);
                        c.sock
                    }
                    Ok((_, a)) => fail!("admission was answered with {a:?} after malformed traffic"),
                    Err(e) => return Err(Bad::Slow(format!("admission after malformed traffic: {e}"))),
                }
            } else {
                raw::dial(&id).map_err(|e| Bad::Slow(format!("dialing: {e}")))?
            };
            for (f, atts) in &a.parcels {
                let frame = make_frame(f);
                if loops(&frame, atts) {
                    continue;
                }
                let objs: Vec<OwnedFd> = atts.iter().map(|a| make_att(*a, sock.as_raw_fd(), &mut kept)).collect();
                let raws: Vec<RawFd> = objs.iter().map(|o| o.as_raw_fd()).collect();
                town.sent.note(&frame, raws.len());
                match raw::send(sock.as_raw_fd(), &frame, &raws) {
                    Ok(()) => {
                        what(cx, atts, &frame);
                        cx.nontrivial = true;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return Err(Bad::Slow("the bus does not read".into())),
                    // hung up
                    Err(_) => {}
                }
            }
            match a.end {
                End::Close => drop(sock),
                End::HalfClose => {
                    unsafe { libc::shutdown(sock.as_raw_fd(), libc::SHUT_WR) };
                    kept.fds.push(sock);
                }
                End::Keep => kept.fds.push(sock),
            }
            town.ping(cx)?;
        }
    }
    // the bus notices that they are gone
    interpose::advance(Duration::from_secs(31));
    let end = real_now() + Duration::from_secs(3);
    loop {
        town.ping(cx)?;
        town.ping(cx)?;
        let after = fds();
        // fewer when an earlier bus of this process was still being cleaned up
        if after <= before || town.sent.lasting {
            break;
        }
        if real_now() > end {
            fail!("{after} descriptors instead of {before} after malformed traffic");
        }
        interpose::advance(Duration::from_secs(31));
        thread::sleep(Duration::from_millis(20));
    }
    while let Some((tx, r, _)) = town.eps.pop() {
        drop(tx);
        drop(r);
    }
    Ok(())
}

// ------------------------------------------------------------------ towards an endpoint

enum VEvent {
    Joined(EndpointSender<Msg>),
    JoinError(String),
    Msg(Message<Msg>),
    Error(String),
}

/// Accept connections until one asks for admission
fn asked(listener: &OwnedFd, until: Duration) -> Res<(OwnedFd, OwnedFd)> {
    loop {
        let left = until.saturating_sub(real_now());
        let sock = raw::accept(listener.as_raw_fd(), left).map_err(|_| Bad::Slow("the endpoint did not join again".into()))?;
        match raw::recv(sock.as_raw_fd(), Duration::from_secs(3)) {
            Ok(Some((_, mut f))) if !f.is_empty() => {
                let reply = f.remove(0);
                return Ok((sock, reply));
            }
            _ => continue,
        }
    }
}

fn good_ack() -> Vec<u8> {
    let s = RawSelector::new(ipmb::LabelOp::True, SelectorMode::Unicast, raw::CONNECT_ACK);
    raw::message(&s, &ipmb::encode(Ack::Ok([7; 16])).unwrap())
}

fn towards_endpoint(label: &[String], rounds: &[(AckKind, Vec<Parcel>)], cx: &mut Cx) -> Res {
    let before = fds();
    let id = fresh_identifier();
    interpose::fast_sleep(true);
    let listener = raw::listen(&id).expect("listen");
    let stop = Arc::new(AtomicBool::new(false));
    let (out, events) = mpsc::channel::<VEvent>();
    let victim = {
        let (id, label, stop) = (id.clone(), label.to_vec(), stop.clone());
        thread::spawn(move || {
            let mut rx = loop {
                if stop.load(SeqCst) {
                    return;
                }
                match ipmb::join::<Msg, Msg>(join_options(&id, TOKEN, &label, false), Some(Duration::from_secs(20))) {
                    Ok((tx, rx)) => {
                        let _ = out.send(VEvent::Joined(tx));
                        break rx;
                    }
                    Err(e) => {
                        let _ = out.send(VEvent::JoinError(e.to_string()));
                        thread::sleep(Duration::from_millis(1));
                    }
                }
            };
            while !stop.load(SeqCst) {
                match rx.recv(Some(Duration::from_millis(20))) {
                    Ok(m) => {
                        let _ = out.send(VEvent::Msg(m));
                    }
                    Err(RecvError::Timeout) => {}
                    Err(e) => {
                        let _ = out.send(VEvent::Error(e.to_string()));
                    }
                }
            }
        })
    };
    let mut sent = Sent::default();
    let tx: Mutex<Option<EndpointSender<Msg>>> = Mutex::new(None);
    let nonce = unique();
    let mut result = Ok(());
    let mut run = || -> Res {
        let mut kept = Kept::default();
        for (ack, parcels) in rounds {
            let (sock, reply) = asked(&listener, real_now() + Duration::from_secs(20))?;
            cx.nontrivial = true;
            let send = |p: &Parcel, sent: &mut Sent, kept: &mut Kept, cx: &mut Cx| {
                let frame = make_frame(&p.0);
                // an endpoint that is given its own connection keeps it alive itself
                let own = |a: Att| if a == Att::Own { Att::Reply } else { a };
                let objs: Vec<OwnedFd> = p.1.iter().map(|a| make_att(own(*a), reply.as_raw_fd(), kept)).collect();
                let raws: Vec<RawFd> = objs.iter().map(|o| o.as_raw_fd()).collect();
                sent.note(&frame, raws.len());
                if raw::send(reply.as_raw_fd(), &frame, &raws).is_ok() {
                    what(cx, &p.1, &frame);
                }
            };
            let answer = |a: Ack| {
                let s = RawSelector::new(ipmb::LabelOp::True, SelectorMode::Unicast, raw::CONNECT_ACK);
                let _ = raw::send(reply.as_raw_fd(), &raw::message(&s, &ipmb::encode(a).unwrap()), &[]);
            };
            match ack {
                AckKind::Good => answer(Ack::Ok([1; 16])),
                AckKind::ErrToken => answer(Ack::ErrToken),
                AckKind::ErrVersion(v) => answer(Ack::ErrVersion(*v)),
                AckKind::Parcel(p) => send(p, &mut sent, &mut kept, cx),
                AckKind::None => continue,
                AckKind::Silent => {
                    cx.class("impostor does not answer");
                    drop(sock);
                    kept.fds.push(reply);
                    continue;
                }
            }
            for p in parcels {
                send(p, &mut sent, &mut kept, cx);
            }
            cx.class(match ack {
                AckKind::Good => "impostor admits",
                AckKind::Parcel(_) => "impostor answers strangely",
                _ => "impostor refuses",
            });
        }
        drop(kept);
        // now behave
        let end = real_now() + Duration::from_secs(25);
        let mut got = false;
        while !got {
            let (sock, reply) = asked(&listener, end)?;
            let _ = raw::send(reply.as_raw_fd(), &good_ack(), &[]);
            let m = Msg::Tagged(Tagged { seq: 1, from: 0, lane: 0, body: body(nonce, 50) });
            let (uuid, p) = raw::encode_msg(&m);
            let mut s = RawSelector::new(ipmb::LabelOp::True, SelectorMode::Multicast, uuid);
            s.memory_region_count = 0;
            let _ = raw::send(reply.as_raw_fd(), &raw::message(&s, &p), &[]);
            let wait = real_now() + Duration::from_secs(3);
            while !got && real_now() < wait {
                match events.recv_timeout(Duration::from_millis(20)) {
                    Ok(VEvent::Joined(t)) => *tx.lock().unwrap() = Some(t),
                    Ok(VEvent::JoinError(e)) => cx.class(format!("join error {}", e.split(':').next().unwrap_or(""))),
                    Ok(VEvent::Error(e)) => cx.class(format!("recv error {}", e.split(':').next().unwrap_or("").chars().take(30).collect::<String>())),
                    Ok(VEvent::Msg(m)) => match &m.payload {
                        Msg::Tagged(t) if t.body == body(nonce, 50) => got = true,
                        _ => {
                            cx.class("well-formed message of an impostor");
                            sent.check("the endpoint", &Label::from(label), m)?
                        }
                    },
                    Err(_) => {}
                }
                // it hung up
                if raw::readable(sock.as_raw_fd(), Duration::ZERO) {
                    break;
                }
            }
            if got {
                let Some(tx) = tx.lock().unwrap().clone() else { fail!("received without having joined") };
                let m = Msg::Tagged(Tagged { seq: 2, from: 0, lane: 0, body: body(nonce ^ 1, 50) });
                let e = raw::encode_msg(&m);
                tx.send(Message::new(selector(SelectorMode::Unicast, &Expr::T, 0), m)).map_err(|e| Bad::Fail(format!("send: {e}")))?;
                match raw::recv(sock.as_raw_fd(), PATIENCE) {
                    Ok(Some((d, _))) => match raw::parse(&d) {
                        Some((_, s, p)) => ensure!((s.uuid, p) == e, "a message of the endpoint arrived changed"),
                        None => fail!("a frame of the endpoint is malformed"),
                    },
                    _ => return Err(Bad::Slow("a message of the endpoint did not arrive".into())),
                }
            }
            ensure!(got || real_now() < end, "an endpoint remained without messages after malformed traffic");
        }
        Ok(())
    };
    if let Err(e) = run() {
        result = Err(e);
    }
    stop.store(true, SeqCst);
    drop(listener);
    interpose::fast_sleep(false);
    *tx.lock().unwrap() = None;
    // it ends when its limits have passed
    let end = real_now() + Duration::from_secs(30);
    while !victim.is_finished() && real_now() < end {
        thread::sleep(Duration::from_millis(2));
    }
    if !victim.is_finished() {
        result?;
        return Err(Bad::Slow("recv or join with a limit did not return".into()));
    }
    if victim.join().is_err() {
        fail!("the endpoint panicked");
    }
    while let Ok(e) = events.try_recv() {
        drop(e);
    }
    drop(events);
    result?;
    // fewer when an earlier bus of this process was still being cleaned up
    let end = real_now() + Duration::from_secs(3);
    while fds() > before && real_now() < end {
        thread::sleep(Duration::from_millis(2));
    }
    let after = fds();
    ensure!(after <= before, "{after} descriptors instead of {before} after malformed traffic towards an endpoint");
    Ok(())
}

// ------------------------------------------------------------------ regions that shrink

fn shrink(to: u16, touch: bool, cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let mut host = Agent::spawn();
    host.tell(&Order::Join { identifier: id.clone(), token: TOKEN.into(), label: vec!["h".into()], affinity: true, limit: Some(20), deaf: false });
    if host.wait(PATIENCE, |q| q.iter().any(|r| matches!(r, Report::Joined)).then_some(())).is_none() {
        return Err(Bad::Slow("join timed out".into()));
    }
    let sock = raw::dial(&id).map_err(|e| Bad::Slow(format!("dialing: {e}")))?;
    let file = memfd();
    unsafe { libc::ftruncate(file.as_raw_fd(), 5000) };
    let (uuid, p) = raw::encode_msg(&Msg::Tagged(Tagged { seq: 1, from: 0, lane: 0, body: vec![] }));
    let mut s = RawSelector::new(ipmb::LabelOp::from("late"), SelectorMode::Unicast, uuid);
    s.memory_region_count = 1;
    s.ttl = Duration::from_secs(100);
    raw::send(sock.as_raw_fd(), &raw::message(&s, &p), &[file.as_raw_fd()]).map_err(|e| Bad::Slow(format!("send: {e}")))?;
    // routed
    let (c, _) = Conn::join(&id, raw::own_version(), raw::own_version(), "wrong", &Label::default(), PATIENCE).map_err(|e| Bad::Slow(format!("join: {e}")))?;
    drop(c);
    unsafe { libc::ftruncate(file.as_raw_fd(), to as _) };
    if touch {
        let (mut k, _) = Conn::join(&id, raw::own_version(), raw::own_version(), TOKEN, &Label::from(["late"]), Duration::from_secs(2)).map(|(c, a)| (Some(c), a)).unwrap_or((None, None));
        k.take();
    }
    thread::sleep(Duration::from_millis(100));
    cx.class("region truncated while waiting");
    cx.nontrivial = true;
    if let Some(s) = host.ended() {
        let m = format!("the hosting process ended: {s}");
        use std::os::unix::process::ExitStatusExt;
        if s.signal() == Some(libc::SIGBUS) {
            return Err(Bad::Known("region-truncated-after-sending".into(), m));
        }
        fail!("{m}");
    }
    Ok(())
}

pub struct Malformed;

impl Prop for Malformed {
    const ID: &'static str = "C18";
    const RULE: &'static str = "hand-made connections to a bus of 1..4 endpoints, admitted or not, send random sequences of frames: random bytes; messages of all protocol types with random selectors, claimed sizes, region counts, versions and payloads, mutated by bit flips, replaced words, insertion, removal and truncation; with 0..253 attachments of many kinds (sockets nobody reads, dead streams, own connection, files, regions with false headers, ...), the connection is closed, half closed or kept; or the same towards an endpoint from somebody posing as its bus, with all kinds of answers to the connect message; after each attack all others must exchange messages exactly once, everything foreign they receive must be the content of a well-formed frame, and the descriptor count must return to its value before; an endpoint must join and work again as soon as its bus behaves; non-trivial: a frame was accepted by the kernel";
    type Case = HCase;
    const CASES: (usize, usize) = (2400, 60_000);
    const SHARDS: usize = 16;
    const RECYCLE: usize = 40;
    const LIMIT: u64 = 90;

    fn strategy(_t: bool) -> BoxedStrategy<HCase> {
        let attack = (prop::bool::weighted(0.3), parcels_strategy(6), prop_oneof![2 => Just(End::Close), 1 => Just(End::HalfClose), 2 => Just(End::Keep)])
            .prop_map(|(admitted, parcels, end)| Attack { admitted, parcels, end });
        let ack = prop_oneof![
            30 => Just(AckKind::Good),
            3 => Just(AckKind::ErrToken),
            3 => any::<(u8, u8, u8)>().prop_map(AckKind::ErrVersion),
            8 => parcels_strategy(2).prop_map(|mut p| AckKind::Parcel(p.remove(0))),
            3 => Just(AckKind::None),
            1 => Just(AckKind::Silent),
        ];
        prop_oneof![
            60 => (prop::collection::vec(crate::bus::label_strategy(), 1..5), prop::collection::vec(attack, 1..5)).prop_map(|(eps, attacks)| HCase::Bus { eps, attacks }),
            20 => (crate::bus::label_strategy(), prop::collection::vec((ack, parcels_strategy(5)), 1..5)).prop_map(|(label, rounds)| HCase::Endpoint { label, rounds }),
            2 => (prop_oneof![1 => Just(0u16), 1 => 0u16..5000], any::<bool>()).prop_map(|(to, touch)| HCase::Shrink { to, touch }),
        ]
        .boxed()
    }

    fn run(c: &HCase, cx: &mut Cx) -> Res {
        match c {
            HCase::Bus { eps, attacks } => towards_bus(eps, attacks, cx),
            HCase::Endpoint { label, rounds } => towards_endpoint(label, rounds, cx),
            HCase::Shrink { to, touch } => shrink(*to, *touch, cx),
        }
    }
}

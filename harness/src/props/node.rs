//! C21: the Node.js binding, driven by generated programs which a node process executes.

use crate::{
    bus::{body, expr_strategy, fresh_identifier, join_options, label_strategy, name_strategy, selector, Bad, Event, Expr, Reader, Res, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::real_now,
    props::payload::Forged,
};
use ipmb::{BytesMessage, EndpointSender, MemoryRegistry, Message, MessageBox, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    io::{BufRead, BufReader, Write},
    os::fd::{FromRawFd, OwnedFd},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        mpsc, Arc, Mutex,
    },
    thread,
    time::Duration,
};
use type_uuid::TypeUuid;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Load {
    format: u16,
    len: u32,
    regions: Vec<u32>,
    /// Only from Rust endpoints
    objects: u8,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Lim {
    None,
    Short(u8),
    Long,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Dest {
    /// All that match
    Multi(Expr),
    /// One of those that match
    Any(Expr),
    Only(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum JOp {
    Recv { who: u8, limit: Lim, n: u8 },
    Send { from: u8, to: Dest, load: Load },
    /// The encoding of a message cut short, or a message of another type
    Odd { to: u8, cut: Option<u8> },
    Sleep(u8),
    Close { who: u8, flood: bool },
    Join { label: Vec<String>, waiting: Vec<(u8, Load)> },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct JCase {
    node_hosts: bool,
    label: Vec<String>,
    rust: Vec<Vec<String>>,
    ops: Vec<JOp>,
}

pub struct Node;

const MARK: u16 = 65535;
const FLOOD: u16 = 65534;
const ANY: u16 = 65533;

// ------------------------------------------------------------------ the process

struct Js {
    child: Child,
    stdin: ChildStdin,
    lines: mpsc::Receiver<Value>,
    stderr: Arc<Mutex<String>>,
}

impl Js {
    fn spawn() -> Self {
        let exe = std::env::current_exe().unwrap();
        let lib = exe.parent().unwrap().join("libvh_js.so");
        let mut child = Command::new("node")
            .arg("--expose-gc")
            .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/js/agent.js"))
            .arg(lib)
            .env("RUST_BACKTRACE", "0")
            .env_remove("NODE_OPTIONS")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("node");
        let stdin = child.stdin.take().unwrap();
        let (tx, lines) = mpsc::channel();
        let o = child.stdout.take().unwrap();
        thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                if let Ok(v) = serde_json::from_str(&l) {
                    let _ = tx.send(v);
                }
            }
        });
        let stderr: Arc<Mutex<String>> = Default::default();
        let (s, e) = (stderr.clone(), child.stderr.take().unwrap());
        thread::spawn(move || {
            for l in BufReader::new(e).lines().map_while(Result::ok) {
                let mut s = s.lock().unwrap();
                if s.len() < 4000 {
                    s.push_str(&l);
                    s.push('\n');
                }
            }
        });
        Js { child, stdin, lines, stderr }
    }

    fn tell(&mut self, v: &Value) -> bool {
        writeln!(self.stdin, "{v}").and_then(|_| self.stdin.flush()).is_ok()
    }

    fn hear(&mut self, patience: Duration) -> Res<Value> {
        let end = real_now() + patience;
        loop {
            match self.lines.recv_timeout(Duration::from_millis(50)) {
                Ok(v) => return Ok(v),
                Err(mpsc::RecvTimeoutError::Timeout) if real_now() < end => {}
                Err(mpsc::RecvTimeoutError::Timeout) => return Err(Bad::Slow("the node process does not respond".into())),
                Err(_) => {
                    let s = self.child.wait();
                    thread::sleep(Duration::from_millis(20));
                    fail!("the node process ended: {s:?}: {}", self.stderr.lock().unwrap());
                }
            }
        }
    }
}

impl Drop for Js {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ------------------------------------------------------------------ what is due

#[derive(Debug, Clone)]
enum Item {
    Msg { id: usize, format: u16, data: Vec<u8>, regions: Vec<Vec<u8>>, inodes: Vec<u64> },
    /// A decode error
    Bad,
}

#[derive(Debug)]
struct Seen {
    format: u16,
    data: Vec<u8>,
    /// Contents; may be longer than what was sent
    regions: Vec<Vec<u8>>,
    inodes: Vec<u64>,
}

impl Item {
    fn is(&self, s: Option<&Seen>) -> bool {
        match (self, s) {
            (Item::Bad, None) => true,
            (Item::Msg { id: _, format, data, regions, inodes }, Some(s)) => {
                *format == s.format
                    && *data == s.data
                    && *inodes == s.inodes
                    && regions.len() == s.regions.len()
                    && regions.iter().zip(&s.regions).all(|(a, b)| b.starts_with(a))
            }
            _ => false,
        }
    }
}

fn brief(s: Option<&Seen>) -> String {
    match s {
        None => "a decode error".into(),
        Some(s) => format!(
            "format {}, {} bytes, {} regions, {} objects",
            s.format,
            s.data.len(),
            s.regions.len(),
            s.inodes.len()
        ),
    }
}

/// The events must be an interleaving of the lanes, whole or a part from the beginning
fn interleaved(who: &str, lanes: &[Vec<Item>], seen: &[Option<&Seen>], whole: bool) -> Res {
    let mut states: HashSet<Vec<usize>> = [vec![0; lanes.len()]].into();
    for (k, s) in seen.iter().enumerate() {
        let mut next = HashSet::new();
        for st in &states {
            for f in 0..lanes.len() {
                if lanes[f].get(st[f]).is_some_and(|v| v.is(*s)) {
                    let mut st = st.clone();
                    st[f] += 1;
                    next.insert(st);
                }
            }
        }
        if next.is_empty() {
            let again = lanes.iter().flatten().any(|i| i.is(*s));
            fail!(
                "{who}: what was received as number {k} ({}) was {}",
                brief(*s),
                if again { "due earlier, later or not once more" } else { "not sent to it" }
            );
        }
        states = next;
    }
    let all: Vec<usize> = lanes.iter().map(|l| l.len()).collect();
    if whole && !states.contains(&all) {
        fail!("{who}: {} of {} messages were received", seen.len(), all.iter().sum::<usize>());
    }
    Ok(())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn seen_of(v: &Value) -> Res<Seen> {
    if let Some(b) = v.get("bad") {
        fail!("a received message cannot be examined: {b}");
    }
    let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    let mut regions = vec![];
    for r in list("regions") {
        ensure!(r["ok"] == json!(true), "a mapping of a part of a memory region of {} bytes is wrong", r["len"]);
        let d = unhex(r["data"].as_str().unwrap_or(""));
        regions.push(d);
    }
    let mut inodes = vec![];
    for o in list("objects") {
        let Some(n) = o.as_u64() else { fail!("an object is not usable: {o}") };
        inodes.push(n);
    }
    Ok(Seen { format: v["format"].as_u64().unwrap_or(1 << 32) as u16, data: unhex(v["data"].as_str().unwrap_or("")), regions, inodes })
}

// ------------------------------------------------------------------ from case to program

enum Peer {
    Send { from: usize, message: Box<Message<Forged>> },
    FloodOn { label: String },
    FloodOff,
}

#[derive(Clone, Debug)]
struct Who {
    label: Vec<String>,
    open: bool,
    /// Own name
    name: String,
}

#[derive(Default)]
struct Plan {
    ops: Vec<Value>,
    peers: Vec<Option<Peer>>,
    node: Vec<Who>,
    rust: Vec<Who>,
    /// Receiver (node endpoints first come first), lane (sender)
    due: BTreeMap<(bool, usize), BTreeMap<usize, Vec<Item>>>,
    /// Candidates of unicasts by number
    any: Vec<Vec<(bool, usize)>>,
    any_exact: Vec<bool>,
    seq: usize,
    shown: HashMap<usize, String>,
    closed_any: bool,
    registry: MemoryRegistry,
    identifier: String,
    joins: usize,
    /// Messages waiting for an endpoint
    late: Vec<(usize, usize, u32)>,
}

fn memfd(n: usize) -> (OwnedFd, u64) {
    unsafe {
        let fd = libc::memfd_create(c"vh".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        libc::ftruncate(fd, n as i64);
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st);
        (OwnedFd::from_raw_fd(fd), st.st_ino)
    }
}

impl Plan {
    fn matching(&self, e: &Expr) -> Vec<(bool, usize)> {
        let f = |n: bool, l: &[Who]| -> Vec<(bool, usize)> {
            l.iter().enumerate().filter(|(_, w)| w.open && e.eval(&w.label)).map(|(i, _)| (n, i)).collect()
        };
        let mut v = f(true, &self.node);
        v.extend(f(false, &self.rust));
        v
    }

    fn everybody(&self) -> Vec<String> {
        self.node.iter().chain(&self.rust).map(|w| w.name.clone()).collect()
    }

    fn senders(&self) -> usize {
        self.node.len() + self.rust.len()
    }

    /// Rust endpoints are the first ones
    fn lane(&self, from: usize) -> usize {
        from
    }

    fn send(&mut self, from: usize, e: &Expr, uni: bool, ttl: u32, format: u16, data: Vec<u8>, load: Option<&Load>, targets: &[(bool, usize)]) -> Res {
        self.seq += 1;
        let id = self.seq;
        let rust = from < self.rust.len();
        let regions: Vec<Vec<u8>> =
            // some begin with others
            load.map(|l| l.regions.iter().enumerate().map(|(i, n)| body((id * 100 + i * usize::from(l.format % 2 == 1)) as u64, *n as usize)).collect()).unwrap_or_default();
        let mut inodes = vec![];
        let mode = if uni { SelectorMode::Unicast } else { SelectorMode::Multicast };
        if rust {
            let sel = selector(mode, e, ttl as u64);
            let b = BytesMessage { format, data: data.clone() };
            let mut m = Message::new(sel, Forged { uuid: BytesMessage::UUID, data: MessageBox::encode(&b).expect("encode") });
            for r in &regions {
                let Some(mut x) = self.registry.alloc(r.len(), None) else { return Err(Bad::Skip("alloc".into())) };
                match x.map(..r.len()) {
                    Ok(v) => v.copy_from_slice(r),
                    Err(e) => fail!("map: {e:?}"),
                }
                m.memory_regions.push(x);
            }
            for i in 0..load.map_or(0, |l| l.objects) {
                let (fd, ino) = memfd(i as usize);
                m.objects.push(unsafe { ipmb::Object::from_raw(std::os::fd::IntoRawFd::into_raw_fd(fd)) });
                inodes.push(ino);
            }
            self.ops.push(json!({"peer": self.peers.len(), "seq": id}));
            self.peers.push(Some(Peer::Send { from, message: Box::new(m) }));
        } else {
            self.shown.insert(id, format!("{:?}", e.op()));
            self.ops.push(json!({"send": {
                "seq": id, "from": from - self.rust.len(), "expr": e, "uni": uni, "ttl": ttl, "format": format,
                "data": hex(&data), "regions": regions.iter().map(|r| hex(r)).collect::<Vec<_>>(),
            }}));
        }
        let lane = self.lane(from);
        for t in targets {
            let i = Item::Msg { id, format, data: data.clone(), regions: regions.clone(), inodes: inodes.clone() };
            self.due.entry(*t).or_default().entry(lane).or_default().push(i);
        }
        Ok(())
    }

    fn join(&mut self, label: &[String], affinity: bool, refused: bool) {
        let token = if refused { "wrong" } else { "t" };
        let name = format!("j{}", self.node.len());
        let mut l = vec![name.clone()];
        l.extend_from_slice(label);
        self.ops.push(json!({"join": {"identifier": self.identifier, "label": l, "token": token, "affinity": affinity, "refused": refused}}));
        if !refused {
            self.node.push(Who { label: l, open: true, name });
        }
        self.joins += 1;
    }

    fn step(&mut self, op: &JOp, cx: &mut Cx) -> Res {
        let n = self.node.len();
        match op {
            JOp::Recv { who, limit, n: times } => {
                let limit = match limit {
                    Lim::None => Value::Null,
                    Lim::Short(ms) => json!(ms),
                    Lim::Long => json!(60_000_000),
                };
                for _ in 0..*times {
                    self.ops.push(json!({"recv": {"who": *who as usize % n, "limit": limit}}));
                }
            }
            JOp::Send { from, to, load } => {
                let from = *from as usize % self.senders();
                let data = body(self.seq as u64 * 7 + 3, load.len as usize);
                match to {
                    Dest::Multi(e) => {
                        let t = self.matching(e);
                        cx.class_if(t.len() > 1 && t.iter().any(|x| x.0), "multicast to several");
                        self.send(from, e, false, 0, load.format % ANY, data, Some(load), &t)?;
                    }
                    Dest::Only(k) => {
                        let all = self.everybody();
                        let e = Expr::leaf(&all[*k as usize % all.len()]);
                        let t = self.matching(&e);
                        self.send(from, &e, true, 0, load.format % ANY, data, Some(load), &t)?;
                    }
                    Dest::Any(e) => {
                        let t = self.matching(e);
                        let k = self.any.len() as u32;
                        cx.class_if(t.len() > 1, "unicast with several candidates");
                        self.send(from, e, true, 0, ANY, k.to_le_bytes().to_vec(), None, &[])?;
                        self.any.push(t);
                        self.any_exact.push(!self.closed_any);
                    }
                }
            }
            JOp::Odd { to, cut } => {
                let k = *to as usize % n;
                let name = self.node[k].name.clone();
                let sel = selector(SelectorMode::Unicast, &Expr::leaf(&name), 0);
                let mut data = MessageBox::encode(&BytesMessage { format: 300, data: body(1, 300) }).expect("encode");
                let m = match cut {
                    Some(c) => {
                        data.truncate(data.len() * *c as usize / 256);
                        if self.node[k].open {
                            self.due.entry((true, k)).or_default().entry(0).or_default().push(Item::Bad);
                        }
                        cx.class("malformed");
                        Forged { uuid: BytesMessage::UUID, data }
                    }
                    None => {
                        cx.class("other type");
                        Forged { uuid: [3; 16], data }
                    }
                };
                self.seq += 1;
                self.ops.push(json!({"peer": self.peers.len(), "seq": self.seq}));
                self.peers.push(Some(Peer::Send { from: 0, message: Box::new(Message::new(sel, m)) }));
            }
            JOp::Sleep(ms) => self.ops.push(json!({"sleep": ms})),
            JOp::Close { who, flood } => {
                let k = *who as usize % n;
                if *flood && self.node[k].open {
                    self.ops.push(json!({"peer": self.peers.len(), "seq": 0}));
                    self.peers.push(Some(Peer::FloodOn { label: self.node[k].name.clone() }));
                    self.ops.push(json!({"sleep": 3}));
                    cx.class("closed while messages arrive");
                }
                self.ops.push(json!({"close": k}));
                self.closed_any |= self.node[k].open;
                if *flood && self.node[k].open {
                    self.ops.push(json!({"peer": self.peers.len(), "seq": 0}));
                    self.peers.push(Some(Peer::FloodOff));
                }
                self.node[k].open = false;
            }
            JOp::Join { label, waiting } => {
                if n >= 4 {
                    return Ok(());
                }
                let name = format!("late{n}");
                let k = n;
                for (from, load) in waiting {
                    let from = *from as usize % self.senders();
                    let data = body(self.seq as u64 * 7 + 3, load.len as usize);
                    let ttl = [700, 1999, 60_000, u32::MAX][load.format as usize % 4];
                    self.late.push((self.seq + 1, k, ttl));
                    self.send(from, &Expr::leaf(&name), load.len % 2 == 0, ttl, load.format % ANY, data, Some(load), &[(true, k)])?;
                    cx.class("waited for a late joiner");
                }
                if label.len() == 3 {
                    self.join(label, false, true);
                }
                let mut l = label.clone();
                l.push(name);
                self.join(&l, false, false);
            }
        }
        Ok(())
    }

    /// Markers from everybody to everybody
    fn end(&mut self, timeouts: bool) -> Res {
        if timeouts {
            self.ops.push(json!({"timeouts": 1}));
        }
        for from in 0..self.senders() {
            for name in self.everybody() {
                let e = Expr::leaf(&name);
                let t = self.matching(&e);
                if !t.is_empty() {
                    self.send(from, &e, true, 0, MARK, vec![from as u8], None, &t)?;
                }
            }
        }
        self.ops.push(json!({"drain": self.senders()}));
        self.ops.push(json!({"finish": 1}));
        Ok(())
    }
}

// ------------------------------------------------------------------ running it

struct Flood {
    stop: Arc<AtomicBool>,
    thread: Option<thread::JoinHandle<()>>,
}

impl Drop for Flood {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

fn flood(tx: EndpointSender<Forged>, label: String) -> Flood {
    let stop = Arc::new(AtomicBool::new(false));
    let s = stop.clone();
    let thread = thread::spawn(move || {
        let mut k = 0u64;
        while !s.load(SeqCst) {
            let b = BytesMessage { format: FLOOD, data: k.to_le_bytes().to_vec() };
            k += 1;
            let m = Forged { uuid: BytesMessage::UUID, data: MessageBox::encode(&b).expect("encode") };
            if tx.send(Message::new(selector(SelectorMode::Unicast, &Expr::leaf(&label), 0), m)).is_err() {
                break;
            }
            thread::sleep(Duration::from_micros(150));
        }
    });
    Flood { stop, thread: Some(thread) }
}

impl Node {
    fn start_rust(plan: &mut Plan, c: &JCase, host: bool) -> Res<Vec<(EndpointSender<Forged>, Reader<BytesMessage>)>> {
        let mut v = vec![];
        for (i, l) in c.rust.iter().enumerate() {
            let name = format!("r{i}");
            let mut label = vec![name.clone()];
            label.extend_from_slice(l);
            match ipmb::join::<Forged, BytesMessage>(join_options(&plan.identifier, "t", &label, host && i == 0), Some(PATIENCE)) {
                Ok((tx, rx)) => v.push((tx, Reader::spawn(rx))),
                Err(ipmb::JoinError::Timeout) => return Err(Bad::Slow("join timed out".into())),
                Err(e) => fail!("join: {e}"),
            }
            plan.rust.push(Who { label, open: true, name });
        }
        Ok(v)
    }
}

thread_local! {
    static JS: std::cell::RefCell<Option<Js>> = const { std::cell::RefCell::new(None) };
}

impl Prop for Node {
    const ID: &'static str = "C21";
    const RULE: &'static str = "generated programs executed by a node process with the binding: recv calls (several at once, without limit, with limits of 0..40 ms or of hours), messages from endpoints of the binding and from Rust endpoints (random bytes, buffers, also overlapping ones in memory which is used again, objects, expressions built with LabelOp, multicast, unicast, waiting for a late joiner; some malformed or of another type), pauses, close (also while messages pour in), joins (also refused ones), the bus hosted by either side; the log of settled promises is compared with a model: an interleaving of what every sender sent, each message and each decode error once, earlier recv calls first, nothing rejected early, nothing resolved with a message sent after the limit, all pending and later calls rejected after close; non-trivial: at least two recv calls were pending when messages arrived, or a limit expired while messages followed";
    type Case = JCase;
    const CASES: (usize, usize) = (1500, 30_000);
    const SHARDS: usize = 20;
    const RECYCLE: usize = 40;
    const LIMIT: u64 = 120;

    fn strategy(_t: bool) -> BoxedStrategy<JCase> {
        let len = || prop_oneof![1 => Just(0u32), 6 => 0u32..80, 2 => 0u32..3000, 1 => 0u32..30_000];
        let load = move || {
            (any::<u16>(), len(), prop::collection::vec(prop_oneof![1 => Just(0u32), 4 => 1u32..100, 2 => 1u32..5000, 1 => 1u32..40_000], 0..4), prop_oneof![4 => Just(0u8), 1 => 1u8..4])
                .prop_map(|(format, len, regions, objects)| {
                    let few = format % 3 > 0;
                    Load { format, len, regions: if few { vec![] } else { regions }, objects: if few { 0 } else { objects } }
                })
        };
        let limit = prop_oneof![4 => Just(Lim::None), 4 => (0u8..40).prop_map(Lim::Short), 1 => Just(Lim::Long)];
        let dest = prop_oneof![
            6 => any::<u8>().prop_map(Dest::Only),
            3 => expr_strategy(name_strategy(), 3).prop_map(Dest::Multi),
            2 => expr_strategy(name_strategy(), 2).prop_map(Dest::Any),
        ];
        let op = prop_oneof![
            10 => (any::<u8>(), limit, prop_oneof![3 => Just(1u8), 1 => 2u8..6]).prop_map(|(who, limit, n)| JOp::Recv { who, limit, n }),
            12 => (any::<u8>(), dest, load()).prop_map(|(from, to, load)| JOp::Send { from, to, load }),
            2 => (any::<u8>(), prop::option::weighted(0.7, any::<u8>())).prop_map(|(to, cut)| JOp::Odd { to, cut }),
            6 => prop_oneof![2 => Just(0u8), 2 => 1u8..10, 1 => 10u8..60].prop_map(JOp::Sleep),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(who, flood)| JOp::Close { who, flood }),
            1 => (label_strategy(), prop::collection::vec((any::<u8>(), load()), 0..3)).prop_map(|(label, waiting)| JOp::Join { label, waiting }),
        ];
        (any::<bool>(), label_strategy(), prop::collection::vec(label_strategy(), 1..3), prop::collection::vec(op, 1..24))
            .prop_map(|(node_hosts, label, rust, ops)| JCase { node_hosts, label, rust, ops })
            .boxed()
    }

    fn run(c: &JCase, cx: &mut Cx) -> Res {
        JS.with(|js| {
            let mut js = js.borrow_mut();
            let r = run(js.get_or_insert_with(Js::spawn), c, cx);
            if r.is_err() {
                // start afresh
                *js = None;
            }
            r
        })
    }
}

fn run(js: &mut Js, c: &JCase, cx: &mut Cx) -> Res {
    if c.rust.is_empty() || c.rust.len() > 3 {
        return Ok(());
    }
    let mut p = Plan { identifier: fresh_identifier(), ..Default::default() };
    let mut log: Vec<Value> = vec![];
    let mut rust = vec![];
    let finish = |js: &mut Js, p: &mut Plan, rust: &[(EndpointSender<Forged>, Reader<BytesMessage>)]| -> Res<Value> {
        let mut floods: Vec<Flood> = vec![];
        loop {
            let v = js.hear(Duration::from_secs(40))?;
            if let Some(e) = v.get("crash") {
                fail!("the node process failed: {e}");
            }
            if let Some(k) = v.get("peer").and_then(|k| k.as_u64()) {
                match p.peers[k as usize].take() {
                    Some(Peer::Send { from, message }) => {
                        if let Err(e) = rust[from].0.send(*message) {
                            fail!("send: {e}");
                        }
                    }
                    Some(Peer::FloodOn { label }) => floods.push(flood(rust[0].0.clone(), label)),
                    Some(Peer::FloodOff) => floods.clear(),
                    None => fail!("harness: asked twice"),
                }
                js.tell(&json!({"ok": 1}));
                continue;
            }
            return Ok(v);
        }
    };
    // the hosting endpoint is the first one on the bus
    if c.node_hosts {
        cx.class("hosted by node");
        // names are known before they join
        for (i, l) in c.rust.iter().enumerate() {
            let name = format!("r{i}");
            let mut label = vec![name.clone()];
            label.extend_from_slice(l);
            p.rust.push(Who { label, open: true, name });
        }
        p.join(&c.label, true, false);
        p.ops.push(json!({"peer": 0, "seq": 0}));
        p.peers.push(Some(Peer::FloodOff));
    } else {
        rust = Node::start_rust(&mut p, c, true)?;
        p.join(&c.label, false, false);
    }
    for op in &c.ops {
        p.step(op, cx)?;
    }
    let short = c.ops.iter().any(|o| matches!(o, JOp::Recv { limit: Lim::Short(_), .. }));
    p.end(short)?;
    let prog = json!({"ops": p.ops});
    ensure!(js.tell(&prog), "the node process is gone: {}", js.stderr.lock().unwrap());
    if c.node_hosts {
        // it has joined and waits
        let v = js.hear(Duration::from_secs(20))?;
        if v.get("peer") != Some(&json!(0)) {
            fail!("join in node failed: {v}");
        }
        let keep = std::mem::take(&mut p.rust);
        rust = Node::start_rust(&mut p, c, false)?;
        p.rust = keep;
        js.tell(&json!({"ok": 1}));
        p.peers[0] = None;
    }
    let v = finish(js, &mut p, &rust)?;
    log.extend(v["log"].as_array().cloned().unwrap_or_default());
    let calls = v["calls"].as_array().cloned().unwrap_or_default();
    check(&p, &log, &calls, &rust, cx)
}

fn check(p: &Plan, log: &[Value], calls: &[Value], rust: &[(EndpointSender<Forged>, Reader<BytesMessage>)], cx: &mut Cx) -> Res {
    let num = |v: &Value| v.as_u64().unwrap_or(u64::MAX);
    let s = |v: &Value| v.as_str().unwrap_or("").to_owned();
    let mut began: HashMap<usize, u64> = HashMap::new();
    let mut joined = vec![];
    for e in log {
        match e["t"].as_str() {
            Some("sent") => {
                let id = num(&e["seq"]) as usize;
                ensure!(e.get("why").is_none(), "send of message {id} failed in node: {}", e["why"]);
                if let Some(x) = p.shown.get(&id) {
                    ensure!(s(&e["shown"]) == *x, "the expression of message {id} is {} instead of {x}", e["shown"]);
                }
                began.insert(id, num(&e["begin"]));
            }
            Some("joined") => joined.push(num(&e["at"])),
            Some("not joined") => ensure!(s(&e["why"]).contains("Token"), "join in node failed: {}", e["why"]),
            Some("stuck") => {
                let c = &calls[num(&e["id"]) as usize];
                return Err(Bad::Slow(format!("the promise of recv call {c} is not settled")));
            }
            Some("close") => {
                let t = num(&e["end"]) - num(&e["begin"]);
                if t > 5_000_000 {
                    return Err(Bad::Slow(format!("close took {t} microseconds")));
                }
            }
            _ => {}
        }
    }
    ensure!(joined.len() == p.node.len(), "{} endpoints joined in node instead of {}", joined.len(), p.node.len());
    for (id, k, ttl) in &p.late {
        if joined[*k] - began.get(id).copied().unwrap_or(0) >= *ttl as u64 * 1000 {
            return Err(Bad::Skip("join took longer than a message waited".into()));
        }
    }
    let mut any: Vec<Vec<(bool, usize)>> = vec![vec![]; p.any.len()];
    // endpoints in node
    for (k, w) in p.node.iter().enumerate() {
        let who = format!("endpoint {} of node", w.name);
        let mut events: Vec<(Option<Seen>, &Value)> = vec![];
        let mut closed = false;
        let mut settled: HashSet<u64> = HashSet::new();
        let mine: Vec<&Value> = calls.iter().filter(|c| num(&c["ep"]) == k as u64).collect();
        let mut most = 0;
        for e in log {
            match e["t"].as_str() {
                Some("close") if num(&e["who"]) == k as u64 => closed = true,
                Some("finish") => closed = true,
                Some(t @ ("got" | "rejected" | "threw")) => {
                    let id = num(&e["id"]);
                    let c = &calls[id as usize];
                    if num(&c["ep"]) != k as u64 {
                        continue;
                    }
                    ensure!(settled.insert(id), "{who}: recv call {id} was settled twice");
                    let open = c["open"] == json!(true);
                    let limit = c["limit"].as_u64();
                    let why = s(&e["why"]);
                    if !open {
                        ensure!(t != "got", "{who}: recv call {id} after close got a message");
                        continue;
                    }
                    ensure!(t != "threw", "{who}: recv call {id} threw: {why}");
                    if t == "rejected" && why.contains("closed") {
                        ensure!(closed, "{who}: recv call {id} was rejected as closed before");
                        continue;
                    }
                    if t == "rejected" && why.contains("timeout") {
                        let Some(l) = limit else { fail!("{who}: recv call {id} without limit was rejected: {why}") };
                        let took = num(&e["at"]) - num(&c["begin"]);
                        ensure!(took >= l * 1000, "{who}: recv call {id} with a limit of {l} ms was rejected after {took} microseconds");
                        cx.class("limit expired");
                        continue;
                    }
                    for o in &mine {
                        let oid = num(&o["id"]);
                        if oid < id && !settled.contains(&oid) && o["limit"].as_u64().map_or(true, |l| l > 1_000_000) {
                            fail!("{who}: recv call {id} was settled before {oid}");
                        }
                        // was pending at the same time
                        if oid > id && num(&o["end"]) < num(&e["at"]) {
                            most += 1;
                        }
                    }
                    events.push((if t == "got" { Some(seen_of(&e["msg"])?) } else { None }, c));
                }
                _ => {}
            }
        }
        ensure!(settled.len() == mine.len(), "{who}: {} of {} recv calls were settled", settled.len(), mine.len());
        if most > 0 {
            cx.nontrivial = true;
            cx.class("several recv calls pending");
        }
        // messages may not be given to calls whose limit had passed
        let lanes: Vec<Vec<Item>> = p.due.get(&(true, k)).map(|m| m.values().cloned().collect()).unwrap_or_default();
        for (seen, c) in &events {
            let (Some(seen), Some(l)) = (seen, c["limit"].as_u64()) else { continue };
            let deadline = num(&c["end"]) + l * 1000 + 1;
            let first = lanes.iter().flatten().filter(|i| i.is(Some(seen))).filter_map(|i| match i {
                Item::Msg { id, .. } => began.get(id).copied(),
                Item::Bad => None,
            });
            if let Some(b) = first.min() {
                ensure!(
                    b <= deadline,
                    "{who}: recv call {} with a limit of {l} ms got a message sent {} microseconds after the limit",
                    c["id"],
                    b - deadline
                );
            }
        }
        let mut flood = 0u64;
        let mut plain = vec![];
        for (seen, _) in &events {
            match seen {
                Some(x) if x.format == FLOOD => {
                    let n = u64::from_le_bytes(x.data.clone().try_into().unwrap_or([255; 8]));
                    ensure!(n == flood, "{who}: message {n} of a series came instead of {flood}");
                    flood += 1;
                }
                Some(x) if x.format == ANY => {
                    let n = u32::from_le_bytes(x.data.clone().try_into().unwrap_or([255; 4])) as usize;
                    ensure!(n < any.len(), "{who}: unknown unicast {n}");
                    any[n].push((true, k));
                }
                x => plain.push(x.as_ref()),
            }
        }
        interleaved(&who, &lanes, &plain, w.open)?;
        // a limit expired and something arrived later
        cx.nontrivial |= cx.classes.iter().any(|c| c == "limit expired") && events.len() > 2;
    }
    // endpoints in Rust
    for (k, (w, (_, r))) in p.rust.iter().zip(rust).enumerate() {
        let who = format!("endpoint {} of Rust", w.name);
        let lanes: Vec<Vec<Item>> = p.due.get(&(false, k)).map(|m| m.values().cloned().collect()).unwrap_or_default();
        let n = p.senders();
        let ends = r.wait(PATIENCE, |q| (q.iter().filter(|e| matches!(e, Event::Msg(m) if m.payload.format == MARK)).count() >= n).then_some(()));
        if ends.is_none() {
            return Err(Bad::Slow(format!("{who} did not receive the last messages")));
        }
        let mut plain = vec![];
        for e in r.take() {
            match e {
                Event::Msg(mut m) if m.payload.format != ANY => {
                    let mut regions = vec![];
                    for x in &mut m.memory_regions {
                        match x.map(..) {
                            Ok(v) => regions.push(v.to_vec()),
                            Err(e) => fail!("{who}: map: {e:?}"),
                        }
                    }
                    let inodes = m
                        .objects
                        .iter()
                        .map(|o| unsafe {
                            let mut st: libc::stat = std::mem::zeroed();
                            libc::fstat(o.as_raw() as i32, &mut st);
                            st.st_ino
                        })
                        .collect();
                    plain.push(Seen { format: m.payload.format, data: m.payload.data, regions, inodes });
                }
                Event::Msg(m) => {
                    let n = u32::from_le_bytes(m.payload.data.try_into().unwrap_or([255; 4])) as usize;
                    ensure!(n < any.len(), "{who}: unknown unicast {n}");
                    any[n].push((false, k));
                }
                Event::Decode(e) | Event::Error(e) => fail!("{who}: {e}"),
            }
        }
        let refs: Vec<Option<&Seen>> = plain.iter().map(Some).collect();
        interleaved(&who, &lanes, &refs, true)?;
    }
    for (n, got) in any.iter().enumerate() {
        let c = &p.any[n];
        ensure!(got.len() <= 1, "unicast {n} was received by {got:?}");
        ensure!(got.iter().all(|g| c.contains(g)), "unicast {n} was received by {got:?}, candidates are {c:?}");
        // a receiver which was closed later may not have been asked for it
        if p.any_exact[n] && c.iter().all(|(node, k)| !*node || p.node[*k].open) {
            ensure!(got.len() == c.len().min(1), "unicast {n} was received by {got:?}, candidates are {c:?}");
        }
    }
    Ok(())
}

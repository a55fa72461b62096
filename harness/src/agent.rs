//! An endpoint in a process of its own, told what to do by JSON lines.

use crate::bus::{join_options, selector, Expr, Msg, Tagged};
use ipmb::{EndpointReceiver, EndpointSender, Message, RecvError, SelectorMode};
use serde::{Deserialize, Serialize};
use std::{
    collections::HashMap,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Arc, Condvar, Mutex,
    },
    thread,
    time::Duration,
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Order {
    /// Join and receive for ever with this limit (milliseconds); without receiver if `deaf`
    Join { identifier: String, token: String, label: Vec<String>, affinity: bool, limit: Option<u64>, deaf: bool },
    /// Send from a thread of its own
    Send { expr: Expr, uni: bool, from: u16, lane: u16, seq: u64 },
    /// Send numbered messages until `Quiet`
    Stream { expr: Expr, from: u16, lane: u16, pause: u64, size: usize },
    Quiet,
    /// Start a helper process which outlives this one
    Helper,
    /// Drop both halves
    Leave,
    Exit,
    Abort,
    Ping,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Report {
    Joined,
    JoinFailed(String),
    Got { from: u16, lane: u16, seq: u64 },
    Sent { lane: u16, seq: u64 },
    SendFailed(String),
    RecvFailed(String),
    Helper(u32),
    Left,
    Pong,
    Panic(String),
}

fn say(r: &Report) {
    let mut s = serde_json::to_string(r).unwrap();
    s.push('\n');
    let mut out = std::io::stdout().lock();
    let _ = out.write_all(s.as_bytes());
    let _ = out.flush();
}

pub fn main() -> ! {
    std::panic::set_hook(Box::new(|i| {
        say(&Report::Panic(i.to_string()));
    }));
    unsafe {
        // with the worker
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
    }
    type Half = Arc<Mutex<Option<EndpointSender<Msg>>>>;
    let tx: Half = Default::default();
    let quiet = Arc::new(AtomicBool::new(false));
    let leave = Arc::new(AtomicBool::new(false));
    let mut reader: Option<thread::JoinHandle<()>> = None;
    // orders are sent one after another
    let (queue, orders) = std::sync::mpsc::channel::<Message<Msg>>();
    {
        let tx = tx.clone();
        thread::spawn(move || {
            for m in orders {
                let (lane, seq) = match &m.payload {
                    Msg::Tagged(t) => (t.lane, t.seq),
                    _ => (0, 0),
                };
                let sender = tx.lock().unwrap().clone();
                let Some(sender) = sender else { continue };
                match sender.send(m) {
                    Ok(()) => say(&Report::Sent { lane, seq }),
                    Err(e) => say(&Report::SendFailed(e.to_string())),
                }
            }
        });
    }
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let o: Order = serde_json::from_str(&line).expect("order");
        match o {
            Order::Join { identifier, token, label, affinity, limit, deaf } => {
                let (tx, leave) = (tx.clone(), leave.clone());
                reader = Some(thread::spawn(move || {
                    let r = ipmb::join::<Msg, Msg>(join_options(&identifier, &token, &label, affinity), None);
                    match r {
                        Ok((t, rx)) => {
                            *tx.lock().unwrap() = Some(t);
                            say(&Report::Joined);
                            if deaf {
                                drop(rx);
                            } else {
                                receive(rx, limit, &leave);
                            }
                        }
                        Err(e) => say(&Report::JoinFailed(e.to_string())),
                    }
                }));
            }
            Order::Send { expr, uni, from, lane, seq } => {
                let mode = if uni { SelectorMode::Unicast } else { SelectorMode::Multicast };
                let _ = queue.send(Message::new(selector(mode, &expr, 0), Msg::Tagged(Tagged { seq, from, lane, body: vec![] })));
            }
            Order::Stream { expr, from, lane, pause, size } => {
                quiet.store(false, SeqCst);
                let (tx, quiet) = (tx.clone(), quiet.clone());
                thread::spawn(move || {
                    let mut seq = 0;
                    while !quiet.load(SeqCst) {
                        let Some(tx) = tx.lock().unwrap().clone() else { break };
                        let m = Msg::Tagged(Tagged { seq, from, lane, body: crate::bus::body(seq, size) });
                        if let Err(e) = tx.send(Message::new(selector(SelectorMode::Multicast, &expr, 0), m)) {
                            say(&Report::SendFailed(e.to_string()));
                            break;
                        }
                        seq += 1;
                        thread::sleep(Duration::from_micros(pause));
                    }
                });
            }
            Order::Quiet => quiet.store(true, SeqCst),
            Order::Helper => {
                let c = Command::new("sleep").arg("600").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
                if let Ok(c) = c {
                    say(&Report::Helper(c.id()));
                }
            }
            Order::Leave => {
                leave.store(true, SeqCst);
                quiet.store(true, SeqCst);
                *tx.lock().unwrap() = None;
                if let Some(r) = reader.take() {
                    let _ = r.join();
                }
                say(&Report::Left);
            }
            Order::Exit => std::process::exit(0),
            Order::Abort => std::process::abort(),
            Order::Ping => say(&Report::Pong),
        }
    }
    unsafe { libc::_exit(0) }
}

fn receive(mut rx: EndpointReceiver<Msg>, limit: Option<u64>, leave: &AtomicBool) {
    while !leave.load(SeqCst) {
        match rx.recv(limit.map(Duration::from_millis)) {
            Ok(m) => match m.payload {
                Msg::Tagged(t) => {
                    if t.lane >= 1000 && t.body != crate::bus::body(t.seq, t.body.len()) {
                        say(&Report::RecvFailed("corrupted".into()));
                    }
                    say(&Report::Got { from: t.from, lane: t.lane, seq: t.seq })
                }
                _ => {}
            },
            Err(RecvError::Timeout) => {}
            Err(e) => {
                say(&Report::RecvFailed(e.to_string()));
                thread::sleep(Duration::from_millis(50));
            }
        }
    }
}

// ------------------------------------------------------------------ the other side

pub struct Agent {
    pub child: Child,
    stdin: ChildStdin,
    pub shared: Arc<(Mutex<Vec<Report>>, Condvar)>,
    pub alive: bool,
}

impl Agent {
    pub fn spawn() -> Self {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("agent")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn agent");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let shared: Arc<(Mutex<Vec<Report>>, Condvar)> = Default::default();
        let s = shared.clone();
        thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if let Ok(r) = serde_json::from_str(&l) {
                    s.0.lock().unwrap().push(r);
                    s.1.notify_all();
                }
            }
        });
        Agent { child, stdin, shared, alive: true }
    }

    pub fn tell(&mut self, o: &Order) -> bool {
        let mut s = serde_json::to_string(o).unwrap();
        s.push('\n');
        self.stdin.write_all(s.as_bytes()).and_then(|_| self.stdin.flush()).is_ok()
    }

    pub fn pid(&self) -> i32 {
        self.child.id() as i32
    }

    pub fn kill(&mut self, signal: i32) {
        unsafe {
            libc::kill(self.pid(), signal);
        }
        self.reap();
    }

    pub fn reap(&mut self) {
        let _ = self.child.wait();
        self.alive = false;
    }

    /// Wait for a report that satisfies the predicate
    pub fn wait<T>(&self, patience: Duration, mut f: impl FnMut(&[Report]) -> Option<T>) -> Option<T> {
        let end = crate::interpose::real_now() + patience;
        let mut q = self.shared.0.lock().unwrap();
        loop {
            if let Some(t) = f(&q) {
                return Some(t);
            }
            if crate::interpose::real_now() >= end {
                return None;
            }
            q = self.shared.1.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
        }
    }

    pub fn reports(&self) -> Vec<Report> {
        self.shared.0.lock().unwrap().clone()
    }

    pub fn ended(&mut self) -> Option<std::process::ExitStatus> {
        self.child.try_wait().ok().flatten()
    }
}

impl Drop for Agent {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Inodes of the sockets listening on this abstract name
pub fn listeners(identifier: &str) -> Vec<u64> {
    let mut out = vec![];
    for l in std::fs::read_to_string("/proc/net/unix").unwrap_or_default().lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 8 || f[3] != "00010000" {
            continue;
        }
        let name = f[7].trim_start_matches('@').trim_end_matches('@');
        if name == identifier {
            if let Ok(i) = f[6].parse() {
                out.push(i);
            }
        }
    }
    out
}

/// Which of these processes have this socket open. Only for processes started here.
pub fn owners(inode: u64, pids: &[i32]) -> Vec<i32> {
    let want = format!("socket:[{inode}]");
    pids.iter()
        .copied()
        .filter(|p| {
            std::fs::read_dir(format!("/proc/{p}/fd"))
                .map(|d| d.flatten().any(|e| std::fs::read_link(e.path()).is_ok_and(|l| l.to_string_lossy() == want)))
                .unwrap_or(false)
        })
        .collect()
}

#[allow(unused)]
pub type Count = HashMap<(u16, u16, u64), usize>;

//! C14, C15: admission to a bus, isolation of buses.

use crate::{
    bus::{fresh_identifier, join_options, make_label, selector, Bad, Event, Expr, Msg, Reader, Res, Tagged, World, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    raw::{self, Ack, Conn, Ver},
};
use ipmb::{JoinError, LabelOp, Message, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    os::fd::{AsRawFd, OwnedFd},
    thread,
    time::Duration,
};

// ------------------------------------------------------------------ C14

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum TokenOf {
    Same,
    Other(String),
    Prefix(u8),
    Append(String),
    Prepend(String),
    /// Exchange the character at this position for another one
    Change(u8),
    Lower,
    Upper,
    Twice,
}

impl TokenOf {
    fn of(&self, t: &str) -> String {
        match self {
            TokenOf::Same => t.to_owned(),
            TokenOf::Other(s) => s.clone(),
            TokenOf::Prefix(n) => t.chars().take(t.chars().count() * *n as usize / 256).collect(),
            TokenOf::Append(s) => format!("{t}{s}"),
            TokenOf::Prepend(s) => format!("{s}{t}"),
            TokenOf::Change(n) => {
                let k = t.chars().count() * *n as usize / 256;
                t.chars().enumerate().map(|(i, c)| if i == k { if c == 'q' { 'r' } else { 'q' } } else { c }).collect()
            }
            TokenOf::Lower => t.to_lowercase(),
            TokenOf::Upper => t.to_uppercase(),
            TokenOf::Twice => format!("{t}{t}"),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AdmitOp {
    /// Join through the library
    Join { token: TokenOf, late: bool },
    /// Join by hand with the given versions in the header and in the message
    Raw { header: Ver, version: Ver, token: TokenOf, late: bool, send: bool },
    /// Send to the socket of the bus without joining
    Stranger,
    /// A message waiting for label "late"
    Hold,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Reply {
    Version(Ver),
    Token,
    Header(Ver),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AdmitCase {
    Real { token: String, ops: Vec<AdmitOp> },
    /// The harness poses as a bus of another version
    Fake { token: String, reply: Reply },
}

pub struct Admission;

fn ver() -> BoxedStrategy<Ver> {
    let o = raw::own_version();
    prop_oneof![
        4 => Just(o),
        2 => any::<u8>().prop_map(move |p| (o.0, o.1, p)),
        2 => any::<u8>().prop_map(move |m| (o.0, m, o.2)),
        1 => Just((o.0, o.1.wrapping_add(1), 0)),
        1 => Just((o.0, o.1.wrapping_sub(1), 255)),
        1 => Just((o.0.wrapping_add(1), o.1, o.2)),
        1 => any::<u8>().prop_map(move |m| (m, o.1, o.2)),
        1 => any::<(u8, u8, u8)>(),
    ]
    .boxed()
}

fn token() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-cA-C]{0,6}",
        1 => Just(String::new()),
        2 => "\\PC{0,12}",
        1 => any::<String>(),
        1 => (0usize..20_000).prop_map(|n| "x".repeat(n)),
    ]
    .boxed()
}

fn token_of() -> BoxedStrategy<TokenOf> {
    prop_oneof![
        3 => Just(TokenOf::Same),
        2 => token().prop_map(TokenOf::Other),
        1 => any::<u8>().prop_map(TokenOf::Prefix),
        1 => Just(TokenOf::Prefix(255)),
        1 => prop_oneof![Just("\0".to_owned()), Just(" ".to_owned()), Just("x".to_owned()), token()].prop_map(TokenOf::Append),
        1 => token().prop_map(TokenOf::Prepend),
        2 => any::<u8>().prop_map(TokenOf::Change),
        1 => Just(TokenOf::Lower),
        1 => Just(TokenOf::Upper),
        1 => Just(TokenOf::Twice),
    ]
    .boxed()
}

struct Admit<'a> {
    w: World,
    /// Hand-made endpoints which have been admitted, with label "late" or not
    admitted: Vec<(Conn, bool)>,
    refused: Vec<Conn>,
    held: Vec<u64>,
    seq: u64,
    cx: &'a mut Cx,
}

fn seq_of(data: &[u8]) -> Option<u64> {
    let (_, s, p) = raw::parse(data)?;
    use ipmb::MessageBox;
    match Msg::decode(s.uuid, &p).ok()? {
        Msg::Tagged(t) => Some(t.seq),
        Msg::Fence(_) => Some(u64::MAX),
        _ => None,
    }
}

impl Admit<'_> {
    fn tagged(&mut self) -> (u64, Msg) {
        self.seq += 1;
        (self.seq, Msg::Tagged(Tagged { seq: self.seq, from: 0, lane: 0, body: vec![] }))
    }

    /// What a hand-made endpoint receives next, without fences
    fn next(c: &Conn) -> Res<u64> {
        loop {
            match raw::recv(c.read.as_raw_fd(), PATIENCE) {
                Ok(Some((d, _))) => match seq_of(&d) {
                    Some(u64::MAX) => continue,
                    Some(s) => return Ok(s),
                    None => fail!("an admitted endpoint received something strange"),
                },
                Ok(None) => fail!("an admitted endpoint was disconnected"),
                Err(_) => return Err(Bad::Slow("an admitted endpoint received nothing".into())),
            }
        }
    }

    /// A multicast reaches all members, and nobody who was refused
    fn round(&mut self) -> Res {
        for from in self.w.live() {
            let (seq, m) = self.tagged();
            self.w.send(from, selector(SelectorMode::Multicast, &Expr::T, 0), m)?;
            let got = self.w.fence(from)?;
            let n = self.w.live().len();
            for g in &got {
                match &g.msg.payload {
                    Msg::Tagged(t) if t.seq == seq => {}
                    _ => fail!("endpoint {} received an unexpected message", g.ep),
                }
            }
            ensure!(got.len() == n, "a multicast reached {} of {n} members", got.len());
            for (c, _) in &self.admitted {
                let s = Self::next(c)?;
                ensure!(s == seq, "an admitted endpoint received message {s} instead of {seq}");
            }
        }
        for c in &self.refused {
            if raw::readable(c.read.as_raw_fd(), Duration::ZERO) {
                if let Ok(Some((d, _))) = raw::recv(c.read.as_raw_fd(), Duration::ZERO) {
                    fail!("a refused endpoint received a message ({} bytes, message {:?})", d.len(), seq_of(&d));
                }
            }
        }
        Ok(())
    }

    /// Whether a frame sent to the socket reaches anybody
    fn intrude(&mut self, sock: &OwnedFd, how: &str) -> Res {
        let (seq, m) = self.tagged();
        let (uuid, payload) = raw::encode_msg(&m);
        let f = raw::message(&raw::RawSelector::new(LabelOp::True, SelectorMode::Multicast, uuid), &payload);
        if raw::send(sock.as_raw_fd(), &f, &[]).is_err() {
            self.cx.class("connection of a refused endpoint closed");
            return Ok(());
        }
        // the frame has been read when the answer to a later one has been
        for _ in 0..2 {
            self.w.refused_join()?;
        }
        for g in self.w.fence(0)? {
            if matches!(&g.msg.payload, Msg::Tagged(t) if t.seq == seq) {
                return Err(Bad::Known("raw-frame-without-connect".into(), format!("a message sent by {how} was delivered to endpoint {}", g.ep)));
            }
        }
        Ok(())
    }

    fn step(&mut self, op: &AdmitOp) -> Res {
        let own = raw::own_version();
        match op {
            AdmitOp::Hold => {
                let (seq, m) = self.tagged();
                if self.admitted.iter().any(|a| a.1) {
                    return Ok(());
                }
                self.w.send(0, selector(SelectorMode::Unicast, &Expr::leaf("late"), u64::MAX), m)?;
                ensure!(self.w.fence(0)?.is_empty(), "a message for nobody was delivered");
                self.held.push(seq);
            }
            AdmitOp::Join { token, late } => {
                let t = token.of(&self.w.token);
                let equal = t == self.w.token;
                let label = vec![if *late { "late".to_owned() } else { "x".to_owned() }];
                let r = ipmb::join::<Msg, Msg>(join_options(&self.w.identifier, &t, &label, true), Some(PATIENCE));
                match r {
                    Ok((tx, rx)) => {
                        ensure!(equal, "admitted with token {t:?}, the bus has {:?}", self.w.token);
                        let reader = Reader::spawn(rx);
                        if *late {
                            let want = std::mem::take(&mut self.held);
                            let mut got = vec![];
                            while got.len() < want.len() {
                                let Some(()) = reader.wait(PATIENCE, |q| (!q.is_empty()).then_some(())) else {
                                    return Err(Bad::Slow(format!("{} of {} waiting messages arrived", got.len(), want.len())));
                                };
                                for e in reader.take() {
                                    match e {
                                        Event::Msg(m) => {
                                            if let Msg::Tagged(t) = m.payload {
                                                got.push(t.seq)
                                            }
                                        }
                                        _ => fail!("recv failed"),
                                    }
                                }
                            }
                            ensure!(got == want, "waiting messages {got:?} arrived instead of {want:?}");
                            self.cx.class_if(!got.is_empty(), "waiting message after refusals");
                        }
                        drop(tx);
                        drop(reader);
                        self.cx.class("admitted");
                    }
                    Err(JoinError::TokenMismatch) => {
                        ensure!(!equal, "refused with the token {t:?} of the bus");
                        self.cx.class("refused by token");
                        self.cx.nontrivial = true;
                    }
                    Err(JoinError::Timeout) => return Err(Bad::Slow("join timed out".into())),
                    Err(e) => fail!("join with token {t:?} instead of {:?}: {e}", self.w.token),
                }
            }
            AdmitOp::Raw { header, version, token, late, send } => {
                let t = token.of(&self.w.token);
                let ok_token = t == self.w.token;
                let ok_version = raw::compatible(*header, own) && raw::compatible(*version, own);
                if self.admitted.iter().any(|a| a.1) && *late {
                    return Ok(());
                }
                let label = make_label(&[if *late { "late".to_owned() } else { "x".to_owned() }]);
                let (c, ack) = match Conn::join(&self.w.identifier, *header, *version, &t, &label, PATIENCE) {
                    Ok(r) => r,
                    Err(e) => return Err(Bad::Slow(format!("no answer to a connect message: {e}"))),
                };
                let what = format!("header version {header:?}, version {version:?}, equal token {ok_token}, bus has {own:?}");
                let Some((v, ack)) = ack else { fail!("no answer to a connect message: {what}") };
                ensure!(v == own, "the bus answers as version {v:?}");
                match ack {
                    Ack::Ok(_) => {
                        ensure!(ok_version && ok_token, "admitted: {what}");
                        if *late {
                            for want in std::mem::take(&mut self.held) {
                                let s = Self::next(&c)?;
                                ensure!(s == want, "waiting message {s} arrived instead of {want}");
                            }
                        }
                        self.cx.class_if(*header != own || *version != own, "admitted with another compatible version");
                        self.admitted.push((c, *late));
                    }
                    Ack::ErrVersion(v) => {
                        ensure!(!ok_version, "refused by version: {what}");
                        ensure!(v == own, "the version mismatch tells {v:?}: {what}");
                        self.cx.class("refused by version");
                        self.cx.nontrivial = true;
                        self.refused.push(c);
                    }
                    Ack::ErrToken => {
                        ensure!(!ok_token, "refused by token: {what}");
                        self.cx.nontrivial = true;
                        self.cx.class("refused by token");
                        self.refused.push(c);
                    }
                }
                if *send && !(ok_version && ok_token) {
                    self.round()?;
                    let sock = self.refused.last().unwrap().sock.try_clone().unwrap();
                    self.intrude(&sock, "a refused endpoint")?;
                }
            }
            AdmitOp::Stranger => {
                let Ok(sock) = raw::dial(&self.w.identifier) else { fail!("the bus doesn't listen any more") };
                self.intrude(&sock, "a process which never asked for admission")?;
            }
        }
        Ok(())
    }
}

impl Prop for Admission {
    const ID: &'static str = "C14";
    const RULE: &'static str = "a bus with two members and a random token (empty, Unicode, long), then random attempts to join: through the library with equal and related tokens (prefixes, one character changed, case, appended), and by hand with every combination of versions in header and connect message; checked: the answer, that members keep exchanging messages, that refused endpoints receive nothing and (hand-made ones) that what they send reaches nobody, and that messages waiting for their label stay for the next admitted endpoint. Sometimes the harness poses as a bus of another version. Non-trivial: an attempt was refused";
    type Case = AdmitCase;
    const CASES: (usize, usize) = (4000, 80_000);

    fn strategy(_t: bool) -> BoxedStrategy<AdmitCase> {
        let op = prop_oneof![
            8 => (token_of(), any::<bool>()).prop_map(|(token, late)| AdmitOp::Join { token, late }),
            12 => (ver(), ver(), prop_oneof![2 => Just(TokenOf::Same), 1 => token_of()], any::<bool>(), prop::bool::weighted(0.05))
                .prop_map(|(header, version, token, late, send)| AdmitOp::Raw { header, version, token, late, send }),
            4 => Just(AdmitOp::Hold),
        ];
        let real = (token(), prop::collection::vec(op, 1..8)).prop_map(|(token, ops)| AdmitCase::Real { token, ops });
        let own = raw::own_version();
        let reply = prop_oneof![
            2 => any::<Ver>().prop_map(Reply::Version),
            1 => Just(Reply::Token),
            2 => ver().prop_filter_map("compatible", move |v| (!raw::compatible(v, own)).then_some(Reply::Header(v))),
        ];
        let fake = (token(), reply).prop_map(|(token, reply)| AdmitCase::Fake { token, reply });
        prop_oneof![6 => real, 1 => fake].boxed()
    }

    fn fixed() -> Vec<AdmitCase> {
        let bad = raw::own_version();
        vec![
            AdmitCase::Real { token: "t".into(), ops: vec![AdmitOp::Stranger] },
            AdmitCase::Real {
                token: "t".into(),
                ops: vec![AdmitOp::Raw { header: bad, version: bad, token: TokenOf::Other("u".into()), late: false, send: true }],
            },
        ]
    }

    fn run(c: &AdmitCase, cx: &mut Cx) -> Res {
        match c {
            AdmitCase::Real { token, ops } => {
                let mut w = World::new(token);
                w.join(&["h".to_owned()])?;
                w.join(&["m".to_owned()])?;
                w.fence(1)?;
                let mut a = Admit { w, admitted: vec![], refused: vec![], held: vec![], seq: 0, cx };
                for op in ops {
                    a.step(op)?;
                    a.round()?;
                }
                let want = std::mem::take(&mut a.held);
                if !a.admitted.iter().any(|x| x.1) {
                    let idx = a.w.join(&["late".to_owned()])?;
                    let got: Vec<u64> = a.w.fence(idx)?.iter().map(|g| if let Msg::Tagged(t) = &g.msg.payload { t.seq } else { 0 }).collect();
                    ensure!(got == want, "messages {got:?} were waiting for the last endpoint instead of {want:?}");
                }
                a.round()
            }
            AdmitCase::Fake { token, reply } => {
                let id = fresh_identifier();
                let listener = raw::listen(&id).expect("listen");
                let (id2, token2) = (id.clone(), token.clone());
                let t = thread::spawn(move || ipmb::join::<Msg, Msg>(join_options(&id2, &token2, &[], true), Some(PATIENCE)).map(|_| ()));
                let slow = |e: std::io::Error| Bad::Slow(format!("the joining endpoint: {e}"));
                let sock = raw::accept(listener.as_raw_fd(), PATIENCE).map_err(slow)?;
                let Some((data, fds)) = raw::recv(sock.as_raw_fd(), PATIENCE).map_err(slow)? else { fail!("the endpoint hung up") };
                let Some((v, sel, _)) = raw::parse(&data) else { fail!("the connect message can't be parsed") };
                ensure!(v == raw::own_version() && sel.uuid == raw::CONNECT && fds.len() == 1, "strange connect message");
                let (header, ack) = match reply {
                    Reply::Version(v) => (raw::own_version(), Ack::ErrVersion(*v)),
                    Reply::Token => (raw::own_version(), Ack::ErrToken),
                    Reply::Header(v) => (*v, Ack::Ok([7; 16])),
                };
                let s = raw::RawSelector::new(LabelOp::True, SelectorMode::Unicast, raw::CONNECT_ACK);
                let f = raw::frame(header, &raw::selector_bytes(&s), &ipmb::encode(&ack).unwrap());
                raw::send(fds[0].as_raw_fd(), &f, &[]).expect("reply");
                let r = t.join().map_err(|_| Bad::Fail("join panicked".into()))?;
                cx.nontrivial = true;
                cx.class("posing as another bus");
                match (reply, r) {
                    (_, Err(JoinError::Timeout)) => Err(Bad::Slow("join timed out".into())),
                    (Reply::Version(v) | Reply::Header(v), Err(JoinError::VersionMismatch(g))) => {
                        ensure!((g.major(), g.minor(), g.patch()) == *v, "the mismatch tells {g} instead of {v:?}");
                        Ok(())
                    }
                    (Reply::Token, Err(JoinError::TokenMismatch)) => Ok(()),
                    (_, r) => fail!("join returned {r:?} after {reply:?}"),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C15

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Relation {
    Same,
    Append(String),
    Prefix(u8),
    Change(u8),
    Upper,
    Other(String),
    /// Append a space or a dot, reverse
    Dot,
    Reverse,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Isolated {
    base: String,
    /// Length to which the base is extended, in bytes
    len: u8,
    others: Vec<Relation>,
    /// Which bus each endpoint joins, and with which label
    joins: Vec<(u8, bool)>,
    /// Sending endpoint, multicast, waits
    sends: Vec<(u8, bool, bool)>,
    same_token: bool,
}

pub struct Isolation;

/// An identifier that no other test uses, starting with the base
fn identifiers(c: &Isolated) -> Vec<String> {
    // the part which tells cases apart is never changed
    let fresh = fresh_identifier();
    let unique = fresh.len() + 1;
    let mut base = format!("{fresh}_{}bus", c.base);
    base.retain(|c| c != '\0');
    while base.len() < c.len as usize {
        base.push('z');
    }
    let mut out = vec![base.clone()];
    for r in &c.others {
        let mut s = match r {
            Relation::Same => base.clone(),
            Relation::Append(s) => format!("{base}{s}"),
            Relation::Prefix(n) => {
                let all: Vec<char> = base.chars().collect();
                let u = unique;
                all[..u + (all.len() - u) * *n as usize / 256].iter().collect()
            }
            Relation::Change(n) => {
                let all = base.chars().count();
                let k = all - 1 - (all - unique - 1) * *n as usize / 256;
                base.chars().enumerate().map(|(i, c)| if i == k { if c == 'q' { 'r' } else { 'q' } } else { c }).collect()
            }
            Relation::Upper => base.to_uppercase(),
            Relation::Other(s) => format!("{s}{base}"),
            Relation::Dot => format!("{base}."),
            Relation::Reverse => base[..unique].chars().chain(base[unique..].chars().rev()).collect(),
        };
        s.retain(|c| c != '\0');
        out.push(s);
    }
    out
}

impl Prop for Isolation {
    const ID: &'static str = "C15";
    const RULE: &'static str = "two to five identifiers which are equal or closely related (prefixes, one character changed, appended, case, Unicode, lengths around the 106 bytes of a socket address), endpoints joining one of them each with equal labels, then multicasts and unicasts to everything, some of which wait; a message must be received by the endpoints of the same identifier only, by all of them (multicast) or one; when each bus has a token of its own, joining the right bus must succeed; non-trivial: endpoints of at least two different identifiers were present and a message was sent";
    type Case = Isolated;
    const CASES: (usize, usize) = (4000, 80_000);

    fn strategy(_t: bool) -> BoxedStrategy<Isolated> {
        let text = prop_oneof![3 => "[a-z.]{0,5}", 2 => "\\PC{0,8}", 1 => "[ -~]{0,20}"];
        let rel = prop_oneof![
            2 => Just(Relation::Same),
            3 => prop_oneof![3 => Just("z".to_owned()), 2 => text.clone(), 1 => (1usize..200).prop_map(|n| "z".repeat(n))].prop_map(Relation::Append),
            2 => any::<u8>().prop_map(Relation::Prefix),
            4 => any::<u8>().prop_map(Relation::Change),
            1 => Just(Relation::Upper),
            1 => text.clone().prop_map(Relation::Other),
            1 => Just(Relation::Dot),
            1 => Just(Relation::Reverse),
        ];
        let len = prop_oneof![4 => Just(0u8), 4 => 40u8..104, 2 => 100u8..107, 1 => Just(106u8), 1 => 107u8..160];
        (
            text,
            len,
            prop::collection::vec(rel, 1..5),
            prop::collection::vec((any::<u8>(), any::<bool>()), 2..8),
            prop::collection::vec((any::<u8>(), any::<bool>(), prop::bool::weighted(0.3)), 1..6),
            any::<bool>(),
        )
            .prop_map(|(base, len, others, joins, sends, same_token)| Isolated { base, len, others, joins, sends, same_token })
            .boxed()
    }

    fn fixed() -> Vec<Isolated> {
        vec![Isolated {
            base: String::new(),
            len: 106,
            others: vec![Relation::Append("a".into())],
            joins: vec![(0, true), (255, true)],
            sends: vec![(0, false, false)],
            same_token: true,
        }]
    }

    fn run(c: &Isolated, cx: &mut Cx) -> Res {
        if c.joins.is_empty() {
            return Ok(());
        }
        let ids = identifiers(c);
        struct Ep {
            id: String,
            g: bool,
            tx: ipmb::EndpointSender<Msg>,
            reader: Reader<Msg>,
        }
        let mut eps: Vec<Ep> = vec![];
        // a failure which the truncation of identifiers explains
        let long = |a: &str, b: &str| a != b && a.len().min(b.len()) >= 106 && a.as_bytes()[..106] == b.as_bytes()[..106];
        let blame = |ids: &[&str], me: &str, m: String| -> Bad {
            if ids.iter().any(|i| long(i, me)) {
                Bad::Known("long-identifier-prefix".into(), m)
            } else {
                Bad::Fail(m)
            }
        };
        for (k, g) in &c.joins {
            let id = &ids[*k as usize * ids.len() / 256];
            let token = if c.same_token { "t".to_owned() } else { format!("token of {id}") };
            let label = if *g { vec!["g".to_owned()] } else { vec![] };
            match ipmb::join::<Msg, Msg>(join_options(id, &token, &label, true), Some(PATIENCE)) {
                Ok((tx, rx)) => eps.push(Ep { id: id.clone(), g: *g, tx, reader: Reader::spawn(rx) }),
                Err(JoinError::Timeout) => return Err(Bad::Slow(format!("join of {id:?} timed out"))),
                Err(e) => {
                    let others: Vec<&str> = eps.iter().map(|e| e.id.as_str()).collect();
                    return Err(blame(&others, id, format!("join of {id:?} with its token: {e} (others: {others:?})")));
                }
            }
        }
        let all: Vec<&str> = eps.iter().map(|e| e.id.as_str()).collect();
        for (seq, (from, multi, wait)) in c.sends.iter().enumerate() {
            let from = *from as usize * eps.len() / 256;
            let seq = seq as u64;
            let mut sel = selector(if *multi { SelectorMode::Multicast } else { SelectorMode::Unicast }, &if *wait { Expr::leaf("g") } else { Expr::T }, 0);
            if *wait {
                sel.ttl = Duration::from_secs(1000);
            }
            let m = Message::new(sel, Msg::Tagged(Tagged { seq, from: from as u16, lane: 0, body: vec![] }));
            eps[from].tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
            // a fence on each bus
            let mut done: Vec<&str> = vec![];
            let mut got: Vec<usize> = vec![];
            let mut fenced = vec![0usize; eps.len()];
            for i in std::iter::once(from).chain(0..eps.len()) {
                if done.contains(&eps[i].id.as_str()) {
                    continue;
                }
                done.push(&eps[i].id);
                let m = Message::new(selector(SelectorMode::Multicast, &Expr::T, 0), Msg::Fence(crate::bus::Fence { n: (seq << 16) + i as u64 }));
                eps[i].tx.send(m).map_err(|e| Bad::Fail(format!("send: {e}")))?;
                for (k, e) in eps.iter().enumerate() {
                    if e.id != eps[i].id {
                        continue;
                    }
                    let r = e.reader.wait(PATIENCE, |q| {
                        q.iter().any(|ev| matches!(ev, Event::Msg(m) if matches!(&m.payload, Msg::Fence(f) if f.n == (seq << 16) + i as u64))).then_some(())
                    });
                    if r.is_none() {
                        let m = format!("a multicast on bus {:?} did not reach an endpoint of it", e.id);
                        return Err(match blame(&all, &e.id, m) {
                            Bad::Fail(m) => Bad::Slow(m),
                            b => b,
                        });
                    }
                    for ev in e.reader.take() {
                        let Event::Msg(m) = ev else { fail!("recv failed") };
                        match m.payload {
                            Msg::Tagged(t) if t.seq == seq => got.push(k),
                            Msg::Fence(f) if f.n == (seq << 16) + i as u64 => fenced[k] += 1,
                            Msg::Tagged(t) => return Err(blame(&all, &e.id, format!("message {} was delivered on bus {:?} at {seq}", t.seq, e.id))),
                            Msg::Fence(f) => {
                                return Err(blame(&all, &e.id, format!("a message of bus {:?} was delivered on bus {:?}", eps[f.n as usize & 0xffff].id, e.id)))
                            }
                            _ => fail!("unexpected message"),
                        }
                    }
                }
            }
            for (k, e) in eps.iter().enumerate() {
                if e.id != eps[from].id && got.contains(&k) {
                    return Err(blame(&all, &e.id, format!("a message sent on bus {:?} was delivered on bus {:?}", eps[from].id, e.id)));
                }
                if fenced[k] != 1 {
                    return Err(blame(&all, &e.id, format!("an endpoint of bus {:?} received {} multicasts instead of 1", e.id, fenced[k])));
                }
            }
            let matching: Vec<usize> = eps.iter().enumerate().filter(|(_, e)| e.id == eps[from].id && (!*wait || e.g)).map(|(k, _)| k).collect();
            let want = if *multi { matching.len() } else { matching.len().min(1) };
            if got.len() != want || !got.iter().all(|g| matching.contains(g)) {
                return Err(blame(&all, &eps[from].id, format!("a message on bus {:?} reached {got:?}, {matching:?} match (multicast {multi})", eps[from].id)));
            }
        }
        let mut distinct = all.clone();
        distinct.sort_unstable();
        distinct.dedup();
        cx.class(format!("{} identifiers in use", distinct.len()));
        cx.class_if(distinct.iter().any(|d| d.len() > 106), "longer than a socket address");
        cx.class_if(distinct.iter().any(|a| distinct.iter().any(|b| a != b && b.starts_with(*a))), "one is a prefix of another");
        cx.class_if(distinct.iter().any(|d| !d.is_ascii()), "not ASCII");
        cx.class_if(all.len() > distinct.len(), "several on one bus");
        cx.nontrivial = distinct.len() > 1 && !c.sends.is_empty();
        for e in &eps {
            e.reader.stop_soon();
        }
        // hosting endpoints last
        while let Some(e) = eps.pop() {
            drop(e.reader);
        }
        Ok(())
    }
}

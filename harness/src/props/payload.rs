//! C06, C13, C24: payloads, message types, the codec.

use crate::{
    bus::{self, body, fresh_identifier, join_options, Bad, Event, Mode, Reader, Res, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
};
use ipmb::{BytesMessage, LabelOp, Message, MessageBox, Selector};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, HashSet},
    time::Duration,
};
use type_uuid::TypeUuid;

// ------------------------------------------------------------------ types

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Variant {
    Unit,
    Newtype(i64),
    Tuple(u8, String),
    Struct { a: Option<Box<Variant>>, b: Vec<u16> },
}

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b01"]
pub struct Rich {
    pub u: (u8, u16, u32, u64),
    pub i: (i8, i16, i32, i64),
    /// 128 bit values as text, JSON can't hold them
    #[serde(with = "wide")]
    pub w: (u128, i128),
    /// Floating point numbers as bits
    pub f: (u32, u64),
    pub b: bool,
    pub c: char,
    pub s: String,
    pub o: Option<String>,
    pub v: Vec<Variant>,
    pub m: BTreeMap<String, Vec<u8>>,
    pub n: Vec<Vec<u32>>,
    pub unit: (),
}

mod wide {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &(u128, i128), s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            (v.0.to_string(), v.1.to_string()).serialize(s)
        } else {
            v.serialize(s)
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<(u128, i128), D::Error> {
        if d.is_human_readable() {
            let (a, b) = <(String, String)>::deserialize(d)?;
            Ok((a.parse().map_err(serde::de::Error::custom)?, b.parse().map_err(serde::de::Error::custom)?))
        } else {
            Deserialize::deserialize(d)
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b02"]
pub struct Floats(pub f32, pub f64);

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b03"]
pub struct Nothing;

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b04"]
pub struct Num(pub u64);

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b05"]
pub struct Text(pub String);

/// Same content as Text, another type
#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b06"]
pub struct Text2(pub String);

#[derive(Debug, Clone, Serialize, Deserialize, TypeUuid, PartialEq)]
#[uuid = "5d5a4d5e-2b9e-4f0c-9f59-0d7d7c1f6b0f"]
pub struct End(pub u64);

#[derive(ipmb::MessageBox)]
pub enum All {
    Rich(Rich),
    Floats(Floats),
    Nothing(Nothing),
    Num(Num),
    Text(Text),
    Bytes(BytesMessage),
    End(End),
}

pub fn variant() -> BoxedStrategy<Variant> {
    let leaf = prop_oneof![
        Just(Variant::Unit),
        any::<i64>().prop_map(Variant::Newtype),
        (any::<u8>(), "\\PC{0,6}").prop_map(|(a, b)| Variant::Tuple(a, b)),
    ];
    leaf.prop_recursive(4, 8, 1, |inner| {
        (prop::option::of(inner), prop::collection::vec(any::<u16>(), 0..4))
            .prop_map(|(a, b)| Variant::Struct { a: a.map(Box::new), b })
    })
    .boxed()
}

fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        any::<u64>(),
        prop::sample::select(vec![0, 1, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX]),
    ]
    .boxed()
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![4 => "\\PC{0,20}", 1 => "[a-z]{0,300}", 1 => Just(String::new()), 1 => Just("\0é🙂".to_owned())].boxed()
}

pub fn rich() -> BoxedStrategy<Rich> {
    let nums = (
        (any::<u8>(), any::<u16>(), any::<u32>(), edge_u64()),
        (any::<i8>(), any::<i16>(), any::<i32>(), any::<i64>()),
        (any::<u128>(), any::<i128>()),
        (any::<u32>(), any::<u64>()),
        any::<bool>(),
        any::<char>(),
    );
    let rest = (
        text(),
        prop::option::of(text()),
        prop::collection::vec(variant(), 0..4),
        prop::collection::btree_map("[a-c]{0,3}", prop::collection::vec(any::<u8>(), 0..20), 0..4),
        prop::collection::vec(prop::collection::vec(any::<u32>(), 0..5), 0..4),
    );
    (nums, rest)
        .prop_map(|((u, i, w, f, b, c), (s, o, v, m, n))| Rich { u, i, w, f, b, c, s, o, v, m, n, unit: () })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Load {
    Rich(Box<Rich>),
    Floats(u32, u64),
    Nothing,
    Num(u64),
    Text(String),
    Bytes { format: u16, len: u32 },
}

impl Load {
    fn make(&self, seed: u64) -> All {
        match self {
            Load::Rich(r) => All::Rich((**r).clone()),
            Load::Floats(a, b) => All::Floats(Floats(f32::from_bits(*a), f64::from_bits(*b))),
            Load::Nothing => All::Nothing(Nothing),
            Load::Num(n) => All::Num(Num(*n)),
            Load::Text(t) => All::Text(Text(t.clone())),
            Load::Bytes { format, len } => All::Bytes(BytesMessage { format: *format, data: body(seed, *len as usize) }),
        }
    }

    fn same(&self, seed: u64, m: &All) -> bool {
        match (self, m) {
            (Load::Rich(r), All::Rich(x)) => **r == *x,
            (Load::Floats(a, b), All::Floats(Floats(x, y))) => *a == x.to_bits() && *b == y.to_bits(),
            (Load::Nothing, All::Nothing(_)) => true,
            (Load::Num(a), All::Num(Num(b))) => a == b,
            (Load::Text(a), All::Text(Text(b))) => a == b,
            (Load::Bytes { format, len }, All::Bytes(b)) => *format == b.format && b.data == body(seed, *len as usize),
            _ => false,
        }
    }
}

fn describe(m: &All) -> String {
    match m {
        All::Bytes(b) => format!("bytes of format {} and length {}", b.format, b.data.len()),
        All::Rich(r) => format!("{r:?}").chars().take(300).collect(),
        All::Floats(f) => format!("{f:?}"),
        All::Nothing(_) => "nothing".into(),
        All::Num(n) => format!("{n:?}"),
        All::Text(t) => format!("{t:?}"),
        All::End(e) => format!("{e:?}"),
    }
}

// ------------------------------------------------------------------ C06

pub struct Payload;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Transfer {
    from: u8,
    /// 3 for all
    to: u8,
    /// Length added to the selector
    pad: u16,
    load: Load,
}

/// Frames of this size pass for sure
const SURELY_FITS: usize = 120_000;

impl Prop for Payload {
    const ID: &'static str = "C06";
    const RULE: &'static str = "random sequences of transfers on a bus with three endpoints (host and two clients, all nine paths and multicast to all), payloads being random structured values with edge values, empty types, text, and BytesMessage of sizes 0..300, around powers of two and pages, up to and around the transport limit, with selectors of varying length; each accepted message must arrive as sent, once, in order; non-trivial: at least two kinds of payload or a payload above 4 KB, on at least two paths";
    type Case = Vec<Transfer>;
    const CASES: (usize, usize) = (9000, 200_000);

    fn strategy(_t: bool) -> BoxedStrategy<Self::Case> {
        let len = prop_oneof![
            6 => 0u32..300,
            2 => (prop::sample::select(vec![251u32, 512, 1024, 4096, 8192, 16384, 32768, 65536]), -16i32..16).prop_map(|(a, d)| (a as i32 + d) as u32),
            2 => 0u32..20_000,
            1 => 0u32..119_000,
            1 => 130_000u32..132_000,
        ];
        let load = prop_oneof![
            3 => rich().prop_map(|r| Load::Rich(Box::new(r))),
            1 => (any::<u32>(), any::<u64>()).prop_map(|(a, b)| Load::Floats(a, b)),
            1 => Just(Load::Nothing),
            1 => edge_u64().prop_map(Load::Num),
            2 => text().prop_map(Load::Text),
            6 => (any::<u16>(), len).prop_map(|(format, len)| Load::Bytes { format, len }),
        ];
        let pad = prop_oneof![2 => Just(0u16), 3 => 0u16..40, 1 => 0u16..2000];
        let t = (0u8..3, 0u8..4, pad, load).prop_map(|(from, to, pad, load)| Transfer { from, to, pad, load });
        prop::collection::vec(t, 1..12).boxed()
    }

    fn run(case: &Self::Case, cx: &mut Cx) -> Res {
        let id = fresh_identifier();
        let mut txs = vec![];
        let mut readers: Vec<Reader<All>> = vec![];
        for i in 0..3 {
            let (tx, rx) = join::<All, All>(&id, &[format!("e{i}")], i == 0)?;
            txs.push(tx);
            // how it receives depends on the case
            let k = case.iter().map(|t| t.pad as usize).sum::<usize>() + case.len();
            let mode = Mode::of(&[(k & 3) as u8, (k >> 2 & 3) as u8, (k >> 4 & 3) as u8], i);
            cx.class_if(mode.waits(), if i == 0 { "host receives without limit" } else { "endpoint receives without limit" });
            readers.push(Reader::spawn_as(rx, mode, |_| false));
        }
        // (from, index) expected per endpoint; `Option` whether it may be missing
        let mut due: Vec<Vec<(usize, bool)>> = vec![vec![]; 3];
        let (mut kinds, mut paths) = (vec![], vec![]);
        for (i, t) in case.iter().enumerate() {
            let msg = t.load.make(i as u64);
            let mut op = if t.to == 3 { LabelOp::True } else { LabelOp::from(format!("e{}", t.to)) };
            if t.pad > 0 {
                op = op.or("x".repeat(t.pad as usize));
            }
            let size = MessageBox::encode(&msg).map(|v| v.len()).unwrap_or(0) + t.pad as usize + 200;
            let sel = if t.to == 3 { Selector::multicast(op) } else { Selector::unicast(op) };
            kinds.push(std::mem::discriminant(&t.load));
            paths.push((t.from, t.to));
            cx.class(format!("path {}->{}", t.from, if t.to == 3 { "all".into() } else { t.to.to_string() }));
            cx.class_if(size > 65536, "above 64 KB");
            let sure = size <= SURELY_FITS;
            match txs[t.from as usize].send(Message::new(sel, msg)) {
                Ok(()) => {
                    for (e, d) in due.iter_mut().enumerate() {
                        if t.to == 3 || t.to as usize == e {
                            // the host can't know whether its message is too large for others
                            d.push((i, sure || t.from != 0 || e == 0));
                        }
                    }
                }
                Err(e) => {
                    ensure!(!sure, "transfer {i} of {size} bytes was refused: {e}");
                    cx.class("refused as too large");
                }
            }
        }
        for (f, tx) in txs.iter().enumerate() {
            if let Err(e) = tx.send(Message::new(Selector::multicast(LabelOp::True), All::End(End(f as u64)))) {
                fail!("the last message of endpoint {f} was refused: {e}");
            }
        }
        kinds.dedup();
        paths.sort();
        paths.dedup();
        cx.nontrivial = paths.len() > 1
            && (kinds.len() > 1 || case.iter().any(|t| matches!(t.load, Load::Bytes { len, .. } if len > 4096)));
        for e in 0..3 {
            let ends = readers[e].wait(PATIENCE, |q| {
                (q.iter().filter(|x| matches!(x, Event::Msg(m) if matches!(m.payload, All::End(_)))).count() >= 3).then_some(())
            });
            if ends.is_none() {
                return Err(Bad::Slow(format!("endpoint {e} did not receive the last messages")));
            }
            let mut missing = due[e].clone();
            let mut last = [0usize; 3];
            for ev in readers[e].take() {
                match ev {
                    Event::Msg(m) => {
                        if let All::End(_) = m.payload {
                            continue;
                        }
                        // messages of one endpoint arrive in order; find the first due one that is equal
                        let Some(k) = missing.iter().position(|(i, _)| case[*i].load.same(*i as u64, &m.payload)) else {
                            fail!("endpoint {e} received something that was not sent to it or twice: {}", describe(&m.payload))
                        };
                        let (i, _) = missing.remove(k);
                        // equal payloads may be taken for each other
                        let unique = case.iter().enumerate().filter(|(j, t)| t.load.same(*j as u64, &m.payload)).count() == 1;
                        let f = case[i].from as usize;
                        if unique {
                            ensure!(i + 1 > last[f], "endpoint {e} received transfer {i} of endpoint {f} after {}", last[f] - 1);
                            last[f] = i + 1;
                        }
                        ensure!(m.objects.is_empty() && m.memory_regions.is_empty(), "endpoint {e}: attachments appeared");
                    }
                    Event::Decode(x) => fail!("endpoint {e}: decode error: {x}"),
                    Event::Error(x) => fail!("endpoint {e}: error: {x}"),
                }
            }
            if let Some((i, _)) = missing.iter().find(|(_, must)| *must) {
                let t = &case[*i];
                fail!("endpoint {e} did not receive transfer {i} from endpoint {} ({})", t.from, describe(&t.load.make(*i as u64)));
            }
        }
        for r in &readers {
            r.stop_soon();
        }
        for (i, r) in readers.iter().enumerate() {
            r.wake(|| {
                let _ = txs[i].send(Message::new(Selector::unicast(format!("e{i}")), All::End(End(9))));
            });
        }
        while let (Some(r), Some(t)) = (readers.pop(), txs.pop()) {
            drop(r);
            drop(t);
        }
        Ok(())
    }
}

pub fn join<T: MessageBox, R: MessageBox>(
    id: &str,
    label: &[String],
    affinity: bool,
) -> Res<(ipmb::EndpointSender<T>, ipmb::EndpointReceiver<R>)> {
    match ipmb::join(join_options(id, "t", label, affinity), Some(PATIENCE)) {
        Ok(x) => Ok(x),
        Err(ipmb::JoinError::Timeout) => Err(Bad::Slow("join timed out".into())),
        Err(e) => Err(Bad::Fail(format!("join: {e}"))),
    }
}

// ------------------------------------------------------------------ C13

/// Sends any bytes as any type
pub struct Forged {
    pub uuid: [u8; 16],
    pub data: Vec<u8>,
}

impl MessageBox for Forged {
    fn decode(_: [u8; 16], _: &[u8]) -> Result<Self, ipmb::Error> {
        Err(ipmb::Error::TypeUuidNotFound)
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        Ok(self.data.clone())
    }
    fn uuid(&self) -> [u8; 16] {
        self.uuid
    }
}

macro_rules! boxes {
    ($($name:ident { $($v:ident($t:ident)),* }),* $(,)?) => {
        $(
            #[derive(ipmb::MessageBox)]
            pub enum $name { $($v($t)),* , Last(End) }
            impl Shown for $name {
                const TYPES: &'static [&'static str] = &[$(stringify!($t)),*];
                fn show(&self) -> (&'static str, String) {
                    match self {
                        $($name::$v(x) => (stringify!($t), format!("{x:?}")),)*
                        $name::Last(e) => ("End", format!("{e:?}")),
                    }
                }
            }
        )*
    };
}

/// Name of the type as which a message was received and its value
trait Shown {
    const TYPES: &'static [&'static str];
    fn show(&self) -> (&'static str, String);
    /// The message that counts as last one
    fn end() -> Forged {
        Forged { uuid: End::UUID, data: ipmb::encode(End(7)).expect("encode") }
    }
}

macro_rules! plain {
    ($($t:ident $end:expr);* $(;)?) => { $(
        impl Shown for $t {
            const TYPES: &'static [&'static str] = &[stringify!($t)];
            fn show(&self) -> (&'static str, String) {
                if format!("{self:?}") == format!("{:?}", $end) { ("End", String::new()) } else { (stringify!($t), format!("{self:?}")) }
            }
            fn end() -> Forged {
                Forged { uuid: $t::UUID, data: ipmb::encode($end).expect("encode") }
            }
        }
    )* };
}

// types received without an enum around them
plain! {
    Num Num(0x7e57_7e57_7e57_7e57);
    Text2 Text2("end of the lane".to_owned());
    BytesMessage BytesMessage { format: 0xe2d, data: b"end of the lane".to_vec() };
}

boxes! {
    BoxA { A(Num), B(Text), C(Nothing) },
    BoxB { X(Nothing), Y(Rich), Z(Num) },
    BoxC { One(Text2) },
    BoxD { Bytes(BytesMessage), T2(Text2), T1(Text), F(Floats) },
    BoxE { F(Floats), N(Nothing), Z(Rich), T(Text), U(Text2), M(Num), B(BytesMessage) },
    BoxF { B(BytesMessage) },
}

/// Implements the trait itself, with errors of its own
#[derive(Debug)]
pub enum ByHand {
    Num(Num),
    Text(Text),
    End,
}

impl MessageBox for ByHand {
    fn decode(uuid: [u8; 16], data: &[u8]) -> Result<Self, ipmb::Error> {
        let r = match uuid {
            Num::UUID => ipmb::decode(data).map(ByHand::Num),
            Text::UUID => ipmb::decode(data).map(ByHand::Text),
            End::UUID => return Ok(ByHand::End),
            _ => return Err(ipmb::Error::TypeUuidNotFound),
        };
        r.map_err(|e| match data.len() % 6 {
            0 => e,
            1 => ipmb::Error::Unknown,
            2 => ipmb::Error::IoError(std::io::ErrorKind::InvalidData.into()),
            3 => ipmb::Error::Timeout,
            4 => ipmb::Error::Disconnect,
            _ => ipmb::Error::PermissionDenied,
        })
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        Err(ipmb::Error::Unknown)
    }
    fn uuid(&self) -> [u8; 16] {
        End::UUID
    }
}

impl Shown for ByHand {
    const TYPES: &'static [&'static str] = &["Num", "Text"];
    fn show(&self) -> (&'static str, String) {
        match self {
            ByHand::Num(n) => ("Num", format!("{n:?}")),
            ByHand::Text(n) => ("Text", format!("{n:?}")),
            ByHand::End => ("End", String::new()),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Kind {
    Num(u64),
    Text(String),
    Text2(String),
    Nothing,
    Rich(Box<Rich>),
    Floats(u32, u64),
    Bytes(u16, Vec<u8>),
    Unknown([u8; 16], Vec<u8>),
}

impl Kind {
    fn uuid(&self) -> [u8; 16] {
        match self {
            Kind::Num(_) => Num::UUID,
            Kind::Text(_) => Text::UUID,
            Kind::Text2(_) => Text2::UUID,
            Kind::Nothing => Nothing::UUID,
            Kind::Rich(_) => Rich::UUID,
            Kind::Floats(..) => Floats::UUID,
            Kind::Bytes(..) => BytesMessage::UUID,
            Kind::Unknown(u, _) => *u,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Kind::Num(_) => "Num",
            Kind::Text(_) => "Text",
            Kind::Text2(_) => "Text2",
            Kind::Nothing => "Nothing",
            Kind::Rich(_) => "Rich",
            Kind::Floats(..) => "Floats",
            Kind::Bytes(..) => "BytesMessage",
            Kind::Unknown(..) => "unknown",
        }
    }
    fn shown(&self) -> String {
        match self {
            Kind::Num(n) => format!("{:?}", Num(*n)),
            Kind::Text(n) => format!("{:?}", Text(n.clone())),
            Kind::Text2(n) => format!("{:?}", Text2(n.clone())),
            Kind::Nothing => format!("{Nothing:?}"),
            Kind::Rich(r) => format!("{r:?}"),
            Kind::Floats(a, b) => format!("{:?}", Floats(f32::from_bits(*a), f64::from_bits(*b))),
            Kind::Bytes(f, d) => format!("{:?}", BytesMessage { format: *f, data: d.clone() }),
            Kind::Unknown(..) => String::new(),
        }
    }
    fn encoded(&self) -> Vec<u8> {
        match self {
            Kind::Num(n) => ipmb::encode(Num(*n)),
            Kind::Text(n) => ipmb::encode(Text(n.clone())),
            Kind::Text2(n) => ipmb::encode(Text2(n.clone())),
            Kind::Nothing => ipmb::encode(Nothing),
            Kind::Rich(r) => ipmb::encode(r),
            Kind::Floats(a, b) => ipmb::encode(Floats(f32::from_bits(*a), f64::from_bits(*b))),
            Kind::Bytes(f, d) => ipmb::encode(BytesMessage { format: *f, data: d.clone() }),
            Kind::Unknown(_, d) => Ok(d.clone()),
        }
        .expect("encode")
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Typed {
    from: u8,
    kind: Kind,
    /// Cut the encoding to this fraction (of 65536)
    cut: Option<u16>,
    uni_to: Option<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TypesCase {
    boxes: Vec<u8>,
    msgs: Vec<Typed>,
    /// How the endpoints receive
    #[serde(default)]
    modes: Vec<u8>,
}

pub struct Types;

enum Got {
    Val(&'static str, String),
    Decode,
    End,
    Bad(String),
}

trait Receiver {
    fn events(&self, end: &mut dyn FnMut(usize) -> bool) -> Option<Vec<Got>>;
    fn types(&self) -> &'static [&'static str];
    fn stop_soon(&self);
    fn wake(&self, tx: &ipmb::EndpointSender<Forged>, label: &str);
    fn end(&self) -> Forged;
}

impl<R: MessageBox + Shown> Receiver for Reader<R> {
    fn events(&self, end: &mut dyn FnMut(usize) -> bool) -> Option<Vec<Got>> {
        self.wait(PATIENCE, |q| {
            let n = q.iter().filter(|e| matches!(e, Event::Msg(m) if m.payload.show().0 == "End")).count();
            end(n).then_some(())
        })?;
        Some(
            self.take()
                .into_iter()
                .map(|e| match e {
                    Event::Msg(m) => match m.payload.show() {
                        ("End", _) => Got::End,
                        (t, v) => Got::Val(t, v),
                    },
                    Event::Decode(_) => Got::Decode,
                    Event::Error(e) => Got::Bad(e),
                })
                .collect(),
        )
    }
    fn types(&self) -> &'static [&'static str] {
        R::TYPES
    }
    fn stop_soon(&self) {
        Reader::stop_soon(self)
    }
    fn wake(&self, tx: &ipmb::EndpointSender<Forged>, label: &str) {
        Reader::wake(self, || {
            let _ = tx.send(Message::new(Selector::unicast(label), R::end()));
        })
    }
    fn end(&self) -> Forged {
        R::end()
    }
}

impl Types {
    fn open(id: &str, i: usize, kind: u8, mode: Mode) -> Res<(ipmb::EndpointSender<Forged>, Box<dyn Receiver>)> {
        let l = [format!("e{i}")];
        fn go<R: MessageBox + Shown>(id: &str, l: &[String], host: bool, mode: Mode) -> Res<(ipmb::EndpointSender<Forged>, Box<dyn Receiver>)> {
            let (tx, rx) = join::<Forged, R>(id, l, host)?;
            Ok((tx, Box::new(Reader::spawn_as(rx, mode, |_| false))))
        }
        let h = i == 0;
        match kind % 10 {
            0 => go::<BoxA>(id, &l, h, mode),
            1 => go::<BoxB>(id, &l, h, mode),
            2 => go::<BoxC>(id, &l, h, mode),
            3 => go::<BoxD>(id, &l, h, mode),
            4 => go::<BoxE>(id, &l, h, mode),
            5 => go::<BoxF>(id, &l, h, mode),
            6 => go::<Num>(id, &l, h, mode),
            7 => go::<Text2>(id, &l, h, mode),
            8 => go::<BytesMessage>(id, &l, h, mode),
            _ => go::<ByHand>(id, &l, h, mode),
        }
    }
}

impl Prop for Types {
    const ID: &'static str = "C13";
    const RULE: &'static str = "2..5 endpoints, each receiving (with or without time limit) one of six enums derived with MessageBox (overlapping types in different orders) or one of three types without enum, or an enum with an implementation by hand that reports errors of any kind, get random messages of seven types and of unknown types (also differing from a known type in one bit), whole or cut short, unicast and multicast; each endpoint must receive exactly the whole messages of its types with equal value and variant, a decode error for each message of its types that was cut short, in order, and nothing else; non-trivial: some endpoint skipped a message of a type it does not list and received a later one";
    type Case = TypesCase;
    const CASES: (usize, usize) = (9000, 200_000);

    fn strategy(_t: bool) -> BoxedStrategy<TypesCase> {
        let near = (prop::sample::select(vec![Num::UUID, Text::UUID, Text2::UUID, BytesMessage::UUID, Nothing::UUID]), 0u8..128).prop_map(|(mut u, bit)| {
            u[bit as usize / 8] ^= 1 << (bit % 8);
            u
        });
        let kind = prop_oneof![
            3 => edge_u64().prop_map(Kind::Num),
            3 => text().prop_map(Kind::Text),
            3 => text().prop_map(Kind::Text2),
            2 => Just(Kind::Nothing),
            2 => rich().prop_map(|r| Kind::Rich(Box::new(r))),
            1 => (any::<u32>(), any::<u64>()).prop_map(|(a, b)| Kind::Floats(a, b)),
            2 => (any::<u16>(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(a, b)| Kind::Bytes(a, b)),
            2 => (prop_oneof![near, any::<[u8; 16]>(), Just([0u8; 16])], prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(a, b)| Kind::Unknown(a, b)),
        ];
        let msg = (any::<u8>(), kind, prop::option::weighted(0.2, any::<u16>()), prop::option::weighted(0.4, any::<u8>()))
            .prop_map(|(from, kind, cut, uni_to)| Typed { from, kind, cut, uni_to });
        (prop::collection::vec(0u8..10, 2..5), prop::collection::vec(msg, 1..20), bus::modes_strategy())
            .prop_map(|(boxes, msgs, modes)| TypesCase { boxes, msgs, modes })
            .boxed()
    }

    fn run(case: &TypesCase, cx: &mut Cx) -> Res {
        if case.boxes.is_empty() {
            return Ok(());
        }
        let id = fresh_identifier();
        let mut eps = vec![];
        for (i, k) in case.boxes.iter().enumerate() {
            eps.push(Self::open(&id, i, *k, Mode::of(&case.modes, i))?);
        }
        let n = eps.len();
        // per endpoint and sender: expected events
        let mut due: Vec<Vec<(usize, Option<(&'static str, String)>)>> = vec![vec![]; n];
        let mut skipped = vec![false; n];
        for t in &case.msgs {
            let from = t.from as usize % n;
            if let Kind::Unknown(u, _) = &t.kind {
                let known = [Num::UUID, Text::UUID, Text2::UUID, Nothing::UUID, Rich::UUID, Floats::UUID, BytesMessage::UUID, End::UUID];
                if known.contains(u) {
                    continue;
                }
            }
            let mut data = t.kind.encoded();
            let mut cut = false;
            if let Some(c) = t.cut {
                let l = data.len() * c as usize / 65536;
                cut = l < data.len();
                data.truncate(l);
            }
            let (sel, to): (_, Vec<usize>) = match t.uni_to {
                Some(u) => {
                    let e = u as usize % n;
                    (Selector::unicast(format!("e{e}")), vec![e])
                }
                None => (Selector::multicast(LabelOp::True), (0..n).collect()),
            };
            if let Err(e) = eps[from].0.send(Message::new(sel, Forged { uuid: t.kind.uuid(), data })) {
                fail!("send: {e}");
            }
            for e in to {
                if eps[e].1.types().contains(&t.kind.name()) {
                    due[e].push((from, if cut { None } else { Some((t.kind.name(), t.kind.shown())) }));
                    if skipped[e] {
                        cx.nontrivial = true;
                    }
                    cx.class(if cut { "cut short" } else { "expected" });
                } else {
                    skipped[e] = true;
                    cx.class("skipped");
                }
            }
        }
        for (tx, _) in &eps {
            for (i, (_, r)) in eps.iter().enumerate() {
                if let Err(e) = tx.send(Message::new(Selector::unicast(format!("e{i}")), r.end())) {
                    fail!("send: {e}");
                }
            }
        }
        for (i, (_, r)) in eps.iter().enumerate() {
            let Some(ev) = r.events(&mut |k| k >= n) else {
                return Err(Bad::Slow(format!("endpoint {i} did not receive the last messages")));
            };
            let mut seen = vec![];
            for g in ev {
                match g {
                    Got::End => {}
                    Got::Bad(e) => fail!("endpoint {i}: {e}"),
                    Got::Decode => seen.push(None),
                    Got::Val(t, v) => seen.push(Some((t, v))),
                }
            }
            // must be an interleaving of what the senders sent
            let lanes: Vec<Vec<_>> = (0..n).map(|f| due[i].iter().filter(|(x, _)| *x == f).map(|(_, v)| v).collect()).collect();
            let mut states: HashSet<Vec<usize>> = [vec![0; n]].into();
            for (k, s) in seen.iter().enumerate() {
                let mut next = HashSet::new();
                for st in &states {
                    for f in 0..n {
                        if lanes[f].get(st[f]).is_some_and(|v| *v == s) {
                            let mut st = st.clone();
                            st[f] += 1;
                            next.insert(st);
                        }
                    }
                }
                ensure!(!next.is_empty(), "endpoint {i} ({:?}): event {k} of {seen:?} is unexpected, sent were {lanes:?}", r.types());
                states = next;
            }
            let all: Vec<usize> = lanes.iter().map(|l| l.len()).collect();
            ensure!(states.contains(&all), "endpoint {i} ({:?}) got {seen:?}, sent were {lanes:?}", r.types());
        }
        for (_, r) in &eps {
            r.stop_soon();
        }
        for (i, (tx, r)) in eps.iter().enumerate() {
            cx.class_if(Mode::of(&case.modes, i).waits(), if i == 0 { "host receives without limit" } else { "endpoint receives without limit" });
            r.wake(tx, &format!("e{i}"));
        }
        while let Some(e) = eps.pop() {
            drop(e);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C24

pub struct Codec;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum CodecCase {
    Round(Box<Rich>, bus::Expr, Vec<String>, u16, Vec<u8>),
    /// Arbitrary bytes
    Raw(Vec<u8>),
    /// Valid encoding with modifications (position, value)
    Edited(Box<Rich>, Vec<(u16, u8)>, Option<u16>),
    EditedSelector(bus::Expr, Vec<(u16, u8)>, Option<u16>),
    /// Nested operators: a byte repeated and a tail
    Nest(u8, u32, Vec<u8>),
    /// A length claim in front of bytes
    Claim(u8, u64, Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Borrowed<'a> {
    #[serde(borrow)]
    s: &'a str,
    #[serde(borrow, with = "serde_bytes")]
    b: &'a [u8],
}

/// (name, decoded) of every type for given bytes, together with the re-encoding of what decoded
fn decode_all(data: &[u8]) -> Res<Vec<&'static str>> {
    let mut ok = vec![];
    macro_rules! t {
        ($($t:ty),*) => { $(
            let before = crate::alloc::reset_peak();
            let r = ipmb::decode::<$t>(data);
            let used = crate::alloc::peak().saturating_sub(before);
            // the decoder is allowed to believe a length of up to 1 GiB
            ensure!(used < (11 << 27), "decoding {} bytes as {} reserved {used} bytes", data.len(), stringify!($t));
            if let Ok(v) = r {
                ok.push(stringify!($t));
                let again = match ipmb::encode(&v) {
                    Ok(b) => b,
                    Err(e) => fail!("can't encode what was decoded as {}: {e}", stringify!($t)),
                };
                ensure!(ipmb::decode::<$t>(&again).is_ok(), "encoding of a decoded {} can't be decoded", stringify!($t));
            }
        )* };
    }
    t!(Rich, Variant, BytesMessage, ipmb::LabelOp, ipmb::Label, Selector, Floats, Nothing, Num, Text, Borrowed, String, Vec<Vec<u8>>, BTreeMap<String, u64>, Option<Box<(u8, Vec<u16>)>>, Vec<ipmb::Label>, char, bool, Duration, [u8; 16], ());
    Ok(ok)
}

impl Prop for Codec {
    const ID: &'static str = "C24";
    const RULE: &'static str = "random structured values, expressions, labels and byte messages round-tripped (equal value, every strict prefix of the encoding refused); and hostile bytes decoded as 21 types: arbitrary bytes, valid encodings with bytes changed or cut, operator bytes repeated up to 3 million times, huge length claims; non-trivial: a round trip, or bytes which at least one type accepts and one refuses";
    type Case = CodecCase;
    const CASES: (usize, usize) = (300_000, 10_000_000);
    const RECYCLE: usize = 100_000;

    fn strategy(_t: bool) -> BoxedStrategy<CodecCase> {
        let expr = || bus::expr_strategy(bus::name_strategy(), 5);
        let edits = || prop::collection::vec((any::<u16>(), prop_oneof![any::<u8>(), 250u8..=255]), 0..4);
        prop_oneof![
            4 => (rich(), expr(), prop::collection::vec("\\PC{0,8}", 0..12), any::<u16>(), prop::collection::vec(any::<u8>(), 0..300))
                .prop_map(|(r, e, l, f, d)| CodecCase::Round(Box::new(r), e, l, f, d)),
            3 => prop::collection::vec(prop_oneof![2 => any::<u8>(), 1 => 0u8..6, 1 => 250u8..=255], 0..60).prop_map(CodecCase::Raw),
            3 => (rich(), edits(), prop::option::of(any::<u16>())).prop_map(|(r, e, c)| CodecCase::Edited(Box::new(r), e, c)),
            2 => (expr(), edits(), prop::option::of(any::<u16>())).prop_map(|(r, e, c)| CodecCase::EditedSelector(r, e, c)),
            1 => (0u8..6, prop_oneof![0u32..3000, 0u32..120_000, Just(3_000_000u32)], prop::collection::vec(0u8..6, 0..8)).prop_map(|(b, n, t)| CodecCase::Nest(b, n, t)),
            1 => (prop::sample::select(vec![251u8, 252, 253, 254]), edge_u64(), prop::collection::vec(any::<u8>(), 0..30)).prop_map(|(k, n, t)| CodecCase::Claim(k, n, t)),
        ]
        .boxed()
    }

    fn run(case: &CodecCase, cx: &mut Cx) -> Res {
        fn edited(mut v: Vec<u8>, edits: &[(u16, u8)], cut: Option<u16>) -> Vec<u8> {
            for (p, b) in edits {
                if !v.is_empty() {
                    let i = *p as usize * v.len() / 65536;
                    v[i] = *b;
                }
            }
            if let Some(c) = cut {
                v.truncate(v.len() * c as usize / 65536);
            }
            v
        }
        fn enc<T: Serialize>(t: &T) -> Res<Vec<u8>> {
            ipmb::encode(t).map_err(|e| Bad::Fail(format!("encode: {e}")))
        }
        let data = match case {
            CodecCase::Round(r, e, l, f, d) => {
                cx.class("round trip");
                cx.nontrivial = true;
                let v = enc(r)?;
                match ipmb::decode::<Rich>(&v) {
                    Ok(x) => ensure!(x == **r, "decoded {x:?} instead of {r:?}"),
                    Err(e) => fail!("decode of {r:?}: {e}"),
                }
                prefixes::<Rich>(&v)?;
                let b = BytesMessage { format: *f, data: d.clone() };
                let v = enc(&b)?;
                match ipmb::decode::<BytesMessage>(&v) {
                    Ok(x) => ensure!(x.format == *f && x.data == *d, "decoded {x:?} instead of {b:?}"),
                    Err(e) => fail!("decode of {b:?}: {e}"),
                }
                prefixes::<BytesMessage>(&v)?;
                let op = e.op();
                let v = enc(&op)?;
                match ipmb::decode::<LabelOp>(&v) {
                    Ok(x) => ensure!(format!("{x:?}") == format!("{op:?}"), "decoded {x:?} instead of {op:?}"),
                    Err(e) => fail!("decode of {op:?}: {e}"),
                }
                prefixes::<LabelOp>(&v)?;
                let label = ipmb::Label::from(l);
                let v = enc(&label)?;
                match ipmb::decode::<ipmb::Label>(&v) {
                    Ok(x) => ensure!(x == label, "decoded {x:?} instead of {label:?}"),
                    Err(e) => fail!("decode of {label:?}: {e}"),
                }
                prefixes::<ipmb::Label>(&v)?;
                for (mode, ttl) in [(true, Duration::MAX), (false, Duration::from_nanos(*f as u64 * 0x1_0001_0001))] {
                    let mut s = if mode { Selector::unicast(e.op()) } else { Selector::multicast(e.op()) };
                    s.ttl = ttl;
                    let v = enc(&s)?;
                    match ipmb::decode::<Selector>(&v) {
                        Ok(x) => ensure!(
                            x.ttl == ttl && x.mode == s.mode && format!("{:?}", x.label_op) == format!("{op:?}"),
                            "decoded {x:?} instead of {s:?}"
                        ),
                        Err(e) => fail!("decode of {s:?}: {e}"),
                    }
                    prefixes::<Selector>(&v)?;
                }
                macro_rules! round {
                    ($t:ty, $v:expr) => {{
                        let v: $t = $v;
                        let e = enc(&v)?;
                        match ipmb::decode::<$t>(&e) {
                            Ok(x) => ensure!(format!("{x:?}") == format!("{v:?}"), "decoded {x:?} instead of {v:?}"),
                            Err(e) => fail!("decode of {v:?} ({}): {e}", stringify!($t)),
                        }
                        prefixes::<$t>(&e)?;
                    }};
                }
                let units = vec![(); *f as usize % 50];
                round!((), ());
                round!(Nothing, Nothing);
                round!([(); 3], [(); 3]);
                round!(((), Nothing), ((), Nothing));
                round!(std::marker::PhantomData<u8>, std::marker::PhantomData);
                round!(Vec<()>, units);
                round!(Option<()>, (f % 2 == 0).then_some(()));
                round!(Option<Option<Nothing>>, [None, Some(None), Some(Some(Nothing))][*f as usize % 3].clone());
                round!(Result<(), Nothing>, if f % 2 == 0 { Ok(()) } else { Err(Nothing) });
                round!(Floats, Floats(f32::from_bits(r.f.0), f64::from_bits(r.f.1)));
                round!(Num, Num(r.u.3));
                round!(Text, Text(r.s.clone()));
                round!(Borrowed, Borrowed { s: &r.s, b: d });
                round!(Vec<ipmb::Label>, l.iter().map(|n| ipmb::Label::from([n.as_str()])).collect());
                round!(BTreeMap<String, Vec<u8>>, r.m.clone());
                round!(Duration, Duration::new(r.u.3, r.u.2 % 1_000_000_000));
                round!((u128, i128), r.w);
                round!(char, r.c);
                // what follows a complete value doesn't matter
                let mut v = enc(r)?;
                v.extend_from_slice(d);
                v
            }
            CodecCase::Raw(v) => v.clone(),
            CodecCase::Edited(r, e, c) => {
                cx.class("edited value");
                edited(enc(r)?, e, *c)
            }
            CodecCase::EditedSelector(x, e, c) => {
                cx.class("edited selector");
                edited(enc(&Selector::multicast(x.op()))?, e, *c)
            }
            CodecCase::Nest(b, n, t) => {
                cx.class("nested");
                let mut v = vec![*b; *n as usize];
                v.extend_from_slice(t);
                v
            }
            CodecCase::Claim(k, n, t) => {
                cx.class("claimed length");
                let mut v = vec![*k];
                match k {
                    251 => v.extend_from_slice(&(*n as u16).to_le_bytes()),
                    252 => v.extend_from_slice(&(*n as u32).to_le_bytes()),
                    253 => v.extend_from_slice(&n.to_le_bytes()),
                    _ => v.extend_from_slice(&(*n as u128).to_le_bytes()),
                }
                v.extend_from_slice(t);
                v
            }
        };
        let ok = decode_all(&data)?;
        for t in ["()", "Nothing"] {
            ensure!(ok.contains(&t), "{} bytes are refused as {t}, which has no content", data.len());
        }
        if !matches!(case, CodecCase::Round(..)) {
            cx.nontrivial = !ok.is_empty() && ok.iter().any(|t| *t != "()" && *t != "Nothing");
            cx.class_if(ok.contains(&"ipmb::LabelOp"), "accepted as expression");
            cx.class_if(ok.contains(&"Rich"), "accepted as structure");
        }
        Ok(())
    }
}

fn prefixes<'a, T: Deserialize<'a>>(v: &'a [u8]) -> Res {
    let step = (v.len() / 64).max(1);
    for n in (0..v.len()).rev().step_by(step) {
        ensure!(ipmb::decode::<T>(&v[..n]).is_err(), "{n} of {} bytes were accepted as complete {}", v.len(), std::any::type_name::<T>());
    }
    Ok(())
}

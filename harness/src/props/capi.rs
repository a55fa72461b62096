//! C20: the C API, and the C++ classes around it.

use crate::{
    alloc,
    bus::{body, expr_strategy, fresh_identifier, label_strategy, name_strategy, Bad, Event, Expr, Reader, Res, PATIENCE},
    def::{Cx, Prop},
    ensure, fail,
    interpose::{self, real_now},
    props::objects::{new_object, obj_kind, ObjKind},
    raw,
};
use ipmb::{BytesMessage, Label, LabelOp, MemoryRegion, MemoryRegistry, SelectorMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    ffi::{c_char, c_void, CString},
    os::fd::AsRawFd,
    ptr::{null, null_mut},
    rc::Rc,
    thread,
    time::Duration,
};
use type_uuid::TypeUuid;

use vh_ffi as _;

type H = *mut c_void;
const INFINITE: u32 = !0;
const SUCCESS: i32 = 0;
const UNKNOWN: i32 = -1;
const TIMEOUT: i32 = -2;
const DECODE: i32 = -3;
const VERSION: i32 = -4;
const TOKEN: i32 = -5;

#[repr(C)]
#[derive(Clone, Copy)]
struct FfiOptions {
    identifier: *const c_char,
    label: *const H,
    token: *const c_char,
    affinity: bool,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct FfiSelector {
    op: *const H,
    mode: i32,
    ttl: u32,
}

// as in ipmb_ffi.h
extern "C" {
    fn ipmb_rstring_data(s: *const H, p: *mut *const c_char, n: *mut usize);
    fn ipmb_rstring_drop(s: H);
    fn ipmb_version(major: *mut u8, minor: *mut u8, patch: *mut u8);
    fn ipmb_version_pre() -> H;
    fn ipmb_join(o: FfiOptions, timeout: u32, tx: *mut H, rx: *mut H) -> i32;
    fn ipmb_sender_drop(s: H);
    fn ipmb_send(s: *mut H, m: H) -> i32;
    fn ipmb_receiver_drop(r: H);
    fn ipmb_recv(r: *mut H, m: *mut H, timeout: u32) -> i32;
    fn ipmb_memory_registry() -> H;
    fn ipmb_memory_registry_drop(r: H);
    fn ipmb_memory_registry_alloc(r: *mut H, size: usize, tag: *const c_char, out: *mut H) -> i32;
    fn ipmb_memory_registry_alloc_with_free(r: *mut H, size: usize, tag: *const c_char, cx: *mut c_void, f: Option<extern "C" fn(*mut c_void)>, out: *mut H) -> i32;
    fn ipmb_memory_registry_maintain(r: *mut H);
    fn ipmb_message(s: FfiSelector, format: u16, p: *const u8, n: u32) -> H;
    fn ipmb_message_drop(m: H);
    fn ipmb_message_bytes_data(m: *const H, format: *mut u16, p: *mut *const u8, n: *mut u32);
    fn ipmb_message_object_append(m: *mut H, o: u64);
    fn ipmb_message_object_retrieve(m: *mut H, i: usize) -> u64;
    fn ipmb_message_object_get(m: *const H, i: usize) -> u64;
    fn ipmb_object_drop(o: u64);
    fn ipmb_message_memory_region_append(m: *mut H, r: H);
    fn ipmb_message_memory_region_retrieve(m: *mut H, i: usize) -> H;
    fn ipmb_message_memory_region_get(m: *mut H, i: usize) -> H;
    fn ipmb_memory_region(size: usize, out: *mut H) -> i32;
    fn ipmb_memory_region_drop(r: H);
    fn ipmb_memory_region_map(r: *mut H, offset: usize, size: isize, real: *mut isize) -> *mut u8;
    fn ipmb_memory_region_ref_count(r: *const H) -> u32;
    fn ipmb_memory_region_clone(r: *const H, out: *mut H) -> i32;
    fn ipmb_label() -> H;
    fn ipmb_label_drop(l: H);
    fn ipmb_label_insert(l: *mut H, s: *const c_char);
    fn ipmb_label_op_bool(v: bool) -> H;
    fn ipmb_label_op_leaf(s: *const c_char) -> H;
    fn ipmb_label_op_drop(o: H);
    fn ipmb_label_op_not(a: H) -> H;
    fn ipmb_label_op_and(a: H, b: H) -> H;
    fn ipmb_label_op_or(a: H, b: H) -> H;
}

#[cfg(not(no_cpp))]
mod cpp {
    use super::{c_char, c_void, H};
    extern "C" {
        pub fn cpp_live() -> i64;
        pub fn cpp_version(major: *mut u8, minor: *mut u8, patch: *mut u8, pre: *mut c_char, cap: usize);
        pub fn cpp_label(names: *const *const c_char, n: usize) -> H;
        pub fn cpp_label_drop(l: H);
        pub fn cpp_op_bool(v: bool) -> H;
        pub fn cpp_op_leaf(s: *const c_char, string: bool) -> H;
        pub fn cpp_op_not(a: H) -> H;
        pub fn cpp_op_and(a: H, b: H) -> H;
        pub fn cpp_op_or(a: H, b: H) -> H;
        pub fn cpp_op_drop(a: H);
        pub fn cpp_selector(op: H, mode: i32, ttl: u32) -> H;
        pub fn cpp_selector_swap(s: H, op: H, mode: i32, ttl: u32);
        pub fn cpp_selector_drop(s: H);
        pub fn cpp_options(identifier: *const c_char, label: H, token: *const c_char, affinity: bool, assign: bool) -> H;
        pub fn cpp_options_drop(o: H);
        pub fn cpp_join(o: H, timeout: u32, tx: *mut H, rx: *mut H) -> i32;
        pub fn cpp_sender_drop(s: H);
        pub fn cpp_receiver_drop(r: H);
        pub fn cpp_send(s: H, m: H) -> i32;
        pub fn cpp_recv(r: H, m: *mut H, timeout: u32) -> i32;
        pub fn cpp_message(s: H, format: u16, p: *const u8, n: u32) -> H;
        pub fn cpp_message_drop(m: H);
        pub fn cpp_message_bytes(m: H, format: *mut u16, p: *mut *const u8, n: *mut u32);
        pub fn cpp_object_append(m: H, o: u64);
        pub fn cpp_object_retrieve(m: H, i: usize) -> u64;
        pub fn cpp_object_get(m: H, i: usize) -> u64;
        pub fn cpp_region_append(m: H, r: H);
        pub fn cpp_region_retrieve(m: H, i: usize) -> H;
        pub fn cpp_region(size: usize, out: *mut H) -> i32;
        pub fn cpp_region_drop(r: H);
        pub fn cpp_region_map(r: H, offset: usize, size: isize, real: *mut isize) -> *mut u8;
        pub fn cpp_region_count(r: H) -> u32;
        pub fn cpp_region_clone(r: H, out: *mut H) -> i32;
        pub fn cpp_registry() -> H;
        pub fn cpp_registry_drop(r: H);
        pub fn cpp_registry_alloc(r: H, size: usize, tag: *const c_char, cx: *mut c_void, f: Option<extern "C" fn(*mut c_void)>, out: *mut H) -> i32;
        pub fn cpp_registry_maintain(r: H);
    }
}

/// Either of the two interfaces; a handle is a value of the C API or a pointer to a C++ object
#[derive(Clone, Copy, PartialEq)]
enum Api {
    C,
    #[cfg(not(no_cpp))]
    Cpp,
}

macro_rules! both {
    ($s:expr, $c:expr, $cpp:expr) => {
        unsafe {
            match $s {
                Api::C => $c,
                #[cfg(not(no_cpp))]
                Api::Cpp => $cpp,
            }
        }
    };
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap_or_default()
}

#[repr(C)]
struct CSel {
    op: H,
    mode: i32,
    ttl: u32,
}

struct COpt {
    identifier: CString,
    token: CString,
    label: H,
    affinity: bool,
}

impl Api {
    fn of(cpp: bool) -> Self {
        #[cfg(not(no_cpp))]
        if cpp {
            return Api::Cpp;
        }
        let _ = cpp;
        Api::C
    }

    fn live(self) -> i64 {
        both!(self, 0, cpp::cpp_live())
    }

    fn label(self, names: &[String]) -> H {
        let names: Vec<CString> = names.iter().map(|s| cs(s)).collect();
        both!(
            self,
            {
                let mut l = ipmb_label();
                for n in &names {
                    ipmb_label_insert(&mut l, n.as_ptr());
                }
                l
            },
            {
                let p: Vec<*const c_char> = names.iter().map(|n| n.as_ptr()).collect();
                cpp::cpp_label(p.as_ptr(), p.len())
            }
        )
    }

    fn label_drop(self, l: H) {
        both!(self, ipmb_label_drop(l), cpp::cpp_label_drop(l))
    }

    fn op(self, e: &Expr) -> H {
        match e {
            Expr::T => both!(self, ipmb_label_op_bool(true), cpp::cpp_op_bool(true)),
            Expr::F => both!(self, ipmb_label_op_bool(false), cpp::cpp_op_bool(false)),
            Expr::L(s) => {
                let n = cs(s);
                both!(self, ipmb_label_op_leaf(n.as_ptr()), cpp::cpp_op_leaf(n.as_ptr(), s.len() % 2 == 0))
            }
            Expr::N(a) => {
                let a = self.op(a);
                both!(self, ipmb_label_op_not(a), cpp::cpp_op_not(a))
            }
            Expr::A(a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                both!(self, ipmb_label_op_and(a, b), cpp::cpp_op_and(a, b))
            }
            Expr::O(a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                both!(self, ipmb_label_op_or(a, b), cpp::cpp_op_or(a, b))
            }
        }
    }

    fn op_drop(self, o: H) {
        both!(self, ipmb_label_op_drop(o), cpp::cpp_op_drop(o))
    }

    /// Takes the operation
    fn selector(self, op: H, uni: bool, ttl: u32) -> H {
        let mode = i32::from(!uni);
        both!(self, Box::into_raw(Box::new(CSel { op, mode, ttl })) as H, cpp::cpp_selector(op, mode, ttl))
    }

    /// Exchanges the operation for another one
    fn selector_swap(self, s: H, op: H, uni: bool, ttl: u32) -> H {
        let mode = i32::from(!uni);
        let mut op = op;
        both!(
            self,
            {
                let b = &mut *(s as *mut CSel);
                std::mem::swap(&mut b.op, &mut op);
                (b.mode, b.ttl) = (mode, ttl);
            },
            cpp::cpp_selector_swap(s, op, mode, ttl)
        );
        op
    }

    fn selector_drop(self, s: H) {
        both!(
            self,
            {
                let b = Box::from_raw(s as *mut CSel);
                ipmb_label_op_drop(b.op)
            },
            cpp::cpp_selector_drop(s)
        )
    }

    /// Takes the label
    fn options(self, identifier: CString, label: H, token: CString, affinity: bool, assign: bool) -> H {
        let _ = assign;
        both!(self, Box::into_raw(Box::new(COpt { identifier, token, label, affinity })) as H, cpp::cpp_options(identifier.as_ptr(), label, token.as_ptr(), affinity, assign))
    }

    fn options_drop(self, o: H) {
        both!(
            self,
            {
                let b = Box::from_raw(o as *mut COpt);
                ipmb_label_drop(b.label)
            },
            cpp::cpp_options_drop(o)
        )
    }

    fn join(self, o: H, timeout: u32, want_tx: bool, want_rx: bool) -> (i32, H, H) {
        let (mut tx, mut rx): (H, H) = (null_mut(), null_mut());
        let ptx: *mut H = if want_tx { &mut tx } else { null_mut() };
        let prx: *mut H = if want_rx { &mut rx } else { null_mut() };
        let code = both!(
            self,
            {
                let b = &*(o as *const COpt);
                ipmb_join(FfiOptions { identifier: b.identifier.as_ptr(), label: &b.label, token: b.token.as_ptr(), affinity: b.affinity }, timeout, ptx, prx)
            },
            cpp::cpp_join(o, timeout, ptx, prx)
        );
        (code, tx, rx)
    }

    fn sender_drop(self, s: H) {
        both!(self, ipmb_sender_drop(s), cpp::cpp_sender_drop(s))
    }

    fn receiver_drop(self, r: H) {
        both!(self, ipmb_receiver_drop(r), cpp::cpp_receiver_drop(r))
    }

    /// Takes the message
    fn send(self, mut s: H, m: H) -> i32 {
        both!(self, ipmb_send(&mut s, m), cpp::cpp_send(s, m))
    }

    fn recv(self, mut r: H, timeout: u32) -> (i32, H) {
        let mut m = null_mut();
        let code = both!(self, ipmb_recv(&mut r, &mut m, timeout), cpp::cpp_recv(r, &mut m, timeout));
        (code, m)
    }

    fn message(self, s: H, format: u16, data: &[u8]) -> H {
        let p = if data.is_empty() { null() } else { data.as_ptr() };
        let n = data.len() as u32;
        both!(
            self,
            {
                let b = &*(s as *const CSel);
                ipmb_message(FfiSelector { op: &b.op, mode: b.mode, ttl: b.ttl }, format, p, n)
            },
            cpp::cpp_message(s, format, p, n)
        )
    }

    fn message_drop(self, m: H) {
        both!(self, ipmb_message_drop(m), cpp::cpp_message_drop(m))
    }

    fn bytes(self, m: &H) -> (u16, Vec<u8>) {
        let (mut f, mut p, mut n) = (0, null(), 0);
        both!(self, ipmb_message_bytes_data(m, &mut f, &mut p, &mut n), cpp::cpp_message_bytes(*m, &mut f, &mut p, &mut n));
        (f, if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec() })
    }

    fn object_append(self, mut m: H, o: u64) {
        both!(self, ipmb_message_object_append(&mut m, o), cpp::cpp_object_append(m, o))
    }

    fn object_get(self, m: H, i: usize) -> u64 {
        both!(self, ipmb_message_object_get(&m, i), cpp::cpp_object_get(m, i))
    }

    fn object_retrieve(self, mut m: H, i: usize) -> u64 {
        both!(self, ipmb_message_object_retrieve(&mut m, i), cpp::cpp_object_retrieve(m, i))
    }

    fn region_append(self, mut m: H, r: H) {
        both!(self, ipmb_message_memory_region_append(&mut m, r), cpp::cpp_region_append(m, r))
    }

    /// Only in the C API
    fn region_get(self, mut m: H, i: usize) -> Option<H> {
        (self == Api::C).then(|| unsafe { ipmb_message_memory_region_get(&mut m, i) })
    }

    fn region_retrieve(self, mut m: H, i: usize) -> H {
        both!(self, ipmb_message_memory_region_retrieve(&mut m, i), cpp::cpp_region_retrieve(m, i))
    }

    fn region(self, size: usize) -> (i32, H) {
        let mut r = null_mut();
        (both!(self, ipmb_memory_region(size, &mut r), cpp::cpp_region(size, &mut r)), r)
    }

    fn region_drop(self, r: H) {
        both!(self, ipmb_memory_region_drop(r), cpp::cpp_region_drop(r))
    }

    fn map(self, mut r: H, offset: usize, size: isize, tell: bool) -> (*mut u8, isize) {
        let mut real = -7;
        let p: *mut isize = if tell { &mut real } else { null_mut() };
        (both!(self, ipmb_memory_region_map(&mut r, offset, size, p), cpp::cpp_region_map(r, offset, size, p)), real)
    }

    fn count(self, r: H) -> u32 {
        both!(self, ipmb_memory_region_ref_count(&r), cpp::cpp_region_count(r))
    }

    fn region_clone(self, r: H) -> (i32, H) {
        let mut out = null_mut();
        (both!(self, ipmb_memory_region_clone(&r, &mut out), cpp::cpp_region_clone(r, &mut out)), out)
    }

    fn registry(self) -> H {
        both!(self, ipmb_memory_registry(), cpp::cpp_registry())
    }

    fn registry_drop(self, r: H) {
        both!(self, ipmb_memory_registry_drop(r), cpp::cpp_registry_drop(r))
    }

    fn registry_alloc(self, mut r: H, size: usize, tag: Option<&str>, cb: Option<usize>, null_cb: bool) -> (i32, H) {
        let tag = tag.map(cs);
        let tag = tag.as_ref().map_or(null(), |t| t.as_ptr());
        let mut out = null_mut();
        let code = both!(
            self,
            match cb {
                Some(id) => ipmb_memory_registry_alloc_with_free(&mut r, size, tag, id as *mut c_void, Some(called), &mut out),
                None if null_cb => ipmb_memory_registry_alloc_with_free(&mut r, size, tag, null_mut(), None, &mut out),
                None => ipmb_memory_registry_alloc(&mut r, size, tag, &mut out),
            },
            cpp::cpp_registry_alloc(r, size, tag, cb.unwrap_or(0) as *mut c_void, cb.map(|_| called as _), &mut out)
        );
        (code, out)
    }

    fn maintain(self, mut r: H) {
        both!(self, ipmb_memory_registry_maintain(&mut r), cpp::cpp_registry_maintain(r))
    }

    fn version(self) -> (u8, u8, u8, String) {
        let (mut a, mut b, mut c) = (0, 0, 0);
        both!(
            self,
            {
                ipmb_version(null_mut(), &mut b, null_mut());
                ipmb_version(&mut a, null_mut(), &mut c);
                let s = ipmb_version_pre();
                let (mut p, mut n) = (null(), 0);
                ipmb_rstring_data(&s, &mut p, &mut n);
                let pre = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned();
                ipmb_rstring_drop(s);
                (a, b, c, pre)
            },
            {
                let mut buf = [0u8; 64];
                cpp::cpp_version(&mut a, &mut b, &mut c, buf.as_mut_ptr() as _, buf.len());
                let n = buf.iter().position(|x| *x == 0).unwrap_or(0);
                (a, b, c, String::from_utf8_lossy(&buf[..n]).into_owned())
            }
        )
    }
}

thread_local! {
    static CALLED: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}

extern "C" fn called(id: *mut c_void) {
    CALLED.with(|c| {
        let mut c = c.borrow_mut();
        assert!(c.len() < c.capacity());
        c.push(id as usize)
    })
}

// ------------------------------------------------------------------ cases

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum VOp {
    Msg { format: u16, len: u32, expr: Expr, uni: bool, ttl: u32 },
    DropMsg { m: u8 },
    Bytes { m: u8 },
    ObjAppend { m: u8, kind: ObjKind },
    ObjGet { m: u8, i: u8 },
    ObjRetrieve { m: u8, i: u8 },
    Region { size: u64 },
    Clone { r: u8 },
    DropRegion { r: u8 },
    Write { r: u8, off: u16, val: u8 },
    Map { r: u8, off: u64, size: i64, tell: bool },
    RegAppend { m: u8, r: u8 },
    RegGet { m: u8, i: u8 },
    RegRetrieve { m: u8, i: u8 },
    Alloc { size: u64, tag: Option<String>, cb: bool, null_cb: bool },
    CloneAlloc { a: u8 },
    DropAlloc { a: u8 },
    Maintain,
    Renew,
    Advance { ms: u64 },
    Label { names: Vec<String> },
    Op { expr: Expr },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Spec {
    c: bool,
    cpp: bool,
    label: Vec<String>,
    /// Labels inserted once more
    again: bool,
    tx: bool,
    rx: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mail {
    from: u8,
    expr: Expr,
    uni: bool,
    format: u16,
    len: u32,
    objects: Vec<ObjKind>,
    regions: Vec<u16>,
    /// Messages from the same selector
    copies: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    Join(Spec),
    Leave(u8),
    Mail(Mail),
    /// A message for a label nobody has, which an endpoint joining `wait` ms later has
    Ttl { from: u8, ttl: u32, wait: u64, cpp: bool },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Code {
    WrongToken { host: bool },
    WrongVersion,
    JoinTimeout { ms: u32 },
    JoinForever { ms: u64 },
    RecvTimeout { ms: u32 },
    RecvForever { ms: u64 },
    RecvHuge { timeout: u32 },
    Malformed,
    Oversized { kb: u32 },
    NotUtf8 { token: bool },
    Affinity,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    Values { cpp: bool, ops: Vec<VOp> },
    Bus { token: String, steps: Vec<Step> },
    Codes { cpp: bool, code: Code },
}

pub struct Capi;

// ------------------------------------------------------------------ values

/// What an open descriptor refers to
fn ident(fd: i32) -> Option<(u64, u64)> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        (libc::fstat(fd, &mut st) == 0).then_some((st.st_dev, st.st_ino))
    }
}

struct Block {
    content: Vec<u8>,
    handles: usize,
}

struct ModelMsg {
    h: H,
    format: u16,
    data: Vec<u8>,
    objects: Vec<i32>,
    regions: Vec<usize>,
}

/// The same registry in Rust
#[derive(Default)]
struct Twin {
    registry: MemoryRegistry,
    called: Rc<RefCell<Vec<usize>>>,
}

struct Values<'a> {
    api: Api,
    cx: &'a mut Cx,
    blocks: Vec<Block>,
    regions: Vec<(H, usize)>,
    msgs: Vec<ModelMsg>,
    registry: H,
    twin: Twin,
    callbacks: usize,
    serial: u32,
    /// Handles of allocated regions and of those of the twin
    allocated: Vec<(H, MemoryRegion)>,
    /// Bytes held by what the API returned
    held: isize,
}

fn pick(i: u8, n: usize) -> Option<usize> {
    (n > 0).then(|| i as usize % n)
}

/// Small enough for any machine to give
const BIG: u64 = 1 << 24;

impl Values<'_> {
    fn call<T>(&mut self, f: impl FnOnce(Api) -> T) -> T {
        let n = alloc::held() as isize;
        let t = f(self.api);
        self.held += alloc::held() as isize - n;
        t
    }

    fn gone(&mut self, block: usize) {
        self.blocks[block].handles -= 1;
    }

    fn look(&mut self, h: H, block: usize, what: &str) -> Res {
        let api = self.api;
        let want = self.blocks[block].content.clone();
        let (p, n) = api.map(h, 0, -1, true);
        ensure!(!p.is_null() && n as usize == want.len(), "{what}: mapping all of {} bytes gave {n}", want.len());
        let got = unsafe { std::slice::from_raw_parts(p, n as usize) };
        ensure!(got == want, "{what}: the region has not the expected content");
        let c = api.count(h) as usize;
        let handles = self.blocks[block].handles;
        ensure!(c == handles, "{what}: reference count {c} instead of {handles}");
        Ok(())
    }

    /// The registry and its regions are as those in Rust
    fn agree(&self, what: &str) -> Res {
        let mut a = CALLED.with(|c| c.borrow().clone());
        let mut b = self.twin.called.borrow().clone();
        a.sort_unstable();
        b.sort_unstable();
        ensure!(a == b, "{what}: callbacks {a:?} were called instead of {b:?}");
        for (h, t) in &self.allocated {
            let (c, d) = (self.api.count(*h), t.ref_count());
            ensure!(c == d, "{what}: an allocated region has the count {c} instead of {d}");
        }
        Ok(())
    }

    fn step(&mut self, op: &VOp) -> Res {
        let api = self.api;
        match op {
            VOp::Msg { format, len, expr, uni, ttl } => {
                let data = body(*len as u64, *len as usize);
                let h = self.call(|a| {
                    let s = a.selector(a.op(expr), *uni, *ttl);
                    let h = a.message(s, *format, &data);
                    a.selector_drop(s);
                    h
                });
                self.msgs.push(ModelMsg { h, format: *format, data, objects: vec![], regions: vec![] });
            }
            VOp::DropMsg { m } => {
                let Some(i) = pick(*m, self.msgs.len()) else { return Ok(()) };
                let m = self.msgs.swap_remove(i);
                self.call(|a| a.message_drop(m.h));
                for fd in &m.objects {
                    ensure!(ident(*fd).is_none(), "the object {fd} outlives its message");
                }
                for r in m.regions {
                    self.gone(r);
                }
            }
            VOp::Bytes { m } => {
                let Some(i) = pick(*m, self.msgs.len()) else { return Ok(()) };
                let m = &self.msgs[i];
                let (f, d) = api.bytes(&m.h);
                ensure!(f == m.format && d == m.data, "a message of format {} and {} bytes has format {f} and {} bytes or different ones", m.format, m.data.len(), d.len());
            }
            VOp::ObjAppend { m, kind } => {
                let Some(i) = pick(*m, self.msgs.len()) else { return Ok(()) };
                let fd = new_object(*kind).into_raw();
                let h = self.msgs[i].h;
                self.call(|a| a.object_append(h, fd as u64));
                self.msgs[i].objects.push(fd);
            }
            VOp::ObjGet { m, i } | VOp::ObjRetrieve { m, i } => {
                let Some(mi) = pick(*m, self.msgs.len()) else { return Ok(()) };
                let take = matches!(op, VOp::ObjRetrieve { .. });
                let n = self.msgs[mi].objects.len();
                let i = *i as usize % (n + 2);
                let h = self.msgs[mi].h;
                let o = self.call(|a| if take { a.object_retrieve(h, i) } else { a.object_get(h, i) });
                let want = self.msgs[mi].objects.get(i).copied();
                ensure!(o == want.unwrap_or(0) as u64, "object {i} of {n} is {o} instead of {want:?} (retrieve: {take})");
                self.cx.class_if(want.is_none(), "object index out of range");
                if let Some(fd) = want {
                    ensure!(ident(fd).is_some(), "object {fd} is closed after being looked at (retrieve: {take})");
                    if take {
                        self.cx.class("object retrieved");
                        self.msgs[mi].objects.remove(i);
                        unsafe { ipmb_object_drop(o) };
                        ensure!(ident(fd).is_none(), "object {fd} is still open after being dropped");
                    }
                }
                for fd in &self.msgs[mi].objects {
                    ensure!(ident(*fd).is_some(), "object {fd} of a message was closed");
                }
            }
            VOp::Region { size } => {
                let (code, h) = self.call(|a| a.region(*size as usize));
                if code != SUCCESS {
                    ensure!(*size > BIG && code == UNKNOWN && h.is_null(), "a region of {size} bytes: {code}");
                    ensure!(MemoryRegion::new(*size as usize).is_none(), "a region of {size} bytes is possible, but not in C");
                    self.cx.class("region impossible");
                    return Ok(());
                }
                ensure!(!h.is_null(), "no region");
                if *size > BIG {
                    let mut t = MemoryRegion::new(*size as usize).ok_or(Bad::Skip("out of memory".into()))?;
                    let rust = t.map(*size as usize..).map(|b| b.len() as isize).unwrap_or(-7);
                    let (p, n) = api.map(h, *size as usize, -1, true);
                    ensure!(p.is_null() == (rust == -7) && n == rust, "mapping the end of a region of {size} bytes gave {n}, in Rust {rust}");
                    self.call(|a| a.region_drop(h));
                    return Ok(());
                }
                self.blocks.push(Block { content: vec![0; *size as usize], handles: 1 });
                self.regions.push((h, self.blocks.len() - 1));
                self.look(h, self.blocks.len() - 1, "a new region")?;
            }
            VOp::Clone { r } => {
                let Some(i) = pick(*r, self.regions.len()) else { return Ok(()) };
                let (h, b) = self.regions[i];
                let (code, n) = self.call(|a| a.region_clone(h));
                ensure!(code == SUCCESS && !n.is_null() && n != h, "cloning a region: {code}");
                self.blocks[b].handles += 1;
                self.regions.push((n, b));
                self.look(n, b, "a clone")?;
            }
            VOp::DropRegion { r } => {
                let Some(i) = pick(*r, self.regions.len()) else { return Ok(()) };
                let (h, b) = self.regions.swap_remove(i);
                self.call(|a| a.region_drop(h));
                self.gone(b);
                if let Some((h, _)) = self.regions.iter().find(|x| x.1 == b) {
                    self.look(*h, b, "after dropping another handle")?;
                }
            }
            VOp::Write { r, off, val } => {
                let Some(i) = pick(*r, self.regions.len()) else { return Ok(()) };
                let (h, b) = self.regions[i];
                let n = self.blocks[b].content.len();
                if n == 0 {
                    return Ok(());
                }
                let off = *off as usize % n;
                let (p, real) = api.map(h, off, 1, true);
                ensure!(!p.is_null() && real == 1, "mapping a byte at {off} of {n} failed");
                unsafe { *p = *val };
                self.blocks[b].content[off] = *val;
                let all: Vec<H> = self.regions.iter().filter(|x| x.1 == b).map(|x| x.0).collect();
                for h in all {
                    self.look(h, b, "after writing")?;
                }
            }
            VOp::Map { r, off, size, tell } => {
                let Some(i) = pick(*r, self.regions.len()) else { return Ok(()) };
                let (h, b) = self.regions[i];
                let content = &self.blocks[b].content;
                let n = content.len() as i128;
                let (p, real) = api.map(h, *off as usize, *size as isize, *tell);
                let end = if *size < 0 { n } else { *off as i128 + *size as i128 };
                let valid = *off as i128 <= n && end <= n;
                ensure!(p.is_null() != valid, "mapping {off}, {size} of {n} bytes: {}", if valid { "refused" } else { "accepted" });
                self.cx.class(if valid { "mapped" } else { "mapping refused" });
                if valid {
                    let len = (end - *off as i128) as usize;
                    ensure!(!tell || real == len as isize, "mapping {off}, {size} of {n} bytes gave {real}");
                    let got = unsafe { std::slice::from_raw_parts(p, len) };
                    ensure!(*got == content[*off as usize..][..len], "mapping {off}, {size} of {n} bytes gave other bytes");
                }
            }
            VOp::RegAppend { m, r } => {
                let (Some(mi), Some(ri)) = (pick(*m, self.msgs.len()), pick(*r, self.regions.len())) else { return Ok(()) };
                let (h, b) = self.regions.swap_remove(ri);
                let mh = self.msgs[mi].h;
                self.call(|a| a.region_append(mh, h));
                self.msgs[mi].regions.push(b);
            }
            VOp::RegGet { m, i } => {
                let Some(mi) = pick(*m, self.msgs.len()) else { return Ok(()) };
                let n = self.msgs[mi].regions.len();
                let i = *i as usize % (n + 2);
                let h = self.msgs[mi].h;
                let Some(r) = self.call(|a| a.region_get(h, i)) else { return Ok(()) };
                match self.msgs[mi].regions.get(i).copied() {
                    None => {
                        ensure!(r.is_null(), "region {i} of {n} is not null");
                        self.cx.class("region index out of range");
                    }
                    Some(b) => {
                        ensure!(!r.is_null(), "region {i} of {n} is null");
                        self.look(r, b, "a region of a message")?;
                    }
                }
            }
            VOp::RegRetrieve { m, i } => {
                let Some(mi) = pick(*m, self.msgs.len()) else { return Ok(()) };
                let n = self.msgs[mi].regions.len();
                let i = *i as usize % (n + 2);
                let h = self.msgs[mi].h;
                let r = self.call(|a| a.region_retrieve(h, i));
                if i >= n {
                    ensure!(r.is_null(), "region {i} of {n} is not null");
                    self.cx.class("region index out of range");
                    return Ok(());
                }
                ensure!(!r.is_null(), "region {i} of {n} is null");
                let b = self.msgs[mi].regions.remove(i);
                self.look(r, b, "a retrieved region")?;
                self.cx.class("region retrieved");
                self.regions.push((r, b));
            }
            VOp::Alloc { size, tag, cb, null_cb } => {
                let id = self.callbacks;
                let registry = self.registry;
                let (code, h) = self.call(|a| a.registry_alloc(registry, *size as usize, tag.as_deref(), cb.then_some(id), *null_cb));
                let log = self.twin.called.clone();
                let t = if *cb {
                    self.twin.registry.alloc_with_free(*size as usize, tag.as_deref(), move || log.borrow_mut().push(id))
                } else {
                    self.twin.registry.alloc(*size as usize, tag.as_deref())
                };
                self.callbacks += usize::from(*cb);
                self.agree("an allocation")?;
                let Some(mut t) = t else {
                    ensure!(code == UNKNOWN && h.is_null(), "an allocation of {size} bytes, impossible in Rust, returned {code}");
                    self.cx.class("allocation impossible");
                    return Ok(());
                };
                ensure!(code == SUCCESS && !h.is_null(), "an allocation of {size} bytes returned {code}");
                let (p, n) = api.map(h, 0, -1, true);
                let rust = t.map(..).map(|b| b.len() as isize).unwrap_or(-7);
                ensure!(p.is_null() == (rust == -7) && n == rust && (rust == -7 || rust as u64 == t.buffer_size()), "an allocation of {size} bytes has {n} bytes instead of {}", t.buffer_size());
                if (4..=BIG).contains(&(n as u64)) {
                    let got = unsafe { std::slice::from_raw_parts_mut(p, 4) };
                    let buf = t.map(..4).map_err(|e| Bad::Skip(e.to_string()))?;
                    ensure!(got == buf, "an allocation of {size} bytes with tag {tag:?} got another region than the registry in Rust");
                    self.cx.class_if(buf != [0; 4], "region reused");
                    self.serial += 1;
                    got.copy_from_slice(&self.serial.to_le_bytes());
                    buf.copy_from_slice(&self.serial.to_le_bytes());
                }
                self.allocated.push((h, t));
                self.agree("an allocation")?;
            }
            VOp::CloneAlloc { a } => {
                let Some(i) = pick(*a, self.allocated.len()) else { return Ok(()) };
                let h = self.allocated[i].0;
                let (code, n) = self.call(|a| a.region_clone(h));
                ensure!(code == SUCCESS && !n.is_null() && n != h, "cloning a region: {code}");
                let t = self.allocated[i].1.clone().map_err(|e| Bad::Skip(e.to_string()))?;
                self.allocated.push((n, t));
                self.agree("a clone")?;
            }
            VOp::DropAlloc { a } => {
                let Some(i) = pick(*a, self.allocated.len()) else { return Ok(()) };
                let (h, t) = self.allocated.swap_remove(i);
                self.call(|a| a.region_drop(h));
                drop(t);
                self.agree("dropping a handle")?;
            }
            VOp::Maintain => {
                let r = self.registry;
                self.call(|a| a.maintain(r));
                self.twin.registry.maintain();
                self.agree("maintain")?;
            }
            VOp::Renew => {
                let r = self.registry;
                self.call(|a| a.registry_drop(r));
                self.twin.registry = MemoryRegistry::default();
                self.agree("dropping the registry")?;
                self.registry = self.call(|a| a.registry());
            }
            VOp::Advance { ms } => interpose::advance(Duration::from_millis(*ms)),
            VOp::Label { names } => self.call(|a| {
                let l = a.label(names);
                a.label_drop(l)
            }),
            VOp::Op { expr } => self.call(|a| {
                let o = a.op(expr);
                a.op_drop(o)
            }),
        }
        Ok(())
    }
}

fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn mappings() -> usize {
    std::fs::read_to_string("/proc/self/maps").map(|m| m.lines().filter(|l| l.contains("memfd:ipmb")).count()).unwrap_or(0)
}

/// Waits until the condition holds, a while
fn eventually(mut f: impl FnMut() -> bool) -> bool {
    let end = real_now() + Duration::from_secs(5);
    loop {
        if f() {
            return true;
        }
        if real_now() > end {
            return false;
        }
        thread::sleep(Duration::from_millis(5));
    }
}

fn values(api: Api, ops: &[VOp], cx: &mut Cx) -> Res {
    CALLED.with(|c| *c.borrow_mut() = Vec::with_capacity(ops.len() + 8));
    let (fds, maps, live) = (open_fds(), mappings(), api.live());
    let mut v = Values {
        api,
        cx,
        blocks: vec![],
        regions: vec![],
        msgs: vec![],
        registry: null_mut(),
        twin: Twin::default(),
        callbacks: 0,
        serial: 0,
        allocated: vec![],
        held: 0,
    };
    v.registry = v.call(|a| a.registry());
    for op in ops {
        v.step(op)?;
    }
    v.cx.nontrivial = v.blocks.iter().any(|b| b.handles > 1) || v.msgs.iter().any(|m| m.objects.len() + m.regions.len() > 1) || v.serial > 1;
    // drop every owned value
    while !v.msgs.is_empty() {
        v.step(&VOp::DropMsg { m: 0 })?;
    }
    while !v.regions.is_empty() {
        v.step(&VOp::DropRegion { r: 0 })?;
    }
    let half = v.allocated.len() / 2;
    while v.allocated.len() > half {
        v.step(&VOp::DropAlloc { a: 0 })?;
    }
    v.step(&VOp::Renew)?;
    while !v.allocated.is_empty() {
        v.step(&VOp::DropAlloc { a: 0 })?;
    }
    let r = v.registry;
    v.call(|a| a.registry_drop(r));
    let n = CALLED.with(|c| c.borrow().len());
    ensure!(n <= v.callbacks, "{n} callbacks of {} allocations", v.callbacks);
    let held = v.held;
    ensure!(held == 0, "{held} bytes are still held after every value was dropped");
    let now = api.live();
    ensure!(now == live, "{} objects of the C++ wrapper are still held after every value was dropped", now - live);
    ensure!(eventually(|| open_fds() <= fds), "descriptors are left over: {} instead of {fds}", open_fds());
    ensure!(eventually(|| mappings() <= maps), "mappings are left over: {} instead of {maps}", mappings());
    Ok(())
}

// ------------------------------------------------------------------ bus

enum Half {
    C { api: Api, tx: H, rx: H },
    Rust { tx: ipmb::EndpointSender<BytesMessage>, reader: Option<Reader<BytesMessage>> },
}

struct Member {
    half: Half,
    label: Vec<String>,
    hears: bool,
    speaks: bool,
}

impl Drop for Member {
    fn drop(&mut self) {
        if let Half::C { api, tx, rx } = &self.half {
            if !tx.is_null() {
                api.sender_drop(*tx);
            }
            if !rx.is_null() {
                api.receiver_drop(*rx);
            }
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
struct Got {
    format: u16,
    data: Vec<u8>,
    objects: Vec<(u64, u64)>,
    regions: Vec<Vec<u8>>,
}

const FENCE: u16 = 0xfe17;

struct Bus<'a> {
    identifier: String,
    token: String,
    members: Vec<Option<Member>>,
    fence: u64,
    cx: &'a mut Cx,
}

/// Read everything of a message and drop it
fn unpack(api: Api, m: H) -> Res<Got> {
    let (format, data) = api.bytes(&m);
    let mut objects = vec![];
    let mut n = 0;
    loop {
        // get first, then take
        let o = api.object_get(m, 0);
        let p = api.object_retrieve(m, 0);
        ensure!(o == p, "object {n} is {o} when looked at and {p} when retrieved");
        if p == 0 {
            break;
        }
        objects.push(ident(p as i32).unwrap_or((0, 0)));
        unsafe { ipmb_object_drop(p) };
        n += 1;
    }
    let mut regions = vec![];
    loop {
        let r = api.region_retrieve(m, 0);
        if r.is_null() {
            break;
        }
        let (p, n) = api.map(r, 0, -1, true);
        ensure!(!p.is_null(), "a received region can't be mapped");
        regions.push(unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec());
        api.region_drop(r);
    }
    api.message_drop(m);
    Ok(Got { format, data, objects, regions })
}

fn unpack_rust(mut m: ipmb::Message<BytesMessage>) -> Res<Got> {
    let mut regions = vec![];
    for r in &mut m.memory_regions {
        regions.push(r.map(..).map_err(|e| Bad::Fail(e.to_string()))?.to_vec());
    }
    Ok(Got {
        format: m.payload.format,
        data: m.payload.data,
        objects: m.objects.iter().map(|o| ident(o.as_raw()).unwrap_or((0, 0))).collect(),
        regions,
    })
}

fn open(api: Api, identifier: &str, token: &str, label: &[String], affinity: bool, timeout: u32, tx: bool, rx: bool) -> (i32, H, H) {
    let o = api.options(cs(identifier), api.label(label), cs(token), affinity, label.iter().map(|l| l.len()).sum::<usize>() % 2 == 1);
    let r = api.join(o, timeout, tx, rx);
    api.options_drop(o);
    r
}

impl Bus<'_> {
    fn join(&mut self, s: &Spec) -> Res {
        let first = self.members.is_empty();
        let label = s.label.clone();
        if s.c {
            let api = Api::of(s.cpp);
            let mut names = label.clone();
            if s.again {
                names.extend(label.iter().rev().cloned());
            }
            let (tx, rx) = (s.tx || first, s.rx || first);
            let (code, t, r) = open(api, &self.identifier, &self.token, &names, first, PATIENCE.as_millis() as u32, tx, rx);
            if code == TIMEOUT {
                return Err(Bad::Slow("join timed out".into()));
            }
            ensure!(code == SUCCESS, "join returned {code}");
            ensure!(t.is_null() != tx && r.is_null() != rx, "join gave other halves than asked for");
            self.cx.class(if s.cpp { "C++ endpoint" } else { "C endpoint" });
            self.cx.class_if(!tx || !rx, "half an endpoint");
            self.members.push(Some(Member { half: Half::C { api, tx: t, rx: r }, label, hears: rx, speaks: tx }));
        } else {
            let o = ipmb::Options { controller_affinity: first, ..ipmb::Options::new(&self.identifier, Label::from(&label), &self.token) };
            let (tx, rx) = ipmb::join::<BytesMessage, BytesMessage>(o, Some(PATIENCE)).map_err(|e| Bad::Slow(e.to_string()))?;
            self.members.push(Some(Member { half: Half::Rust { tx, reader: Some(Reader::spawn(rx)) }, label, hears: true, speaks: true }));
        }
        Ok(())
    }

    fn live(&self) -> Vec<usize> {
        (0..self.members.len()).filter(|i| self.members[*i].is_some()).collect()
    }

    fn member(&self, i: usize) -> &Member {
        self.members[i].as_ref().unwrap()
    }

    fn speakers(&self) -> Vec<usize> {
        self.live().into_iter().filter(|i| self.member(*i).speaks).collect()
    }

    /// What arrived everywhere since
    fn fence(&mut self, from: usize) -> Res<Vec<Vec<Got>>> {
        self.fence += 1;
        let data = self.fence.to_le_bytes();
        match &self.member(from).half {
            Half::C { api, tx, .. } => {
                let s = api.selector(api.op(&Expr::T), false, 0);
                let m = api.message(s, FENCE, &data);
                api.selector_drop(s);
                let code = api.send(*tx, m);
                ensure!(code == SUCCESS, "send returned {code}");
            }
            Half::Rust { tx, .. } => {
                let mut s = ipmb::Selector::multicast(LabelOp::True);
                s.ttl = Duration::ZERO;
                tx.send(ipmb::Message::new(s, BytesMessage { format: FENCE, data: data.to_vec() })).map_err(|e| Bad::Fail(e.to_string()))?;
            }
        }
        let mut all = vec![];
        for i in 0..self.members.len() {
            let mut got = vec![];
            let Some(m) = self.members[i].as_ref().filter(|m| m.hears) else {
                all.push(got);
                continue;
            };
            match &m.half {
                Half::C { api, rx, .. } => loop {
                    let (code, m) = api.recv(*rx, PATIENCE.as_millis() as u32);
                    if code == TIMEOUT {
                        return Err(Bad::Slow(format!("endpoint {i} did not receive a multicast to all")));
                    }
                    ensure!(code == SUCCESS && !m.is_null(), "recv returned {code}");
                    let g = unpack(*api, m)?;
                    if g.format == FENCE && g.data == data {
                        break;
                    }
                    got.push(g);
                },
                Half::Rust { reader, .. } => {
                    let reader = reader.as_ref().unwrap();
                    let seen = reader.wait(PATIENCE, |q| q.iter().any(|e| matches!(e, Event::Msg(m) if m.payload.format == FENCE && m.payload.data == data)).then_some(()));
                    if seen.is_none() {
                        return Err(Bad::Slow(format!("endpoint {i} did not receive a multicast to all")));
                    }
                    for e in reader.take() {
                        match e {
                            Event::Msg(m) if m.payload.format == FENCE && m.payload.data == data => {}
                            Event::Msg(m) => got.push(unpack_rust(m)?),
                            Event::Decode(e) | Event::Error(e) => fail!("endpoint {i}: {e}"),
                        }
                    }
                }
            }
            all.push(got);
        }
        Ok(all)
    }

    fn mail(&mut self, l: &Mail) -> Res {
        let speakers = self.speakers();
        let Some(from) = pick(l.from, speakers.len()).map(|i| speakers[i]) else { return Ok(()) };
        let mut want = vec![];
        let mut fds = vec![];
        let n = l.copies.max(1) as usize;
        let mut sel = None;
        for k in 0..n {
            let data = body(l.len as u64 + k as u64, l.len as usize);
            let mut objects = vec![];
            let mut raws = vec![];
            for o in &l.objects {
                let fd = new_object(*o).into_raw();
                objects.push(ident(fd).unwrap());
                fds.push(ident(fd).unwrap());
                raws.push(fd);
            }
            let contents: Vec<Vec<u8>> = l.regions.iter().enumerate().map(|(i, n)| body((i + k) as u64 + 99, *n as usize)).collect();
            want.push(Got { format: l.format, data: data.clone(), objects, regions: contents.clone() });
            match &self.member(from).half {
                Half::C { api, tx, .. } => {
                    let s = *sel.get_or_insert_with(|| {
                        if l.len % 2 == 0 {
                            return (*api, api.selector(api.op(&l.expr), l.uni, 0), null_mut());
                        }
                        // which has served another message before
                        let s = api.selector(api.op(&Expr::F), !l.uni, 5000);
                        api.message_drop(api.message(s, 1, b"other"));
                        (*api, s, api.selector_swap(s, api.op(&l.expr), l.uni, 0))
                    });
                    let m = api.message(s.1, l.format, &data);
                    for fd in raws {
                        api.object_append(m, fd as u64);
                    }
                    for c in &contents {
                        let (code, r) = api.region(c.len());
                        ensure!(code == SUCCESS, "a region: {code}");
                        if !c.is_empty() {
                            let (p, n) = api.map(r, 0, -1, true);
                            ensure!(!p.is_null() && n as usize == c.len(), "mapping a region");
                            unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), p, c.len()) };
                        }
                        api.region_append(m, r);
                    }
                    let code = api.send(*tx, m);
                    ensure!(code == SUCCESS, "send returned {code}");
                }
                Half::Rust { tx, .. } => {
                    let mut s = crate::bus::selector(if l.uni { SelectorMode::Unicast } else { SelectorMode::Multicast }, &l.expr, 0);
                    s.ttl = Duration::ZERO;
                    let mut m = ipmb::Message::new(s, BytesMessage { format: l.format, data });
                    m.objects.extend(raws.into_iter().map(|fd| unsafe { ipmb::Object::from_raw(fd) }));
                    for c in &contents {
                        let mut r = MemoryRegion::new(c.len()).ok_or(Bad::Skip("region".into()))?;
                        r.map(..).map_err(|e| Bad::Skip(e.to_string()))?.copy_from_slice(c);
                        m.memory_regions.push(r);
                    }
                    tx.send(m).map_err(|e| Bad::Fail(e.to_string()))?;
                }
            }
        }
        if let Some((api, s, other)) = sel {
            api.selector_drop(s);
            if !other.is_null() {
                api.op_drop(other);
                self.cx.class("selector assigned");
            }
        }
        let matching: Vec<usize> = self.live().into_iter().filter(|i| self.member(*i).hears && l.expr.eval(&self.member(*i).label)).collect();
        let got = self.fence(from)?;
        let what = format!("a {} by endpoint {from} for {:?} (matching {matching:?})", if l.uni { "unicast" } else { "multicast" }, l.expr);
        if l.uni {
            // each was delivered once, in order at each
            let mut all: Vec<Got> = vec![];
            for (i, g) in got.iter().enumerate() {
                ensure!(g.is_empty() || matching.contains(&i), "{what} reached endpoint {i}");
                let mut at = want.iter();
                ensure!(g.iter().all(|x| at.any(|w| w == x)), "{what} arrived differently: {g:?} of {want:?}");
                all.extend(g.iter().cloned());
            }
            let due = if matching.is_empty() { 0 } else { n };
            ensure!(all.len() == due, "{n} of {what} arrived {} times", all.len());
            ensure!(due == 0 || want.iter().all(|w| all.contains(w)), "{what} arrived differently: {all:?} instead of {want:?}");
        } else {
            for (i, g) in got.iter().enumerate() {
                let w: &[Got] = if matching.contains(&i) { &want } else { &[] };
                ensure!(g == w, "{what}: endpoint {i} received {g:?} instead of {w:?}");
            }
        }
        let c_to = matching.iter().any(|i| matches!(self.member(*i).half, Half::C { .. }));
        let c_from = matches!(self.member(from).half, Half::C { .. });
        self.cx.nontrivial |= !matching.is_empty() && (c_to || c_from);
        self.cx.class_if(c_from && c_to, "C to C");
        self.cx.class_if(c_from && matching.iter().any(|i| matches!(self.member(*i).half, Half::Rust { .. })), "C to Rust");
        self.cx.class_if(!c_from && c_to, "Rust to C");
        // nobody has the objects any more
        fds.sort_unstable();
        fds.dedup();
        let left = || {
            let mut n = 0;
            for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
                let Some(fd) = e.file_name().to_str().and_then(|s| s.parse().ok()) else { continue };
                n += usize::from(ident(fd).is_some_and(|i| i.1 > 100 && fds.binary_search(&i).is_ok()));
            }
            n
        };
        let unique = !l.objects.iter().any(|k| matches!(k, ObjKind::Dir | ObjKind::EventFd));
        ensure!(!unique || eventually(|| left() == 0), "{what}: {} descriptors of its objects are left over", left());
        Ok(())
    }

    fn ttl(&mut self, from: u8, ttl: u32, wait: u64, cpp: bool) -> Res {
        let speakers: Vec<usize> = self.speakers().into_iter().filter(|i| matches!(self.member(*i).half, Half::C { .. })).collect();
        let Some(from) = pick(from, speakers.len()).map(|i| speakers[i]) else { return Ok(()) };
        let name = format!("late{}", self.members.len());
        let Half::C { api, tx, .. } = &self.member(from).half else { unreachable!() };
        let s = api.selector(api.op(&Expr::leaf(&name)), true, ttl);
        let m = api.message(s, 77, name.as_bytes());
        api.selector_drop(s);
        let t0 = real_now();
        let code = api.send(*tx, m);
        ensure!(code == SUCCESS, "send returned {code}");
        self.fence(from)?;
        interpose::advance(Duration::from_millis(wait));
        let spec = Spec { c: true, cpp, label: vec![name], again: false, tx: true, rx: true };
        self.join(&spec)?;
        let new = self.members.len() - 1;
        let got = self.fence(new)?;
        let real = (real_now() - t0).as_millis() as u64;
        let n = got.iter().map(|g| g.len()).sum::<usize>();
        ensure!(got[new].len() == n && n <= 1, "a waiting message arrived {n} times");
        if wait >= ttl as u64 {
            ensure!(n == 0, "a message with a ttl of {ttl} ms arrived after {wait} ms");
            self.cx.class("expired");
        } else if wait + real + 50 < ttl as u64 {
            ensure!(n == 1, "a message with a ttl of {ttl} ms did not arrive after {wait} ms");
            self.cx.class("waited");
        }
        self.cx.nontrivial = true;
        Ok(())
    }
}

fn bus(token: &str, steps: &[Step], cx: &mut Cx) -> Res {
    let mut b = Bus { identifier: fresh_identifier(), token: token.to_owned(), members: vec![], fence: 0, cx };
    let host = match steps.first() {
        Some(Step::Join(s)) => s.clone(),
        _ => Spec { c: true, cpp: false, label: vec!["a".into()], again: false, tx: true, rx: true },
    };
    b.join(&host)?;
    for s in steps {
        match s {
            Step::Join(s) => {
                if b.live().len() < 5 {
                    b.join(s)?;
                }
            }
            Step::Leave(i) => {
                let live = b.live();
                // not the host
                if let Some(k) = pick(*i, live.len() - 1) {
                    b.members[live[k + 1]] = None;
                }
            }
            Step::Mail(m) => b.mail(m)?,
            Step::Ttl { from, ttl, wait, cpp } => b.ttl(*from, *ttl, *wait, *cpp)?,
        }
    }
    // the host last
    while let Some(m) = b.members.pop() {
        drop(m);
    }
    Ok(())
}

// ------------------------------------------------------------------ codes

/// A handle for another thread
struct Away(H);
unsafe impl Send for Away {}
impl Away {
    fn get(&self) -> H {
        self.0
    }
}

fn timed<T>(f: impl FnOnce() -> T) -> (T, Duration) {
    let t = real_now();
    let r = f();
    (r, real_now() - t)
}

fn not_before(what: &str, limit: Duration, took: Duration) -> Res {
    ensure!(took >= limit, "{what} after {took:?}, before the limit of {limit:?}");
    if took > limit + Duration::from_secs(4) {
        return Err(Bad::Slow(format!("{what} after {took:?} with a limit of {limit:?}")));
    }
    Ok(())
}

fn codes(api: Api, code: &Code, cx: &mut Cx) -> Res {
    let id = fresh_identifier();
    let names = ["a".to_owned()];
    let ms = |m: u32| Duration::from_millis(m as u64);
    cx.nontrivial = true;
    cx.class(format!("{code:?}").split([' ', '(']).next().unwrap().to_owned());
    let patience = PATIENCE.as_millis() as u32;
    match code {
        Code::JoinTimeout { ms: m } => {
            let ((c, t, r), took) = timed(|| open(api, &id, "t", &names, false, *m, true, true));
            ensure!(c == TIMEOUT && t.is_null() && r.is_null(), "joining nobody's bus without being willing to host returned {c}");
            return not_before("join gave up", ms(*m), took);
        }
        Code::Affinity => {
            let ((c, ..), _) = timed(|| open(api, &id, "t", &names, false, 5, true, true));
            ensure!(c == TIMEOUT, "joining nobody's bus without being willing to host returned {c}");
        }
        Code::NotUtf8 { token } => {
            let bad = CString::new(vec![b'x', 0xff, b'y']).unwrap();
            let (i, t) = if *token { (cs(&id), bad) } else { (bad, cs("t")) };
            let o = api.options(i, api.label(&names), t, true, false);
            let (c, t, r) = api.join(o, patience, true, true);
            api.options_drop(o);
            ensure!(c == UNKNOWN && t.is_null() && r.is_null(), "joining with an invalid string returned {c}");
            return Ok(());
        }
        Code::WrongVersion => {
            let listener = raw::listen(&id).expect("listen");
            let id2 = id.clone();
            let t = thread::spawn(move || open(api, &id2, "t", &["a".to_owned()], true, PATIENCE.as_millis() as u32, true, true).0);
            let slow = |e: std::io::Error| Bad::Slow(format!("the joining endpoint: {e}"));
            let sock = raw::accept(listener.as_raw_fd(), PATIENCE).map_err(slow)?;
            let Some((_, fds)) = raw::recv(sock.as_raw_fd(), PATIENCE).map_err(slow)? else { fail!("the endpoint hung up") };
            ensure!(!fds.is_empty(), "strange connect message");
            let s = raw::RawSelector::new(LabelOp::True, SelectorMode::Unicast, raw::CONNECT_ACK);
            let f = raw::frame(raw::own_version(), &raw::selector_bytes(&s), &ipmb::encode(raw::Ack::ErrVersion((99, 1, 2))).unwrap());
            raw::send(fds[0].as_raw_fd(), &f, &[]).expect("reply");
            let c = t.join().map_err(|_| Bad::Fail("join panicked".into()))?;
            ensure!(c == VERSION, "join returned {c} for another version");
            return Ok(());
        }
        Code::JoinForever { ms: m } => {
            let (id2, m2) = (id.clone(), *m);
            let t = thread::spawn(move || {
                thread::sleep(Duration::from_millis(m2));
                let o = ipmb::Options::new(&id2, Label::default(), "t");
                ipmb::join::<BytesMessage, BytesMessage>(o, Some(PATIENCE)).map(|h| (h, real_now()))
            });
            let (c, tx, rx) = open(api, &id, "t", &names, false, INFINITE, true, true);
            let end = real_now();
            let _host = t.join().map_err(|_| Bad::Fail("join panicked".into()))?.map_err(|e| Bad::Slow(e.to_string()))?;
            ensure!(c == SUCCESS, "join without limit returned {c}");
            let _ = end;
            api.sender_drop(tx);
            api.receiver_drop(rx);
            return Ok(());
        }
        _ => {}
    }
    // the others need a bus
    let (c, tx, rx) = open(api, &id, "t", &names, true, patience, true, true);
    ensure!(c == SUCCESS, "joining returned {c}");
    let say = |tx: H, n: u16| {
        let s = api.selector(api.op(&Expr::leaf("a")), true, 0);
        let m = api.message(s, n, b"hello");
        api.selector_drop(s);
        api.send(tx, m)
    };
    let hear = |limit: u32, n: u16| -> Res {
        let (c, m) = api.recv(rx, limit);
        if c == TIMEOUT && limit == patience {
            return Err(Bad::Slow("a message did not arrive".into()));
        }
        ensure!(c == SUCCESS, "recv returned {c}");
        let (f, d) = api.bytes(&m);
        ensure!(f == n && d == b"hello", "message {f} with {d:?} arrived instead of {n}");
        api.message_drop(m);
        Ok(())
    };
    let r = (|| -> Res {
        match code {
            Code::WrongToken { host } => {
                let (c, t, r) = open(api, &id, "u", &names, *host, patience, true, true);
                ensure!(c == TOKEN && t.is_null() && r.is_null(), "joining with another token returned {c}");
            }
            Code::RecvTimeout { ms: m } => {
                let ((c, msg), took) = timed(|| api.recv(rx, *m));
                ensure!(c == TIMEOUT && msg.is_null(), "recv without message returned {c}");
                not_before("recv gave up", ms(*m), took)?;
            }
            Code::RecvForever { ms: m } => {
                let (m2, t2) = (*m, Away(tx));
                let t = thread::spawn(move || {
                    let tx = t2.get();
                    thread::sleep(Duration::from_millis(m2));
                    let s = api.selector(api.op(&Expr::leaf("a")), true, 0);
                    let m = api.message(s, 5, b"hello");
                    api.selector_drop(s);
                    api.send(tx, m)
                });
                let r = hear(INFINITE, 5);
                let c = t.join().map_err(|_| Bad::Fail("send panicked".into()))?;
                ensure!(c == SUCCESS, "send returned {c}");
                r?;
            }
            Code::RecvHuge { timeout } => {
                ensure!(say(tx, 6) == SUCCESS, "send failed");
                hear(*timeout, 6)?;
            }
            Code::Malformed => {
                let mut d = raw::Conn::join(&id, raw::own_version(), raw::own_version(), "t", &Label::default(), PATIENCE).map_err(|e| Bad::Slow(e.to_string()))?;
                ensure!(matches!(d.1, Some((_, raw::Ack::Ok(_)))), "not admitted");
                let s = raw::RawSelector::new(LabelOp::from("a"), SelectorMode::Unicast, BytesMessage::UUID);
                raw::send(d.0.sock.as_raw_fd(), &raw::message(&s, &[]), &[]).expect("send");
                let (c, m) = api.recv(rx, patience);
                if c == TIMEOUT {
                    return Err(Bad::Slow("a malformed message is not reported".into()));
                }
                ensure!(c == DECODE && m.is_null(), "recv returned {c} for a malformed message");
                d.1 = None;
            }
            Code::Oversized { kb } => {
                let (c2, t2, r2) = open(api, &id, "t", &["b".to_owned()], false, patience, true, true);
                ensure!(c2 == SUCCESS, "joining returned {c2}");
                let s = api.selector(api.op(&Expr::leaf("a")), true, 0);
                let m = api.message(s, 9, &vec![1; *kb as usize * 1024]);
                api.selector_drop(s);
                let c = api.send(t2, m);
                api.sender_drop(t2);
                api.receiver_drop(r2);
                ensure!(c == UNKNOWN, "sending {kb} KB returned {c}");
            }
            _ => {}
        }
        // still of use
        ensure!(say(tx, 7) == SUCCESS, "send failed");
        hear(patience, 7)
    })();
    api.sender_drop(tx);
    api.receiver_drop(rx);
    r
}

impl Prop for Capi {
    const ID: &'static str = "C20";
    const RULE: &'static str = "random sequences of calls of the C API and of the C++ classes around it: (a) messages, objects, regions, registries, labels and operations compared with a model (the registry with one in Rust, under a virtual clock), memory, descriptors and mappings counted afterwards; (b) buses of up to 5 endpoints joined by C, C++ or Rust exchanging messages with arbitrary selectors, contents and attachments, waiting messages included; (c) error codes and time limits; non-trivial: values were shared or attached, or a message went from or to a C endpoint, or a code was provoked";
    type Case = Case;
    const CASES: (usize, usize) = (4000, 100_000);

    fn strategy(_t: bool) -> BoxedStrategy<Case> {
        let expr = || expr_strategy(name_strategy(), 4);
        let ix = any::<u8>;
        let size = || {
            prop_oneof![
                6 => 1u64..9000,
                2 => prop::sample::select(vec![0u64, 1, 4, 4095, 4096, 4097, 8192]),
                1 => prop::sample::select(vec![1u64 << 40, 1 << 62, u64::MAX, u64::MAX - 4095, i64::MAX as u64]),
            ]
        };
        let tag = || prop::option::of(prop::sample::select(vec!["", "t", "u", "\u{e9}"]).prop_map(str::to_owned));
        let off = prop_oneof![6 => 0u64..9000, 1 => prop::sample::select(vec![0u64, 4096, u64::MAX, i64::MAX as u64])];
        let msize = prop_oneof![4 => 0i64..9000, 2 => Just(-1i64), 1 => prop::sample::select(vec![0i64, i64::MAX, i64::MIN, -2])];
        let v = prop_oneof![
            4 => (any::<u16>(), 0u32..200, expr(), any::<bool>(), any::<u32>()).prop_map(|(format, len, expr, uni, ttl)| VOp::Msg { format, len, expr, uni, ttl }),
            1 => ix().prop_map(|m| VOp::DropMsg { m }),
            2 => ix().prop_map(|m| VOp::Bytes { m }),
            7 => (ix(), obj_kind()).prop_map(|(m, kind)| VOp::ObjAppend { m, kind }),
            2 => (ix(), ix()).prop_map(|(m, i)| VOp::ObjGet { m, i }),
            3 => (ix(), ix()).prop_map(|(m, i)| VOp::ObjRetrieve { m, i }),
            4 => size().prop_map(|size| VOp::Region { size }),
            2 => ix().prop_map(|r| VOp::Clone { r }),
            2 => ix().prop_map(|r| VOp::DropRegion { r }),
            2 => (ix(), any::<u16>(), any::<u8>()).prop_map(|(r, off, val)| VOp::Write { r, off, val }),
            4 => (ix(), off, msize, any::<bool>()).prop_map(|(r, off, size, tell)| VOp::Map { r, off, size, tell }),
            3 => (ix(), ix()).prop_map(|(m, r)| VOp::RegAppend { m, r }),
            2 => (ix(), ix()).prop_map(|(m, i)| VOp::RegGet { m, i }),
            2 => (ix(), ix()).prop_map(|(m, i)| VOp::RegRetrieve { m, i }),
            4 => (size(), tag(), any::<bool>(), any::<bool>()).prop_map(|(size, tag, cb, null_cb)| VOp::Alloc { size, tag, cb, null_cb }),
            8 => (4u64..12, prop::option::weighted(0.3, Just("t".to_owned())), any::<bool>(), any::<bool>()).prop_map(|(size, tag, cb, null_cb)| VOp::Alloc { size, tag, cb, null_cb }),
            1 => ix().prop_map(|a| VOp::CloneAlloc { a }),
            4 => ix().prop_map(|a| VOp::DropAlloc { a }),
            1 => Just(VOp::Maintain),
            1 => Just(VOp::Renew),
            1 => (1u64..5).prop_map(|n| VOp::Advance { ms: n * 1500 }),
            1 => label_strategy().prop_map(|names| VOp::Label { names }),
            1 => expr().prop_map(|expr| VOp::Op { expr }),
        ];
        let values = (any::<bool>(), prop::collection::vec(v, 1..80)).prop_map(|(cpp, ops)| Case::Values { cpp, ops });

        let spec = || {
            (prop::bool::weighted(0.7), any::<bool>(), label_strategy(), any::<bool>(), prop::bool::weighted(0.9), prop::bool::weighted(0.9))
                .prop_map(|(c, cpp, label, again, tx, rx)| Spec { c, cpp, label, again, tx, rx })
        };
        let len = prop_oneof![6 => 0u32..200, 1 => 0u32..5000, 1 => prop::sample::select(vec![0u32, 1, 255, 256, 65535, 65536])];
        let mail = (ix(), expr(), any::<bool>(), any::<u16>(), len, prop::collection::vec(obj_kind(), 0..4), prop::collection::vec(0u16..9000, 0..3), 1u8..4)
            .prop_map(|(from, expr, uni, format, len, objects, regions, copies)| {
                let format = if format == FENCE { 0 } else { format };
                Step::Mail(Mail { from, expr, uni, format, len, objects, regions, copies: if len > 5000 { 1 } else { copies } })
            });
        let ttl = (ix(), prop_oneof![Just(0u32), 1u32..200, 1000u32..100_000, Just(u32::MAX)], prop_oneof![Just(0u64), 1u64..200, 1000u64..100_000], any::<bool>())
            .prop_map(|(from, ttl, wait, cpp)| Step::Ttl { from, ttl, wait, cpp });
        let step = prop_oneof![3 => spec().prop_map(Step::Join), 1 => ix().prop_map(Step::Leave), 6 => mail, 1 => ttl];
        let bus = ("[a-z]{0,3}", spec(), prop::collection::vec(step, 1..12)).prop_map(|(token, s, mut steps)| {
            steps.insert(0, Step::Join(s));
            Case::Bus { token, steps }
        });
        let code = prop_oneof![
            2 => any::<bool>().prop_map(|host| Code::WrongToken { host }),
            1 => Just(Code::WrongVersion),
            2 => (0u32..120).prop_map(|ms| Code::JoinTimeout { ms }),
            1 => (0u64..80).prop_map(|ms| Code::JoinForever { ms }),
            3 => (0u32..120).prop_map(|ms| Code::RecvTimeout { ms }),
            2 => (0u64..150).prop_map(|ms| Code::RecvForever { ms }),
            2 => prop_oneof![Just(INFINITE - 1), Just(1u32 << 31), (1u32 << 20)..INFINITE].prop_map(|timeout| Code::RecvHuge { timeout }),
            1 => Just(Code::Malformed),
            1 => (300u32..2000).prop_map(|kb| Code::Oversized { kb }),
            1 => any::<bool>().prop_map(|token| Code::NotUtf8 { token }),
            1 => Just(Code::Affinity),
        ];
        let codes = (any::<bool>(), code).prop_map(|(cpp, code)| Case::Codes { cpp, code });
        prop_oneof![4 => values, 4 => bus, 2 => codes].boxed()
    }

    fn run(c: &Case, cx: &mut Cx) -> Res {
        let rust = ipmb::version();
        let want = (rust.major(), rust.minor(), rust.patch(), ipmb::version_pre());
        match c {
            Case::Values { cpp, ops } => {
                let api = Api::of(*cpp);
                let v = api.version();
                ensure!(v.0 == want.0 && v.1 == want.1 && v.2 == want.2 && v.3 == want.3, "version {v:?} instead of {want:?}");
                values(api, ops, cx)
            }
            Case::Bus { token, steps } => bus(token, steps, cx),
            Case::Codes { cpp, code } => codes(Api::of(*cpp), code, cx),
        }
    }
}

//! Speaking the protocol of the bus by hand: frames over abstract SEQPACKET sockets.

use crate::{bus::Msg, interpose::raw6};
use ipmb::{Label, LabelOp, MessageBox, SelectorMode};
use serde::{Deserialize, Serialize};
use std::{
    io, mem,
    os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd},
    time::Duration,
};

pub const CONNECT: [u8; 16] = [
    0xb2, 0xc1, 0xde, 0xb3, 0x30, 0x91, 0x4a, 0x74, 0xa9, 0x9c, 0xc8, 0xe8, 0xd7, 0x10, 0xd4, 0xb2,
];
pub const CONNECT_ACK: [u8; 16] = [
    0xc3, 0xde, 0x9e, 0xb4, 0xc3, 0x10, 0x4c, 0x14, 0x97, 0x47, 0x09, 0x3d, 0x62, 0xc0, 0x99, 0x98,
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RawSelector {
    pub label_op: LabelOp,
    pub mode: SelectorMode,
    pub uuid: [u8; 16],
    pub memory_region_count: u16,
    pub ttl: Duration,
}

impl RawSelector {
    pub fn new(op: LabelOp, mode: SelectorMode, uuid: [u8; 16]) -> Self {
        Self { label_op: op, mode, uuid, memory_region_count: 0, ttl: Duration::ZERO }
    }
}

pub type Ver = (u8, u8, u8);

pub fn own_version() -> Ver {
    let v = ipmb::version();
    (v.major(), v.minor(), v.patch())
}

/// The rule by which versions are compatible
pub fn compatible(a: Ver, b: Ver) -> bool {
    a.0 == b.0 && (a.0 != 0 || a.1 == b.1)
}

#[derive(Debug, Serialize, Deserialize)]
struct Connect {
    version: Ver,
    token: String,
    label: Label,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Ack {
    Ok([u8; 16]),
    ErrVersion(Ver),
    ErrToken,
}

pub fn connect_payload(version: Ver, token: &str, label: &Label) -> Vec<u8> {
    ipmb::encode(Connect { version, token: token.to_owned(), label: label.clone() }).unwrap()
}

pub fn selector_bytes(s: &RawSelector) -> Vec<u8> {
    ipmb::encode(s).unwrap()
}

pub fn frame(header: Ver, selector: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut out = vec![0xFF, header.0, header.1, header.2];
    for part in [selector, payload] {
        out.extend_from_slice(&(part.len() as u32).to_ne_bytes());
        out.extend_from_slice(part);
        while out.len() % 4 != 0 {
            out.push(0);
        }
    }
    out
}

/// A frame carrying a message
pub fn message(sel: &RawSelector, payload: &[u8]) -> Vec<u8> {
    frame(own_version(), &selector_bytes(sel), payload)
}

pub fn encode_msg(m: &Msg) -> ([u8; 16], Vec<u8>) {
    let payload = match m {
        // mutations can turn another type into this one
        Msg::Unencodable(u) => u.n.to_ne_bytes().to_vec(),
        m => m.encode().unwrap(),
    };
    (m.uuid(), payload)
}

/// Header version, selector and payload of a frame
pub fn parse(data: &[u8]) -> Option<(Ver, RawSelector, Vec<u8>)> {
    fn sized(d: &[u8]) -> Option<(&[u8], &[u8])> {
        let n = u32::from_ne_bytes(d.get(..4)?.try_into().ok()?) as usize;
        let body = d.get(4..4 + n)?;
        Some((body, d.get(4 + n.div_ceil(4) * 4..).unwrap_or(&[])))
    }
    if *data.first()? != 0xFF {
        return None;
    }
    let ver = (*data.get(1)?, *data.get(2)?, *data.get(3)?);
    let (sel, rest) = sized(&data[4..])?;
    let (payload, _) = sized(rest)?;
    Some((ver, ipmb::decode(sel).ok()?, payload.to_vec()))
}

fn check(r: i32) -> io::Result<i32> {
    if r < 0 {
        Err(io::Error::last_os_error())
    } else {
        Ok(r)
    }
}

fn addr(identifier: &str) -> libc::sockaddr_un {
    let mut a: libc::sockaddr_un = unsafe { mem::zeroed() };
    a.sun_family = libc::AF_UNIX as _;
    // always zero terminated
    for (d, s) in a.sun_path[1..107].iter_mut().zip(identifier.bytes()) {
        *d = s as _;
    }
    a
}

fn socket() -> io::Result<OwnedFd> {
    unsafe { Ok(OwnedFd::from_raw_fd(check(libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0))?)) }
}

fn set_buf(fd: RawFd, opt: i32, size: i32) {
    unsafe {
        libc::setsockopt(fd, libc::SOL_SOCKET, opt, &size as *const _ as _, 4);
    }
}

/// A connection to the socket of a bus which hasn't presented anything
pub fn dial(identifier: &str) -> io::Result<OwnedFd> {
    let s = socket()?;
    let a = addr(identifier);
    while let Err(e) = check(unsafe { libc::connect(s.as_raw_fd(), &a as *const _ as _, mem::size_of_val(&a) as _) }) {
        if e.kind() != io::ErrorKind::Interrupted {
            return Err(e);
        }
    }
    set_buf(s.as_raw_fd(), libc::SO_SNDBUF, 64 << 10);
    Ok(s)
}

/// Pose as a bus
pub fn listen(identifier: &str) -> io::Result<OwnedFd> {
    let s = socket()?;
    let a = addr(identifier);
    check(unsafe { libc::bind(s.as_raw_fd(), &a as *const _ as _, mem::size_of_val(&a) as _) })?;
    check(unsafe { libc::listen(s.as_raw_fd(), 32) })?;
    Ok(s)
}

/// Wait until readable
pub fn readable(fd: RawFd, timeout: Duration) -> bool {
    let end = crate::interpose::real_now() + timeout;
    loop {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let left = end.saturating_sub(crate::interpose::real_now());
        let r = unsafe { raw6(libc::SYS_poll, &mut p as *mut _ as i64, 1, left.as_millis() as i64, 0, 0, 0) };
        if r != -libc::EINTR as i64 {
            return r > 0;
        }
    }
}

pub fn accept(fd: RawFd, timeout: Duration) -> io::Result<OwnedFd> {
    if !readable(fd, timeout) {
        return Err(io::ErrorKind::TimedOut.into());
    }
    let r = unsafe { raw6(libc::SYS_accept4, fd as i64, 0, 0, libc::SOCK_CLOEXEC as i64, 0, 0) };
    if r < 0 {
        return Err(io::Error::from_raw_os_error(-r as i32));
    }
    Ok(unsafe { OwnedFd::from_raw_fd(r as i32) })
}

/// Pair of the socket read by an endpoint and the one written by the bus
pub fn reply_pair() -> (OwnedFd, OwnedFd) {
    unsafe {
        let mut p = [0; 2];
        assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()), 0);
        libc::shutdown(p[0], libc::SHUT_WR);
        libc::shutdown(p[1], libc::SHUT_RD);
        set_buf(p[0], libc::SO_RCVBUF, 64 << 10);
        set_buf(p[1], libc::SO_SNDBUF, 64 << 10);
        (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
    }
}

/// Send one packet with descriptors. Fails with WouldBlock when it doesn't fit within two seconds.
pub fn send(fd: RawFd, data: &[u8], fds: &[RawFd]) -> io::Result<()> {
    unsafe {
        let mut iov = libc::iovec { iov_base: data.as_ptr() as _, iov_len: data.len() };
        let mut hdr: libc::msghdr = mem::zeroed();
        hdr.msg_iov = &mut iov;
        hdr.msg_iovlen = 1;
        let len = mem::size_of_val(fds) as u32;
        let mut control = vec![0u64; libc::CMSG_SPACE(len) as usize / 8 + 1];
        if !fds.is_empty() {
            hdr.msg_control = control.as_mut_ptr() as _;
            hdr.msg_controllen = libc::CMSG_SPACE(len) as _;
            let c = libc::CMSG_FIRSTHDR(&hdr);
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            (*c).cmsg_len = libc::CMSG_LEN(len) as _;
            std::ptr::copy_nonoverlapping(fds.as_ptr(), libc::CMSG_DATA(c) as *mut RawFd, fds.len());
        }
        let end = crate::interpose::real_now() + Duration::from_secs(2);
        loop {
            let r = raw6(
                libc::SYS_sendmsg,
                fd as i64,
                &hdr as *const _ as i64,
                (libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) as i64,
                0,
                0,
                0,
            );
            if r >= 0 {
                return Ok(());
            }
            let e = io::Error::from_raw_os_error(-r as i32);
            if e.kind() == io::ErrorKind::Interrupted {
                continue;
            }
            if e.kind() != io::ErrorKind::WouldBlock || crate::interpose::real_now() > end {
                return Err(e);
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

/// Receive one packet, None at the end of the connection
pub fn recv(fd: RawFd, timeout: Duration) -> io::Result<Option<(Vec<u8>, Vec<OwnedFd>)>> {
    if !readable(fd, timeout) {
        return Err(io::ErrorKind::TimedOut.into());
    }
    unsafe {
        let mut data = vec![0u8; 512 << 10];
        let mut control = vec![0u64; 300];
        let mut iov = libc::iovec { iov_base: data.as_mut_ptr() as _, iov_len: data.len() };
        let mut hdr: libc::msghdr = mem::zeroed();
        hdr.msg_iov = &mut iov;
        hdr.msg_iovlen = 1;
        hdr.msg_control = control.as_mut_ptr() as _;
        hdr.msg_controllen = control.len() * 8;
        let r = raw6(libc::SYS_recvmsg, fd as i64, &mut hdr as *mut _ as i64, libc::MSG_CMSG_CLOEXEC as i64, 0, 0, 0);
        if r < 0 {
            return Err(io::Error::from_raw_os_error(-r as i32));
        }
        if r == 0 {
            return Ok(None);
        }
        data.truncate(r as usize);
        let mut fds = vec![];
        let c = libc::CMSG_FIRSTHDR(&hdr);
        if !c.is_null() {
            let n = ((*c).cmsg_len - libc::CMSG_LEN(0) as usize) / 4;
            for i in 0..n {
                fds.push(OwnedFd::from_raw_fd(*(libc::CMSG_DATA(c) as *const RawFd).add(i)));
            }
        }
        Ok(Some((data, fds)))
    }
}

/// An endpoint (or what asks to become one) made by hand
pub struct Conn {
    pub sock: OwnedFd,
    pub read: OwnedFd,
}

pub fn connect_frame(header: Ver, version: Ver, token: &str, label: &Label) -> Vec<u8> {
    let sel = RawSelector::new(LabelOp::True, SelectorMode::Unicast, CONNECT);
    frame(header, &selector_bytes(&sel), &connect_payload(version, token, label))
}

impl Conn {
    /// Dial and ask for admission. The answer is None when the bus hangs up without any.
    pub fn join(identifier: &str, header: Ver, version: Ver, token: &str, label: &Label, patience: Duration) -> io::Result<(Conn, Option<(Ver, Ack)>)> {
        let sock = dial(identifier)?;
        let (read, write) = reply_pair();
        send(sock.as_raw_fd(), &connect_frame(header, version, token, label), &[write.as_raw_fd()])?;
        drop(write);
        let ack = match recv(read.as_raw_fd(), patience)? {
            Some((data, _)) => match parse(&data) {
                Some((v, s, p)) if s.uuid == CONNECT_ACK => ipmb::decode::<Ack>(&p).ok().map(|a| (v, a)),
                _ => None,
            },
            None => None,
        };
        Ok((Conn { sock, read }, ack))
    }
}

//! The simulated frame transport: pipes with delay, loss, duplication,
//! back-pressure, failures; host-side and server-side ends; and the enum that
//! lets one server type run over every transport.

use crate::kernel::{self, choose, chance, ev, evb, fault, now_ms, sleep, F};
use crate::usb::{Rx3, Rx4, SimDriver, Tx3, Tx4};
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::host_client::{WireRx as HRx, WireSpawn as HSp, WireTx as HTx};
use postcard_rpc::server::impls::test_channels::{ChannelWireRx, ChannelWireTx};
use postcard_rpc::server::{
    AsWireRxErrorKind, AsWireTxErrorKind, WireRx as SRx, WireRxErrorKind, WireSpawn as SSp, WireTx as STx,
    WireTxErrorKind,
};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use serde::Serialize;
use std::collections::VecDeque;
use std::fmt::Arguments;
use std::future::{poll_fn, Future};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Poll, Waker};

#[derive(Debug)]
pub struct WireFail;
impl std::fmt::Display for WireFail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated wire failure")
    }
}
impl std::error::Error for WireFail {}

/// What the link does to one frame
pub enum Act {
    Pass,
    Drop,
    Dup,
    Replace(Vec<u8>),
}

#[derive(Default)]
pub struct PipeSt {
    q: VecDeque<(u64, u64, Vec<u8>)>,
    last_at: u64,
    pub closed: bool,
    pub cap: usize,
    pub max_delay: u64,
    rx_waker: Vec<Waker>,
    tx_waker: Vec<Waker>,
    pub pushed: u64,
    pub popped: u64,
    mangle: Option<Box<dyn FnMut(&[u8]) -> Act + Send>>,
    pub name: &'static str,
}

#[derive(Clone)]
pub struct Pipe(Arc<Mutex<PipeSt>>);

fn wake_all(v: &mut Vec<Waker>) {
    kernel::unpreempted(|| {
        for w in v.drain(..) {
            w.wake();
        }
    })
}

impl Pipe {
    pub fn new(name: &'static str) -> Self {
        Pipe(Arc::new(Mutex::new(PipeSt { cap: usize::MAX, name, ..Default::default() })))
    }
    pub fn st(&self) -> MutexGuard<'_, PipeSt> {
        self.0.lock().unwrap()
    }
    pub fn mangle(&self, f: impl FnMut(&[u8]) -> Act + Send + 'static) {
        self.st().mangle = Some(Box::new(f));
    }
    pub fn clear_mangle(&self) {
        self.st().mangle = None;
    }
    pub fn close(&self) {
        let mut s = self.st();
        s.closed = true;
        wake_all(&mut s.rx_waker);
        wake_all(&mut s.tx_waker);
    }
    pub fn reopen(&self) {
        let mut s = self.st();
        s.closed = false;
        s.q.clear();
    }
    pub fn len(&self) -> usize {
        self.st().q.len()
    }
    /// Put a frame on the line now, whatever the capacity
    pub fn push(&self, f: Vec<u8>) {
        let m = self.st().mangle.take();
        let mut act = Act::Pass;
        if let Some(mut m) = m {
            act = m(&f);
            self.st().mangle = Some(m);
        }
        let fs = match act {
            Act::Pass => vec![f],
            Act::Drop => {
                fault("frame_lost");
                vec![]
            }
            Act::Dup => {
                fault("frame_duplicated");
                vec![f.clone(), f]
            }
            Act::Replace(g) => {
                fault("frame_mangled");
                vec![g]
            }
        };
        for f in fs {
            let now = now_ms();
            let md = self.st().max_delay;
            let d = if md > 0 { choose(F, md as usize + 1) as u64 } else { 0 };
            let mut s = self.st();
            let at = (now + d).max(s.last_at);
            s.last_at = at;
            s.pushed += 1;
            let n = s.pushed;
            s.q.push_back((at, n, f));
            wake_all(&mut s.rx_waker);
        }
    }
    pub async fn send(&self, f: Vec<u8>) -> Result<(), WireFail> {
        poll_fn(|cx| {
            let mut s = self.st();
            if s.closed {
                return Poll::Ready(Err(WireFail));
            }
            if s.q.len() >= s.cap {
                s.tx_waker.push(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        })
        .await?;
        self.push(f);
        Ok(())
    }
    /// Next frame, in order; error once closed (frames still under way are lost)
    pub async fn recv(&self) -> Result<Vec<u8>, WireFail> {
        loop {
            let at = poll_fn(|cx| {
                let mut s = self.st();
                if s.closed {
                    return Poll::Ready(Err(WireFail));
                }
                match s.q.front() {
                    Some((at, _, _)) => Poll::Ready(Ok(*at)),
                    None => {
                        s.rx_waker.push(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
            .await?;
            let now = now_ms();
            if at > now {
                // wake up early if the pipe is closed meanwhile
                let this = self.clone();
                tokio::select! {
                    biased;
                    _ = poll_fn(|cx| {
                        let mut s = this.st();
                        if s.closed { Poll::Ready(()) } else { s.rx_waker.push(cx.waker().clone()); Poll::Pending }
                    }) => {}
                    _ = sleep(at - now) => {}
                }
                continue;
            }
            let mut s = self.st();
            if s.closed {
                return Err(WireFail);
            }
            if let Some((_, _, f)) = s.q.pop_front() {
                s.popped += 1;
                wake_all(&mut s.tx_waker);
                return Ok(f);
            }
        }
    }
    pub fn try_pop(&self) -> Option<Vec<u8>> {
        let mut s = self.st();
        let f = s.q.pop_front().map(|x| x.2);
        if f.is_some() {
            s.popped += 1;
            wake_all(&mut s.tx_waker);
        }
        f
    }
}

// ------------------------------------------------------------------ host ends

#[derive(Default)]
pub struct HostSt {
    /// chance in 16 that sending a frame takes time
    pub tx_slow: u32,
    pub tx_slow_ms: u64,
    /// sends never complete from now on
    pub tx_hang: bool,
    pub tx_fail: bool,
    pub rx_fail: bool,
    /// frames accepted by the transport, with the event clock
    pub sent: Vec<(u64, Vec<u8>)>,
    /// frames whose send was begun
    pub begun: Vec<(u64, Vec<u8>)>,
    /// frames handed to the client
    pub got: Vec<Got>,
    /// how many of them have certainly been processed (the client asked for the next)
    pub processed: usize,
    pub tx_failed_at: Option<u64>,
    pub rx_failed_at: Option<u64>,
    pub tx_dropped: bool,
    pub rx_dropped: bool,
    wakers: Vec<Waker>,
}

/// A frame handed to the client, and when the client asked for the next one
#[derive(Clone)]
pub struct Got {
    pub clock: u64,
    pub ms: u64,
    pub frame: Vec<u8>,
    pub done_clock: u64,
    pub done_ms: u64,
}

/// The host's port of a simulated link
#[derive(Clone)]
pub struct HostPort {
    pub h2d: Pipe,
    pub d2h: Pipe,
    pub st: Arc<Mutex<HostSt>>,
}

impl HostPort {
    pub fn new() -> Self {
        HostPort { h2d: Pipe::new("h2d"), d2h: Pipe::new("d2h"), st: Default::default() }
    }
    pub fn s(&self) -> MutexGuard<'_, HostSt> {
        self.st.lock().unwrap()
    }
    pub fn set_hang(&self, on: bool) {
        let mut s = self.s();
        s.tx_hang = on;
        if !on {
            wake_all(&mut s.wakers);
        }
    }
    pub fn fail_rx(&self) {
        let mut s = self.s();
        s.rx_fail = true;
        wake_all(&mut s.wakers);
    }
    pub fn fail_tx(&self) {
        let mut s = self.s();
        s.tx_fail = true;
        wake_all(&mut s.wakers);
    }
    pub fn ends(&self) -> (SimHostTx, SimHostRx) {
        (SimHostTx(self.clone()), SimHostRx(self.clone()))
    }
}

pub struct SimHostTx(HostPort);
pub struct SimHostRx(HostPort);
impl Drop for SimHostTx {
    fn drop(&mut self) {
        self.0.s().tx_dropped = true;
    }
}
impl Drop for SimHostRx {
    fn drop(&mut self) {
        self.0.s().rx_dropped = true;
    }
}

impl HTx for SimHostTx {
    type Error = WireFail;
    fn send(&mut self, data: Vec<u8>) -> impl Future<Output = Result<(), WireFail>> + Send {
        let p = self.0.clone();
        async move {
            let c = kernel::clock();
            p.s().begun.push((c, data.clone()));
            let (slow, ms) = {
                let s = p.s();
                (s.tx_slow, s.tx_slow_ms)
            };
            if slow > 0 && chance(F, slow, 16) {
                fault("tx_delay");
                let d = choose(F, ms as usize + 1) as u64;
                sleep(d).await;
            }
            // hang or fail?
            let mut counted = false;
            poll_fn(|cx| {
                let mut s = p.s();
                if s.tx_fail {
                    return Poll::Ready(());
                }
                if s.tx_hang {
                    s.wakers.push(cx.waker().clone());
                    if !counted {
                        counted = true;
                        drop(s);
                        fault("tx_hang");
                    }
                    return Poll::Pending;
                }
                Poll::Ready(())
            })
            .await;
            if p.s().tx_fail {
                let mut s = p.s();
                if s.tx_failed_at.is_none() {
                    s.tx_failed_at = Some(kernel::clock());
                    drop(s);
                    fault("tx_error");
                }
                return Err(WireFail);
            }
            evb("h.tx", 0, &data);
            match p.h2d.send(data.clone()).await {
                Ok(()) => {
                    let c = kernel::clock();
                    p.s().sent.push((c, data));
                    Ok(())
                }
                Err(e) => {
                    let c = kernel::clock();
                    p.s().tx_failed_at.get_or_insert(c);
                    Err(e)
                }
            }
        }
    }
}

impl HRx for SimHostRx {
    type Error = WireFail;
    fn receive(&mut self) -> impl Future<Output = Result<Vec<u8>, WireFail>> + Send {
        let p = self.0.clone();
        async move {
            {
                let c = kernel::clock();
                let ms = now_ms();
                let mut s = p.s();
                s.processed = s.got.len();
                if let Some(g) = s.got.last_mut() {
                    if g.done_clock == u64::MAX {
                        g.done_clock = c;
                        g.done_ms = ms;
                    }
                }
            }
            let r = tokio::select! {
                biased;
                _ = poll_fn(|cx| {
                    let mut s = p.s();
                    if s.rx_fail { Poll::Ready(()) } else { s.wakers.push(cx.waker().clone()); Poll::Pending }
                }) => Err(WireFail),
                r = p.d2h.recv() => r,
            };
            match r {
                Ok(f) => {
                    let c = kernel::clock();
                    evb("h.rx", c, &f);
                    p.s().got.push(Got { clock: c, ms: now_ms(), frame: f.clone(), done_clock: u64::MAX, done_ms: u64::MAX });
                    Ok(f)
                }
                Err(e) => {
                    let c = kernel::clock();
                    p.s().rx_failed_at.get_or_insert(c);
                    ev("h.rxerr", 0, 0, 0);
                    Err(e)
                }
            }
        }
    }
}

/// Spawns the client's workers on the simulated scheduler
pub struct KernelSpawn(pub Arc<Mutex<Vec<kernel::TaskId>>>);
impl KernelSpawn {
    pub fn new() -> Self {
        KernelSpawn(Default::default())
    }
}
impl HSp for KernelSpawn {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        let n = self.0.lock().unwrap().len();
        let t = kernel::spawn(format!("worker{n}"), fut);
        self.0.lock().unwrap().push(t);
    }
}

// ------------------------------------------------------------------ server ends

#[derive(Clone, Debug)]
pub enum SrvEv {
    /// receive was called
    GetStart,
    /// and gave this frame
    Got(Vec<u8>),
    /// or this error
    GetErr(WireRxErrorKind),
    /// a send ended
    Put(Vec<u8>, Option<WireTxErrorKind>),
    /// the run loop returned (recorded by the harness)
    End(crate::icd::SrvEnd),
    /// the run loop was entered
    Run,
}

#[derive(Default)]
pub struct SrvSt {
    pub tx_buf: usize,
    pub tx_slow: u32,
    pub tx_slow_ms: u64,
    /// the next sends fail with these (front first)
    pub tx_errs: VecDeque<Option<WireTxErrorKind>>,
    /// the next receives fail with these
    pub rx_errs: VecDeque<WireRxErrorKind>,
    /// chance in 64 of a transient error per send
    pub p_tx_other: u32,
    /// frames put on the wire
    pub sent: Vec<(u64, Vec<u8>)>,
    /// results of sends that failed by injection: (clock, kind, would-be frame)
    pub failed: Vec<(u64, WireTxErrorKind, Vec<u8>)>,
    /// frames that did not fit
    pub unfit: Vec<Vec<u8>>,
    /// frames handed to the server
    pub got: Vec<(u64, Vec<u8>)>,
    pub too_large: Vec<Vec<u8>>,
    pub recv_calls: u64,
    pub log_seq: u16,
    /// everything the server did at this port, in order
    pub log: Vec<SrvEv>,
    wakers: Vec<Waker>,
}

#[derive(Clone)]
pub struct SrvPort {
    pub h2d: Pipe,
    pub d2h: Pipe,
    pub st: Arc<Mutex<SrvSt>>,
    /// one frame at a time
    lock: Arc<tokio::sync::Mutex<()>>,
}

impl SrvPort {
    pub fn new(h2d: Pipe, d2h: Pipe) -> Self {
        SrvPort {
            h2d,
            d2h,
            st: Arc::new(Mutex::new(SrvSt { tx_buf: 4096, ..Default::default() })),
            lock: Default::default(),
        }
    }
    pub fn s(&self) -> MutexGuard<'_, SrvSt> {
        self.st.lock().unwrap()
    }
    /// Make the pending or next receive fail
    pub fn inject_rx(&self, k: WireRxErrorKind) {
        let mut s = self.s();
        s.rx_errs.push_back(k);
        wake_all(&mut s.wakers);
    }
    async fn put(&self, frame: Vec<u8>) -> Result<(), WireTxErrorKind> {
        let r = self.put_(frame.clone()).await;
        self.s().log.push(SrvEv::Put(frame, r.err()));
        r
    }
    async fn put_(&self, frame: Vec<u8>) -> Result<(), WireTxErrorKind> {
        let _g = self.lock.lock().await;
        let (slow, ms, cap) = {
            let s = self.s();
            (s.tx_slow, s.tx_slow_ms, s.tx_buf)
        };
        if frame.len() > cap {
            kernel::probe("reply_did_not_fit");
            self.s().unfit.push(frame);
            return Err(WireTxErrorKind::Other);
        }
        if slow > 0 && chance(F, slow, 16) {
            fault("srv_tx_delay");
            sleep(choose(F, ms as usize + 1) as u64).await;
        }
        let forced = self.s().tx_errs.pop_front().flatten();
        let p = self.s().p_tx_other;
        let err = match forced {
            Some(k) => Some(k),
            None if p > 0 && chance(F, p, 64) => Some(WireTxErrorKind::Other),
            None => None,
        };
        if let Some(k) = err {
            fault(match k {
                WireTxErrorKind::ConnectionClosed => "srv_tx_closed",
                WireTxErrorKind::Timeout => "srv_tx_timeout",
                _ => "srv_tx_other",
            });
            let c = kernel::clock();
            self.s().failed.push((c, k, frame));
            return Err(k);
        }
        match self.d2h.send(frame.clone()).await {
            Ok(()) => {
                let c = kernel::clock();
                evb("s.tx", c, &frame);
                self.s().sent.push((c, frame));
                Ok(())
            }
            Err(_) => {
                let c = kernel::clock();
                self.s().failed.push((c, WireTxErrorKind::ConnectionClosed, frame));
                Err(WireTxErrorKind::ConnectionClosed)
            }
        }
    }
    async fn get<'a>(&self, buf: &'a mut [u8]) -> Result<&'a mut [u8], WireRxErrorKind> {
        {
            let mut s = self.s();
            s.recv_calls += 1;
            s.log.push(SrvEv::GetStart);
        }
        let r = tokio::select! {
            biased;
            k = poll_fn(|cx| {
                let mut s = self.s();
                match s.rx_errs.pop_front() {
                    Some(k) => Poll::Ready(k),
                    None => { s.wakers.push(cx.waker().clone()); Poll::Pending }
                }
            }) => Err(k),
            r = self.h2d.recv() => r.map_err(|_| WireRxErrorKind::ConnectionClosed),
        };
        match r {
            Ok(f) => {
                let c = kernel::clock();
                evb("s.rx", c, &f);
                if f.len() > buf.len() {
                    kernel::probe("request_too_large");
                    let mut s = self.s();
                    s.too_large.push(f);
                    s.log.push(SrvEv::GetErr(WireRxErrorKind::ReceivedMessageTooLarge));
                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
                }
                buf[..f.len()].copy_from_slice(&f);
                let n = f.len();
                let mut s = self.s();
                s.log.push(SrvEv::Got(f.clone()));
                s.got.push((c, f));
                Ok(&mut buf[..n])
            }
            Err(k) => {
                fault(match k {
                    WireRxErrorKind::ConnectionClosed => "srv_rx_closed",
                    WireRxErrorKind::ReceivedMessageTooLarge => "srv_rx_too_large",
                    _ => "srv_rx_other",
                });
                self.s().log.push(SrvEv::GetErr(k));
                Err(k)
            }
        }
    }
}

// ------------------------------------------------------------------ any transport

/// The repository's own server transports
#[derive(Clone)]
pub enum RealTx {
    U3(Tx3),
    U4(Tx4),
    Chan(ChannelWireTx),
}
pub enum RealRx {
    U3(Rx3),
    U4(Rx4),
    Chan(ChannelWireRx),
}
/// `Real` ones only record at the `SrvPort` what passes by
#[derive(Clone)]
pub enum AnyTx {
    Sim(SrvPort),
    Real(RealTx, SrvPort),
}
pub enum AnyRx {
    Sim(SrvPort),
    Real(RealRx, SrvPort),
}

fn log_hdr(kkind: VarKeyKind, n: u16) -> VarHeader {
    let mut key = VarKey::Key8(LoggingTopic::TOPIC_KEY);
    key.shrink_to(kkind);
    VarHeader { key, seq_no: VarSeq::Seq2(n) }
}

impl STx for RealTx {
    type Error = WireTxErrorKind;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), WireTxErrorKind> {
        match self {
            RealTx::U3(t) => t.send(hdr, msg).await,
            RealTx::U4(t) => t.send(hdr, msg).await,
            RealTx::Chan(t) => t.send(hdr, msg).await.map_err(|e| e.as_kind()),
        }
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), WireTxErrorKind> {
        match self {
            RealTx::U3(t) => t.send_raw(buf).await,
            RealTx::U4(t) => t.send_raw(buf).await,
            RealTx::Chan(t) => t.send_raw(buf).await.map_err(|e| e.as_kind()),
        }
    }
    async fn send_log_str(&self, kkind: VarKeyKind, s: &str) -> Result<(), WireTxErrorKind> {
        match self {
            RealTx::U3(t) => t.send_log_str(kkind, s).await,
            RealTx::U4(t) => t.send_log_str(kkind, s).await,
            RealTx::Chan(t) => t.send_log_str(kkind, s).await.map_err(|e| e.as_kind()),
        }
    }
    async fn send_log_fmt<'a>(&self, kkind: VarKeyKind, a: Arguments<'a>) -> Result<(), WireTxErrorKind> {
        match self {
            RealTx::U3(t) => t.send_log_fmt(kkind, a).await,
            RealTx::U4(t) => t.send_log_fmt(kkind, a).await,
            RealTx::Chan(t) => t.send_log_fmt(kkind, a).await.map_err(|e| e.as_kind()),
        }
    }
}
impl SRx for RealRx {
    type Error = WireRxErrorKind;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], WireRxErrorKind> {
        match self {
            RealRx::U3(r) => r.receive(buf).await,
            RealRx::U4(r) => r.receive(buf).await,
            RealRx::Chan(r) => r.receive(buf).await.map_err(|e| e.as_kind()),
        }
    }
}

impl SrvPort {
    /// Record the outcome of a send on a real transport
    fn tap(&self, frame: Vec<u8>, r: &Result<(), WireTxErrorKind>) {
        let c = kernel::clock();
        let mut s = self.s();
        s.log.push(SrvEv::Put(frame.clone(), r.err()));
        match r {
            Ok(()) => s.sent.push((c, frame)),
            Err(WireTxErrorKind::Other) if frame.len() > s.tx_buf => {
                kernel::probe("reply_did_not_fit");
                s.unfit.push(frame)
            }
            Err(k) => s.failed.push((c, *k, frame)),
        }
    }
}

impl STx for AnyTx {
    type Error = WireTxErrorKind;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), WireTxErrorKind> {
        let mut v = hdr.write_to_vec();
        let body = postcard::to_stdvec(msg).map_err(|_| WireTxErrorKind::Other)?;
        if let AnyTx::Sim(_) = self {
            // as a transport with a buffer does it
            let n = v.len();
            let mut b = vec![0xa5; n + 3];
            match hdr.write_to_slice(&mut b) {
                Some((h, r)) => check!(h == &v[..] && r.len() == 3, "C20:header_forms", "{hdr:?}: written to a slice {h:02x?}, to a vector {v:02x?}"),
                None => kernel::fail("C20:header_forms", format!("{hdr:?} cannot be written to a slice")),
            }
            let full = hdr.write_to_slice(&mut b[..n]).is_some();
            let short = hdr.write_to_slice(&mut b[..n - 1]).is_some();
            check!(full && !short, "C20:header_room", "{hdr:?} of {n} bytes: fits in {n}: {full}, in one less: {short}");
            v.copy_from_slice(&b[..n]);
        }
        v.extend(body);
        match self {
            AnyTx::Sim(p) => p.put(v).await,
            AnyTx::Real(t, p) => {
                let r = t.send(hdr, msg).await;
                p.tap(v, &r);
                r
            }
        }
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), WireTxErrorKind> {
        match self {
            AnyTx::Sim(p) => p.put(buf.to_vec()).await,
            AnyTx::Real(t, p) => {
                let r = t.send_raw(buf).await;
                p.tap(buf.to_vec(), &r);
                r
            }
        }
    }
    async fn send_log_str(&self, kkind: VarKeyKind, s: &str) -> Result<(), WireTxErrorKind> {
        match self {
            AnyTx::Sim(p) => {
                let n = {
                    let mut st = p.s();
                    let n = st.log_seq;
                    st.log_seq = n.wrapping_add(1);
                    n
                };
                self.send(log_hdr(kkind, n), s).await
            }
            AnyTx::Real(t, _) => t.send_log_str(kkind, s).await,
        }
    }
    async fn send_log_fmt<'a>(&self, kkind: VarKeyKind, a: Arguments<'a>) -> Result<(), WireTxErrorKind> {
        match self {
            AnyTx::Sim(_) => self.send_log_str(kkind, &format!("{a}")).await,
            AnyTx::Real(t, _) => t.send_log_fmt(kkind, a).await,
        }
    }
}

impl SRx for AnyRx {
    type Error = WireRxErrorKind;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], WireRxErrorKind> {
        match self {
            AnyRx::Sim(p) => p.get(buf).await,
            AnyRx::Real(r, p) => {
                {
                    let mut s = p.s();
                    s.recv_calls += 1;
                    s.log.push(SrvEv::GetStart);
                }
                let r = r.receive(buf).await;
                let c = kernel::clock();
                let mut s = p.s();
                match &r {
                    Ok(f) => {
                        evb("s.rx", c, f);
                        s.log.push(SrvEv::Got(f.to_vec()));
                        s.got.push((c, f.to_vec()));
                    }
                    Err(k) => s.log.push(SrvEv::GetErr(*k)),
                }
                r
            }
        }
    }
}

/// Starts spawned handlers on the simulated scheduler; can refuse
#[derive(Clone)]
pub struct SimSpawner(pub Arc<Mutex<SpawnSt>>);
#[derive(Default)]
pub struct SpawnSt {
    pub refuse: u32,
    pub running: usize,
    pub limit: usize,
    pub refused: u64,
}
impl SimSpawner {
    pub fn new() -> Self {
        SimSpawner(Arc::new(Mutex::new(SpawnSt { limit: usize::MAX, ..Default::default() })))
    }
}
impl SSp for SimSpawner {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
pub fn sim_spawn(sp: &SimSpawner, f: impl Future<Output = ()> + 'static) -> Result<(), ()> {
    {
        let mut s = sp.0.lock().unwrap();
        let no = s.running >= s.limit || (s.refuse > 0 && chance(F, s.refuse, 8));
        if no {
            s.refused += 1;
            drop(s);
            fault("spawn_refused");
            return Err(());
        }
        s.running += 1;
    }
    let sp = sp.clone();
    kernel::spawn("handler", async move {
        f.await;
        sp.0.lock().unwrap().running -= 1;
    });
    Ok(())
}

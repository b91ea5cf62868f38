//! The simulated USB device controller (an embassy-usb driver): one bulk OUT
//! and one bulk IN endpoint with small packet FIFOs.

use crate::kernel::{self, leak, leak_buf};
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use embassy_usb_driver as drv;
use embassy_usb_driver::{Direction, EndpointAddress, EndpointError, EndpointInfo, EndpointType};
use postcard_rpc::server::impls::{embassy_usb_v0_3 as v3, embassy_usb_v0_4 as v4};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Poll, Waker};

pub type Tx3 = v3::EUsbWireTx<NoopRawMutex, SimDriver>;
pub type Tx4 = v4::EUsbWireTx<NoopRawMutex, SimDriver>;
pub type Rx3 = v3::EUsbWireRx<SimDriver>;
pub type Rx4 = v4::EUsbWireRx<SimDriver>;

#[derive(Default)]
pub struct UsbSt {
    pub enabled: bool,
    /// packets the device handed to the controller, not yet fetched by the host
    pub in_q: VecDeque<Vec<u8>>,
    pub in_cap: usize,
    /// packets from the host waiting for the device
    pub out_q: VecDeque<Vec<u8>>,
    pub out_cap: usize,
    /// a packet that does not fit the buffer stays in the controller
    pub overflow_sticky: bool,
    pub dev_wakers: Vec<Waker>,
    pub host_wakers: Vec<Waker>,
    /// every packet accepted from the device (clock, ms, data); not cleared by a disconnect
    pub in_log: Vec<(u64, u64, Vec<u8>)>,
    pub resets: u64,
    /// the largest packet the device tried to send
    pub max_write: usize,
    /// how many packets of `in_log` came before each bus reset
    pub reset_at: Vec<usize>,
    /// what the device read: packets, and disabled endpoints
    pub out_log: Vec<Rd>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rd {
    Pkt(Vec<u8>),
    Disabled,
}

#[derive(Clone)]
pub struct Usb(pub Arc<Mutex<UsbSt>>);

impl Usb {
    pub fn new() -> Self {
        Usb(Arc::new(Mutex::new(UsbSt { enabled: true, in_cap: 1, out_cap: 1, ..Default::default() })))
    }
    pub fn s(&self) -> MutexGuard<'_, UsbSt> {
        self.0.lock().unwrap()
    }
    pub fn wake_dev(&self) {
        let v = std::mem::take(&mut self.s().dev_wakers);
        for w in v {
            w.wake();
        }
    }
    pub fn wake_host(&self) {
        let v = std::mem::take(&mut self.s().host_wakers);
        for w in v {
            w.wake();
        }
    }
    /// Bus reset / unplug: everything under way is gone
    pub fn disable(&self) {
        {
            let mut s = self.s();
            s.enabled = false;
            s.in_q.clear();
            s.out_q.clear();
            s.resets += 1;
            let n = s.in_log.len();
            s.reset_at.push(n);
        }
        self.wake_dev();
        self.wake_host();
    }
    pub fn enable(&self) {
        self.s().enabled = true;
        self.wake_dev();
        self.wake_host();
    }
    /// Host: fetch one packet (None: disabled)
    pub async fn fetch(&self) -> Option<Vec<u8>> {
        let r = poll_fn(|cx| {
            let mut s = self.s();
            if !s.enabled {
                return Poll::Ready(None);
            }
            match s.in_q.pop_front() {
                Some(p) => Poll::Ready(Some(p)),
                None => {
                    s.host_wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        self.wake_dev();
        r
    }
    pub fn try_fetch(&self) -> Option<Vec<u8>> {
        let p = self.s().in_q.pop_front();
        if p.is_some() {
            self.wake_dev();
        }
        p
    }
    /// Host: send one packet; false when disabled
    pub async fn put(&self, p: Vec<u8>) -> bool {
        let mut p = Some(p);
        let r = poll_fn(|cx| {
            let mut s = self.s();
            if !s.enabled {
                return Poll::Ready(false);
            }
            if s.out_q.len() >= s.out_cap {
                s.host_wakers.push(cx.waker().clone());
                return Poll::Pending;
            }
            s.out_q.push_back(p.take().unwrap());
            Poll::Ready(true)
        })
        .await;
        self.wake_dev();
        r
    }
    pub fn driver(&self) -> SimDriver {
        SimDriver { u: self.clone() }
    }
}

pub struct SimDriver {
    u: Usb,
}
pub struct EpOut {
    u: Usb,
    info: EndpointInfo,
}
pub struct EpIn {
    u: Usb,
    info: EndpointInfo,
}
pub struct NoBus;
pub struct NoCtl;

impl drv::Endpoint for EpOut {
    fn info(&self) -> &EndpointInfo {
        &self.info
    }
    async fn wait_enabled(&mut self) {
        wait_enabled(&self.u).await
    }
}
impl drv::Endpoint for EpIn {
    fn info(&self) -> &EndpointInfo {
        &self.info
    }
    async fn wait_enabled(&mut self) {
        wait_enabled(&self.u).await
    }
}
async fn wait_enabled(u: &Usb) {
    poll_fn(|cx| {
        let mut s = u.s();
        if s.enabled {
            Poll::Ready(())
        } else {
            s.dev_wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}

impl drv::EndpointOut for EpOut {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, EndpointError> {
        let u = self.u.clone();
        // an operation under way does not survive a bus reset
        let gen = u.s().resets;
        let r = poll_fn(|cx| {
            let mut s = u.s();
            if !s.enabled || s.resets != gen {
                s.out_log.push(Rd::Disabled);
                return Poll::Ready(Err(EndpointError::Disabled));
            }
            let Some(p) = s.out_q.front() else {
                s.dev_wakers.push(cx.waker().clone());
                return Poll::Pending;
            };
            if p.len() > buf.len() {
                if !s.overflow_sticky {
                    let p = s.out_q.pop_front().unwrap();
                    s.out_log.push(Rd::Pkt(p));
                }
                return Poll::Ready(Err(EndpointError::BufferOverflow));
            }
            let p = s.out_q.pop_front().unwrap();
            buf[..p.len()].copy_from_slice(&p);
            let n = p.len();
            s.out_log.push(Rd::Pkt(p));
            Poll::Ready(Ok(n))
        })
        .await;
        self.u.wake_host();
        r
    }
}

impl drv::EndpointIn for EpIn {
    async fn write(&mut self, buf: &[u8]) -> Result<(), EndpointError> {
        let u = self.u.clone();
        {
            let mut s = u.s();
            s.max_write = s.max_write.max(buf.len());
        }
        if buf.len() > self.info.max_packet_size as usize {
            return Err(EndpointError::BufferOverflow);
        }
        let gen = u.s().resets;
        let r = poll_fn(|cx| {
            let mut s = u.s();
            if !s.enabled || s.resets != gen {
                return Poll::Ready(Err(EndpointError::Disabled));
            }
            if s.in_q.len() >= s.in_cap {
                s.dev_wakers.push(cx.waker().clone());
                return Poll::Pending;
            }
            s.in_q.push_back(buf.to_vec());
            let c = kernel::clock();
            s.in_log.push((c, kernel::now_ms(), buf.to_vec()));
            Poll::Ready(Ok(()))
        })
        .await;
        if r.is_ok() {
            kernel::evb("d.pkt", 0, buf);
        }
        self.u.wake_host();
        r
    }
}

impl drv::ControlPipe for NoCtl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        std::future::pending().await
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, EndpointError> {
        std::future::pending().await
    }
    async fn data_in(&mut self, _: &[u8], _: bool, _: bool) -> Result<(), EndpointError> {
        std::future::pending().await
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _: u8) {}
}
impl drv::Bus for NoBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> drv::Event {
        std::future::pending().await
    }
    fn endpoint_set_enabled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_set_stalled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}

/// The packet sizes a full-speed bulk endpoint can have
fn full_speed_bulk(ep_type: EndpointType, mps: u16) -> bool {
    ep_type == EndpointType::Bulk && matches!(mps, 8 | 16 | 32 | 64)
}

impl drv::Driver<'static> for SimDriver {
    type EndpointOut = EpOut;
    type EndpointIn = EpIn;
    type ControlPipe = NoCtl;
    type Bus = NoBus;
    fn alloc_endpoint_out(&mut self, ep_type: EndpointType, mps: u16, interval_ms: u8) -> Result<EpOut, drv::EndpointAllocError> {
        if !full_speed_bulk(ep_type, mps) {
            return Err(drv::EndpointAllocError);
        }
        let info = EndpointInfo { addr: EndpointAddress::from_parts(1, Direction::Out), ep_type, max_packet_size: mps, interval_ms };
        Ok(EpOut { u: self.u.clone(), info })
    }
    fn alloc_endpoint_in(&mut self, ep_type: EndpointType, mps: u16, interval_ms: u8) -> Result<EpIn, drv::EndpointAllocError> {
        if !full_speed_bulk(ep_type, mps) {
            return Err(drv::EndpointAllocError);
        }
        let info = EndpointInfo { addr: EndpointAddress::from_parts(1, Direction::In), ep_type, max_packet_size: mps, interval_ms };
        Ok(EpIn { u: self.u.clone(), info })
    }
    fn start(self, _: u16) -> (NoBus, NoCtl) {
        (NoBus, NoCtl)
    }
}

type St3 = v3::dispatch_impl::WireStorage<NoopRawMutex, SimDriver, 256, 256, 64, 256>;
type St4 = v4::dispatch_impl::WireStorage<NoopRawMutex, SimDriver, 256, 256, 64, 256>;

pub fn init3(u: &Usb, tx_buf: usize) -> (Tx3, Rx3) {
    let st: &'static St3 = leak(St3::new());
    let (drv, cfg, buf) = (u.driver(), embassy_usb_0_3::Config::new(0x16c0, 0x27dd), leak_buf(tx_buf));
    if kernel::choose(kernel::W, 2) == 1 {
        let (_usb, tx, rx) = st.init(drv, cfg, buf);
        return (tx, rx);
    }
    let (_builder, tx, rx) = st.init_without_build(drv, cfg, buf);
    (tx, rx)
}
pub fn init4(u: &Usb, tx_buf: usize) -> (Tx4, Rx4) {
    let st: &'static St4 = leak(St4::new());
    let (drv, cfg, buf) = (u.driver(), embassy_usb_0_4::Config::new(0x16c0, 0x27dd), leak_buf(tx_buf));
    if kernel::choose(kernel::W, 2) == 1 {
        let (_usb, tx, rx) = st.init(drv, cfg, buf);
        return (tx, rx);
    }
    let (_builder, tx, rx) = st.init_without_build(drv, cfg, buf);
    (tx, rx)
}

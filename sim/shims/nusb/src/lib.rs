//! Simulated stand-in for the `nusb` crate (API subset of 0.1.x).
//!
//! `Queue`s only keep the transfers; the harness plays host controller and
//! completes them through [`sim::Ep`].
use std::io;

pub type Error = io::Error;

pub mod sim {
    use super::transfer::TransferError;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::{Arc, Mutex};
    use std::task::Waker;

    #[derive(Default, Debug)]
    pub struct Xfer {
        /// OUT: the bytes to send. IN: the bytes received so far.
        pub data: Vec<u8>,
        /// OUT: bytes moved. IN: requested length.
        pub len: usize,
        pub cancel: bool,
        pub done: Option<Result<(), TransferError>>,
    }

    #[derive(Default)]
    pub struct EpState {
        pub xfers: VecDeque<Xfer>,
        pub waker: Option<Waker>,
        pub hc_waker: Option<Waker>,
        pub halted: bool,
        pub clear_halts: u32,
        pub clear_halt_with_pending: u32,
        pub clear_halt_fails: bool,
        pub dropped: bool,
        pub submitted: u64,
        pub gone: bool,
    }

    #[derive(Clone, Default)]
    pub struct Ep(pub Arc<Mutex<EpState>>);

    impl Ep {
        pub fn with<R>(&self, f: impl FnOnce(&mut EpState) -> R) -> R {
            f(&mut self.0.lock().unwrap())
        }
        pub fn kick_hc(&self) {
            let w = self.with(|s| s.hc_waker.take());
            if let Some(w) = w {
                w.wake()
            }
        }
        /// Wake whoever waits for the front transfer, if it is done
        pub fn kick_queue(&self) {
            let w = self.with(|s| match s.xfers.front() {
                Some(x) if x.done.is_some() => s.waker.take(),
                _ => None,
            });
            if let Some(w) = w {
                w.wake()
            }
        }
    }

    #[derive(Clone)]
    pub struct EpDesc {
        pub address: u8,
        pub is_in: bool,
        pub bulk: bool,
        pub mps: usize,
        pub ep: Ep,
    }

    #[derive(Clone)]
    pub struct IfDesc {
        pub class: u8,
        pub subclass: u8,
        pub protocol: u8,
        pub string: Option<String>,
        pub eps: Vec<EpDesc>,
    }

    #[derive(Clone)]
    pub struct SimDevice {
        pub serial: Option<String>,
        pub product: Option<String>,
        pub manufacturer: Option<String>,
        pub vid: u16,
        pub pid: u16,
        pub interfaces: Vec<IfDesc>,
        pub open_fails: bool,
        pub claim_fails: bool,
    }

    thread_local! {
        static DEVICES: RefCell<Vec<SimDevice>> = const { RefCell::new(Vec::new()) };
    }
    pub fn set_devices(d: Vec<SimDevice>) {
        DEVICES.with(|x| *x.borrow_mut() = d);
    }
    pub(crate) fn devices() -> Vec<SimDevice> {
        DEVICES.with(|x| x.borrow().clone())
    }
}

pub fn list_devices() -> Result<impl Iterator<Item = DeviceInfo>, Error> {
    Ok(sim::devices().into_iter().map(|d| DeviceInfo {
        ifs: d
            .interfaces
            .iter()
            .enumerate()
            .map(|(i, f)| InterfaceInfo {
                num: i as u8,
                class: f.class,
                subclass: f.subclass,
                protocol: f.protocol,
                string: f.string.clone(),
            })
            .collect(),
        d,
    }))
}

#[derive(Clone)]
pub struct DeviceInfo {
    d: sim::SimDevice,
    ifs: Vec<InterfaceInfo>,
}

impl DeviceInfo {
    pub fn bus_number(&self) -> u8 {
        1
    }
    pub fn device_address(&self) -> u8 {
        1
    }
    pub fn vendor_id(&self) -> u16 {
        self.d.vid
    }
    pub fn product_id(&self) -> u16 {
        self.d.pid
    }
    pub fn device_version(&self) -> u16 {
        0x0100
    }
    pub fn class(&self) -> u8 {
        0xEF
    }
    pub fn subclass(&self) -> u8 {
        0x02
    }
    pub fn protocol(&self) -> u8 {
        0x01
    }
    pub fn manufacturer_string(&self) -> Option<&str> {
        self.d.manufacturer.as_deref()
    }
    pub fn product_string(&self) -> Option<&str> {
        self.d.product.as_deref()
    }
    pub fn serial_number(&self) -> Option<&str> {
        self.d.serial.as_deref()
    }
    pub fn interfaces(&self) -> impl Iterator<Item = &InterfaceInfo> {
        self.ifs.iter()
    }
    pub fn open(&self) -> Result<Device, Error> {
        if self.d.open_fails {
            return Err(io::Error::new(io::ErrorKind::PermissionDenied, "sim open"));
        }
        Ok(Device { d: self.d.clone() })
    }
}

#[derive(Clone, Debug)]
pub struct InterfaceInfo {
    num: u8,
    class: u8,
    subclass: u8,
    protocol: u8,
    string: Option<String>,
}

impl InterfaceInfo {
    pub fn interface_number(&self) -> u8 {
        self.num
    }
    pub fn class(&self) -> u8 {
        self.class
    }
    pub fn subclass(&self) -> u8 {
        self.subclass
    }
    pub fn protocol(&self) -> u8 {
        self.protocol
    }
    pub fn interface_string(&self) -> Option<&str> {
        self.string.as_deref()
    }
}

#[derive(Clone)]
pub struct Device {
    d: sim::SimDevice,
}

impl Device {
    pub fn claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        if self.d.claim_fails {
            return Err(io::Error::new(io::ErrorKind::ResourceBusy, "sim claim"));
        }
        let i = self
            .d
            .interfaces
            .get(interface as usize)
            .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no such interface"))?;
        Ok(Interface { num: interface, d: i.clone() })
    }
    pub fn detach_and_claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        self.claim_interface(interface)
    }
}

#[derive(Clone)]
pub struct Interface {
    num: u8,
    d: sim::IfDesc,
}

impl Interface {
    pub fn interface_number(&self) -> u8 {
        self.num
    }
    pub fn descriptors(&self) -> impl Iterator<Item = descriptors::InterfaceAltSetting> + '_ {
        std::iter::once(descriptors::InterfaceAltSetting { num: self.num, d: self.d.clone() })
    }
    fn ep(&self, a: u8) -> sim::Ep {
        self.d
            .eps
            .iter()
            .find(|e| e.address == a)
            .map(|e| e.ep.clone())
            .unwrap_or_default()
    }
    pub fn bulk_in_queue(&self, endpoint: u8) -> transfer::Queue<transfer::RequestBuffer> {
        transfer::Queue::new(self.ep(endpoint))
    }
    pub fn bulk_out_queue(&self, endpoint: u8) -> transfer::Queue<Vec<u8>> {
        transfer::Queue::new(self.ep(endpoint))
    }
    pub fn set_alt_setting(&self, _alt: u8) -> Result<(), Error> {
        Ok(())
    }
    pub fn clear_halt(&self, endpoint: u8) -> Result<(), Error> {
        transfer::do_clear_halt(&self.ep(endpoint))
    }
}

pub mod descriptors {
    use crate::transfer::{Direction, EndpointType};

    pub struct InterfaceAltSetting {
        pub(crate) num: u8,
        pub(crate) d: crate::sim::IfDesc,
    }
    impl InterfaceAltSetting {
        pub fn interface_number(&self) -> u8 {
            self.num
        }
        pub fn alternate_setting(&self) -> u8 {
            0
        }
        pub fn num_endpoints(&self) -> u8 {
            self.d.eps.len() as u8
        }
        pub fn class(&self) -> u8 {
            self.d.class
        }
        pub fn subclass(&self) -> u8 {
            self.d.subclass
        }
        pub fn protocol(&self) -> u8 {
            self.d.protocol
        }
        pub fn endpoints(&self) -> impl Iterator<Item = Endpoint> + '_ {
            self.d.eps.iter().map(|e| Endpoint { d: e.clone() })
        }
    }
    pub struct Endpoint {
        d: crate::sim::EpDesc,
    }
    impl Endpoint {
        pub fn address(&self) -> u8 {
            self.d.address
        }
        pub fn direction(&self) -> Direction {
            if self.d.is_in {
                Direction::In
            } else {
                Direction::Out
            }
        }
        pub fn transfer_type(&self) -> EndpointType {
            if self.d.bulk {
                EndpointType::Bulk
            } else {
                EndpointType::Interrupt
            }
        }
        pub fn max_packet_size(&self) -> usize {
            self.d.mps
        }
        pub fn packets_per_microframe(&self) -> u8 {
            1
        }
        pub fn interval(&self) -> u8 {
            0
        }
    }
}

pub mod transfer {
    use crate::sim::{Ep, Xfer};
    use crate::Error;
    use std::fmt::Display;
    use std::future::{poll_fn, Future};
    use std::io;
    use std::marker::PhantomData;
    use std::task::{Context, Poll};

    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum EndpointType {
        Control = 0,
        Isochronous = 1,
        Bulk = 2,
        Interrupt = 3,
    }

    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum Direction {
        Out = 0,
        In = 1,
    }

    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum TransferError {
        Cancelled,
        Stall,
        Disconnected,
        Fault,
        Unknown,
    }
    impl Display for TransferError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for TransferError {}
    impl From<TransferError> for io::Error {
        fn from(value: TransferError) -> Self {
            io::Error::new(io::ErrorKind::Other, value)
        }
    }

    #[derive(Debug, Clone)]
    #[must_use]
    pub struct Completion<T> {
        pub data: T,
        pub status: Result<(), TransferError>,
    }
    impl<T> Completion<T> {
        pub fn into_result(self) -> Result<T, TransferError> {
            self.status.map(|()| self.data)
        }
    }

    #[derive(Debug)]
    pub struct RequestBuffer {
        v: Vec<u8>,
        requested: usize,
    }
    impl RequestBuffer {
        pub fn new(len: usize) -> RequestBuffer {
            RequestBuffer { v: Vec::new(), requested: len }
        }
        pub fn reuse(mut v: Vec<u8>, len: usize) -> RequestBuffer {
            v.clear();
            RequestBuffer { v, requested: len }
        }
    }
    #[derive(Debug)]
    pub struct ResponseBuffer {
        v: Vec<u8>,
        transferred: usize,
    }
    impl ResponseBuffer {
        pub fn actual_length(&self) -> usize {
            self.transferred
        }
        pub fn reuse(mut self) -> Vec<u8> {
            self.v.clear();
            self.v
        }
    }

    pub trait TransferRequest {
        type Response;
        #[doc(hidden)]
        fn into_xfer(self) -> Xfer;
        #[doc(hidden)]
        fn from_xfer(x: Xfer) -> Self::Response;
    }
    impl TransferRequest for RequestBuffer {
        type Response = Vec<u8>;
        fn into_xfer(self) -> Xfer {
            Xfer { data: self.v, len: self.requested, cancel: false, done: None }
        }
        fn from_xfer(x: Xfer) -> Vec<u8> {
            x.data
        }
    }
    impl TransferRequest for Vec<u8> {
        type Response = ResponseBuffer;
        fn into_xfer(self) -> Xfer {
            Xfer { data: self, len: 0, cancel: false, done: None }
        }
        fn from_xfer(x: Xfer) -> ResponseBuffer {
            ResponseBuffer { v: x.data, transferred: x.len }
        }
    }

    pub struct Queue<R: TransferRequest> {
        ep: Ep,
        _pd: PhantomData<fn() -> R>,
    }

    impl<R: TransferRequest + Send + Sync> Queue<R> {
        pub(crate) fn new(ep: Ep) -> Self {
            Self { ep, _pd: PhantomData }
        }
        pub fn submit(&mut self, data: R) {
            let mut x = data.into_xfer();
            self.ep.with(|s| {
                if s.gone {
                    x.done = Some(Err(TransferError::Disconnected));
                }
                s.submitted += 1;
                s.xfers.push_back(x)
            });
            self.ep.kick_hc();
            self.ep.kick_queue();
        }
        pub fn next_complete<'a>(
            &'a mut self,
        ) -> impl Future<Output = Completion<R::Response>> + Unpin + Send + Sync + 'a {
            poll_fn(|cx| self.poll_next(cx))
        }
        pub fn poll_next(&mut self, cx: &mut Context) -> Poll<Completion<R::Response>> {
            self.ep.with(|s| {
                let f = s
                    .xfers
                    .front()
                    .expect("queue should have pending transfers when calling next_complete");
                if f.done.is_some() {
                    let x = s.xfers.pop_front().unwrap();
                    let status = x.done.unwrap();
                    Poll::Ready(Completion { data: R::from_xfer(x), status })
                } else {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            })
        }
        pub fn pending(&self) -> usize {
            self.ep.with(|s| s.xfers.len())
        }
        pub fn cancel_all(&mut self) {
            self.ep.with(|s| {
                for x in s.xfers.iter_mut() {
                    x.cancel = true;
                }
            });
            self.ep.kick_hc();
        }
        pub fn clear_halt(&mut self) -> Result<(), Error> {
            do_clear_halt(&self.ep)
        }
    }

    pub(crate) fn do_clear_halt(ep: &Ep) -> Result<(), Error> {
        let r = ep.with(|s| {
            s.clear_halts += 1;
            if !s.xfers.is_empty() {
                s.clear_halt_with_pending += 1;
            }
            if s.clear_halt_fails || s.gone {
                Err(io::Error::new(io::ErrorKind::Other, "sim clear_halt"))
            } else {
                s.halted = false;
                Ok(())
            }
        });
        ep.kick_hc();
        r
    }

    impl<R: TransferRequest> Drop for Queue<R> {
        fn drop(&mut self) {
            self.ep.with(|s| {
                s.dropped = true;
                s.xfers.clear();
            });
            self.ep.kick_hc();
        }
    }
}

//! Simulated stand-in for `tokio-serial` (API subset).
//!
//! `SerialStream` moves bytes through a [`sim::Port`] that the harness feeds
//! and drains; chunk sizes, delays, errors and EOF are decided by the harness.
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind {
    NoDevice,
    InvalidInput,
    Unknown,
    Io(io::ErrorKind),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    pub kind: ErrorKind,
    pub description: String,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.description)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DataBits { Five, Six, Seven, Eight }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FlowControl { None, Software, Hardware }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Parity { None, Odd, Even }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum StopBits { One, Two }

#[derive(Debug, Clone)]
pub struct SerialPortBuilder {
    pub path: String,
    pub baud: u32,
}
pub fn new<'a>(path: impl Into<std::borrow::Cow<'a, str>>, baud_rate: u32) -> SerialPortBuilder {
    SerialPortBuilder { path: path.into().into_owned(), baud: baud_rate }
}
impl SerialPortBuilder {
    pub fn baud_rate(mut self, b: u32) -> Self { self.baud = b; self }
    pub fn data_bits(self, _: DataBits) -> Self { self }
    pub fn flow_control(self, _: FlowControl) -> Self { self }
    pub fn parity(self, _: Parity) -> Self { self }
    pub fn stop_bits(self, _: StopBits) -> Self { self }
    pub fn timeout(self, _: Duration) -> Self { self }
}
pub trait SerialPortBuilderExt {
    fn open_native_async(self) -> Result<SerialStream>;
}
impl SerialPortBuilderExt for SerialPortBuilder {
    fn open_native_async(self) -> Result<SerialStream> {
        match sim::lookup(&self.path) {
            Some(port) => Ok(SerialStream { port }),
            None => Err(Error { kind: ErrorKind::NoDevice, description: "no such port".into() }),
        }
    }
}

pub mod sim {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::io;
    use std::sync::{Arc, Mutex};
    use std::task::Waker;

    /// One thing a `read()` call may see, in order
    #[derive(Debug, Clone)]
    pub enum RxItem {
        /// at most these bytes are returned by one read
        Chunk(Vec<u8>),
        /// read returns this error once
        Err(io::ErrorKind),
        /// every later read returns Ok(0)
        Eof,
    }

    pub struct PortState {
        pub rx: VecDeque<RxItem>,
        pub rx_waker: Option<Waker>,
        /// reads that returned Ok(0) because of EOF
        pub eof_reads: u64,
        /// bytes written by the host, not yet taken by the harness
        pub tx: Vec<u8>,
        /// how many more bytes writes may take before pending
        pub tx_budget: usize,
        /// largest single write accepted (short writes)
        pub tx_max_chunk: usize,
        pub tx_err: Option<io::ErrorKind>,
        pub tx_zero: bool,
        pub tx_waker: Option<Waker>,
        pub dev_waker: Option<Waker>,
        pub dropped: bool,
    }
    impl Default for PortState {
        fn default() -> Self {
            Self {
                rx: Default::default(),
                rx_waker: None,
                eof_reads: 0,
                tx: vec![],
                tx_budget: usize::MAX,
                tx_max_chunk: usize::MAX,
                tx_err: None,
                tx_zero: false,
                tx_waker: None,
                dev_waker: None,
                dropped: false,
            }
        }
    }
    #[derive(Clone, Default)]
    pub struct Port(pub Arc<Mutex<PortState>>);
    impl Port {
        pub fn with<R>(&self, f: impl FnOnce(&mut PortState) -> R) -> R {
            f(&mut self.0.lock().unwrap())
        }
        pub fn push_rx(&self, it: RxItem) {
            let w = self.with(|s| {
                s.rx.push_back(it);
                s.rx_waker.take()
            });
            if let Some(w) = w {
                w.wake()
            }
        }
        pub fn kick_tx(&self) {
            let w = self.with(|s| s.tx_waker.take());
            if let Some(w) = w {
                w.wake()
            }
        }
    }
    thread_local! {
        static PORTS: RefCell<Vec<(String, Port)>> = const { RefCell::new(Vec::new()) };
    }
    pub fn set_ports(p: Vec<(String, Port)>) {
        PORTS.with(|x| *x.borrow_mut() = p);
    }
    pub(crate) fn lookup(path: &str) -> Option<Port> {
        PORTS.with(|x| x.borrow().iter().find(|(n, _)| n == path).map(|(_, p)| p.clone()))
    }
    /// Reads at EOF after which the port stops answering, so that a reader that
    /// spins on Ok(0) can be told from one that gives up (the harness reads
    /// `eof_reads`).
    pub const EOF_SPIN_LIMIT: u64 = 10_000;
}

pub struct SerialStream {
    port: sim::Port,
}
impl std::fmt::Debug for SerialStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SerialStream(sim)")
    }
}
impl SerialStream {
    pub fn open(builder: &SerialPortBuilder) -> Result<Self> {
        builder.clone().open_native_async()
    }
}
impl Drop for SerialStream {
    fn drop(&mut self) {
        let w = self.port.with(|s| {
            s.dropped = true;
            s.dev_waker.take()
        });
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl AsyncRead for SerialStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.port.with(|s| {
            match s.rx.front_mut() {
                None => {
                    s.rx_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
                Some(sim::RxItem::Chunk(c)) => {
                    let n = c.len().min(buf.remaining());
                    buf.put_slice(&c[..n]);
                    c.drain(..n);
                    if c.is_empty() {
                        s.rx.pop_front();
                    }
                    Poll::Ready(Ok(()))
                }
                Some(sim::RxItem::Err(k)) => {
                    let k = *k;
                    s.rx.pop_front();
                    Poll::Ready(Err(io::Error::new(k, "sim read error")))
                }
                Some(sim::RxItem::Eof) => {
                    s.eof_reads += 1;
                    if s.eof_reads > sim::EOF_SPIN_LIMIT {
                        s.rx_waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    Poll::Ready(Ok(()))
                }
            }
        })
    }
}
impl AsyncWrite for SerialStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let (r, w) = self.port.with(|s| {
            if let Some(k) = s.tx_err {
                return (Poll::Ready(Err(io::Error::new(k, "sim write error"))), None);
            }
            if s.tx_zero {
                return (Poll::Ready(Ok(0)), None);
            }
            let n = buf.len().min(s.tx_budget).min(s.tx_max_chunk);
            if n == 0 && !buf.is_empty() {
                s.tx_waker = Some(cx.waker().clone());
                return (Poll::Pending, s.dev_waker.take());
            }
            s.tx_budget = s.tx_budget.saturating_sub(n);
            s.tx.extend_from_slice(&buf[..n]);
            (Poll::Ready(Ok(n)), s.dev_waker.take())
        });
        if let Some(w) = w {
            w.wake()
        }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

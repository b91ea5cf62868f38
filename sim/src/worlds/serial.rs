//! The COBS accumulator on its own, and the serial host transport over a
//! simulated line: chunking, short writes, noise, cut packets, errors, EOF.

use super::host::{BOUND, PATIENCE};
use crate::check;
use crate::codec::{self, *};
use crate::icd::*;
use crate::kernel::{self, *};
use crate::runner::MainFut;
use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};
use postcard_rpc::header::{VarKey, VarSeq, VarSeqKind};
use postcard_rpc::host_client::RawMultiSubscription;
use postcard_rpc::standard_icd::{PingEndpoint, ERROR_PATH};
use postcard_rpc::{Endpoint, Topic};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::rc::Rc;
use std::task::Poll;
use tokio_serial::sim::{Port, RxItem};

// ------------------------------------------------------------------ streams

/// A payload to encode: runs with and without zeros
fn payload(max: usize) -> Vec<u8> {
    let n = match choose(W, 6) {
        0 => choose(W, 6),
        1 => choose(W, 40),
        2 => [253, 254, 255, 256, 508, 509, 510][choose(W, 7)],
        3 => max.saturating_sub(choose(W, 12)),
        4 => max + choose(W, 40),
        _ => choose(W, max + 1),
    }
    .min(4000);
    match choose(W, 4) {
        0 => vec![0; n],
        1 => (0..n).map(|i| (i % 255) as u8 + 1).collect(),
        2 => (0..n).map(|i| (i % 5) as u8).collect(),
        _ => bytes(W, n),
    }
}

/// What happens to an encoded packet on the line
fn mangle(mut p: Vec<u8>) -> Vec<u8> {
    let n = p.len();
    match choose(F, 7) {
        0 => {
            fault("lost_bytes");
            let a = choose(F, n);
            let k = range(F, 1, 4).min(n - a);
            p.drain(a..a + k);
        }
        1 => {
            fault("flipped_bits");
            let a = choose(F, n);
            p[a] ^= 1 << choose(F, 8);
        }
        2 => {
            fault("cut_packet");
            p.truncate(choose(F, n));
        }
        3 => {
            fault("lost_delimiter");
            p.pop();
        }
        4 => {
            fault("noise");
            let k = range(F, 1, 30);
            let mut v = bytes(F, k);
            v.extend(p);
            p = v;
        }
        5 => {
            fault("extra_delimiter");
            let a = choose(F, n + 1);
            p.insert(a, 0);
        }
        _ => {
            fault("long_noise");
            let k = range(F, 1, 3000);
            let x = bytes(F, 1)[0] | 1;
            let mut v = vec![x; k];
            v.extend(p);
            p = v;
        }
    }
    p
}

fn chunks(mut s: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mode = choose(S, 4);
    while !s.is_empty() {
        let n = match mode {
            0 => s.len(),
            1 => 1 + choose(S, 3),
            2 => 1 + choose(S, 80),
            _ => 1 + choose(S, 1500),
        }
        .min(s.len())
        .min(max);
        out.push(s[..n].to_vec());
        s = &s[n..];
    }
    out
}

// ------------------------------------------------------------------ accumulator

pub fn acc() -> MainFut {
    Box::pin(async {
        nontrivial();
        match choose(W, 12) {
            0 => acc_n::<1>(),
            1 => acc_n::<2>(),
            2 => acc_n::<3>(),
            3 => acc_n::<8>(),
            4 => acc_n::<16>(),
            5 => acc_n::<33>(),
            6 => acc_n::<64>(),
            7 => acc_n::<255>(),
            8 => acc_n::<256>(),
            9 => acc_n::<257>(),
            10 => acc_n::<600>(),
            _ => acc_n::<1024>(),
        }
    })
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    Data(Vec<u8>),
    Bad,
    Over,
}

fn acc_n<const N: usize>() {
    let mut stream: Vec<u8> = vec![];
    for _ in 0..range(W, 1, 10) {
        let p = cobs_enc(&payload(N.saturating_sub(2)));
        stream.extend(if choose(F, 3) == 0 { mangle(p) } else { p });
    }
    note(|| format!("capacity {N}, {} bytes", stream.len()));
    evb("stream", N as u64, &stream);
    // the reference: delimited packets of the stream
    let mut want = vec![];
    let mut rest = &stream[..];
    while let Some(z) = rest.iter().position(|b| *b == 0) {
        let p = &rest[..z];
        want.push(if z + 1 > N {
            probe("over_long");
            Out::Over
        } else {
            match cobs_dec(p) {
                Some(d) => Out::Data(d),
                None => {
                    probe("invalid");
                    Out::Bad
                }
            }
        });
        rest = &rest[z + 1..];
    }
    let open_long = rest.len() > N;
    let mut acc = CobsAccumulator::<N>::new();
    let mut got = vec![];
    // delimiters seen when a report was made (to attribute it to a packet)
    let mut seen: Vec<(usize, Out)> = vec![];
    let mut fed = 0;
    let mut zeros = 0;
    for c in chunks(&stream, 4096) {
        let mut win = &c[..];
        let mut steps = 0;
        let mut first = true;
        // an empty read changes nothing
        if chance(S, 1, 10) && !matches!(acc.feed(&[]), FeedResult::Consumed) {
            return fail("C23:empty_input", "feeding nothing reported something");
        }
        while !win.is_empty() || first {
            first = false;
            steps += 1;
            if steps > 2 * c.len() + 8 {
                return fail("C23:stuck", format!("feeding {} bytes makes no progress", win.len()));
            }
            let before = win.len();
            let (o, r) = match if choose(S, 2) == 0 { acc.feed(win) } else { acc.feed_ref(win) } {
                FeedResult::Consumed => (None, &win[before..]),
                FeedResult::OverFull(r) => (Some(Out::Over), r),
                FeedResult::DeserError(r) => (Some(Out::Bad), r),
                FeedResult::Success { data, remaining } => (Some(Out::Data(data.to_vec())), remaining),
            };
            if r.len() > before || win[before - r.len()..] != *r || (!r.is_empty() && r.as_ptr() != win[before - r.len()..].as_ptr()) {
                return fail("C23:remaining", "what is given back is not the rest of the input");
            }
            zeros += win[..before - r.len()].iter().filter(|b| **b == 0).count();
            fed += before - r.len();
            ev("fed", before as u64, r.len() as u64, 0);
            if let Some(o) = o {
                seen.push((zeros, o.clone()));
                got.push(o);
            }
            win = r;
        }
    }
    if fed != stream.len() {
        return fail("C23:consumed", format!("{fed} of {} bytes were taken", stream.len()));
    }
    let data = |v: &[Out]| v.iter().filter_map(|o| if let Out::Data(d) = o { Some(d.clone()) } else { None }).filter(|d| !d.is_empty()).collect::<Vec<_>>();
    let (dw, dg) = (data(&want), data(&got));
    if let Some(i) = (0..dw.len().max(dg.len())).find(|i| dw.get(*i) != dg.get(*i)) {
        let h = |x: Option<&Vec<u8>>| x.map(|d| format!("{} bytes {}", d.len(), hex(&d[..d.len().min(40)])));
        let kind = match (dg.get(i), dw.get(i)) {
            (None, _) => "lost",
            (_, None) => "invented",
            _ => "wrong_data",
        };
        return fail(&format!("C23:{kind}"), format!("packet {i}: got {:?}, expected {:?}", h(dg.get(i)), h(dw.get(i))));
    }
    // every broken packet is reported while it passes by
    for (i, o) in want.iter().enumerate() {
        if *o == Out::Bad || *o == Out::Over {
            // its bytes lie between delimiter i and i + 1
            let ok = seen.iter().any(|(z, s)| (*z == i || *z == i + 1) && s == o);
            check!(ok, "C23:unreported", "packet {i} is {o:?} but was not reported");
        }
    }
    let bad = |v: &[Out], k: Out| v.iter().filter(|o| **o == k).count();
    check!(bad(&got, Out::Bad) <= bad(&want, Out::Bad), "C23:false_report", "a good packet was reported as invalid");
    check!(bad(&want, Out::Over) + open_long as usize > 0 || bad(&got, Out::Over) == 0, "C23:false_report", "a packet that fits was reported as too long");
}

// ------------------------------------------------------------------ the transport

struct Sw {
    port: Port,
    /// everything the device ever put on the line
    line: Sh<Vec<u8>>,
    /// what the device wants to put on the line
    q: Sh<VecDeque<Vec<u8>>>,
    /// everything the client put on the line
    out: Sh<Vec<u8>>,
    busy: Sh<bool>,
    got: Sh<Vec<(usize, Vec<u8>)>>,
    kw: KW,
}
type SWd = Rc<Sw>;

const SUBS: usize = 3;
fn key(t: usize) -> [u8; 8] {
    [OutA::TOPIC_KEY, OutN::TOPIC_KEY, OutU::TOPIC_KEY][t].to_bytes()
}

async fn line_task(w: SWd) {
    let slow = choose(F, 3) == 0;
    loop {
        let p = w.q.borrow_mut().pop_front();
        let Some(mut p) = p else {
            *w.busy.borrow_mut() = false;
            sleep(1).await;
            continue;
        };
        *w.busy.borrow_mut() = true;
        // several packets may share a read
        while choose(S, 2) == 0 {
            match w.q.borrow_mut().pop_front() {
                Some(x) => p.extend(x),
                None => break,
            }
        }
        w.line.borrow_mut().extend(&p);
        for c in chunks(&p, 1 << 20) {
            w.port.push_rx(RxItem::Chunk(c));
            if slow && chance(S, 1, 6) {
                fault("slow_line");
                sleep(choose(S, 4) as u64).await;
            } else if chance(S, 1, 3) {
                yield_now().await;
            }
        }
    }
}

async fn dev_task(w: SWd) {
    let mut part: Vec<u8> = vec![];
    loop {
        let b = poll_fn(|cx| {
            w.port.with(|s| {
                if s.dropped && s.tx.is_empty() {
                    return Poll::Ready(None);
                }
                if s.tx.is_empty() {
                    s.dev_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Poll::Ready(Some(std::mem::take(&mut s.tx)))
            })
        })
        .await;
        let Some(b) = b else { return };
        w.out.borrow_mut().extend(&b);
        for x in b {
            if x != 0 {
                part.push(x);
                continue;
            }
            let p = std::mem::take(&mut part);
            let Some(f) = cobs_dec(&p) else { continue };
            evb("dev", 0, &f);
            if let Some((h, b)) = codec::dec(&f) {
                if h.is(PingEndpoint::REQ_KEY.to_bytes()) {
                    w.q.borrow_mut().push_back(cobs_enc(&codec::enc(PingEndpoint::RESP_KEY.to_bytes(), w.kw, h.sw, h.seq, b)));
                }
            }
        }
    }
}

/// The line accepts bytes slowly
async fn drip_task(w: SWd) {
    loop {
        sleep(1 + choose(S, 3) as u64).await;
        let n = [1, 7, 64, 500][choose(S, 4)];
        w.port.with(|s| s.tx_budget = s.tx_budget.saturating_add(n));
        w.port.kick_tx();
    }
}

fn frame(w: &SWd, id: u32) -> Vec<u8> {
    let t = [0, 0, 1, 2][choose(W, 4)];
    let sw = *pick(W, &SWS);
    let body = match t {
        0 => {
            let n = match choose(W, 6) {
                0 => choose(W, 8),
                1 => choose(W, 60),
                2 => 230 + choose(W, 40),
                3 => 960 + choose(W, 80),
                4 => choose(W, 2200),
                _ => choose(W, 1000),
            };
            crate::icd::enc(&Msg { id, data: if choose(W, 3) == 0 { vec![7; n] } else { bytes(W, n) } })
        }
        1 => crate::icd::enc(&id),
        _ => vec![],
    };
    codec::enc(key(t), w.kw, sw, id, &body)
}

/// Which frames of the line are for which subscription, and whether they must
/// be recognised (their key has the width the device uses)
fn expected(w: &SWd) -> Vec<(usize, Vec<u8>, bool)> {
    let line = w.line.borrow();
    let mut v = vec![];
    let mut rest = &line[..];
    while let Some(z) = rest.iter().position(|b| *b == 0) {
        if z + 1 <= 1024 {
            if let Some(f) = cobs_dec(&rest[..z]) {
                if let Some((h, _)) = codec::dec(&f) {
                    if f.len() < 9 {
                        probe("short_frame");
                    }
                    for t in 0..SUBS {
                        if h.is(key(t)) {
                            v.push((t, f.clone(), h.kw == w.kw));
                        }
                    }
                }
            }
        } else {
            probe("over_long");
        }
        rest = &rest[z + 1..];
    }
    v
}

fn raw_of(f: &postcard_rpc::host_client::RpcFrame) -> Vec<u8> {
    let (k, mut kb) = match f.header.key {
        VarKey::Key1(k) => (0u8, vec![k.to_bytes()]),
        VarKey::Key2(k) => (1, k.to_bytes().to_vec()),
        VarKey::Key4(k) => (2, k.to_bytes().to_vec()),
        VarKey::Key8(k) => (3, k.to_bytes().to_vec()),
    };
    let (s, sb) = match f.header.seq_no {
        VarSeq::Seq1(x) => (0u8, vec![x]),
        VarSeq::Seq2(x) => (1, x.to_le_bytes().to_vec()),
        VarSeq::Seq4(x) => (2, x.to_le_bytes().to_vec()),
    };
    let mut v = vec![k << 6 | s << 4];
    v.append(&mut kb);
    v.extend(sb);
    v.extend(&f.body);
    v
}

pub fn line() -> MainFut {
    Box::pin(line_main())
}

async fn line_main() {
    nontrivial();
    let port = Port::default();
    tokio_serial::sim::set_ports(vec![("/dev/other".into(), Port::default()), ("/dev/ttyS7".into(), port.clone())]);
    let sk = *pick(W, &[VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4]);
    check!(Client::try_new_serial_cobs("/dev/nothing", ERROR_PATH, 8, 115_200, sk).is_err(), "C16:ghost", "a port that does not exist was opened");
    let cl = match Client::try_new_serial_cobs("/dev/ttyS7", ERROR_PATH, [1, 2, 8][choose(W, 3)], 115_200, sk) {
        Ok(c) => c,
        Err(e) => return fail("C16:connect", format!("cannot open the port: {e}")),
    };
    let w: SWd = Rc::new(Sw {
        port,
        line: sh(vec![]),
        q: sh(VecDeque::new()),
        out: sh(vec![]),
        busy: sh(false),
        got: sh(vec![]),
        kw: *pick(W, &KWS),
    });
    match choose(F, 4) {
        0 => {}
        1 => w.port.with(|s| s.tx_max_chunk = range(F, 1, 40)),
        _ => w.port.with(|s| {
            fault("slow_writes");
            s.tx_budget = 0;
            s.tx_max_chunk = range(F, 1, 300);
        }),
    }
    let dripping = w.port.with(|s| s.tx_budget == 0);
    let mut subs: Vec<(usize, RawMultiSubscription)> = vec![];
    for t in 0..SUBS {
        match cl.subscribe_multi_raw(postcard_rpc_key(t), 512).await {
            Ok(s) => subs.push((t, s)),
            Err(_) => return fail("C16:closed_at_start", "a new client is closed"),
        }
    }
    let mut sub_tasks = vec![];
    for (t, mut sub) in subs {
        let w = w.clone();
        sub_tasks.push(kernel::spawn(format!("sub{t}"), async move {
            while let Ok(f) = sub.recv().await {
                let f = raw_of(&f);
                evb("sub", t as u64, &f);
                w.got.borrow_mut().push((t, f));
            }
        }));
    }
    kernel::spawn("line", line_task(w.clone()));
    kernel::spawn("dev", dev_task(w.clone()));
    if dripping {
        kernel::spawn("drip", drip_task(w.clone()));
    }
    let noisy = choose(F, 3) > 0;
    let mut tasks = vec![];
    {
        let w = w.clone();
        let n = kernel::count(0, 25, 500);
        tasks.push(kernel::spawn("device", async move {
            for id in 0..n as u32 {
                let f = cobs_enc(&frame(&w, id));
                let f = if noisy && chance(F, 1, 4) { mangle(f) } else { f };
                w.q.borrow_mut().push_back(f);
                if chance(W, 1, 24) {
                    // many small packets at once
                    probe("burst");
                    let n = range(W, 10, 60) as u32;
                    let b: Vec<u8> = (1..=n).flat_map(|k| cobs_enc(&codec::enc(key(1 + (k % 2) as usize), w.kw, SW::S2, k, &if k % 2 == 0 { crate::icd::enc(&(id * 100 + k)) } else { vec![] }))).collect();
                    w.q.borrow_mut().push_back(b);
                }
                if chance(W, 1, 3) {
                    kernel::idle(5).await;
                }
            }
        }));
    }
    let pubs = sh(Vec::<(usize, Msg, bool)>::new());
    for t in 0..range(W, 1, 2) {
        let (cl, pubs) = (cl.clone(), pubs.clone());
        let n = kernel::count(0, 6, 400);
        tasks.push(kernel::spawn(format!("pub{t}"), async move {
            for i in 0..n {
                let id = (t as u32 + 1) * 1000 + i as u32;
                let len = match choose(W, 3) {
                    0 => choose(W, 40),
                    1 => 220 + choose(W, 50),
                    _ => kernel::size(1200, 20_000),
                };
                let m = Msg { id, data: if choose(W, 3) == 0 { vec![9; len] } else { bytes(W, len) } };
                let r = timeout(PATIENCE * 10, cl.publish::<TBlk>(VarSeq::Seq2(id as u16), &m)).await;
                pubs.borrow_mut().push((t, m, matches!(r, Some(Ok(())))));
                if chance(W, 1, 3) {
                    kernel::idle(5).await;
                }
            }
        }));
    }
    if !noisy {
        let cl = cl.clone();
        let n = range(W, 0, 4);
        tasks.push(kernel::spawn("caller", async move {
            for i in 0..n as u32 {
                let r = timeout(PATIENCE * 10, cl.send_resp::<PingEndpoint>(&i)).await;
                if !cl.is_closed() {
                    check!(matches!(r, Some(Ok(x)) if x == i), "C16:call", "a ping over a clean line gave {:?}", r.map(|r| r.map_err(|_| ())));
                }
            }
        }));
    }
    let end = choose(F, 8);
    if (1..=4).contains(&end) {
        sleep(choose(F, 40) as u64).await;
        check!(!cl.is_closed(), "C16:closed_early", "the client closed without a line failure");
        let what = match end {
            1 => {
                fault("eof");
                w.port.push_rx(RxItem::Eof);
                "end of file"
            }
            2 => {
                fault("read_error");
                w.port.push_rx(RxItem::Err(*pick(F, &[io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::NotConnected])));
                "a read error"
            }
            3 => {
                fault("write_error");
                w.port.with(|s| s.tx_err = Some(io::ErrorKind::BrokenPipe));
                "a write error"
            }
            _ => {
                fault("write_zero");
                w.port.with(|s| s.tx_zero = true);
                "a write that takes nothing"
            }
        };
        kernel::stop_idles();
        w.port.kick_tx();
        if end >= 3 {
            let _ = timeout(PATIENCE, cl.publish::<TBlk>(VarSeq::Seq1(0), &Msg { id: 0, data: vec![] })).await;
        }
        let r = timeout(BOUND, cl.wait_closed()).await;
        check!(r.is_some() && cl.is_closed(), "C16:not_closed", "the client is still open after {what}");
        probe("closed");
        for t in tasks {
            check!(timeout(BOUND, join(t)).await.is_some(), "C16:hung", "an operation hangs after {what}");
        }
        for t in sub_tasks {
            check!(timeout(BOUND, join(t)).await.is_some(), "C16:hung", "a subscription does not end after {what}");
        }
        judge_in(&w, false);
        judge_out(&w, &pubs.borrow(), false);
        return;
    }
    for t in tasks {
        check!(timeout(60 * PATIENCE, join(t)).await.is_some(), "C16:hung", "an operation hangs");
    }
    stop_stalls();
    let t0 = now_ms();
    while (*w.busy.borrow() || !w.q.borrow().is_empty()) && now_ms() < t0 + 20 * BOUND {
        sleep(5).await;
    }
    // a delimiter ends whatever was broken; everything works after it
    w.q.borrow_mut().push_back(vec![0]);
    sleep(20).await;
    w.port.with(|s| s.tx_budget = usize::MAX);
    w.port.kick_tx();
    for i in 0..2u32 {
        let r = timeout(BOUND, cl.send_resp::<PingEndpoint>(&(77 + i))).await;
        check!(matches!(r, Some(Ok(x)) if x == 77 + i), "C16:no_traffic", "a ping after the noise gave {:?}", r.map(|r| r.is_ok()));
    }
    check!(!cl.is_closed(), "C16:closed", "the client closed without a line failure");
    sleep(10).await;
    judge_in(&w, true);
    judge_out(&w, &pubs.borrow(), true);
    drop(cl);
    sleep(50).await;
    check!(w.port.with(|s| s.dropped), "C16:kept_open", "the port is still open after the last client was dropped");
}

fn postcard_rpc_key(t: usize) -> postcard_rpc::Key {
    [OutA::TOPIC_KEY, OutN::TOPIC_KEY, OutU::TOPIC_KEY][t]
}

fn judge_in(w: &SWd, complete: bool) {
    let exp = expected(w);
    let got = w.got.borrow();
    for t in 0..SUBS {
        let e: Vec<_> = exp.iter().filter(|x| x.0 == t).collect();
        let mut i = 0;
        for (_, g) in got.iter().filter(|x| x.0 == t) {
            loop {
                let Some(x) = e.get(i) else {
                    return fail("C16:invented", format!("topic {t}: {} bytes arrived that were not on the line at that point: {}", g.len(), hex(&g[..g.len().min(40)])));
                };
                i += 1;
                if x.1 == *g {
                    break;
                }
                if x.2 {
                    return fail("C16:lost", format!("topic {t}: a packet of {} bytes was not delivered: {}", x.1.len(), hex(&x.1[..x.1.len().min(40)])));
                }
            }
        }
        if complete {
            if let Some(x) = e[i..].iter().find(|x| x.2) {
                return fail("C16:lost", format!("topic {t}: a packet of {} bytes was not delivered: {}", x.1.len(), hex(&x.1[..x.1.len().min(40)])));
            }
        }
    }
}

fn judge_out(w: &SWd, pubs: &[(usize, Msg, bool)], complete: bool) {
    let out = w.out.borrow();
    let mut seen: Vec<u32> = vec![];
    let mut rest = &out[..];
    while let Some(z) = rest.iter().position(|b| *b == 0) {
        let Some(f) = cobs_dec(&rest[..z]) else {
            return fail("C16:bad_out", format!("not a packet: {}", hex(&rest[..z.min(60)])));
        };
        rest = &rest[z + 1..];
        let Some((h, b)) = codec::dec(&f) else {
            return fail("C16:bad_out", format!("not a frame: {}", hex(&f)));
        };
        if h.is(TBlk::TOPIC_KEY.to_bytes()) {
            let Ok(m) = postcard::from_bytes::<Msg>(b) else {
                return fail("C16:bad_out", "a published message is damaged");
            };
            if m.id != 0 && (h.seq != m.id || (complete && pubs.iter().all(|p| p.1 != m)) || crate::icd::enc(&m) != b) {
                return fail("C16:bad_out", "a published message is damaged");
            }
            if seen.contains(&m.id) {
                return fail("C16:out_twice", format!("message {} was sent twice", m.id));
            }
            if seen.iter().any(|s| s / 1000 == m.id / 1000 && *s > m.id) {
                return fail("C16:out_order", format!("message {} was sent late", m.id));
            }
            seen.push(m.id);
        } else if !h.is(PingEndpoint::REQ_KEY.to_bytes()) {
            return fail("C16:bad_out", format!("unknown frame {}", hex(&f)));
        }
    }
    if complete {
        check!(rest.is_empty(), "C16:bad_out", "{} bytes of an unfinished packet on the line", rest.len());
        for p in pubs {
            check!(p.2 && seen.contains(&p.1.id), "C16:out_lost", "published message {} was not sent", p.1.id);
        }
    }
}

//! The raw USB host transport against a simulated host controller: stalls,
//! unknown errors, cancellation races, disconnects, slow endpoints.

use super::host::{BOUND, PATIENCE};
use crate::check;
use crate::codec::{self, *};
use crate::icd::*;
use crate::kernel::{self, *};
use crate::runner::MainFut;
use nusb::sim::{Ep as NEp, EpDesc, EpState, IfDesc, SimDevice};
use nusb::transfer::TransferError;
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::standard_icd::{PingEndpoint, ERROR_PATH};
use postcard_rpc::{Endpoint, Topic};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;

/// Wait until the host controller has something to do at this endpoint
pub async fn until<R>(ep: &NEp, mut f: impl FnMut(&mut EpState) -> Option<R>) -> R {
    poll_fn(|cx| {
        ep.with(|s| match f(s) {
            Some(r) => Poll::Ready(r),
            None => {
                s.hc_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    })
    .await
}

/// A device with the wanted interface somewhere among others
pub fn install(serial: &str, mps: usize, ep_out: &NEp, ep_in: &NEp) {
    let e = |address: u8, is_in, bulk, mps, ep: &NEp| EpDesc { address, is_in, bulk, mps, ep: ep.clone() };
    let mut eps = vec![];
    if choose(W, 3) == 1 {
        eps.push(e(0x85, true, false, 8, &NEp::default()));
        eps.push(e(0x05, false, false, 8, &NEp::default()));
    }
    if choose(W, 2) == 1 {
        eps.push(e(0x81, true, true, [mps, 512][choose(W, 2)], ep_in));
        eps.push(e(0x01, false, true, mps, ep_out));
    } else {
        eps.push(e(0x02, false, true, mps, ep_out));
        eps.push(e(0x82, true, true, [mps, 512][choose(W, 2)], ep_in));
    }
    let mut ifs = vec![];
    let decoy = || IfDesc { class: *pick(W, &[3, 0, 0x0a, 0xfe, 0xef]), subclass: 0, protocol: 0, string: None, eps: vec![e(0x86, true, true, 16, &NEp::default()), e(0x06, false, true, 16, &NEp::default())] };
    for _ in 0..choose(W, 2) {
        ifs.push(decoy());
    }
    ifs.push(IfDesc { class: 0xff, subclass: 0xca, protocol: 0x7d, string: None, eps });
    for _ in 0..choose(W, 2) {
        ifs.push(decoy());
    }
    let dev = |serial: &str, interfaces| SimDevice {
        serial: Some(serial.into()),
        product: None,
        manufacturer: None,
        vid: 0x16c0,
        pid: 0x27dd,
        interfaces,
        open_fails: false,
        claim_fails: false,
    };
    let mut all = vec![];
    if choose(W, 2) == 1 {
        all.push(dev("other", vec![]));
    }
    all.push(dev(serial, ifs));
    nusb::sim::set_devices(all);
}

pub fn connect(serial: &str, sk: VarSeqKind) -> Result<Client, String> {
    let depth = [1, 2, 8][choose(W, 3)];
    if choose(W, 2) == 1 {
        Client::try_new_raw_nusb_with_interface(|d| d.serial_number() == Some(serial), |i| i.class() == 0xff, ERROR_PATH, depth, sk)
    } else {
        Client::try_new_raw_nusb(|d| d.serial_number() == Some(serial), ERROR_PATH, depth, sk)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fatal {
    No,
    In(TransferError),
    ClearHalt,
    TooMany,
    Out(TransferError),
}

struct Nw {
    ep_out: NEp,
    ep_in: NEp,
    /// frames the device wants to send
    q: Sh<VecDeque<(u32, Vec<u8>)>>,
    /// ids that may be lost
    lost: Sh<Vec<u32>>,
    /// errors to inject next
    errs: Sh<VecDeque<TransferError>>,
    /// an error was reported and the halt not cleared since (clear_halt count)
    err_at: Sh<Option<u32>>,
    out_err: Sh<Option<TransferError>>,
    outs: Sh<Vec<Vec<u8>>>,
    slow: Sh<u64>,
    sent: Sh<Vec<(u32, Msg)>>,
    got: Sh<Vec<Msg>>,
    ids: Sh<u32>,
    kw: KW,
}
type NW = Rc<Nw>;

fn push(nw: &NW, id: u32, f: Vec<u8>) {
    nw.q.borrow_mut().push_back((id, f));
    nw.ep_in.kick_hc();
}

async fn out_task(nw: NW) {
    let ep = nw.ep_out.clone();
    loop {
        let gone = until(&ep, |s| {
            if s.dropped {
                return Some(true);
            }
            s.xfers.iter().any(|x| x.done.is_none()).then_some(false)
        })
        .await;
        if gone {
            return;
        }
        let d = *nw.slow.borrow();
        if d > 0 && chance(F, 1, 3) {
            fault("slow_out");
            sleep(choose(F, d as usize + 1) as u64).await;
        }
        let e = nw.out_err.borrow_mut().take();
        let done = ep.with(|s| {
            let x = s.xfers.iter_mut().find(|x| x.done.is_none())?;
            match e {
                Some(e) => {
                    x.done = Some(Err(e));
                    None
                }
                None => {
                    x.len = x.data.len();
                    x.done = Some(Ok(()));
                    Some(x.data.clone())
                }
            }
        });
        if let Some(d) = done {
            evb("h.out", 0, &d);
            // the device answers pings
            if let Some((h, b)) = codec::dec(&d) {
                if h.is(PingEndpoint::REQ_KEY.to_bytes()) {
                    push(&nw, 0, codec::enc(PingEndpoint::RESP_KEY.to_bytes(), nw.kw, h.sw, h.seq, b));
                }
            }
            nw.outs.borrow_mut().push(d);
        }
        ep.kick_queue();
    }
}

async fn in_task(nw: NW) {
    enum Job {
        Gone,
        Cancel,
        Deliver,
    }
    let ep = nw.ep_in.clone();
    loop {
        let job = until(&ep, |s| {
            if s.dropped {
                return Some(Job::Gone);
            }
            let x = s.xfers.iter().find(|x| x.done.is_none())?;
            if x.cancel {
                Some(Job::Cancel)
            } else if !s.halted && (!nw.q.borrow().is_empty() || !nw.errs.borrow().is_empty()) {
                Some(Job::Deliver)
            } else {
                None
            }
        })
        .await;
        if let Job::Gone = job {
            return;
        }
        let d = *nw.slow.borrow();
        if d > 0 && chance(F, 1, 3) {
            fault("slow_in");
            sleep(choose(F, d as usize + 1) as u64).await;
        }
        let cancelled = ep.with(|s| s.xfers.iter().find(|x| x.done.is_none()).map(|x| x.cancel));
        let Some(cancelled) = cancelled else { continue };
        if cancelled {
            // a transfer can complete just before it is cancelled
            let halted = ep.with(|s| s.halted);
            let race = !halted && chance(F, 1, 4);
            let f = if race { nw.q.borrow_mut().pop_front() } else { None };
            let junk = if chance(F, 1, 3) { nw.q.borrow().front().map(|f| f.1[..f.1.len() / 2].to_vec()) } else { None };
            ep.with(|s| {
                let Some(x) = s.xfers.iter_mut().find(|x| x.done.is_none()) else { return };
                match f {
                    Some((id, f)) => {
                        fault("completed_while_cancelled");
                        nw.lost.borrow_mut().push(id);
                        x.data = f;
                        x.done = Some(Ok(()));
                    }
                    None => {
                        x.data = junk.unwrap_or_default();
                        x.done = Some(Err(TransferError::Cancelled));
                    }
                }
            });
            ep.kick_queue();
            continue;
        }
        let e = nw.errs.borrow_mut().pop_front();
        if let Some(e) = e {
            fault(match e {
                TransferError::Stall => "in_stall",
                TransferError::Unknown => "in_unknown",
                TransferError::Disconnected => "in_disconnected",
                TransferError::Fault => "in_fault",
                TransferError::Cancelled => "in_cancelled",
            });
            let junk = if chance(F, 1, 3) { nw.q.borrow().front().map(|f| f.1[..f.1.len() / 2].to_vec()) } else { None };
            ep.with(|s| {
                *nw.err_at.borrow_mut() = Some(s.clear_halts);
                if e == TransferError::Stall {
                    s.halted = true;
                }
                if let Some(x) = s.xfers.iter_mut().find(|x| x.done.is_none()) {
                    x.data = junk.unwrap_or_default();
                    x.done = Some(Err(e));
                }
            });
            ep.kick_queue();
            continue;
        }
        let Some((id, f)) = nw.q.borrow_mut().pop_front() else { continue };
        evb("h.in", id as u64, &f);
        ep.with(|s| {
            let x = s.xfers.iter_mut().find(|x| x.done.is_none()).unwrap();
            if f.len() > x.len {
                fail("C15:short_reads", format!("a read of {} bytes was submitted for frames of up to 1024", x.len));
            }
            x.data = f;
            x.done = Some(Ok(()));
        });
        // what completes between an error and the end of its recovery may be lost
        if *nw.err_at.borrow() == Some(ep.with(|s| s.clear_halts)) {
            nw.lost.borrow_mut().push(id);
        }
        ep.kick_queue();
    }
}

pub fn raw() -> MainFut {
    Box::pin(raw_main())
}

async fn raw_main() {
    nontrivial();
    let mps = *pick(W, &[64usize, 8, 16, 32, 512]);
    let (ep_out, ep_in) = (NEp::default(), NEp::default());
    install("dev1", mps, &ep_out, &ep_in);
    let sw = *pick(W, &[SW::S1, SW::S2, SW::S4]);
    let sk = match sw {
        SW::S1 => VarSeqKind::Seq1,
        SW::S2 => VarSeqKind::Seq2,
        SW::S4 => VarSeqKind::Seq4,
    };
    let cl = match connect("dev1", sk) {
        Ok(c) => c,
        Err(e) => return fail("C15:connect", format!("cannot connect: {e}")),
    };
    note(|| format!("mps {mps}"));
    let nw: NW = Rc::new(Nw {
        ep_out,
        ep_in,
        q: sh(VecDeque::new()),
        lost: sh(vec![]),
        errs: sh(VecDeque::new()),
        err_at: sh(None),
        out_err: sh(None),
        outs: sh(vec![]),
        slow: sh([0, 0, 4][choose(F, 3)]),
        sent: sh(vec![]),
        got: sh(vec![]),
        ids: sh(0),
        kw: *pick(W, &[KW::K8, KW::K4, KW::K2, KW::K1]),
    });
    let Ok(mut sub) = cl.subscribe_multi::<OutA>(512).await else {
        return fail("C15:closed_at_start", "a new client is closed");
    };
    {
        let nw = nw.clone();
        kernel::spawn("sub", async move {
            while let Ok(m) = sub.recv().await {
                ev("sub", m.id as u64, 0, 0);
                nw.got.borrow_mut().push(m);
            }
        });
    }
    kernel::spawn("hc.out", out_task(nw.clone()));
    kernel::spawn("hc.in", in_task(nw.clone()));
    // reads in flight
    let recovering = sh(false);
    {
        let (nw, cl) = (nw.clone(), cl.clone());
        kernel::spawn("monitor", async move {
            loop {
                sleep(3).await;
                if cl.is_closed() {
                    return;
                }
                let bad = nw.ep_in.with(|s| {
                    let open = s.xfers.iter().filter(|x| x.done.is_none()).count();
                    let done = s.xfers.iter().filter(|x| x.done.is_some()).count();
                    let quiet = !s.halted && !s.dropped && done == 0 && !s.xfers.iter().any(|x| x.cancel);
                    (quiet && open < 2).then_some(open)
                });
                if let Some(n) = bad {
                    fail("C15:few_reads", format!("only {n} reads are in flight"));
                }
            }
        });
    }
    let mut tasks = vec![];
    // the device talks
    {
        let nw = nw.clone();
        let n = kernel::count(0, 20, 600);
        tasks.push(kernel::spawn("device", async move {
            for _ in 0..n {
                let id = {
                    let mut i = nw.ids.borrow_mut();
                    *i += 1;
                    *i
                };
                let len = match choose(W, 5) {
                    0 => choose(W, 10),
                    1 => choose(W, 100),
                    2 => 64 * range(W, 1, 15) - choose(W, 24),
                    4 => {
                        // as long as a transfer can be, or nearly
                        let o = codec::enc(OutA::TOPIC_KEY.to_bytes(), nw.kw, SW::S4, id, &crate::icd::enc(&Msg { id, data: vec![0; 500] })).len() - 500;
                        probe("longest_transfer");
                        1024 - o - choose(W, 3)
                    }
                    _ => choose(W, 990),
                };
                let m = Msg { id, data: bytes(W, len) };
                let mut f = codec::enc(OutA::TOPIC_KEY.to_bytes(), nw.kw, SW::S4, id, &crate::icd::enc(&m));
                if f.len() > 1024 {
                    continue;
                }
                if chance(F, 1, 8) {
                    // a zero-length transfer is not a frame
                    push(&nw, 0, vec![]);
                }
                if chance(F, 1, 12) {
                    f.truncate(2);
                    push(&nw, 0, f);
                    fault("runt_frame");
                } else {
                    push(&nw, id, f);
                    nw.sent.borrow_mut().push((id, m));
                }
                if chance(W, 1, 3) {
                    kernel::idle(5).await;
                }
            }
        }));
    }
    let pubs = sh(Vec::<(usize, Msg, bool)>::new());
    for t in 0..range(W, 1, 2) {
        let (cl, pubs) = (cl.clone(), pubs.clone());
        let n = kernel::count(0, 8, 400);
        tasks.push(kernel::spawn(format!("pub{t}"), async move {
            for i in 0..n {
                let id = (t as u32 + 1) * 1000 + i as u32;
                let len = match choose(W, 3) {
                    0 => choose(W, 40),
                    1 => mps * range(W, 1, 4).min(2000 / mps) - choose(W, 20).min(mps - 1),
                    _ => kernel::size(1200, 70_000),
                };
                let m = Msg { id, data: bytes(W, len) };
                let r = timeout(PATIENCE, cl.publish::<TBlk>(VarSeq::Seq2(id as u16), &m)).await;
                ev("pub", id as u64, matches!(r, Some(Ok(()))) as u64, 0);
                pubs.borrow_mut().push((t, m, matches!(r, Some(Ok(())))));
                if chance(W, 1, 3) {
                    kernel::idle(5).await;
                }
            }
        }));
    }
    // faults: recoverable ones, then perhaps a fatal one
    let fatal = match choose(F, 10) {
        0..=4 => Fatal::No,
        5 => Fatal::In(TransferError::Disconnected),
        6 => Fatal::In(*pick(F, &[TransferError::Fault, TransferError::Cancelled])),
        7 => Fatal::ClearHalt,
        8 => Fatal::TooMany,
        _ => Fatal::Out(*pick(F, &[TransferError::Stall, TransferError::Disconnected, TransferError::Fault, TransferError::Unknown, TransferError::Cancelled])),
    };
    if choose(F, 3) > 0 {
        for _ in 0..range(F, 1, 3) {
            sleep(choose(F, 12) as u64).await;
            let k = if chance(F, 1, 3) { range(F, 8, 10) } else { range(F, 1, 4) };
            {
                let mut e = nw.errs.borrow_mut();
                for _ in 0..k {
                    e.push_back(*pick(F, &[TransferError::Stall, TransferError::Unknown]));
                }
            }
            *recovering.borrow_mut() = true;
            if k == 10 {
                probe("ten_errors");
            }
            nw.ep_in.kick_hc();
            // let it happen, then something good resets the count
            let t0 = now_ms();
            while !nw.errs.borrow().is_empty() && now_ms() < t0 + BOUND && !cl.is_closed() {
                sleep(2).await;
            }
            // (an answer that completes during the recovery may be lost)
            let mut ok = false;
            for _ in 0..3 {
                if timeout(BOUND, cl.send_resp::<PingEndpoint>(&5)).await.is_some_and(|r| r.is_ok()) {
                    ok = true;
                    break;
                }
            }
            check!(ok || cl.is_closed(), "C15:no_traffic", "no traffic after {k} recoverable errors");
            sleep(3).await;
            check!(!cl.is_closed(), "C15:gave_up", "the client closed after {k} recoverable errors");
            if cl.is_closed() {
                return;
            }
            probe("recovered");
        }
    }
    if fatal != Fatal::No {
        sleep(choose(F, 20) as u64).await;
        check!(!cl.is_closed(), "C15:closed_early", "the client closed without a fatal error");
        note(|| format!("fatal {fatal:?}"));
        match fatal {
            Fatal::No => {}
            Fatal::In(e) => nw.errs.borrow_mut().push_back(e),
            Fatal::ClearHalt => {
                fault("clear_halt_fails");
                nw.ep_in.with(|s| s.clear_halt_fails = true);
                nw.errs.borrow_mut().push_back(TransferError::Stall);
            }
            Fatal::TooMany => {
                for _ in 0..100 {
                    nw.errs.borrow_mut().push_back(*pick(F, &[TransferError::Stall, TransferError::Unknown]));
                }
            }
            Fatal::Out(e) => {
                fault("out_error");
                *nw.out_err.borrow_mut() = Some(e);
                let _ = timeout(PATIENCE, cl.publish::<TBlk>(VarSeq::Seq1(0), &Msg { id: 0, data: vec![] })).await;
            }
        }
        kernel::stop_idles();
        nw.ep_in.kick_hc();
        let r = timeout(BOUND, cl.wait_closed()).await;
        check!(r.is_some() && cl.is_closed(), "C15:not_closed", "the client is still open after {fatal:?}");
        probe("closed");
        for t in tasks {
            check!(timeout(BOUND, join(t)).await.is_some(), "C15:hung", "an operation hangs after the client closed");
        }
        sleep(5).await;
        judge_in(&nw, false);
        return;
    }
    for t in tasks {
        check!(timeout(6 * PATIENCE, join(t)).await.is_some(), "C15:hung", "a publish hangs");
    }
    *nw.slow.borrow_mut() = 0;
    stop_stalls();
    let t0 = now_ms();
    while !(nw.q.borrow().is_empty() && nw.errs.borrow().is_empty()) && now_ms() < t0 + BOUND {
        sleep(5).await;
    }
    sleep(20).await;
    check!(!cl.is_closed(), "C15:closed", "the client closed without a fatal error");
    for i in 0..2u32 {
        let r = timeout(BOUND, cl.send_resp::<PingEndpoint>(&(77 + i))).await;
        check!(matches!(r, Some(Ok(x)) if x == 77 + i), "C15:no_traffic", "a ping after the faults gave {:?}", r.map(|r| r.is_ok()));
    }
    judge_in(&nw, true);
    judge_out(&nw, mps, &pubs.borrow());
}

fn judge_in(nw: &NW, complete: bool) {
    check!(nw.ep_in.with(|s| s.clear_halt_with_pending) == 0, "C15:clear_halt_in_flight", "clear_halt with transfers in flight");
    let got = nw.got.borrow();
    let sent = nw.sent.borrow();
    let mut last = 0;
    for m in got.iter() {
        let Some((_, s)) = sent.iter().find(|(i, _)| *i == m.id) else {
            return fail("C15:invented", format!("message {} was never sent", m.id));
        };
        check!(s == m, "C15:damaged", "message {} arrived changed", m.id);
        check!(m.id > last, "C15:order", "message {} arrived after {last}", m.id);
        last = m.id;
    }
    if complete {
        let lost = nw.lost.borrow();
        for (id, _) in sent.iter() {
            let ok = lost.contains(id) || got.iter().any(|m| m.id == *id);
            check!(ok, "C15:lost", "message {id} was transferred but not delivered");
        }
    }
}

fn judge_out(nw: &NW, mps: usize, pubs: &[(usize, Msg, bool)]) {
    let outs = nw.outs.borrow();
    let mut i = 0;
    let mut seen: Vec<u32> = vec![];
    while i < outs.len() {
        let f = &outs[i];
        i += 1;
        if f.is_empty() {
            return fail("C15:zlp", "a zero-length packet without a frame that needs it");
        }
        let Some((h, b)) = codec::dec(f) else {
            return fail("C15:bad_out", format!("not a frame: {}", hex(f)));
        };
        if f.len() % mps == 0 {
            probe("needs_zlp");
            if outs.get(i).map(|x| x.is_empty()) != Some(true) {
                return fail("C15:zlp", format!("a frame of {} bytes (packets of {mps}) is not ended by a zero-length packet", f.len()));
            }
            i += 1;
        }
        if h.is(TBlk::TOPIC_KEY.to_bytes()) {
            let Ok(m) = postcard::from_bytes::<Msg>(b) else {
                return fail("C15:bad_out", "a published message is damaged");
            };
            if pubs.iter().all(|p| p.1 != m) || crate::icd::enc(&m) != b {
                return fail("C15:bad_out", "a published message is damaged");
            }
            if seen.contains(&m.id) {
                return fail("C15:out_twice", format!("message {} was sent twice", m.id));
            }
            if seen.iter().any(|s| s / 1000 == m.id / 1000 && *s > m.id) {
                return fail("C15:out_order", format!("message {} was sent late", m.id));
            }
            seen.push(m.id);
        } else if !h.is(PingEndpoint::REQ_KEY.to_bytes()) {
            return fail("C15:bad_out", format!("unknown frame {}", hex(f)));
        }
    }
    for p in pubs {
        check!(p.2 && seen.contains(&p.1.id), "C15:out_lost", "published message {} was not sent", p.1.id);
    }
}

//! The whole USB stack: a real client on the raw USB host transport, a
//! simulated host controller and bus, and a real server on the USB device
//! transport. Stalls, slow and stuck hosts, unplugging and plugging in again.

use super::full::*;
use super::host::{BOUND, PATIENCE};
use super::nusb::{connect, install};
use crate::check;
use crate::codec::{self, *};
use crate::icd::*;
use crate::kernel::{self, *};
use crate::link::{AnyRx, AnyTx, RealRx, RealTx, SrvEv};
use crate::runner::MainFut;
use crate::usb::{self, Usb};
use nusb::sim::Ep as NEp;
use nusb::transfer::TransferError;
use postcard_rpc::header::VarSeqKind;
use postcard_rpc::server::Sender;
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;

struct Bus {
    usb: Usb,
    ep_out: NEp,
    ep_in: NEp,
    /// recoverable errors to report between frames
    stalls: Sh<u32>,
    /// chance in 16 that a packet is delayed, and by how much
    slow: Sh<(u32, u64)>,
    /// the host fetches nothing
    stuck: Sh<bool>,
    /// completed outgoing frames
    outs: Sh<Vec<Vec<u8>>>,
}
type B = Rc<Bus>;

async fn lag(b: &B) {
    let (p, ms) = *b.slow.borrow();
    if p > 0 && chance(F, p, 16) {
        fault("slow_bus");
        sleep(choose(F, ms as usize + 1) as u64).await;
    }
}

async fn hc_out(b: B) {
    let mut frame: Vec<u8> = vec![];
    loop {
        let d = super::nusb::until(&b.ep_out, |s| {
            if s.dropped || s.gone {
                return Some(None);
            }
            s.xfers.iter().find(|x| x.done.is_none()).map(|x| Some(x.data.clone()))
        })
        .await;
        let Some(d) = d else { return };
        let pk: Vec<Vec<u8>> = if d.is_empty() { vec![vec![]] } else { d.chunks(64).map(|c| c.to_vec()).collect() };
        for p in pk {
            lag(&b).await;
            if !b.usb.put(p.clone()).await {
                return;
            }
            let short = p.len() < 64;
            frame.extend(p);
            if short {
                b.outs.borrow_mut().push(std::mem::take(&mut frame));
            }
        }
        b.ep_out.with(|s| {
            if let Some(x) = s.xfers.iter_mut().find(|x| x.done.is_none()) {
                x.len = x.data.len();
                x.done = Some(Ok(()));
            }
        });
        b.ep_out.kick_queue();
    }
}

async fn hc_in(b: B) {
    enum Job {
        Gone,
        Cancel,
        Stall,
        Packet(Vec<u8>),
    }
    let mut part: Vec<u8> = vec![];
    loop {
        let job = poll_fn(|cx| {
            let mut u = b.usb.s();
            let r = b.ep_in.with(|s| {
                if s.dropped || s.gone {
                    return Some(Job::Gone);
                }
                let x = s.xfers.iter().find(|x| x.done.is_none())?;
                if x.cancel {
                    return Some(Job::Cancel);
                }
                if s.halted {
                    return None;
                }
                if part.is_empty() && *b.stalls.borrow() > 0 {
                    return Some(Job::Stall);
                }
                if *b.stuck.borrow() {
                    return None;
                }
                u.in_q.pop_front().map(Job::Packet)
            });
            match r {
                Some(j) => Poll::Ready(j),
                None => {
                    b.ep_in.with(|s| s.hc_waker = Some(cx.waker().clone()));
                    u.host_wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        match job {
            Job::Gone => return,
            Job::Cancel => {
                lag(&b).await;
                b.ep_in.with(|s| {
                    if let Some(x) = s.xfers.iter_mut().find(|x| x.done.is_none()) {
                        x.done = Some(Err(TransferError::Cancelled));
                    }
                });
            }
            Job::Stall => {
                fault("in_stall");
                *b.stalls.borrow_mut() -= 1;
                let e = *pick(F, &[TransferError::Stall, TransferError::Unknown]);
                b.ep_in.with(|s| {
                    s.halted = true;
                    if let Some(x) = s.xfers.iter_mut().find(|x| x.done.is_none()) {
                        x.done = Some(Err(e));
                    }
                });
            }
            Job::Packet(p) => {
                b.usb.wake_dev();
                lag(&b).await;
                let short = p.len() < 64;
                part.extend(p);
                if short || part.len() >= 1024 {
                    let d = std::mem::take(&mut part);
                    b.ep_in.with(|s| {
                        if let Some(x) = s.xfers.iter_mut().find(|x| x.done.is_none()) {
                            x.data = d;
                            x.done = Some(Ok(()));
                        }
                    });
                }
            }
        }
        b.ep_in.kick_queue();
    }
}

fn unplug(b: &B) {
    fault("unplug");
    b.usb.disable();
    for ep in [&b.ep_in, &b.ep_out] {
        ep.with(|s| {
            s.gone = true;
            for x in s.xfers.iter_mut().filter(|x| x.done.is_none()) {
                x.done = Some(Err(TransferError::Disconnected));
            }
        });
        ep.kick_hc();
        ep.kick_queue();
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Heard {
    A(Vec<u8>),
    B(Vec<u8>),
    Log(String),
}

struct LogRec {
    text: String,
    ok: bool,
}

async fn logger(fw: FW, snd: Sender<AnyTx>, logs: Sh<Vec<LogRec>>, n: usize) {
    for _ in 0..n {
        kernel::idle(5).await;
        let id = fw.id();
        let k = choose(W, 90);
        let text = format!("log {id} {}", "äx".repeat(k));
        let ix = {
            let mut l = logs.borrow_mut();
            l.push(LogRec { text: text.clone(), ok: false });
            l.len() - 1
        };
        let r = if choose(W, 2) == 0 { snd.log_str(&text).await } else { snd.log_fmt(format_args!("log {} {}", id, "äx".repeat(k))).await };
        logs.borrow_mut()[ix].ok = r.is_ok();
    }
}

pub fn stack() -> MainFut {
    Box::pin(stack_main())
}

async fn stack_main() {
    nontrivial();
    let lossy = is_prop("C21") || choose(F, 3) == 0;
    let v = *pick(W, &VARS);
    let fw = Fw::new([4, 40, 300][choose(W, 3)]);
    let bus_usb = Usb::new();
    {
        let mut s = bus_usb.s();
        s.in_cap = range(W, 1, 3);
        s.out_cap = range(W, 1, 3);
    }
    let tx_buf = if fw.max_data > 100 { *pick(W, &[384usize, 1000, 1024]) } else { *pick(W, &[200usize, 384, 1000, 1024]) };
    fw.srv.s().tx_buf = tx_buf;
    // one sender only keeps the fixed time limit of the older version
    let old = choose(W, 2) == 1;
    let quiet = old && !lossy;
    let (tx, rx) = if old {
        let (t, r) = usb::init3(&bus_usb, tx_buf);
        (RealTx::U3(t), RealRx::U3(r))
    } else {
        let (t, r) = usb::init4(&bus_usb, tx_buf);
        if !lossy {
            t.set_timeout_ms_per_frame(5_000).await;
        }
        (RealTx::U4(t), RealRx::U4(r))
    };
    *fw.lossy.borrow_mut() = lossy;
    set_busy_limit(if lossy { 64 } else { 1000 });
    if quiet {
        stop_stalls();
    }
    let rx_buf = *pick(W, &[400usize, 512, 1000, 2048]);
    let (_t, snd, kw) = serve_on(&fw, v, AnyTx::Real(tx, fw.srv.clone()), AnyRx::Real(rx, fw.srv.clone()), rx_buf, 5);
    {
        let mut s = fw.ctx.st.borrow_mut();
        s.slow = [0, 3, 6][choose(F, 3)];
        s.slow_ms = [2, 20][choose(F, 2)];
    }
    let mut eps = eps_of(v);
    if quiet {
        eps.retain(|e| !e.is_spawn());
    }
    let sessions = if choose(F, 2) == 0 { 1 } else { range(W, 2, 3) };
    for ses in 0..sessions {
        let last = ses + 1 == sessions;
        let b: B = Rc::new(Bus {
            usb: bus_usb.clone(),
            ep_out: NEp::default(),
            ep_in: NEp::default(),
            stalls: sh(0),
            slow: sh(if quiet { (0, 0) } else { [(0, 0), (2, 2), (4, 1), (1, 30)][choose(F, 4)] }),
            stuck: sh(false),
            outs: sh(vec![]),
        });
        if ses > 0 {
            fault("replug");
            b.usb.enable();
        }
        let name = format!("dev{ses}");
        install(&name, 64, &b.ep_out, &b.ep_in);
        let sk = match fw.sw {
            S1 => VarSeqKind::Seq1,
            S2 => VarSeqKind::Seq2,
            S4 => VarSeqKind::Seq4,
        };
        let cl = match connect(&name, sk) {
            Ok(c) => c,
            Err(e) => return fail("C22:connect", format!("cannot connect: {e}")),
        };
        let hcs = [kernel::spawn("hc.out", hc_out(b.clone())), kernel::spawn("hc.in", hc_in(b.clone()))];
        let heard = sh(Vec::<Heard>::new());
        let mut subs = vec![];
        macro_rules! listen {
            ($t:ty, $f:expr) => {
                match cl.subscribe_multi::<$t>(512).await {
                    Ok(mut s) => {
                        let heard = heard.clone();
                        subs.push(kernel::spawn("sub", async move {
                            while let Ok(m) = s.recv().await {
                                ev("heard", 0, 0, 0);
                                heard.borrow_mut().push($f(m));
                            }
                        }));
                    }
                    Err(_) => return fail("C22:closed_at_start", "a new client is closed"),
                }
            };
        }
        listen!(OutA, |m: Msg| Heard::A(crate::icd::enc(&m)));
        listen!(OutB, |m: Msg| Heard::B(crate::icd::enc(&m)));
        listen!(LoggingTopic, Heard::Log);
        let give_up = if lossy { Some(400) } else { None };
        let mut tasks = vec![];
        for i in 0..range(W, 1, 3) {
            tasks.push(kernel::spawn(format!("caller{i}"), caller(fw.clone(), cl.clone(), fw.many(1, 6), eps.clone(), give_up)));
        }
        for i in 0..choose(W, 3) {
            let n = range(W, 1, 6);
            let tps = if quiet { vec![Tp::Blk, Tp::Async, Tp::Flag] } else { Tp::ALL.to_vec() };
            tasks.push(kernel::spawn(format!("pub{i}"), publisher(fw.clone(), cl.clone(), n, i, tps)));
        }
        let logs = sh(vec![]);
        if !quiet && choose(W, 2) == 1 {
            let n = range(W, 1, 6);
            tasks.push(kernel::spawn("announcer", announcer(fw.clone(), snd.clone(), n)));
        }
        if !quiet && choose(W, 2) == 1 {
            let n = range(W, 1, 5);
            tasks.push(kernel::spawn("logger", logger(fw.clone(), snd.clone(), logs.clone(), n)));
        }
        // trouble
        for _ in 0..choose(F, 4) {
            sleep(choose(F, 12) as u64).await;
            if lossy && choose(F, 2) == 0 {
                fault("stuck_host");
                *b.stuck.borrow_mut() = true;
                sleep(choose(F, 60) as u64).await;
                *b.stuck.borrow_mut() = false;
                b.ep_in.kick_hc();
            } else {
                *b.stalls.borrow_mut() = range(F, 1, 3) as u32;
                b.ep_in.kick_hc();
                let t0 = now_ms();
                while *b.stalls.borrow() > 0 && now_ms() < t0 + BOUND {
                    sleep(1).await;
                }
            }
        }
        if !last {
            sleep(choose(F, 15) as u64).await;
            check!(!cl.is_closed(), "C22:closed_early", "the client closed while it was connected");
            let n = fw.srv.s().log.len();
            *fw.ended_at.borrow_mut() = Some(now_ms());
            for h in hcs {
                kernel::abort(h);
            }
            unplug(&b);
            kernel::stop_idles();
            probe("unplugged");
            let ok = timeout(BOUND, cl.wait_closed()).await;
            check!(ok.is_some() && cl.is_closed(), "C22:client_not_closed", "the client did not notice the unplugging");
            let ok = settle(tasks, PATIENCE).await;
            check!(ok, "C22:hung", "operations hang after the unplugging");
            let ok = settle(subs, BOUND).await;
            check!(ok, "C22:hung", "a subscription does not end after the unplugging");
            let ok = timeout(BOUND, idle(&fw)).await;
            check!(ok.is_some(), "C22:hung", "handlers hang after the unplugging");
            let ok = timeout(BOUND, async {
                while !fw.srv.s().log[n..].iter().any(|e| matches!(e, SrvEv::End(_))) {
                    sleep(1).await;
                }
            })
            .await;
            check!(ok.is_some(), "C22:server_not_ended", "the server loop did not notice the unplugging");
            judge(&fw, &b, &heard.borrow(), &logs.borrow(), rx_buf, lossy, false);
            if failed() {
                return;
            }
            reset(&fw, v, kw);
            sleep(choose(F, 10) as u64).await;
            continue;
        }
        let ok = settle(tasks, 6 * PATIENCE).await;
        check!(ok, "C22,C21:hung", "operations did not finish");
        stop_stalls();
        *b.slow.borrow_mut() = (0, 0);
        fw.ctx.st.borrow_mut().slow = 0;
        let _ = timeout(BOUND, idle(&fw)).await;
        sleep(50).await;
        check!(!cl.is_closed(), "C22:closed", "the client closed while it was connected");
        after(&fw, &cl, &eps).await;
        sleep(20).await;
        judge(&fw, &b, &heard.borrow(), &logs.borrow(), rx_buf, lossy, true);
        if !lossy {
            let bad = fw.srv.s().log.iter().position(|e| matches!(e, SrvEv::End(_)));
            // (ends of before it was plugged in are in the log)
            let got = fw.srv.s().log.iter().position(|e| matches!(e, SrvEv::Got(_))).unwrap_or(0);
            check!(bad.is_none_or(|b| b < got), "C22:server_ended", "the server loop returned on a healthy connection");
        }
    }
}

async fn idle(fw: &FW) {
    loop {
        let q = {
            let s = fw.ctx.st.borrow();
            s.inline_running == 0 && s.spawned_running == 0 && fw.sp.0.lock().unwrap().running == 0
        };
        if q {
            return;
        }
        sleep(2).await;
    }
}

fn reset(fw: &FW, v: Var, kw: KW) {
    {
        let mut s = fw.srv.s();
        s.got.clear();
        s.sent.clear();
        s.failed.clear();
        s.unfit.clear();
        s.too_large.clear();
        s.log.clear();
    }
    {
        let mut d = fw.ctx.st.borrow_mut();
        d.invs.clear();
        d.max_inline = 0;
    }
    fw.calls.borrow_mut().clear();
    fw.pubs.borrow_mut().clear();
    fw.outs.borrow_mut().clear();
    fw.sp.0.lock().unwrap().refused = 0;
    *fw.eras.borrow_mut() = vec![(0, v, kw)];
    *fw.ended_at.borrow_mut() = None;
}

/// `have` is `all` without some that need not be there
fn subseq<T: PartialEq + std::fmt::Debug>(what: &str, have: &[T], all: &[(T, bool)]) {
    let mut i = 0;
    for h in have {
        loop {
            let Some((a, must)) = all.get(i) else {
                return fail("C22:invented", format!("{what}: {h:?} arrived out of order, twice or without being sent"));
            };
            i += 1;
            if a == h {
                break;
            }
            if *must {
                return fail("C22:lost", format!("{what}: {a:?} did not arrive"));
            }
        }
    }
    if let Some((a, _)) = all[i..].iter().find(|x| x.1) {
        fail("C22:lost", format!("{what}: {a:?} did not arrive"));
    }
}

fn judge(fw: &FW, b: &B, heard: &[Heard], logs: &[LogRec], rx_buf: usize, lossy: bool, complete: bool) {
    walk_run(fw);
    verify_server(fw);
    verify_calls(fw);
    let must = complete && !lossy;
    // what the device received is what the client sent
    let got: Vec<Vec<u8>> = fw.srv.s().got.iter().map(|g| g.1.clone()).collect();
    let all: Vec<(Vec<u8>, bool)> = b.outs.borrow().iter().map(|f| (f.clone(), complete && f.len() < rx_buf)).collect();
    subseq("frame to the device", &got, &all);
    if complete {
        for p in fw.pubs.borrow().iter() {
            check!(p.ok, "C22:publish_refused", "publish {p:?} failed on a working connection");
        }
        for (f, _) in &all {
            if let Some((h, _)) = codec::dec(f) {
                if h.seq >= 0x6000 {
                    probe("published");
                }
            }
        }
        for p in fw.pubs.borrow().iter().filter(|p| p.ok) {
            let n = all.iter().filter(|(f, _)| codec::dec(f).is_some_and(|(h, b)| h.is(p.tp.key()) && h.seq == p.seq && h.sw == p.sw && b == &p.body[..])).count();
            let same = fw.pubs.borrow().iter().filter(|q| q.ok && q.tp == p.tp && q.sw == p.sw && q.seq == p.seq && q.body == p.body).count();
            check!(n == same, "C22:delivered", "message {p:?} was published {same} times and sent {n} times");
        }
    }
    let outs = fw.outs.borrow();
    for (k, t) in [(OutA::TOPIC_KEY.to_bytes(), 0), (OutB::TOPIC_KEY.to_bytes(), 1)] {
        let want: Vec<(Heard, bool)> = outs
            .iter()
            .filter(|o| o.key == k)
            .map(|o| (if t == 0 { Heard::A(o.body.clone()) } else { Heard::B(o.body.clone()) }, must && o.ok == Some(true)))
            .collect();
        let have: Vec<Heard> = heard.iter().filter(|h| if t == 0 { matches!(h, Heard::A(_)) } else { matches!(h, Heard::B(_)) }).cloned().collect();
        subseq("topic", &have, &want);
    }
    let want: Vec<(Heard, bool)> = logs.iter().map(|l| (Heard::Log(l.text.clone()), must && l.ok)).collect();
    let cut = |l: &Heard| matches!(l, Heard::Log(t) if t.ends_with("..."));
    let have: Vec<Heard> = heard.iter().filter(|h| matches!(h, Heard::Log(_)) && !cut(h)).cloned().collect();
    let want: Vec<(Heard, bool)> = want.into_iter().map(|(h, m)| if let Heard::Log(t) = &h { let fits = t.len() + 20 < fw.srv.s().tx_buf; (h, m && fits) } else { (h, m) }).collect();
    subseq("log", &have, &want);
}

//! The in-process channel transports: real client and real server joined by
//! tokio channels, with relays in between that record, delay and block.

use super::full::*;
use super::host::{BOUND, PATIENCE};
use crate::check;
use crate::codec::{self, *};
use crate::icd::*;
use crate::icd::enc;
use crate::kernel::{self, *};
use crate::link::{AnyRx, AnyTx, RealRx, RealTx, SrvEv};
use crate::runner::MainFut;
use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeqKind};
use postcard_rpc::host_client::test_channels::new_from_channels;
use postcard_rpc::server::impls::test_channels::dispatch_impl::{
    new_server, new_server_stoppable, spawn_fn, Settings, Stopper, WireSpawnImpl, WireTxImpl,
};
use postcard_rpc::server::impls::test_channels::{ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
use postcard_rpc::server::{Dispatch, Sender, ServerError, SpawnContext, WireRxErrorKind, WireTxErrorKind};
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::{LoggingTopic, WireError};
use postcard_rpc::{define_dispatch, Endpoint, Topic};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;

type Frames = Sh<Vec<Vec<u8>>>;

#[derive(Clone)]
struct Relay {
    frames: Frames,
    /// nothing passes while set
    blocked: Sh<bool>,
    slow: Sh<(u32, u64)>,
}

impl Relay {
    fn new() -> Self {
        Relay { frames: sh(vec![]), blocked: sh(false), slow: sh([(0, 0), (4, 3), (8, 1), (2, 20)][choose(F, 4)]) }
    }
}

/// Passes frames on until either end is gone
async fn relay(r: Relay, tag: &'static str, mut rx: mpsc::Receiver<Vec<u8>>, tx: mpsc::Sender<Vec<u8>>) {
    loop {
        let f = tokio::select! {
            biased;
            _ = tx.closed() => return,
            f = rx.recv() => f,
        };
        let Some(f) = f else { return };
        evb(tag, 0, &f);
        r.frames.borrow_mut().push(f.clone());
        let (p, ms) = *r.slow.borrow();
        if p > 0 && chance(F, p, 16) {
            fault("slow_channel");
            sleep(choose(F, ms as usize + 1) as u64).await;
        }
        while *r.blocked.borrow() {
            sleep(3).await;
        }
        if tx.send(f).await.is_err() {
            return;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Heard {
    A(Vec<u8>),
    B(Vec<u8>),
    Log(String),
}

fn kind_of(sw: SW) -> VarSeqKind {
    match sw {
        S1 => VarSeqKind::Seq1,
        S2 => VarSeqKind::Seq2,
        S4 => VarSeqKind::Seq4,
    }
}

/// A text around the lengths at which encodings change
pub fn log_text(id: u32) -> String {
    let head = format!("log {id} ");
    let n = match choose(W, 4) {
        0 => choose(W, 12),
        1 => 120 + choose(W, 16),
        2 => 250 + choose(W, 12),
        _ => choose(W, 400),
    };
    let mut t = head;
    let w = *pick(W, &['x', 'ä', '€', '𝄞']);
    while t.len() + w.len_utf8() <= n {
        t.push(w);
    }
    while t.len() < n {
        t.push('.');
    }
    t
}

async fn logger(fw: FW, snd: Sender<AnyTx>, logs: Sh<Vec<(String, Option<bool>)>>, n: usize) {
    for _ in 0..n {
        kernel::idle(3).await;
        let text = log_text(fw.id());
        let ix = {
            let mut l = logs.borrow_mut();
            l.push((text.clone(), None));
            l.len() - 1
        };
        let r = if choose(W, 2) == 0 { snd.log_str(&text).await } else { snd.log_fmt(format_args!("{}", text)).await };
        logs.borrow_mut()[ix].1 = Some(r.is_ok());
    }
}

async fn quiet(fw: &FW) {
    loop {
        let q = {
            let s = fw.ctx.st.borrow();
            s.inline_running == 0 && s.spawned_running == 0 && fw.sp.0.lock().unwrap().running == 0
        };
        if q {
            return;
        }
        sleep(2).await;
    }
}

fn ended(fw: &FW, from: usize) -> bool {
    fw.srv.s().log[from..].iter().any(|e| matches!(e, SrvEv::End(_)))
}

fn multiset(v: &[Vec<u8>]) -> BTreeMap<&[u8], usize> {
    let mut m = BTreeMap::new();
    for f in v {
        *m.entry(&f[..]).or_default() += 1;
    }
    m
}

pub fn chan_full() -> MainFut {
    Box::pin(full_main())
}

async fn full_main() {
    nontrivial();
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Mode {
        Healthy,
        Stop,
        ClientGone,
        ServerGone,
    }
    let mode = if is_prop("C17") {
        Mode::Healthy
    } else {
        *pick(F, &[Mode::Healthy, Mode::Healthy, Mode::Stop, Mode::Stop, Mode::ClientGone, Mode::ServerGone])
    };
    let v = *pick(W, &VARS);
    let fw = Fw::new([4, 40, 300][choose(W, 3)]);
    fw.srv.s().tx_buf = usize::MAX;
    *fw.lossy.borrow_mut() = mode == Mode::Stop;
    let depth = || [1usize, 2, 8, 64][choose(W, 4)];
    let (c_tx, r1) = mpsc::channel(depth());
    let (r1t, s_rx) = mpsc::channel(depth());
    let (s_tx, r2) = mpsc::channel(depth());
    let (r2t, c_rx) = mpsc::channel(depth());
    let inject = r1t.downgrade();
    let (up, down) = (Relay::new(), Relay::new());
    kernel::spawn("relay.up", relay(up.clone(), "c2s", r1, r1t));
    kernel::spawn("relay.down", relay(down.clone(), "s2c", r2, r2t));
    let mut tx = ChannelWireTx::new(s_tx);
    let mut rx = ChannelWireRx::new(s_rx);
    let stopper = Stopper::new();
    let stoppable = mode == Mode::Stop || choose(W, 2) == 1;
    if stoppable {
        tx.set_stopper(stopper.clone());
        rx.set_stopper(stopper.clone());
    }
    let buf = if fw.max_data > 100 { *pick(W, &[400usize, 512, 1000]) } else { *pick(W, &[64usize, 100, 400, 512]) };
    {
        let mut s = fw.ctx.st.borrow_mut();
        s.slow = [0, 3, 6][choose(F, 3)];
        s.slow_ms = [2, 20][choose(F, 2)];
    }
    let (srv_task, snd, kw) = serve_on(&fw, v, AnyTx::Real(RealTx::Chan(tx), fw.srv.clone()), AnyRx::Real(RealRx::Chan(rx), fw.srv.clone()), buf, 5);
    let cl = new_from_channels(c_tx, c_rx, kind_of(fw.sw));

    let heard = sh(Vec::<Heard>::new());
    let mut subs = vec![];
    macro_rules! listen {
        ($t:ty, $f:expr) => {
            match cl.subscribe_multi::<$t>(512).await {
                Ok(mut s) => {
                    let heard = heard.clone();
                    subs.push(kernel::spawn("sub", async move {
                        while let Ok(m) = s.recv().await {
                            heard.borrow_mut().push($f(m));
                        }
                    }));
                }
                Err(_) => return fail("C24:closed_at_start", "a new client is closed"),
            }
        };
    }
    listen!(OutA, |m: Msg| Heard::A(enc(&m)));
    listen!(OutB, |m: Msg| Heard::B(enc(&m)));
    listen!(LoggingTopic, Heard::Log);

    // `BigA` and `Big` have replies of any size, all others fit
    let eps = eps_of(v);
    let give_up = if mode == Mode::Stop { Some(400) } else { None };
    let mut tasks = vec![];
    for i in 0..range(W, 1, 3) {
        tasks.push(kernel::spawn(format!("caller{i}"), caller(fw.clone(), cl.clone(), fw.many(1, 6), eps.clone(), give_up)));
    }
    let publishers = matches!(mode, Mode::Healthy);
    if publishers {
        for i in 0..choose(W, 3) {
            let n = fw.many(1, 6);
            tasks.push(kernel::spawn(format!("pub{i}"), publisher(fw.clone(), cl.clone(), n, i, Tp::ALL.to_vec())));
        }
    }
    let mut dev_tasks = vec![];
    if choose(W, 3) > 0 || is_prop("C17") {
        let n = range(W, 1, 6);
        dev_tasks.push(kernel::spawn("announcer", announcer(fw.clone(), snd.clone(), n)));
    }
    let logs = sh(Vec::<(String, Option<bool>)>::new());
    if choose(W, 3) > 0 || is_prop("C17") {
        let n = range(W, 1, 6);
        dev_tasks.push(kernel::spawn("logger", logger(fw.clone(), snd.clone(), logs.clone(), n)));
    }
    // trouble: frames that are too large, channels that fill up
    let over = sh(Vec::<Vec<u8>>::new());
    for _ in 0..choose(F, 5) {
        sleep(choose(F, 10) as u64).await;
        match choose(F, 3) {
            0 => {
                let n = buf + 1 + choose(F, 40);
                let mut f = codec::enc(Ep::EchoA.req_key(), K8, S4, 0x5000_0000 + fw.id(), &[]);
                f.resize(n, 3);
                if let Some(t) = inject.upgrade() {
                    fault("oversize_frame");
                    over.borrow_mut().push(f.clone());
                    let _ = timeout(BOUND, t.send(f)).await;
                }
            }
            k => {
                fault("blocked_channel");
                let r = if k == 1 { &up } else { &down };
                *r.blocked.borrow_mut() = true;
                sleep(choose(F, 40) as u64).await;
                *r.blocked.borrow_mut() = false;
            }
        }
    }
    drop(inject);

    match mode {
        Mode::Healthy => {
            tasks.extend(dev_tasks);
            let ok = settle(tasks, 6 * PATIENCE).await;
            check!(ok, "C24,C17:hung", "operations did not finish");
            for r in [&up, &down] {
                *r.slow.borrow_mut() = (0, 0);
            }
            stop_stalls();
            fw.ctx.st.borrow_mut().slow = 0;
            let ok = timeout(BOUND, quiet(&fw)).await;
            check!(ok.is_some(), "C24:hung", "handlers did not finish");
            sleep(100).await;
            check!(!cl.is_closed(), "C24:closed", "the client closed on a healthy connection");
            after(&fw, &cl, &eps).await;
            sleep(20).await;
            walk_run(&fw);
            verify_server(&fw);
            verify_calls(&fw);
            for p in fw.pubs.borrow().iter() {
                check!(p.ok, "C24:publish_refused", "publish {p:?} failed on a working connection");
            }
            check!(!ended(&fw, 0), "C24:server_ended", "the server loop returned on a healthy connection");
            check!(fw.srv.s().failed.is_empty(), "C24:send_failed", "a send failed on a healthy connection: {:?}", fw.srv.s().failed.first());
            for o in fw.outs.borrow().iter() {
                check!(o.ok == Some(true), "C24:send_failed", "topic {o:?} failed on a healthy connection");
            }
            // client to server: the frames of the client in order, between them those injected
            let got: Vec<Vec<u8>> = fw.srv.s().got.iter().map(|g| g.1.clone()).collect();
            let sent = up.frames.borrow();
            let want: Vec<Vec<u8>> = sent.iter().filter(|f| f.len() <= buf).cloned().collect();
            check!(got == want, "C24:c2s", "the server received {} frames where the client sent {} that fit", got.len(), want.len());
            let large = fw.srv.s().log.iter().filter(|e| matches!(e, SrvEv::GetErr(WireRxErrorKind::ReceivedMessageTooLarge))).count();
            let lw = over.borrow().len() + sent.len() - want.len();
            check!(large == lw, "C24:too_large", "{large} frames reported as too large, {lw} were");
            if lw > 0 {
                probe("too_large");
            }
            // server to client: everything sent, once; (recorded when the send ended, so compared as sets)
            let log_key = LoggingTopic::TOPIC_KEY.to_bytes();
            let frames = down.frames.borrow();
            let other: Vec<Vec<u8>> = frames.iter().filter(|f| !codec::dec(f).is_some_and(|(h, _)| h.is(log_key))).cloned().collect();
            let sent: Vec<Vec<u8>> = fw.srv.s().sent.iter().map(|f| f.1.clone()).collect();
            check!(multiset(&other) == multiset(&sent), "C24:s2c", "{} frames passed the channel, {} were reported as sent", other.len(), sent.len());
            // logging
            let mut n = 0u32;
            for f in frames.iter() {
                let Some((h, b)) = codec::dec(f) else { continue };
                if !h.is(log_key) {
                    continue;
                }
                probe("logs_seen");
                check!(h.kw == kw, "C17,C24:log_width", "log message {h:?} with a key of the wrong width");
                let w = logs.borrow().get(n as usize).map(|l| enc(&l.0));
                check!(w.as_deref() == Some(b), "C17,C24:log_text", "log message {n} arrived as {}", hex(b));
                check!(h.sw == S4 && h.seq == n, "C17,C24:log_seq", "log message {n} has sequence number {:?} {}", h.sw, h.seq);
                n += 1;
            }
            check!(n as usize == logs.borrow().len(), "C17,C24:log_lost", "{n} of {} log messages arrived", logs.borrow().len());
            for l in logs.borrow().iter() {
                check!(l.1 == Some(true), "C17,C24:log_failed", "logging failed on a healthy connection");
            }
            let have: Vec<Heard> = heard.borrow().iter().filter(|h| matches!(h, Heard::Log(_))).cloned().collect();
            let want: Vec<Heard> = logs.borrow().iter().map(|l| Heard::Log(l.0.clone())).collect();
            check!(have == want, "C17,C24:log_heard", "heard {have:?} instead of {want:?}");
            for (k, t) in [(OutA::TOPIC_KEY.to_bytes(), 0), (OutB::TOPIC_KEY.to_bytes(), 1)] {
                let want: Vec<Heard> = fw.outs.borrow().iter().filter(|o| o.key == k).map(|o| if t == 0 { Heard::A(o.body.clone()) } else { Heard::B(o.body.clone()) }).collect();
                let have: Vec<Heard> = heard.borrow().iter().filter(|h| if t == 0 { matches!(h, Heard::A(_)) } else { matches!(h, Heard::B(_)) }).cloned().collect();
                check!(have == want, "C24:heard", "heard {have:?} instead of {want:?}");
            }
        }
        Mode::Stop => {
            let dead = choose(F, 2) == 0;
            sleep(choose(F, 30) as u64).await;
            if dead {
                // nobody takes what the server sends
                *down.blocked.borrow_mut() = true;
                sleep(choose(F, 10) as u64).await;
            }
            fault("stop");
            kernel::stop_idles();
            probe("stopped");
            let n = fw.srv.s().log.len();
            stopper.stop();
            check!(stopper.is_stopped(), "C24:stop", "the stopper is not stopped");
            let ok = timeout(BOUND, async {
                while !ended(&fw, n) {
                    sleep(1).await;
                }
            })
            .await;
            check!(ok.is_some(), "C24:stop_run", "the run loop did not return after the stop");
            if !dead {
                let last = fw.srv.s().log[n..].iter().find_map(|e| if let SrvEv::End(e) = e { Some(format!("{e:?}")) } else { None });
                check!(
                    last.as_deref().is_some_and(|l| l.contains("ConnectionClosed")),
                    "C24:stop_run",
                    "the run loop returned {last:?} after the stop"
                );
            }
            let ok = settle(dev_tasks, BOUND).await;
            check!(ok, "C24:stop_sends", "sends of device tasks did not end after the stop");
            let ok = timeout(BOUND, quiet(&fw)).await;
            check!(ok.is_some(), "C24:stop_sends", "handlers did not end after the stop");
            // later sends never hang, however many
            for _ in 0..range(W, 1, 80) {
                let m = Msg { id: 0, data: vec![] };
                let r = timeout(BOUND, async {
                    if choose(W, 2) == 0 {
                        snd.publish::<OutB>(vs(S4, 0), &m).await.is_ok()
                    } else {
                        snd.log_str("x").await.is_ok()
                    }
                })
                .await;
                check!(r.is_some(), "C24:stop_later", "a send after the stop hangs");
            }
            *down.blocked.borrow_mut() = false;
            let ok = settle(tasks, 6 * PATIENCE).await;
            check!(ok, "C24:hung", "callers did not finish");
            kernel::abort(srv_task);
            drop(snd);
            let ok = timeout(BOUND, cl.wait_closed()).await;
            check!(ok.is_some() && cl.is_closed(), "C24:client_not_closed", "the client did not notice that the server is gone");
            walk_run(&fw);
        }
        Mode::ClientGone => {
            let early = choose(F, 2) == 0;
            if early {
                sleep(choose(F, 30) as u64).await;
                for t in tasks {
                    kernel::abort(t);
                }
                fault("client_dropped_early");
            } else {
                let ok = settle(tasks, 6 * PATIENCE).await;
                check!(ok, "C24:hung", "operations did not finish");
                fault("client_dropped");
            }
            let n = fw.srv.s().log.len();
            drop(cl);
            kernel::stop_idles();
            for s in subs {
                kernel::abort(s);
            }
            let ok = timeout(BOUND, async {
                while !ended(&fw, n) {
                    sleep(1).await;
                }
            })
            .await;
            check!(ok.is_some(), "C24:server_not_ended", "the server loop did not notice that the client is gone");
            let ok = settle(dev_tasks, BOUND).await;
            check!(ok, "C24:hung", "sends of device tasks hang after the client is gone");
            let ok = timeout(BOUND, quiet(&fw)).await;
            check!(ok.is_some(), "C24:hung", "handlers hang after the client is gone");
            probe("client_gone");
            walk_run(&fw);
            if !early {
                verify_calls(&fw);
            }
        }
        Mode::ServerGone => {
            sleep(choose(F, 30) as u64).await;
            fault("server_dropped");
            kernel::stop_idles();
            *fw.ended_at.borrow_mut() = Some(now_ms());
            kernel::abort(srv_task);
            for t in dev_tasks {
                kernel::abort(t);
            }
            drop(snd);
            let ok = timeout(BOUND, async {
                while fw.sp.0.lock().unwrap().running > 0 {
                    sleep(2).await;
                }
            })
            .await;
            check!(ok.is_some(), "C24:hung", "handlers hang");
            let ok = timeout(BOUND, cl.wait_closed()).await;
            check!(ok.is_some() && cl.is_closed(), "C24:client_not_closed", "the client did not notice that the server is gone");
            let ok = settle(tasks, BOUND).await;
            check!(ok, "C24:hung", "calls hang after the server is gone");
            let ok = settle(subs, BOUND).await;
            check!(ok, "C24:hung", "subscriptions do not end after the server is gone");
            probe("server_gone");
            verify_calls(&fw);
        }
    }
}

// ------------------------------------------------------------------ ready-made servers

#[derive(Default)]
pub struct MiniSt {
    runs: Vec<(Ep, Vec<u8>)>,
    topics: Vec<(Tp, Vec<u8>)>,
    /// replies of spawned handlers: (argument, outcome)
    replies: Vec<(Vec<u8>, Option<bool>)>,
    slow: u64,
    /// spawned handlers wait while set
    hold: bool,
}
pub struct MiniCtx(Arc<Mutex<MiniSt>>);
#[derive(Clone)]
pub struct MiniSpawn(Arc<Mutex<MiniSt>>);
impl SpawnContext for MiniCtx {
    type SpawnCtxt = MiniSpawn;
    fn spawn_ctxt(&mut self) -> MiniSpawn {
        MiniSpawn(self.0.clone())
    }
}

fn mini_ans(ep: Ep, r: &Req) -> Rsp {
    answer(ep, r, r.id)
}
fn m_echo_a(c: &mut MiniCtx, _h: VarHeader, r: Req) -> Rsp {
    c.0.lock().unwrap().runs.push((Ep::EchoA, enc(&r)));
    mini_ans(Ep::EchoA, &r)
}
async fn m_async_a(c: &mut MiniCtx, _h: VarHeader, r: Req) -> Rsp {
    c.0.lock().unwrap().runs.push((Ep::AsyncA, enc(&r)));
    let ms = c.0.lock().unwrap().slow;
    if ms > 0 && r.id % 2 == 0 {
        tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
    }
    mini_ans(Ep::AsyncA, &r)
}
async fn m_spawn_a(c: MiniSpawn, h: VarHeader, r: Req, tx: Sender<WireTxImpl>) {
    let (ms, ix) = {
        let mut s = c.0.lock().unwrap();
        s.runs.push((Ep::SpawnA, enc(&r)));
        s.replies.push((enc(&r), None));
        (s.slow, s.replies.len() - 1)
    };
    if ms > 0 {
        tokio::time::sleep(std::time::Duration::from_millis(ms * (r.id as u64 % 3))).await;
    }
    while c.0.lock().unwrap().hold {
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
    let ok = tx.reply::<SpawnA>(h.seq_no, &mini_ans(Ep::SpawnA, &r)).await.is_ok();
    c.0.lock().unwrap().replies[ix].1 = Some(ok);
}
fn m_t_blk(c: &mut MiniCtx, _h: VarHeader, m: Msg, _tx: &Sender<WireTxImpl>) {
    c.0.lock().unwrap().topics.push((Tp::Blk, enc(&m)));
}
async fn m_t_async(c: &mut MiniCtx, _h: VarHeader, m: Msg, _tx: &Sender<WireTxImpl>) {
    c.0.lock().unwrap().topics.push((Tp::Async, enc(&m)));
}
async fn m_t_spawn(c: MiniSpawn, _h: VarHeader, m: Msg, _tx: Sender<WireTxImpl>) {
    c.0.lock().unwrap().topics.push((Tp::Spawn, enc(&m)));
}

mod mini_icd {
    use super::*;
    use postcard_rpc::{endpoints, topics, TopicDirection};
    endpoints! {
        list = EPS;
        | EndpointTy | RequestTy | ResponseTy | Path         |
        | ---------- | --------- | ---------- | ----         |
        | EchoA      | Req       | Rsp        | "s1/echo_a"  |
        | AsyncA     | Req       | Rsp        | "s1/async_a" |
        | SpawnA     | Req       | Rsp        | "s1/spawn_a" |
    }
    topics! {
        list = TIN;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path         |
        | ------- | --------- | ----         |
        | TBlk    | Msg       | "s1/t_blk"   |
        | TAsync  | Msg       | "s1/t_async" |
        | TSpawn  | Msg       | "s1/t_spawn" |
    }
    topics! {
        list = TOUT;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path       |
        | ------- | --------- | ----       |
        | OutA    | Msg       | "s1/out_a" |
    }
}

define_dispatch! {
    app: MiniApp;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: MiniCtx;
    endpoints: {
        list: mini_icd::EPS;
        | EndpointTy | kind     | handler   |
        | ---------- | ----     | -------   |
        | EchoA      | blocking | m_echo_a  |
        | AsyncA     | async    | m_async_a |
        | SpawnA     | spawn    | m_spawn_a |
    };
    topics_in: {
        list: mini_icd::TIN;
        | TopicTy | kind     | handler   |
        | ------- | ----     | -------   |
        | TBlk    | blocking | m_t_blk   |
        | TAsync  | async    | m_t_async |
        | TSpawn  | spawn    | m_t_spawn |
    };
    topics_out: {
        list: mini_icd::TOUT;
    };
}

pub fn chan_mini() -> MainFut {
    Box::pin(mini_main())
}

async fn mini_main() {
    nontrivial();
    let st = Arc::new(Mutex::new(MiniSt { slow: [0, 2, 20][choose(F, 3)], ..Default::default() }));
    let depth = || [1usize, 2, 8][choose(W, 3)];
    let (c_tx, r1) = mpsc::channel(depth());
    let (r1t, s_rx) = mpsc::channel(depth());
    let (s_tx, r2) = mpsc::channel(depth());
    let (r2t, c_rx) = mpsc::channel(depth());
    let (up, down) = (Relay::new(), Relay::new());
    kernel::spawn("relay.up", relay(up.clone(), "c2s", r1, r1t));
    kernel::spawn("relay.down", relay(down.clone(), "s2c", r2, r2t));
    let app = MiniApp::new(MiniCtx(st.clone()), ChannelWireSpawn);
    let kkind = app.min_key_len();
    let settings = Settings { tx: ChannelWireTx::new(s_tx), rx: ChannelWireRx::new(s_rx), buf: 256, kkind };
    let stop = choose(F, 2) == 1;
    let (mut srv, stopper) = if stop {
        let (s, st) = new_server_stoppable(app, settings);
        (s, Some(st))
    } else {
        (new_server(app, settings), None)
    };
    let snd = srv.sender();
    let end = sh(None::<String>);
    let end2 = end.clone();
    let srv_task = kernel::spawn("server", async move {
        let e = srv.run().await;
        let t = match e {
            ServerError::TxFatal(e) => format!("tx {:?}", WireTxErrorKind::from(KindOf(e))),
            ServerError::RxFatal(e) => format!("rx {e:?}"),
        };
        *end2.borrow_mut() = Some(t);
        // the server stays alive
        std::future::pending::<()>().await;
        drop(srv);
    });
    let cl = new_from_channels(c_tx, c_rx, [VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4][choose(W, 3)]);
    let ids = sh(0u32);
    let calls = sh(Vec::<(Ep, Req, Option<bool>)>::new());
    let pubs = sh(Vec::<(Tp, Vec<u8>)>::new());
    let stopped = sh(false);
    let mut tasks = vec![];
    for i in 0..range(W, 1, 4) {
        let (cl, ids, calls, pubs, stopped) = (cl.clone(), ids.clone(), calls.clone(), pubs.clone(), stopped.clone());
        tasks.push(kernel::spawn(format!("user{i}"), async move {
            for _ in 0..range(W, 1, 6) {
                kernel::idle(3).await;
                let id = {
                    let mut i = ids.borrow_mut();
                    *i += 1;
                    *i
                };
                let n = choose(W, 30);
                if choose(W, 4) == 0 {
                    let m = Msg { id, data: bytes(W, n) };
                    let tp = *pick(W, &[Tp::Blk, Tp::Async, Tp::Spawn]);
                    let s = vs(S4, 0x7000_0000 + id);
                    let ok = match tp {
                        Tp::Blk => cl.publish::<TBlk>(s, &m).await.is_ok(),
                        Tp::Async => cl.publish::<TAsync>(s, &m).await.is_ok(),
                        _ => cl.publish::<TSpawn>(s, &m).await.is_ok(),
                    };
                    check!(ok, "C24:publish_refused", "publish failed on a working connection");
                    pubs.borrow_mut().push((tp, enc(&m)));
                    continue;
                }
                let r = Req { id, data: bytes(W, n) };
                let ep = *pick(W, &[Ep::EchoA, Ep::AsyncA, Ep::SpawnA]);
                let ix = {
                    let mut c = calls.borrow_mut();
                    c.push((ep, r.clone(), None));
                    c.len() - 1
                };
                let want = mini_ans(ep, &r);
                let res = timeout(if stop { 400 } else { PATIENCE }, async {
                    match ep {
                        Ep::EchoA => cl.send_resp::<EchoA>(&r).await,
                        Ep::AsyncA => cl.send_resp::<AsyncA>(&r).await,
                        _ => cl.send_resp::<SpawnA>(&r).await,
                    }
                })
                .await;
                match res {
                    Some(Ok(a)) => {
                        check!(enc(&a) == enc(&want), "C24:call_result", "call {ep:?} {r:?} returned {a:?}");
                        calls.borrow_mut()[ix].2 = Some(true);
                    }
                    // the first attempt to answer lost against the stop, the second did not
                    Some(Err(HostErr::Wire(WireError::SerFailed))) if stop && *stopped.borrow() => {}
                    Some(Err(e)) => fail("C24:call_result", format!("call {ep:?} {r:?} failed with {e:?}")),
                    None => check!(stop, "C24:call_hung", "call {ep:?} {r:?} hangs"),
                }
            }
        }));
    }
    let outs = sh(Vec::<(Vec<u8>, bool)>::new());
    let ann = {
        let (snd, ids, outs) = (snd.clone(), ids.clone(), outs.clone());
        kernel::spawn("announcer", async move {
            for _ in 0..choose(W, 6) {
                kernel::idle(4).await;
                let id = {
                    let mut i = ids.borrow_mut();
                    *i += 1;
                    *i
                };
                let m = Msg { id, data: vec![1; choose(W, 20)] };
                let ok = snd.publish::<OutA>(vs(S2, id), &m).await.is_ok();
                outs.borrow_mut().push((enc(&m), ok));
            }
        })
    };
    if let Some(stopper) = stopper {
        sleep(choose(F, 40) as u64).await;
        let dead = choose(F, 2) == 0;
        if dead {
            *down.blocked.borrow_mut() = true;
            sleep(choose(F, 30) as u64).await;
        }
        fault("stop");
        *stopped.borrow_mut() = true;
        kernel::stop_idles();
        stopper.stop();
        let ok = timeout(BOUND, async {
            while end.borrow().is_none() {
                sleep(1).await;
            }
        })
        .await;
        check!(ok.is_some(), "C24:stop_run", "the run loop did not return after the stop");
        let e = end.borrow().clone().unwrap_or_default();
        check!(e == "rx ChannelClosed" || e == "tx ConnectionClosed", "C24:stop_run", "the run loop returned {e:?} after the stop");
        let ok = settle(vec![ann], BOUND).await;
        check!(ok, "C24:stop_sends", "a send of a device task did not end after the stop");
        let ok = timeout(BOUND, async {
            while st.lock().unwrap().replies.iter().any(|r| r.1.is_none()) {
                sleep(2).await;
            }
        })
        .await;
        check!(ok.is_some(), "C24:stop_sends", "the reply of a spawned handler did not end after the stop");
        for _ in 0..range(W, 1, 20) {
            let m = Msg { id: 0, data: vec![] };
            let r = timeout(BOUND, async { snd.publish::<OutA>(vs(S4, 0), &m).await.is_ok() }).await;
            check!(r.is_some(), "C24:stop_later", "a send after the stop hangs");
        }
        *down.blocked.borrow_mut() = false;
        let ok = settle(tasks, 6 * PATIENCE).await;
        check!(ok, "C24:hung", "users did not finish");
    } else {
        tasks.push(ann);
        let ok = settle(tasks, 6 * PATIENCE).await;
        check!(ok, "C24:hung", "users did not finish");
        stop_stalls();
        sleep(100).await;
        check!(end.borrow().is_none(), "C24:server_ended", "the run loop returned {:?} on a healthy connection", end.borrow());
        let s = st.lock().unwrap();
        for p in pubs.borrow().iter() {
            let n = s.topics.iter().filter(|t| *t == p).count();
            check!(n == 1, "C24:handler_runs", "the handler of topic message {p:?} ran {n} times");
        }
        check!(s.topics.len() == pubs.borrow().len(), "C24:handler_runs", "topic handlers ran for nothing");
        let sent: Vec<Vec<u8>> = down.frames.borrow().iter().filter_map(|f| codec::dec(f).filter(|(h, _)| h.is(OutA::TOPIC_KEY.to_bytes())).map(|(_, b)| b.to_vec())).collect();
        let want: Vec<Vec<u8>> = outs.borrow().iter().map(|o| o.0.clone()).collect();
        check!(sent == want && outs.borrow().iter().all(|o| o.1), "C24:s2c", "topic messages sent are not those that passed the channel");
    }
    // every call ran its handler at most once, and once if it was answered
    let s = st.lock().unwrap();
    for (ep, r, ok) in calls.borrow().iter() {
        let e = enc(r);
        let n = s.runs.iter().filter(|x| x.0 == *ep && x.1 == e).count();
        check!(n <= 1 && (ok.is_none() || n == 1), "C24:handler_runs", "the handler of {ep:?} {r:?} ran {n} times");
    }
    check!(s.runs.len() <= calls.borrow().len(), "C24:handler_runs", "handlers ran for nothing");
    drop(s);
    kernel::abort(srv_task);
    drop(snd);
    let ok = timeout(BOUND, cl.wait_closed()).await;
    check!(ok.is_some() && cl.is_closed(), "C24:client_not_closed", "the client did not notice that the server is gone");
}

/// Handlers spawned through the ready-made server run side by side
pub fn chan_spawn() -> MainFut {
    Box::pin(spawn_main())
}

async fn spawn_main() {
    nontrivial();
    let st = Arc::new(Mutex::new(MiniSt { slow: [0, 2][choose(F, 2)], hold: true, ..Default::default() }));
    let depth = || [1usize, 2, 8][choose(W, 3)];
    let (c_tx, s_rx) = mpsc::channel(depth());
    let (s_tx, r2) = mpsc::channel(depth());
    let (r2t, c_rx) = mpsc::channel(depth());
    let down = Relay::new();
    kernel::spawn("relay.down", relay(down.clone(), "s2c", r2, r2t));
    let app = MiniApp::new(MiniCtx(st.clone()), ChannelWireSpawn);
    let kkind = app.min_key_len();
    let mut srv = new_server(app, Settings { tx: ChannelWireTx::new(s_tx), rx: ChannelWireRx::new(s_rx), buf: 256, kkind });
    kernel::spawn("server", async move {
        let _ = srv.run().await;
    });
    let cl = new_from_channels(c_tx, c_rx, VarSeqKind::Seq2);
    let k = range(W, 2, 6);
    let done = sh(0usize);
    let tasks: Vec<_> = (0..k)
        .map(|i| {
            let (cl, done) = (cl.clone(), done.clone());
            kernel::spawn(format!("held{i}"), async move {
                sleep(choose(W, 4) as u64).await;
                let r = Req { id: i as u32, data: vec![i as u8] };
                match timeout(PATIENCE, cl.send_resp::<SpawnA>(&r)).await {
                    Some(Ok(a)) => check!(enc(&a) == enc(&mini_ans(Ep::SpawnA, &r)), "C02:call_result", "call {r:?} returned {a:?}"),
                    e => fail("C02:call_result", format!("call {r:?} ended with {e:?}")),
                }
                *done.borrow_mut() += 1;
            })
        })
        .collect();
    // all of them start, although none ends, and nothing else is held up
    for i in 0..range(W, 1, 4) {
        sleep(choose(W, 4) as u64).await;
        let r = Req { id: 100 + i as u32, data: vec![] };
        let a = timeout(BOUND, async {
            if choose(W, 2) == 0 { cl.send_resp::<EchoA>(&r).await.is_ok() } else { cl.send_resp::<AsyncA>(&r).await.is_ok() }
        })
        .await;
        check!(a == Some(true), "C02:held_up", "a call ended with {a:?} while spawned handlers were running");
    }
    let ok = timeout(BOUND, async {
        while st.lock().unwrap().replies.len() < k {
            sleep(2).await;
        }
    })
    .await;
    check!(ok.is_some(), "C02:not_concurrent", "{} of {k} spawned handlers started while none of them had ended", st.lock().unwrap().replies.len());
    check!(*done.borrow() == 0, "C02:answer_before_reply", "a call ended before its handler");
    st.lock().unwrap().hold = false;
    let ok = settle(tasks, 2 * PATIENCE).await;
    check!(ok, "C02:hung", "calls of spawned handlers did not end");
    stop_stalls();
    sleep(50).await;
    let n = down.frames.borrow().iter().filter(|f| codec::dec(f).is_some_and(|(h, _)| h.is(SpawnA::RESP_KEY.to_bytes()))).count();
    check!(n == k && st.lock().unwrap().replies.len() == k, "C02:handler_runs", "{k} calls, {n} answers, {} runs", st.lock().unwrap().replies.len());
    probe("spawned_held");
}

/// A peer that goes away by halves: it stops listening while it still talks
pub fn chan_half() -> MainFut {
    Box::pin(half_main())
}

async fn half_main() {
    nontrivial();
    let st = Arc::new(Mutex::new(MiniSt { slow: [0, 2, 20][choose(F, 3)], ..Default::default() }));
    let depth = || [1usize, 2, 8][choose(W, 3)];
    let (c_tx, s_rx) = mpsc::channel::<Vec<u8>>(depth());
    let (s_tx, mut c_rx) = mpsc::channel::<Vec<u8>>(depth());
    let app = MiniApp::new(MiniCtx(st.clone()), ChannelWireSpawn);
    let kkind = app.min_key_len();
    let settings = Settings { tx: ChannelWireTx::new(s_tx), rx: ChannelWireRx::new(s_rx), buf: 256, kkind };
    let (mut srv, _stopper) = if choose(W, 2) == 1 {
        let (s, st) = new_server_stoppable(app, settings);
        (s, Some(st))
    } else {
        (new_server(app, settings), None)
    };
    let snd = srv.sender();
    let end = sh(None::<String>);
    let end2 = end.clone();
    let srv_task = kernel::spawn("server", async move {
        let t = match srv.run().await {
            ServerError::TxFatal(e) => format!("tx {:?}", WireTxErrorKind::from(KindOf(e))),
            ServerError::RxFatal(e) => format!("rx {e:?}"),
        };
        *end2.borrow_mut() = Some(t);
        std::future::pending::<()>().await;
        drop(srv);
    });
    let frame = |ep: Ep, id: u32| codec::enc(ep.req_key(), K8, S4, id, &enc(&Req { id, data: vec![id as u8; id as usize % 9] }));
    // while both halves work, it is served
    let n = choose(W, 4) as u32;
    for i in 0..n {
        let ep = *pick(W, &[Ep::EchoA, Ep::AsyncA, Ep::SpawnA]);
        check!(c_tx.send(frame(ep, i)).await.is_ok(), "C10,C24:server_ended", "the server stopped listening on a healthy connection");
        let a = timeout(BOUND, c_rx.recv()).await.flatten();
        let ok = a.as_deref().and_then(codec::dec).is_some_and(|(h, _)| h.is(ep.resp_key()) && h.seq == i);
        check!(ok, "C10,C24:unanswered", "request {i} on {ep:?} was answered with {a:?}");
    }
    check!(end.borrow().is_none(), "C10,C24:server_ended", "the run loop returned {:?} on a healthy connection", end.borrow());
    // a send may be under way (and stuck) as the peer stops listening
    let pending = (choose(F, 2) == 1).then(|| {
        let snd = snd.clone();
        kernel::spawn("stuck", async move {
            for i in 0..20 {
                let m = Msg { id: i, data: vec![] };
                let r = timeout(BOUND, snd.publish::<OutA>(vs(S4, i), &m)).await;
                check!(r.is_some(), "C10,C24:send_hangs", "a send hangs although the peer no longer listens");
                sleep(choose(F, 2) as u64).await;
            }
        })
    });
    sleep(choose(F, 12) as u64).await;
    fault("peer_stops_listening");
    drop(c_rx);
    sleep(choose(F, 4) as u64).await;
    let m = Msg { id: 0, data: vec![] };
    for _ in 0..choose(W, 3) {
        let r = timeout(BOUND, async {
            if choose(W, 2) == 0 { snd.publish::<OutA>(vs(S4, 0), &m).await } else { snd.log_str("nobody").await }
        })
        .await;
        let r = r.map(|r| r.err().map(|e| WireTxErrorKind::from(KindOf(e))));
        check!(matches!(r, Some(Some(WireTxErrorKind::ConnectionClosed))), "C10,C24:closed_peer", "a send to a peer that does not listen ended with {r:?}");
    }
    // messages without an answer do not matter
    for i in 0..choose(W, 3) as u32 {
        let f = match choose(W, 3) {
            0 => codec::enc(TBlk::TOPIC_KEY.to_bytes(), K8, S4, i, &enc(&m)),
            1 => codec::enc(TAsync::TOPIC_KEY.to_bytes(), K8, S4, i, &enc(&m)),
            _ => vec![0; choose(W, 3)],
        };
        check!(c_tx.send(f).await.is_ok(), "C10,C24:server_ended", "the server stopped listening before it had to send");
        kernel::idle(2).await;
    }
    check!(end.borrow().is_none(), "C10:ended_early", "the run loop returned {:?} though it had nothing to send", end.borrow());
    let talk = choose(W, 4) > 0;
    if talk {
        // the next answer (any kind) makes it end
        let f = match choose(W, 4) {
            0 => frame(Ep::EchoA, 900),
            1 => frame(Ep::AsyncA, 901),
            2 => codec::enc([7; 8], K8, S4, 902, &[]),
            _ => codec::enc(Ep::EchoA.req_key(), K8, S4, 903, &[]),
        };
        let _ = c_tx.send(f).await;
    } else {
        drop(c_tx);
    }
    let ok = timeout(BOUND, async {
        while end.borrow().is_none() {
            sleep(1).await;
        }
    })
    .await;
    check!(ok.is_some(), "C10,C24:server_not_ended", "the run loop goes on although the peer is gone (answer due: {talk})");
    let e = end.borrow().clone().unwrap_or_default();
    let want = if talk { "tx ConnectionClosed" } else { "rx ChannelClosed" };
    check!(e == want, "C10,C24:reported", "the run loop returned {e:?} instead of {want:?}");
    if let Some(p) = pending {
        let ok = settle(vec![p], PATIENCE).await;
        check!(ok, "C10,C24:send_hangs", "a device task hangs although the peer no longer listens");
    }
    probe("half_closed");
    kernel::abort(srv_task);
}

/// Many tasks log through the same server
pub fn chan_logs() -> MainFut {
    Box::pin(logs_main())
}

async fn logs_main() {
    nontrivial();
    let st = Arc::new(Mutex::new(MiniSt::default()));
    let depth = || [1usize, 2, 8][choose(W, 3)];
    let (c_tx, s_rx) = mpsc::channel(depth());
    let (s_tx, r2) = mpsc::channel(depth());
    let (r2t, c_rx) = mpsc::channel(depth());
    let down = Relay::new();
    kernel::spawn("relay.down", relay(down.clone(), "s2c", r2, r2t));
    let app = MiniApp::new(MiniCtx(st), ChannelWireSpawn);
    let kkind = [app.min_key_len(), VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8][choose(W, 4)];
    let wtx = ChannelWireTx::new(s_tx);
    let srv = new_server(app, Settings { tx: wtx.clone(), rx: ChannelWireRx::new(s_rx), buf: 256, kkind });
    let cl = new_from_channels(c_tx, c_rx, VarSeqKind::Seq2);
    // frames a device task makes itself
    let raws = sh(Vec::<Vec<u8>>::new());
    let heard = sh(Vec::<String>::new());
    match cl.subscribe_exclusive::<LoggingTopic>(256).await {
        Ok(mut s) => {
            let heard = heard.clone();
            kernel::spawn("sub", async move {
                while let Some(m) = s.recv().await {
                    heard.borrow_mut().push(m);
                }
            });
        }
        Err(_) => return fail("C17,C24:closed_at_start", "a new client is closed"),
    }
    let logs = sh(vec![]);
    let tasks: Vec<_> = (0..range(W, 2, 5))
        .map(|i| {
            let (snd, logs, wtx, raws) = (srv.sender(), logs.clone(), wtx.clone(), raws.clone());
            logs.borrow_mut().push(Vec::<String>::new());
            kernel::spawn(format!("logger{i}"), async move {
                for k in 0..range(W, 1, 6) {
                    kernel::idle(2).await;
                    if i == 0 && chance(W, 1, 3) {
                        let f = bytes(W, 400);
                        raws.borrow_mut().push([vec![0xEE, k as u8], f].concat());
                        let f = raws.borrow().last().unwrap().clone();
                        let ok = postcard_rpc::server::WireTx::send_raw(&wtx, &f).await.is_ok();
                        check!(ok, "C24:raw_failed", "sending a raw frame failed on a healthy connection");
                        continue;
                    }
                    let t = format!("{i}:{k}:{}", log_text(k as u32));
                    logs.borrow_mut()[i].push(t.clone());
                    let ok = if choose(W, 2) == 0 { snd.log_str(&t).await.is_ok() } else { snd.log_fmt(format_args!("{}", t)).await.is_ok() };
                    check!(ok, "C17,C24:log_failed", "logging failed on a healthy connection");
                }
            })
        })
        .collect();
    let ok = settle(tasks, 6 * PATIENCE).await;
    check!(ok, "C17,C24:hung", "loggers did not finish");
    stop_stalls();
    sleep(500).await;
    probe("logs_seen");
    let want = logs.borrow().clone();
    let total: usize = want.iter().map(|w| w.len()).sum();
    let (mut texts, mut nums) = (vec![], vec![]);
    // (nothing else starts like that)
    let raw_sent: Vec<Vec<u8>> = down.frames.borrow().iter().filter(|f| !f.is_empty() && f[0] == 0xEE).cloned().collect();
    check!(raw_sent == *raws.borrow(), "C24:raw_frames", "{} raw frames were sent as {}, or differ", raws.borrow().len(), raw_sent.len());
    if !raw_sent.is_empty() {
        probe("raw_sent");
    }
    for f in down.frames.borrow().iter().filter(|f| f.is_empty() || f[0] != 0xEE) {
        let Some((h, b)) = codec::dec(f) else { return fail("C17,C20:log_frame", "a log message without a valid header") };
        check!(h.is(LoggingTopic::TOPIC_KEY.to_bytes()), "C17:log_width", "log message {h:?} with a wrong key");
        nums.push(h.seq);
        texts.push(postcard::from_bytes::<String>(b).unwrap_or_default());
    }
    for (i, w) in want.iter().enumerate() {
        let got: Vec<&String> = texts.iter().filter(|t| t.starts_with(&format!("{i}:"))).collect();
        check!(got.iter().copied().eq(w.iter()), "C17:log_text", "task {i} logged {w:?}, sent was {got:?}");
    }
    check!(texts.len() == total, "C17:log_text", "{total} texts logged, {} sent", texts.len());
    check!(*heard.borrow() == texts, "C17:log_heard", "heard {:?} of {texts:?}", heard.borrow());
    nums.sort();
    check!(nums.iter().copied().eq(0..total as u32), "C17:log_seq", "the numbers of {total} log messages are {nums:?}");
}

/// Only to name the kind of an error
struct KindOf<E>(E);
impl<E: postcard_rpc::server::AsWireTxErrorKind> From<KindOf<E>> for WireTxErrorKind {
    fn from(k: KindOf<E>) -> Self {
        k.0.as_kind()
    }
}

// ------------------------------------------------------------------ the fake server for tests

pub fn local() -> MainFut {
    Box::pin(local_main())
}

async fn local_main() {
    use postcard_rpc::test_utils::local_setup;
    nontrivial();
    let (mut dev, cl) = local_setup::<WireError>([1usize, 2, 8][choose(W, 3)], postcard_rpc::standard_icd::ERROR_PATH);
    let heard = sh(vec![]);
    let sub = match cl.subscribe_multi::<OutA>(256).await {
        Ok(mut s) => {
            let heard = heard.clone();
            kernel::spawn("sub", async move {
                while let Ok(m) = s.recv().await {
                    heard.borrow_mut().push(enc(&m));
                }
            })
        }
        Err(_) => return fail("C24:closed_at_start", "a new client is closed"),
    };
    let ended_at = sh(None::<u64>);
    let mut tasks = vec![];
    let ids = sh(0u32);
    for i in 0..range(W, 1, 4) {
        let (cl, ids, ended_at) = (cl.clone(), ids.clone(), ended_at.clone());
        tasks.push(kernel::spawn(format!("user{i}"), async move {
            for _ in 0..range(W, 1, 6) {
                kernel::idle(3).await;
                let id = {
                    let mut i = ids.borrow_mut();
                    *i += 1;
                    *i
                };
                let r = Req { id, data: bytes(W, 3) };
                match timeout(PATIENCE, cl.send_resp::<EchoA>(&r)).await {
                    Some(Ok(a)) => check!(enc(&a) == enc(&mini_ans(Ep::EchoA, &r)), "C24:call_result", "call {r:?} returned {a:?}"),
                    Some(Err(e)) => check!(ended_at.borrow().is_some(), "C24:call_result", "call {r:?} failed with {e:?}"),
                    None => fail("C24:call_hung", format!("call {r:?} hangs")),
                }
            }
        }));
    }
    let fatal = choose(F, 2) == 1;
    let when = choose(F, 30) as u64;
    let sent = sh(vec![]);
    let sent2 = sent.clone();
    let ended2 = ended_at.clone();
    let srv = kernel::spawn("device", async move {
        let mut pending: Vec<(u32, Req)> = vec![];
        let t0 = now_ms();
        let mut n = 0u32;
        loop {
            if fatal && now_ms() >= t0 + when {
                fault("fatal_error");
                *ended2.borrow_mut() = Some(now_ms());
                dev.cause_fatal_error();
                // and stays around
                std::future::pending::<()>().await;
            }
            let f = timeout(1 + choose(F, 4) as u64, dev.recv_from_client()).await;
            match f {
                Some(Ok(f)) => {
                    let (seq, w) = seq_parts(f.header.seq_no);
                    check!(w == 2, "C24:frame", "request with a sequence number of {w} bytes");
                    match postcard::from_bytes::<Req>(&f.body) {
                        Ok(r) => pending.push((seq, r)),
                        Err(e) => fail("C24:frame", format!("request does not decode: {e}")),
                    }
                }
                Some(Err(_)) => return,
                None => {}
            }
            if choose(F, 3) == 0 {
                n += 1;
                let m = Msg { id: n, data: vec![] };
                if dev.publish::<OutA>(n, &m).await.is_ok() {
                    sent2.borrow_mut().push(enc(&m));
                }
            }
            while !pending.is_empty() && choose(F, 3) > 0 {
                let (seq, r) = pending.remove(choose(F, pending.len()));
                if dev.reply::<EchoA>(seq, &mini_ans(Ep::EchoA, &r)).await.is_err() {
                    return;
                }
            }
        }
    });
    let ok = settle(tasks, 6 * PATIENCE).await;
    check!(ok, "C24:hung", "calls hang");
    if fatal {
        let ok = timeout(BOUND, cl.wait_closed()).await;
        check!(ok.is_some() && cl.is_closed(), "C24:client_not_closed", "the client did not notice the fatal error");
        let ok = settle(vec![sub], BOUND).await;
        check!(ok, "C24:hung", "the subscription does not end");
        let (h, s) = (heard.borrow(), sent.borrow());
        check!(s.starts_with(&h), "C24:s2c", "messages heard are not those sent");
    } else {
        check!(!cl.is_closed(), "C24:closed", "the client closed on a healthy connection");
        kernel::abort(srv);
        stop_stalls();
        sleep(100).await;
        let (h, s) = (heard.borrow(), sent.borrow());
        check!(*h == *s || (h.len() == s.len() + 1 && h.starts_with(&s)), "C24:s2c", "messages heard are not those sent");
    }
}

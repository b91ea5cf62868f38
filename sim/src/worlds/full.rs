//! Real client, real server (all handler kinds, all key widths) on simulated
//! pipes. The oracle replays every frame the server got through a reference
//! model of a server and compares invocations and answers.

use super::host::{BOUND, PATIENCE};
use crate::codec::{self, *};
use crate::icd::{self, *};
use crate::kernel::{self, *};
use crate::link::{AnyRx, AnyTx, HostPort, KernelSpawn, SimSpawner, SrvEv, SrvPort};
use crate::runner::MainFut;
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::host_client::HostClientConfig;
use postcard_rpc::server::{Sender, WireRxErrorKind, WireTxErrorKind};
use postcard_rpc::standard_icd::{GetAllSchemaDataTopic, GetAllSchemasEndpoint, LoggingTopic, PingEndpoint, ERROR_PATH};
use postcard_rpc::{Endpoint, Topic};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

// ------------------------------------------------------------------ reference server

pub fn eps_of(v: Var) -> Vec<Ep> {
    let mut l: Vec<Ep> = Ep::BASE.to_vec();
    match v {
        Var::V2 => l.push(Ep::X2),
        Var::V4 => l.push(Ep::X4),
        Var::V8 => l.push(Ep::X8),
        Var::Ve => l.push(Ep::E1),
        _ => {}
    }
    l
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pred {
    /// no header: ignored
    Ignored,
    Err(WErr),
    /// handler with this (re-encoded) argument
    Run(Ep, Vec<u8>),
    Topic(Tp, Vec<u8>),
    Dropped,
    Schemas,
}

fn redec<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) -> Option<Vec<u8>> {
    postcard::from_bytes::<T>(b).ok().map(|t| icd::enc(&t))
}
pub fn redec_ep(e: Ep, b: &[u8]) -> Option<Vec<u8>> {
    match e {
        Ep::Big | Ep::BigA | Ep::Ping => redec::<u32>(b),
        Ep::Inc => redec::<u64>(b),
        Ep::Nop => Some(vec![]),
        Ep::Strict => redec::<bool>(b),
        _ => redec::<Req>(b),
    }
}
pub fn redec_tp(t: Tp, b: &[u8]) -> Option<Vec<u8>> {
    match t {
        Tp::Flag => redec::<bool>(b),
        _ => redec::<Msg>(b),
    }
}

/// What a server of this variant and key width must make of a frame
pub fn predict(v: Var, kw: KW, f: &[u8]) -> (Option<Hdr>, Pred) {
    let Some((hd, body)) = codec::dec(f) else { return (None, Pred::Ignored) };
    let Some(k) = codec::refold(&hd.key, kw) else { return (Some(hd), Pred::Err(WErr::KeyTooSmall)) };
    let is = |full: [u8; 8]| fold(full, kw) == k;
    for e in eps_of(v) {
        if is(e.req_key()) {
            let p = match redec_ep(e, body) {
                Some(a) => Pred::Run(e, a),
                None => Pred::Err(WErr::Deser),
            };
            return (Some(hd), p);
        }
    }
    if is(GetAllSchemasEndpoint::REQ_KEY.to_bytes()) {
        return (Some(hd), Pred::Schemas);
    }
    for t in Tp::ALL {
        if is(t.key()) {
            let p = match redec_tp(t, body) {
                Some(a) => Pred::Topic(t, a),
                None => Pred::Dropped,
            };
            return (Some(hd), p);
        }
    }
    (Some(hd), Pred::Err(WErr::Unknown))
}

fn out_topics(v: Var) -> Vec<[u8; 8]> {
    let mut l = vec![
        OutA::TOPIC_KEY.to_bytes(),
        OutB::TOPIC_KEY.to_bytes(),
        OutN::TOPIC_KEY.to_bytes(),
        OutU::TOPIC_KEY.to_bytes(),
        LoggingTopic::TOPIC_KEY.to_bytes(),
        GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(),
    ];
    match v {
        Var::V2o => l.push(O2::TOPIC_KEY.to_bytes()),
        Var::V4o => l.push(O4::TOPIC_KEY.to_bytes()),
        Var::Vr | Var::Vh => l.push(RichNews::TOPIC_KEY.to_bytes()),
        _ => {}
    }
    l
}

// ------------------------------------------------------------------ world

#[derive(Clone, Debug)]
pub struct CallRec {
    pub ep: Ep,
    pub arg: Arg,
    pub id: u32,
    pub t0: u64,
    pub t1: Option<u64>,
    pub res: Option<Res>,
    /// given up by the caller (only where the scenario loses frames)
    pub gave_up: bool,
    pub phase: u32,
}
#[derive(Clone, Debug)]
pub struct PubRec {
    pub tp: Tp,
    pub sw: SW,
    pub seq: u32,
    pub body: Vec<u8>,
    pub ok: bool,
    pub task: usize,
}
#[derive(Clone, Debug)]
pub struct OutRec {
    pub sw: SW,
    pub seq: u32,
    pub body: Vec<u8>,
    pub key: [u8; 8],
    pub ok: Option<bool>,
}

pub struct Fw {
    pub sw: SW,
    pub port: HostPort,
    pub srv: SrvPort,
    pub ctx: Ctx,
    pub sp: SimSpawner,
    pub calls: Sh<Vec<CallRec>>,
    pub pubs: Sh<Vec<PubRec>>,
    pub outs: Sh<Vec<OutRec>>,
    pub ids: Sh<u32>,
    pub phase: Sh<u32>,
    /// the variant (and its width) serving since the n-th received frame
    pub eras: Sh<Vec<(usize, Var, KW)>>,
    pub max_data: usize,
    pub think: u64,
    /// answers may be damaged
    pub lossy: Sh<bool>,
    /// the connection ended at this time
    pub ended_at: Sh<Option<u64>>,
}
pub type FW = Rc<Fw>;

pub fn vs(sw: SW, v: u32) -> VarSeq {
    match sw {
        S1 => VarSeq::Seq1(v as u8),
        S2 => VarSeq::Seq2(v as u16),
        S4 => VarSeq::Seq4(v),
    }
}
fn skind(sw: SW) -> VarSeqKind {
    match sw {
        S1 => VarSeqKind::Seq1,
        S2 => VarSeqKind::Seq2,
        S4 => VarSeqKind::Seq4,
    }
}

impl Fw {
    pub fn new(max_data: usize) -> FW {
        let port = HostPort::new();
        let srv = SrvPort::new(port.h2d.clone(), port.d2h.clone());
        Rc::new(Fw {
            sw: *pick(W, &SWS),
            srv,
            port,
            ctx: Ctx::new(),
            sp: SimSpawner::new(),
            calls: sh(vec![]),
            pubs: sh(vec![]),
            outs: sh(vec![]),
            ids: sh(0),
            phase: sh(0),
            eras: sh(vec![]),
            max_data,
            think: [0, 2, 8][choose(W, 3)],
            lossy: sh(false),
            ended_at: sh(None),
        })
    }
    /// How many things to do; sequence numbers must not come round
    pub fn many(&self, lo: usize, hi: usize) -> usize {
        if self.sw == S1 {
            range(W, lo, hi)
        } else {
            kernel::count(lo, hi, 400)
        }
    }
    pub fn id(&self) -> u32 {
        let mut i = self.ids.borrow_mut();
        *i += 1;
        *i
    }
    fn era(&self) -> (Var, KW) {
        let e = self.eras.borrow();
        let l = e.last().unwrap();
        (l.1, l.2)
    }
    fn era_of(&self, got: usize) -> (Var, KW) {
        let e = self.eras.borrow();
        let l = e.iter().rev().find(|x| x.0 <= got).unwrap();
        (l.1, l.2)
    }
    pub fn client(&self) -> Client {
        let (tx, rx) = self.port.ends();
        Client::new_with_wire_and_config(
            tx,
            rx,
            KernelSpawn::new(),
            &HostClientConfig {
                seq_kind: skind(self.sw),
                err_uri_path: ERROR_PATH,
                outgoing_depth: [1, 2, 8][choose(W, 3)],
                subscriber_timeout_if_full: Duration::ZERO,
            },
        )
    }
    /// Speed and back-pressure of both directions
    pub fn weather(&self) {
        let d = [0, 0, 3, 10][choose(F, 4)];
        self.port.h2d.st().max_delay = d;
        self.port.d2h.st().max_delay = [0, d][choose(F, 2)];
        self.port.h2d.st().cap = [usize::MAX, 1, 3][choose(F, 3)];
        self.port.d2h.st().cap = [usize::MAX, 1, 3][choose(F, 3)];
        {
            let mut s = self.srv.s();
            s.tx_slow = [0, 0, 4][choose(F, 3)];
            s.tx_slow_ms = 10;
        }
        let mut p = self.port.s();
        p.tx_slow = [0, 0, 4][choose(F, 3)];
        p.tx_slow_ms = 10;
        let mut s = self.ctx.st.borrow_mut();
        s.slow = [0, 3, 6][choose(F, 3)];
        s.slow_ms = [2, 20][choose(F, 2)];
    }
    pub fn calm(&self) {
        stop_stalls();
        let mut s = self.srv.s();
        s.tx_slow = 0;
        s.p_tx_other = 0;
        s.tx_errs.clear();
        s.rx_errs.clear();
        drop(s);
        self.port.s().tx_slow = 0;
        self.ctx.st.borrow_mut().slow = 0;
        self.ctx.st.borrow_mut().hold_spawned = false;
        self.sp.0.lock().unwrap().refuse = 0;
        self.port.h2d.st().max_delay = 0;
        self.port.d2h.st().max_delay = 0;
        self.port.h2d.clear_mangle();
        self.port.d2h.clear_mangle();
    }
}

/// Start a server of this variant; the loop is run again when it returns
pub fn serve(fw: &FW, v: Var, buf: usize, rerun_delay: u64) -> (TaskId, Sender<AnyTx>, KW) {
    serve_on(fw, v, AnyTx::Sim(fw.srv.clone()), AnyRx::Sim(fw.srv.clone()), buf, rerun_delay)
}

pub fn serve_on(fw: &FW, v: Var, tx: AnyTx, rx: AnyRx, buf: usize, rerun_delay: u64) -> (TaskId, Sender<AnyTx>, KW) {
    let mut dev = make_server(v, tx, rx, buf, &fw.ctx, &fw.sp);
    let kw = dev.kw;
    let snd = dev.srv.sender();
    let n = fw.srv.s().got.len();
    fw.eras.borrow_mut().push((n, v, kw));
    note(|| format!("server {v:?} width {kw:?}"));
    let fw2 = fw.clone();
    let t = kernel::spawn("server", async move {
        loop {
            fw2.srv.s().log.push(SrvEv::Run);
            let e = dev.srv.run().await;
            ev("srv.end", matches!(e, SrvEnd::Tx(_)) as u64, 0, 0);
            fw2.srv.s().log.push(SrvEv::End(e));
            if rerun_delay == 0 {
                // never spin
                sleep(1).await;
            } else {
                sleep(1 + choose(F, rerun_delay as usize) as u64).await;
            }
        }
    });
    (t, snd, kw)
}

pub async fn do_call(fw: &FW, cl: &Client, ep: Ep, max_data: usize, give_up: Option<u64>) -> usize {
    let id = fw.id();
    let arg = gen_arg(ep, id, max_data);
    let ix = {
        let mut c = fw.calls.borrow_mut();
        c.push(CallRec {
            ep,
            arg: arg.clone(),
            id,
            t0: now_ms(),
            t1: None,
            res: None,
            gave_up: false,
            phase: *fw.phase.borrow(),
        });
        c.len() - 1
    };
    ev("call", ep as u64, id as u64, 0);
    let r = timeout(give_up.unwrap_or(PATIENCE), icd::call(cl, ep, &arg)).await;
    let mut c = fw.calls.borrow_mut();
    c[ix].t1 = Some(now_ms());
    match r {
        Some(r) => {
            ev("call.end", id as u64, matches!(r, Res::Ok(_)) as u64, 0);
            c[ix].res = Some(r)
        }
        None => c[ix].gave_up = give_up.is_some(),
    }
    ix
}

pub async fn caller(fw: FW, cl: Client, n: usize, eps: Vec<Ep>, give_up: Option<u64>) {
    for _ in 0..n {
        if fw.think > 0 && chance(W, 1, 2) {
            kernel::idle(fw.think).await;
        }
        let ep = *pick(W, &eps);
        do_call(&fw, &cl, ep, fw.max_data, give_up).await;
    }
}

pub async fn publisher(fw: FW, cl: Client, n: usize, task: usize, tps: Vec<Tp>) {
    // sometimes all messages have the same number
    let same = choose(W, 4) == 3;
    for _ in 0..n {
        if fw.think > 0 && chance(W, 1, 3) {
            kernel::idle(fw.think).await;
        }
        let id = fw.id();
        let tp = *pick(W, &tps);
        let np = fw.pubs.borrow().len() as u32;
        let sw = if np < 100 { *pick(W, &SWS) } else { S4 };
        let seq = match sw {
            S1 if same => 139,
            S2 if same => 0x5fff,
            S4 if same => 0x6fff_ffff,
            S1 => 140 + np,
            S2 => 0x6000 + id,
            S4 => 0x7000_0000 + id,
        };
        let s = vs(sw, seq);
        let nn = choose(W, fw.max_data + 1);
        let m = Msg { id, data: bytes(W, nn) };
        let b = id % 2 == 0;
        let body = if tp == Tp::Flag { icd::enc(&b) } else { icd::enc(&m) };
        let ix = {
            let mut p = fw.pubs.borrow_mut();
            p.push(PubRec { tp, sw, seq, body, ok: false, task });
            p.len() - 1
        };
        let r = timeout(PATIENCE, async {
            match tp {
                Tp::Blk => cl.publish::<TBlk>(s, &m).await.is_ok(),
                Tp::Async => cl.publish::<TAsync>(s, &m).await.is_ok(),
                Tp::Spawn => cl.publish::<TSpawn>(s, &m).await.is_ok(),
                Tp::Flag => cl.publish::<TFlag>(s, &b).await.is_ok(),
            }
        })
        .await;
        fw.pubs.borrow_mut()[ix].ok = r == Some(true);
        check!(r == Some(true), "C02,C08:publish_refused", "publish on a healthy connection ended with {r:?}");
    }
}

/// A device task publishing topics
pub async fn announcer(fw: FW, snd: Sender<AnyTx>, n: usize) {
    let same = choose(W, 4) == 3;
    for _ in 0..n {
        kernel::idle(5).await;
        let id = fw.id();
        let sw = *pick(W, &SWS);
        let seq = sw.mask(0x8765_4300 + if same { 0 } else { id });
        let nn = choose(W, fw.max_data + 1);
        let m = Msg { id, data: bytes(W, nn) };
        let which = choose(W, 3);
        let (key, body) = match which {
            0 => (OutA::TOPIC_KEY, icd::enc(&m)),
            1 => (OutB::TOPIC_KEY, icd::enc(&m)),
            _ => (OutN::TOPIC_KEY, icd::enc(&id)),
        };
        let ix = {
            let mut o = fw.outs.borrow_mut();
            o.push(OutRec { sw, seq, body, key: key.to_bytes(), ok: None });
            o.len() - 1
        };
        let s = vs(sw, seq);
        let r = match which {
            0 => snd.publish::<OutA>(s, &m).await,
            1 => snd.publish::<OutB>(s, &m).await,
            _ => snd.publish::<OutN>(s, &id).await,
        };
        fw.outs.borrow_mut()[ix].ok = Some(r.is_ok());
    }
}

pub async fn settle(tasks: Vec<TaskId>, ms: u64) -> bool {
    let f = async {
        for t in &tasks {
            kernel::join(*t).await;
        }
    };
    timeout(ms, f).await.is_some()
}

// ------------------------------------------------------------------ oracles

/// Replay everything the server got through the reference model
pub fn verify_server(fw: &FW) {
    let s = fw.srv.s();
    let d = fw.ctx.st.borrow();
    let outs = fw.outs.borrow();

    // what the server should have done
    struct Exp {
        hd: Option<Hdr>,
        pred: Pred,
        kw: KW,
    }
    let exps: Vec<Exp> = s
        .got
        .iter()
        .enumerate()
        .map(|(i, (_, f))| {
            let (v, kw) = fw.era_of(i);
            let (hd, pred) = predict(v, kw, f);
            Exp { hd, pred, kw }
        })
        .collect();

    // handlers that are not spawned: exactly these, one at a time, in this order
    let want: Vec<(Option<Ep>, Option<Tp>, u8, u32, Vec<u8>)> = exps
        .iter()
        .filter_map(|e| {
            let h = e.hd.as_ref()?;
            match &e.pred {
                Pred::Run(Ep::Ping, _) => None,
                Pred::Run(ep, a) if !ep.is_spawn() => Some((Some(*ep), None, h.sw as u8, h.seq, a.clone())),
                Pred::Topic(tp, a) if *tp != Tp::Spawn => Some((None, Some(*tp), h.sw as u8, h.seq, a.clone())),
                _ => None,
            }
        })
        .collect();
    let have: Vec<(Option<Ep>, Option<Tp>, u8, u32, Vec<u8>)> = d
        .invs
        .iter()
        .filter(|i| !i.spawned)
        .map(|i| (i.ep, i.tp, i.seq_w, i.seq, i.arg.clone()))
        .collect();
    if want != have {
        let n = want.iter().zip(&have).take_while(|(a, b)| a == b).count();
        let topics = want.get(n).map(|w| w.1.is_some()).unwrap_or(false) || have.get(n).map(|w| w.1.is_some()).unwrap_or(false);
        fail(
            if topics { "C02,C03,C08,C22,C24:handler_runs" } else { "C02,C03,C10,C11,C22,C24:handler_runs" },
            format!(
                "handlers that are not spawned: run {n} should be {:?} and is {:?} (expected {} runs, seen {})",
                want.get(n),
                have.get(n),
                want.len(),
                have.len()
            ),
        );
    }
    check!(d.max_inline <= 1, "C02,C22:handlers_overlap", "{} handlers that are not spawned ran at the same time", d.max_inline);

    // spawned handlers: each at most once; those missing were refused
    let mut pool: Vec<(Option<Ep>, Option<Tp>, u8, u32, Vec<u8>)> = d
        .invs
        .iter()
        .filter(|i| i.spawned)
        .map(|i| (i.ep, i.tp, i.seq_w, i.seq, i.arg.clone()))
        .collect();
    let mut missing_ep = BTreeMap::new();
    let mut missing = 0u64;
    for e in &exps {
        let Some(h) = e.hd.as_ref() else { continue };
        let w = match &e.pred {
            Pred::Run(ep, a) if ep.is_spawn() => (Some(*ep), None, h.sw as u8, h.seq, a.clone()),
            Pred::Topic(Tp::Spawn, a) => (None, Some(Tp::Spawn), h.sw as u8, h.seq, a.clone()),
            _ => continue,
        };
        match pool.iter().position(|x| *x == w) {
            Some(p) => {
                pool.remove(p);
            }
            None => {
                missing += 1;
                if w.0.is_some() {
                    missing_ep.insert((w.2, w.3), ());
                }
            }
        }
    }
    check!(pool.is_empty(), "C02,C03,C08,C22,C24:handler_runs", "spawned handler runs nobody asked for: {:?}", pool.first());
    let refused = fw.sp.0.lock().unwrap().refused;
    check!(
        missing == refused,
        "C02,C03,C08,C22,C24:handler_runs",
        "{missing} spawned handlers did not run, but only {refused} were refused"
    );

    // answers: for every request exactly what the model says
    let mut by: BTreeMap<(u8, u32), Vec<&[u8]>> = BTreeMap::new();
    let mut topics_seen: Vec<(&[u8], KW)> = vec![];
    let mut era_ix = 0usize;
    let _ = &mut era_ix;
    for (_, f) in &s.sent {
        let Some((hd, _)) = codec::dec(f) else {
            fail("C20,C02,C22:bad_header", format!("the server sent a frame without a valid header: {}", hex(f)));
            continue;
        };
        let is_topic = fw.eras.borrow().iter().any(|(_, v, kw)| {
            *kw == hd.kw && out_topics(*v).iter().any(|k| fold(*k, *kw) == hd.key)
        });
        if is_topic {
            topics_seen.push((f, hd.kw));
        } else {
            by.entry((hd.sw as u8, hd.seq)).or_default().push(f);
        }
    }
    let tags = "C02,C03,C10,C11,C20,C21,C22,C24:answers";
    for e in &exps {
        let Some(h) = e.hd.as_ref() else { continue };
        let k = (h.sw as u8, h.seq);
        let have: Vec<Vec<u8>> = by.remove(&k).unwrap_or_default().into_iter().map(|f| f.to_vec()).collect();
        let e_err = |w: &WErr| codec::enc(err_key(), e.kw, h.sw, h.seq, &enc_err(w));
        let mut want: Vec<Vec<u8>> = match &e.pred {
            Pred::Err(w) => vec![e_err(w)],
            Pred::Run(Ep::Ping, a) => vec![codec::enc(Ep::Ping.resp_key(), e.kw, h.sw, h.seq, a)],
            Pred::Run(ep, _) => {
                if missing_ep.contains_key(&k) {
                    vec![e_err(&WErr::Spawn)]
                } else {
                    match d.invs.iter().find(|i| i.ep == Some(*ep) && i.seq == h.seq && i.seq_w == h.sw as u8) {
                        Some(i) if i.end.is_some() => {
                            let f = codec::enc(ep.resp_key(), e.kw, h.sw, h.seq, &i.reply);
                            if f.len() > s.tx_buf {
                                if ep.is_spawn() {
                                    vec![]
                                } else {
                                    kernel::probe("reply_overflow_answered");
                                    vec![e_err(&WErr::Ser)]
                                }
                            } else {
                                vec![f]
                            }
                        }
                        _ => vec![],
                    }
                }
            }
            Pred::Schemas => {
                // checked by the schema scenario; one answer
                if have.len() == 1 { have.clone() } else { vec![vec![]] }
            }
            _ => vec![],
        };
        // sends that failed by injection: the first attempt's replacement, or nothing
        let failed: Vec<&Vec<u8>> = s
            .failed
            .iter()
            .filter(|(_, _, f)| {
                codec::dec(f).is_some_and(|(x, _)| {
                    x.sw == h.sw && x.seq == h.seq && !out_topics(Var::V1).iter().any(|k| x.is(*k))
                })
            })
            .map(|x| &x.2)
            .collect();
        if !failed.is_empty() {
            let inline_reply = matches!(&e.pred, Pred::Run(ep, _) if !ep.is_spawn() && *ep != Ep::Ping);
            let first_ok = want.first().is_some_and(|w| w == failed[0]);
            check!(first_ok || matches!(e.pred, Pred::Schemas), tags, "a failed send for {h:?} was {} instead of {:?}", hex(failed[0]), want.first().map(|w| hex(w)));
            want = match (inline_reply, failed.len()) {
                (true, 1) if failed[0] != &e_err(&WErr::Ser) => vec![e_err(&WErr::Ser)],
                _ => vec![],
            };
            if matches!(e.pred, Pred::Schemas) {
                want = have.clone();
            }
        }
        if have != want {
            fail(
                tags,
                format!(
                    "request {h:?} ({:?}): the server sent {:?} instead of {:?}",
                    e.pred,
                    have.iter().map(|f| hex(f)).collect::<Vec<_>>(),
                    want.iter().map(|f| hex(f)).collect::<Vec<_>>()
                ),
            );
            return;
        }
        match &e.pred {
            Pred::Err(WErr::KeyTooSmall) => kernel::probe("key_too_small"),
            Pred::Err(WErr::Unknown) => kernel::probe("unknown_key"),
            Pred::Err(WErr::Deser) => kernel::probe("deser_failed"),
            Pred::Dropped => kernel::probe("topic_undecodable"),
            Pred::Run(..) if missing_ep.contains_key(&k) => kernel::probe("spawn_refused_answered"),
            _ => {}
        }
    }
    if let Some((k, v)) = by.iter().next() {
        fail(tags, format!("the server sent an answer {} to a request {k:?} it never got", hex(v[0])));
        return;
    }
    // topics sent by device tasks, in the order in which they were sent
    let mut rest: Vec<&OutRec> = outs.iter().filter(|o| o.ok == Some(true)).collect();
    let schema = fold(GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(), topics_seen.first().map(|t| t.1).unwrap_or(K8));
    for (f, kw) in topics_seen {
        if codec::dec(f).is_some_and(|(h, _)| h.key == schema) {
            continue;
        }
        match rest.iter().position(|o| codec::enc(o.key, kw, o.sw, o.seq, &o.body) == f) {
            Some(0) => {
                rest.remove(0);
            }
            Some(p) => {
                fail("C02,C20,C22,C24:topic_order", format!("topic message {} overtook {:?}", hex(f), rest[0]));
                rest.remove(p);
            }
            None => {
                fail("C02,C20,C22,C24:topic_frame", format!("the server sent {} which no task published", hex(f)));
            }
        }
    }
    check!(rest.is_empty(), "C02,C20,C22,C24:topic_lost", "published topic message never sent: {:?}", rest.first());
}

/// Every call got its own handler's result
pub fn verify_calls(fw: &FW) {
    let d = fw.ctx.st.borrow();
    let s = fw.srv.s();
    for c in fw.calls.borrow().iter() {
        let Some(r) = &c.res else {
            check!(c.gave_up, "C02,C03,C10,C11,C22,C24:call_hung", "call {c:?} never ended");
            continue;
        };
        // what happened to its request on the wire
        let arg = c.arg.enc();
        let unique = c.ep.is_reqrsp() || matches!(c.ep, Ep::Ping | Ep::Inc);
        let mut pred = None;
        if unique {
            for (i, (_, f)) in s.got.iter().enumerate() {
                let Some((h, b)) = codec::dec(f) else { continue };
                if h.is(c.ep.req_key()) && b == &arg[..] && h.seq < 0x4000 {
                    let (v, kw) = fw.era_of(i);
                    pred = Some((predict(v, kw, f).1, h, kw));
                }
            }
        }
        match r {
            Res::Ok(b) => {
                let want: Option<Vec<u8>> = match (&c.ep, &c.arg) {
                    (Ep::Ping, a) => Some(a.enc()),
                    (Ep::Inc, Arg::L(v)) => Some(icd::enc(&inc(*v))),
                    (Ep::Nop, _) => Some(vec![]),
                    (Ep::Strict, Arg::B(v)) => Some(vec![if *v { 77 } else { 33 }]),
                    (Ep::Big | Ep::BigA, Arg::N(n)) => Some(icd::enc(&blob(*n % 100_000))),
                    (ep, _) => d.invs.iter().find(|i| i.ep == Some(*ep) && i.arg == arg).map(|i| i.reply.clone()),
                };
                check!(
                    want.as_ref() == Some(b),
                    "C01,C02,C03,C10,C11,C20,C22,C24:call_result",
                    "call {:?} id {} returned {} instead of {:?}",
                    c.ep,
                    c.id,
                    hex(b),
                    want.map(|w| hex(&w))
                );
            }
            Res::Wire(e) => {
                let ok = match e {
                    WErr::Spawn => c.ep.is_spawn() && fw.sp.0.lock().unwrap().refused > 0 && !d.invs.iter().any(|i| i.ep == Some(c.ep) && i.arg == arg),
                    WErr::Ser => !c.ep.is_spawn() && (!s.unfit.is_empty() || !s.failed.is_empty()),
                    WErr::KeyTooSmall => match &pred {
                        Some((p, _, _)) => *p == Pred::Err(WErr::KeyTooSmall),
                        None => fw.eras.borrow().len() > 1,
                    },
                    _ => false,
                };
                check!(ok, "C02,C03,C10,C11,C22,C24:call_result", "call {:?} id {} returned error {e:?}, request seen as {pred:?}", c.ep, c.id);
            }
            Res::Closed if fw.ended_at.borrow().is_some_and(|t| c.t1.unwrap_or(0) >= t) => {}
            Res::Postcard if *fw.lossy.borrow() && !s.failed.is_empty() => {}
            other => fail("C02,C03,C10,C11,C22,C24:call_result", format!("call {:?} id {} ended with {other:?}", c.ep, c.id)),
        }
    }
}

// ------------------------------------------------------------------ scenarios

pub fn serve_all() -> MainFut {
    Box::pin(serve_main())
}

async fn serve_main() {
    let fw = Fw::new(if chance(W, 1, 50) { 1_950 } else { [4, 40, 300][choose(W, 3)] });
    fw.weather();
    let v = *pick(W, &VARS);
    let (_t, snd, _kw) = serve(&fw, v, 2048, 0);
    let cl = fw.client();
    let mut eps = eps_of(v);
    if choose(W, 3) == 0 {
        // a few endpoints only, so that they compete
        let n = range(W, 1, 3);
        eps = (0..n).map(|_| *pick(W, &eps)).collect();
    }
    nontrivial();
    let mut tasks = vec![];
    for i in 0..range(W, 1, 4) {
        tasks.push(kernel::spawn(format!("caller{i}"), caller(fw.clone(), cl.clone(), fw.many(1, 7), eps.clone(), None)));
    }
    for i in 0..choose(W, 3) {
        let n = fw.many(1, 6);
        tasks.push(kernel::spawn(format!("pub{i}"), publisher(fw.clone(), cl.clone(), n, i, Tp::ALL.to_vec())));
    }
    if choose(W, 2) == 1 {
        let n = range(W, 1, 6);
        tasks.push(kernel::spawn("announcer", announcer(fw.clone(), snd.clone(), n)));
    }
    // a phase in which spawned handlers do not finish
    let hold = choose(W, 3) == 2;
    if !hold {
        // a handler, or the host's transmitter, takes seconds
        match choose(F, 12) {
            10 => fw.ctx.st.borrow_mut().nap = [1_500, 7_000][choose(F, 2)],
            11 => {
                let (p, d) = (fw.port.clone(), [300, 2_000, 7_000][choose(F, 3)]);
                tasks.push(kernel::spawn("outage", async move {
                    sleep(choose(F, 20) as u64).await;
                    p.set_hang(true);
                    kernel::probe("outage");
                    sleep(d).await;
                    p.set_hang(false);
                }));
            }
            _ => {}
        }
    }
    if hold {
        sleep(choose(F, 20) as u64).await;
        fw.ctx.st.borrow_mut().hold_spawned = true;
        kernel::probe("spawned_held");
        let held: Vec<TaskId> = (0..range(W, 1, 3))
            .map(|i| {
                let (fw, cl) = (fw.clone(), cl.clone());
                kernel::spawn(format!("held{i}"), async move {
                    let ep = *pick(W, &[Ep::SpawnA, Ep::SpawnB]);
                    do_call(&fw, &cl, ep, 8, None).await;
                })
            })
            .collect();
        sleep(5).await;
        let n0 = held.len();
        for _ in 0..range(W, 1, 3) {
            let ep = *pick(W, &[Ep::EchoA, Ep::AsyncA, Ep::Ping, Ep::Nop, Ep::Inc, Ep::BigA]);
            let ix = do_call(&fw, &cl, ep, 8, None).await;
            let c = fw.calls.borrow()[ix].clone();
            check!(
                c.res.is_some() && c.t1.unwrap() - c.t0 < 2_500,
                "C02:held_up",
                "call to {ep:?} took {} ms while {n0} spawned handlers were running: {:?}",
                c.t1.unwrap() - c.t0,
                c.res
            );
        }
        // all of them have started, although none has finished
        let ok = timeout(BOUND, async {
            loop {
                let n = fw.ctx.st.borrow().invs.iter().filter(|i| i.ep.is_some_and(|e| e.is_spawn()) && i.end.is_none()).count();
                if n >= n0 {
                    break;
                }
                sleep(5).await;
            }
        })
        .await;
        check!(ok.is_some(), "C02:spawned_not_concurrent", "not all of {n0} spawned handlers were started while others were running");
        fw.ctx.st.borrow_mut().hold_spawned = false;
        tasks.extend(held);
    }
    let ok = settle(tasks, 6 * PATIENCE).await;
    check!(ok, "C02:hung", "callers or publishers did not finish");
    fw.calm();
    // everything published gets through
    timeout(2 * BOUND + 8_000, async {
        let mut calm = 0;
        while calm < 2 {
            let want = fw.port.s().sent.len();
            let idle = fw.port.s().begun.len() == want
                && fw.srv.s().got.len() == want
                && fw.ctx.st.borrow().inline_running == 0
                && fw.ctx.st.borrow().spawned_running == 0
                && fw.sp.0.lock().unwrap().running == 0;
            calm = if idle { calm + 1 } else { 0 };
            sleep(if idle { 50 } else { 5 }).await;
        }
    })
    .await;
    sleep(50).await;
    {
        let pubs = fw.pubs.borrow();
        let s = fw.srv.s();
        for p in pubs.iter().filter(|p| p.ok) {
            let n = s
                .got
                .iter()
                .filter(|(_, f)| codec::dec(f).is_some_and(|(h, b)| h.is(p.tp.key()) && h.seq == p.seq && h.sw == p.sw && b == &p.body[..]))
                .count();
            let same = pubs.iter().filter(|q| q.ok && q.tp == p.tp && q.sw == p.sw && q.seq == p.seq && q.body == p.body).count();
            check!(n == same, "C08:delivered", "message {p:?} was published {same} times and arrived {n} times");
        }
    }
    if fw.pubs.borrow().is_empty() && is_prop("C08") {
        kernel::probe("no_publish");
    }
    verify_server(&fw);
    verify_calls(&fw);
    check!(!cl.is_closed(), "C02,C04:closed", "the client closed on a healthy connection");
    check!(fw.srv.s().log.iter().all(|e| !matches!(e, SrvEv::End(_))), "C02,C10:server_ended", "the server loop returned on a healthy connection");
}

/// A frame the server has to cope with, and its number
fn rogue(fw: &FW, v: Var, kw: KW, n: u32, allow_schema: bool) -> Vec<u8> {
    let sw = match choose(F, 4) {
        0 => S1,
        1 => S2,
        _ => S4,
    };
    let sw = if sw == S1 && n >= 50 { S4 } else { sw };
    let seq = match sw {
        S1 => 200 + n,
        S2 => ((1 + choose(F, 3) as u32) << 14) | (n.wrapping_mul(0x2455) & 0x3fff),
        S4 => ((1 + choose(F, 3) as u32) << 30) | (n.wrapping_mul(0x1E37_79B1) & 0x3fff_ffff),
    };
    let long: Vec<KW> = KWS.into_iter().filter(|w| *w >= kw).collect();
    let short: Vec<KW> = KWS.into_iter().filter(|w| *w < kw).collect();
    let lw = *pick(F, &long);
    let id = fw.id();
    let eps = eps_of(v);
    let ep = *pick(F, &eps);
    let tp = *pick(F, &Tp::ALL);
    match choose(F, 10) {
        // a valid request, written by somebody else
        0 => {
            let a = gen_arg(ep, id, 16).enc();
            codec::enc(ep.req_key(), lw, sw, seq, &a)
        }
        // trailing bytes after a valid request
        1 => {
            let mut a = gen_arg(ep, id, 8).enc();
            a.extend(bytes(F, 3));
            codec::enc(ep.req_key(), lw, sw, seq, &a)
        }
        // too short keys
        2 if !short.is_empty() => {
            let key = match choose(F, 3) {
                0 => tp.key(),
                1 => bytes(F, 8).try_into().unwrap(),
                _ => ep.req_key(),
            };
            let a = gen_arg(ep, id, 8).enc();
            codec::enc(key, *pick(F, &short), sw, seq, &a)
        }
        // a request that does not decode
        3 => {
            let body = match ep {
                Ep::Strict => vec![*pick(F, &[2u8, 0xff])],
                Ep::Inc => vec![0xff; range(F, 0, 11)],
                Ep::Big | Ep::BigA | Ep::Ping => [vec![], vec![0x80], vec![0xff; 6]][choose(F, 3)].clone(),
                Ep::Nop => vec![],
                _ => {
                    let mut e = icd::enc(&Req { id, data: vec![1, 2, 3, 4] });
                    let k = choose(F, e.len());
                    e.truncate(k);
                    e
                }
            };
            codec::enc(ep.req_key(), lw, sw, seq, &body)
        }
        // topics: good and bad
        4 => {
            let b = if tp == Tp::Flag { vec![1] } else { icd::enc(&Msg { id, data: bytes(F, 3) }) };
            codec::enc(tp.key(), lw, sw, seq, &b)
        }
        5 => {
            let b = if tp == Tp::Flag {
                vec![7]
            } else {
                let mut e = icd::enc(&Msg { id, data: vec![9; 4] });
                let k = choose(F, e.len());
                e.truncate(k);
                e
            };
            codec::enc(tp.key(), lw, sw, seq, &b)
        }
        // keys of things that are not requests
        6 => {
            let k = match choose(F, 4) {
                0 => ep.resp_key(),
                1 => err_key(),
                2 => OutA::TOPIC_KEY.to_bytes(),
                _ => bytes(F, 8).try_into().unwrap(),
            };
            let nn = choose(F, 6);
            codec::enc(k, lw, sw, seq, &bytes(F, nn))
        }
        // no header
        7 => {
            let mut f = codec::enc(ep.req_key(), lw, sw, seq, &[1, 2, 3]);
            match choose(F, 4) {
                0 => f[0] |= 1 + choose(F, 15) as u8,
                1 => f[0] |= 0x30,
                2 => {
                    let k = choose(F, 1 + lw as usize + sw as usize);
                    f.truncate(k)
                }
                _ => f.clear(),
            }
            f
        }
        // replies around the size of the transmit buffer
        8 => {
            let e = *pick(F, &[Ep::Big, Ep::BigA]);
            let cap = fw.srv.s().tx_buf as i64;
            let fixed = 1 + kw as i64 + sw as i64 + 2;
            let nn = (cap - fixed + choose(F, 7) as i64 - 3).max(0) as u32;
            codec::enc(e.req_key(), lw, sw, seq, &icd::enc(&nn))
        }
        _ if allow_schema && choose(F, 4) == 0 => codec::enc(GetAllSchemasEndpoint::REQ_KEY.to_bytes(), lw, sw, seq, &[]),
        _ => codec::enc(PingEndpoint::REQ_KEY.to_bytes(), lw, sw, seq, &icd::enc(&id)),
    }
}

pub fn errors() -> MainFut {
    Box::pin(errors_main())
}

async fn errors_main() {
    let fw = Fw::new(8);
    fw.weather();
    let v = *pick(W, &VARS);
    fw.srv.s().tx_buf = *pick(W, &[64usize, 65, 100, 150, 1000]);
    let (_t, snd, kw) = serve(&fw, v, 512, 0);
    match choose(F, 3) {
        0 => {}
        1 => fw.sp.0.lock().unwrap().refuse = 3,
        _ => fw.sp.0.lock().unwrap().limit = choose(F, 3),
    }
    let cl = fw.client();
    nontrivial();
    let eps: Vec<Ep> = eps_of(v);
    let mut tasks = vec![];
    for i in 0..range(W, 1, 3) {
        tasks.push(kernel::spawn(format!("caller{i}"), caller(fw.clone(), cl.clone(), range(W, 1, 6), eps.clone(), None)));
    }
    if choose(W, 2) == 1 {
        let n = range(W, 1, 4);
        tasks.push(kernel::spawn("announcer", announcer(fw.clone(), snd.clone(), n)));
    }
    let fw2 = fw.clone();
    tasks.push(kernel::spawn("rogue", async move {
        for n in 0..range(F, 1, 30) as u32 {
            if chance(F, 1, 3) {
                sleep(choose(F, 10) as u64).await;
            }
            let f = rogue(&fw2, v, kw, n, true);
            fault("rogue_frame");
            if fw2.srv.h2d.send(f).await.is_err() {
                break;
            }
        }
    }));
    let ok = settle(tasks, 6 * PATIENCE).await;
    check!(ok, "C02,C03:hung", "callers did not finish");
    let frames = fw.srv.h2d.st().pushed;
    fw.calm();
    fw.sp.0.lock().unwrap().limit = usize::MAX;
    timeout(PATIENCE, async {
        loop {
            let n = fw.srv.s().got.len() as u64;
            if n == frames && fw.ctx.st.borrow().inline_running == 0 && fw.sp.0.lock().unwrap().running == 0 {
                break;
            }
            sleep(5).await;
        }
    })
    .await;
    sleep(100).await;
    verify_server(&fw);
    verify_calls(&fw);
    check!(!cl.is_closed(), "C03:closed", "the client closed");
    // and it still serves
    after(&fw, &cl, &eps).await;
}

/// Normal service: every endpoint, sequentially
pub async fn after(fw: &FW, cl: &Client, eps: &[Ep]) {
    let n0 = fw.calls.borrow().len();
    for ep in eps {
        do_call(fw, cl, *ep, 8, Some(BOUND)).await;
    }
    for c in fw.calls.borrow()[n0..].iter() {
        check!(
            matches!(c.res, Some(Res::Ok(_))),
            "C02,C03,C10,C11,C21,C22,C24:not_serving_after",
            "after the faults stopped a call to {:?} ended with {:?}",
            c.ep,
            c.res
        );
    }
}

/// Requests that look the same, or share their sequence number, one after the
/// other: each of them counts
pub fn repeat() -> MainFut {
    Box::pin(repeat_main())
}

async fn repeat_main() {
    let fw = Fw::new(8);
    fw.weather();
    let v = *pick(W, &VARS);
    let (_t, _snd, kw) = serve(&fw, v, 512, 0);
    nontrivial();
    // (it reads and discards)
    let _cl = fw.client();
    let spawned = choose(W, 2) == 1;
    let eps: Vec<Ep> = eps_of(v).into_iter().filter(|e| spawned || !e.is_spawn()).collect();
    let mut pool = vec![];
    let (sw, seq) = (*pick(W, &SWS), choose(W, 256) as u32);
    for _ in 0..range(W, 1, 4) {
        let id = fw.id();
        let seq = if choose(W, 3) == 0 { choose(W, 256) as u32 } else { seq };
        let sw = if choose(W, 4) == 0 { *pick(W, &SWS) } else { sw };
        let (key, body) = match choose(W, 8) {
            0 => (*pick(W, &[Tp::Blk, Tp::Async]), vec![]),
            1 => (*pick(W, &Tp::ALL), vec![0xff]),
            _ => (Tp::Flag, vec![]),
        };
        let f = match (key, body.is_empty()) {
            (Tp::Flag, true) => {
                let ep = *pick(W, &eps);
                let n = choose(W, 6);
                let b = if choose(W, 8) == 0 { vec![0xff; 3] } else { gen_arg(ep, id, n).enc() };
                codec::enc(ep.req_key(), K8, sw, seq, &b)
            }
            (tp, true) => codec::enc(tp.key(), K8, sw, seq, &icd::enc(&Msg { id, data: vec![] })),
            (tp, false) => codec::enc(tp.key(), K8, sw, seq, &body),
        };
        pool.push(f);
    }
    for _ in 0..range(W, 2, 20) {
        if chance(F, 1, 3) {
            sleep(choose(F, 10) as u64).await;
        }
        let f = pool[choose(W, pool.len())].clone();
        if fw.srv.h2d.send(f).await.is_err() {
            break;
        }
    }
    let frames = fw.srv.h2d.st().pushed;
    timeout(PATIENCE, async {
        loop {
            let n = fw.srv.s().got.len() as u64;
            if n == frames && fw.ctx.st.borrow().inline_running == 0 && fw.sp.0.lock().unwrap().running == 0 {
                break;
            }
            sleep(5).await;
        }
    })
    .await;
    sleep(100).await;
    let s = fw.srv.s();
    let d = fw.ctx.st.borrow();
    let tags = "C02,C03,C08:repeated";
    check!(s.got.len() as u64 == frames, "C02:hung", "the server did not take all requests");
    // handlers: each request once, those that are not spawned in order
    let (mut inline, mut other, mut want) = (vec![], vec![], vec![]);
    for (_, f) in &s.got {
        let (Some(h), p) = predict(v, kw, f) else { continue };
        let run = match p {
            Pred::Run(Ep::Ping, a) => {
                want.push(codec::enc(Ep::Ping.resp_key(), kw, h.sw, h.seq, &a));
                continue;
            }
            Pred::Run(ep, a) => (Some(ep), None, h.sw as u8, h.seq, a),
            Pred::Topic(tp, a) => (None, Some(tp), h.sw as u8, h.seq, a),
            Pred::Err(w) => {
                want.push(codec::enc(err_key(), kw, h.sw, h.seq, &enc_err(&w)));
                continue;
            }
            _ => continue,
        };
        if run.0.is_some_and(|e| e.is_spawn()) || run.1 == Some(Tp::Spawn) {
            other.push(run);
        } else {
            inline.push(run);
        }
    }
    let runs = |sp: bool| d.invs.iter().filter(|i| i.spawned == sp).map(|i| (i.ep, i.tp, i.seq_w, i.seq, i.arg.clone())).collect::<Vec<_>>();
    check!(runs(false) == inline, tags, "handlers ran for {:?} instead of {inline:?}", runs(false));
    let key = |x: &(Option<Ep>, Option<Tp>, u8, u32, Vec<u8>)| (x.0.map(|e| e as u8), x.1.map(|t| t as u8), x.2, x.3, x.4.clone());
    let mut have: Vec<_> = runs(true).iter().map(key).collect();
    let mut exp: Vec<_> = other.iter().map(key).collect();
    have.sort();
    exp.sort();
    check!(have == exp, tags, "spawned handlers ran for {have:?} instead of {exp:?}");
    // answers: one for each
    for i in d.invs.iter() {
        let Some(ep) = i.ep else { continue };
        let sw = *SWS.iter().find(|s| **s as u8 == i.seq_w).unwrap();
        want.push(codec::enc(ep.resp_key(), kw, sw, i.seq, &i.reply));
    }
    let mut sent: Vec<Vec<u8>> = s.sent.iter().map(|x| x.1.clone()).collect();
    sent.sort();
    want.sort();
    check!(
        sent == want,
        "C02,C03:repeated",
        "the server sent {:?} instead of {:?}",
        sent.iter().map(|f| hex(f)).collect::<Vec<_>>(),
        want.iter().map(|f| hex(f)).collect::<Vec<_>>()
    );
}

pub fn robust() -> MainFut {
    Box::pin(robust_main())
}

async fn robust_main() {
    let fw = Fw::new(8);
    fw.weather();
    let v = *pick(W, &VARS);
    fw.srv.s().tx_buf = *pick(W, &[100usize, 1000]);
    let (_t, _snd, kw) = serve(&fw, v, 256, 20);
    let cl = fw.client();
    nontrivial();
    let eps: Vec<Ep> = eps_of(v);
    let mut tasks = vec![];
    for i in 0..range(W, 1, 3) {
        tasks.push(kernel::spawn(format!("caller{i}"), caller(fw.clone(), cl.clone(), range(W, 1, 6), eps.clone(), Some(200))));
    }
    let with_tx = choose(F, 3) > 0;
    let fw2 = fw.clone();
    tasks.push(kernel::spawn("faults", async move {
        for n in 0..range(F, 1, 30) as u32 {
            if chance(F, 1, 2) {
                sleep(choose(F, 12) as u64).await;
            }
            match choose(F, 8) {
                0 => fw2.srv.inject_rx(WireRxErrorKind::ReceivedMessageTooLarge),
                1 => fw2.srv.inject_rx(WireRxErrorKind::Other),
                2 => fw2.srv.inject_rx(WireRxErrorKind::ConnectionClosed),
                3 | 4 if with_tx => {
                    let k = [WireTxErrorKind::Other, WireTxErrorKind::ConnectionClosed, WireTxErrorKind::Timeout][choose(F, 3)];
                    let skip = choose(F, 3);
                    let twice = chance(F, 2, 3);
                    let mut s = fw2.srv.s();
                    for _ in 0..skip {
                        s.tx_errs.push_back(None);
                    }
                    s.tx_errs.push_back(Some(k));
                    if twice {
                        drop(s);
                        let k = [WireTxErrorKind::Other, WireTxErrorKind::ConnectionClosed, WireTxErrorKind::Timeout][choose(F, 3)];
                        fw2.srv.s().tx_errs.push_back(Some(k));
                    }
                }
                5 => {
                    // too large for the receive buffer
                    let mut f = rogue(&fw2, v, kw, n, false);
                    f.resize(257 + choose(F, 300), 0x55);
                    fault("oversized_request");
                    let _ = fw2.srv.h2d.send(f).await;
                }
                6 => {
                    let nn = choose(F, 40);
                    let f = bytes(F, nn);
                    // random bytes that happen to look like a request are skipped
                    if codec::dec(&f).is_none() {
                        fault("garbage_frame");
                        let _ = fw2.srv.h2d.send(f).await;
                    }
                }
                _ => {
                    let f = rogue(&fw2, v, kw, n, true);
                    fault("rogue_frame");
                    let _ = fw2.srv.h2d.send(f).await;
                }
            }
        }
    }));
    let ok = settle(tasks, 6 * PATIENCE).await;
    check!(ok, "C10:hung", "callers did not finish");
    fw.calm();
    timeout(PATIENCE, async {
        loop {
            if fw.srv.h2d.len() == 0 && fw.ctx.st.borrow().inline_running == 0 && fw.sp.0.lock().unwrap().running == 0 {
                break;
            }
            sleep(5).await;
        }
    })
    .await;
    sleep(200).await;
    walk_run(&fw);
    verify_server(&fw);
    verify_calls(&fw);
    after(&fw, &cl, &eps).await;
}

pub fn fatal_tx(k: &WireTxErrorKind) -> bool {
    matches!(k, WireTxErrorKind::ConnectionClosed | WireTxErrorKind::Timeout)
}

/// The run loop returned exactly when it had to, with the right error
pub fn walk_run(fw: &FW) {
    let s = fw.srv.s();
    #[derive(Debug)]
    enum St {
        Idle,
        /// nothing but a return is right
        RxFatal,
        /// serving a request; the outcome of the last send for it
        Serving(Option<(u8, u32)>, Option<Option<WireTxErrorKind>>),
    }
    let mut st = St::Idle;
    let mut got = 0usize;
    for (n, e) in s.log.iter().enumerate() {
        match e {
            SrvEv::GetStart => {
                match &st {
                    St::RxFatal => fail("C10,C22,C24:did_not_return", format!("event {n}: the loop went on after the connection was reported closed")),
                    St::Serving(_, Some(Some(k))) if fatal_tx(k) => {
                        fail("C10,C21,C22,C24:did_not_return", format!("event {n}: the loop went on after the last send for a request failed with {k:?}"))
                    }
                    _ => {}
                }
                st = St::Idle;
            }
            SrvEv::Got(f) => {
                let (v, kw) = fw.era_of(got);
                got += 1;
                let (hd, p) = predict(v, kw, f);
                // a spawned handler's sends are not the loop's
                let started = matches!(&p, Pred::Run(ep, _) if ep.is_spawn());
                let h = hd.map(|h| (h.sw as u8, h.seq));
                st = St::Serving(if started { None } else { h }, None);
            }
            SrvEv::GetErr(k) => {
                st = match k {
                    WireRxErrorKind::ConnectionClosed => St::RxFatal,
                    _ => St::Idle,
                };
            }
            SrvEv::Put(f, r) => {
                if let St::Serving(Some(h), last) = &mut st {
                    if let Some((x, _)) = codec::dec(f) {
                        let topic = fw.eras.borrow().iter().any(|(_, v, _)| out_topics(*v).iter().any(|k| x.is(*k)));
                        if (x.sw as u8, x.seq) == *h && !topic {
                            *last = Some(*r);
                        }
                    }
                }
            }
            SrvEv::End(e) => {
                let ok = match (&st, e) {
                    (St::RxFatal, SrvEnd::Rx(WireRxErrorKind::ConnectionClosed)) => true,
                    (St::Serving(_, Some(Some(WireTxErrorKind::ConnectionClosed))), SrvEnd::Tx(WireTxErrorKind::ConnectionClosed)) => true,
                    (St::Serving(_, Some(Some(WireTxErrorKind::Timeout))), SrvEnd::Tx(WireTxErrorKind::Timeout)) => true,
                    _ => false,
                };
                kernel::probe(match e {
                    SrvEnd::Rx(_) => "returned_rx",
                    SrvEnd::Tx(_) => "returned_tx",
                });
                check!(ok, "C10,C21,C22,C24:returned_wrongly", "event {n}: the loop returned {e:?} in state {st:?}");
                st = St::Idle;
            }
            SrvEv::Run => st = St::Idle,
        }
    }
}

pub fn adopt() -> MainFut {
    Box::pin(adopt_main())
}

async fn adopt_main() {
    let fw = Fw::new(8);
    fw.weather();
    let cl = fw.client();
    nontrivial();
    let mut srv: Option<TaskId> = None;
    for ph in 0..range(W, 1, 5) {
        *fw.phase.borrow_mut() = ph as u32;
        let v = *pick(W, &VARS);
        if let Some(t) = srv.take() {
            kernel::abort(t);
            fault("server_replaced");
        }
        let (t, _snd, kw) = serve(&fw, v, 512, 0);
        srv = Some(t);
        let mut eps = eps_of(v);
        // the colliding ones matter most
        if let Some(x) = eps.iter().find(|e| matches!(e, Ep::X2 | Ep::X4 | Ep::X8 | Ep::E1)).copied() {
            for _ in 0..6 {
                eps.push(x);
            }
        }
        if ph > 0 {
            // after a replacement: the first call may be refused, no other
            let ep = *pick(W, &eps);
            let sent = fw.port.s().sent.len();
            let n0 = fw.ctx.st.borrow().invs.len();
            let ix = do_call(&fw, &cl, ep, 8, None).await;
            let c = fw.calls.borrow()[ix].clone();
            let used = fw.port.s().sent.get(sent).and_then(|f| codec::dec(&f.1).map(|x| x.0.kw));
            let ran = fw.ctx.st.borrow().invs.len() - n0;
            match &c.res {
                Some(Res::Ok(_)) => {}
                Some(Res::Wire(WErr::KeyTooSmall)) => {
                    kernel::probe("refused_once");
                    check!(used.is_some_and(|u| u < kw), "C11:refused_needlessly", "a call with {used:?} keys was refused by a server that needs {kw:?}");
                    check!(ran == 0, "C11:refused_but_ran", "a refused call ran {ran} handlers");
                }
                r => fail("C11:first_call", format!("first call after the server was replaced (keys {used:?}, needed {kw:?}) ended with {r:?}")),
            }
        }
        let base = fw.calls.borrow().len();
        let mut tasks = vec![];
        for i in 0..range(W, 1, 3) {
            tasks.push(kernel::spawn(format!("caller{i}"), caller(fw.clone(), cl.clone(), range(W, 1, 4), eps.clone(), None)));
        }
        let ok = settle(tasks, 6 * PATIENCE).await;
        check!(ok, "C11:hung", "callers did not finish");
        for c in fw.calls.borrow()[base..].iter() {
            check!(
                matches!(c.res, Some(Res::Ok(_))),
                "C11:call_failed",
                "phase {ph}: server {v:?} with {kw:?} keys: call to {:?} ended with {:?}",
                c.ep,
                c.res
            );
        }
        // quiet before the next replacement
        timeout(BOUND, async {
            loop {
                if fw.port.h2d.len() == 0 && fw.port.d2h.len() == 0 && fw.sp.0.lock().unwrap().running == 0 && fw.ctx.st.borrow().inline_running == 0 {
                    break;
                }
                sleep(5).await;
            }
        })
        .await;
        sleep(60).await;
    }
    verify_server(&fw);
    verify_calls(&fw);
}

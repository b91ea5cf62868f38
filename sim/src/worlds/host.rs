//! Real host client, scripted device. The device side is the independent
//! reference codec, so every frame in both directions is attributable.
//! Everything is recorded; the oracles run over the history.

use crate::codec::{self, *};
use crate::icd::{self, *};
use crate::kernel::{self, *};
use crate::link::{HostPort, KernelSpawn};
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq, VarSeqKind};
use postcard_rpc::host_client::{
    HostClientConfig, HostErr, IoClosed, MultiSubRxError, MultiSubscription, RawMultiSubscription, RawSubscription,
    RpcFrame, SubscribeError, Subscription,
};
use postcard_rpc::standard_icd::ERROR_PATH;
use postcard_rpc::{Endpoint, Key, Topic};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;

// ------------------------------------------------------------------ configuration

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    None,
    Close,
    RxFail,
    TxFail,
    DropAll,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KwMode {
    Fixed(KW),
    Random,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub sw: SW,
    pub depth: usize,
    /// subscriptions nobody sends to
    pub crowd: usize,
    pub full_ms: u64,
    pub callers: usize,
    pub calls: usize,
    pub subs: usize,
    pub sub_rounds: usize,
    /// weights of the kinds of subscriptions: exclusive, legacy, multi
    pub kinds: [u32; 3],
    pub topics: usize,
    pub sub_depth: usize,
    pub same_depth: bool,
    pub pubs: usize,
    pub pubs_each: usize,
    pub msgs: usize,
    pub kw: KwMode,
    /// chances in 16
    pub wire_err: u32,
    pub stale: u32,
    pub dup: u32,
    pub decoy: u32,
    pub loss: u32,
    pub garbage: u32,
    pub undec: u32,
    pub abandon: u32,
    pub raw_calls: u32,
    pub ans_delay: u64,
    pub tx_slow: u32,
    pub link_delay: u64,
    pub link_cap: usize,
    pub hang: bool,
    /// the transmitter is stuck for so long, once
    pub outage: u64,
    pub end: End,
    pub end_at: u64,
    pub think: u64,
    pub stalls: bool,
    /// calls that are begun and abandoned and never answered, before the rest
    pub junk_calls: usize,
    pub clones_drop: bool,
    /// raw calls use so many different sequence numbers (0: each its own)
    pub reuse: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Calls,
    Wrap,
    Excl,
    ExclTimeout,
    Multi,
    Route,
    Pubs,
    Garbage,
    Width,
    Abandon,
    AbandonMany,
    End,
    Drop,
    Wire,
    Reuse,
    ReuseMany,
}

fn gen_cfg(m: Mode) -> Cfg {
    let mut c = Cfg {
        sw: *pick(W, &SWS),
        depth: [1, 2, 4, 16][choose(W, 4)],
        full_ms: 0,
        callers: range(W, 1, 4),
        calls: range(W, 1, 6),
        subs: 0,
        sub_rounds: range(W, 1, 4),
        kinds: [1, 1, 1],
        topics: range(W, 1, 3),
        sub_depth: range(W, 1, 4),
        same_depth: choose(W, 2) == 0,
        pubs: 0,
        pubs_each: range(W, 1, 8),
        msgs: 0,
        kw: if choose(W, 3) == 2 { KwMode::Random } else { KwMode::Fixed(*pick(W, &KWS)) },
        wire_err: [0, 3][choose(W, 2)],
        stale: 0,
        dup: 0,
        decoy: 0,
        loss: 0,
        garbage: 0,
        undec: 0,
        abandon: 0,
        raw_calls: [0, 4][choose(W, 2)],
        ans_delay: [0, 3, 20][choose(F, 3)],
        tx_slow: [0, 0, 4][choose(F, 3)],
        link_delay: [0, 0, 5][choose(F, 3)],
        link_cap: [usize::MAX, 1, 3][choose(F, 3)],
        hang: false,
        outage: 0,
        end: End::None,
        end_at: 0,
        think: [0, 2, 10][choose(W, 3)],
        stalls: true,
        junk_calls: 0,
        clones_drop: choose(W, 2) == 1,
        reuse: 0,
        crowd: if matches!(m, Mode::Route | Mode::End | Mode::Excl) && chance(W, 1, 4) { [range(W, 1, 12), range(W, 12, 40)][choose(W, 2)] } else { 0 },
    };
    if matches!(m, Mode::Calls | Mode::Pubs | Mode::End | Mode::Wire) && chance(F, 1, 8) {
        c.outage = [200, 2_000, 9_000, 70_000][choose(F, 4)];
    }
    if matches!(m, Mode::Calls | Mode::End | Mode::Wire) && chance(F, 1, 12) {
        c.ans_delay = 8_000;
    }
    let on = |p: u32| if choose(F, 2) == 1 { p } else { 0 };
    match m {
        Mode::Calls => {
            c.callers = range(W, 2, 6);
            c.calls = range(W, 2, 8);
            c.stale = on(4);
            c.dup = on(4);
            c.decoy = on(6);
            c.loss = on(2);
            c.subs = choose(W, 2);
            c.msgs = choose(W, 2) * 6;
            c.abandon = on(3);
        }
        Mode::Wrap => {
            c.sw = [S1, S1, S1, S2][choose(W, 4)];
            c.callers = range(W, 1, 4);
            c.calls = 270 / c.callers + choose(W, 40);
            c.ans_delay = c.ans_delay.min(3);
            c.think = 0;
            c.tx_slow = 0;
            c.raw_calls = 0;
            c.clones_drop = false;
            c.link_delay = c.link_delay.min(1);
        }
        Mode::Excl => {
            c.subs = range(W, 1, 4);
            c.kinds = [4, 1, choose(W, 2) as u32];
            c.sub_rounds = range(W, 1, 6);
            c.msgs = kernel::count(5, 60, 900);
            if chance(W, 1, 4) {
                c.sub_depth = [16, 32, 64, 150][choose(W, 4)];
                c.msgs = range(W, 40, 400);
            }
            c.callers = choose(W, 2);
            c.abandon = on(3);
            c.undec = on(2);
        }
        Mode::ExclTimeout => {
            c.full_ms = [1, 5, 20][choose(W, 3)];
            let patient = chance(W, 1, 6);
            c.subs = range(W, 1, 3);
            c.kinds = [4, 1, 1];
            c.msgs = range(W, 5, 40);
            if patient {
                c.full_ms = [400, 1_500][choose(W, 2)];
                c.msgs = range(W, 3, 12);
                c.sub_depth = range(W, 1, 2);
            }
            c.callers = choose(W, 3);
            c.stalls = false;
            c.abandon = on(2);
            c.think = [2, 10, 30][choose(W, 3)];
        }
        Mode::Multi => {
            c.subs = range(W, 1, 5);
            c.kinds = [choose(W, 2) as u32, 0, 4];
            c.sub_rounds = range(W, 1, 4);
            c.msgs = kernel::count(5, 60, 900);
            if chance(W, 1, 3) {
                c.sub_depth = [8, 8, 16, 32][choose(W, 4)];
                c.msgs = range(W, 20, 120);
            }
            c.callers = choose(W, 2);
            c.abandon = on(3);
            c.undec = on(2);
        }
        Mode::Route => {
            c.subs = range(W, 1, 5);
            c.sub_rounds = range(W, 1, 5);
            c.kinds = [2, 1, 3];
            c.topics = 3;
            c.sub_depth = range(W, 1, 16);
            c.msgs = kernel::count(10, 50, 700);
            c.callers = range(W, 1, 3);
            c.decoy = on(4);
            c.full_ms = 0;
            c.pubs = choose(W, 2);
            c.abandon = on(2);
        }
        Mode::Pubs => {
            c.pubs = range(W, 1, 4);
            c.pubs_each = kernel::count(2, 12, 500);
            c.depth = [1, 1, 2, 4][choose(W, 4)];
            c.tx_slow = [0, 4, 12][choose(F, 3)];
            c.link_cap = [usize::MAX, 1, 2][choose(F, 3)];
            c.callers = choose(W, 3);
            c.abandon = on(4);
            c.end = if chance(W, 1, 4) { [End::Close, End::TxFail, End::RxFail][choose(W, 3)] } else { End::None };
            c.end_at = choose(W, 60) as u64;
        }
        Mode::Garbage => {
            c.garbage = 10;
            c.undec = 4;
            c.subs = range(W, 1, 3);
            c.sub_depth = range(W, 1, 8);
            c.msgs = kernel::count(5, 30, 700);
            c.callers = range(W, 1, 4);
            c.decoy = on(3);
            c.dup = on(2);
        }
        Mode::Width => {
            c.callers = range(W, 1, 4);
            c.calls = range(W, 2, 8);
            c.decoy = on(3);
            c.subs = choose(W, 2);
            c.msgs = choose(W, 2) * 10;
            c.sub_depth = 16;
            c.wire_err = 3;
        }
        Mode::Abandon => {
            c.abandon = 8;
            c.callers = range(W, 1, 5);
            c.calls = range(W, 2, 8);
            c.subs = range(W, 0, 3);
            c.kinds = [3, 1, 2];
            c.msgs = range(W, 0, 40);
            c.pubs = choose(W, 3);
            c.depth = [1, 1, 2, 4][choose(W, 4)];
            c.stale = on(3);
            c.loss = on(3);
            c.tx_slow = [0, 4, 12][choose(F, 3)];
        }
        Mode::AbandonMany => {
            c.sw = S1;
            c.junk_calls = range(W, 200, 320);
            c.callers = range(W, 1, 3);
            c.calls = range(W, 2, 6);
            c.raw_calls = 0;
            c.ans_delay = c.ans_delay.min(3);
            c.think = 0;
            c.tx_slow = 0;
            c.link_delay = 0;
            c.clones_drop = false;
        }
        Mode::End => {
            c.callers = range(W, 1, 5);
            c.calls = range(W, 1, 8);
            c.subs = range(W, 0, 4);
            c.kinds = [3, 1, 2];
            c.sub_depth = range(W, 1, 8);
            c.msgs = range(W, 0, 30);
            c.pubs = choose(W, 3);
            c.loss = on(3);
            c.abandon = on(2);
            c.depth = [1, 1, 2, 4][choose(W, 4)];
            c.hang = choose(F, 3) == 2;
            c.full_ms = if choose(W, 4) == 3 { 30 } else { 0 };
            c.end = [End::Close, End::Close, End::RxFail, End::TxFail, End::None][choose(W, 5)];
            c.end_at = choose(W, 40) as u64;
        }
        Mode::Drop => {
            c.callers = range(W, 0, 3);
            c.pubs = range(W, 1, 3);
            c.subs = range(W, 0, 3);
            c.msgs = range(W, 0, 20);
            c.sub_depth = range(W, 1, 8);
            c.depth = [1, 2, 4, 16][choose(W, 4)];
            c.tx_slow = [0, 4, 12][choose(F, 3)];
            c.abandon = on(2);
            c.clones_drop = true;
            c.end = End::DropAll;
        }
        Mode::Wire => {
            c.pubs = range(W, 1, 2);
            c.subs = range(W, 0, 2);
            c.sub_depth = 16;
            c.msgs = range(W, 0, 12);
            c.callers = range(W, 1, 3);
            c.raw_calls = 4;
            c.wire_err = 4;
            c.kw = KwMode::Random;
        }
        Mode::Reuse => {
            // users who choose sequence numbers themselves, and clash
            c.callers = range(W, 2, 6);
            c.calls = range(W, 2, 8);
            c.raw_calls = [16, 16, 10][choose(W, 3)];
            c.reuse = range(W, 1, 3) as u32;
            c.ans_delay = [3, 20][choose(F, 2)];
            c.subs = choose(W, 2);
            c.msgs = choose(W, 2) * 6;
            c.loss = on(1);
        }
        Mode::ReuseMany => {
            // more calls outstanding than there are sequence numbers
            c.sw = S1;
            c.callers = range(W, 250, 300);
            c.calls = 1;
            c.raw_calls = 0;
            c.ans_delay = 60;
            c.think = 0;
            c.tx_slow = 0;
            c.link_delay = 0;
            c.clones_drop = false;
        }
    }
    c
}

// ------------------------------------------------------------------ history

pub struct CallRec {
    pub id: u32,
    pub ep: Ep,
    pub body: Vec<u8>,
    pub raw_seq: Option<u32>,
    /// the key width of a raw request, before it is shortened further
    pub given: KW,
    pub start: u64,
    pub end: Option<(u64, u64)>,
    pub res: Option<Res>,
    pub abandoned: Option<(u64, u64)>,
    pub answers: Vec<usize>,
    pub wire: Vec<Hdr>,
}

pub struct AnsRec {
    pub call: usize,
    pub err: bool,
    pub res: Res,
    pub push: usize,
}

#[derive(Clone)]
pub struct TopicRec {
    pub t: usize,
    pub id: u32,
    pub ok: bool,
    pub body: Vec<u8>,
    pub seq: u32,
    pub sw: SW,
}

pub enum Meta {
    Ans(usize),
    Topic(TopicRec),
    Junk,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Excl,
    Legacy,
    Multi,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Msg { id: u32, body: Vec<u8>, seq: Option<(u32, u8)> },
    Lag(u64),
    End,
}

pub struct SubRec {
    pub t: usize,
    pub kind: Kind,
    pub raw: bool,
    pub depth: usize,
    pub start: u64,
    pub ok: Option<u64>,
    pub err: Option<(u64, bool)>,
    pub items: Vec<(u64, u64, Item)>,
    pub gone: Option<u64>,
    /// read until nothing came any more
    pub drained: bool,
}

pub struct PubRec {
    pub task: usize,
    pub tp: Tp,
    pub id: u32,
    pub body: Vec<u8>,
    pub seq: u32,
    pub sw: SW,
    pub start: u64,
    pub end: Option<(u64, u64)>,
    pub ok: Option<bool>,
}

#[derive(Default)]
pub struct H {
    pub calls: Vec<CallRec>,
    pub answers: Vec<AnsRec>,
    pub subs: Vec<SubRec>,
    pub pubs: Vec<PubRec>,
    pub pushes: Vec<Meta>,
    pub next_id: u32,
    /// when the connection was ended on purpose (close called, rx failed)
    pub cause: Option<(u64, u64)>,
    pub stop: bool,
    /// readers switch to drain mode
    pub draining: bool,
    pub waiters: usize,
    pub released: Vec<u64>,
    pub answered_widths: Vec<(u64, KW)>,
    pub seen_frames: usize,
    pub raw_n: u32,
}

pub struct World {
    pub cfg: Cfg,
    pub port: HostPort,
    pub h: Sh<H>,
}

fn new_id(h: &Sh<H>) -> u32 {
    let mut h = h.borrow_mut();
    h.next_id += 1;
    h.next_id
}

// ------------------------------------------------------------------ helpers

/// Poll at most `polls` times and wait at most `ms`, then drop the future
pub async fn abandon_after<T>(polls: usize, ms: u64, f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    let mut n = 0;
    timeout(ms, std::future::poll_fn(move |cx| {
        if n >= polls {
            return Poll::Ready(None);
        }
        n += 1;
        match f.as_mut().poll(cx) {
            Poll::Ready(t) => Poll::Ready(Some(t)),
            Poll::Pending => {
                if n >= polls {
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }))
    .await
    .flatten()
}

/// How to abandon the next operation, if at all
fn plan(p: u32) -> Option<(usize, u64)> {
    if p > 0 && chance(F, p, 16) {
        let polls = [0, 1, 2, 3, usize::MAX][choose(F, 5)];
        let ms = [0, 1, 5, 20][choose(F, 4)];
        Some((polls, ms.max(1)))
    } else {
        None
    }
}

pub const PATIENCE: u64 = 10_000;
/// Everything that can happen must have happened this long after its cause
pub const BOUND: u64 = 3_000;

fn vseq(sw: SW, v: u32) -> VarSeq {
    match sw {
        S1 => VarSeq::Seq1(v as u8),
        S2 => VarSeq::Seq2(v as u16),
        S4 => VarSeq::Seq4(v),
    }
}
/// This key at this width, as a user of raw frames would write it
fn vkey(k: [u8; 8], kw: KW) -> VarKey {
    let mut v = VarKey::Key8(key_of(k));
    v.shrink_to(match kw {
        K1 => VarKeyKind::Key1,
        K2 => VarKeyKind::Key2,
        K4 => VarKeyKind::Key4,
        K8 => VarKeyKind::Key8,
    });
    v
}
fn kind_of(sw: SW) -> VarSeqKind {
    match sw {
        S1 => VarSeqKind::Seq1,
        S2 => VarSeqKind::Seq2,
        S4 => VarSeqKind::Seq4,
    }
}

pub const TOPICS: usize = 3;
fn tkey(t: usize) -> Key {
    [OutA::TOPIC_KEY, OutB::TOPIC_KEY, OutN::TOPIC_KEY][t]
}
/// Can this be a message somebody waits for? (Not if its key differs at the
/// width it has.)
fn known_incoming(hd: &Hdr) -> bool {
    let is = |k: [u8; 8]| hd.is(k);
    (0..TOPICS).any(|t| is(tkey(t).to_bytes())) || is(err_key()) || EPS.iter().any(|e| is(e.resp_key()))
}

/// A key that differs from every key in use, at every width
fn stranger() -> Key {
    let used: Vec<[u8; 8]> = (0..TOPICS).map(|t| tkey(t).to_bytes()).chain(EPS.iter().map(|e| e.resp_key())).chain([err_key()]).collect();
    let mut k = (0..8).map(|_| choose(W, 256) as u8).collect::<Vec<u8>>();
    // (all widths are folds of the next wider one)
    while used.iter().any(|u| codec::fold(*u, KW::K1) == codec::fold(k.clone().try_into().unwrap(), KW::K1)) {
        k[0] = k[0].wrapping_add(1);
    }
    unsafe { Key::from_bytes(k.try_into().unwrap()) }
}

const EPS: [Ep; 8] =
    [Ep::EchoA, Ep::EchoB, Ep::AsyncA, Ep::AsyncB, Ep::SpawnA, Ep::SpawnB, Ep::Ping, Ep::Inc];

pub fn call_id(ep: Ep, body: &[u8]) -> Option<u32> {
    match ep {
        Ep::Ping => take_varint(body).map(|x| unwide(x.0 as u32)),
        Ep::Inc => take_varint(body).map(|x| (x.0 >> 20) as u32 & 0xfffff),
        _ => postcard::from_bytes::<Req>(body).ok().map(|r| r.id),
    }
}

impl World {
    fn kw(&self) -> KW {
        match self.cfg.kw {
            KwMode::Fixed(k) => k,
            KwMode::Random => *pick(F, &KWS),
        }
    }
    fn push(&self, m: Meta, f: Vec<u8>) {
        self.h.borrow_mut().pushes.push(m);
        self.port.d2h.push(f);
    }
    fn ended(&self) -> bool {
        self.h.borrow().cause.is_some() || self.port.s().tx_failed_at.is_some()
    }
    /// the earliest moment from which "closed" is a legitimate outcome
    fn cause_clock(&self) -> Option<u64> {
        let a = self.h.borrow().cause.map(|c| c.0);
        let s = self.port.s();
        [a, s.tx_failed_at, s.rx_failed_at].into_iter().flatten().min()
    }
}

type W_ = std::rc::Rc<World>;

// ------------------------------------------------------------------ scripted device

fn peer_frame(w: &W_, frame: Vec<u8>) {
    let n = {
        let mut h = w.h.borrow_mut();
        h.seen_frames += 1;
        h.seen_frames
    };
    let Some((hd, body)) = codec::dec(&frame) else {
        fail("C20,C08,C01:malformed-frame", format!("the client sent a frame without a valid header: {}", hex(&frame)));
        return;
    };
    if n == 1 && hd.kw != K8 && w.h.borrow().calls.iter().all(|c| c.given == K8) && EPS.iter().any(|e| hd.is(e.req_key())) {
        fail("C11,C20:first-key-width", format!("first request with {:?} key", hd.kw));
    }
    // a publish?
    if let Some(tp) = Tp::ALL.iter().find(|t| hd.is(t.key())) {
        let id = pub_id(&hd, body).unwrap_or(0);
        let h = w.h.borrow();
        let Some(p) = h.pubs.iter().find(|p| p.id == id && p.tp == *tp) else {
            drop(h);
            fail("C08,C20:unknown-publish", format!("frame for {tp:?} that nobody published: {}", hex(&frame)));
            return;
        };
        if body != p.body || hd.seq != p.seq || hd.sw != p.sw {
            let m = format!("publish {} changed: sent {:?}/{} got {}/{:?} {}", id, p.sw, p.seq, hd.seq, hd.sw, hex(body));
            drop(h);
            fail("C08,C20:publish-changed", m);
        }
        return;
    }
    let Some(ep) = EPS.iter().copied().find(|e| hd.is(e.req_key())) else {
        fail("C20,C01:unknown-request", format!("request with unknown key {}", hex(&frame)));
        return;
    };
    let id = call_id(ep, body);
    let ci = {
        let h = w.h.borrow();
        h.calls.iter().position(|c| Some(c.id) == id && c.ep == ep && c.body == body)
    };
    let Some(ci) = ci else {
        fail("C20,C01,C02:request-changed", format!("request of {ep:?} that nobody made: {}", hex(&frame)));
        return;
    };
    {
        let mut h = w.h.borrow_mut();
        let c = &mut h.calls[ci];
        c.wire.push(hd.clone());
        let twice = c.wire.len() > 1;
        let bad_seq = c.raw_seq.is_some_and(|s| s != u32::MAX && w.cfg.sw.mask(s) != hd.seq);
        drop(h);
        check!(!twice, "C02,C08,C18,C20:request-twice", "request {} of {ep:?} sent twice", id.unwrap());
        check!(hd.sw == w.cfg.sw, "C11,C20:seq-width", "configured sequence width {:?}, request has {:?}", w.cfg.sw, hd.sw);
        check!(!bad_seq, "C20,C01:raw-seq", "raw request with another sequence number: {}", hd.seq);
    }
    if w.cfg.junk_calls > 0 && w.h.borrow().calls[ci].raw_seq == Some(u32::MAX) {
        return; // never answered
    }
    // answer
    let cfg = &w.cfg;
    if cfg.loss > 0 && chance(F, cfg.loss, 16) {
        fault("answer_lost");
        return;
    }
    let delay = choose(F, cfg.ans_delay as usize + 1) as u64;
    let w2 = w.clone();
    if delay == 0 && chance(F, 1, 2) {
        answer_call(&w2, ci, &hd);
    } else {
        kernel::spawn("answer", async move {
            sleep(delay).await;
            answer_call(&w2, ci, &hd);
        });
    }
}

/// A key that differs from this one at width `kw` but not at shorter ones
fn lookalike(k: [u8; 8], kw: KW) -> [u8; 8] {
    let d = 1 + choose(F, 255) as u8;
    for _ in 0..40 {
        let mut x = k;
        let i = choose(F, 8);
        let j = choose(F, 8);
        x[i] ^= d;
        x[j] ^= d;
        let shorter = |w: KW| codec::fold(x, w) == codec::fold(k, w);
        if codec::fold(x, kw) != codec::fold(k, kw) && shorter(K1) {
            return x;
        }
    }
    let mut x = k;
    x[0] ^= d;
    x[1] ^= d;
    x
}

fn decoy(w: &W_, ci: usize, hd: &Hdr) {
    let (ep, ncalls) = {
        let h = w.h.borrow();
        (h.calls[ci].ep, h.calls.len())
    };
    let other = |e: Ep| -> Ep { EPS[(EPS.iter().position(|x| *x == e).unwrap() + 1 + choose(F, 7)) % 8] };
    let far = match w.cfg.sw {
        S1 => hd.seq.wrapping_add(128) & 0xff,
        S2 => hd.seq.wrapping_add(0x8000) & 0xffff,
        S4 => hd.seq.wrapping_add([0x8000u32, 0x100_0000, 0x8000_0000][choose(F, 3)]),
    };
    let safe_far = w.cfg.sw != S1 || ncalls < 110;
    let n = new_id(&w.h);
    let kw = w.kw();
    let body = |e: Ep| -> Vec<u8> {
        match e {
            Ep::Ping => varint(n as u64),
            Ep::Inc => varint(n as u64),
            _ => icd::enc(&answer(e, &Req { id: n, data: vec![1] }, 0xdead)),
        }
    };
    let what = choose(F, 7);
    let f = match what {
        // a foreign key that would coincide only if it were shorter
        5 | 6 if kw > K1 => {
            let base = match choose(F, 4) {
                0 => err_key(),
                1 => tkey(choose(F, TOPICS)).to_bytes(),
                _ => ep.resp_key(),
            };
            let k = lookalike(base, kw);
            codec::enc(k, kw, w.cfg.sw, hd.seq, &body(ep))
        }
        // right key, a sequence number nobody uses
        0 if safe_far => codec::enc(ep.resp_key(), kw, w.cfg.sw, far, &body(ep)),
        // right sequence number, another endpoint's answer
        1 => {
            let o = other(ep);
            codec::enc(o.resp_key(), kw, w.cfg.sw, hd.seq, &body(o))
        }
        // an error for a sequence number nobody uses
        2 if safe_far => codec::enc(err_key(), kw, w.cfg.sw, far, &[4]),
        // the request echoed back
        3 => codec::enc(ep.req_key(), kw, w.cfg.sw, hd.seq, &body(ep)),
        // a topic nobody knows
        _ => codec::enc([9, 8, 7, 6, 5, 4, 3, n as u8 | 0x80], K8, w.cfg.sw, hd.seq, &[1, 2, 3]),
    };
    // at short widths a foreign key may coincide with one somebody waits for
    if let Some((d, _)) = codec::dec(&f) {
        let clash = (d.is(ep.resp_key()) && d.seq == hd.seq)
            || (d.is(err_key()) && d.seq == hd.seq)
            || (0..TOPICS).any(|t| d.is(tkey(t).to_bytes()));
        let own = EPS.iter().any(|e| d.is(e.resp_key())) || d.is(err_key());
        if clash || (what >= 3 || !own) && known_incoming(&d) {
            return;
        }
    }
    fault("decoy_answer");
    w.push(Meta::Junk, f);
}

fn answer_call(w: &W_, ci: usize, hd: &Hdr) {
    let cfg = &w.cfg;
    if cfg.decoy > 0 && chance(F, cfg.decoy, 16) {
        decoy(w, ci, hd);
    }
    push_answer(w, ci, hd, false);
    if cfg.decoy > 0 && chance(F, cfg.decoy, 32) {
        decoy(w, ci, hd);
    }
    if cfg.dup > 0 && chance(F, cfg.dup, 16) {
        // the very same frame again
        fault("answer_duplicated");
        let (ai, f) = {
            let h = w.h.borrow();
            let ai = *h.calls[ci].answers.last().unwrap();
            (ai, ())
        };
        let _ = f;
        let fr = w.h.borrow().answers[ai].push;
        let frame = ANS_FRAMES.with(|m| m.borrow().get(&fr).cloned());
        if let Some(frame) = frame {
            let again = choose(F, 2) == 1;
            let w2 = w.clone();
            let d = choose(F, 15) as u64;
            if again {
                kernel::spawn("dup", async move {
                    sleep(d).await;
                    w2.push(Meta::Ans(ai), frame);
                });
            } else {
                w.push(Meta::Ans(ai), frame);
            }
        }
    }
    if cfg.stale > 0 && chance(F, cfg.stale, 16) {
        fault("second_answer");
        let (w2, hd) = (w.clone(), hd.clone());
        let d = choose(F, 15) as u64;
        kernel::spawn("stale", async move {
            sleep(d).await;
            push_answer(&w2, ci, &hd, true);
        });
    }
}

thread_local! {
    static ANS_FRAMES: std::cell::RefCell<BTreeMap<usize, Vec<u8>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}

fn push_answer(w: &W_, ci: usize, hd: &Hdr, _second: bool) {
    let cfg = &w.cfg;
    let nonce = new_id(&w.h);
    let kw = w.kw();
    let (ep, body) = {
        let h = w.h.borrow();
        (h.calls[ci].ep, h.calls[ci].body.clone())
    };
    let undec = cfg.undec > 0 && chance(F, cfg.undec, 16);
    let err = chance(F, cfg.wire_err, 16);
    let (key, bytes, res) = if err {
        if undec {
            fault("undecodable_error");
            (err_key(), vec![9 + (nonce % 100) as u8], Res::Postcard)
        } else {
            let e = [
                WErr::Deser,
                WErr::Unknown,
                WErr::Spawn,
                WErr::Ser,
                WErr::TooLong(nonce, 7),
                WErr::TooShort(nonce),
            ][choose(F, 6)]
            .clone();
            (err_key(), enc_err(&e), Res::Wire(e))
        }
    } else if undec {
        fault("undecodable_answer");
        let b = match choose(F, 3) {
            0 => vec![],
            1 => vec![0xff; 11],
            _ => vec![0x80],
        };
        (ep.resp_key(), b, Res::Postcard)
    } else {
        let b = match ep {
            Ep::Ping => varint(nonce as u64),
            Ep::Inc => varint(((nonce as u64) << 30) | 5),
            _ => icd::enc(&answer(ep, &postcard::from_bytes(&body).unwrap(), nonce)),
        };
        (ep.resp_key(), b.clone(), Res::Ok(b))
    };
    let f = codec::enc(key, kw, hd.sw, hd.seq, &bytes);
    let ai = {
        let mut h = w.h.borrow_mut();
        let push = h.pushes.len();
        h.answers.push(AnsRec { call: ci, err, res, push });
        let ai = h.answers.len() - 1;
        h.calls[ci].answers.push(ai);
        ANS_FRAMES.with(|m| m.borrow_mut().insert(push, f.clone()));
        ai
    };
    w.push(Meta::Ans(ai), f);
}

fn glen() -> usize {
    match choose(F, 8) {
        0 => range(F, 58, 70),
        1 => range(F, 100, 300),
        2 => range(F, 900, 1100),
        3 => range(F, 2000, 2100),
        _ => choose(F, 40),
    }
}

fn push_garbage(w: &W_) {
    let f = match choose(F, 7) {
        0 => vec![],
        1 => {
            let n = glen();
            bytes(F, n)
        }
        // truncated header
        2 => {
            let f = codec::enc(tkey(choose(F, 3)).to_bytes(), w.kw(), *pick(F, &SWS), 5, &[]);
            let n = choose(F, f.len());
            f[..n].to_vec()
        }
        // wrong version
        3 => {
            let mut f = codec::enc(tkey(choose(F, 3)).to_bytes(), w.kw(), *pick(F, &SWS), 5, &[1, 1, 1]);
            f[0] |= 1 + choose(F, 15) as u8;
            let n = glen();
            f.extend(bytes(F, n));
            f
        }
        // reserved sequence width
        4 => {
            let mut f = codec::enc(tkey(choose(F, 3)).to_bytes(), w.kw(), S4, 5, &[1, 1, 1, 1, 1, 1]);
            f[0] |= 0x30;
            let n = glen();
            f.extend(bytes(F, n));
            f
        }
        // bit flip in a header
        5 => {
            let mut f = codec::enc(tkey(choose(F, 3)).to_bytes(), w.kw(), *pick(F, &SWS), 5, &[1, 1, 1]);
            let i = choose(F, 4.min(f.len()));
            f[i] ^= 1 << choose(F, 8);
            f
        }
        // unknown key
        _ => {
            let n = glen();
            let b = bytes(F, n);
            let kw = *pick(F, &KWS);
            let k = if choose(F, 3) == 2 { lookalike(tkey(choose(F, 3)).to_bytes(), kw) } else { [choose(F, 256) as u8, 1, 2, 3, 4, 5, 6, 7] };
            codec::enc(k, kw, *pick(F, &SWS), choose(F, 300) as u32, &b)
        }
    };
    if let Some((hd, _)) = codec::dec(&f) {
        if known_incoming(&hd) {
            return;
        }
    }
    fault("garbage_frame");
    w.push(Meta::Junk, f);
}

fn push_topic(w: &W_) {
    let t = choose(W, w.cfg.topics.min(TOPICS));
    let id = new_id(&w.h);
    let sw = *pick(W, &SWS);
    let seq = sw.mask(id.wrapping_mul([1, 0x9E37_79B1, 0][choose(W, 3)]));
    let undec = w.cfg.undec > 0 && t < 2 && chance(F, w.cfg.undec, 16);
    let body = if undec {
        fault("undecodable_topic");
        match choose(F, 3) {
            // (identified by its sequence number)
            0 => vec![],
            1 => varint(id as u64),
            _ => [varint(id as u64), vec![0x7f, 1, 2]].concat(),
        }
    } else if t == 2 {
        varint(id as u64)
    } else {
        let n = kernel::size(20, 70_000);
        icd::enc(&Msg { id, data: bytes(W, n) })
    };
    let (sw, seq) = if body.is_empty() { (SW::S4, id) } else { (sw, seq) };
    let f = codec::enc(tkey(t).to_bytes(), w.kw(), sw, seq, &body);
    w.push(Meta::Topic(TopicRec { t, id, ok: !undec, body, seq, sw }), f);
}

// ------------------------------------------------------------------ users

pub async fn one_call(w: &W_, cl: &Client, abandon: Option<(usize, u64)>) {
    let id = new_id(&w.h);
    let ep = EPS[choose(W, EPS.len())];
    let arg = gen_arg(ep, id, kernel::size(13, 70_000));
    let body = arg.enc();
    let raw = w.cfg.raw_calls > 0 && chance(W, w.cfg.raw_calls, 16);
    let raw_seq = if raw {
        let mut h = w.h.borrow_mut();
        h.raw_n += 1;
        if w.cfg.reuse > 0 {
            Some(200 + choose(W, w.cfg.reuse as usize) as u32)
        } else if h.raw_n > 48 {
            None
        } else {
            Some(([0, choose(W, 0x100_0000) as u32][choose(W, 2)] << 8) | (200 + h.raw_n))
        }
    } else {
        None
    };
    let ci = {
        let mut h = w.h.borrow_mut();
        h.calls.push(CallRec {
            id,
            ep,
            body: body.clone(),
            raw_seq,
            given: K8,
            start: clock(),
            end: None,
            res: None,
            abandoned: None,
            answers: vec![],
            wire: vec![],
        });
        h.calls.len() - 1
    };
    ev("call", id as u64, ep as u64, 0);
    let raw_form = id % 2 == 0;
    let given = if raw_seq.is_some() { *pick(W, &[K8, K8, K4, K2, K1]) } else { K8 };
    w.h.borrow_mut().calls[ci].given = given;
    let fut = async {
        match raw_seq {
            Some(s) => {
                let fr = RpcFrame {
                    header: VarHeader { key: vkey(ep.req_key(), given), seq_no: if s < 256 && raw_form {
                        VarSeq::Seq1(s as u8)
                    } else if s < 65536 && id % 3 == 0 {
                        VarSeq::Seq2(s as u16)
                    } else {
                        VarSeq::Seq4(s)
                    } },
                    body: body.clone(),
                };
                match cl.send_resp_raw(fr, key_of(ep.resp_key())).await {
                    Ok(f) => {
                        let (sq, _) = seq_parts(f.header.seq_no);
                        check!(sq == w.cfg.sw.mask(s), "C01:raw-answer-seq", "raw call {s} got an answer with sequence number {sq}");
                        if decodes(ep, &f.body) { Res::Ok(f.body) } else { Res::Postcard }
                    }
                    Err(HostErr::Wire(e)) => Res::Wire((&e).into()),
                    Err(HostErr::BadResponse) => Res::BadResponse,
                    Err(HostErr::Postcard(_)) => Res::Postcard,
                    Err(HostErr::Closed) => Res::Closed,
                }
            }
            None => call(cl, ep, &arg).await,
        }
    };
    let r = match abandon {
        Some((p, ms)) => {
            let r = abandon_after(p, ms, fut).await;
            if r.is_none() {
                fault("call_abandoned");
            }
            r
        }
        None => timeout(PATIENCE + w.cfg.outage, fut).await,
    };
    let (c, t) = (clock(), now_ms());
    ev("ret", id as u64, r.is_some() as u64, 0);
    note(|| format!("call {id} -> {r:?}"));
    let mut h = w.h.borrow_mut();
    match r {
        Some(r) => {
            h.calls[ci].end = Some((c, t));
            h.calls[ci].res = Some(r);
        }
        None => h.calls[ci].abandoned = Some((c, t)),
    }
    let gave_up = r_is_patience(&h.calls[ci], abandon);
    let nwire = h.calls[ci].wire.len();
    drop(h);
    if gave_up && !w.cfg.hang {
        check!(nwire == 1, "C01,C02,C18,C11:request-not-sent", "call {id}: request not sent within {PATIENCE} ms");
    }
}
fn r_is_patience(c: &CallRec, abandon: Option<(usize, u64)>) -> bool {
    c.abandoned.is_some() && abandon.is_none()
}

fn decodes(ep: Ep, b: &[u8]) -> bool {
    match ep {
        Ep::Ping => postcard::from_bytes::<u32>(b).is_ok(),
        Ep::Inc => postcard::from_bytes::<u64>(b).is_ok(),
        _ => postcard::from_bytes::<Rsp>(b).is_ok(),
    }
}

pub fn key_of(k: [u8; 8]) -> Key {
    // Safety: these bytes come from a real Key
    unsafe { Key::from_bytes(k) }
}

async fn caller(w: W_, cl: Client) {
    for _ in 0..w.cfg.calls {
        if w.h.borrow().stop {
            break;
        }
        if w.cfg.think > 0 {
            kernel::idle(w.cfg.think).await;
        }
        one_call(&w, &cl, plan(w.cfg.abandon)).await;
        nontrivial();
    }
}

async fn publisher(w: W_, cl: Client, task: usize) {
    let same = choose(W, 4) == 3;
    for _ in 0..w.cfg.pubs_each {
        if w.h.borrow().stop {
            break;
        }
        if w.cfg.think > 0 && chance(W, 1, 3) {
            kernel::idle(w.cfg.think).await;
        }
        let id = new_id(&w.h);
        let tp = [Tp::Blk, Tp::Async, Tp::Spawn][choose(W, 3)];
        let n = kernel::size(16, 70_000);
        let msg = Msg { id, data: bytes(W, n) };
        let mut body = icd::enc(&msg);
        let mut sw = *pick(W, &SWS);
        let mut seq = sw.mask(if same { 7 } else { id.wrapping_mul([1, 77, 0x9E37_79B1][choose(W, 3)]) });
        let raw = choose(W, 3) == 2;
        if raw && chance(W, 1, 3) {
            // nothing but a header, told apart by its number
            (body, sw, seq) = (vec![], S4, BARE + id);
        }
        let pi = {
            let mut h = w.h.borrow_mut();
            h.pubs.push(PubRec { task, tp, id, body: body.clone(), seq, sw, start: clock(), end: None, ok: None });
            h.pubs.len() - 1
        };
        let rkw = if raw { *pick(W, &[K8, K8, K4, K2, K1]) } else { K8 };
        let fut = async {
            let s = vseq(sw, seq);
            if raw {
                let fr = RpcFrame { header: VarHeader { key: vkey(tp.key(), rkw), seq_no: s }, body };
                return cl.publish_raw(fr).await;
            }
            match tp {
                Tp::Blk => cl.publish::<TBlk>(s, &msg).await,
                Tp::Async => cl.publish::<TAsync>(s, &msg).await,
                _ => cl.publish::<TSpawn>(s, &msg).await,
            }
        };
        let ab = plan(w.cfg.abandon);
        let r: Option<Result<(), IoClosed>> = match ab {
            Some((p, ms)) => {
                let r = abandon_after(p, ms, fut).await;
                if r.is_none() {
                    fault("publish_abandoned");
                }
                r
            }
            None => {
                let r = timeout(PATIENCE + w.cfg.outage, fut).await;
                if r.is_none() && !w.cfg.hang {
                    fail("C08,C04,C18,C19:publish-stuck", format!("publish {id} not accepted within {PATIENCE} ms"));
                }
                r
            }
        };
        nontrivial();
        let (c, t) = (clock(), now_ms());
        ev("pub", id as u64, matches!(r, Some(Ok(()))) as u64, 0);
        let mut h = w.h.borrow_mut();
        if let Some(r) = r {
            h.pubs[pi].end = Some((c, t));
            h.pubs[pi].ok = Some(r.is_ok());
        }
    }
}

// ------------------------------------------------------------------ subscriptions

enum AnySub {
    M(Subscription<Msg>),
    N(Subscription<u32>),
    R(RawSubscription),
    MM(MultiSubscription<Msg>),
    MN(MultiSubscription<u32>),
    MR(RawMultiSubscription),
}

fn raw_item(t: usize, f: RpcFrame) -> Item {
    check!(f.header.key == VarKey::Key8(tkey(t)), "C07:foreign-frame", "a raw subscription of topic {t} got a frame of another key");
    let id = take_varint(&f.body).map(|x| x.0 as u32).unwrap_or(seq_parts(f.header.seq_no).0);
    Item::Msg { id, body: f.body, seq: Some(seq_parts(f.header.seq_no)) }
}

async fn recv(t: usize, s: &mut AnySub) -> Item {
    fn m(x: Msg) -> Item {
        Item::Msg { id: x.id, body: icd::enc(&x), seq: None }
    }
    fn n(x: u32) -> Item {
        Item::Msg { id: x, body: icd::enc(&x), seq: None }
    }
    fn e(x: MultiSubRxError) -> Item {
        match x {
            MultiSubRxError::IoClosed => Item::End,
            MultiSubRxError::Lagged(n) => Item::Lag(n),
        }
    }
    match s {
        AnySub::M(s) => s.recv().await.map(m).unwrap_or(Item::End),
        AnySub::N(s) => s.recv().await.map(n).unwrap_or(Item::End),
        AnySub::R(s) => s.recv().await.map(|f| raw_item(t, f)).unwrap_or(Item::End),
        AnySub::MM(s) => s.recv().await.map(m).unwrap_or_else(e),
        AnySub::MN(s) => s.recv().await.map(n).unwrap_or_else(e),
        AnySub::MR(s) => s.recv().await.map(|f| raw_item(t, f)).unwrap_or_else(e),
    }
}

#[allow(deprecated)]
async fn subscribe(cl: &Client, t: usize, kind: Kind, raw: bool, d: usize) -> Result<AnySub, SubscribeError> {
    let io = |_: IoClosed| SubscribeError::IoClosed;
    Ok(match (kind, raw, t) {
        (Kind::Excl, true, _) => AnySub::R(cl.subscribe_exclusive_raw(tkey(t), d).await?),
        (Kind::Legacy, true, _) => AnySub::R(cl.subscribe_raw(tkey(t), d).await.map_err(io)?),
        (Kind::Multi, true, _) => AnySub::MR(cl.subscribe_multi_raw(tkey(t), d).await.map_err(io)?),
        (Kind::Excl, _, 0) => AnySub::M(cl.subscribe_exclusive::<OutA>(d).await?),
        (Kind::Excl, _, 1) => AnySub::M(cl.subscribe_exclusive::<OutB>(d).await?),
        (Kind::Excl, _, _) => AnySub::N(cl.subscribe_exclusive::<OutN>(d).await?),
        (Kind::Legacy, _, 0) => AnySub::M(cl.subscribe::<OutA>(d).await.map_err(io)?),
        (Kind::Legacy, _, 1) => AnySub::M(cl.subscribe::<OutB>(d).await.map_err(io)?),
        (Kind::Legacy, _, _) => AnySub::N(cl.subscribe::<OutN>(d).await.map_err(io)?),
        (Kind::Multi, _, 0) => AnySub::MM(cl.subscribe_multi::<OutA>(d).await.map_err(io)?),
        (Kind::Multi, _, 1) => AnySub::MM(cl.subscribe_multi::<OutB>(d).await.map_err(io)?),
        (Kind::Multi, _, _) => AnySub::MN(cl.subscribe_multi::<OutN>(d).await.map_err(io)?),
    })
}

/// Returns false when the stream ended
async fn read_some(w: &W_, si: usize, sub: &mut AnySub, wait: u64, ab: Option<(usize, u64)>) -> Option<bool> {
    let t = w.h.borrow().subs[si].t;
    let r = match ab {
        Some((p, ms)) => {
            let r = abandon_after(p, ms, recv(t, sub)).await;
            if r.is_none() {
                fault("receive_abandoned");
            }
            r
        }
        None => timeout(wait, recv(t, sub)).await,
    };
    let it = r?;
    let (c, ms) = (clock(), now_ms());
    let id = match &it {
        Item::Msg { id, .. } => *id as u64,
        Item::Lag(n) => 1_000_000 + n,
        Item::End => 2_000_000,
    };
    ev("item", si as u64, id, 0);
    let end = it == Item::End;
    w.h.borrow_mut().subs[si].items.push((c, ms, it));
    Some(!end)
}

async fn subscriber(w: W_, cl: Client) {
    let cfg = w.cfg.clone();
    let mut cl = Some(cl);
    'rounds: for round in 0..cfg.sub_rounds {
        let last = round + 1 == cfg.sub_rounds;
        if w.h.borrow().stop {
            break;
        }
        if cfg.think > 0 {
            kernel::idle(cfg.think).await;
        }
        let t = choose(W, cfg.topics.min(TOPICS));
        let tot: u32 = cfg.kinds.iter().sum();
        let mut k = choose(W, tot.max(1) as usize) as u32;
        let mut kind = Kind::Excl;
        for (i, x) in cfg.kinds.iter().enumerate() {
            if k < *x {
                kind = [Kind::Excl, Kind::Legacy, Kind::Multi][i];
                break;
            }
            k -= x;
        }
        let raw = choose(W, 3) == 2;
        let depth = if cfg.same_depth { cfg.sub_depth } else { 1 + choose(W, cfg.sub_depth + 2) };
        let si = {
            let mut h = w.h.borrow_mut();
            h.subs.push(SubRec {
                t,
                kind,
                raw,
                depth,
                start: clock(),
                ok: None,
                err: None,
                items: vec![],
                gone: None,
                drained: false,
            });
            h.subs.len() - 1
        };
        let Some(c) = cl.as_ref() else { break };
        let fut = subscribe(c, t, kind, raw, depth);
        let r = match plan(cfg.abandon) {
            Some((p, ms)) => {
                let r = abandon_after(p, ms, fut).await;
                if r.is_none() {
                    fault("subscribe_abandoned");
                    w.h.borrow_mut().subs[si].gone = Some(clock());
                    continue;
                }
                r
            }
            None => timeout(PATIENCE, fut).await,
        };
        let Some(r) = r else {
            fail("C04,C05,C06,C07,C18:subscribe-stuck", format!("subscribe did not finish within {PATIENCE} ms"));
            return;
        };
        ev("sub", si as u64, r.is_ok() as u64, 0);
        note(|| format!("sub {si} topic {t} {kind:?} raw {raw} depth {depth} -> {}", if r.is_ok() { "ok" } else { "refused" }));
        let mut sub = match r {
            Ok(s) => s,
            Err(e) => {
                let c = clock();
                let already = matches!(e, SubscribeError::AlreadySubscribed);
                let mut h = w.h.borrow_mut();
                h.subs[si].err = Some((c, already));
                h.subs[si].gone = Some(c);
                if already {
                    drop(h);
                    probe("already_subscribed");
                }
                continue;
            }
        };
        w.h.borrow_mut().subs[si].ok = Some(clock());
        nontrivial();
        if last && cfg.clones_drop {
            cl = None;
        }
        let mut budget = if last { usize::MAX } else { choose(W, 12) };
        let slow = choose(W, 3);
        while budget > 0 {
            if w.h.borrow().draining {
                break;
            }
            if slow > 0 && chance(W, slow as u32, 4) {
                let long = if cfg.full_ms > 100 && chance(W, 1, 2) { cfg.full_ms as usize * 3 / 2 } else { [0, 4, 25][slow] };
                sleep(choose(W, long + 1) as u64).await;
            }
            let ab = plan(cfg.abandon);
            match read_some(&w, si, &mut sub, 50, ab).await {
                Some(true) => budget = budget.saturating_sub(1),
                Some(false) => {
                    w.h.borrow_mut().subs[si].gone = Some(clock());
                    w.h.borrow_mut().subs[si].drained = true;
                    drop(sub);
                    continue 'rounds;
                }
                None => {
                    if !last {
                        budget = budget.saturating_sub(1);
                    }
                }
            }
        }
        if w.h.borrow().draining {
            if cfg.end == End::DropAll {
                cl = None;
            }
            // drain: read until nothing comes any more
            loop {
                match read_some(&w, si, &mut sub, 400, None).await {
                    Some(true) => {}
                    Some(false) => break,
                    None => break,
                }
            }
            w.h.borrow_mut().subs[si].drained = true;
            w.h.borrow_mut().subs[si].gone = Some(clock());
            drop(sub);
            return;
        }
        w.h.borrow_mut().subs[si].gone = Some(clock());
        drop(sub);
    }
}

// ------------------------------------------------------------------ the run

pub async fn host(m: Mode) {
    ANS_FRAMES.with(|m| m.borrow_mut().clear());
    let cfg = gen_cfg(m);
    note(|| format!("{cfg:?}"));
    if !cfg.stalls {
        stop_stalls();
    }
    let port = HostPort::new();
    {
        let mut s = port.s();
        s.tx_slow = cfg.tx_slow;
        s.tx_slow_ms = 12;
    }
    port.h2d.st().max_delay = cfg.link_delay;
    port.d2h.st().max_delay = cfg.link_delay;
    port.h2d.st().cap = cfg.link_cap;
    let w: W_ = std::rc::Rc::new(World { cfg: cfg.clone(), port: port.clone(), h: sh(H::default()) });
    let (tx, rx) = port.ends();
    let sp = KernelSpawn::new();
    let workers = sp.0.clone();
    let cl: Client = Client::new_with_wire_and_config(
        tx,
        rx,
        sp,
        &HostClientConfig {
            seq_kind: kind_of(cfg.sw),
            err_uri_path: ERROR_PATH,
            outgoing_depth: cfg.depth,
            subscriber_timeout_if_full: Duration::from_millis(cfg.full_ms),
        },
    );
    // the device
    let w2 = w.clone();
    kernel::spawn("peer", async move {
        while let Ok(f) = w2.port.h2d.recv().await {
            peer_frame(&w2, f);
        }
    });

    if cfg.junk_calls > 0 {
        junk_phase(&w, &cl).await;
    }

    let mut tasks = vec![];
    let mut n = cfg.msgs;
    if n > 0 || cfg.garbage > 0 {
        let w2 = w.clone();
        if cfg.garbage > 0 {
            n = n.max(20);
        }
        tasks.push(kernel::spawn("device topics", async move {
            for _ in 0..n {
                if w2.h.borrow().stop {
                    break;
                }
                if chance(F, 1, 3) {
                    sleep(choose(F, 8) as u64).await;
                } else if chance(F, 1, 2) {
                    yield_now().await;
                }
                if w2.cfg.garbage > 0 && chance(F, w2.cfg.garbage, 16) {
                    push_garbage(&w2);
                }
                if w2.cfg.msgs > 0 {
                    push_topic(&w2);
                }
            }
        }));
    }
    for i in 0..cfg.callers {
        tasks.push(kernel::spawn(format!("caller{i}"), caller(w.clone(), cl.clone())));
    }
    for i in 0..cfg.pubs {
        tasks.push(kernel::spawn(format!("publisher{i}"), publisher(w.clone(), cl.clone(), i)));
    }
    // subscriptions to topics that this device does not have
    let crowd: std::rc::Rc<std::cell::RefCell<Vec<AnySub>>> = Default::default();
    if cfg.crowd > 0 {
        probe("crowd");
        let late = choose(W, cfg.crowd + 1);
        join_crowd(&cl, &crowd, cfg.crowd - late, 0).await;
        if late > 0 {
            let (c2, k2, pace) = (cl.clone(), crowd.clone(), [0, 3, 20][choose(W, 3)]);
            tasks.push(kernel::spawn("late crowd", async move {
                sleep(choose(W, 30) as u64).await;
                join_crowd(&c2, &k2, late, pace).await;
            }));
        }
    }
    let mut readers = vec![];
    for i in 0..cfg.subs {
        readers.push(kernel::spawn(format!("subscriber{i}"), subscriber(w.clone(), cl.clone())));
    }
    for _ in 0..choose(W, 3) {
        // waits for closure; holds a clone unless clones are dropped
        if cfg.end == End::DropAll {
            break;
        }
        let (w2, c2) = (w.clone(), cl.clone());
        w.h.borrow_mut().waiters += 1;
        kernel::spawn("closure waiter", async move {
            c2.wait_closed().await;
            let c = clock();
            w2.h.borrow_mut().released.push(c);
            check!(c2.is_closed(), "C04:released-not-closed", "wait_closed returned but is_closed is false");
        });
    }

    if cfg.outage > 0 {
        let (p, d) = (port.clone(), cfg.outage);
        tasks.push(kernel::spawn("outage", async move {
            sleep(choose(F, 40) as u64).await;
            p.set_hang(true);
            probe("outage");
            sleep(d).await;
            p.set_hang(false);
        }));
    }
    let mut cl = Some(cl);
    match cfg.end {
        End::None => {}
        End::DropAll => {
            sleep(choose(W, 20) as u64).await;
            kernel::stop_idles();
            cl = None;
        }
        e => {
            sleep(cfg.end_at).await;
            for _ in 0..choose(W, 12) {
                yield_now().await;
            }
            if cfg.hang {
                port.set_hang(true);
                sleep(choose(W, 10) as u64).await;
            }
            match e {
                End::Close => {
                    let c = cl.as_ref().unwrap().clone();
                    w.h.borrow_mut().cause = Some((clock(), now_ms()));
                    c.close();
                    fault("client_closed");
                    check!(cl.as_ref().unwrap().is_closed(), "C04:close-not-closed", "is_closed is false after close");
                }
                End::RxFail => {
                    w.h.borrow_mut().cause = Some((clock(), now_ms()));
                    port.fail_rx();
                    fault("rx_error");
                }
                _ => {
                    port.set_hang(false);
                    port.fail_tx();
                }
            }
            stop_stalls();
        }
    }
    // let everything come to an end
    let t0 = now_ms();
    if cfg.hang && cfg.end == End::None {
        port.set_hang(true);
        sleep(choose(W, 30) as u64).await;
        port.set_hang(false);
    }
    let all = async {
        for t in &tasks {
            join(*t).await;
        }
    };
    let long = 6 * (PATIENCE + cfg.outage) * (cfg.calls as u64 + cfg.pubs_each as u64 + 2);
    if timeout(long, all).await.is_none() {
        fail("no-progress", format!("users still busy after {long} ms: {:?}", alive()));
        return;
    }
    stop_stalls();
    if cfg.end == End::TxFail && !w.ended() {
        // a broken transmitter is noticed when something is sent
        let id = new_id(&w.h);
        let c = cl.as_ref().unwrap();
        let _ = timeout(BOUND, c.publish::<TFlag>(VarSeq::Seq1(id as u8), &true)).await;
        sleep(50).await;
    }
    let ended = w.ended();
    if ended {
        check_bounded_end(&w, t0);
    }
    if failed() {
        return;
    }
    // quiet period: what was sent arrives
    sleep(300 + 30 * cfg.full_ms).await;
    w.h.borrow_mut().draining = true;
    let all = async {
        for t in &readers {
            join(*t).await;
        }
    };
    let long = 120_000;
    if timeout(long, all).await.is_none() {
        fail("C04,C05,C06,C18,C19:reader-stuck", format!("subscribers still busy after {long} ms: {:?}", alive()));
        return;
    }
    if failed() {
        return;
    }
    match cfg.end {
        End::DropAll => after_drop(&w, &workers).await,
        _ => {
            let cl = cl.take().unwrap();
            if w.ended() {
                after_end(&w, &cl, &workers).await
            } else {
                for s in crowd.borrow_mut().iter_mut() {
                    let r = timeout(0, recv_stranger(s)).await;
                    check!(r != Some(false), "C05,C06,C07,C18:subscription-ended", "a subscription to a silent topic ended although nothing closed the client");
                }
                after_normal(&w, &cl).await;
            }
            drop(cl);
        }
    }
    if failed() {
        return;
    }
    check_calls(&w);
    check_pubs(&w);
    check_subs(&w);
    check_widths(&w);
}

/// Subscriptions to topics that this device does not have
async fn join_crowd(cl: &Client, crowd: &std::rc::Rc<std::cell::RefCell<Vec<AnySub>>>, n: usize, pace: usize) {
    for _ in 0..n {
        if pace > 0 {
            sleep(choose(W, pace) as u64).await;
        }
        let k = stranger();
        let s = match choose(W, 3) {
            0 => None,
            1 => cl.subscribe_exclusive_raw(k, 4).await.ok().map(AnySub::R),
            _ => cl.subscribe_multi_raw(k, 4).await.ok().map(AnySub::MR),
        };
        if let Some(s) = s {
            if !chance(W, 1, 3) {
                crowd.borrow_mut().push(s);
            }
        }
    }
}

/// false: the subscription has ended
async fn recv_stranger(s: &mut AnySub) -> bool {
    match s {
        AnySub::R(s) => s.recv().await.is_some(),
        AnySub::MR(s) => !matches!(s.recv().await, Err(MultiSubRxError::IoClosed)),
        _ => true,
    }
}

async fn junk_phase(w: &W_, cl: &Client) {
    let n = w.cfg.junk_calls;
    for _ in 0..n {
        let id = new_id(&w.h);
        let arg = Arg::N(id);
        let ci = {
            let mut h = w.h.borrow_mut();
            h.calls.push(CallRec {
                id,
                ep: Ep::Ping,
                body: arg.enc(),
                raw_seq: Some(u32::MAX),
                given: K8,
                start: clock(),
                end: None,
                res: None,
                abandoned: None,
                answers: vec![],
                wire: vec![],
            });
            h.calls.len() - 1
        };
        let r = abandon_after(2 + choose(F, 3), 2, call(cl, Ep::Ping, &arg)).await;
        let (c, t) = (clock(), now_ms());
        fault("call_abandoned");
        let mut h = w.h.borrow_mut();
        match r {
            None => h.calls[ci].abandoned = Some((c, t)),
            Some(r) => {
                drop(h);
                fail("C18:junk-answered", format!("an abandoned call that nobody answers returned {r:?}"));
                return;
            }
        }
    }
    probe("many_abandoned");
}

/// Nothing was closed: the client must still be fully usable
async fn after_normal(w: &W_, cl: &Client) {
    let any = "C04,C05,C06,C07,C09,C18,C19,C01";
    check!(!cl.is_closed(), format!("{any}:closed-without-cause"), "the client reports closed although nothing closed it");
    check!(w.h.borrow().released.is_empty(), format!("{any}:released-without-cause"), "wait_closed returned although nothing closed the client");
    if failed() {
        return;
    }
    // a final round of everything, without faults
    let cfg = &w.cfg;
    let n0 = w.h.borrow().calls.len();
    if cfg.loss == 0 && cfg.sw != S1 || n0 < 100 {
        let id = new_id(&w.h);
        let ci = {
            let mut h = w.h.borrow_mut();
            h.calls.push(CallRec {
                id,
                ep: Ep::EchoA,
                body: icd::enc(&Req { id, data: vec![3] }),
                raw_seq: None,
                given: K8,
                start: clock(),
                end: None,
                res: None,
                abandoned: None,
                answers: vec![],
                wire: vec![],
            });
            h.calls.len() - 1
        };
        if cfg.loss == 0 {
            let r = timeout(PATIENCE, call(cl, Ep::EchoA, &Arg::Req(Req { id, data: vec![3] }))).await;
            let (c, t) = (clock(), now_ms());
            let mut h = w.h.borrow_mut();
            match r {
                Some(r) => {
                    h.calls[ci].end = Some((c, t));
                    h.calls[ci].res = Some(r);
                }
                None => {
                    drop(h);
                    fail(format!("{any}:final-call"), "a final call after quiescence got no answer");
                }
            }
        } else {
            w.h.borrow_mut().calls.pop();
        }
    }
}

/// Operations outstanding when the connection ended must have finished soon
fn check_bounded_end(w: &W_, _t0: u64) {
    let at = {
        let h = w.h.borrow();
        h.cause.map(|c| c.1)
    };
    let Some(at) = at else { return };
    let h = w.h.borrow();
    for c in &h.calls {
        let end = c.end.or(c.abandoned).map(|e| e.1).unwrap_or(u64::MAX);
        if end > at + BOUND {
            let m = format!("call {} still not finished {} ms after the connection ended", c.id, BOUND);
            drop(h);
            fail("C04:call-outlives-close", m);
            return;
        }
    }
    for p in &h.pubs {
        if let Some((_, t)) = p.end {
            if t > at + BOUND {
                let m = format!("publish {} not finished {} ms after the connection ended", p.id, BOUND);
                drop(h);
                fail("C04:publish-outlives-close", m);
                return;
            }
        }
    }
}

async fn after_end(w: &W_, cl: &Client, workers: &std::sync::Mutex<Vec<TaskId>>) {
    sleep(50).await;
    check!(cl.is_closed(), "C04:not-closed", "the connection ended but the client does not report it");
    let (wt, rel) = {
        let h = w.h.borrow();
        (h.waiters, h.released.len())
    };
    check!(wt == rel, "C04:waiter-stuck", "{} of {} tasks waiting for closure were released", rel, wt);
    for t in workers.lock().unwrap().iter() {
        check!(is_done(*t), "C04,C19:worker-alive", "a worker is still running after the connection ended");
    }
    {
        let s = w.port.s();
        check!(s.tx_dropped && s.rx_dropped, "C04,C19:transport-held", "the transport was not released after the connection ended");
    }
    // everything later is refused, on any clone
    let c2 = cl.clone();
    for c in [cl, &c2] {
        let id = new_id(&w.h);
        let r = timeout(BOUND, call(c, Ep::Ping, &Arg::N(id))).await;
        check!(r == Some(Res::Closed), "C04:call-after-close", "a call after closure gave {r:?}");
        let r = timeout(BOUND, c.publish::<TBlk>(VarSeq::Seq1(1), &Msg { id, data: vec![] })).await;
        check!(matches!(r, Some(Err(IoClosed))), "C04:publish-after-close", "a publish after closure gave {r:?}");
        for k in [Kind::Excl, Kind::Legacy, Kind::Multi] {
            for raw in [false, true] {
                let r = timeout(BOUND, subscribe(c, 0, k, raw, 4)).await;
                let ok = matches!(r, Some(Err(SubscribeError::IoClosed)));
                check!(ok, "C04:subscribe-after-close", "{k:?} subscription (raw {raw}) after closure was not refused as closed");
            }
        }
        let r = timeout(BOUND, c.wait_closed()).await;
        if choose(W, 4) == 3 {
            let r = timeout(BOUND, cl.get_schema_report()).await;
            check!(
                matches!(r, Some(Err(postcard_rpc::host_client::SchemaError::Comms(HostErr::Closed)))),
                "C04:schema-after-close",
                "asking for the schema after closure gave {r:?}"
            );
        }
        check!(r.is_some(), "C04:wait-after-close", "wait_closed hangs after closure");
    }
    probe("closed_and_checked");
}

async fn after_drop(w: &W_, workers: &std::sync::Mutex<Vec<TaskId>>) {
    // all clones are gone (users finished): flushed, workers ended
    sleep(BOUND).await;
    for t in workers.lock().unwrap().iter() {
        check!(is_done(*t), "C19:worker-alive", "a worker is still running after the last client was dropped");
    }
    let s = w.port.s();
    check!(s.tx_dropped && s.rx_dropped, "C19:transport-held", "the transport was not released after the last client was dropped");
    drop(s);
    let h = w.h.borrow();
    for s in &h.subs {
        if s.ok.is_some() && s.drained && !matches!(s.items.last(), Some((_, _, Item::End))) {
            drop(h);
            fail("C19:subscription-does-not-end", "a subscription did not report its end after the last client was dropped");
            return;
        }
    }
    drop(h);
    probe("dropped_and_checked");
}

// ------------------------------------------------------------------ history checks

fn check_calls(w: &W_) {
    let h = w.h.borrow();
    let got = w.port.s().got.clone();
    let cause = w.cause_clock();
    let dropped = w.cfg.end == End::DropAll;
    // first got index of every answer
    let mut ans_got: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, _) in got.iter().enumerate() {
        if let Some(Meta::Ans(a)) = h.pushes.get(i) {
            ans_got.entry(*a).or_insert(i);
        }
    }
    let mut out: Option<(&'static str, String)> = None;
    let mut bad = |k: &'static str, m: String| {
        if out.as_ref().map(|o| !mine(&o.0)).unwrap_or(true) {
            out = Some((k, m));
        }
    };
    for c in &h.calls {
        let mine: Vec<(usize, usize)> =
            c.answers.iter().filter_map(|a| ans_got.get(a).map(|g| (*a, *g))).collect();
        let first = |err: bool| {
            mine.iter().filter(|(a, _)| h.answers[*a].err == err).min_by_key(|(_, g)| *g).copied()
        };
        let cands: Vec<(usize, usize)> = [first(false), first(true)].into_iter().flatten().collect();
        if let (Some((rc, rms)), Some(res)) = (c.end, &c.res) {
            match res {
                Res::Closed => {
                    if !cause.is_some_and(|x| x < rc) {
                        bad("C04,C01,C09,C18,C19:closed-without-cause", format!("call {} ended as closed although nothing closed the client", c.id));
                    }
                }
                Res::BadResponse => {
                    // only when the sequence numbers wrapped onto an outstanding call
                    let wrapped = w.cfg.sw == S1
                        && h.calls.iter().any(|x| {
                            x.start < c.start
                                && x.end.or(x.abandoned).is_none_or(|e| e.0 > c.start)
                                && h.calls.iter().filter(|y| y.start > x.start && y.start <= c.start).count() >= 200
                        });
                    // or another user chose the same one
                    let clash = c.raw_seq.is_some()
                        && h.calls.iter().any(|x| {
                            x.id != c.id
                                && x.raw_seq.is_some_and(|s| w.cfg.sw.mask(s) == w.cfg.sw.mask(c.raw_seq.unwrap()))
                                && x.start < rc
                                && x.end.or(x.abandoned).is_none_or(|e| e.0 > c.start)
                        });
                    if clash && c.wire.is_empty() {
                        probe("sequence_reused");
                        continue;
                    }
                    if wrapped {
                        probe("sequence_wrapped_onto_outstanding_call");
                        continue;
                    }
                    bad("C01,C11,C18:bad-response", format!("call {} was refused with BadResponse", c.id));
                }
                r => {
                    if !cands.iter().any(|(a, g)| h.answers[*a].res == *r && got[*g].clock < rc) {
                        let e: Vec<_> = cands.iter().map(|(a, _)| &h.answers[*a].res).collect();
                        let k = if *r == Res::Postcard { "C09,C01:decode-error-without-cause" } else { "C01,C07,C09,C11,C18,C20,C02:wrong-answer" };
                        bad(k, format!("call {} of {:?} returned {:?}, the answers it was sent are {:?}", c.id, c.ep, r, e));
                    }
                }
            }
            // in time?
            if let Some((_, g)) = cands.iter().min_by_key(|(_, g)| *g) {
                if rms > got[*g].ms + BOUND {
                    bad("C01,C07,C02,C18,C09:answer-late", format!("call {} finished {} ms after its answer", c.id, rms - got[*g].ms));
                }
            }
        } else if let Some((_, ams)) = c.abandoned {
            // given up: no answer may have been there for long
            if let Some((_, g)) = cands.iter().min_by_key(|(_, g)| *g) {
                if ams > got[*g].ms + BOUND {
                    bad("C01,C07,C11,C18,C09,C02:answer-not-taken", format!("the answer to call {} arrived, but the call did not finish within {} ms", c.id, BOUND));
                }
            }
        }
        let _ = dropped;
    }
    drop(h);
    if let Some((k, m)) = out {
        fail(k, m);
    }
}

/// Numbers of publishes without a body start here
const BARE: u32 = 0xE000_0000;

fn pub_id(hd: &codec::Hdr, body: &[u8]) -> Option<u32> {
    if body.is_empty() {
        return hd.seq.checked_sub(BARE);
    }
    take_varint(body).map(|x| x.0 as u32)
}

fn check_pubs(w: &W_) {
    let h = w.h.borrow();
    let s = w.port.s();
    let mut pos: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (i, (_, f)) in s.sent.iter().enumerate() {
        if let Some((hd, b)) = codec::dec(f) {
            if Tp::ALL.iter().any(|t| hd.is(t.key())) {
                if let Some(id) = pub_id(&hd, b) {
                    pos.entry(id).or_default().push(i);
                }
            }
        }
    }
    let ended = {
        s.tx_failed_at.is_some() || s.rx_failed_at.is_some() || h.cause.is_some()
    };
    let cause = [h.cause.map(|c| c.0), s.tx_failed_at, s.rx_failed_at].into_iter().flatten().min();
    let mut out: Option<(&'static str, String)> = None;
    let mut bad = |k: &'static str, m: String| {
        if out.as_ref().map(|o| !mine(&o.0)).unwrap_or(true) {
            out = Some((k, m));
        }
    };
    let mut last: BTreeMap<usize, usize> = BTreeMap::new();
    for p in &h.pubs {
        let n = pos.get(&p.id).map(|v| v.len()).unwrap_or(0);
        if n > 1 {
            bad("C08,C18,C20:publish-twice", format!("publish {} was sent {n} times", p.id));
        }
        if p.ok == Some(true) && n == 0 && !ended && !(w.cfg.hang) {
            bad("C08,C19,C18:publish-lost", format!("publish {} reported success but was never sent", p.id));
        }
        if p.ok == Some(false) && !cause.is_some_and(|c| c < p.end.unwrap().0) {
            bad("C04,C08,C19:publish-closed-without-cause", format!("publish {} failed although nothing closed the client", p.id));
        }
        if let Some(v) = pos.get(&p.id) {
            if let Some(l) = last.get(&p.task) {
                if v[0] < *l {
                    bad("C08:publish-order", format!("publish {} of task {} was sent before an earlier one", p.id, p.task));
                }
            }
            last.insert(p.task, v[0]);
        }
    }
    drop(h);
    drop(s);
    if let Some((k, m)) = out {
        fail(k, m);
    }
}

/// Calls that do not overlap others: each uses the width of the answer before it
fn check_next_width(w: &W_) {
    let h = w.h.borrow();
    let s = w.port.s();
    let over = |c: &CallRec| c.end.or(c.abandoned).map(|e| e.0).unwrap_or(u64::MAX);
    let mut out = None;
    for (i, c) in h.calls.iter().enumerate() {
        if c.wire.is_empty() {
            continue;
        }
        let before = h.calls.iter().enumerate().filter(|(j, p)| *j != i && over(p) < c.start);
        let Some((pi, p)) = before.max_by_key(|(_, p)| over(p)) else { continue };
        let answered = p.end.is_some() && matches!(p.res, Some(Res::Ok(_)) | Some(Res::Wire(_)) | Some(Res::Postcard));
        let alone = h.calls.iter().enumerate().all(|(j, q)| j == i || j == pi || over(q) < p.start || q.start > over(c));
        let Some(sent) = p.wire.first() else { continue };
        if !answered || !alone {
            continue;
        }
        let mut widths: Vec<KW> = s
            .got
            .iter()
            .filter(|g| g.clock > p.start && g.clock < over(p))
            .filter_map(|g| codec::dec(&g.frame).map(|x| x.0))
            .filter(|hd| hd.seq == sent.seq && (hd.is(p.ep.keys().1) || hd.is(icd::err_key())))
            .map(|hd| hd.kw)
            .collect();
        widths.dedup();
        let [kw] = widths[..] else { continue };
        probe("width_after_answer");
        for hd in &c.wire {
            if hd.kw != kw.min(c.given) {
                out = Some(format!("call {} used {:?} keys although the answer just before it came with {:?}", c.id, hd.kw, kw));
            }
        }
    }
    drop(h);
    drop(s);
    if let Some(m) = out {
        fail("C11:key-width-not-adopted", m);
    }
}

fn check_widths(w: &W_) {
    check_next_width(w);
    // with a server of fixed key width, every call begun after the first
    // answered one uses that width
    let KwMode::Fixed(kw) = w.cfg.kw else { return };
    let h = w.h.borrow();
    let t0 = h
        .calls
        .iter()
        .filter(|c| matches!(c.res, Some(Res::Ok(_)) | Some(Res::Wire(_)) | Some(Res::Postcard)))
        .filter_map(|c| c.end.map(|e| e.0))
        .min();
    let mut out = None;
    for c in &h.calls {
        for hd in &c.wire {
            let late = t0.is_some_and(|t| c.start > t);
            let kw = kw.min(c.given);
            if hd.kw != c.given && hd.kw != kw || late && hd.kw != kw {
                out = Some(format!("call {} used {:?} keys, the server answers with {:?}", c.id, hd.kw, kw));
            }
        }
    }
    drop(h);
    if let Some(m) = out {
        fail("C11:key-width-not-adopted", m);
    }
}

fn check_subs(w: &W_) {
    let h = w.h.borrow();
    let got = w.port.s().got.clone();
    let cause = w.cause_clock();
    let dropall = w.cfg.end == End::DropAll;
    let mut out: Option<(String, String)> = None;
    let mut bad = |k: &str, m: String| {
        if out.as_ref().map(|o| !mine(&o.0)).unwrap_or(true) {
            out = Some((k.to_string(), m));
        }
    };
    // messages per topic in arrival order
    struct M<'a> {
        r: &'a TopicRec,
        got: u64,
        ms: u64,
        done: u64,
        done_ms: u64,
    }
    let mut per: Vec<Vec<M>> = (0..TOPICS).map(|_| vec![]).collect();
    for (i, g) in got.iter().enumerate() {
        if let Some(Meta::Topic(r)) = h.pushes.get(i) {
            per[r.t].push(M { r, got: g.clock, ms: g.ms, done: g.done_clock, done_ms: g.done_ms });
        }
    }
    if !w.cfg.stalls {
        for g in &got {
            if g.done_ms != u64::MAX && g.done_ms > g.ms + w.cfg.full_ms + 1 {
                bad("C05:blocked-too-long", format!("one incoming frame held up the client for {} ms, the timeout is {} ms", g.done_ms - g.ms, w.cfg.full_ms));
            }
        }
    }
    for (si, s) in h.subs.iter().enumerate() {
        let ms = &per[s.t];
        // refusals
        if let Some((ec, already)) = s.err {
            if already {
                let legit = h.subs.iter().enumerate().any(|(i, x)| {
                    i != si && x.t == s.t && x.kind != Kind::Multi && x.start < ec && x.gone.is_none_or(|g| g > s.start)
                });
                if !legit || s.kind != Kind::Excl {
                    bad("C05,C18:refused-without-holder", format!("subscription {si} was refused although no other is alive"));
                }
            } else if !cause.is_some_and(|c| c < ec) {
                bad("C04,C05,C06:subscribe-closed-without-cause", format!("subscription {si} was refused as closed although nothing closed the client"));
            }
            continue;
        }
        let Some(ok) = s.ok else { continue };
        if s.kind == Kind::Excl {
            // nobody else may have held the topic all the time
            for (i, x) in h.subs.iter().enumerate() {
                let Some(xok) = x.ok else { continue };
                let replaced = h.subs.iter().enumerate().any(|(j, y)| j != i && y.t == x.t && y.kind == Kind::Legacy && y.start > x.start.min(xok) - 0 && y.start < ok);
                let ended_early = x.items.iter().any(|(c, _, it)| *it == Item::End && *c < ok);
                if i != si && x.t == s.t && x.kind != Kind::Multi && xok < s.start && x.gone.is_none_or(|g| g > ok) && !replaced && !ended_early {
                    bad("C05:second-holder", format!("exclusive subscription {si} was accepted while {i} is alive"));
                }
            }
        }
        // when others may have replaced it, at the earliest
        let repl = if s.kind == Kind::Multi {
            u64::MAX
        } else {
            h.subs
                .iter()
                .enumerate()
                .filter(|(j, y)| *j != si && y.t == s.t && y.kind == Kind::Legacy && y.gone.is_none_or(|g| g > s.start))
                .filter(|(_, y)| y.ok.unwrap_or(y.gone.unwrap_or(u64::MAX)) > s.start)
                .map(|(_, y)| y.start)
                .min()
                .unwrap_or(u64::MAX)
        };
        // certainly replaced by
        let repl_done = if s.kind == Kind::Multi {
            u64::MAX
        } else {
            h.subs
                .iter()
                .enumerate()
                .filter(|(j, y)| *j != si && y.t == s.t && y.kind == Kind::Legacy && y.start > ok)
                .filter_map(|(_, y)| y.ok)
                .min()
                .unwrap_or(u64::MAX)
        };
        // index of every item
        let tagx = match s.kind {
            Kind::Multi => "C06,C07,C09,C18",
            _ => "C05,C07,C09,C18",
        };
        let mut prev: Option<usize> = None;
        let mut lag: u64 = 0;
        let mut lag_clock = 0;
        let mut popped: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
        let lo = ms.iter().position(|m| m.done > s.start).unwrap_or(ms.len());
        let hi = ms.iter().position(|m| m.got > ok).unwrap_or(ms.len());
        let end_clock = s.items.iter().find(|(_, _, i)| *i == Item::End).map(|x| x.0);
        for (pc, pms, it) in &s.items {
            match it {
                Item::Msg { id, body, seq } => {
                    let Some(i) = ms.iter().position(|m| m.r.id == *id) else {
                        bad(&format!("{tagx}:foreign-item"), format!("subscription {si} of topic {} yielded {id}, which was never sent on that topic", s.t));
                        break;
                    };
                    let m = &ms[i];
                    if m.r.body != *body || seq.is_some_and(|(v, wd)| v != m.r.seq || wd != m.r.sw as u8) {
                        bad(&format!("{tagx}:item-changed"), format!("subscription {si}: message {id} arrived changed"));
                    }
                    if !m.r.ok && !s.raw {
                        bad(&format!("{tagx}:undecodable-item"), format!("typed subscription {si} yielded an undecodable message {id}"));
                    }
                    if prev.is_some_and(|p| i <= p) {
                        bad(&format!("{tagx}:order"), format!("subscription {si}: message {id} repeated or out of order"));
                    }
                    if i < lo {
                        bad(&format!("{tagx}:too-old"), format!("subscription {si} yielded message {id}, which had been processed before it subscribed"));
                    }
                    if s.kind != Kind::Multi && m.got > repl_done {
                        bad("C05:after-replaced", format!("subscription {si} yielded message {id} after it had been replaced"));
                    }
                    if s.kind == Kind::Multi {
                        // what was skipped?
                        let (from_min, from_max) = match prev {
                            Some(p) => (p + 1, p + 1),
                            None => (lo, hi.max(lo)),
                        };
                        let dec = |a: usize| (a..i).filter(|k| ms[*k].r.ok || s.raw).count() as u64;
                        let max_total = i.saturating_sub(from_min) as u64;
                        let min_dec = if from_max <= i { dec(from_max) } else { 0 };
                        if lag < min_dec || lag > max_total {
                            bad("C06,C07,C18:lag-count", format!("broadcast subscription {si} skipped between {min_dec} and {max_total} messages before {id} but was told {lag}"));
                        }
                        if lag > 0 {
                            probe("lagged");
                            // as many as the depth must have been retained
                            let dmin = h.subs.iter().filter(|x| x.t == s.t && x.kind == Kind::Multi && x.start < ok).map(|x| x.depth).min().unwrap_or(s.depth);
                            let newest = ms.iter().filter(|m| m.got < lag_clock).count();
                            let r0 = from_min + lag as usize;
                            if newest < r0 + dmin {
                                bad("C06:skipped-too-early", format!("broadcast subscription {si} skipped {lag} messages while at most {} were unread, depth {dmin}", newest as i64 - from_min as i64));
                            }
                        }
                        lag = 0;
                    }
                    popped.insert(i, (*pc, *pms));
                    prev = Some(i);
                }
                Item::Lag(n) => {
                    lag += n;
                    lag_clock = *pc;
                    if *n == 0 || s.kind != Kind::Multi {
                        bad("C06:lag-zero", "a subscriber was told it lagged by 0".into());
                    }
                }
                Item::End => {
                    let rep_ok = s.kind != Kind::Multi && repl < *pc;
                    let closed_ok = cause.is_some_and(|c| c < *pc) || dropall;
                    if !rep_ok && !closed_ok {
                        bad(&format!("{tagx},C04,C19:end-without-cause"), format!("subscription {si} ended although nothing ended it"));
                    }
                }
            }
        }
        // replaced or closed subscriptions end
        if s.drained && end_clock.is_none() {
            if repl_done != u64::MAX {
                bad("C05:replaced-does-not-end", format!("subscription {si} was replaced but did not end"));
            }
            if cause.is_some() {
                bad("C04:subscription-does-not-end", format!("subscription {si} did not end although the connection did"));
            }
        }
        // completeness
        let last = prev;
        let limit = repl.min(cause.unwrap_or(u64::MAX));
        match s.kind {
            Kind::Multi => {
                if s.drained && cause.is_none() && !dropall {
                    let from = match last {
                        Some(l) => l + 1,
                        None => hi,
                    };
                    let missing: Vec<u32> = (from..ms.len()).filter(|k| (ms[*k].r.ok || s.raw) && ms[*k].done != u64::MAX).map(|k| ms[k].r.id).collect();
                    if (lag as usize) < missing.len() {
                        bad("C06,C07,C18:missing", format!("broadcast subscription {si} of topic {} never yielded {missing:?} and was told of {lag} missed", s.t));
                    }
                    if lag > 0 && s.raw {
                        bad("C06:lag-without-item", format!("broadcast subscription {si} was told it lagged but got nothing afterwards"));
                    }
                }
            }
            _ => {
                for i in hi..ms.len() {
                    let m = &ms[i];
                    if popped.contains_key(&i) || (!m.r.ok && !s.raw) || m.done >= limit {
                        continue;
                    }
                    if !s.drained && last.is_none_or(|l| i > l) {
                        continue; // still in the queue when it was dropped
                    }
                    // may have been dropped only if the queue was full
                    let mut occ = 0;
                    for k in lo..i {
                        if let Some((pc, _)) = popped.get(&k) {
                            if *pc > m.got {
                                occ += 1;
                            }
                        } else if !ms[k].r.ok && !s.raw {
                            // unread unless something later had been read before
                            let later = popped.iter().any(|(j, (pc, _))| *j > k && *pc < m.got);
                            if !later {
                                occ += 1;
                            }
                        }
                    }
                    if occ < s.depth {
                        bad("C05,C07,C18,C09,C04:lost", format!("subscription {si} (depth {}) lost message {} of topic {} while at most {occ} were unread", s.depth, m.r.id, s.t));
                    } else {
                        probe("legitimate_overflow");
                        if w.cfg.full_ms > 0 && !w.cfg.stalls {
                            let freed = popped.values().any(|(pc, pms)| *pc > m.got && *pms >= m.ms && *pms + 1 < m.ms + w.cfg.full_ms);
                            if freed {
                                bad("C05:lost-despite-timeout", format!("subscription {si} lost message {} although a slot became free within {} ms", m.r.id, w.cfg.full_ms));
                            }
                            let _ = m.done_ms;
                        }
                    }
                }
            }
        }
    }
    drop(h);
    if let Some((k, m)) = out {
        fail(k, m);
    }
}

macro_rules! scn {
    ($f:ident, $m:expr) => {
        pub fn $f() -> Pin<Box<dyn Future<Output = ()>>> {
            Box::pin(host($m))
        }
    };
}
scn!(calls, Mode::Calls);
scn!(wrap, Mode::Wrap);
scn!(excl, Mode::Excl);
scn!(excl_timeout, Mode::ExclTimeout);
scn!(multi, Mode::Multi);
scn!(route, Mode::Route);
scn!(pubs, Mode::Pubs);
scn!(garbage, Mode::Garbage);
scn!(width, Mode::Width);
scn!(abandon, Mode::Abandon);
scn!(abandon_many, Mode::AbandonMany);
scn!(end, Mode::End);
scn!(dropall, Mode::Drop);
scn!(wire, Mode::Wire);
scn!(reuse, Mode::Reuse);
scn!(reuse_many, Mode::ReuseMany);

#[allow(unused)]
fn _u(_: BTreeSet<u8>, _: fn() -> &'static str) {
    let _ = <Nop as Endpoint>::PATH;
}

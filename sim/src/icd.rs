//! The simulated devices: endpoints, topics, handlers that record what they
//! were called with, and server variants that need 1, 2, 4 and 8 byte keys.

use crate::codec::{KW, K1, K2, K4, K8};
use crate::kernel::{self, choose, chance, ev, fault, sleep, sh, Sh, F};
use crate::link::{sim_spawn, AnyRx, AnyTx, SimSpawner};
pub use crate::types::*;
use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeq};
use postcard_rpc::host_client::{HostClient, HostErr};
use postcard_rpc::server::{Dispatch, Sender, Server, ServerError, SpawnContext, WireRxErrorKind, WireTxErrorKind};
use postcard_rpc::standard_icd::{PingEndpoint, WireError, ERROR_KEY};
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use std::future::Future;
use std::pin::Pin;

pub type Client = HostClient<WireError>;

endpoints! {
    list = BASE_EPS;
    | EndpointTy | RequestTy | ResponseTy | Path         |
    | ---------- | --------- | ---------- | ----         |
    | EchoA      | Req       | Rsp        | "s1/echo_a"  |
    | EchoB      | Req       | Rsp        | "s1/echo_b"  |
    | AsyncA     | Req       | Rsp        | "s1/async_a" |
    | AsyncB     | Req       | Rsp        | "s1/async_b" |
    | SpawnA     | Req       | Rsp        | "s1/spawn_a" |
    | SpawnB     | Req       | Rsp        | "s1/spawn_b" |
    | Big        | u32       | Blob       | "s1/big"     |
    | BigA       | u32       | Blob       | "s1/biga"    |
    | Inc        | u64       | u64        | "s1/inc"     |
    | Nop        | ()        | ()         | "s1/nop"     |
    | Strict     | bool      | u8         | "s1/strict"  |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path         |
    | ------- | --------- | ----         |
    | TBlk    | Msg       | "s1/t_blk"   |
    | TAsync  | Msg       | "s1/t_async" |
    | TSpawn  | Msg       | "s1/t_spawn" |
    | TFlag   | bool      | "s1/t_flag"  |
}
topics! {
    list = BASE_TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path       |
    | ------- | --------- | ----       |
    | OutA    | Msg       | "s1/out_a" |
    | OutB    | Msg       | "s1/out_b" |
    | OutN    | u32       | "s1/out_n" |
    | OutU    | ()        | "s1/out_u" |
}
/// Endpoints and topics that collide with base ones at some width
/// (found with examples/findkeys.rs)
pub mod extra {
    use super::*;
    endpoints! {
        list = X_EPS;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path           |
        | ---------- | --------- | ---------- | ----           |
        | X2         | Req       | Rsp        | "x2/23"        |
        | X4         | Req       | Rsp        | "x4/37686"     |
        | X8         | Req       | Rsp        | "x8/632102961" |
        | E1         | Req       | Rsp        | "e1/24"        |
        | Richly     | Rich      | RichOut    | "r/rich"       |
        | Primly     | (Prims, Prims) | PrimsOut | "r/prims"   |
        | Q1         | i8      | i16      | "q/1"        |
        | Q2         | i32      | i64      | "q/2"        |
        | Q3         | i128      | u128      | "q/3"        |
        | Q4         | u16      | f32      | "q/4"        |
        | Q5         | f64      | char      | "q/5"        |
        | Q6         | String      | Blob      | "q/6"        |
        | Q7         | u64      | AnySchema      | "q/7"        |
        | LookA      | AlikeA    | u8         | "r/alike_a"    |
        | LookB      | OptB | OptB | "r/alike_b" |
    }
    topics! {
        list = X_TOUT;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path       |
        | ------- | --------- | ----       |
        | O2      | Msg       | "o2/149"   |
        | O4      | Msg       | "o4/72355" |
        | RichNews | Kinds    | "r/news"   |
    }
}
pub use extra::{E1, O2, O4, X2, X4, X8, LookA, LookB, Q1, Q2, Q3, Q4, Q5, Q6, Q7, Primly, RichNews, Richly};

// ------------------------------------------------------------------ handlers

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ep {
    EchoA,
    EchoB,
    AsyncA,
    AsyncB,
    SpawnA,
    SpawnB,
    Big,
    BigA,
    Inc,
    Nop,
    Strict,
    X2,
    X4,
    X8,
    E1,
    Ping,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tp {
    Blk,
    Async,
    Spawn,
    Flag,
}

impl Ep {
    pub const REQRSP: [Ep; 6] = [Ep::EchoA, Ep::EchoB, Ep::AsyncA, Ep::AsyncB, Ep::SpawnA, Ep::SpawnB];
    pub const BASE: [Ep; 12] = [
        Ep::EchoA, Ep::EchoB, Ep::AsyncA, Ep::AsyncB, Ep::SpawnA, Ep::SpawnB, Ep::Big, Ep::BigA, Ep::Inc, Ep::Nop,
        Ep::Strict, Ep::Ping,
    ];
    pub fn req_key(self) -> [u8; 8] {
        self.keys().0
    }
    pub fn resp_key(self) -> [u8; 8] {
        self.keys().1
    }
    pub fn keys(self) -> ([u8; 8], [u8; 8]) {
        fn k<E: Endpoint>() -> ([u8; 8], [u8; 8]) {
            (E::REQ_KEY.to_bytes(), E::RESP_KEY.to_bytes())
        }
        match self {
            Ep::EchoA => k::<EchoA>(),
            Ep::EchoB => k::<EchoB>(),
            Ep::AsyncA => k::<AsyncA>(),
            Ep::AsyncB => k::<AsyncB>(),
            Ep::SpawnA => k::<SpawnA>(),
            Ep::SpawnB => k::<SpawnB>(),
            Ep::Big => k::<Big>(),
            Ep::BigA => k::<BigA>(),
            Ep::Inc => k::<Inc>(),
            Ep::Nop => k::<Nop>(),
            Ep::Strict => k::<Strict>(),
            Ep::X2 => k::<X2>(),
            Ep::X4 => k::<X4>(),
            Ep::X8 => k::<X8>(),
            Ep::E1 => k::<E1>(),
            Ep::Ping => k::<PingEndpoint>(),
        }
    }
    pub fn is_spawn(self) -> bool {
        matches!(self, Ep::SpawnA | Ep::SpawnB)
    }
    pub fn is_reqrsp(self) -> bool {
        Ep::REQRSP.contains(&self) || matches!(self, Ep::X2 | Ep::X4 | Ep::X8 | Ep::E1)
    }
}

impl Tp {
    pub const ALL: [Tp; 4] = [Tp::Blk, Tp::Async, Tp::Spawn, Tp::Flag];
    pub fn key(self) -> [u8; 8] {
        match self {
            Tp::Blk => TBlk::TOPIC_KEY.to_bytes(),
            Tp::Async => TAsync::TOPIC_KEY.to_bytes(),
            Tp::Spawn => TSpawn::TOPIC_KEY.to_bytes(),
            Tp::Flag => TFlag::TOPIC_KEY.to_bytes(),
        }
    }
}

pub fn err_key() -> [u8; 8] {
    ERROR_KEY.to_bytes()
}

/// One handler invocation
#[derive(Clone, Debug)]
pub struct Inv {
    pub ep: Option<Ep>,
    pub tp: Option<Tp>,
    pub seq: u32,
    pub seq_w: u8,
    /// encoded argument
    pub arg: Vec<u8>,
    pub start: u64,
    pub end: Option<u64>,
    /// encoded reply
    pub reply: Vec<u8>,
    pub reply_ok: Option<bool>,
    pub nonce: u32,
    /// order in which the dispatcher got to it (spawned handlers: when spawned)
    pub spawned: bool,
}

#[derive(Default)]
pub struct DevSt {
    pub invs: Vec<Inv>,
    pub nonce: u32,
    /// handlers that are not spawned and currently running
    pub inline_running: usize,
    pub max_inline: usize,
    pub max_spawned: usize,
    pub spawned_running: usize,
    /// chance in 8 that an async/spawned handler takes time
    pub slow: u32,
    pub slow_ms: u64,
    /// one handler takes so long
    pub nap: u64,
    /// the async handler publishes this many messages of OutA while it runs
    pub chatter: u32,
    pub published: Vec<u32>,
    /// spawned handlers never finish while set
    pub hold_spawned: bool,
}

#[derive(Clone)]
pub struct Ctx {
    pub st: Sh<DevSt>,
}
impl Ctx {
    pub fn new() -> Self {
        Ctx { st: sh(DevSt::default()) }
    }
}
impl SpawnContext for Ctx {
    type SpawnCtxt = Ctx;
    fn spawn_ctxt(&mut self) -> Ctx {
        self.clone()
    }
}

pub fn seq_parts(s: VarSeq) -> (u32, u8) {
    match s {
        VarSeq::Seq1(v) => (v as u32, 1),
        VarSeq::Seq2(v) => (v as u32, 2),
        VarSeq::Seq4(v) => (v, 4),
    }
}

fn begin(c: &Ctx, ep: Option<Ep>, tp: Option<Tp>, hdr: &VarHeader, arg: Vec<u8>, spawned: bool) -> usize {
    let (seq, seq_w) = seq_parts(hdr.seq_no);
    let mut s = c.st.borrow_mut();
    if spawned {
        s.spawned_running += 1;
        s.max_spawned = s.max_spawned.max(s.spawned_running);
    } else {
        s.inline_running += 1;
        s.max_inline = s.max_inline.max(s.inline_running);
    }
    s.nonce += 1;
    let nonce = s.nonce;
    let start = kernel::clock();
    ev("inv", ep.map(|e| e as u64).unwrap_or(100 + tp.map(|t| t as u64).unwrap_or(0)), seq as u64, start);
    s.invs.push(Inv {
        ep,
        tp,
        seq,
        seq_w,
        arg,
        start,
        end: None,
        reply: vec![],
        reply_ok: None,
        nonce,
        spawned,
    });
    s.invs.len() - 1
}
fn end(c: &Ctx, i: usize, reply: Vec<u8>) {
    let mut s = c.st.borrow_mut();
    if s.invs[i].spawned {
        s.spawned_running -= 1;
    } else {
        s.inline_running -= 1;
    }
    s.invs[i].end = Some(kernel::clock());
    s.invs[i].reply = reply;
}
async fn work(c: &Ctx) {
    let nap = c.st.borrow().nap;
    if nap > 0 && chance(F, 1, 3) {
        c.st.borrow_mut().nap = 0;
        fault("very_slow_handler");
        sleep(nap).await;
    }
    let (slow, ms) = {
        let s = c.st.borrow();
        (s.slow, s.slow_ms)
    };
    if slow > 0 && chance(F, slow, 8) {
        fault("slow_handler");
        sleep(choose(F, ms as usize + 1) as u64).await;
    }
}

pub fn enc<T: serde::Serialize + ?Sized>(t: &T) -> Vec<u8> {
    postcard::to_stdvec(t).unwrap()
}

/// What every Req -> Rsp handler answers
pub fn answer(ep: Ep, r: &Req, nonce: u32) -> Rsp {
    let mut data = r.data.clone();
    data.reverse();
    let tag = if r.id % 3 == 0 { Tag::Plain } else { Tag::Nested(Inner { a: ep as u16, b: (r.id % 2 == 0).then_some(7) }) };
    Rsp { id: r.id ^ ((ep as u32) << 24), nonce, tag, data }
}
pub fn blob(n: u32) -> Blob {
    (0..n).map(|i| (i.wrapping_mul(31) ^ n) as u8).collect()
}
pub fn inc(v: u64) -> u64 {
    v.wrapping_mul(3).wrapping_add(1)
}

fn h_reqrsp(c: &mut Ctx, ep: Ep, hdr: VarHeader, r: Req) -> Rsp {
    let i = begin(c, Some(ep), None, &hdr, enc(&r), false);
    let n = c.st.borrow().invs[i].nonce;
    let a = answer(ep, &r, n);
    end(c, i, enc(&a));
    a
}
async fn ha_reqrsp(c: &mut Ctx, ep: Ep, hdr: VarHeader, r: Req) -> Rsp {
    let i = begin(c, Some(ep), None, &hdr, enc(&r), false);
    work(c).await;
    let n = c.st.borrow().invs[i].nonce;
    let a = answer(ep, &r, n);
    end(c, i, enc(&a));
    a
}
async fn hs_reqrsp<E: Endpoint<Response = Rsp>>(c: Ctx, ep: Ep, hdr: VarHeader, r: Req, tx: Sender<AnyTx>) {
    let i = begin(&c, Some(ep), None, &hdr, enc(&r), true);
    work(&c).await;
    while c.st.borrow().hold_spawned {
        sleep(5).await;
    }
    let n = c.st.borrow().invs[i].nonce;
    let a = answer(ep, &r, n);
    end(&c, i, enc(&a));
    let ok = tx.reply::<E>(hdr.seq_no, &a).await.is_ok();
    c.st.borrow_mut().invs[i].reply_ok = Some(ok);
}

fn echo_a(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    h_reqrsp(c, Ep::EchoA, h, r)
}
fn echo_b(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    h_reqrsp(c, Ep::EchoB, h, r)
}
fn x2(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    h_reqrsp(c, Ep::X2, h, r)
}
fn x4(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    h_reqrsp(c, Ep::X4, h, r)
}
fn x8(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    h_reqrsp(c, Ep::X8, h, r)
}
fn e1(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    h_reqrsp(c, Ep::E1, h, r)
}
fn richly(_: &mut Ctx, _: VarHeader, r: Rich) -> RichOut {
    RichOut { arr: [1; 4], k: Some(r.k), last: r.w.0 }
}
fn primly(_: &mut Ctx, _: VarHeader, r: (Prims, Prims)) -> PrimsOut {
    PrimsOut { some: Some(r.0), same: vec![r.1], fe: None, again: None }
}
fn q1(_: &mut Ctx, _: VarHeader, _: i8) -> i16 {
    Default::default()
}
fn q2(_: &mut Ctx, _: VarHeader, _: i32) -> i64 {
    Default::default()
}
fn q3(_: &mut Ctx, _: VarHeader, _: i128) -> u128 {
    Default::default()
}
fn q4(_: &mut Ctx, _: VarHeader, _: u16) -> f32 {
    Default::default()
}
fn q5(_: &mut Ctx, _: VarHeader, _: f64) -> char {
    Default::default()
}
fn q6(_: &mut Ctx, _: VarHeader, _: String) -> Blob {
    Default::default()
}
fn q7(_: &mut Ctx, _: VarHeader, _: u64) -> AnySchema {
    <u8 as postcard_schema::Schema>::SCHEMA.into()
}
fn alike_a(_: &mut Ctx, _: VarHeader, _: AlikeA) -> u8 {
    1
}
fn alike_b(_: &mut Ctx, _: VarHeader, r: OptB) -> OptB {
    r
}
async fn async_a(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    ha_reqrsp(c, Ep::AsyncA, h, r).await
}
async fn async_b(c: &mut Ctx, h: VarHeader, r: Req) -> Rsp {
    ha_reqrsp(c, Ep::AsyncB, h, r).await
}
async fn spawn_a(c: Ctx, h: VarHeader, r: Req, tx: Sender<AnyTx>) {
    hs_reqrsp::<SpawnA>(c, Ep::SpawnA, h, r, tx).await
}
async fn spawn_b(c: Ctx, h: VarHeader, r: Req, tx: Sender<AnyTx>) {
    hs_reqrsp::<SpawnB>(c, Ep::SpawnB, h, r, tx).await
}
fn big(c: &mut Ctx, h: VarHeader, n: u32) -> Blob {
    let i = begin(c, Some(Ep::Big), None, &h, enc(&n), false);
    let b = blob(n % 100_000);
    end(c, i, enc(&b));
    b
}
async fn biga(c: &mut Ctx, h: VarHeader, n: u32) -> Blob {
    let i = begin(c, Some(Ep::BigA), None, &h, enc(&n), false);
    work(c).await;
    let b = blob(n % 100_000);
    end(c, i, enc(&b));
    b
}
fn inc_h(c: &mut Ctx, h: VarHeader, v: u64) -> u64 {
    let i = begin(c, Some(Ep::Inc), None, &h, enc(&v), false);
    let r = inc(v);
    end(c, i, enc(&r));
    r
}
fn nop(c: &mut Ctx, h: VarHeader, _: ()) {
    let i = begin(c, Some(Ep::Nop), None, &h, vec![], false);
    end(c, i, vec![]);
}
fn strict(c: &mut Ctx, h: VarHeader, b: bool) -> u8 {
    let i = begin(c, Some(Ep::Strict), None, &h, enc(&b), false);
    let r = if b { 77 } else { 33 };
    end(c, i, enc(&r));
    r
}
fn t_blk(c: &mut Ctx, h: VarHeader, m: Msg, _tx: &Sender<AnyTx>) {
    let i = begin(c, None, Some(Tp::Blk), &h, enc(&m), false);
    end(c, i, vec![]);
}
async fn t_async(c: &mut Ctx, h: VarHeader, m: Msg, _tx: &Sender<AnyTx>) {
    let i = begin(c, None, Some(Tp::Async), &h, enc(&m), false);
    work(c).await;
    end(c, i, vec![]);
}
async fn t_spawn(c: Ctx, h: VarHeader, m: Msg, _tx: Sender<AnyTx>) {
    let i = begin(&c, None, Some(Tp::Spawn), &h, enc(&m), true);
    work(&c).await;
    end(&c, i, vec![]);
}
fn t_flag(c: &mut Ctx, h: VarHeader, m: bool, _tx: &Sender<AnyTx>) {
    let i = begin(c, None, Some(Tp::Flag), &h, enc(&m), false);
    end(c, i, vec![]);
}

// ------------------------------------------------------------------ variants

macro_rules! variant {
    ($m:ident; [$($xe:tt)*] [$($xt:tt)*] [$($xd:tt)*]) => {
        pub mod $m {
            use super::*;
            pub mod l {
                use super::*;
                endpoints! {
                    list = EPS;
                    | EndpointTy | RequestTy | ResponseTy | Path         |
                    | ---------- | --------- | ---------- | ----         |
                    | LEchoA     | Req       | Rsp        | "s1/echo_a"  |
                    | LEchoB     | Req       | Rsp        | "s1/echo_b"  |
                    | LAsyncA    | Req       | Rsp        | "s1/async_a" |
                    | LAsyncB    | Req       | Rsp        | "s1/async_b" |
                    | LSpawnA    | Req       | Rsp        | "s1/spawn_a" |
                    | LSpawnB    | Req       | Rsp        | "s1/spawn_b" |
                    | LBig       | u32       | Blob       | "s1/big"     |
                    | LBigA      | u32       | Blob       | "s1/biga"    |
                    | LInc       | u64       | u64        | "s1/inc"     |
                    | LNop       | ()        | ()         | "s1/nop"     |
                    | LStrict    | bool      | u8         | "s1/strict"  |
                    $($xe)*
                }
                topics! {
                    list = TOUT;
                    direction = TopicDirection::ToClient;
                    | TopicTy | MessageTy | Path       |
                    | ------- | --------- | ----       |
                    | LOutA   | Msg       | "s1/out_a" |
                    | LOutB   | Msg       | "s1/out_b" |
                    | LOutN   | u32       | "s1/out_n" |
                    | LOutU   | ()        | "s1/out_u" |
                    $($xt)*
                }
            }
            define_dispatch! {
                app: App;
                spawn_fn: sim_spawn;
                tx_impl: AnyTx;
                spawn_impl: SimSpawner;
                context: Ctx;
                endpoints: {
                    list: l::EPS;
                    | EndpointTy | kind     | handler |
                    | ---------- | ----     | ------- |
                    | EchoA      | blocking | echo_a  |
                    | EchoB      | blocking | echo_b  |
                    | AsyncA     | async    | async_a |
                    | AsyncB     | async    | async_b |
                    | SpawnA     | spawn    | spawn_a |
                    | SpawnB     | spawn    | spawn_b |
                    | Big        | blocking | big     |
                    | BigA       | async    | biga    |
                    | Inc        | blocking | inc_h   |
                    | Nop        | blocking | nop     |
                    | Strict     | blocking | strict  |
                    $($xd)*
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind     | handler |
                    | ------- | ----     | ------- |
                    | TBlk    | blocking | t_blk   |
                    | TAsync  | async    | t_async |
                    | TSpawn  | spawn    | t_spawn |
                    | TFlag   | blocking | t_flag  |
                };
                topics_out: {
                    list: l::TOUT;
                };
            }
        }
    };
}

variant!(v1; [] [] []);
variant!(v2; [| LX2 | Req | Rsp | "x2/23" |] [] [| X2 | blocking | x2 |]);
variant!(v2o; [] [| LO2 | Msg | "o2/149" |] []);
variant!(v4; [| LX4 | Req | Rsp | "x4/37686" |] [] [| X4 | blocking | x4 |]);
variant!(v4o; [] [| LO4 | Msg | "o4/72355" |] []);
variant!(v8; [| LX8 | Req | Rsp | "x8/632102961" |] [] [| X8 | blocking | x8 |]);
variant!(vr; [| LRichly | Rich | RichOut | "r/rich" |] [| LNews | Kinds | "r/news" |] [| Richly | blocking | richly |]);
variant!(vp; [| LPrims | (Prims, Prims) | PrimsOut | "r/prims" |] [] [| Primly | blocking | primly |]);
variant!(vq; [| LQ1 | i8 | i16 | "q/1" | | LQ2 | i32 | i64 | "q/2" | | LQ3 | i128 | u128 | "q/3" | | LQ4 | u16 | f32 | "q/4" | | LQ5 | f64 | char | "q/5" | | LQ6 | String | Blob | "q/6" | | LQ7 | u64 | AnySchema | "q/7" |] [] [| Q1 | blocking | q1 | | Q2 | blocking | q2 | | Q3 | blocking | q3 | | Q4 | blocking | q4 | | Q5 | blocking | q5 | | Q6 | blocking | q6 | | Q7 | blocking | q7 |]);
variant!(va; [| LAlikeA | AlikeA | u8 | "r/alike_a" |] [] [| LookA | blocking | alike_a |]);
variant!(vb; [| LAlikeB | OptB | OptB | "r/alike_b" |] [] [| LookB | blocking | alike_b |]);
variant!(vh;
    [| LRichly | Rich | RichOut | "r/rich" |
     | LPrims | (Prims, Prims) | PrimsOut | "r/prims" |
     | LAlikeA | AlikeA | u8 | "r/alike_a" |
     | LAlikeB | OptB | OptB | "r/alike_b" |]
    [| LNews | Kinds | "r/news" |]
    [| Richly | blocking | richly | | Primly | blocking | primly | | LookA | blocking | alike_a | | LookB | blocking | alike_b |]);
variant!(ve; [| LE1 | Req | Rsp | "e1/24" |] [] [| E1 | blocking | e1 |]);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Var {
    V1,
    V2,
    V2o,
    V4,
    V4o,
    V8,
    Ve,
    /// only for schema discovery: all kinds of types
    Vr,
    Vp,
    /// every primitive type as a message of its own
    Vq,
    /// types of the same name that differ in something small
    Va,
    Vb,
    /// all of them: more messages than the client can have waiting
    Vh,
}
pub const VARS: [Var; 7] = [Var::V1, Var::V2, Var::V2o, Var::V4, Var::V4o, Var::V8, Var::Ve];

pub fn kw_of(k: VarKeyKind) -> KW {
    match k {
        VarKeyKind::Key1 => K1,
        VarKeyKind::Key2 => K2,
        VarKeyKind::Key4 => K4,
        VarKeyKind::Key8 => K8,
    }
}
pub fn kk_of(k: KW) -> VarKeyKind {
    match k {
        K1 => VarKeyKind::Key1,
        K2 => VarKeyKind::Key2,
        K4 => VarKeyKind::Key4,
        K8 => VarKeyKind::Key8,
    }
}

#[derive(Clone, Copy, Debug)]
pub enum SrvEnd {
    Tx(WireTxErrorKind),
    Rx(WireRxErrorKind),
}

pub trait Srv {
    fn run<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = SrvEnd> + 'a>>;
    fn sender(&self) -> Sender<AnyTx>;
}

impl<D: Dispatch<Tx = AnyTx> + 'static> Srv for Server<AnyTx, AnyRx, Box<[u8]>, D> {
    fn run<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = SrvEnd> + 'a>> {
        Box::pin(async move {
            match Server::run(self).await {
                ServerError::TxFatal(k) => SrvEnd::Tx(k),
                ServerError::RxFatal(k) => SrvEnd::Rx(k),
            }
        })
    }
    fn sender(&self) -> Sender<AnyTx> {
        Server::sender(self)
    }
}

pub struct Dev {
    pub srv: Box<dyn Srv>,
    pub kw: KW,
}

/// Build a server of the given variant
pub fn make_server(v: Var, tx: AnyTx, rx: AnyRx, buf: usize, ctx: &Ctx, sp: &SimSpawner) -> Dev {
    macro_rules! go {
        ($m:ident) => {{
            let app = $m::App::new(ctx.clone(), sp.clone());
            let kk = app.min_key_len();
            let srv = Server::new(tx, rx, vec![0u8; buf].into_boxed_slice(), app, kk);
            Dev { srv: Box::new(srv), kw: kw_of(kk) }
        }};
    }
    match v {
        Var::V1 => go!(v1),
        Var::V2 => go!(v2),
        Var::V2o => go!(v2o),
        Var::V4 => go!(v4),
        Var::V4o => go!(v4o),
        Var::V8 => go!(v8),
        Var::Ve => go!(ve),
        Var::Vr => go!(vr),
        Var::Vp => go!(vp),
        Var::Vq => go!(vq),
        Var::Va => go!(va),
        Var::Vb => go!(vb),
        Var::Vh => go!(vh),
    }
}

// ------------------------------------------------------------------ client calls

/// A request of any endpoint
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Req(Req),
    N(u32),
    L(u64),
    U,
    B(bool),
}
impl Arg {
    pub fn enc(&self) -> Vec<u8> {
        match self {
            Arg::Req(r) => enc(r),
            Arg::N(n) => enc(n),
            Arg::L(n) => enc(n),
            Arg::U => vec![],
            Arg::B(b) => enc(b),
        }
    }
}

/// The outcome of a call, with the answer re-encoded
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Vec<u8>),
    Wire(WErr),
    BadResponse,
    Postcard,
    Closed,
}
#[derive(Clone, Debug, PartialEq)]
pub enum WErr {
    TooLong(u32, u32),
    TooShort(u32),
    Deser,
    Ser,
    Unknown,
    Spawn,
    KeyTooSmall,
}
impl From<&WireError> for WErr {
    fn from(e: &WireError) -> Self {
        match e {
            WireError::FrameTooLong(f) => WErr::TooLong(f.len, f.max),
            WireError::FrameTooShort(f) => WErr::TooShort(f.len),
            WireError::DeserFailed => WErr::Deser,
            WireError::SerFailed => WErr::Ser,
            WireError::UnknownKey => WErr::Unknown,
            WireError::FailedToSpawn => WErr::Spawn,
            WireError::KeyTooSmall => WErr::KeyTooSmall,
        }
    }
}
/// Encoded error, from the documented order of the variants
pub fn enc_err(e: &WErr) -> Vec<u8> {
    use crate::codec::varint;
    match e {
        WErr::TooLong(a, b) => [vec![0], varint(*a as u64), varint(*b as u64)].concat(),
        WErr::TooShort(a) => [vec![1], varint(*a as u64)].concat(),
        WErr::Deser => vec![2],
        WErr::Ser => vec![3],
        WErr::Unknown => vec![4],
        WErr::Spawn => vec![5],
        WErr::KeyTooSmall => vec![6],
    }
}

fn res<T: serde::Serialize>(r: Result<T, HostErr<WireError>>) -> Res {
    match r {
        Ok(t) => Res::Ok(enc(&t)),
        Err(HostErr::Wire(e)) => Res::Wire((&e).into()),
        Err(HostErr::BadResponse) => Res::BadResponse,
        Err(HostErr::Postcard(_)) => Res::Postcard,
        Err(HostErr::Closed) => Res::Closed,
    }
}

pub async fn call(c: &Client, ep: Ep, a: &Arg) -> Res {
    macro_rules! go {
        ($e:ty, $a:expr) => {
            res(c.send_resp::<$e>($a).await)
        };
    }
    match (ep, a) {
        (Ep::EchoA, Arg::Req(r)) => go!(EchoA, r),
        (Ep::EchoB, Arg::Req(r)) => go!(EchoB, r),
        (Ep::AsyncA, Arg::Req(r)) => go!(AsyncA, r),
        (Ep::AsyncB, Arg::Req(r)) => go!(AsyncB, r),
        (Ep::SpawnA, Arg::Req(r)) => go!(SpawnA, r),
        (Ep::SpawnB, Arg::Req(r)) => go!(SpawnB, r),
        (Ep::X2, Arg::Req(r)) => go!(X2, r),
        (Ep::X4, Arg::Req(r)) => go!(X4, r),
        (Ep::X8, Arg::Req(r)) => go!(X8, r),
        (Ep::E1, Arg::Req(r)) => go!(E1, r),
        (Ep::Big, Arg::N(n)) => go!(Big, n),
        (Ep::BigA, Arg::N(n)) => go!(BigA, n),
        (Ep::Ping, Arg::N(n)) => go!(PingEndpoint, n),
        (Ep::Inc, Arg::L(n)) => go!(Inc, n),
        (Ep::Nop, Arg::U) => go!(Nop, &()),
        (Ep::Strict, Arg::B(b)) => go!(Strict, b),
        _ => panic!("harness: bad argument for {ep:?}"),
    }
}

/// A random argument carrying `id` where the type allows it
/// A number all over the range, from a small id and back
pub fn wide(id: u32) -> u32 {
    let v = id.wrapping_mul(0x9E37_79B1);
    if id % 3 == 0 || v < 1 << 20 {
        id
    } else {
        v
    }
}
pub fn unwide(v: u32) -> u32 {
    if v < 1 << 20 {
        return v;
    }
    // inverse of the odd factor modulo 2^32
    let (a, mut x) = (0x9E37_79B1u32, 1u32);
    for _ in 0..5 {
        x = x.wrapping_mul(2u32.wrapping_sub(a.wrapping_mul(x)));
    }
    v.wrapping_mul(x)
}

pub fn gen_arg(ep: Ep, id: u32, max_data: usize) -> Arg {
    use crate::kernel::{bytes, W};
    match ep {
        Ep::Big | Ep::BigA => Arg::N(choose(W, max_data + 1) as u32),
        Ep::Ping => Arg::N(wide(id)),
        Ep::Inc => Arg::L(((wide(id) as u64) << 40) | ((id as u64) << 20) | 0xabc),
        Ep::Nop => Arg::U,
        Ep::Strict => Arg::B(choose(W, 2) == 1),
        _ => {
            let n = choose(W, max_data + 1);
            Arg::Req(Req { id, data: bytes(W, n) })
        }
    }
}

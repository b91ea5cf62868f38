//! Small devices in which one pair of keys forces wider keys (paths found with
//! examples/findpairs.rs): whatever width the dispatcher chooses, everything
//! has to reach the right handler, call and subscription.

use super::full::{settle, vs};
use super::host::{BOUND, PATIENCE};
use crate::check;
use crate::codec::{self, *};
use crate::icd::{enc, Client};
use crate::kernel::{self, *};
use crate::runner::MainFut;
use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeqKind};
use postcard_rpc::host_client::test_channels::new_from_channels;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::server::impls::test_channels::dispatch_impl::{new_server, spawn_fn, Settings, WireSpawnImpl, WireTxImpl};
use postcard_rpc::server::impls::test_channels::{ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
use postcard_rpc::server::{Dispatch, Sender};
use postcard_rpc::standard_icd::{LoggingTopic, PingEndpoint, WireError, ERROR_KEY};
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
type Res = Result<u64, HostErr<WireError>>;

#[derive(Default)]
pub struct PSt {
    runs: Vec<(usize, u32)>,
    topics: Vec<(usize, u16)>,
}
pub struct PCtx(Arc<Mutex<PSt>>);

fn reply(i: usize, v: u32) -> u64 {
    (i as u64 + 1) << 32 | v as u64
}
fn run(c: &mut PCtx, i: usize, v: u32) -> u64 {
    c.0.lock().unwrap().runs.push((i, v));
    reply(i, v)
}
fn e0(c: &mut PCtx, _: VarHeader, v: u32) -> u64 {
    run(c, 0, v)
}
async fn e1(c: &mut PCtx, _: VarHeader, v: u32) -> u64 {
    tokio::task::yield_now().await;
    run(c, 1, v)
}
fn e2(c: &mut PCtx, _: VarHeader, v: u32) -> u64 {
    run(c, 2, v)
}
fn t0(c: &mut PCtx, _: VarHeader, v: u16, _: &Sender<WireTxImpl>) {
    c.0.lock().unwrap().topics.push((0, v));
}
async fn t1(c: &mut PCtx, _: VarHeader, v: u16, _: &Sender<WireTxImpl>) {
    c.0.lock().unwrap().topics.push((1, v));
}
fn t2(c: &mut PCtx, _: VarHeader, v: u16, _: &Sender<WireTxImpl>) {
    c.0.lock().unwrap().topics.push((2, v));
}

/// What the scenario needs to know about a device
pub struct Dev {
    name: &'static str,
    eps: Vec<([u8; 8], [u8; 8])>,
    call: fn(usize, &Client, u32) -> Fut<'_, Res>,
    tins: Vec<[u8; 8]>,
    publish: fn(usize, &Client, u32, u16) -> Fut<'_, bool>,
    touts: Vec<[u8; 8]>,
    announce: fn(usize, &Sender<WireTxImpl>, u32, u16) -> Fut<'_, bool>,
    listen: fn(usize, &Client, Sh<Vec<(usize, u16)>>) -> Fut<'_, bool>,
    start: fn(PCtx, ChannelWireTx, ChannelWireRx) -> (Sender<WireTxImpl>, VarKeyKind),
}

macro_rules! dev {
    ($m:ident; $($e:ident $ei:literal $ek:ident $eh:ident $ep:literal,)*; $($t:ident $ti:literal $tk:ident $th:ident $tp:literal,)*; $($o:ident $oi:literal $op:literal,)*) => {
        mod $m {
            use super::*;
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                $(| $e | u32 | u64 | $ep |)*
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $t | u16 | $tp |)*
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $o | u16 | $op |)*
            }
            define_dispatch! {
                app: App;
                spawn_fn: spawn_fn;
                tx_impl: WireTxImpl;
                spawn_impl: WireSpawnImpl;
                context: PCtx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                    $(| $e | $ek | $eh |)*
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                    $(| $t | $tk | $th |)*
                };
                topics_out: {
                    list: TOUT;
                };
            }
            #[allow(unused)]
            pub fn dev() -> Dev {
                Dev {
                    name: stringify!($m),
                    eps: vec![$(($e::REQ_KEY.to_bytes(), $e::RESP_KEY.to_bytes())),*],
                    call: |i, cl, v| Box::pin(async move { match i { $($ei => cl.send_resp::<$e>(&v).await,)* _ => unreachable!() } }),
                    tins: vec![$($t::TOPIC_KEY.to_bytes()),*],
                    publish: |i, cl, s, v| Box::pin(async move { match i { $($ti => cl.publish::<$t>(vs(S4, s), &v).await.is_ok(),)* _ => unreachable!() } }),
                    touts: vec![$($o::TOPIC_KEY.to_bytes()),*],
                    announce: |i, snd, s, v| Box::pin(async move { match i { $($oi => snd.publish::<$o>(vs(S4, s), &v).await.is_ok(),)* _ => unreachable!() } }),
                    listen: |i, cl, h| Box::pin(async move { match i { $($oi => {
                        let Ok(mut s) = cl.subscribe_multi::<$o>(256).await else { return false };
                        kernel::spawn("sub", async move {
                            while let Ok(m) = s.recv().await {
                                h.borrow_mut().push((i, m));
                            }
                        });
                        true
                    })* _ => unreachable!() } }),
                    start: |c, tx, rx| {
                        let app = App::new(c, ChannelWireSpawn);
                        let kkind = app.min_key_len();
                        let mut srv = new_server(app, Settings { tx, rx, buf: 256, kkind });
                        let snd = srv.sender();
                        kernel::spawn("server", async move {
                            let _ = srv.run().await;
                            std::future::pending::<()>().await;
                        });
                        (snd, kkind)
                    },
                }
            }
        }
    };
}

dev!(p1; E0 0 blocking e0 "p1e0/0", E1 1 async e1 "p1e1/86",;;);
dev!(p2; E0 0 blocking e0 "p2e0/0", E1 1 async e1 "p2e1/0", E2 2 blocking e2 "p2e2/56725",;;);
dev!(p3; E0 0 blocking e0 "p3e0/0",; T0 0 blocking t0 "p3t1/67",;);
dev!(p4; E0 0 blocking e0 "p4e0/0",; T0 0 blocking t0 "p4t1/68634", T1 1 async t1 "p4t2/34547",;);
dev!(p5; E0 0 blocking e0 "p5e0/0", E1 1 async e1 "p5e1/0",; T0 0 blocking t0 "p5t2/0", T1 1 async t1 "p5t3/38954",;);
dev!(p6; E0 0 blocking e0 "p6e0/0", E1 1 async e1 "p6e1/89",;;);
dev!(p7; E0 0 blocking e0 "p7e0/0",;; O0 0 "p7o1/51049",);
dev!(p8; E0 0 blocking e0 "p8e0/0",;; O0 0 "p8o1/0", O1 1 "p8o2/636",);
dev!(p9; E0 0 blocking e0 "p9e0/9293", E1 1 async e1 "p9e1/0", E2 2 blocking e2 "p9e2/24055",;;);
dev!(pa; E0 0 blocking e0 "pae0/0",;; O0 0 "pao1/53",);
dev!(pb; E0 0 blocking e0 "pbe0/0",; T0 0 blocking t0 "pbt1/0", T1 1 async t1 "pbt2/0", T2 2 blocking t2 "pbt3/105",;);
dev!(pc; E0 0 blocking e0 "pce0/282",;;);
dev!(pd; E0 0 blocking e0 "pde0/0",;; O0 0 "pdo1/776",);
dev!(pe; E0 0 blocking e0 "pee0/0",; T0 0 blocking t0 "pet1/23026",;);
dev!(pf; E0 0 blocking e0 "pfe0/0", E1 1 async e1 "pfe1/134675",;; O0 0 "pfo2/145592",);
dev!(pg; E0 0 blocking e0 "pge0/0", E1 1 async e1 "pge1/0",; T0 0 blocking t0 "pgt2/0",;);

const DEVS: [fn() -> Dev; 16] =
    [p1::dev, p2::dev, p3::dev, p4::dev, p5::dev, p6::dev, p7::dev, p8::dev, p9::dev, pa::dev, pb::dev, pc::dev, pd::dev, pe::dev, pf::dev, pg::dev];

/// Records, and may hold frames back for a while
async fn pass(tag: &'static str, frames: Sh<Vec<Vec<u8>>>, mut rx: mpsc::Receiver<Vec<u8>>, tx: mpsc::Sender<Vec<u8>>) {
    let slow = [0, 4][choose(F, 2)];
    while let Some(f) = rx.recv().await {
        evb(tag, 0, &f);
        frames.borrow_mut().push(f.clone());
        if slow > 0 && chance(F, slow, 16) {
            fault("slow_channel");
            sleep(choose(F, 5) as u64).await;
        }
        if tx.send(f).await.is_err() {
            return;
        }
    }
}

pub fn pairs() -> MainFut {
    Box::pin(pairs_main())
}

async fn pairs_main() {
    nontrivial();
    let d = pick(W, &DEVS)();
    note(|| format!("device {}", d.name));
    let st = Arc::new(Mutex::new(PSt::default()));
    let depth = || [1usize, 2, 8][choose(W, 3)];
    let (c_tx, r1) = mpsc::channel(depth());
    let (r1t, s_rx) = mpsc::channel(depth());
    let (s_tx, r2) = mpsc::channel(depth());
    let (r2t, c_rx) = mpsc::channel(depth());
    let inject = r1t.clone();
    let (up, down) = (sh(vec![]), sh(vec![]));
    kernel::spawn("relay.up", pass("c2s", up.clone(), r1, r1t));
    kernel::spawn("relay.down", pass("s2c", down.clone(), r2, r2t));
    let (snd, kkind) = (d.start)(PCtx(st.clone()), ChannelWireTx::new(s_tx), ChannelWireRx::new(s_rx));
    let kw = match kkind {
        VarKeyKind::Key1 => K1,
        VarKeyKind::Key2 => K2,
        VarKeyKind::Key4 => K4,
        VarKeyKind::Key8 => K8,
    };
    let cl: Client = new_from_channels(c_tx, c_rx, *pick(W, &[VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4]));
    let heard = sh(Vec::<(usize, u16)>::new());
    for i in 0..d.touts.len() {
        check!((d.listen)(i, &cl, heard.clone()).await, "C11:closed_at_start", "a new client is closed");
    }
    let logs = sh(Vec::<String>::new());
    if let Ok(mut s) = cl.subscribe_multi::<LoggingTopic>(256).await {
        let logs = logs.clone();
        kernel::spawn("logs", async move {
            while let Ok(m) = s.recv().await {
                logs.borrow_mut().push(m);
            }
        });
    }
    let nr = sh(0u32);
    let next = move || {
        *nr.borrow_mut() += 1;
        *nr.borrow()
    };
    let said = sh((Vec::<(usize, u32)>::new(), Vec::<(usize, u16)>::new(), Vec::<(usize, u16)>::new(), Vec::<String>::new()));
    let raws = sh(Vec::<(u32, KW, Option<usize>, u32)>::new());
    let d = std::rc::Rc::new(d);
    let mut tasks = vec![];
    for _ in 0..range(W, 1, 3) {
        let (d, cl, snd, next, said, raws, inject) = (d.clone(), cl.clone(), snd.clone(), next.clone(), said.clone(), raws.clone(), inject.clone());
        tasks.push(kernel::spawn("user", async move {
            for _ in 0..range(W, 2, 8) {
                kernel::idle(2).await;
                let v = next();
                match choose(W, 7) {
                    0 | 1 => {
                        let i = choose(W, d.eps.len());
                        said.borrow_mut().0.push((i, v));
                        match timeout(PATIENCE, (d.call)(i, &cl, v)).await {
                            Some(Ok(r)) => check!(r == reply(i, v), "C11:misrouted", "{}: call {v} of endpoint {i} returned {r:#x}", d.name),
                            r => fail("C11:call_failed", format!("{}: call {v} of endpoint {i} ended with {r:?}", d.name)),
                        }
                    }
                    2 => match timeout(PATIENCE, cl.send_resp::<PingEndpoint>(&v)).await {
                        Some(Ok(r)) if r == v => {}
                        r => fail("C11:misrouted", format!("{}: ping {v} ended with {r:?}", d.name)),
                    },
                    3 if !d.tins.is_empty() => {
                        let i = choose(W, d.tins.len());
                        said.borrow_mut().1.push((i, v as u16));
                        check!((d.publish)(i, &cl, v, v as u16).await, "C11:publish_refused", "publish failed on a working connection");
                    }
                    4 if !d.touts.is_empty() => {
                        let i = choose(W, d.touts.len());
                        said.borrow_mut().2.push((i, v as u16));
                        check!((d.announce)(i, &snd, v, v as u16).await, "C11:send_failed", "a send failed on a working connection");
                    }
                    4 => {
                        let t = format!("log {v}");
                        said.borrow_mut().3.push(t.clone());
                        check!(snd.log_str(&t).await.is_ok(), "C11:send_failed", "a send failed on a working connection");
                    }
                    // an endpoint this device does not have
                    5 => {
                        let r = timeout(PATIENCE, cl.send_resp::<crate::icd::Nop>(&())).await;
                        let (key, _) = crate::icd::Ep::Nop.keys();
                        let alike = d.eps.iter().map(|e| e.0).chain(d.tins.iter().copied()).any(|k| codec::fold(k, kw) == codec::fold(key, kw));
                        if !alike && codec::fold(PingEndpoint::REQ_KEY.to_bytes(), kw) != codec::fold(key, kw) {
                            // (with widths below 8 a foreign key can look like one of its own)
                            check!(matches!(r, Some(Err(HostErr::Wire(WireError::UnknownKey)))), "C11:unknown_key", "{}: a call of an endpoint it lacks ended with {r:?}", d.name);
                        }
                    }
                    // somebody else's client, with keys of any width
                    _ => {
                        let w = *pick(W, &[K1, K2, K4, K8]);
                        let i = choose(W, d.eps.len() + d.tins.len());
                        let f = if i < d.eps.len() {
                            codec::enc(d.eps[i].0, w, S4, 0x5000_0000 + v, &enc(&v))
                        } else {
                            codec::enc(d.tins[i - d.eps.len()], w, S4, 0x5000_0000 + v, &enc(&(v as u16)))
                        };
                        raws.borrow_mut().push((0x5000_0000 + v, w, (i < d.eps.len()).then_some(i), v));
                        if i >= d.eps.len() && (w as usize) >= (kw as usize) {
                            said.borrow_mut().1.push((i - d.eps.len(), v as u16));
                        } else if i < d.eps.len() && (w as usize) >= (kw as usize) {
                            said.borrow_mut().0.push((i, v));
                        }
                        let _ = inject.send(f).await;
                    }
                }
            }
        }));
    }
    let ok = settle(tasks, 6 * PATIENCE).await;
    check!(ok, "C11:hung", "operations did not finish");
    kernel::stop_stalls();
    // a call that comes after everything
    let ok = timeout(BOUND, cl.send_resp::<PingEndpoint>(&7)).await;
    check!(matches!(ok, Some(Ok(7))), "C11:misrouted", "the last ping ended with {ok:?}");
    sleep(50).await;
    let s = st.lock().unwrap();
    let sort = |v: &[(usize, u32)]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    let sort16 = |v: &[(usize, u16)]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    let said = said.borrow();
    check!(sort(&s.runs) == sort(&said.0), "C11:handler_runs", "{}: handlers ran {:?} for {:?}", d.name, s.runs, said.0);
    check!(sort16(&s.topics) == sort16(&said.1), "C11:topic_runs", "{}: topic handlers ran {:?} for {:?}", d.name, s.topics, said.1);
    check!(sort16(&heard.borrow()) == sort16(&said.2), "C11:heard", "{}: heard {:?} of {:?}", d.name, heard.borrow(), said.2);
    let mut a = logs.borrow().clone();
    let mut b = said.3.clone();
    a.sort();
    b.sort();
    check!(a == b, "C11:heard", "{}: logs {a:?} of {b:?}", d.name);
    // outgoing keys: all of one width
    for f in down.borrow().iter() {
        let w = codec::dec(f).map(|(h, _)| h.kw);
        check!(w == Some(kw), "C11:answer_width", "{}: frame {} has a key of another width than {kw:?}", d.name, hex(f));
    }
    for (seq, w, ep, v) in raws.borrow().iter() {
        let ans: Vec<_> = down.borrow().iter().filter_map(|f| codec::dec(f).filter(|(h, _)| h.seq == *seq).map(|(h, b)| (h, b.to_vec()))).collect();
        let short = (*w as usize) < (kw as usize);
        let fine = match ep {
            None => ans.len() == short as usize,
            Some(i) if !short => ans.len() == 1 && ans[0].0.is(d.eps[*i].1) && ans[0].1 == enc(&reply(*i, *v)),
            Some(_) => ans.len() == 1,
        };
        check!(fine, "C11:raw_answer", "{}: raw frame {seq:#x} with a {w:?} key for {ep:?} was answered with {ans:?}", d.name);
        if short {
            check!(ans[0].0.is(ERROR_KEY.to_bytes()), "C11:raw_answer", "{}: a key that is too short was answered with {ans:?}", d.name);
            probe("short_key");
        }
    }
    probe("pair");
}

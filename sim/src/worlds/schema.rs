//! Schema discovery: real client, real servers, schema messages lost,
//! truncated, duplicated, delayed, or not sent at all.

use super::full::*;
use super::host::{BOUND, PATIENCE};
use crate::codec::{self, *};
use crate::icd::*;
use crate::kernel::{self, *};
use crate::link::Act;
use crate::runner::MainFut;
use postcard_rpc::host_client::{HostErr, MultiSubRxError, SchemaError, SchemaReport};
use postcard_rpc::standard_icd::{
    GetAllSchemaDataTopic, GetAllSchemasEndpoint, LoggingTopic, OwnedSchemaData, PingEndpoint, SchemaTotals,
};
use postcard_rpc::{Endpoint, Key, Topic};
use postcard_schema::schema::owned::{OwnedDataModelType as D, OwnedDataModelVariant as V, OwnedNamedType as N};
use postcard_schema::Schema;
use std::collections::{BTreeMap, BTreeSet, HashSet};

// ------------------------------------------------------------------ reference

fn walk(n: &N, out: &mut HashSet<N>) {
    let prim = matches!(
        n.ty,
        D::Bool | D::I8 | D::U8 | D::I16 | D::I32 | D::I64 | D::I128 | D::U16 | D::U32 | D::U64 | D::U128 | D::Usize
            | D::Isize | D::F32 | D::F64 | D::Char | D::String | D::ByteArray | D::Unit | D::Schema
    );
    if !prim {
        out.insert(n.clone());
    }
    match &n.ty {
        D::Option(x) | D::NewtypeStruct(x) | D::Seq(x) => walk(x, out),
        D::Tuple(v) | D::TupleStruct(v) => v.iter().for_each(|x| walk(x, out)),
        D::Map { key, val } => {
            walk(key, out);
            walk(val, out);
        }
        D::Struct(v) => v.iter().for_each(|x| walk(&x.ty, out)),
        D::Enum(v) => {
            for x in v {
                match &x.ty {
                    V::UnitVariant => {}
                    V::NewtypeVariant(x) => walk(x, out),
                    V::TupleVariant(v) => v.iter().for_each(|x| walk(x, out)),
                    V::StructVariant(v) => v.iter().for_each(|x| walk(&x.ty, out)),
                }
            }
        }
        _ => {}
    }
}

struct Want {
    eps: BTreeMap<String, ([u8; 8], [u8; 8])>,
    tin: BTreeMap<String, [u8; 8]>,
    tout: BTreeMap<String, [u8; 8]>,
    types: HashSet<N>,
    prims: HashSet<N>,
}

fn want(v: Var) -> Want {
    let mut w = Want { eps: BTreeMap::new(), tin: BTreeMap::new(), tout: BTreeMap::new(), types: HashSet::new(), prims: HashSet::new() };
    macro_rules! ep {
        ($($e:ty),*) => {$(
            w.eps.insert(<$e as Endpoint>::PATH.to_string(), (<$e as Endpoint>::REQ_KEY.to_bytes(), <$e as Endpoint>::RESP_KEY.to_bytes()));
            walk(&<$e as Endpoint>::Request::SCHEMA.into(), &mut w.types);
            walk(&<$e as Endpoint>::Response::SCHEMA.into(), &mut w.types);
        )*};
    }
    macro_rules! tp {
        ($m:ident: $($e:ty),*) => {$(
            w.$m.insert(<$e as Topic>::PATH.to_string(), <$e as Topic>::TOPIC_KEY.to_bytes());
            walk(&<$e as Topic>::Message::SCHEMA.into(), &mut w.types);
        )*};
    }
    ep!(EchoA, EchoB, AsyncA, AsyncB, SpawnA, SpawnB, Big, BigA, Inc, Nop, Strict, PingEndpoint, GetAllSchemasEndpoint);
    tp!(tin: TBlk, TAsync, TSpawn, TFlag);
    tp!(tout: OutA, OutB, OutN, OutU, LoggingTopic, GetAllSchemaDataTopic);
    match v {
        Var::V1 => {}
        Var::V2 => {
            ep!(X2);
        }
        Var::V2o => {
            tp!(tout: O2);
        }
        Var::V4 => {
            ep!(X4);
        }
        Var::V4o => {
            tp!(tout: O4);
        }
        Var::V8 => {
            ep!(X8);
        }
        Var::Ve => {
            ep!(E1);
        }
        Var::Vr => {
            ep!(Richly);
            tp!(tout: RichNews);
        }
        Var::Vp => {
            ep!(Primly);
        }
        Var::Vq => {
            ep!(Q1, Q2, Q3, Q4, Q5, Q6, Q7);
        }
        Var::Va => {
            ep!(LookA);
        }
        Var::Vb => {
            ep!(LookB);
        }
        Var::Vh => {
            ep!(Richly, Primly, LookA, LookB);
            tp!(tout: RichNews);
        }
    }
    macro_rules! prim {
        ($($t:ty),*) => {$( w.prims.insert(<$t>::SCHEMA.into()); )*};
    }
    prim!(bool, i8, u8, i16, i32, i64, i128, u16, u32, u64, u128, f32, f64, char, String, Vec<u8>, (), N);
    w
}

/// None: exactly what it has to be
fn compare(v: Var, r: &SchemaReport) -> Option<String> {
    let w = want(v);
    let mut eps = BTreeMap::new();
    for e in &r.endpoints {
        if eps.insert(e.path.clone(), (e.req_key.to_bytes(), e.resp_key.to_bytes())).is_some() {
            return Some(format!("endpoint {} is listed twice", e.path));
        }
        for (t, k) in [(&e.req_ty, e.req_key), (&e.resp_ty, e.resp_key)] {
            if Key::for_owned_schema_path(&e.path, t) != k {
                return Some(format!("endpoint {} is listed with the wrong type {t:?}", e.path));
            }
            if !w.types.contains(t) && !w.prims.contains(t) {
                return Some(format!("endpoint {} is listed with a type {t:?} the device does not have", e.path));
            }
        }
    }
    if eps != w.eps {
        return Some(format!("endpoints are {:?} instead of {:?}", eps.keys(), w.eps.keys()));
    }
    for (name, have, want) in [("incoming", &r.topics_in, &w.tin), ("outgoing", &r.topics_out, &w.tout)] {
        let mut m = BTreeMap::new();
        for t in have.iter() {
            if m.insert(t.path.clone(), t.key.to_bytes()).is_some() {
                return Some(format!("{name} topic {} is listed twice", t.path));
            }
            if Key::for_owned_schema_path(&t.path, &t.ty) != t.key {
                return Some(format!("{name} topic {} is listed with the wrong type {:?}", t.path, t.ty));
            }
            if !w.types.contains(&t.ty) && !w.prims.contains(&t.ty) {
                return Some(format!("{name} topic {} is listed with a type the device does not have", t.path));
            }
        }
        if m != *want {
            return Some(format!("{name} topics are {:?} instead of {:?}", m.keys(), want.keys()));
        }
    }
    let names = |s: &mut dyn Iterator<Item = &N>| s.map(|n| n.name.clone()).collect::<BTreeSet<_>>();
    let missing = names(&mut w.types.iter().filter(|t| !r.types.contains(*t)));
    let extra = names(&mut r.types.iter().filter(|t| !w.types.contains(*t) && !w.prims.contains(*t)));
    if !missing.is_empty() || !extra.is_empty() {
        return Some(format!("types missing: {missing:?}, types the device does not have: {extra:?}"));
    }
    None
}

// ------------------------------------------------------------------ scenario

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Right,
    Error(u8),
    Closed,
    Hung,
}

pub fn schema() -> MainFut {
    Box::pin(schema_main())
}

async fn ask(v: Var, cl: &Client, patience: u64) -> Out {
    ev("schema.ask", 0, 0, 0);
    let r = timeout(patience, cl.get_schema_report()).await;
    let o = match r {
        None => Out::Hung,
        Some(Ok(rep)) => {
            if let Some(m) = compare(v, &rep) {
                fail("C12:wrong_report", format!("a schema report was returned, but {m}"));
            }
            kernel::probe("report");
            Out::Right
        }
        Some(Err(SchemaError::Comms(HostErr::Closed))) => Out::Closed,
        Some(Err(SchemaError::Comms(_))) => Out::Error(1),
        Some(Err(SchemaError::LostData)) => {
            kernel::probe("lost_data");
            Out::Error(2)
        }
        Some(Err(SchemaError::InvalidReportData)) => Out::Error(3),
        Some(Err(_)) => Out::Error(4),
    };
    ev("schema.got", match o { Out::Right => 0, Out::Error(n) => n as u64, Out::Closed => 10, Out::Hung => 11 }, 0, 0);
    note(|| format!("schema: {o:?}"));
    o
}

async fn schema_main() {
    let fw = Fw::new(8);
    let v = if chance(W, 5, 8) { *pick(W, &[Var::Vr, Var::Vp, Var::Vq, Var::Va, Var::Vb, Var::Vh]) } else { *pick(W, &VARS) };
    let (_t, _snd, kw) = serve(&fw, v, 512, 3);
    let cl = fw.client();
    nontrivial();
    let is_schema = move |f: &[u8]| codec::dec(f).is_some_and(|(h, _)| h.kw == kw && h.is(GetAllSchemaDataTopic::TOPIC_KEY.to_bytes()));
    // 0: undisturbed, 1: lossy, 2: send errors, 3: slow, 4: end of connection, 5: lossy and several at once, 6: answer lost
    let mode = choose(F, 8);
    let total = {
        let w = want(v);
        w.types.len() + w.eps.len() + w.tin.len() + w.tout.len()
    };
    let clean = mode == 0;
    if clean {
        stop_stalls();
    } else if mode == 3 {
        fw.weather();
        let d = [5, 20, 4_500 / total as u64][choose(F, 3)];
        fw.port.d2h.st().max_delay = d;
    }
    // more messages than the client's queue holds: a busy client may see a loss
    let many = v == Var::Vh;
    check!(total <= 64 || many, "harness:schema_size", "{total} schema messages");
    if mode == 1 || mode == 5 || mode == 7 {
        // lose, truncate or repeat a few chosen messages, or each with some chance
        let one = if choose(F, 2) == 0 { Some(choose(F, total) as u64) } else { None };
        let how = choose(F, 4);
        let mut n = 0u64;
        fw.port.d2h.mangle(move |f| {
            if !is_schema(f) {
                return Act::Pass;
            }
            n += 1;
            let hit = match one {
                Some(k) => n - 1 == k,
                None => chance(F, 1, 16),
            };
            if !hit {
                return Act::Pass;
            }
            match if how == 3 { choose(F, 3) } else { how } {
                0 => Act::Drop,
                1 => {
                    // not complete: at least one byte of the content is missing
                    let h = codec::dec(f).unwrap();
                    let hl = f.len() - h.1.len();
                    let k = hl + choose(F, f.len() - hl);
                    Act::Replace(f[..k].to_vec())
                }
                _ => Act::Dup,
            }
        });
    }
    if mode == 2 {
        let what = choose(F, 3);
        if what == 2 {
            // messages that do not fit cannot be sent
            fw.srv.s().tx_buf = range(F, 20, 200);
            fault("small_tx_buffer");
        } else if what == 0 {
            fw.srv.s().p_tx_other = [1, 4][choose(F, 2)];
        } else {
            use postcard_rpc::server::WireTxErrorKind as T;
            let k = choose(F, total + 1);
            let e = [T::Other, T::Timeout, T::ConnectionClosed][choose(F, 3)];
            let mut s = fw.srv.s();
            for _ in 0..k {
                s.tx_errs.push_back(None);
            }
            s.tx_errs.push_back(Some(e));
        }
    }
    if mode == 6 {
        let key = GetAllSchemasEndpoint::RESP_KEY.to_bytes();
        fw.port.d2h.mangle(move |f| if codec::dec(f).is_some_and(|(h, _)| h.is(key)) { Act::Drop } else { Act::Pass });
    }
    // other users
    let mut tasks = vec![];
    if choose(W, 2) == 1 && mode != 4 && mode != 2 {
        let eps = vec![Ep::EchoA, Ep::AsyncA, Ep::SpawnA, Ep::Ping, Ep::Big, Ep::Nop];
        tasks.push(kernel::spawn("caller", caller(fw.clone(), cl.clone(), range(W, 1, 5), eps, None)));
    }
    let listen = choose(W, 2) == 1 && mode != 4;
    let heard = sh(0usize);
    let bad = sh(0usize);
    if listen {
        if let Ok(mut s) = cl.subscribe_multi::<GetAllSchemaDataTopic>(1024).await {
            let (heard, bad) = (heard.clone(), bad.clone());
            kernel::spawn("listener", async move {
                loop {
                    match s.recv().await {
                        Ok(_) => *heard.borrow_mut() += 1,
                        Err(MultiSubRxError::Lagged(_)) => *bad.borrow_mut() += 1,
                        Err(MultiSubRxError::IoClosed) => break,
                    }
                }
            });
        }
    }
    let n = match mode {
        5 => 2,
        0 | 4 => 1,
        _ => [1, 1, 2][choose(W, 3)],
    };
    let outs = sh(vec![]);
    let asks: Vec<TaskId> = (0..n)
        .map(|i| {
            let (cl, outs, fw) = (cl.clone(), outs.clone(), fw.clone());
            let rounds = if clean { range(W, 1, 2) } else { 1 };
            kernel::spawn(format!("ask{i}"), async move {
                if i > 0 {
                    sleep(choose(F, 30) as u64).await;
                }
                let patience = if mode == 6 || mode == 2 || mode == 4 { 2_000 } else { PATIENCE + 300 * total as u64 };
                for _ in 0..rounds {
                    let o = ask(v, &cl, patience).await;
                    outs.borrow_mut().push(o);
                }
                let _ = &fw;
            })
        })
        .collect();
    if mode == 4 {
        sleep(choose(F, 130) as u64).await;
        let t0 = now_ms();
        match choose(F, 3) {
            0 => cl.close(),
            1 => fw.port.fail_rx(),
            _ => {
                fw.port.fail_tx();
                let cl2 = cl.clone();
                kernel::spawn("poke", async move {
                    call(&cl2, Ep::Nop, &Arg::U).await;
                });
            }
        }
        fault("connection_end");
        stop_stalls();
        let ok = settle(asks, BOUND).await;
        check!(ok && !outs.borrow().contains(&Out::Hung), "C12:hung", "a schema request did not end after the connection had ended ({} ms)", now_ms() - t0);
        let o = timeout(BOUND, cl.get_schema_report()).await;
        check!(matches!(o, Some(Err(SchemaError::Comms(HostErr::Closed)))), "C12:hung", "a schema request on a closed client did not fail in bounded time");
        return;
    }
    let ok = settle(asks, 12 * PATIENCE).await;
    check!(ok, "C12:hung", "schema requests did not end");
    let answered = mode != 6 && mode != 2;
    for o in outs.borrow().iter() {
        match o {
            Out::Right => {
                check!(mode != 6, "C12:report_without_answer", "a report although the final answer was lost");
            }
            Out::Closed => fail("C12:closed", "the request reported a closed connection"),
            Out::Hung => check!(!answered, "C12:hung", "a schema request did not end although it was answered"),
            Out::Error(_) => check!(!clean || many, "C12:error_without_cause", "an undisturbed schema request failed: {o:?}"),
        }
    }
    if mode == 2 {
        // what could not be sent is missing: no report
        let s = fw.srv.s();
        let failed = s.failed.iter().map(|(_, _, f)| f).chain(s.unfit.iter()).any(|f| is_schema(f));
        let both = n > 1;
        check!(!failed || both || !outs.borrow().contains(&Out::Right), "C12:report_with_errors", "a report although sending a schema message had failed");
        // the device says how many it could not send
        let nf = s.failed.iter().map(|(_, _, f)| f).chain(s.unfit.iter()).filter(|f| is_schema(f)).count();
        let tot = s.sent.iter().find_map(|(_, f)| {
            let (h, b) = codec::dec(f)?;
            h.is(GetAllSchemasEndpoint::RESP_KEY.to_bytes()).then(|| postcard::from_bytes::<SchemaTotals>(b).ok())?
        });
        if let (Some(t), false) = (tot, both) {
            check!(t.errors as usize == nf, "C12:error_count", "the device reported {} failed schema messages, {nf} failed", t.errors);
        }
    }
    let ok = settle(tasks, 3 * PATIENCE).await;
    check!(ok, "C12,C02:hung", "callers did not finish");
    if mode != 2 {
        for c in fw.calls.borrow().iter() {
            check!(matches!(c.res, Some(Res::Ok(_))), "C12:disturbed_call", "a call to {:?} ended with {:?} during schema discovery", c.ep, c.res);
        }
    }
    fw.calm();
    fw.srv.s().tx_buf = 4096;
    sleep(1_000).await;
    if listen {
        let arrived = fw.port.s().got.iter().filter(|g| is_schema(&g.frame) && {
            let (_, b) = codec::dec(&g.frame).unwrap();
            postcard::from_bytes::<OwnedSchemaData>(b).is_ok()
        }).count();
        check!(*heard.borrow() == arrived && *bad.borrow() == 0, "C12:disturbed_subscriber", "another subscriber heard {} of {arrived} schema messages", heard.borrow());
    }
    // afterwards it works, also over a link that takes its time
    if chance(F, 1, 2) {
        fault("slow_link");
        fw.port.d2h.st().max_delay = 30;
        fw.port.h2d.st().max_delay = 20;
    }
    let o = ask(v, &cl, PATIENCE).await;
    check!(o == Out::Right || (many && matches!(o, Out::Error(_))), "C12:not_working_after", "after the faults stopped a schema request ended with {o:?}");
    // whatever could not be sent, every request got its final answer (unless that one could not be sent)
    if mode == 2 {
        use postcard_rpc::server::WireTxErrorKind as T;
        let s = fw.srv.s();
        let fin = |f: &&Vec<u8>| codec::dec(f).is_some_and(|(h, _)| h.kw == kw && h.is(GetAllSchemasEndpoint::RESP_KEY.to_bytes()));
        let asked = s.got.iter().filter(|(_, f)| codec::dec(f).is_some_and(|(h, _)| h.is(GetAllSchemasEndpoint::REQ_KEY.to_bytes()))).count();
        let answers = s.sent.iter().map(|x| &x.1).chain(s.failed.iter().map(|x| &x.2)).chain(s.unfit.iter()).filter(fin).count();
        // (a connection that ended may end it early)
        let ended = s.failed.iter().any(|x| !matches!(x.1, T::Other));
        check!(ended || answers >= asked, "C12:no_final_answer", "{asked} requests for the schema, {answers} final answers");
    }
    // and the totals are those of what was sent
    let got = fw.port.s();
    let last = got.got.iter().rev().find_map(|g| {
        let (h, b) = codec::dec(&g.frame)?;
        h.is(GetAllSchemasEndpoint::RESP_KEY.to_bytes()).then(|| postcard::from_bytes::<SchemaTotals>(b).ok())?
    });
    if let Some(t) = last {
        let w = want(v);
        check!(
            t.endpoints_sent as usize == w.eps.len() && t.topics_in_sent as usize == w.tin.len() && t.topics_out_sent as usize == w.tout.len() && t.errors == 0,
            "C12:totals",
            "totals {t:?}"
        );
    }
}

//! The device's USB transports (embassy-usb 0.3 and 0.4) against a simulated
//! controller and a scripted host: slow and stuck hosts, bus resets, many
//! senders, cancelled sends, any buffer sizes.

use crate::check;
use crate::codec::{self, *};
use crate::icd::OutA;
use crate::kernel::{self, *};
use crate::link::RealTx;
use crate::runner::MainFut;
use crate::types::Msg;
use crate::usb::{self, Rd, Usb};
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::{Sender, WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum What {
    /// the frame must look exactly like this (true: sent raw)
    Frame(Vec<u8>, bool),
    /// log message: text, whether it may be cut short
    Log { text: String, cut: bool, broken: bool },
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Ok,
    Other,
    Closed,
    Timeout,
    Cancelled,
}

#[derive(Clone, Debug)]
struct Op {
    what: What,
    c0: u64,
    t0: u64,
    end: Option<(u64, u64, End)>,
    matched: bool,
    calm: bool,
}

struct Tw {
    u: Usb,
    tx: RealTx,
    kw: KW,
    buf: usize,
    ops: Sh<Vec<Op>>,
    /// value, clock before, clock after
    sets: Sh<Vec<(u64, u64, u64)>>,
    ids: Sh<u32>,
    fixed_t: bool,
    max_text: usize,
}
type TW = Rc<Tw>;

fn vk(kw: KW) -> VarKeyKind {
    match kw {
        KW::K1 => VarKeyKind::Key1,
        KW::K2 => VarKeyKind::Key2,
        KW::K4 => VarKeyKind::Key4,
        KW::K8 => VarKeyKind::Key8,
    }
}

fn log_key() -> [u8; 8] {
    LoggingTopic::TOPIC_KEY.to_bytes()
}

/// Any text: mostly ASCII, sometimes wide characters
fn text(id: u32, n: usize) -> String {
    let style = choose(W, 5);
    let mut s = match style {
        4 => format!("{}L{id}:", pick(W, &['é', '中', '😀'])),
        _ => format!("L{id}:"),
    };
    while s.len() < n {
        let c = match style {
            0 | 1 => (b'a' + (s.len() % 26) as u8) as char,
            2 => *pick(W, &['a', 'é', '中', '😀', '\0', '.', '\n']),
            _ => *pick(W, &['é', '中', '😀']),
        };
        s.push(c);
    }
    s
}

struct Pieces<'a>(&'a str, usize, bool);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // in several writes, as real formatting does
        let mut rest = self.0;
        while !rest.is_empty() {
            let mut n = self.1.min(rest.len());
            while !rest.is_char_boundary(n) {
                n += 1;
            }
            f.write_str(&rest[..n])?;
            rest = &rest[n..];
        }
        if self.2 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

fn begin(tw: &TW, what: What, calm: bool) -> usize {
    // with a single millisecond per packet, even an idle link may be too slow
    let calm = calm && tw.sets.borrow().last().map(|s| s.0 >= 2).unwrap_or(true);
    let mut o = tw.ops.borrow_mut();
    o.push(Op { what, c0: kernel::clock(), t0: now_ms(), end: None, matched: false, calm });
    o.len() - 1
}

async fn one_op(tw: &TW, calm: bool) {
    let id = {
        let mut i = tw.ids.borrow_mut();
        *i += 1;
        *i
    };
    let kind = choose(W, if is_prop("C17") { 8 } else { 6 });
    let len = match choose(W, 5) {
        0 => choose(W, 8),
        1 => choose(W, 70),
        4 => (tw.buf + 3).saturating_sub(choose(W, 24)).min(9_100),
        2 => 64 * range(W, 1, 3) - choose(W, 24),
        _ => choose(W, tw.max_text + 1),
    };
    let seq = VarSeq::Seq2(id as u16);
    let give_up = if !calm && chance(F, 1, 8) { Some(choose(F, 6) as u64) } else { None };
    let ix;
    let r: Option<Result<(), WireTxErrorKind>>;
    macro_rules! go {
        ($f:expr) => {
            match give_up {
                None => Some($f.await),
                Some(ms) => {
                    let r = timeout(ms, $f).await;
                    if r.is_none() {
                        fault("send_cancelled");
                    }
                    r
                }
            }
        };
    }
    let snd = Sender::new(tw.tx.clone(), vk(tw.kw));
    match kind {
        0 | 1 => {
            let m = Msg { id, data: bytes(W, len) };
            let f = codec::enc(OutA::TOPIC_KEY.to_bytes(), tw.kw, SW::S2, id & 0xffff, &crate::icd::enc(&m));
            ix = begin(tw, What::Frame(f, false), calm);
            r = go!(snd.publish::<OutA>(seq, &m));
        }
        2 => {
            let key = OutA::TOPIC_KEY;
            let m = Msg { id, data: bytes(W, len) };
            let f = codec::enc(key.to_bytes(), KW::K8, SW::S4, id, &crate::icd::enc(&m));
            ix = begin(tw, What::Frame(f, false), calm);
            r = go!(tw.tx.send(VarHeader { key: VarKey::Key8(key), seq_no: VarSeq::Seq4(id) }, &m));
        }
        3 => {
            let mut f = bytes(W, len);
            for (i, b) in id.to_le_bytes().iter().enumerate() {
                if let Some(x) = f.get_mut(i) {
                    *x = *b;
                }
            }
            // too short to be told apart from others: leave out
            if f.len() < 4 && !f.is_empty() {
                f = id.to_le_bytes().to_vec();
            }
            ix = begin(tw, What::Frame(f.clone(), true), calm);
            r = go!(tw.tx.send_raw(&f));
        }
        4 | 6 => {
            let t = text(id, len);
            ix = begin(tw, What::Log { text: t.clone(), cut: false, broken: false }, calm);
            r = go!(snd.log_str(&t));
        }
        _ => {
            let t = text(id, len);
            let n = *pick(W, &[1usize, 7, 1000]);
            let broken = chance(W, 1, 16);
            ix = begin(tw, What::Log { text: t.clone(), cut: true, broken }, calm);
            r = go!(snd.log_fmt(format_args!("{}", Pieces(&t, n, broken))));
        }
    }
    let e = match r {
        Some(Ok(())) => End::Ok,
        Some(Err(WireTxErrorKind::Timeout)) => End::Timeout,
        Some(Err(WireTxErrorKind::ConnectionClosed)) => End::Closed,
        Some(Err(_)) => End::Other,
        None => End::Cancelled,
    };
    ev("op.end", ix as u64, (e == End::Ok) as u64, (e == End::Cancelled) as u64);
    note(|| format!("op {ix} {:?} -> {e:?}", tw.ops.borrow()[ix].what));
    tw.ops.borrow_mut()[ix].end = Some((kernel::clock(), now_ms(), e));
}

fn make_tx(u: &Usb, buf: usize, v4: bool) -> RealTx {
    if v4 {
        RealTx::U4(usb::init4(u, buf).0)
    } else {
        RealTx::U3(usb::init3(u, buf).0)
    }
}

pub fn tx() -> MainFut {
    Box::pin(tx_main())
}

async fn tx_main() {
    set_busy_limit(64);
    if is_prop("C21") {
        // delays must come from the bus, not from the scheduler
        set_scheduler(choose(S, 2) as u32, 0, 0, 2);
    }
    nontrivial();
    let u = Usb::new();
    u.s().in_cap = range(W, 1, 2);
    let v4 = choose(W, 2) == 1;
    let buf = match choose(W, 5) {
        0 => 1024,
        1 => 64 * range(W, 1, 4),
        2 => range(W, 100, 400),
        3 => range(W, 1, 40),
        _ if chance(W, 1, 100) => range(W, 2_000, 9_000),
        _ => range(W, 1, 700),
    };
    let kw = *pick(W, &[KW::K1, KW::K2, KW::K4, KW::K8]);
    let tx = make_tx(&u, buf, v4);
    note(|| format!("v{} buf {buf} {kw:?}", if v4 { 4 } else { 3 }));
    let tw: TW = Rc::new(Tw {
        u: u.clone(),
        tx: tx.clone(),
        kw,
        buf,
        ops: sh(vec![]),
        sets: sh(vec![]),
        ids: sh(0),
        fixed_t: !v4,
        max_text: *pick(W, &[20usize, 300, 300, 1200]),
    });
    if v4 && chance(W, 2, 3) {
        set_t(&tw).await;
    }
    // the host: takes packets, slowly at times
    let slow = sh([0u64, 0, 1, 3][choose(F, 4)]);
    let stuck = sh(0u64);
    {
        let (u, slow, stuck) = (u.clone(), slow.clone(), stuck.clone());
        kernel::spawn("host", async move {
            loop {
                let d = stuck.borrow().saturating_sub(now_ms());
                if d > 0 {
                    sleep(d).await;
                    continue;
                }
                if u.fetch().await.is_none() {
                    sleep(1).await;
                    continue;
                }
                let d = *slow.borrow();
                if d > 0 && chance(F, 1, 2) {
                    fault("slow_host");
                    sleep(choose(F, d as usize + 1) as u64).await;
                }
            }
        });
    }
    // Hosts that are stuck for minutes. (No more than one task may wait for the
    // endpoint then: several of them keep waking each other.)
    let long = is_prop("C21") && chance(W, 1, 6);
    let mut tasks = vec![];
    for i in 0..range(W, 1, if long { 2 } else { 4 }) {
        let tw = tw.clone();
        let n = kernel::count(1, 8, 300);
        tasks.push(kernel::spawn(format!("sender{i}"), async move {
            for _ in 0..n {
                one_op(&tw, false).await;
                if chance(W, 1, 3) {
                    kernel::idle(4).await;
                }
            }
        }));
    }
    if v4 && !long && chance(W, 1, 3) {
        let tw = tw.clone();
        tasks.push(kernel::spawn("setter", async move {
            for _ in 0..range(W, 1, 3) {
                kernel::idle(9).await;
                set_t(&tw).await;
            }
        }));
    }
    let level = choose(F, 3);
    let ft = {
        let (u, stuck) = (u.clone(), stuck.clone());
        kernel::spawn("faults", async move {
            if level == 0 {
                return;
            }
            for _ in 0..range(F, 1, 4) {
                sleep(choose(F, 8) as u64).await;
                match choose(F, 3) {
                    0 | 1 => {
                        fault("stuck_host");
                        let d = if long { *pick(F, &[3000, 20_000, 300_000]) } else { *pick(F, &[3usize, 10, 60, 1000]) };
                        let d = choose(F, d) as u64;
                        *stuck.borrow_mut() = now_ms() + d;
                        sleep(d).await;
                    }
                    _ => {
                        fault("bus_reset");
                        u.disable();
                        if chance(F, 2, 3) {
                            sleep(choose(F, 20) as u64).await;
                        }
                        u.enable();
                    }
                }
            }
        })
    };
    let worst = 60_000 * 20 * 40;
    for t in tasks {
        let ok = timeout(worst, join(t)).await.is_some();
        check!(ok, "C13,C21:hung", "a send never ended");
        if !ok {
            return;
        }
    }
    join(ft).await;
    // calm: a fast host, one sender
    *slow.borrow_mut() = 0;
    stop_stalls();
    sleep(5).await;
    for _ in 0..range(W, 1, 3) {
        one_op(&tw, true).await;
    }
    sleep(10).await;
    judge(&tw);
}

async fn set_t(tw: &TW) {
    let v = *pick(W, &[0usize, 1, 2, 3, 10, 50, 1000, 60_000, 60_001, usize::MAX]);
    let c0 = kernel::clock();
    if let RealTx::U4(t) = &tw.tx {
        t.set_timeout_ms_per_frame(v).await;
    }
    note(|| format!("timeout set to {v}"));
    let c1 = kernel::clock();
    tw.sets.borrow_mut().push((v.clamp(1, 60_000) as u64, c0, c1));
}

struct Xfer {
    /// clocks of the packets with data, and of the terminator
    c_first: u64,
    c_data: u64,
    c_end: Option<u64>,
    data: Vec<u8>,
}

/// The host's view: everything up to a short packet is one transfer
fn transfers(u: &Usb) -> (Vec<Xfer>, usize) {
    let s = u.s();
    let mut out = vec![];
    let mut empties = 0;
    let mut cur: Option<Xfer> = None;
    for (i, (c, _, p)) in s.in_log.iter().enumerate() {
        if s.reset_at.contains(&i) {
            out.extend(cur.take());
        }
        let x = cur.get_or_insert(Xfer { c_first: *c, c_data: *c, c_end: None, data: vec![] });
        x.data.extend(p);
        if !p.is_empty() {
            x.c_data = *c;
        }
        if p.len() < 64 {
            x.c_end = Some(*c);
            let x = cur.take().unwrap();
            if x.data.is_empty() {
                empties += 1;
            } else {
                out.push(x);
            }
        }
    }
    out.extend(cur);
    (out, empties)
}

/// The text of a log frame
fn log_text(kw: KW, f: &[u8]) -> Option<(u32, Result<String, ()>)> {
    let (h, b) = codec::dec(f)?;
    if !h.is(log_key()) || h.kw != kw {
        return None;
    }
    Some((h.seq, postcard::from_bytes::<String>(b).map_err(|_| ())))
}

fn is_log(kw: KW, f: &[u8]) -> Option<u32> {
    let (h, _) = codec::dec(f)?;
    (h.is(log_key()) && h.kw == kw && h.sw == SW::S2).then_some(h.seq)
}

/// What a formatted message may be as long as: the buffer without header and
/// a length field that can hold any length
fn log_room(kw: KW, buf: usize) -> usize {
    let r = buf.saturating_sub(hdr_len(kw));
    let l = match r {
        0..128 => 1,
        128..16384 => 2,
        16384..2097152 => 3,
        _ => 4,
    };
    r.saturating_sub(l)
}

fn hdr_len(kw: KW) -> usize {
    codec::enc_hdr(log_key(), kw, SW::S2, 0).len()
}

/// Does this whole frame carry what the operation sent?
fn whole(tw: &Tw, o: &Op, f: &[u8]) -> bool {
    match &o.what {
        What::Frame(x, _) => x == f,
        What::Log { text, cut, broken } => match log_text(tw.kw, f) {
            Some((_, Ok(t))) => {
                if t == *text {
                    return true;
                }
                if *broken {
                    return text.starts_with(t.trim_end_matches('.'));
                }
                let room = log_room(tw.kw, tw.buf);
                if !*cut || text.len() <= room {
                    return false;
                }
                match t.strip_suffix("...") {
                    // as much as fits, but for a split character
                    Some(p) => text.starts_with(p) && p.len() + 3 + 3 >= room,
                    // no room for the dots
                    None => room < 3 && text.starts_with(&t),
                }
            }
            _ => false,
        },
    }
}

/// Could this be the beginning of the operation's frame?
fn part(tw: &Tw, o: &Op, f: &[u8]) -> bool {
    if whole(tw, o, f) {
        return true;
    }
    if f.len() % 64 != 0 {
        return false;
    }
    match &o.what {
        What::Frame(x, _) => x.starts_with(f),
        What::Log { .. } => is_log(tw.kw, f).is_some(),
    }
}

fn judge(tw: &TW) {
    let (xs, empties) = transfers(&tw.u);
    let mut ops = tw.ops.borrow_mut();
    for o in ops.iter() {
        if o.end.is_none() {
            fail("C13:no_result", "a send has no result");
            return;
        }
    }
    let end = |o: &Op| o.end.clone().unwrap();
    check!(tw.u.s().max_write <= 64, "C13:packet_too_long", "a packet of {} bytes was given to a 64 byte endpoint", tw.u.s().max_write);

    // ---- results
    for (i, o) in ops.iter().enumerate() {
        let e = end(o).2;
        match &o.what {
            What::Frame(f, raw) => {
                if f.len() <= tw.buf || *raw {
                    check!(e != End::Other, "C13:refused", "op {i}: a frame of {} bytes was refused with a buffer of {}", f.len(), tw.buf);
                    check!(!o.calm || e == End::Ok, "C13,C21:not_sent", "op {i}: {e:?} on an idle link");
                } else {
                    check!(e != End::Ok, "C13:impossible_ok", "op {i}: a frame of {} bytes was sent from a buffer of {}", f.len(), tw.buf);
                }
            }
            What::Log { text, cut, .. } => {
                let h = hdr_len(tw.kw);
                let fits = if *cut { tw.buf > h } else { tw.buf >= h + varint(text.len() as u64).len() + text.len() };
                if fits {
                    check!(e != End::Other, "C17:log_refused", "op {i}: a log message of {} bytes was refused with a buffer of {}", text.len(), tw.buf);
                    check!(!o.calm || e == End::Ok, "C17,C21:log_not_sent", "op {i}: {e:?} on an idle link");
                }
            }
        }
    }

    // ---- the wire
    let mut logs = vec![];
    for (n, x) in xs.iter().enumerate() {
        if let Some(seq) = is_log(tw.kw, &x.data) {
            logs.push(seq as u16);
        }
        // what reported success, earliest end first
        let pick = |ops: &Vec<Op>, f: &dyn Fn(&Op) -> bool| {
            let mut c: Vec<usize> = (0..ops.len()).filter(|i| !ops[*i].matched && f(&ops[*i])).collect();
            c.sort_by_key(|i| end(&ops[*i]).0);
            c.first().copied()
        };
        let ok = pick(&ops, &|o| {
            let (c1, _, e) = end(o);
            e == End::Ok && whole(tw, o, &x.data) && x.c_first > o.c0 && x.c_end.is_some_and(|c| c < c1)
        });
        let ix = ok.or_else(|| {
            pick(&ops, &|o| {
                let (c1, _, e) = end(o);
                let broke = matches!(e, End::Cancelled | End::Timeout | End::Closed);
                broke && part(tw, o, &x.data) && x.c_first > o.c0 && x.c_data < c1
            })
        });
        match ix {
            Some(i) => ops[i].matched = true,
            None => {
                let is_l = is_log(tw.kw, &x.data).is_some();
                let kind = if is_l { "C13,C17,C20:bad_log" } else { "C13,C20:bad_frame" };
                fail(kind, format!("transfer {n} of {} bytes is not the frame of any send (nor the beginning of an interrupted one): {}", x.data.len(), hex(&x.data)));
                if failed() {
                    return;
                }
                continue;
            }
        }
        let broke = ok.is_none();
        if broke {
            probe("interrupted_frame");
        }
        // cut off by a bus reset, or still open at the end
        if x.c_end.is_none() {
            check!(broke, "C13:unterminated", "transfer {n} of a send that reported success was never ended");
        }
    }
    for (i, o) in ops.iter().enumerate() {
        let empty = matches!(&o.what, What::Frame(f, _) if f.is_empty());
        if end(o).2 == End::Ok && !o.matched && !empty {
            let k = if matches!(o.what, What::Log { .. }) { "C13,C17:lost" } else { "C13:lost" };
            fail(k, format!("op {i} reported success but its frame is not on the wire: {:?}", o.what));
        }
    }
    let broke = ops.iter().filter(|o| end(o).2 != End::Ok).count();
    check!(empties <= broke, "C13:empty_frames", "{empties} empty transfers with {broke} failed sends");

    // ---- log numbers
    let log_ops = ops.iter().filter(|o| matches!(o.what, What::Log { .. })).count();
    let log_bad = ops.iter().filter(|o| matches!(o.what, What::Log { .. }) && end(o).2 != End::Ok).count();
    let mut next = 0u16;
    let mut skipped = 0usize;
    for s in &logs {
        let d = s.wrapping_sub(next);
        skipped += d as usize;
        if skipped > log_bad || logs.len() > log_ops {
            fail("C17:log_numbers", format!("log sequence numbers {logs:?} with {log_bad} failed of {log_ops}"));
            break;
        }
        next = s.wrapping_add(1);
    }
    if !logs.is_empty() {
        probe("logs_seen");
    }

    // ---- time
    if !is_prop("C21") {
        return;
    }
    let sets = tw.sets.borrow();
    for (i, o) in ops.iter().enumerate() {
        let (c1, t1, e) = end(o);
        let flen = match &o.what {
            What::Frame(f, _) => (f.len(), f.len()),
            What::Log { text, cut: false, .. } => {
                let n = hdr_len(tw.kw) + varint(text.len() as u64).len() + text.len();
                (n, n)
            }
            // between what a sensible encoding needs and a reserved length field
            What::Log { text, .. } => {
                let a = hdr_len(tw.kw) + 1 + text.len();
                (a.min(tw.buf.saturating_sub(16)), (a + 10).min(tw.buf))
            }
        };
        let pk = |n: usize| n.div_ceil(64) as u64;
        // the values that can have been in force
        let mut ts: Vec<u64> = sets.iter().filter(|s| s.2 > o.c0 && s.1 < c1).map(|s| s.0).collect();
        // of the earlier ones the last, but ones that ran in parallel could have ended in any order
        match sets.iter().filter(|s| s.2 <= o.c0).max_by_key(|s| s.2) {
            Some(l) => ts.extend(sets.iter().filter(|s| s.2 <= o.c0 && s.2 >= l.1).map(|s| s.0)),
            None => ts.push(2),
        }
        let (tmin, tmax) = (*ts.iter().min().unwrap(), *ts.iter().max().unwrap());
        let _ = tw.fixed_t;
        // from when on it can have had the endpoint for itself: others that
        // finished in between had it before
        let others = ops.iter().enumerate().filter(|(j, p)| *j != i && { let q = end(p); q.0 < c1 && q.0 > o.c0 });
        let mut held = o.t0;
        let mut held_latest = o.t0;
        for (_, p) in others {
            let q = end(p);
            held_latest = held_latest.max(q.1);
            let unlocked = matches!(&q.2, End::Cancelled) || matches!(&p.what, What::Frame(f, _) if f.is_empty());
            if !unlocked {
                held = held.max(q.1);
            }
        }
        if e == End::Timeout {
            probe("timed_out");
            let min = tmin * pk(flen.0);
            check!(t1 - held >= min, "C21:early_timeout", "op {i} ({} bytes) timed out {} ms after it could have started sending, allowed {min} ms", flen.0, t1 - held);
        }
        if e != End::Cancelled {
            let max = tmax * pk(flen.1).max(1);
            const SLACK: u64 = 12;
            check!(t1 - held_latest <= max + SLACK, "C21:late", "op {i} ({} bytes) took {} ms after the endpoint was free, allowed {max} ms", flen.1, t1 - held_latest);
        }
    }
}

/// More log messages than there are sequence numbers
pub fn log_wrap() -> MainFut {
    Box::pin(log_wrap_main())
}

async fn log_wrap_main() {
    set_busy_limit(64);
    set_scheduler(0, 0, 0, 2);
    stop_stalls();
    nontrivial();
    for v4 in [false, true] {
        log_wrap_one(v4).await;
        if failed() {
            return;
        }
    }
    probe("log_numbers_wrapped");
}

async fn log_wrap_one(v4: bool) {
    let u = Usb::new();
    u.s().in_cap = 2;
    let kw = *pick(W, &[KW::K1, KW::K8]);
    let tx = make_tx(&u, 64, v4);
    {
        let u = u.clone();
        kernel::spawn("host", async move {
            loop {
                if u.fetch().await.is_none() {
                    sleep(1).await;
                }
            }
        });
    }
    let snd = Sender::new(tx, vk(kw));
    // both kinds of log message meet the end of the range
    let n = 2 * 65_536 + range(W, 2, 20);
    for i in 0..n {
        let r = if (i + i / 65_536) % 2 == 0 { snd.log_str("x").await } else { snd.log_fmt(format_args!("y")).await };
        if r.is_err() {
            fail("C17:log_not_sent", format!("log message {i} was refused: {r:?}"));
            return;
        }
    }
    sleep(20).await;
    let logs: Vec<u32> = u.s().in_log.iter().filter_map(|(_, _, p)| is_log(kw, p)).collect();
    check!(logs.len() == n, "C17:lost", "{} of {n} log messages on the wire", logs.len());
    for (i, s) in logs.iter().enumerate() {
        if *s != (i as u32 & 0xffff) {
            fail("C17:log_numbers", format!("log message {i} has the sequence number {s}"));
            return;
        }
    }
}

/// Buffers and texts around the sizes at which their length takes more room
pub fn log_big() -> MainFut {
    Box::pin(log_big_main())
}

async fn log_big_main() {
    set_busy_limit(100_000);
    set_scheduler(0, 0, 0, 2);
    stop_stalls();
    nontrivial();
    let u = Usb::new();
    u.s().in_cap = 2;
    let v4 = choose(W, 2) == 1;
    let kw = *pick(W, &[KW::K1, KW::K2, KW::K4, KW::K8]);
    let edge = if chance(W, 1, 64) { 1usize << 21 } else { *pick(W, &[1usize << 7, 1 << 14, 1 << 14]) };
    let buf = hdr_len(kw) + edge + range(W, 0, 16) - 8 + if chance(W, 1, 4) { choose(W, 500) } else { 0 };
    let tx = make_tx(&u, buf, v4);
    note(|| format!("v{} buf {buf} {kw:?}", if v4 { 4 } else { 3 }));
    {
        let u = u.clone();
        kernel::spawn("host", async move {
            loop {
                if u.fetch().await.is_none() {
                    sleep(1).await;
                }
            }
        });
    }
    let tw: TW = Rc::new(Tw {
        u: u.clone(),
        tx: tx.clone(),
        kw,
        buf,
        ops: sh(vec![]),
        sets: sh(vec![]),
        ids: sh(0),
        fixed_t: !v4,
        max_text: 0,
    });
    let snd = Sender::new(tx, vk(kw));
    let room = log_room(kw, buf);
    for id in 1..=range(W, 1, 4) as u32 {
        let near = *pick(W, &[20usize, 128, 200, 1 << 14, edge, edge, room, room]);
        let len = (near + range(W, 0, 12)).saturating_sub(6).min(room + 40);
        let t = match choose(W, 3) {
            0 => text(id, len),
            1 => format!("L{id}:{}", "é".repeat(len / 2)),
            _ => format!("L{id}:{}", "z".repeat(len.saturating_sub(4))),
        };
        let fmt = choose(W, 3) > 0;
        let ix = begin(&tw, What::Log { text: t.clone(), cut: fmt, broken: false }, true);
        let r = if fmt {
            let n = *pick(W, &[100usize, 1 << 20]);
            snd.log_fmt(format_args!("{}", Pieces(&t, n, false))).await
        } else {
            snd.log_str(&t).await
        };
        let e = match r {
            Ok(()) => End::Ok,
            Err(WireTxErrorKind::Timeout) => End::Timeout,
            Err(WireTxErrorKind::ConnectionClosed) => End::Closed,
            Err(_) => End::Other,
        };
        ev("log.big", t.len() as u64, fmt as u64, (e == End::Ok) as u64);
        tw.ops.borrow_mut()[ix].end = Some((kernel::clock(), now_ms(), e));
    }
    sleep(5).await;
    if buf > 16_384 {
        probe("big_log_buffer");
    }
    judge(&tw);
}

// ------------------------------------------------------------------ receive

pub fn rx() -> MainFut {
    Box::pin(rx_main())
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Frame(Vec<u8>),
    TooLarge,
    Closed,
    Other,
}

async fn rx_main() {
    nontrivial();
    let u = Usb::new();
    {
        let mut s = u.s();
        s.out_cap = range(W, 1, 2);
        s.overflow_sticky = choose(W, 4) != 3;
    }
    let v4 = choose(W, 2) == 1;
    let size = match choose(W, 6) {
        0 => 64 * range(W, 1, 4),
        1 => 1024,
        2 => 64 * range(W, 1, 4) + 1,
        3 => 64 * range(W, 1, 4) - 1,
        4 => range(W, 1, 64),
        _ if chance(W, 1, 100) => range(W, 2_000, 9_000),
        _ => range(W, 1, 400),
    };
    note(|| format!("v{} receive buffer {size}", if v4 { 4 } else { 3 }));
    let got = sh(Vec::<Got>::new());
    {
        let (u, got) = (u.clone(), got.clone());
        kernel::spawn("device", async move {
            enum R {
                A(usb::Rx3),
                B(usb::Rx4),
            }
            let mut rx = if v4 { R::B(usb::init4(&u, 64).1) } else { R::A(usb::init3(&u, 64).1) };
            let mut buf = vec![0u8; size];
            loop {
                // leftovers of earlier frames must not matter
                if chance(F, 1, 4) {
                    buf.fill(0xee);
                }
                let r = match &mut rx {
                    R::A(r) => r.receive(&mut buf).await,
                    R::B(r) => r.receive(&mut buf).await,
                };
                let g = match r {
                    Ok(f) => Got::Frame(f.to_vec()),
                    Err(WireRxErrorKind::ReceivedMessageTooLarge) => Got::TooLarge,
                    Err(WireRxErrorKind::ConnectionClosed) => Got::Closed,
                    Err(_) => Got::Other,
                };
                let closed = g == Got::Closed;
                ev("got", closed as u64, 0, 0);
                note(|| format!("{g:?}"));
                got.borrow_mut().push(g);
                if got.borrow().len() > 3000 {
                    fail("C14:endless", "receive keeps returning although nothing was sent");
                    return;
                }
                if closed {
                    // a server is run again some time later
                    sleep(1 + choose(F, 10) as u64).await;
                } else if chance(F, 1, 4) {
                    fault("slow_device");
                    sleep(choose(F, 5) as u64).await;
                }
            }
        });
    }
    let n = kernel::count(1, 12, 600);
    let resets = choose(F, 3) == 2;
    let mut tag = 0u8;
    for _ in 0..n {
        let len = match choose(W, 6) {
            0 => choose(W, 20),
            1 => size.saturating_sub(choose(W, 3)),
            2 => size + 1 + choose(W, 3),
            3 => 64 * range(W, 1, 5),
            4 => size + choose(W, 200),
            _ => choose(W, 400),
        };
        tag = tag.wrapping_add(1);
        let mut f = bytes(W, len);
        for b in f.iter_mut().step_by(16) {
            *b = tag;
        }
        send_frame(&u, &f, resets).await;
        if chance(F, 1, 3) {
            sleep(choose(F, 6) as u64).await;
        }
    }
    stop_stalls();
    u.enable();
    sleep(100).await;
    // a last frame always gets through
    send_frame(&u, &[0xaa], false).await;
    sleep(100).await;
    let got = got.borrow();
    // ---- what the device read decides what it must have delivered
    let mut want: Vec<Got> = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut open = false;
    for r in u.s().out_log.iter() {
        match r {
            Rd::Disabled => {
                want.push(Got::Closed);
                cur.clear();
                open = false;
            }
            Rd::Pkt(p) => {
                cur.extend(p);
                open = true;
                if p.len() < 64 {
                    let f = std::mem::take(&mut cur);
                    open = false;
                    want.push(if f.len() > size { Got::TooLarge } else { Got::Frame(f) });
                }
            }
        }
    }
    check!(!open, "C14:harness", "last frame not read completely");
    let exact = |w: &Got, g: &Got| w == g || matches!((w, g), (Got::Frame(f), Got::TooLarge) if f.len() == size);
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(w), Some(g)) if exact(w, g) => {
                match w {
                    Got::TooLarge => probe("too_large"),
                    Got::Closed => probe("closed"),
                    _ => {}
                };
            }
            (w, g) => {
                let d = |x: Option<&Got>| match x {
                    Some(Got::Frame(f)) => format!("a frame of {} bytes", f.len()),
                    x => format!("{x:?}"),
                };
                fail("C14:wrong_delivery", format!("result {i} of receive (buffer {size}) is {} instead of {}", d(g), d(w)));
                return;
            }
        }
    }
    check!(matches!(got.last(), Some(Got::Frame(f)) if f == &[0xaa]), "C14:stuck", "the device no longer receives");
}

async fn send_frame(u: &Usb, f: &[u8], resets: bool) {
    let mut chunks: Vec<Vec<u8>> = f.chunks(64).map(|c| c.to_vec()).collect();
    if f.len() % 64 == 0 {
        chunks.push(vec![]);
    }
    for c in chunks {
        if chance(F, 1, 8) {
            fault("slow_host");
            sleep(choose(F, 6) as u64).await;
        }
        if resets && chance(F, 1, 12) {
            fault("bus_reset");
            u.disable();
            if chance(F, 1, 2) {
                sleep(choose(F, 15) as u64).await;
            }
            u.enable();
            return;
        }
        if !u.put(c).await {
            return;
        }
    }
}

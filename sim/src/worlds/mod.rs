pub mod chan;
pub mod full;
pub mod host;
pub mod pairs;
pub mod nusb;
pub mod schema;
pub mod serial;
pub mod stack;
pub mod usbdev;

use crate::runner::{Check, Scn};

const fn s(name: &'static str, main: fn() -> crate::runner::MainFut, stalls: bool, weight: u32) -> Scn {
    Scn { name, main, stalls, preempt: true, weight }
}

/// without preemption in the middle of a step
const fn sn(name: &'static str, main: fn() -> crate::runner::MainFut, stalls: bool, weight: u32) -> Scn {
    Scn { name, main, stalls, preempt: false, weight }
}

const HOST_REAL: &[&str] = &[
    "host_client::HostClient (calls, publishes, subscriptions, closing)",
    "host_client in/out workers, wait map, stopper",
    "header encoding and decoding",
    "tokio mpsc/broadcast/sync, maitake WaitMap/WaitQueue",
];
const HOST_STUB: &[&str] = &["transport (simulated pipes)", "device (scripted peer with an independent codec)", "clock", "task scheduler"];
const FULL_REAL: &[&str] = &[
    "host_client::HostClient and its workers",
    "server::Server run loop and Sender",
    "define_dispatch! servers at key widths 1, 2, 4 and 8 with blocking, async and spawned handlers",
    "header encoding and decoding on both sides, endpoints!/topics! keys",
];
const FULL_STUB: &[&str] = &["transport (simulated pipes with injected errors)", "handler bodies", "task spawner (can refuse)", "clock", "task scheduler"];
const BASE_ASSUME: &[&str] = &[
    "interleavings at await points and, for host client and server worlds, in the middle of a step wherever one task wakes another or touches a shared counter or lock (hook sim_sync); no weak-memory effects",
    "the links deliver in order unless a fault says otherwise",
];

const USBDEV_REAL: &[&str] = &["EUsbWireTx and EUsbWireRx of embassy_usb_v0_3 and embassy_usb_v0_4", "server::Sender", "embassy-sync Mutex, embassy-time Timer, embassy-usb Builder"];
const USBDEV_STUB: &[&str] = &["USB controller and bus (embassy-usb-driver with small packet FIFOs)", "USB host (scripted)", "clock", "task scheduler"];

const NUSB_REAL: &[&str] = &["raw_nusb NusbWireTx / NusbWireRx and constructors", "host_client::HostClient and its workers", "header encoding and decoding"];
const NUSB_STUB: &[&str] = &["nusb crate (same API; transfers completed by the simulated host controller)", "USB device (scripted)", "clock", "task scheduler"];

const STACK_REAL: &[&str] = &[
    "host_client::HostClient, its workers and the raw_nusb transport",
    "EUsbWireTx and EUsbWireRx of embassy_usb_v0_3 and embassy_usb_v0_4",
    "server::Server run loop, Sender, define_dispatch! servers at all key widths",
];
const STACK_STUB: &[&str] = &["nusb crate and host controller", "USB device controller and bus", "handler bodies", "task spawner", "clock", "task scheduler"];

const CHAN_REAL: &[&str] = &[
    "server::impls::test_channels (ChannelWireTx/Rx, new_server, new_server_stoppable, tokio_spawn)",
    "host_client::test_channels::new_from_channels, test_utils::local_setup",
    "host_client::HostClient and its workers",
    "server::Server run loop, Sender, define_dispatch! servers at all key widths",
];
const CHAN_STUB: &[&str] = &["relay between the channels (records, delays, blocks, injects)", "handler bodies", "clock", "task scheduler"];

const SERIAL_REAL: &[&str] = &["serial SerialWireTx / SerialWireRx and constructors", "accumulator::raw::CobsAccumulator", "host_client::HostClient and its workers", "cobs crate, tokio::io::split"];
const SERIAL_STUB: &[&str] = &["tokio-serial crate (same API; the line is simulated)", "device (scripted, independent COBS and header codec)", "clock", "task scheduler"];
const ACC_REAL: &[&str] = &["accumulator::raw::CobsAccumulator", "cobs crate"];
const ACC_STUB: &[&str] = &["serial line (chunks, noise, loss)", "reader loop"];

pub fn checks() -> Vec<Check> {
    let nc = |prop, scns: Vec<Scn>, quick, thorough, rule, must| Check {
        prop,
        scns,
        quick,
        thorough,
        real: NUSB_REAL,
        stub: NUSB_STUB,
        rule,
        assumptions: BASE_ASSUME,
        must,
    };
    let uc = |prop, scns: Vec<Scn>, quick, thorough, rule, must| Check {
        prop,
        scns,
        quick,
        thorough,
        real: USBDEV_REAL,
        stub: USBDEV_STUB,
        rule,
        assumptions: BASE_ASSUME,
        must,
    };
    let hc = |prop, scns: Vec<Scn>, quick, thorough, rule, must| Check {
        prop,
        scns,
        quick,
        thorough,
        real: HOST_REAL,
        stub: HOST_STUB,
        rule,
        assumptions: BASE_ASSUME,
        must,
    };
    let fc = |prop, scns: Vec<Scn>, quick, thorough, rule, must| Check {
        prop,
        scns,
        quick,
        thorough,
        real: FULL_REAL,
        stub: FULL_STUB,
        rule,
        assumptions: BASE_ASSUME,
        must,
    };
    let sc = |prop, scns: Vec<Scn>, quick, thorough, real, stub, rule, must| Check { prop, scns, quick, thorough, real, stub, rule, assumptions: BASE_ASSUME, must };
    use self::full as f;
    use self::host as h;
    vec![
        hc("C01", vec![s("calls", h::calls, true, 10), s("route", h::route, true, 2), s("wrap", h::wrap, true, 1), s("reuse", h::reuse, true, 2), sn("reuse_many", h::reuse_many, false, 1)], 150_000, 4_000_000,
            "at least one call was made", &["sequence_reused", "sequence_wrapped_onto_outstanding_call"]),
        hc("C04", vec![s("end", h::end, true, 1)], 300_000, 4_000_000, "at least one operation", &["closed_and_checked"]),
        hc("C05", vec![s("excl", h::excl, true, 2), sn("excl_timeout", h::excl_timeout, false, 1)], 400_000, 4_000_000, "at least one subscription", &["legitimate_overflow", "already_subscribed"]),
        hc("C06", vec![s("multi", h::multi, true, 1)], 350_000, 4_000_000, "at least one subscription", &["lagged"]),
        hc("C07", vec![s("route", h::route, true, 1)], 300_000, 4_000_000, "at least one subscription", &[]),
        hc("C08", vec![s("pubs", h::pubs, true, 3), s("serve", f::serve_all, true, 1), s("repeat", f::repeat, true, 1)], 500_000, 4_000_000, "at least one publish", &[]),
        hc("C09", vec![s("garbage", h::garbage, true, 1)], 300_000, 4_000_000, "at least one call or subscription", &[]),
        hc("C11", vec![s("width", h::width, true, 8), s("wrap", h::wrap, true, 1), s("adopt", f::adopt, true, 4), s("pairs", pairs::pairs, true, 3)], 250_000, 4_000_000, "at least one call", &["pair", "short_key"]),
        hc("C18", vec![s("abandon", h::abandon, true, 12), s("many", h::abandon_many, true, 1), s("reuse", h::reuse, true, 2)], 180_000, 4_000_000, "at least one operation", &["many_abandoned"]),
        hc("C19", vec![s("drop", h::dropall, true, 1)], 400_000, 4_000_000, "at least one operation", &["dropped_and_checked"]),
        hc("C20", vec![s("wire", h::wire, true, 6), s("errors", f::errors, true, 2), s("serve", f::serve_all, true, 2), sn("stack", stack::stack, true, 1), sn("tx", usbdev::tx, true, 1), sn("chan_full", chan::chan_full, true, 1)], 350_000, 4_000_000, "at least one operation", &[]),
        fc("C02", vec![s("serve", f::serve_all, true, 4), s("errors", f::errors, true, 1), s("repeat", f::repeat, true, 1), sn("chan_spawn", chan::chan_spawn, true, 1)], 480_000, 2_000_000, "at least one call", &["spawned_held"]),
        fc("C03", vec![s("errors", f::errors, true, 3), s("repeat", f::repeat, true, 1)], 300_000, 2_000_000, "at least one frame that cannot be served", &["key_too_small", "unknown_key", "deser_failed", "topic_undecodable", "spawn_refused_answered", "reply_overflow_answered"]),
        fc("C10", vec![s("robust", f::robust, true, 8), sn("chan_half", chan::chan_half, true, 1)], 400_000, 2_000_000, "at least one fault", &["returned_rx", "returned_tx", "half_closed"]),
        fc("C12", vec![s("schema", schema::schema, true, 1)], 80_000, 1_000_000, "at least one schema request", &["report", "lost_data"]),
        uc("C13", vec![sn("tx", usbdev::tx, true, 1)], 200_000, 4_000_000, "at least one send", &["interrupted_frame", "logs_seen"]),
        uc("C14", vec![sn("rx", usbdev::rx, true, 1)], 1_000_000, 4_000_000, "at least one frame sent", &["too_large", "closed"]),
        nc("C15", vec![sn("raw", nusb::raw, true, 1)], 400_000, 4_000_000, "a client was connected", &["ten_errors", "recovered", "closed", "needs_zlp"]),
        sc("C16", vec![sn("line", serial::line, true, 1)], 160_000, 2_000_000, SERIAL_REAL, SERIAL_STUB, "a client was connected", &["closed", "short_frame", "over_long"]),
        sc("C23", vec![sn("acc", serial::acc, false, 1)], 1_500_000, 8_000_000, ACC_REAL, ACC_STUB, "at least one packet was fed", &["over_long", "invalid"]),
        sc("C24", vec![sn("chan_full", chan::chan_full, true, 4), sn("chan_mini", chan::chan_mini, true, 2), sn("chan_half", chan::chan_half, true, 1), sn("local", chan::local, true, 1), s("chan_logs", chan::chan_logs, true, 1)], 400_000, 2_000_000, CHAN_REAL, CHAN_STUB,
            "a client was connected", &["stopped", "client_gone", "server_gone", "too_large", "half_closed"]),
        uc("C17", vec![sn("tx", usbdev::tx, true, 40_000), sn("chan_full", chan::chan_full, true, 10_000), s("chan_logs", chan::chan_logs, true, 8_000), sn("log_big", usbdev::log_big, false, 600), sn("log_wrap", usbdev::log_wrap, false, 2)], 200_000, 4_000_000, "at least one send", &["logs_seen", "log_numbers_wrapped", "big_log_buffer"]),
        sc("C22", vec![sn("stack", stack::stack, true, 1)], 200_000, 2_000_000, STACK_REAL, STACK_STUB, "a client was connected", &["unplugged", "published"]),
        uc("C21", vec![sn("tx", usbdev::tx, false, 5), sn("stack", stack::stack, false, 1)], 200_000, 4_000_000, "at least one send", &["timed_out"]),
    ]
}

//! How the colliding paths in src/icd.rs were found
#[path = "../src/types.rs"]
mod types;
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use types::*;

fn f(k: [u8; 8], w: usize) -> u64 {
    let n = 8 / w;
    let mut o = 0u64;
    for i in 0..w {
        let mut b = 0;
        for j in 0..n {
            b ^= k[i * n + j];
        }
        o = o << 8 | b as u64;
    }
    o
}
fn k<T: postcard_schema::Schema + ?Sized>(p: &str) -> [u8; 8] {
    Key::for_path::<T>(p).to_bytes()
}
fn ok(v: &[[u8; 8]], w: usize) -> bool {
    let mut s = std::collections::HashSet::new();
    v.iter().all(|x| s.insert(f(*x, w)))
}
fn sets(s: &str) -> (Vec<[u8; 8]>, Vec<[u8; 8]>) {
    let p = |n: &str| format!("{s}/{n}");
    let mut i = vec![];
    let mut o = vec![];
    for n in ["echo_a", "echo_b", "async_a", "async_b", "spawn_a", "spawn_b"] {
        i.push(k::<Req>(&p(n)));
        o.push(k::<Rsp>(&p(n)));
    }
    i.push(k::<u32>(&p("big")));
    o.push(k::<Blob>(&p("big")));
    i.push(k::<u32>(&p("biga")));
    o.push(k::<Blob>(&p("biga")));
    i.push(k::<u64>(&p("inc")));
    o.push(k::<u64>(&p("inc")));
    i.push(k::<()>(&p("nop")));
    o.push(k::<()>(&p("nop")));
    i.push(k::<bool>(&p("strict")));
    o.push(k::<u8>(&p("strict")));
    i.push(PingEndpoint::REQ_KEY.to_bytes());
    o.push(PingEndpoint::RESP_KEY.to_bytes());
    i.push(GetAllSchemasEndpoint::REQ_KEY.to_bytes());
    o.push(GetAllSchemasEndpoint::RESP_KEY.to_bytes());
    for n in ["t_blk", "t_async", "t_spawn"] {
        i.push(k::<Msg>(&p(n)));
    }
    i.push(k::<bool>(&p("t_flag")));
    for n in ["out_a", "out_b"] {
        o.push(k::<Msg>(&p(n)));
    }
    o.push(k::<u32>(&p("out_n")));
    o.push(k::<()>(&p("out_u")));
    o.push(GetAllSchemaDataTopic::TOPIC_KEY.to_bytes());
    o.push(LoggingTopic::TOPIC_KEY.to_bytes());
    o.push(ERROR_KEY.to_bytes());
    (i, o)
}
fn main() {
    let mut base = String::new();
    for n in 0.. {
        let s = format!("s{n}");
        let (i, o) = sets(&s);
        // no collision in either direction, nor across
        if ok(&i, 1) && ok(&o, 1) {
            base = s;
            break;
        }
    }
    println!("base {base}");
    let (i, o) = sets(&base);
    let a = i[0];
    let out_a = k::<Msg>(&format!("{base}/out_a"));
    let find = |name: &str, pred: &dyn Fn(&str) -> bool| {
        for n in 0.. {
            let s = format!("{name}/{n}");
            if pred(&s) {
                println!("{name} -> {s}");
                return;
            }
        }
    };
    let with = |v: &[[u8; 8]], x: [u8; 8]| {
        let mut v = v.to_vec();
        v.push(x);
        v
    };
    find("x2", &|s| f(k::<Req>(s), 1) == f(a, 1) && ok(&with(&i, k::<Req>(s)), 2) && ok(&with(&o, k::<Rsp>(s)), 1));
    find("x4", &|s| f(k::<Req>(s), 2) == f(a, 2) && ok(&with(&i, k::<Req>(s)), 4) && ok(&with(&o, k::<Rsp>(s)), 1));
    find("o2", &|s| f(k::<Msg>(s), 1) == f(out_a, 1) && ok(&with(&o, k::<Msg>(s)), 2));
    find("o4", &|s| f(k::<Msg>(s), 2) == f(out_a, 2) && ok(&with(&o, k::<Msg>(s)), 4));
    let e = ERROR_KEY.to_bytes();
    find("e1", &|s| {
        f(k::<Rsp>(s), 1) == f(e, 1)
            && ok(&with(&i, k::<Req>(s)), 1)
            && ok(&with(&o[..o.len() - 1], k::<Rsp>(s)), 1)
            && ok(&with(&o, k::<Rsp>(s)), 2)
    });
    // x8: same 4-byte key
    let found = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..8u64 {
            let found = &found;
            sc.spawn(move || {
                let want = f(a, 4);
                let mut n = t;
                loop {
                    if n % 8000 < 8 && found.load(std::sync::atomic::Ordering::Relaxed) {
                        return;
                    }
                    let s = format!("x8/{n}");
                    if f(k::<Req>(&s), 4) == want {
                        println!("x8 -> {s}");
                        found.store(true, std::sync::atomic::Ordering::Relaxed);
                        return;
                    }
                    n += 8;
                }
            });
        }
    });
}

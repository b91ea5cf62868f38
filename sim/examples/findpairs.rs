//! How the colliding paths in src/worlds/pairs.rs were found: small devices in
//! which exactly one pair of keys forces wider keys.
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use std::collections::{HashMap, HashSet};

fn f(k: [u8; 8], w: usize) -> u64 {
    let n = 8 / w;
    let mut o = 0u64;
    for i in 0..w {
        let mut b = 0;
        for j in 0..n {
            b ^= k[i * n + j];
        }
        o = o << 8 | b as u64;
    }
    o
}
fn k<T: postcard_schema::Schema + ?Sized>(p: &str) -> [u8; 8] {
    Key::for_path::<T>(p).to_bytes()
}

/// in: 'e' request, 't' topic in; out: 'r' response, 'o' topic out
#[derive(Clone, Default)]
struct Dev {
    ins: Vec<(String, [u8; 8])>,
    outs: Vec<(String, [u8; 8])>,
}
fn std_dev() -> Dev {
    let mut d = Dev::default();
    d.ins.push(("ping".into(), PingEndpoint::REQ_KEY.to_bytes()));
    d.ins.push(("schemas".into(), GetAllSchemasEndpoint::REQ_KEY.to_bytes()));
    d.outs.push(("ping".into(), PingEndpoint::RESP_KEY.to_bytes()));
    d.outs.push(("schemas".into(), GetAllSchemasEndpoint::RESP_KEY.to_bytes()));
    d.outs.push(("data".into(), GetAllSchemaDataTopic::TOPIC_KEY.to_bytes()));
    d.outs.push(("log".into(), LoggingTopic::TOPIC_KEY.to_bytes()));
    d.outs.push(("err".into(), ERROR_KEY.to_bytes()));
    d
}
fn add(d: &Dev, item: char, p: &str) -> Dev {
    let mut d = d.clone();
    match item {
        'e' => {
            d.ins.push((p.into(), k::<u32>(p)));
            d.outs.push((p.into(), k::<u64>(p)));
        }
        't' => d.ins.push((p.into(), k::<u16>(p))),
        _ => d.outs.push((p.into(), k::<u16>(p))),
    }
    d
}
/// number of colliding pairs at a width
fn coll(v: &[(String, [u8; 8])], w: usize) -> usize {
    let mut m: HashMap<u64, usize> = HashMap::new();
    for x in v {
        *m.entry(f(x.1, w)).or_default() += 1;
    }
    m.values().map(|n| n * (n - 1) / 2).sum()
}
fn at(v: &[(String, [u8; 8])], a: &str, b: &str, w: usize) -> bool {
    let g = |n: &str| v.iter().find(|x| x.0 == n).map(|x| f(x.1, w));
    g(a).is_some() && g(a) == g(b)
}

fn main() {
    // (name, items, colliding pair, incoming?, width at which they collide)
    let devs: &[(&str, &[char], (&str, &str), bool, usize)] = &[
        ("p1", &['e', 'e'], ("p1e0", "p1e1"), true, 1),
        ("p2", &['e', 'e', 'e'], ("p2e1", "p2e2"), true, 2),
        ("p3", &['e', 't'], ("p3e0", "p3t1"), true, 1),
        ("p4", &['e', 't', 't'], ("p4t1", "p4t2"), true, 4),
        ("p5", &['e', 'e', 't', 't'], ("p5e0", "p5t3"), true, 2),
        ("p6", &['e', 'e'], ("p6e0", "p6e1"), false, 1),
        ("p7", &['e', 'o'], ("p7e0", "p7o1"), false, 2),
        ("p8", &['e', 'o', 'o'], ("p8o1", "p8o2"), false, 1),
        ("p9", &['e', 'e', 'e'], ("p9e0", "p9e2"), false, 4),
        ("pa", &['e', 'o'], ("err", "pao1"), false, 1),
        ("pb", &['e', 't', 't', 't'], ("pbt1", "pbt3"), true, 1),
        ("pc", &['e'], ("ping", "pce0"), true, 1),
        ("pd", &['e', 'o'], ("log", "pdo1"), false, 1),
        ("pe", &['e', 't'], ("schemas", "pet1"), true, 2),
        ("pf", &['e', 'e', 'o'], ("pfe1", "pfo2"), false, 4),
        ("pg", &['e', 'e', 't'], ("", ""), true, 0),
    ];
    for (name, items, (a, b), inc, w) in devs {
        let mut d = std_dev();
        let mut paths = vec![];
        let tag = |i: usize| format!("{name}{}{i}", items[i]);
        let ia = (0..items.len()).find(|i| tag(*i) == *a);
        let ib = (0..items.len()).find(|i| tag(*i) == *b);
        // everything that is not the second of the pair: no collisions at all
        for i in 0..items.len() {
            if Some(i) == ib || (*w == 4 && Some(i) == ia) {
                paths.push(String::new());
                continue;
            }
            for n in 0.. {
                let p = format!("{}/{n}", tag(i));
                let e = add(&d, items[i], &p);
                if coll(&e.ins, 1) == 0 && coll(&e.outs, 1) == 0 {
                    d = e;
                    paths.push(p);
                    break;
                }
            }
        }
        let key = |item: char, p: &str| match (item, *inc) {
            ('e', true) => k::<u32>(p),
            ('e', false) => k::<u64>(p),
            _ => k::<u16>(p),
        };
        let good = |e: &Dev| {
            let (v, o) = if *inc { (&e.ins, &e.outs) } else { (&e.outs, &e.ins) };
            coll(v, *w) == 1 && coll(v, 2 * *w) == 0 && coll(o, 1) == 0
        };
        if let Some(ib) = ib {
            if *w == 4 {
                let ia = ia.unwrap();
                let mut seen: HashMap<u64, String> = HashMap::new();
                let mut used = HashSet::new();
                'o: for n in 0.. {
                    for i in [ia, ib] {
                        let p = format!("{}/{n}", tag(i));
                        let h = f(key(items[i], &p), 4);
                        if let Some(q) = seen.get(&h).cloned() {
                            if used.insert((q.clone(), p.clone())) && !q.starts_with(&tag(i)) {
                                let (pa, pb) = if i == ib { (q, p.clone()) } else { (p.clone(), q) };
                                let e = add(&add(&d, items[ia], &pa), items[ib], &pb);
                                if good(&e) {
                                    paths[ia] = pa;
                                    paths[ib] = pb;
                                    d = e;
                                    break 'o;
                                }
                            }
                        } else {
                            seen.insert(h, p);
                        }
                    }
                }
            } else {
                let pa = ia.map(|i| paths[i].clone()).unwrap_or(a.to_string());
                for n in 0.. {
                    let p = format!("{}/{n}", tag(ib));
                    let e = add(&d, items[ib], &p);
                    let v = if *inc { &e.ins } else { &e.outs };
                    if at(v, &pa, &p, *w) && good(&e) {
                        paths[ib] = p;
                        d = e;
                        break;
                    }
                }
            }
        }
        println!("{name} {items:?} {paths:?} collides at {w}");
    }
}

//! Runs library code of roster on inputs that come from the specification, and
//! records what it did. It only uses public items of the library.
use std::io::{BufRead, Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use bytes::{Bytes, BytesMut};
use bytestring::ByteString;
use roster::application::server::frame::{Error, Frame};
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, Storage, StorageSegment};
use roster::infrastructure::hash::crc_hash;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// The value as JSON: ["S",hex] ["E",hex] ["I",n] ["B",hex] ["N"] ["A",[..]] ["M",[[k,v],..]]
fn show(f: &Frame, out: &mut String) {
    match f {
        Frame::Simple(s) => out.push_str(&format!("[\"S\",\"{}\"]", hex(s.as_bytes()))),
        Frame::Error(s) => out.push_str(&format!("[\"E\",\"{}\"]", hex(s.as_bytes()))),
        Frame::Integer(n) => out.push_str(&format!("[\"I\",\"{}\"]", n)),
        Frame::Bulk(b) => out.push_str(&format!("[\"B\",\"{}\"]", hex(b))),
        Frame::Null => out.push_str("[\"N\"]"),
        Frame::Array(v) => {
            out.push_str("[\"A\",[");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                show(x, out);
            }
            out.push_str("]]");
        }
        Frame::Map(m) => {
            out.push_str("[\"M\",[");
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push('[');
                show(k, out);
                out.push(',');
                show(v, out);
                out.push(']');
            }
            out.push_str("]]");
        }
    }
}

/// verdict, bytes consumed, value
fn frame(data: &[u8]) -> (&'static str, u64, String) {
    let buf = BytesMut::from(data);
    let checked = catch_unwind(AssertUnwindSafe(|| {
        let mut cur = Cursor::new(&buf);
        let r = Frame::check(&mut cur);
        (r.map_err(|e| matches!(e, Error::Incomplete)), cur.position())
    }));
    let (r, pos) = match checked {
        Err(_) => return ("panic", 0, String::new()),
        Ok(x) => x,
    };
    match r {
        Err(true) => return ("inc", 0, String::new()),
        Err(false) => return ("err", 0, String::new()),
        Ok(()) => {}
    }
    if pos as usize > data.len() {
        return ("beyond", pos, String::new());
    }
    let exact = Bytes::copy_from_slice(&data[..pos as usize]);
    let parsed = catch_unwind(AssertUnwindSafe(|| {
        let mut cur = Cursor::new(exact);
        let r = Frame::parse(&mut cur);
        (r, cur.position())
    }));
    match parsed {
        Err(_) => ("panic", 0, String::new()),
        Ok((Err(_), _)) => ("err", 0, String::new()),
        Ok((Ok(f), end)) => {
            let mut s = String::new();
            show(&f, &mut s);
            (if end == pos { "ok" } else { "inexact" }, pos, s)
        }
    }
}

fn frames() {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let data = unhex(line.trim());
        // on a small stack, as the threads of the server have
        let (v, pos, val) = frame(&data);
        writeln!(out, "{} {} {}", v, pos, val).unwrap();
    }
}

fn crcs() {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let data = unhex(line.unwrap().trim());
        let v = catch_unwind(|| crc_hash(&data) as i64).unwrap_or(-1);
        writeln!(out, "{}", v).unwrap();
    }
}

/// For each number of parts: the ranges, what part() gives, which slots each part says it has.
fn slots() {
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let n: u16 = line.unwrap().trim().parse().unwrap();
        let r = catch_unwind(|| {
            let st = Storage::new(n, Slot::from(0..16384));
            let ranges: Vec<String> =
                st.slots().iter().map(|s| format!("[{},{}]", s.start, s.end)).collect();
            let mut asked: Vec<u16> = (0..(3u32 * n as u32 + 2).min(2000)).map(|x| x as u16).collect();
            asked.extend([n.wrapping_mul(7).wrapping_add(3), 16383, 16384, 32767, 32768, 65534, 65535]);
            let parts: Vec<String> = asked
                .iter()
                .map(|p| {
                    let (s, seg) = st.part(*p);
                    // borders of the range, asked to the segment itself
                    let mut edge = Vec::new();
                    for x in [0u16, s.start.saturating_sub(1), s.start, s.end.saturating_sub(1), s.end, 16383, 16384, 65535] {
                        edge.push(format!("[{},{}]", x, seg.is_in_slot(x) as u8));
                    }
                    format!("[{},{},{},[{}]]", p, s.start, s.end, edge.join(","))
                })
                .collect();
            let g = st.global_slot();
            format!(
                "{{\"n\":{},\"ranges\":[{}],\"parts\":[{}],\"global\":[{},{}]}}",
                n,
                ranges.join(","),
                parts.join(","),
                g.start,
                g.end
            )
        });
        let mut o = out.lock();
        match r {
            Ok(s) => writeln!(o, "{}", s).unwrap(),
            Err(_) => writeln!(o, "{{\"n\":{},\"ranges\":[],\"parts\":[],\"global\":[0,0]}}", n).unwrap(),
        }
        o.flush().unwrap();
    }
}

fn clock(id: libc::clockid_t) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut ts) };
    ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

struct Rec {
    at: u64,
    text: String,
}

/// store SEED THREADS OPS KEYS TTLS : threads on one segment, as histories of SET and GET, one per round.
fn store(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let threads: usize = args[1].parse().unwrap();
    let ops: usize = args[2].parse().unwrap();
    let keys: u64 = args[3].parse().unwrap();
    let ttls: u64 = args[4].parse().unwrap();
    let rounds: usize = args[5].parse().unwrap();
    let seg = StorageSegment::new(Slot::from(0..16384));
    let stdout = std::io::stdout();
    for round in 0..rounds {
        let seg = seg.clone();
        let order = Arc::new(AtomicU64::new(0));
        let start = Arc::new(Barrier::new(threads));
        let all = Arc::new(Mutex::new(Vec::new()));
        let origin = clock(libc::CLOCK_MONOTONIC) - 1_000_000_000;
        let bad = Arc::new(AtomicBool::new(false));
        let hs: Vec<_> = (0..threads)
            .map(|c| {
                let (seg, order, start, all, bad) = (seg.clone(), order.clone(), start.clone(), all.clone(), bad.clone());
                std::thread::spawn(move || {
                    let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((round as u64 + 1) << 20) ^ (c as u64 + 1));
                    for _ in 0..8 {
                        rng.next();
                    }
                    let mut recs = Vec::with_capacity(ops * 2);
                    start.wait();
                    for k in 0..ops {
                        let key = format!("r{}k{}", round, rng.below(keys));
                        let i = c * 1_000_000 + k + 1;
                        let kind = rng.below(100);
                        let b = |s: &str| format!("{{\"k\":\"b\",\"v\":\"{}\"}}", s);
                        if kind < 45 {
                            let val = format!("t{}-{}", c, k);
                            let ttl = if rng.below(100) < ttls { Some(rng.below(12)) } else { None };
                            let args = match ttl {
                                Some(t) => format!("{},{},{},{},{}", b("SET"), b(&key), b(&val), b("PX"), b(&t.to_string())),
                                None => format!("{},{},{}", b("SET"), b(&key), b(&val)),
                            };
                            let tl = (clock(libc::CLOCK_MONOTONIC_COARSE) - origin).div_euclid(1_000_000) - 1;
                            let a1 = order.fetch_add(1, Ordering::SeqCst);
                            let expired = ttl.map(|t| coarsetime::Instant::now() + std::time::Duration::from_millis(t).into());
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                let _ = seg.set_async(ByteString::from(key.clone()), Bytes::from(val.clone()), SetOptions { expired }).is_ok();
                            }));
                            if r.is_err() {
                                bad.store(true, Ordering::SeqCst);
                            }
                            let a2 = order.fetch_add(1, Ordering::SeqCst);
                            let t = (clock(libc::CLOCK_MONOTONIC) - origin).div_euclid(1_000_000) + 2;
                            recs.push(Rec { at: a1, text: format!("{{\"e\":\"send\",\"c\":{},\"tl\":{},\"args\":[{}],\"res\":\"?\",\"i\":{}}}", c + 1, tl, args, i) });
                            recs.push(Rec { at: a2, text: format!("{{\"e\":\"recv\",\"c\":{},\"t\":{},\"r\":{{\"k\":\"simple\",\"v\":\"OK\"}},\"i\":{}}}", c + 1, t, i) });
                        } else {
                            let tl = (clock(libc::CLOCK_MONOTONIC_COARSE) - origin).div_euclid(1_000_000) - 1;
                            let a1 = order.fetch_add(1, Ordering::SeqCst);
                            let got = catch_unwind(AssertUnwindSafe(|| {
                                futures::executor::block_on(seg.get_async(ByteString::from(key.clone()), coarsetime::Instant::now()))
                            }));
                            let a2 = order.fetch_add(1, Ordering::SeqCst);
                            let t = (clock(libc::CLOCK_MONOTONIC) - origin).div_euclid(1_000_000) + 2;
                            let (res, r) = match got {
                                Ok(Some(v)) => {
                                    let v = String::from_utf8_lossy(&v).to_string();
                                    (v.clone(), format!("{{\"k\":\"bulk\",\"v\":\"{}\"}}", v))
                                }
                                Ok(None) => ("(nil)".to_string(), "{\"k\":\"null\"}".to_string()),
                                Err(_) => {
                                    bad.store(true, Ordering::SeqCst);
                                    ("?".to_string(), "{\"k\":\"garbage\",\"v\":\"panic\"}".to_string())
                                }
                            };
                            recs.push(Rec { at: a1, text: format!("{{\"e\":\"send\",\"c\":{},\"tl\":{},\"args\":[{},{}],\"res\":\"{}\",\"i\":{}}}", c + 1, tl, b("GET"), b(&key), res, i) });
                            recs.push(Rec { at: a2, text: format!("{{\"e\":\"recv\",\"c\":{},\"t\":{},\"r\":{},\"i\":{}}}", c + 1, t, r, i) });
                        }
                        match rng.below(8) {
                            0 => std::thread::yield_now(),
                            1 if ttls > 0 => std::thread::sleep(std::time::Duration::from_micros(500 + rng.below(4000))),
                            _ => {}
                        }
                    }
                    all.lock().unwrap().extend(recs);
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let mut recs = std::mem::take(&mut *all.lock().unwrap());
        recs.sort_by_key(|r| r.at);
        let mut o = stdout.lock();
        write!(o, "[").unwrap();
        for c in 0..threads {
            write!(o, "{{\"e\":\"conn\",\"c\":{},\"addr\":\"t{}\"}},", c + 1, c).unwrap();
        }
        for (i, r) in recs.iter().enumerate() {
            write!(o, "{}{}", if i > 0 { "," } else { "" }, r.text).unwrap();
        }
        if bad.load(Ordering::SeqCst) {
            write!(o, ",{{\"e\":\"died\"}}").unwrap();
        }
        writeln!(o, "]").unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    // the stack of the threads of the server
    let t = std::thread::Builder::new()
        .stack_size(2 * 1024 * 1024)
        .spawn(move || match args[0].as_str() {
            "frames" => frames(),
            "crc" => crcs(),
            "slots" => slots(),
            "store" => store(&args[1..]),
            other => panic!("{}", other),
        })
        .unwrap();
    t.join().unwrap();
}

//! P32: what a connection holds in memory.
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_compress::{encode, gzip_with, Enc};
use crate::traffic::*;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::log::HtpLogLevel;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub static PROPS: &[Prop] = &[Prop {
    id: "P32",
    rule: "a conversation repeated, data of any framing passing through, an element that never ends, or an arbitrary history ended anywhere, with the heap of the parser measured; non-trivial when at least 20 calls were made or a transaction exists at the end",
    run: p32,
    quick: 100_000,
}];

/// Counts what the current thread has on the heap.
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static WARM: Cell<bool> = const { Cell::new(false) };
}
fn count(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        if d > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn live() -> isize {
    LIVE.with(|l| l.get())
}
fn peak_reset() {
    PEAK.with(|p| p.set(live()))
}
fn peak() -> isize {
    PEAK.with(|p| p.get())
}

fn mute(policy: Vec<(K, usize, Ret)>) {
    REC.with(|r| *r.borrow_mut() = Recorder { policy, muted: true, ..Default::default() });
}
fn open(cfg: Config) -> Box<ConnectionParser> {
    let mut p = Box::new(ConnectionParser::new(cfg));
    p.open(Some("127.0.0.1".parse().unwrap()), Some(10000), Some("127.0.0.1".parse().unwrap()), Some(80), None);
    p
}
fn op(p: &mut ConnectionParser, o: &Op) -> S {
    match o {
        Op::Req(b) => p.request_data(ParserData::from(&b[..]), None),
        Op::Res(b) => p.response_data(ParserData::from(&b[..]), None),
        Op::ReqGap(n) => p.request_data(ParserData::from(*n), None),
        Op::ResGap(n) => p.response_data(ParserData::from(*n), None),
        Op::ReqClose => {
            p.request_close(None);
            S::CLOSED
        }
        Op::Close => {
            p.close(None);
            S::CLOSED
        }
    }
}

/// Whatever is set up once per process or thread is there after this.
fn warm() {
    if WARM.with(|w| w.replace(true)) {
        return;
    }
    for _ in 0..2 {
        mute(vec![]);
        let mut cfg = base_config();
        cfg.set_parse_urlencoded(true);
        let mut p = open(cfg);
        op(&mut p, &Op::Req(b"GET /%u0107?a=%u0107 HTTP/1.1\r\nHost: a\r\nA\r\n\r\n".to_vec()));
        op(&mut p, &Op::Res(b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip, lzma\r\nContent-Length: 4\r\n\r\nabcdefg\r\n".to_vec()));
        op(&mut p, &Op::Close);
        let _ = p.conn.get_logs();
    }
}

fn p32(s: &mut Src, case: &mut Case) -> Result<(), String> {
    warm();
    match s.below(8) {
        0 | 1 => repeated(s, case),
        2 | 3 | 4 => passing(s, case),
        5 => unfinished(s, case),
        6 if s.bool() => through_c(s, case),
        _ => returned(s, case),
    }
}

/// A conversation gone through many times leaves what it left the first few times.
fn repeated(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { close_delimited: false, max_exchanges: 3, big: false, ..Style::default() };
    let x = gen_conversation(s, &st);

    let mut ops = vec![];
    let cut = |s: &mut Src, b: &[u8], req: bool, marks: &[usize], ops: &mut Vec<Op>| {
        let mut at = 0;
        for c in gen_cuts(s, b.len(), marks).into_iter().chain([b.len()]) {
            if c > at {
                ops.push(if req { Op::Req(b[at..c].to_vec()) } else { Op::Res(b[at..c].to_vec()) });
                at = c;
            }
        }
    };

    let pipelined = s.bool();
    for e in &x {
        cut(s, &e.req.wire.bytes, true, &e.req.wire.marks, &mut ops);
        if !pipelined {
            cut(s, &e.res.wire.bytes, false, &e.res.wire.marks, &mut ops);
        }
    }
    if pipelined {
        for e in &x {
            cut(s, &e.res.wire.bytes, false, &e.res.wire.marks, &mut ops);
        }
    }
    let auto = s.bool();
    let logged = s.bool();
    let mut cfg = base_config();
    cfg.set_tx_auto_destroy(auto);
    cfg.set_parse_urlencoded(s.bool());
    cfg.log_level = if logged { HtpLogLevel::DEBUG2 } else { HtpLogLevel::NONE };
    let rounds = s.range(50, 80);
    case.describe(|| format!("automatic destruction {auto}, log {logged}, {rounds} times\n{}", show_ops(&ops)));
    mute(vec![]);
    let mut p = open(cfg);
    let mut first = 0;
    let mut next = 0;
    for r in 0..rounds {
        for o in &ops {
            let st = op(&mut p, o);
            ensure!(case, matches!(st, S::DATA | S::DATA_OTHER), "answer {:?}", st);
        }
        if !auto {
            while next < p.tx_size() {
                p.remove_tx(next);
                next += 1;
            }
        }
        if logged {
            let _ = p.conn.get_logs();
        }
        if r == 7 {
            first = live();
        }
    }
    let grown = live() - first;
    ensure_eq!(case, p.tx_size(), rounds * x.len(), "transactions");
    // a block of the log may be in use or not
    let slack = if logged { 6000 } else { 256 };
    ensure!(case, grown <= slack, "{} bytes more are held after {} rounds than after 8", grown, rounds);
    case.nontrivial = ops.len() * rounds >= 20;
    case.label("repeated conversation");
    Ok(())
}

/// Data that passes through is not kept.
fn passing(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = base_config();
    cfg.log_level = HtpLogLevel::NONE;
    cfg.compression_options.set_bomb_limit(i32::MAX as u32 as _);
    cfg.compression_options.set_lzma_layers(None);
    cfg.set_request_decompression(true);
    let fill = |s: &mut Src| {
        let n = s.range(1, 1500);
        let b = s.byte();
        let mut v: Vec<u8> = (0..n).map(|i| b.wrapping_add((i * i / 7) as u8)).collect();
        if s.bool() {
            v.push(b'\n');
        }
        v
    };
    let get = Op::Req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec());
    let mut before = vec![];
    // what is repeated
    let mut unit = vec![];
    let mut stream: Option<Vec<Op>> = None;
    let kind = s.below(18);
    let name = match kind {
        0 => {
            before.push(Op::Req(b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 100000000\r\n\r\n".to_vec()));
            unit.push(Op::Req(fill(s)));
            "request body of known length"
        }
        1 | 2 => {
            let req = kind == 1;
            if req {
                before.push(Op::Req(b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec()));
            } else {
                before.push(get.clone());
                before.push(Op::Res(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec()));
            }
            let d = fill(s);
            let w = [format!("{:x}{}\r\n", d.len(), *s.pick(&["", ";a=b", " "])).as_bytes(), &d, b"\r\n"].concat();
            for q in crate::gen::cut_anywhere(s, &w) {
                unit.push(if req { Op::Req(q) } else { Op::Res(q) });
            }
            if req { "chunked request body" } else { "chunked response body" }
        }
        3 => {
            before.push(get.clone());
            before.push(Op::Res(b"HTTP/1.1 200 OK\r\nContent-Length: 100000000\r\n\r\n".to_vec()));
            unit.push(Op::Res(fill(s)));
            "response body of known length"
        }
        4 => {
            before.push(get.clone());
            before.push(Op::Res(b"HTTP/1.1 200 OK\r\n\r\n".to_vec()));
            unit.push(Op::Res(fill(s)));
            "response body until the close"
        }
        5 => {
            before.push(Op::Req(b"CONNECT h:1 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
            before.push(Op::Res(b"HTTP/1.1 200 OK\r\n\r\n".to_vec()));
            before.push(Op::Req(b"\x16\x03\x01\n".to_vec()));
            for _ in 0..s.range(1, 3) {
                unit.push(if s.bool() { Op::Req(fill(s)) } else { Op::Res(fill(s)) });
            }
            "tunnel"
        }
        6 => {
            before.push(get.clone());
            before.push(Op::Res(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\n\r\n".to_vec()));
            for _ in 0..s.range(1, 3) {
                unit.push(if s.bool() { Op::Req(fill(s)) } else { Op::Res(fill(s)) });
            }
            "another protocol"
        }
        7 => {
            before.push(Op::Req(b"GET /\r\n".to_vec()));
            for _ in 0..s.range(1, 3) {
                unit.push(if s.bool() { Op::Req(fill(s)) } else { Op::Res(fill(s)) });
            }
            "HTTP/0.9"
        }
        8 => {
            unit.push(Op::Req((*s.pick(&[b"\r\n" as &[u8], b"\n", b"\r\n\r\n\n"])).to_vec()));
            "empty lines in front of a request"
        }
        9 => {
            before.push(get.clone());
            let w = b"HTTP/1.1 100 Continue\r\nA: b\r\nC: d\r\n\r\n";
            for q in crate::gen::cut_anywhere(s, w) {
                unit.push(Op::Res(q));
            }
            "interim responses"
        }
        10 | 11 => {
            // the fields of one name, which are joined no more than 64 times
            let req = s.bool();
            if req {
                before.push(Op::Req(b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec()));
            } else {
                before.push(get.clone());
                before.push(Op::Res(b"HTTP/1.1 200 OK\r\n".to_vec()));
            }
            let long = if s.bool() { s.size(0, 300) } else { 0 };
            let field = [b"Xa: some value" as &[u8], &vec![b'v'; long], b"\r\n"].concat();
            for q in crate::gen::cut_anywhere(s, &field) {
                before.push(if req { Op::Req(q.clone()) } else { Op::Res(q.clone()) });
                unit.push(if req { Op::Req(q) } else { Op::Res(q) });
            }
            for _ in 0..70 {
                before.extend(unit.clone());
            }
            "repeated fields"
        }
        12 => {
            before.push(get.clone());
            before.push(Op::Res(b"HTTP/1.1 200 OK\r\nContent-Length: 100000000\r\n\r\n".to_vec()));
            unit.push(Op::Res(fill(s)));
            unit.push(Op::ResGap(s.range(1, 1000)));
            "response body with gaps"
        }
        13 => {
            before.push(get.clone());
            before.push(Op::Res(b"HTTP/1.1 200 OK\r\nContent-Length: none\r\n\r\n".to_vec()));
            unit.push(Op::Res(fill(s)));
            "response stream in error"
        }
        17 => {
            // the name or comment in front of gzip data never ends
            let req = s.bool();
            let flag = *s.pick(&[8u8, 16, 24]);
            let head = b"Content-Encoding: gzip\r\nContent-Length: 100000000\r\n\r\n\x1f\x8b\x08";
            let first = if req { b"POST / HTTP/1.1\r\nHost: h\r\n" as &[u8] } else { b"HTTP/1.1 200 OK\r\n" };
            let w = [first, head, &[flag, 0, 0, 0, 0, 0, 0]].concat();
            if !req {
                before.push(get.clone());
            }
            before.push(if req { Op::Req(w) } else { Op::Res(w) });
            let d = vec![s.range(1, 255) as u8; s.range(1, 1500)];
            unit.push(if req { Op::Req(d) } else { Op::Res(d) });
            "gzip header"
        }
        16 => {
            // 4 MB out of a few bytes
            let bombs = crate::lzma_bombs::BOMBS;
            let (_, w) = bombs[bombs.len() - 1 - s.u(2)];
            let req = s.bool();
            let head = format!("Content-Encoding: lzma\r\nContent-Length: {}\r\n\r\n", w.len());
            if req {
                before.push(Op::Req(format!("POST / HTTP/1.1\r\nHost: h\r\n{head}").into_bytes()));
            } else {
                before.push(get.clone());
                before.push(Op::Res(format!("HTTP/1.1 200 OK\r\n{head}").into_bytes()));
            }
            stream = Some(crate::gen::cut_anywhere(s, w).into_iter().map(|q| if req { Op::Req(q) } else { Op::Res(q) }).collect());
            "lzma body"
        }
        _ => {
            // a compressed body
            let piece = fill(s);
            let n = s.range(100, 160);
            let mut body = Vec::with_capacity(n * piece.len());
            for i in 0..n {
                body.extend(piece.iter().map(|c| c.wrapping_mul(i as u8 | 1)));
            }
            let e = *s.pick(&[Enc::Gzip, Enc::Deflate, Enc::Zlib]);
            // a layer starts to work behind its header, so these are short
            let mut w = if let Enc::Gzip = e { gzip_with(s, &body, false) } else { encode(s, e, &body) };
            let mut word = if let Enc::Gzip = e { "gzip" } else { "deflate" }.to_string();
            if s.chance(1, 3) {
                w = gzip_with(s, &w, false);
                word.push_str(", gzip");
            }
            let req = kind == 14;
            if req {
                before.push(Op::Req(format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Encoding: {}\r\nContent-Length: {}\r\n\r\n", word, w.len()).into_bytes()));
            } else {
                before.push(get.clone());
                before.push(Op::Res(format!("HTTP/1.1 200 OK\r\nContent-Encoding: {}\r\nContent-Length: {}\r\n\r\n", word, w.len()).into_bytes()));
            }
            let k = s.range(10, 900).max(w.len() / 300);
            stream = Some(w.chunks(k).map(|c| if req { Op::Req(c.to_vec()) } else { Op::Res(c.to_vec()) }).collect());
            if req { "compressed request body" } else { "compressed response body" }
        }
    };
    case.label(name);
    let many = s.range(100, 200);
    case.describe(|| format!("{name}\n{}\nthen {} times\n{}", show_ops(&before), many, show_ops(&unit)));
    let compressed = stream.is_some();
    let all: Vec<&Op> = match &stream {
        Some(v) => v.iter().collect(),
        None => (0..many).flat_map(|_| unit.iter()).collect(),
    };
    mute(vec![]);
    let start = live();
    let mut p = open(cfg.clone());
    let error = kind == 13;
    for (i, o) in before.iter().enumerate() {
        let st = op(&mut p, o);
        ensure!(case, matches!(st, S::DATA | S::TUNNEL | S::DATA_OTHER) || error && i + 1 == before.len() && st == S::ERROR, "answer {:?} to piece {}", st, i);
    }
    peak_reset();
    let tenth = if compressed { all.len() / 3 } else { all.len() / 10 };
    let mut early = 0;
    for (i, o) in all.iter().enumerate() {
        if i == tenth {
            early = peak();
        }
        op(&mut p, o);
    }
    let (early, late) = (early - start, peak() - start);
    // compressed data comes out in buffers of 8192 bytes
    let slack = if compressed { 40_000 } else { 6_000 };
    ensure!(case, all.len() < 30 || late <= early + slack, "up to {} bytes are held after {} pieces, up to {} after {}", early, tenth, late, all.len());
    // lzma gives out what a few of its bytes stand for at a time
    ensure!(case, late < if kind == 16 { 1_500_000 } else { 400_000 }, "{} bytes are held for a {}", late, name);
    drop(p);
    let kept = live() - start;
    ensure_eq!(case, kept, 0, "bytes that are not returned");
    case.nontrivial = all.len() >= 20 || kind == 16;
    Ok(())
}

/// An element that does not end holds no more than a few times the field limit.
fn unfinished(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let limit = s.range(1000, 8000);
    let mut cfg = base_config();
    cfg.set_field_limit(limit);
    cfg.log_level = HtpLogLevel::NONE;

    let g: &[u8] = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
    let kind = s.below(10);
    let (req, res): (&[u8], &[u8]) = match kind {
        0 => (b"G", b""),
        1 => (b"GET ", b""),
        2 => (b"GET / HTTP/1.1\r\nA", b""),
        3 => (b"GET / HTTP/1.1\r\nA: b\r\n c", b""),
        4 => (b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1;", b""),
        5 => (g, b"HTTP/1.1 200 "),
        6 => (g, b"HTTP/1.1 200 OK\r\nA"),
        7 => (g, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1;"),
        8 => (b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nA", b""),
        _ => (g, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nA: b\r\n c"),
    };
    let k = s.range(1, 400);
    let fold = matches!(kind, 3 | 9) && s.bool();
    let piece: Vec<u8> = if fold { [&vec![b'x'; k][..], b"\r\n "].concat() } else { vec![*s.pick(b"x0 "); k] };
    case.describe(|| format!("limit {limit}\n>>> {}\n<<< {}\nthen pieces of {k} bytes like {}", esc(req), esc(res), esc(&piece[..piece.len().min(20)])));
    let o = if res.is_empty() { Op::Req(piece.clone()) } else { Op::Res(piece.clone()) };
    mute(vec![]);
    let start = live();
    let mut p = open(cfg.clone());
    if !req.is_empty() {
        op(&mut p, &Op::Req(req.to_vec()));
    }
    if !res.is_empty() {
        op(&mut p, &Op::Res(res.to_vec()));
    }
    let held = live();
    let mut fed = 0;
    let mut most = 0;
    while fed < 30 * limit {
        let st = op(&mut p, &o);
        fed += k;
        most = most.max(live() - held);
        if st == S::ERROR {
            break;
        }
    }
    ensure!(case, most <= (8 * limit + 8000) as isize, "{} bytes are held for an element that may have {}", most, limit);
    drop(p);
    let kept = live() - start;
    ensure_eq!(case, kept, 0, "bytes that are not returned");
    case.nontrivial = fed / k >= 20;
    case.label("unfinished element");
    Ok(())
}

/// Everything is given back, whatever happened.
fn returned(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = random_config(s);
    if s.chance(1, 4) {
        cfg.log_level = HtpLogLevel::NONE;
    }
    let ops = wild_ops(s);
    let policy: Vec<(K, usize, Ret)> = (0..s.below(3)).map(|_| (*s.pick(&ALL_K), s.range(0, 3), *s.pick(&[Ret::Declined, Ret::Stop, Ret::Error]))).collect();
    let end = s.range(0, ops.len());
    let user = s.bool();
    let remove = s.chance(1, 3);
    case.describe(|| format!("{}\n{}\nends after {end} of {}", show_config(&cfg), show_ops(&ops), ops.len()));
    mute(policy);
    let start = live();
    let mut txs = 0;
    {
        let mut p = open(cfg.clone());
        for o in &ops[..end] {
            op(&mut p, o);
            if user {
                if let Some(t) = p.tx_mut(0) {
                    t.set_user_data(Box::new(vec![1u8; 100]));
                }
            }
            if remove {
                let n = p.tx_size();
                if n > 1 {
                    p.remove_tx(n - 2);
                }
            }
        }
        txs += p.tx_size();
    }
    let kept = live() - start;
    ensure_eq!(case, kept, 0, "bytes that are not returned");
    case.nontrivial = txs > 0;
    case.label("everything returned");
    Ok(())
}

/// The same through the C interface, with everything that has to be freed there.
fn through_c(s: &mut Src, case: &mut Case) -> Result<(), String> {
    use crate::p_capi::c_step;
    use htp::c_api::{bstr::*, config::*, connection::*, connection_parser::*, htp_free_cstring, log::*, transaction::*};
    let ops = wild_ops(s);
    let end = s.range(0, ops.len());
    let auto = s.bool();
    let read = s.chance(2, 3);
    let destroy = s.chance(1, 3);
    let named = s.bool();
    let zip = s.bool();
    let early = s.bool();
    case.describe(|| format!("automatic destruction {auto}, log read {read}, transactions destroyed {destroy}\n{}\nends after {end} of {}", show_ops(&ops), ops.len()));
    mute(vec![]);
    let mut txs = 0;
    let a = std::ffi::CString::new("10.1.2.3").unwrap();
    let start = live();
    unsafe {
        let c = htp_config_create();
        htp_config_set_tx_auto_destroy(c, auto as i32);
        htp_config_set_request_decompression(c, zip as i32);
        htp_config_set_parse_request_cookies(c, 1);
        let p = htp_connp_create(c);
        if early {
            htp_config_destroy(c);
        }
        let at = if named { a.as_ptr() } else { std::ptr::null() };
        htp_connp_open(p, at, 1000, at, 80, std::ptr::null_mut());
        for o in &ops[..end] {
            let _ = c_step(p, o, std::ptr::null());
            if destroy {
                let n = htp_connp_tx_size(p);
                if n > 0 {
                    let t = htp_connp_tx(p, n as usize - 1);
                    if !t.is_null() && htp_tx_request_progress(t) == htp::transaction::HtpRequestProgress::COMPLETE && htp_tx_response_progress(t) == htp::transaction::HtpResponseProgress::COMPLETE {
                        htp_tx_destroy(p, t);
                    }
                }
            }
        }
        txs += htp_connp_tx_size(p);
        let copy = bstr_dup_c(a.as_ptr());
        bstr_free(copy);
        if read {
            loop {
                let l = htp_conn_next_log(htp_connp_connection(p));
                if l.is_null() {
                    break;
                }
                htp_free_cstring(htp_log_message(l));
                htp_free_cstring(htp_log_file(l));
                htp_log_free(l);
            }
        }
        htp_connp_destroy_all(p);
        if !early {
            htp_config_destroy(c);
        }
    }
    let kept = live() - start;
    ensure_eq!(case, kept, 0, "bytes that are not returned");
    case.nontrivial = txs > 0;
    case.label("everything returned through C");
    Ok(())
}

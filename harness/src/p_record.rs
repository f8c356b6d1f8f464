//! P33: the record of the connection: addresses, times, places and packets.
use crate::drive::*;
use crate::engine::*;
use crate::traffic::*;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::transaction::Transaction;
use htp::util::HtpFlags;
use htp::HtpStatus;
use std::cell::RefCell;
use time::OffsetDateTime;

pub static PROPS: &[Prop] = &[Prop {
    id: "P33",
    rule: "a well-formed conversation cut anywhere, each call with or without a time, opened once, again, late or never, with refused calls in between and after a stream error; non-trivial when there are at least three calls and one of them carries a time",
    run: p33,
    quick: 400_000,
}];

#[derive(Clone, Debug)]
struct Seen {
    req: bool,
    line: bool,
    tx: usize,
    at: usize,
    time: OffsetDateTime,
}
thread_local! {
    static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(vec![]) };
}
unsafe fn note(p: *const ConnectionParser, t: *mut Transaction, req: bool, line: bool) -> HtpStatus {
    let p = &*p;
    let (at, time) = if req { (p.request_data_consumed(), p.request_timestamp) } else { (p.response_data_consumed(), p.response_timestamp) };
    let tx = (*t).index;
    SEEN.with(|v| v.borrow_mut().push(Seen { req, line, tx, at, time }));
    HtpStatus::OK
}
unsafe extern "C" fn req_line(p: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
    note(p, t, true, true)
}
unsafe extern "C" fn req_headers(p: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
    note(p, t, true, false)
}
unsafe extern "C" fn res_line(p: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
    note(p, t, false, true)
}
unsafe extern "C" fn res_headers(p: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
    note(p, t, false, false)
}

fn stamp(s: &mut Src) -> OffsetDateTime {
    OffsetDateTime::from_unix_timestamp_nanos(s.below(4_000_000_000_000_000_000) as i128).unwrap()
}
fn maybe(s: &mut Src) -> Option<OffsetDateTime> {
    if s.chance(2, 3) { Some(stamp(s)) } else { None }
}
type Addr = (Option<std::net::IpAddr>, Option<u16>, Option<std::net::IpAddr>, Option<u16>);
fn addr(s: &mut Src) -> Addr {
    let ip = |s: &mut Src| -> Option<std::net::IpAddr> {
        match s.below(4) {
            0 => None,
            1 => Some(std::net::Ipv6Addr::from(s.below(u64::MAX) as u128 * 7919).into()),
            _ => Some(std::net::Ipv4Addr::from(s.below(1 << 32) as u32).into()),
        }
    };
    (ip(s), s.bool().then(|| s.below(65536) as u16), ip(s), s.bool().then(|| s.below(65536) as u16))
}

/// What the record has to say.
#[derive(Clone, PartialEq, Debug)]
struct Record {
    addr: Addr,
    opened: OffsetDateTime,
    closed: OffsetDateTime,
    req: OffsetDateTime,
    res: OffsetDateTime,
    counters: (u64, u64),
}
fn record(p: &ConnectionParser) -> Record {
    let c = &p.conn;
    Record {
        addr: (c.client_addr, c.client_port, c.server_addr, c.server_port),
        opened: c.open_timestamp,
        closed: c.close_timestamp,
        req: p.request_timestamp,
        res: p.response_timestamp,
        counters: (c.request_data_counter, c.response_data_counter),
    }
}

fn p33(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style::default();
    let x = gen_conversation(s, &st);
    let t = streams(&x);
    let ops = gen_schedule(s, &t, false);
    case.describe(|| show_ops(&ops));
    let mut cfg = Config::default();
    cfg.log_level = htp::log::HtpLogLevel::ERROR;
    cfg.hook_request_line.register_extern(req_line);
    cfg.hook_request_headers.register_extern(req_headers);
    cfg.hook_response_line.register_extern(res_line);
    cfg.hook_response_headers.register_extern(res_headers);
    SEEN.with(|v| v.borrow_mut().clear());
    let mut p = ConnectionParser::new(cfg);
    let mut want = record(&p);
    let open = !s.chance(1, 6);
    let mut refused_opens = 0;
    if open {
        let (a, ts) = (addr(s), maybe(s));
        p.open(a.0, a.1, a.2, a.3, ts);
        want.addr = a;
        if let Some(ts) = ts {
            want.opened = ts;
        }
        ensure_eq!(case, record(&p), want, "record after the open");
    }
    let odd = s.below(4);
    let every = s.range(1, 6) as u64;
    let (mut rq, mut rs) = (vec![0usize], vec![0usize]);
    let mut timed = false;
    // an incident between the calls
    let incident = |s: &mut Src, case: &mut Case, p: &mut ConnectionParser, want: &Record, refused: &mut usize, started: bool| -> Result<(), String> {
        if s.bool() {
            if !open && !started {
                return Ok(());
            }
            let (a, ts) = (addr(s), maybe(s));
            p.open(a.0, a.1, a.2, a.3, ts);
            *refused += 1;
            ensure_eq!(case, record(p), *want, "record after an open of a connection in use");
        } else {
            let req = s.bool();
            let ts = maybe(s);
            let d = ParserData::from(&b""[..]);
            let st = if req { p.request_data(d, ts) } else { p.response_data(d, ts) };
            ensure_eq!(case, st, S::CLOSED, "answer to no data");
            ensure_eq!(case, record(p), *want, "record after a call without data");
        }
        Ok(())
    };
    let mut seen_to = 0;
    for (i, o) in ops.iter().enumerate() {
        if odd == 0 && s.chance(1, every + 1) {
            incident(s, case, &mut p, &want, &mut refused_opens, i > 0)?;
        }
        let ts = maybe(s);
        timed |= ts.is_some();
        let (req, b) = match o {
            Op::Req(b) => (true, b),
            Op::Res(b) => (false, b),
            _ => break,
        };
        let base = *if req { rq.last() } else { rs.last() }.unwrap();
        if req {
            want.counters.0 += b.len() as u64;
            want.req = ts.unwrap_or(want.req);
            rq.push(base + b.len());
        } else {
            want.counters.1 += b.len() as u64;
            want.res = ts.unwrap_or(want.res);
            rs.push(base + b.len());
        }
        let d = ParserData::from(b.as_slice());
        let st = if req { p.request_data(d, ts) } else { p.response_data(d, ts) };
        ensure_eq!(case, st, S::DATA, "answer");
        ensure_eq!(case, record(&p), want, "record after call {}", i);
        // the callbacks of this call were told its time and where in it the parser is
        let new = SEEN.with(|v| v.borrow()[seen_to..].to_vec());
        seen_to += new.len();
        for e in &new {
            ensure_eq!(case, e.req, req, "direction of a callback");
            ensure_eq!(case, e.time, if req { want.req } else { want.res }, "time told during a callback");
            let pos = base + e.at;
            if req {
                let start = if e.tx == 0 { 0 } else { t.req_end[e.tx - 1] };
                let end = t.req_head_end[e.tx];
                if e.line {
                    let m = start + x[e.tx].req.wire.head - x[e.tx].req.wire.raw_headers.len();
                    ensure_eq!(case, pos, m, "place of the parser when request line {} was told", e.tx);
                } else {
                    ensure_eq!(case, pos, end, "place of the parser when the header fields of request {} were told", e.tx);
                }
            } else {
                let start = if e.tx == 0 { 0 } else { t.res_end[e.tx - 1] };
                ensure!(case, pos > start && pos <= t.res_end[e.tx], "place of the parser told in response {}: {}", e.tx, pos);
                if !e.line {
                    ensure_eq!(case, pos, start + x[e.tx].res.wire.head, "place of the parser when the header fields of response {} were told", e.tx);
                }
            }
        }
    }
    ensure_eq!(case, p.tx_size(), x.len(), "number of transactions");
    // which request heads came in several packets
    let mut many = 0;
    for i in 0..x.len() {
        let start = if i == 0 { 0 } else { t.req_end[i - 1] };
        let end = t.req_head_end[i];
        let line = start + x[i].req.wire.head - x[i].req.wire.raw_headers.len();
        let first = *rq.iter().find(|c| **c > start).unwrap();
        let told = p.tx(i).ok_or("missing transaction")?.flags & HtpFlags::MULTI_PACKET_HEAD != 0;
        if first >= end {
            ensure!(case, !told, "the head of request {} came in one packet and is marked as in several", i);
        } else if i == 0 || first >= line {
            ensure!(case, told, "the head of request {} came in several packets and is not marked", i);
            many += 1;
        }
    }
    let mut dead = false;
    if odd == 1 {
        // a request stream in error
        let bad: &[u8] = b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n";
        want.counters.0 += bad.len() as u64;
        let ts = stamp(s);
        want.req = ts;
        ensure_eq!(case, p.request_data(ParserData::from(bad), Some(ts)), S::ERROR, "answer to an unusable chunk line");
        ensure_eq!(case, record(&p), want, "record after an error");
        ensure_eq!(case, p.request_data(ParserData::from(bad), maybe_some(s)), S::ERROR, "answer after an error");
        ensure_eq!(case, record(&p), want, "record after a refused call");
        dead = true;
    }
    if s.chance(1, 4) {
        let ts = maybe(s);
        p.request_close(ts);
        let mut w = want.clone();
        w.req = if dead { want.req } else { ts.unwrap_or(want.req) };
        ensure_eq!(case, record(&p), w, "record after the close of the request stream");
        want = w;
    }
    let ts = maybe(s);
    p.close(ts);
    if let Some(ts) = ts {
        want.closed = ts;
        want.res = ts;
        if !dead {
            want.req = ts;
        }
    }
    ensure_eq!(case, record(&p), want, "record after the close");
    let logged = p.conn.get_logs().iter().filter(|l| l.msg.code == htp::log::HtpLogCode::CONNECTION_ALREADY_OPEN).count();
    ensure_eq!(case, logged, refused_opens, "messages about opens of a connection in use");
    case.nontrivial = ops.len() >= 4 && timed;
    case.label(if dead { "stream error" } else if many > 0 { "heads in several packets" } else { "heads in one packet" });
    Ok(())
}
fn maybe_some(s: &mut Src) -> Option<OffsetDateTime> {
    Some(stamp(s))
}

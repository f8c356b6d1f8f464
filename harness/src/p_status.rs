//! P08: what a callback answers. P09: raw header and trailer bytes.
use crate::drive::*;
use crate::engine::*;
use crate::traffic::*;
use htp::connection_parser::{HtpStreamState as S, ParserData};
use htp::transaction::Transaction;
use htp::HtpStatus;
use std::cell::RefCell;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P08",
        rule: "a generated conversation is run plainly and again with one or two callbacks answering declined, stop or error, or with several callbacks registered per event; non-trivial when such an answer was given",
        run: p08,
        quick: 400_000,
    },
    Prop {
        id: "P09",
        rule: "generated conversations with random cuts; non-trivial when some message has 2 or more header or trailer lines",
        run: p09,
        quick: 400_000,
    },
];

fn same_event(a: &Event, b: &Event) -> bool {
    a.k == b.k && a.tx == b.tx && a.data == b.data
}
fn is_raw(k: K) -> bool {
    matches!(k, K::ReqHeaderData | K::ReqTrailerData | K::ResHeaderData | K::ResTrailerData)
}

fn p08(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(1, 4) {
        return p08_many(s, case);
    }
    let connect = s.chance(1, 5);
    let ops = if connect {
        connect_ops(s)
    } else {
        let st = Style { max_exchanges: 4, big: false, ..Default::default() };
        let x = gen_conversation(s, &st);
        let t = streams(&x);
        gen_schedule(s, &t, false)
    };
    case.describe(|| show_ops(&ops));
    let mut base = Conn::new(base_config());
    base.run(&ops);
    let ev0 = base.events();
    let view0 = crate::p_segment::view(&base);
    // pick one callback of the plain run; raw header pieces cannot refuse (their answer is ignored at a packet end)
    let pool: Vec<usize> = (0..ev0.len()).filter(|i| !is_raw(ev0[*i].k)).collect();
    if pool.is_empty() {
        return Ok(());
    }
    let at = pool[s.u(pool.len())];
    let k = ev0[at].k;
    let nth = ev0[..at].iter().filter(|e| e.k == k).count();
    let ret = *s.pick(&[Ret::Declined, Ret::Stop, Ret::Error]);
    case.describe(|| format!("callback {:?} number {} answers {:?}", k, nth, ret));
    let mut policy = vec![(k, nth, ret)];
    if ret == Ret::Declined && s.bool() {
        // every callback may decline
        policy = ALL_K.iter().flat_map(|k| (0..6).map(move |n| (*k, n, Ret::Declined))).collect();
    }
    let mut c = Conn::with_policy(base_config(), policy, None);
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    case.nontrivial = true;
    case.label(&format!("{:?}", ret));
    if ret == Ret::Declined {
        ensure_eq!(case, ev.len(), ev0.len(), "declining changes the number of callbacks");
        for (a, b) in ev.iter().zip(ev0.iter()) {
            ensure!(case, same_event(a, b), "declining changes a callback: {} instead of {}", show_events(&[a.clone()]), show_events(&[b.clone()]));
        }
        ensure!(case, c.calls == base.calls, "declining changes what data calls answer");
        let v = crate::p_segment::view(&c);
        return crate::p_segment::compare(case, &v, &view0);
    }
    // up to the answer nothing differs
    ensure!(case, ev.len() > at, "callback {} was not reached", at);
    for i in 0..=at {
        ensure!(case, same_event(&ev[i], &ev0[i]), "callback {} differs before anything was answered", i);
    }
    // the data call during which it was answered
    let Some(ci) = c.calls.iter().position(|k| k.events_after > at) else {
        // it was answered during the close: nothing to observe but that it ended
        case.label("answered during close");
        return Ok(());
    };
    let req = c.calls[ci].req;
    let want = if ret == Ret::Stop { S::STOP } else { S::ERROR };
    ensure_eq!(case, c.calls[ci].st, want, "answer of the data call in which callback {:?} answered {:?}", k, ret);
    ensure_eq!(case, c.calls[ci].events_after, at + 1, "callbacks after {:?} answered {:?} in the same call", k, ret);
    // this direction is dead until the close
    let end = c.calls.last().unwrap().events_after;
    for k in &c.calls[ci + 1..] {
        if k.req == req {
            ensure_eq!(case, k.st, want, "later calls of the direction");
            ensure_eq!(case, k.consumed, 0, "bytes consumed by a later call of the direction");
        }
    }
    let dead = |e: &Event| if req { e.k.is_req() } else { e.k.is_res() };
    let upto = if ret == Ret::Stop { end } else { ev.len() };
    for e in &ev[at + 1..upto] {
        ensure!(case, !dead(e), "{:?} of transaction {} although its direction answered {:?}", e.k, e.tx, want);
    }
    // the other direction goes on, unless it has to wait for this one
    if connect {
        case.label(if req { "request side ended around a CONNECT" } else { "response side ended around a CONNECT" });
        return Ok(());
    }
    if req {
        // responses to requests that were complete before
        let done: Vec<usize> = ev[..=at].iter().filter(|e| e.k == K::ReqComplete).map(|e| e.tx).collect();
        let n = if k == K::ReqComplete { done.len().saturating_sub(1) } else { done.len() };
        let a: Vec<&Event> = ev[..end].iter().filter(|e| e.k.is_res() && e.tx < n).collect();
        let e0 = base.calls.last().unwrap().events_after;
        let b: Vec<&Event> = ev0[..e0].iter().filter(|e| e.k.is_res() && e.tx < n).collect();
        ensure!(case, a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| same_event(a, b)), "responses to complete requests change when the request direction answers {:?}", want);
        if n > 0 { case.label("request side ended, responses go on"); }
    } else {
        let a: Vec<&Event> = ev[..end].iter().filter(|e| e.k.is_req()).collect();
        let e0 = base.calls.last().unwrap().events_after;
        let b: Vec<&Event> = ev0[..e0].iter().filter(|e| e.k.is_req()).collect();
        ensure!(case, a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| same_event(a, b)), "requests change when the response direction answers {:?}", want);
        case.label("response side ended, requests go on");
    }
    Ok(())
}

/// Requests of which one is a CONNECT or an upgrade, answered in any way, and what follows.
fn connect_ops(s: &mut Src) -> Vec<Op> {
    let (mut q, mut r) = (vec![], vec![]);
    for i in 0..s.range(0, 2) {
        q.push(format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", i).into_bytes());
        r.push(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec());
    }
    let up = s.chance(1, 4);
    q.push(if up { b"GET /up HTTP/1.1\r\nHost: h\r\nUpgrade: x\r\n\r\n".to_vec() } else { b"CONNECT h:80 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec() });
    let code = if up { *s.pick(&[101, 101, 200]) } else { *s.pick(&[200, 204, 299, 407, 400, 403, 500, 302, 101]) };
    r.push(if code < 300 {
        format!("HTTP/1.1 {} X\r\nX: y\r\n\r\n", code).into_bytes()
    } else {
        format!("HTTP/1.1 {} X\r\nContent-Length: 3\r\n\r\nbad", code).into_bytes()
    });
    for i in 0..s.range(0, 3) {
        if s.bool() {
            q.push(format!("POST /t{} HTTP/1.1\r\nHost: h\r\nContent-Length: 1\r\n\r\nx", i).into_bytes());
            r.push(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec());
        } else {
            q.push(b"\x16\x03\x01 tunnelled\n".to_vec());
            r.push(b"\x16\x03\x03 tunnelled\n".to_vec());
        }
    }
    // pipelined by at most two, cut anywhere
    let ahead = s.range(1, 2);
    let mut ops = vec![];
    let (mut i, mut j) = (0, 0);
    while i < q.len() || j < r.len() {
        let req = i < q.len() && (j >= r.len() || i <= j || (i < j + ahead && s.bool()));
        let b = if req { i += 1; &q[i - 1] } else { j += 1; &r[j - 1] };
        let c = if s.chance(1, 3) { s.range(1, b.len() - 1) } else { b.len() };
        for p in [&b[..c], &b[c..]] {
            if !p.is_empty() {
                ops.push(if req { Op::Req(p.to_vec()) } else { Op::Res(p.to_vec()) });
            }
        }
    }
    if s.bool() {
        ops.push(Op::Close);
    }
    ops
}

// ---- several callbacks per event -------------------------------------------------
thread_local! {
    static HITS: RefCell<Vec<(u8, u8, usize)>> = const { RefCell::new(vec![]) };
    /// (slot, position, answer)
    static PLAN: RefCell<Vec<(u8, u8, Ret)>> = const { RefCell::new(vec![]) };
}
fn hit(slot: u8, pos: u8, tx: usize) -> Result<(), HtpStatus> {
    HITS.with(|h| h.borrow_mut().push((slot, pos, tx)));
    let r = PLAN.with(|p| p.borrow().iter().find(|x| x.0 == slot && x.1 == pos).map(|x| x.2));
    match r {
        None | Some(Ret::Ok) => Ok(()),
        Some(Ret::Declined) => Err(HtpStatus::DECLINED),
        Some(Ret::Stop) => Err(HtpStatus::STOP),
        Some(Ret::Error) => Err(HtpStatus::ERROR),
    }
}
fn t<const S: u8, const P: u8>(tx: &mut Transaction) -> Result<(), HtpStatus> {
    hit(S, P, tx.index)
}
fn d<const S: u8, const P: u8>(tx: &mut Transaction, _: &ParserData) -> Result<(), HtpStatus> {
    hit(S, P, tx.index)
}
macro_rules! row {
    ($f:ident $s:expr; $($p:expr)*) => { [$($f::<$s, $p>),*] };
}
/// The most callbacks registered for one event.
const MANY: usize = 12;
fn per_tx(tx: &mut Transaction) -> Result<(), HtpStatus> {
    // callbacks for this transaction only run before the general ones
    if tx.index % 2 == 1 {
        tx.register_request_body_data(d::<4, 0>);
        tx.hook_response_body_data.register(d::<5, 0>);
    }
    Ok(())
}

fn p08_many(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = s.range(1, 4);
    let mut cfg = htp::config::Config::default();
    cfg.register_request_start(per_tx);
    let tx: [[fn(&mut Transaction) -> Result<(), HtpStatus>; MANY]; 4] = [
        row!(t 0; 0 1 2 3 4 5 6 7 8 9 10 11), row!(t 1; 0 1 2 3 4 5 6 7 8 9 10 11),
        row!(t 2; 0 1 2 3 4 5 6 7 8 9 10 11), row!(t 3; 0 1 2 3 4 5 6 7 8 9 10 11),
    ];
    let data: [[fn(&mut Transaction, &ParserData) -> Result<(), HtpStatus>; MANY]; 2] =
        [row!(d 4; 1 2 3 4 5 6 7 8 9 10 11 12), row!(d 5; 1 2 3 4 5 6 7 8 9 10 11 12)];
    // how many callbacks each event gets
    let cnt: Vec<usize> = (0..6).map(|_| if s.chance(1, 8) { s.range(4, MANY) } else { s.range(0, 3) }).collect();
    for i in 0..MANY {
        if i < cnt[0] { cfg.register_request_line(tx[0][i]); }
        if i < cnt[1] { cfg.register_request_complete(tx[1][i]); }
        if i < cnt[2] { cfg.register_response_headers(tx[2][i]); }
        if i < cnt[3] { cfg.register_transaction_complete(tx[3][i]); }
    }
    // positions 1.. are the general body callbacks, 0 the one of the transaction
    let (bq, bs) = (cnt[4], cnt[5]);
    for i in 0..bq { cfg.register_request_body_data(data[0][i]); }
    for i in 0..bs { cfg.register_response_body_data(data[1][i]); }
    let mut plan: Vec<(u8, u8, Ret)> = vec![];
    for _ in 0..s.range(0, 2) {
        plan.push((s.u(6) as u8, if s.chance(1, 4) { s.u(MANY + 1) } else { s.u(3) } as u8, *s.pick(&[Ret::Declined, Ret::Stop, Ret::Error])));
    }
    case.describe(|| format!("{} exchanges, callbacks {:?} {} {}, plan {:?}", n, cnt, bq, bs, plan));
    PLAN.with(|p| *p.borrow_mut() = plan.clone());
    HITS.with(|h| h.borrow_mut().clear());
    let mut c = Conn::new(cfg);
    // model
    let answer = |slot: u8, pos: u8| plan.iter().find(|x| x.0 == slot && x.1 == pos).map(|x| x.2).unwrap_or(Ret::Ok);
    let mut want: Vec<(u8, u8, usize)> = vec![];
    let run = |want: &mut Vec<(u8, u8, usize)>, slot: u8, poss: &[u8], tx: usize| -> Option<S> {
        for p in poss {
            want.push((slot, *p, tx));
            match answer(slot, *p) {
                Ret::Stop => return Some(S::STOP),
                Ret::Error => return Some(S::ERROR),
                _ => {}
            }
        }
        None
    };
    let (mut dq, mut ds) = (None, None);
    for i in 0..n {
        if dq.is_some() { break; }
        let a: Vec<u8> = (0..cnt[0] as u8).collect();
        let b: Vec<u8> = (0..cnt[1] as u8).collect();
        let mut bodyq: Vec<u8> = if i % 2 == 1 { vec![0] } else { vec![] };
        bodyq.extend((0..bq as u8).map(|x| x + 1));
        let st = c.feed_req(b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\n\r\nhi");
        dq = run(&mut want, 0, &a, i);
        // the data, then the end of the body (twice)
        for _ in 0..3 {
            if dq.is_none() { dq = run(&mut want, 4, &bodyq, i); }
        }
        if dq.is_none() { dq = run(&mut want, 1, &b, i); }
        ensure_eq!(case, st, dq.unwrap_or(S::DATA), "answer to request {}", i);
        if dq.is_some() || ds.is_some() {
            // an unanswered request stays behind; responses end here
            if dq.is_some() { break; }
            continue;
        }
        let h: Vec<u8> = (0..cnt[2] as u8).collect();
        let t: Vec<u8> = (0..cnt[3] as u8).collect();
        let mut bodys: Vec<u8> = if i % 2 == 1 { vec![0] } else { vec![] };
        bodys.extend((0..bs as u8).map(|x| x + 1));
        let st = c.feed_res(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nyo");
        ds = run(&mut want, 2, &h, i);
        if ds.is_none() { ds = run(&mut want, 5, &bodys, i); }
        if ds.is_none() { ds = run(&mut want, 3, &t, i); }
        ensure_eq!(case, st, ds.unwrap_or(S::DATA), "answer to response {}", i);
    }
    let got = HITS.with(|h| h.borrow().clone());
    // the end-of-body signal may be told once or twice: compare without repeats
    let squash = |v: &[(u8, u8, usize)]| {
        let mut groups: Vec<(u8, usize, Vec<u8>)> = vec![];
        for (slot, p, t) in v {
            match groups.last_mut() {
                Some(g) if g.0 == *slot && g.1 == *t && g.2.last().is_some_and(|l| l < p) => g.2.push(*p),
                _ => groups.push((*slot, *t, vec![*p])),
            }
        }
        groups.dedup();
        groups
    };
    ensure_eq!(case, squash(&got), squash(&want), "callbacks in order (event, transaction, positions)");
    case.nontrivial = got.len() > 3;
    case.label("several callbacks per event");
    Ok(())
}

// ---- P09 ----------------------------------------------------------------------
fn p09(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { big: false, ..Default::default() };
    let mut x = gen_conversation(s, &st);
    let odd = s.bool();
    if odd {
        crate::p_segment::strange(s, &mut x);
        case.label("odd lines");
    }
    let t = streams(&x);
    let ops = gen_schedule(s, &t, false);
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    // an odd status line may change the framing, hence what follows the first message
    let n = if odd { 1 } else { x.len() };
    for (i, e) in x.iter().take(n).enumerate() {
        let mut res = vec![];
        for m in &e.res.interims {
            for h in &m.headers {
                h.write(&mut res, &e.res.eol);
            }
            res.extend_from_slice(&e.res.eol);
        }
        res.extend_from_slice(&e.res.wire.raw_headers);
        ensure_eq!(case, esc(&data_of(&ev, K::ReqHeaderData, i)), esc(&e.req.wire.raw_headers), "raw header data of request {}", i);
        ensure_eq!(case, esc(&data_of(&ev, K::ResHeaderData, i)), esc(&res), "raw header data of response {}", i);
        ensure_eq!(case, esc(&data_of(&ev, K::ReqTrailerData, i)), esc(&e.req.wire.raw_trailer), "raw trailer data of request {}", i);
        ensure_eq!(case, esc(&data_of(&ev, K::ResTrailerData, i)), esc(&e.res.wire.raw_trailer), "raw trailer data of response {}", i);
        // all raw data of a section is told before the section is reported as complete
        for (d, done) in [(K::ReqHeaderData, K::ReqHeaders), (K::ReqTrailerData, K::ReqTrailer), (K::ResHeaderData, K::ResHeaders), (K::ResTrailerData, K::ResTrailer)] {
            if let Some(p) = ev.iter().position(|v| v.tx == i && v.k == done) {
                ensure!(case, !ev[p..].iter().any(|v| v.tx == i && v.k == d), "{:?} after {:?} of transaction {}", d, done, i);
            }
        }
        if e.req.headers.len() >= 2 || e.res.headers.len() >= 2 || !e.req.body.trailers.is_empty() || !e.res.body.trailers.is_empty() {
            case.nontrivial = true;
        }
        if !e.req.body.trailers.is_empty() || !e.res.body.trailers.is_empty() { case.label("trailer fields"); }
        if !e.res.interims.is_empty() { case.label("interim response"); }
    }
    Ok(())
}

//! P23: missing bytes.
use crate::drive::*;
use crate::engine::*;
use crate::p_traffic::{check_headers, req_fields, res_fields, bs};
use crate::snap::{diff, snapshot};
use crate::traffic::*;
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::*;
use htp::util::HtpFlags as F;

pub static PROPS: &[Prop] = &[Prop {
    id: "P23",
    rule: "well-formed conversations with gaps inside bodies, past their end or where they cannot be bridged; non-trivial when at least one gap was given",
    run: p23,
    quick: 500_000,
}];

fn p23(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(8) {
        0..=4 if s.chance(1, 12) => huge(s, case),
        0..=4 => bridged(s, case),
        5 | 6 => refused(s, case),
        _ => leading(s, case),
    }
}

/// Body data of a transaction with None for missing bytes.
fn body_of(ev: &[Event], k: K, tx: usize) -> Vec<Option<u8>> {
    let mut v = vec![];
    for e in ev.iter().filter(|e| e.k == k && e.tx == tx) {
        match &e.data {
            Payload::Bytes(b) => v.extend(b.iter().map(|c| Some(*c))),
            Payload::Gap(n) => v.extend(std::iter::repeat(None).take(*n)),
            _ => {}
        }
    }
    v
}
fn text(v: &[Option<u8>]) -> String {
    v.iter().map(|c| c.map(|c| esc(&[c])).unwrap_or_else(|| "<?>".into())).collect()
}

/// Gaps of any length in a body of any length.
fn huge(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.bool();
    let n = crate::p_lines::big(s).min(1 << 62).max(1);
    let close = !req && s.chance(1, 4);
    let mut c = Conn::new(base_config());
    let mut ops = vec![];
    if !req {
        ops.push(Op::Req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec()));
    }
    let op = |b: Vec<u8>| if req { Op::Req(b) } else { Op::Res(b) };
    let head = match (req, close) {
        (true, _) => format!("PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: {}\r\n\r\n", n),
        (_, false) => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", n),
        _ => "HTTP/1.1 200 OK\r\nServer: x\r\n\r\n".to_string(),
    };
    ops.push(op(head.into_bytes()));
    // what is delivered: bytes and missing ones in turn
    let mut want: Vec<Result<Vec<u8>, u64>> = vec![];
    let mut left = n;
    let mut over = false;
    let mut real = 0u64;
    while left > 0 {
        if s.chance(1, 3) {
            let k = left.min(s.range(1, 20) as u64);
            let b = s.bytes_from(b"abc\r\n0", k as usize, k as usize);
            left -= k;
            real += k;
            ops.push(op(b.clone()));
            match want.last_mut() {
                Some(Ok(v)) => v.extend_from_slice(&b),
                _ => want.push(Ok(b)),
            }
            continue;
        }
        let g = match s.below(4) {
            0 => left,
            1 => left.saturating_sub(s.below(30)).max(1),
            _ => crate::p_lines::big(s).clamp(1, left),
        };
        let mut told = g;
        if g == left && !close && s.chance(1, 4) {
            told = g.saturating_add(crate::p_lines::big(s)).min(1 << 62).max(g);
            over = told > g;
        }
        left -= g;
        ops.push(if req { Op::ReqGap(told as usize) } else { Op::ResGap(told as usize) });
        match want.last_mut() {
            Some(Err(k)) => *k += g,
            _ => want.push(Err(g)),
        }
        if ops.len() > 40 && left > 0 {
            ops.push(if req { Op::ReqGap(left as usize) } else { Op::ResGap(left as usize) });
            match want.last_mut() {
                Some(Err(k)) => *k += left,
                _ => want.push(Err(left)),
            }
            left = 0;
        }
    }
    case.describe(|| show_ops(&ops));
    for (i, o) in ops.iter().enumerate() {
        let st = c.op(o);
        if !(over && i + 1 == ops.len()) {
            ensure_eq!(case, st, Some(S::DATA), "answer to {}", show_ops(std::slice::from_ref(o)));
        }
    }
    if close {
        c.op(&Op::Close);
    }
    let ev = c.events();
    case.describe(|| show_events(&ev));
    let (k, done) = if req { (K::ReqBody, K::ReqComplete) } else { (K::ResBody, K::ResComplete) };
    let mut got: Vec<Result<Vec<u8>, u64>> = vec![];
    for e in ev.iter().filter(|e| e.k == k && e.tx == 0) {
        match (&e.data, got.last_mut()) {
            (Payload::Bytes(b), _) if b.is_empty() => {}
            (Payload::Bytes(b), Some(Ok(v))) => v.extend_from_slice(b),
            (Payload::Bytes(b), _) => got.push(Ok(b.clone())),
            (Payload::Gap(g), Some(Err(n))) => *n += *g as u64,
            (Payload::Gap(g), _) => got.push(Err(*g as u64)),
            _ => {}
        }
    }
    ensure_eq!(case, got, want, "body with its missing bytes");
    ensure_eq!(case, ev.iter().filter(|e| e.k == done && e.tx == 0).count(), 1, "completion of the message");
    let tx = c.connp.tx(0).ok_or("no transaction")?;
    let (len, ent) = if req { (tx.request_message_len, tx.request_entity_len) } else { (tx.response_message_len, tx.response_entity_len) };
    ensure_eq!(case, len, n, "message length");
    ensure_eq!(case, ent, real, "entity length");
    let flag = if req { F::REQUEST_MISSING_BYTES } else { F::RESPONSE_MISSING_BYTES };
    let gaps = want.iter().any(|w| w.is_err());
    ensure_eq!(case, tx.flags & flag == flag, gaps, "missing bytes mark");
    if !close && !over {
        c.feed_req(b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n");
        ensure_eq!(case, c.connp.tx(1).and_then(|t| bs(&t.request_uri)), Some("/next".to_string()), "target of the next request");
        if !req {
            c.feed_res(b"HTTP/1.1 404 No\r\nContent-Length: 0\r\n\r\n");
            ensure_eq!(case, c.connp.tx(1).map(|t| t.response_status_number), Some(HtpResponseNumber::VALID(404)), "status of the next response");
        }
    }
    case.nontrivial = gaps;
    case.label("gaps of any length");
    Ok(())
}

fn bridged(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 4, big: false, ..Default::default() };
    let x = gen_conversation(s, &st);
    let t = streams(&x);
    // the ranges that may be missing, and those that are: (start, end, transaction)
    let mut gaps: [Vec<(usize, usize)>; 2] = [vec![], vec![]];
    let mut want: Vec<[Vec<Option<u8>>; 2]> = vec![];
    let mut hit = vec![[false; 2]; x.len()];
    let (mut ra, mut sa) = (0, 0);
    for (i, e) in x.iter().enumerate() {
        let mut w = [vec![], vec![]];
        for d in 0..2 {
            let (body, head, at) = if d == 0 { (&e.req.body, e.req.wire.head, ra) } else { (&e.res.body, e.res.wire.head, sa) };
            w[d] = body.data.iter().map(|c| Some(*c)).collect::<Vec<_>>();
            let n = body.data.len();
            if matches!(body.kind, Kind::Cl | Kind::Close) && n > 0 && s.chance(2, 3) {
                let mut p = 0;
                for _ in 0..s.range(1, 3) {
                    if p >= n {
                        break;
                    }
                    let a = s.range(p, n - 1);
                    let b = if s.chance(1, 3) { n } else { s.range(a + 1, n) };
                    gaps[d].push((at + head + a, at + head + b));
                    w[d][a..b].iter_mut().for_each(|c| *c = None);
                    p = b;
                    hit[i][d] = true;
                }
            }
        }
        want.push(w);
        ra += e.req.wire.bytes.len();
        sa += e.res.wire.bytes.len();
    }
    let mut rc = gen_cuts(s, t.req.len(), &t.req_marks);
    let mut sc = gen_cuts(s, t.res.len(), &t.res_marks);
    for (v, g, n) in [(&mut rc, &gaps[0], t.req.len()), (&mut sc, &gaps[1], t.res.len())] {
        v.extend(g.iter().flat_map(|g| [g.0, g.1]).filter(|p| *p > 0 && *p < n));
        v.sort();
        v.dedup();
    }
    let order = *s.pick(&[Order::Eager, Order::ReqFirst, Order::Random]);
    let raw = schedule(s, &t, &rc, &sc, order, false);
    let (mut ra, mut sa) = (0, 0);
    // the last gap of the conversation may be longer than what is missing
    let over = s.chance(1, 5);
    let mut ops: Vec<Op> = vec![];
    let mut n_gap = 0;
    let total = [t.req.len(), t.res.len()];
    let mut overrun = [false; 2];
    let mut last_gap = [usize::MAX; 2];
    for o in raw {
        let (d, at, n) = match &o {
            Op::Req(b) => { ra += b.len(); (0, ra - b.len(), b.len()) }
            Op::Res(b) => { sa += b.len(); (1, sa - b.len(), b.len()) }
            _ => unreachable!(),
        };
        if gaps[d].iter().any(|g| g.0 <= at && at + n <= g.1) {
            n_gap += 1;
            let close = x.last().unwrap().res.body.kind == Kind::Close && d == 1;
            let mut n = n;
            if over && at + n == total[d] && !close {
                last_gap[d] = ops.len();
                n += s.range(1, 50);
                overrun[d] = true;
            }
            ops.push(if d == 0 { Op::ReqGap(n) } else { Op::ResGap(n) });
        } else {
            ops.push(o);
        }
    }
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    for (j, o) in ops.iter().enumerate() {
        let st = c.op(o);
        let past = match o { Op::ReqGap(_) => overrun[0], Op::ResGap(_) => overrun[1], _ => false };
        if !past {
            ensure_eq!(case, st, Some(S::DATA), "answer to {}", show_ops(std::slice::from_ref(o)));
        }
        if last_gap.contains(&j) {
            // nothing is missing of the message any more: it is complete now, not at the close
            let k = if matches!(o, Op::ReqGap(_)) { K::ReqComplete } else { K::ResComplete };
            ensure_eq!(case, c.events().iter().filter(|v| v.k == k && v.tx == x.len() - 1).count(), 1,
                "{:?} told by the end of {}", k, show_ops(std::slice::from_ref(o)));
        }
    }
    c.op(&Op::Close);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    ensure_eq!(case, c.connp.tx_size(), x.len(), "number of transactions");
    for (i, e) in x.iter().enumerate() {
        let tx = c.connp.tx(i).ok_or("a transaction is missing")?;
        ensure_eq!(case, bs(&tx.request_uri), Some(esc(&e.req.uri)), "target of request {}", i);
        check_headers(case, &format!("request {}", i), &tx.request_headers, &req_fields(&e.req))?;
        check_headers(case, &format!("response {}", i), &tx.response_headers, &res_fields(&e.res))?;
        ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(e.res.code), "status of response {}", i);
        for d in 0..2 {
            let (k, len, wire, ent, flag) = if d == 0 {
                (K::ReqBody, tx.request_message_len, e.req.wire.body_wire, tx.request_entity_len, F::REQUEST_MISSING_BYTES)
            } else {
                (K::ResBody, tx.response_message_len, e.res.wire.body_wire, tx.response_entity_len, F::RESPONSE_MISSING_BYTES)
            };
            let what = if d == 0 { "request" } else { "response" };
            let got = body_of(&ev, k, i);
            ensure!(case, got == want[i][d], "body of {} {}: {} instead of {}", what, i, text(&got), text(&want[i][d]));
            ensure_eq!(case, len, wire as u64, "message length of {} {}", what, i);
            ensure_eq!(case, ent, want[i][d].iter().filter(|c| c.is_some()).count() as u64, "entity length of {} {}", what, i);
            ensure_eq!(case, tx.flags & flag == flag, hit[i][d], "missing bytes mark of {} {}", what, i);
        }
        ensure!(case, tx.is_complete(), "transaction {} is not complete", i);
        ensure_eq!(case, ev.iter().filter(|v| v.k == K::TxComplete && v.tx == i).count(), 1, "completions of transaction {}", i);
    }
    case.nontrivial = n_gap > 0;
    if n_gap > 0 { case.label("gap in a body"); }
    if overrun[0] || overrun[1] { case.label("gap past the end"); }
    Ok(())
}

/// A gap in a head or a chunked body cannot be bridged: it is refused and changes nothing but the mark.
fn refused(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 3, big: false, ..Default::default() };
    let x = gen_conversation(s, &st);
    let t = streams(&x);
    let ops = gen_schedule(s, &t, false);
    let mut a = Conn::new(base_config());
    a.run(&ops);
    let k = s.range(1, ops.len() - 1);
    let n = s.range(1, 40);
    let mut b = Conn::new(base_config());
    b.run(&ops[..k]);
    let req = s.bool();
    let gap = if req { Op::ReqGap(n) } else { Op::ResGap(n) };
    // where the gap is: the stream position decides whether it can be bridged
    let sent: usize = ops[..k].iter().map(|o| match o { Op::Req(v) if req => v.len(), Op::Res(v) if !req => v.len(), _ => 0 }).sum();
    if sent == 0 {
        return Ok(());
    }
    let mut pos = sent;
    let mut idx = 0;
    for (i, e) in x.iter().enumerate() {
        let l = if req { e.req.wire.bytes.len() } else { e.res.wire.bytes.len() };
        idx = i;
        if pos < l || i + 1 == x.len() {
            break;
        }
        pos -= l;
        idx = i + 1;
    }
    let e = &x[idx];
    let (body, head, len) = if req { (&e.req.body, e.req.wire.head, e.req.wire.bytes.len()) } else { (&e.res.body, e.res.wire.head, e.res.wire.bytes.len()) };
    if matches!(body.kind, Kind::Cl | Kind::Close) && pos >= head && (pos < len || body.kind == Kind::Close) {
        // this one can
        return Ok(());
    }
    let line = if req { e.req.line().len() + e.req.eol.len() } else { e.res.wire.bytes.iter().position(|c| *c == b'\n').unwrap() + 1 };
    if idx > 0 && pos > 0 && pos < line {
        // the message before it may still be current
        return Ok(());
    }
    let mut log = ops[..k].to_vec();
    log.push(gap.clone());
    log.extend_from_slice(&ops[k..]);
    case.describe(|| show_ops(&log));
    let before = b.events().len();
    let st = b.op(&gap);
    ensure_eq!(case, st, Some(S::CLOSED), "answer to a gap that cannot be bridged");
    ensure_eq!(case, b.events().len(), before, "callbacks run for a gap that cannot be bridged");
    b.run(&ops[k..]);
    ensure_eq!(case, b.connp.tx_size(), a.connp.tx_size(), "number of transactions");
    for i in 0..a.connp.tx_size() {
        let (x, y) = (a.connp.tx(i).ok_or("missing")?, b.connp.tx(i).ok_or("a transaction is missing")?);
        let mask = F::REQUEST_MISSING_BYTES | F::RESPONSE_MISSING_BYTES;
        let (mut p, mut q) = (snapshot(x), snapshot(y));
        p.retain(|f| f.0 != "flags");
        q.retain(|f| f.0 != "flags");
        if let Some(d) = diff(&p, &q) {
            return Err(format!("transaction {} changed by a gap that was refused: {}", i, d));
        }
        case.asserts += p.len() as u64;
        ensure_eq!(case, format!("{:x}", y.flags & !mask), format!("{:x}", x.flags & !mask), "flags of transaction {}", i);
        ensure_eq!(case, y.flags & F::REQUEST_MISSING_BYTES == F::REQUEST_MISSING_BYTES, req && i == idx && !(pos == len && idx + 1 == x_len(&t)), "request mark of transaction {}", i);
        ensure_eq!(case, y.flags & F::RESPONSE_MISSING_BYTES == F::RESPONSE_MISSING_BYTES, !req && i == idx && !(pos == len && idx + 1 == x_len(&t)), "response mark of transaction {}", i);
    }
    // the same callbacks afterwards
    let f = |c: &Conn| (merge(&c.events(), |k| k.is_req()), merge(&c.events(), |k| k.is_res()));
    ensure!(case, f(&a) == f(&b), "callbacks after a refused gap: {} instead of {}", show_events(&b.events()), show_events(&a.events()));
    case.nontrivial = true;
    case.label("gap refused");
    Ok(())
}
fn x_len(t: &Streams) -> usize {
    t.req_end.len()
}

/// Nothing can be made of a stream that starts with a gap; the other one is not affected.
fn leading(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 2, big: false, close_delimited: false, ..Default::default() };
    let x = gen_conversation(s, &st);
    let req = s.bool();
    let mut ops = vec![];
    let n = s.range(1, 30);
    if !req {
        let mut r = vec![];
        x.iter().for_each(|e| r.extend_from_slice(&e.req.wire.bytes));
        ops.push(Op::Req(r));
    }
    ops.push(if req { Op::ReqGap(n) } else { Op::ResGap(n) });
    let at = ops.len();
    for e in &x {
        ops.push(if req { Op::Req(e.req.wire.bytes.clone()) } else { Op::Res(e.res.wire.bytes.clone()) });
    }
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    for (i, o) in ops.iter().enumerate() {
        let st = c.op(o);
        ensure_eq!(case, st, Some(if i + 1 < at { S::DATA } else { S::ERROR }), "answer to {}", show_ops(std::slice::from_ref(o)));
    }
    let ev = c.events();
    ensure!(case, !ev.iter().any(|e| if req { e.k.is_req() } else { e.k.is_res() }), "a callback ran on a stream that starts with a gap");
    let tx = c.connp.tx(0).ok_or("no transaction")?;
    if req {
        ensure_eq!(case, format!("{:?}", tx.request_progress), format!("{:?}", HtpRequestProgress::GAP), "request progress");
        ensure!(case, tx.flags & F::REQUEST_MISSING_BYTES == F::REQUEST_MISSING_BYTES, "missing bytes mark");
    } else {
        ensure_eq!(case, format!("{:?}", tx.response_progress), format!("{:?}", HtpResponseProgress::GAP), "response progress");
        ensure!(case, tx.flags & F::RESPONSE_MISSING_BYTES == F::RESPONSE_MISSING_BYTES, "missing bytes mark");
        ensure_eq!(case, ev.iter().filter(|e| e.k == K::ReqComplete).count(), x.len(), "requests reported");
    }
    case.nontrivial = true;
    case.label("leading gap");
    Ok(())
}

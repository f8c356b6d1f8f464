//! P12: configured limits: field length, live transactions, field repetitions.
use crate::drive::*;
use crate::engine::*;
use crate::p_traffic::{bs, check_req, check_res};
use crate::traffic::*;
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::HtpResponseNumber;

pub static PROPS: &[Prop] = &[Prop {
    id: "P12",
    rule: "conversations at a random field limit, unfinished elements around the limit, more requests than transactions allowed, floods of repeated fields; non-trivial when the limit is within 8 of what the traffic needs",
    run: p12,
    quick: 1_000_000,
}];

fn p12(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(8) {
        0 | 1 => within(s, case),
        2 | 3 | 4 => unfinished(s, case),
        5 | 6 => transactions(s, case),
        _ => repetitions(s, case),
    }
}

fn longest(line: &[u8], headers: &[Hdr], body: &Body, eol: &[u8]) -> usize {
    let mut m = line.len() + eol.len();
    for h in headers.iter().chain(&body.trailers) {
        let mut v = vec![];
        h.write(&mut v, eol);
        m = m.max(v.len());
    }
    for l in &body.size_lines {
        m = m.max(l.len() + eol.len());
    }
    m
}

/// No element is longer than the limit: nothing is refused.
fn within(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 3, big: false, ..Default::default() };
    let mut x = gen_conversation(s, &st);
    if s.chance(1, 400) {
        // an element longer than 64 KiB
        let i = s.u(x.len());
        let v = vec![b'v'; s.range(30_000, 150_000)];
        if s.bool() {
            x[i].req.headers.push(Hdr::new(b"X-Huge", &v));
            x[i].req.serialize();
        } else {
            x[i].res.headers.push(Hdr::new(b"X-Huge", &v));
            x[i].res.serialize();
        }
    }
    let mut need = 0;
    for e in &x {
        need = need.max(longest(&e.req.line(), &e.req.headers, &e.req.body, &e.req.eol));
        need = need.max(longest(&e.res.line(), &e.res.headers, &e.res.body, &e.res.eol));
        for i in &e.res.interims {
            let mut l = b"HTTP/1.1 100 ".to_vec();
            l.extend_from_slice(&i.reason);
            need = need.max(longest(&l, &i.headers, &Body::none(), &e.res.eol));
        }
    }
    // the start of the next line ending may be held back with an element
    let slack = s.range(2, 12);
    let t = streams(&x);
    let ops = gen_schedule(s, &t, false);
    case.describe(|| format!("field limit {} for elements up to {}\n{}", need + slack, need, show_ops(&ops)));
    let mut cfg = base_config();
    cfg.set_field_limit(need + slack);
    let mut c = Conn::new(cfg);
    c.run(&ops);
    for (req, name) in [(true, "request"), (false, "response")] {
        if let Some(st) = c.worst(req) {
            return Err(format!("{} stream answered {:?} within the field limit", name, st));
        }
    }
    let ev = c.events();
    ensure_eq!(case, c.connp.tx_size(), x.len(), "number of transactions");
    for (i, e) in x.iter().enumerate() {
        let tx = c.connp.tx(i).ok_or("a transaction is missing")?;
        check_req(case, tx, &e.req)?;
        check_res(case, tx, &e.res, e.req.method == b"HEAD")?;
        ensure!(case, data_of(&ev, K::ReqBody, i) == e.req.body.data && data_of(&ev, K::ResBody, i) == e.res.body.data, "bodies of transaction {}", i);
    }
    case.nontrivial = slack <= 8;
    case.label("within the field limit");
    Ok(())
}

/// An element that does not end is given up as soon as it is over the limit.
fn unfinished(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let limit = if s.chance(1, 12) { 18000 } else if s.chance(1, 400) { s.range(30_000, 150_000) } else { s.range(40, 300) };
    let req = s.bool();
    let place = s.below(6);
    let fill = *s.pick(b"aZ0 .,=/\x80\xff:;");
    let mut before = vec![];
    let mut elem: Vec<u8>;
    let what;
    let first: &[u8] = if req { b"POST /x HTTP/1.1\r\nHost: h\r\n" } else { b"HTTP/1.1 200 OK\r\n" };
    match place {
        0 | 1 => {
            what = "line";
            elem = if req { b"GET /".to_vec() } else { b"HTTP/1.1 200 ".to_vec() };
        }
        2 | 3 => {
            what = "header field";
            before.extend_from_slice(first);
            for i in 0..s.below(3) {
                before.extend_from_slice(format!("A{}: b\r\n", i).as_bytes());
            }
            elem = b"X-Long: v".to_vec();
        }
        4 => {
            what = "chunk length line";
            before.extend_from_slice(first);
            before.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            if s.bool() {
                before.extend_from_slice(b"3\r\nabc\r\n");
            }
            elem = b"5;".to_vec();
        }
        _ => {
            what = "trailer field";
            before.extend_from_slice(first);
            before.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n");
            elem = b"X-Long: v".to_vec();
        }
    }
    let folded = matches!(place, 2 | 3 | 5) && s.chance(1, 3);
    // in a response a continuation line with a colon is a field of its own
    let fill = if folded && fill == b':' { b'f' } else { fill };
    let want = (limit as i64 + *s.pick(&[-3i64, -1, 0, 1, 2, 20, 200])).max(elem.len() as i64) as usize;
    while elem.len() < want {
        if folded && elem.len() % 23 == 22 && want - elem.len() > 4 {
            elem.extend_from_slice(b"\r\n y");
        } else {
            elem.push(fill);
        }
    }
    // a blank before an end is fine, but not one that could still be cut away
    if elem.last() == Some(&b' ') {
        *elem.last_mut().unwrap() = b'z';
    }
    let mut cfg = base_config();
    cfg.set_field_limit(limit);
    let mut c = Conn::new(cfg);
    let mut ops: Vec<Op> = vec![];
    if !req {
        ops.push(Op::Req(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
        c.op(&ops[0]);
    }
    // whatever comes before is in order
    let mut wire = before.clone();
    wire.extend_from_slice(&elem);
    let mut cuts: Vec<usize> = (0..s.range(0, 5)).map(|_| s.range(1, wire.len())).collect();
    if s.bool() { cuts.push(before.len()); }
    if s.bool() { cuts.push((before.len() + limit).min(wire.len())); }
    if s.bool() { cuts.push((before.len() + limit + 1).min(wire.len())); }
    cuts.push(wire.len());
    cuts.retain(|c| *c > 0);
    cuts.sort();
    cuts.dedup();
    let mut at = 0;
    let mut over = false;
    for k in cuts {
        let p = wire[at..k].to_vec();
        at = k;
        ops.push(if req { Op::Req(p) } else { Op::Res(p) });
        let st = c.op(ops.last().unwrap());
        over |= at > before.len() && at - before.len() > limit;
        case.describe(|| format!("field limit {}, {}\n{}", limit, what, show_ops(&ops)));
        ensure_eq!(case, st, Some(if over { S::ERROR } else { S::DATA }), "answer with {} bytes of an unfinished {} at field limit {}", at.saturating_sub(before.len()), what, limit);
    }
    if !over {
        // it may still end well
        let end: &[u8] = match place {
            0 | 1 if req => b" HTTP/1.1\r\n\r\n",
            4 => b"\r\nhello\r\n0\r\n\r\n",
            _ => b"\r\n\r\n",
        };
        let total = elem.len() + match place { 0 | 1 if req => 11, _ => 2 };
        ops.push(if req { Op::Req(end.to_vec()) } else { Op::Res(end.to_vec()) });
        let st = c.op(ops.last().unwrap());
        case.describe(|| format!("field limit {}, {}\n{}", limit, what, show_ops(&ops)));
        if total <= limit {
            ensure_eq!(case, st, Some(S::DATA), "answer to the end of a {} of {} bytes at field limit {}", what, total, limit);
            let tx = c.connp.tx(0).ok_or("no transaction")?;
            match place {
                2 | 3 | 5 => {
                    let h = if req { &tx.request_headers } else { &tx.response_headers };
                    let v = h.get_nocase("x-long").ok_or("the long field was not reported")?;
                    if !folded {
                        ensure!(case, v.value.as_slice() == &elem[8..], "value of the long field");
                    }
                }
                4 => {
                    let d = data_of(&c.events(), if req { K::ReqBody } else { K::ResBody }, 0);
                    ensure!(case, d.ends_with(b"hello"), "body after the long chunk length line");
                }
                _ if req => {
                    let mut l = elem.clone();
                    l.extend_from_slice(b" HTTP/1.1");
                    ensure_eq!(case, bs(&tx.request_line), Some(esc(&l)), "long request line");
                }
                _ => {
                    ensure!(case, tx.response_message.is_some(), "long status line");
                }
            }
        } else if place < 2 {
            ensure_eq!(case, st, Some(S::ERROR), "answer to the end of a line of {} bytes at field limit {}", total, limit);
        }
    }
    case.nontrivial = (elem.len() as i64 - limit as i64).abs() <= 8;
    case.label(what);
    if over { case.label("over the field limit"); }
    Ok(())
}

/// Live transactions.
fn transactions(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = s.range(1, 6);
    let auto = s.bool();
    let mut cfg = base_config();
    cfg.max_tx = m as u32;
    cfg.set_tx_auto_destroy(auto);
    let mut c = Conn::new(cfg);
    let mut log: Vec<Op> = vec![];
    // transactions alive, requests seen, responses seen
    let (mut sent, mut answered, mut removed) = (0usize, 0usize, 0usize);
    let mut failed = false;
    for _ in 0..s.range(2, 20) {
        let live = if auto { sent - answered } else { sent - removed };
        if failed {
            break;
        }
        match s.below(5) {
            // responses
            0 | 1 if answered < sent => {
                let b = format!("HTTP/1.1 200 OK\r\nX-N: {}\r\nContent-Length: 2\r\n\r\nok", answered);
                log.push(Op::Res(b.into_bytes()));
                let st = c.op(log.last().unwrap());
                case.describe(|| format!("max_tx {} auto {}\n{}", m, auto, show_ops(&log)));
                ensure_eq!(case, st, Some(S::DATA), "answer to response {}", answered);
                if !auto {
                    let tx = c.connp.tx(answered).ok_or("no transaction")?;
                    ensure_eq!(case, tx.response_headers.get_nocase("x-n").map(|h| esc(&h.value)), Some(answered.to_string()), "response in transaction {}", answered);
                    ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(200), "status");
                }
                ensure!(case, c.events().iter().any(|e| e.k == K::TxComplete && e.tx == answered), "transaction {} completes", answered);
                answered += 1;
            }
            // finished transactions are taken away by the caller
            2 if !auto && removed < answered && s.bool() => {
                c.connp.remove_tx(removed);
                log.push(Op::ReqGap(0));
                log.pop();
                removed += 1;
            }
            _ => {
                let b = format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", sent);
                log.push(Op::Req(b.into_bytes()));
                let st = c.op(log.last().unwrap());
                case.describe(|| format!("max_tx {} auto {}, {} answered, {} removed\n{}", m, auto, answered, removed, show_ops(&log)));
                // the transaction a response parser looks at next stays too
                if live < m {
                    ensure_eq!(case, st, Some(S::DATA), "answer to request {} with {} of {} transactions alive", sent, live, m);
                    ensure!(case, c.events().iter().any(|e| e.k == K::ReqComplete && e.tx == sent), "request {} is reported", sent);
                    sent += 1;
                } else {
                    ensure_eq!(case, st, Some(S::ERROR), "answer to request {} with {} of {} transactions alive", sent, live, m);
                    ensure!(case, !c.events().iter().any(|e| e.tx >= sent), "a transaction beyond the limit");
                    failed = true;
                }
            }
        }
    }
    if failed {
        // what is outstanding is still answered
        while answered < sent {
            log.push(Op::Res(b"HTTP/1.1 204 No\r\n\r\n".to_vec()));
            let st = c.op(log.last().unwrap());
            case.describe(|| format!("max_tx {} auto {}, {} answered, {} removed\n{}", m, auto, answered, removed, show_ops(&log)));
            ensure_eq!(case, st, Some(S::DATA), "answer to response {} after the transaction limit", answered);
            ensure!(case, c.events().iter().any(|e| e.k == K::TxComplete && e.tx == answered), "transaction {} completes", answered);
            answered += 1;
        }
        case.label("over the transaction limit");
    }
    case.nontrivial = sent >= m;
    case.label(if auto { "auto destroy" } else { "kept transactions" });
    Ok(())
}

/// Repeated fields are joined, up to a number that is shared by the message.
fn repetitions(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.bool();
    let n = s.range(2, 150);
    let names: &[&[u8]] = &[b"A", b"B", b"C"];
    let few = s.range(1, 3);
    let mut want: Vec<(Vec<u8>, Vec<u8>, bool)> = vec![];
    let mut reps = 0;
    let mut dropped = 0;
    let mut wire = if req { b"GET /x HTTP/1.0\r\n".to_vec() } else { b"HTTP/1.1 204 OK\r\n".to_vec() };
    for i in 0..n {
        let name = if s.chance(1, 20) { format!("D{}", i).into_bytes() } else { names[s.below(few as u64) as usize].to_vec() };
        let name = if s.bool() { name.to_ascii_lowercase() } else { name };
        let mut v = i.to_string().into_bytes();
        if s.chance(1, 6) {
            let k = s.size(0, 300);
            v.extend(std::iter::repeat(b'v').take(k));
        }
        wire.extend_from_slice(&name);
        wire.extend_from_slice(b": ");
        wire.extend_from_slice(&v);
        wire.extend_from_slice(b"\r\n");
        match want.iter_mut().find(|e| e.0.eq_ignore_ascii_case(&name)) {
            None => want.push((name, v, false)),
            Some(e) => {
                if e.2 {
                    if reps >= 64 {
                        dropped += 1;
                        continue;
                    }
                    reps += 1;
                }
                e.2 = true;
                e.1.extend_from_slice(b", ");
                e.1.extend_from_slice(&v);
            }
        }
    }
    wire.extend_from_slice(b"\r\n");
    let mut ops = vec![];
    if !req {
        ops.push(Op::Req(b"GET /x HTTP/1.0\r\n\r\nGET /y HTTP/1.0\r\n\r\n".to_vec()));
    }
    let next: &[u8] = if req { b"GET /y HTTP/1.0\r\nA: 1\r\nA: 2\r\nA: 3\r\n\r\n" } else { b"HTTP/1.1 204 OK\r\nA: 1\r\nA: 2\r\nA: 3\r\n\r\n" };
    wire.extend_from_slice(next);
    let k = s.range(1, wire.len() - 1);
    for p in [&wire[..k], &wire[k..]] {
        ops.push(if req { Op::Req(p.to_vec()) } else { Op::Res(p.to_vec()) });
    }
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    ensure!(case, c.worst(req).is_none(), "a flood of repeated fields ended the stream");
    for (i, want) in [(0, want), (1, vec![(b"A".to_vec(), b"1, 2, 3".to_vec(), true)])] {
        let tx = c.connp.tx(i).ok_or("a transaction is missing")?;
        let h = if req { &tx.request_headers } else { &tx.response_headers };
        let got: Vec<(Vec<u8>, Vec<u8>)> = h.elements.iter().map(|h| (h.name.as_slice().to_vec(), h.value.as_slice().to_vec())).collect();
        let want: Vec<(Vec<u8>, Vec<u8>)> = want.into_iter().map(|e| (e.0, e.1)).collect();
        let text = |v: &[(Vec<u8>, Vec<u8>)]| v.iter().map(|x| format!("[{}|{}]", esc(&x.0), esc(&x.1))).collect::<String>();
        ensure!(case, got == want, "fields {} instead of {}", text(&got), text(&want));
    }
    case.nontrivial = (56..=72).contains(&(reps + dropped)) || dropped > 0;
    case.label("repeated fields");
    Ok(())
}

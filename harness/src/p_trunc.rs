//! P31: a conversation that breaks off reports what arrived, and only that.
use crate::drive::*;
use crate::engine::*;
use crate::p_traffic::{bs, expected_headers};
use crate::snap::*;
use crate::traffic::*;
use htp::transaction::{HtpRequestProgress, HtpResponseProgress};

pub static PROPS: &[Prop] = &[Prop {
    id: "P31",
    rule: "a conversation of 1 to 3 exchanges whose last request or response is cut short at a random byte, then closed; non-trivial when the cut falls inside the message",
    run: p31,
    quick: 400_000,
}];

fn trim(v: &[u8]) -> &[u8] {
    let is = |c: &u8| matches!(c, b' ' | b'\t' | b'\r' | b'\n');
    let a = v.iter().position(|c| !is(c)).unwrap_or(v.len());
    let b = v.iter().rposition(|c| !is(c)).map_or(a, |x| x + 1);
    &v[a..b]
}

/// The fields that are in the first `have` bytes of a block of fields. A line that has not ended does not count,
/// and nor does a field it may continue.
fn arrived(req: bool, fields: &[Hdr], eol: &[u8], have: usize) -> Vec<Hdr> {
    let mut out = vec![];
    let mut at = 0;
    for h in fields {
        let mut w = vec![];
        h.write(&mut w, eol);
        if at + w.len() <= have {
            at += w.len();
            out.push(h.clone());
            continue;
        }
        let mut part = w[..have - at].to_vec();
        if !req && part.ends_with(b"\r") {
            // ends a line of a response
            part.push(b'\n');
        }
        let part = &part[..];
        if part.is_empty() {
            return out;
        }
        if !part.ends_with(eol) {
            return out;
        }
        // the lines that are there
        let lines = part.windows(eol.len()).filter(|x| *x == eol).count();
        let mut t = h.clone();
        t.pieces.truncate(lines);
        t.folds.truncate(lines - 1);
        let l = t.pieces.last_mut().unwrap();
        while matches!(l.last(), Some(b' ' | b'\t')) {
            l.pop();
        }
        out.push(t);
        return out;
    }
    // the empty line that is only half there
    out
}

fn p31(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 3, big: false, ..Style::default() };
    let mut x = gen_conversation(s, &st);
    let n = x.len();
    let whole = streams(&x);
    let cut_req = s.bool();
    let marks = if cut_req { &x[n - 1].req.wire.marks } else { &x[n - 1].res.wire.marks };
    let len = if cut_req { x[n - 1].req.wire.bytes.len() } else { x[n - 1].res.wire.bytes.len() };
    let cut = if s.bool() { s.range(0, len) } else { (*s.pick(marks) + s.range(0, 3)).saturating_sub(s.range(0, 2)).min(len) };
    // the first letters of a message may still be something else
    let floor = if cut_req { x[n - 1].req.method.len() + 1 } else { x[n - 1].res.interim_len + 5 };
    let cut = if cut == 0 { 0 } else { cut.max(floor).min(len) };
    let last = x[n - 1].clone();
    let mut cfg = base_config();
    let flush = s.bool();
    cfg.set_flush_incomplete(flush);
    // the same, complete
    let mut full = Conn::new(cfg.clone());
    full.run(&[Op::Req(whole.req.clone()), Op::Res(whole.res.clone()), Op::Close]);
    let before: Vec<_> = (0..n).map(|i| full.connp.tx(i).map(|t| (req_snapshot(t), res_snapshot(t)))).collect();
    let full_ev = full.events();
    // cut short
    {
        let e = &mut x[n - 1];
        let clear = |w: &mut Wire, k: usize| {
            w.bytes.truncate(k);
            w.marks.retain(|m| *m <= k);
            w.head = w.head.min(k);
        };
        if cut_req {
            clear(&mut e.req.wire, cut);
            clear(&mut e.res.wire, 0);
        } else {
            clear(&mut e.res.wire, cut);
        }
    }
    let mut ops = gen_schedule(s, &streams(&x), false);
    if s.chance(1, 4) {
        let at = ops.len() - 1;
        ops.insert(at, Op::ReqClose);
    }
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(cfg);
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    for i in 0..n - 1 {
        let t = c.connp.tx(i).ok_or("missing transaction")?;
        let b = before[i].as_ref().ok_or("missing transaction")?;
        if let Some(d) = diff(&b.0, &req_snapshot(t)).or(diff(&b.1, &res_snapshot(t))) {
            return Err(format!("transaction {} before the cut one: {}", i, d));
        }
        for k in [K::ReqBody, K::ResBody] {
            ensure!(case, data_of(&ev, k, i) == data_of(&full_ev, k, i), "body of transaction {} before the cut one", i);
        }
    }
    let i = n - 1;
    if cut_req && cut == 0 {
        ensure_eq!(case, c.connp.tx_size(), n - 1, "number of transactions");
        return Ok(());
    }
    ensure_eq!(case, c.connp.tx_size(), n, "number of transactions");
    let t = c.connp.tx(i).ok_or("missing transaction")?;
    let (whole_req, whole_res) = before[i].clone().ok_or("missing transaction")?;
    let (what, k_data, k_body) = if cut_req { ("request", K::ReqHeaderData, K::ReqBody) } else { ("response", K::ResHeaderData, K::ResBody) };
    let (line, eol, fields, body, wire, skip) = if cut_req {
        (last.req.line(), &last.req.eol, &last.req.headers, &last.req.body, &last.req.wire, 0)
    } else {
        (last.res.line(), &last.res.eol, &last.res.headers, &last.res.body, &last.res.wire, last.res.interim_len)
    };
    if cut_req {
        ensure!(case, t.response_line.is_none() && t.response_headers.size() == 0 && data_of(&ev, K::ResBody, i).is_empty(), "a response that was not sent");
    } else {
        if let Some(d) = diff(&whole_req, &req_snapshot(t)) {
            return Err(format!("request of the cut response: {}", d));
        }
        ensure!(case, data_of(&ev, K::ReqBody, i) == data_of(&full_ev, K::ReqBody, i), "request body of the cut response");
    }
    let headers = if cut_req { &t.request_headers } else { &t.response_headers };
    let have = cut - skip.min(cut);
    let at_fields = line.len() + eol.len();
    let head = wire.head - skip;
    let got_body = data_of(&ev, k_body, i);
    if have == 0 {
        ensure!(case, t.response_line.is_none() || skip > 0, "a status line that was not sent");
        case.label("nothing of it");
    } else if have < at_fields {
        // what there is of the first line
        let p = trim(&wire.bytes[skip..cut]);
        let words: Vec<&[u8]> = p.splitn(3, |c| *c == b' ').filter(|w| !w.is_empty()).collect();
        let w = |k: usize| words.get(k).map_or(String::new(), |w| esc(w));
        let bs = |b: &Option<htp::bstr::Bstr>| bs(b).unwrap_or_default();
        if cut_req {
            ensure_eq!(case, bs(&t.request_line).trim().to_string(), esc(p).trim().to_string(), "request line");
            ensure_eq!(case, bs(&t.request_method), w(0), "method");
            ensure_eq!(case, bs(&t.request_uri), w(1), "target");
            ensure_eq!(case, bs(&t.request_protocol), w(2), "protocol");
        } else {
            ensure_eq!(case, bs(&t.response_protocol), w(0), "protocol");
            ensure_eq!(case, bs(&t.response_status), w(1), "status");
            ensure_eq!(case, bs(&t.response_message).trim().to_string(), w(2).trim().to_string(), "reason");
        }
        ensure_eq!(case, headers.size(), 0, "{} fields", what);
        ensure!(case, got_body.is_empty(), "{} body", what);
        case.label("in the first line");
    } else if have < head {
        let f = arrived(cut_req, fields, eol, have - at_fields);
        let f: Vec<&Hdr> = f.iter().collect();
        let exp = expected_headers(&f);
        let g: Vec<String> = headers.elements.iter().map(|h| format!("{}: {}", esc(&h.name), esc(&h.value))).collect();
        let w: Vec<String> = exp.iter().map(|e| format!("{}: {}", esc(&e.0), esc(&e.1))).collect();
        ensure_eq!(case, g, w, "{} fields", what);
        ensure!(case, got_body.is_empty(), "{} body", what);
        let raw = data_of(&ev, k_data, i);
        ensure!(case, raw.ends_with(&wire.bytes[skip + at_fields..cut]) && (skip > 0 || raw.len() == cut - at_fields), "raw field data {}", esc(&raw));
        case.label("in the fields");
    } else {
        let n = have - head;
        let mut exp = vec![];
        match body.kind {
            Kind::None => {}
            Kind::Cl | Kind::Close => exp.extend_from_slice(&body.data[..n.min(body.data.len())]),
            Kind::Chunked => {
                let (mut w, mut d) = (0, 0);
                for (k, c) in body.chunks.iter().enumerate() {
                    w += body.size_lines[k].len() + eol.len();
                    exp.extend_from_slice(&body.data[d..d + n.saturating_sub(w).min(*c)]);
                    w += c + eol.len();
                    d += c;
                }
            }
        }
        ensure!(case, got_body == exp, "{} body: {}\ninstead of {}", what, esc(&got_body), esc(&exp));
        let entity = if cut_req { t.request_entity_len } else { t.response_entity_len };
        ensure_eq!(case, entity, exp.len() as u64, "{} body length", what);
        let message = if cut_req { t.request_message_len } else { t.response_message_len };
        if body.kind != Kind::Chunked {
            ensure_eq!(case, message, n.min(wire.body_wire) as u64, "{} length on the wire", what);
        }
        // a body that is missing something is not complete, unless the close ends it
        let over = n >= wire.body_wire || !cut_req && body.kind != Kind::Chunked;
        let done = if cut_req { t.request_progress == HtpRequestProgress::COMPLETE } else { t.response_progress == HtpResponseProgress::COMPLETE };
        ensure_eq!(case, done, over, "{} complete", what);
        let f = if n > wire.body_wire { arrived(cut_req, &body.trailers, eol, n - wire.body_wire) } else { vec![] };
        let all: Vec<&Hdr> = fields.iter().chain(f.iter()).collect();
        let e = expected_headers(&all);
        let g: Vec<String> = headers.elements.iter().map(|h| format!("{}: {}", esc(&h.name), esc(&h.value))).collect();
        let w: Vec<String> = e.iter().map(|e| format!("{}: {}", esc(&e.0), esc(&e.1))).collect();
        ensure_eq!(case, g, w, "{} fields", what);
        case.label(if n > wire.body_wire { "in the trailer" } else { "in the body" });
        // all of it
        if cut == len {
            let d = if cut_req { diff(&whole_req, &req_snapshot(t)) } else { diff(&whole_res, &res_snapshot(t)) };
            if let Some(d) = d {
                return Err(format!("complete {}: {}", what, d));
            }
            case.label("complete");
        }
    }
    let done = ev.iter().filter(|e| e.k == K::TxComplete && e.tx == i).count();
    ensure_eq!(case, done, (t.is_complete() || flush) as usize, "completions of the cut transaction");
    case.nontrivial = cut > 0 && cut < len;
    Ok(())
}

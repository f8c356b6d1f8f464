//! P24: how long transactions live. P26: log messages. P27: connections do not
//! influence each other and the same history always gives the same report.
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_segment::{gz, strange};
use crate::snap::*;
use crate::traffic::*;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::log::{HtpLogLevel as L, Log};
use htp::transaction::*;
use htp::util::HtpFlags;
use htp::HtpStatus;
use std::cell::RefCell;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P24",
        rule: "arbitrary or well-formed histories run under different lifetime settings; non-trivial when some transaction completed and another was started",
        run: p24,
        quick: 400_000,
    },
    Prop {
        id: "P26",
        rule: "arbitrary histories run at different log levels; non-trivial when at least two messages were logged",
        run: p26,
        quick: 400_000,
    },
    Prop {
        id: "P27",
        rule: "two histories on two parsers of one configuration, alone and interleaved; non-trivial when both report a transaction",
        run: p27,
        quick: 250_000,
    },
];

/// A history: mostly arbitrary, sometimes well-formed, always in a config to match.
pub fn history(s: &mut Src) -> Vec<Op> {
    if s.chance(1, 2) {
        wild_ops(s)
    } else {
        let st = Style { max_exchanges: 5, big: false, ..Default::default() };
        let mut x = gen_conversation(s, &st);
        if s.chance(1, 3) {
            strange(s, &mut x);
        }
        let t = streams(&x);
        let early = s.chance(1, 4);
        let mut o = gen_schedule(s, &t, early);
        if s.chance(1, 4) {
            // the connection ends early
            let n = s.u(o.len());
            o.truncate(n);
            if s.chance(3, 4) {
                o.push(Op::Close);
            }
        }
        o
    }
}

fn same(a: &Event, b: &Event) -> bool {
    a.k == b.k && a.tx == b.tx && a.data == b.data && a.req_progress == b.req_progress && a.res_progress == b.res_progress
}
fn same_events(case: &mut Case, a: &[Event], b: &[Event], what: &str) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        ensure!(case, same(x, y), "{}: callback {} is {} instead of {}", what, i, show_events(std::slice::from_ref(x)), show_events(std::slice::from_ref(y)));
    }
    ensure_eq!(case, a.len(), b.len(), "{}: number of callbacks", what);
    Ok(())
}
fn same_calls(case: &mut Case, a: &Conn, b: &Conn, what: &str) -> Result<(), String> {
    ensure_eq!(case, a.calls.len(), b.calls.len(), "{}: number of data calls", what);
    for (x, y) in a.calls.iter().zip(&b.calls) {
        ensure_eq!(case, (x.st, x.consumed), (y.st, y.consumed), "{}: answer of a data call", what);
    }
    Ok(())
}
fn log_text(l: &Log) -> String {
    format!("{:?} {:?} {} {}:{}", l.msg.level, l.msg.code, l.msg.msg, l.msg.file, l.msg.line)
}

// ---- P24 ----------------------------------------------------------------------
thread_local! {
    /// snapshots taken when a transaction completes
    static SNAPS: RefCell<Vec<(usize, Vec<(&'static str, String)>)>> = const { RefCell::new(vec![]) };
    static WRONG: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn remember(k: K, tx: &mut Transaction) {
    let mine = format!("of {}", tx.index);
    // a stream that begins with missing bytes has no start callback
    let gap = tx.request_progress == HtpRequestProgress::GAP || tx.response_progress == HtpResponseProgress::GAP;
    if matches!(k, K::ReqStart) || ((k == K::ResStart || gap) && tx.user_data.is_none()) {
        if let Some(old) = tx.user_data::<String>() {
            let m = format!("transaction {} starts with user data {:?}", tx.index, old);
            WRONG.with(|w| *w.borrow_mut() = Some(m));
        }
        tx.set_user_data(Box::new(mine));
    } else if tx.user_data::<String>() != Some(&mine) {
        // data of another type is not found
        let m = format!("user data of transaction {} at {:?} is {:?}", tx.index, k, tx.user_data::<String>());
        WRONG.with(|w| *w.borrow_mut() = Some(m));
    } else if tx.user_data::<u32>().is_some() || tx.user_data_mut::<String>().is_none() {
        WRONG.with(|w| *w.borrow_mut() = Some(format!("user data of transaction {} under the wrong type", tx.index)));
    }
    if k == K::TxComplete {
        let s = snapshot(tx);
        SNAPS.with(|v| v.borrow_mut().push((tx.index, s)));
    }
}
/// Differences but for the mark of missing bytes: a refused gap between two messages
/// marks the message before it (P23).
fn unlike(a: &[(&'static str, String)], b: &[(&'static str, String)]) -> Option<String> {
    let f = |v: &[(&'static str, String)]| -> Vec<(&'static str, String)> {
        v.iter()
            .map(|(k, x)| match *k {
                "flags" => (*k, format!("{:x}", u64::from_str_radix(x, 16).unwrap_or(0) & !(HtpFlags::REQUEST_MISSING_BYTES | HtpFlags::RESPONSE_MISSING_BYTES))),
                _ => (*k, x.clone()),
            })
            .collect()
    };
    diff(&f(a), &f(b))
}
type Snaps = Vec<(usize, Vec<(&'static str, String)>)>;
fn run_with(cfg: Config, ops: &[Op]) -> (Conn, Vec<Event>, Snaps, Option<String>) {
    SNAPS.with(|v| v.borrow_mut().clear());
    WRONG.with(|w| *w.borrow_mut() = None);
    let mut c = Conn::with_policy(cfg, vec![], Some(remember));
    c.run(ops);
    let ev = c.events();
    (c, ev, SNAPS.with(|v| std::mem::take(&mut *v.borrow_mut())), WRONG.with(|w| w.borrow_mut().take()))
}

fn p24(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(1, 6) {
        return p24_limit(s, case);
    }
    let mut cfg = if s.bool() { base_config() } else { random_config(s) };
    cfg.max_tx = 1 << 20;
    cfg.set_tx_auto_destroy(false);
    cfg.set_flush_incomplete(false);
    let mut ops = history(s);
    // a single close, at the end
    ops.retain(|o| !matches!(o, Op::Close));
    let closed = s.chance(7, 8);
    if closed {
        ops.push(Op::Close);
    }
    case.describe(|| format!("{}\n{}", show_config(&cfg), show_ops(&ops)));
    let (a, ev, snaps, wrong) = run_with(cfg.clone(), &ops);
    case.describe(|| show_events(&ev));
    ensure!(case, wrong.is_none(), "{}", wrong.unwrap());
    let size = a.connp.tx_size();
    let done: Vec<usize> = snaps.iter().map(|x| x.0).collect();
    let mut open = vec![];
    // nothing is freed: every transaction up to the number reported is there
    for i in 0..size {
        let t = a.connp.tx(i);
        ensure!(case, t.is_some(), "transaction {} of {} is gone without being removed", i, size);
        let t = t.unwrap();
        ensure_eq!(case, t.index, i, "index of transaction {}", i);
        ensure!(case, t.is_started(), "transaction {} below the count {} has not started", i, size);
        ensure_eq!(case, t.is_complete(), t.request_progress == HtpRequestProgress::COMPLETE && t.response_progress == HtpResponseProgress::COMPLETE, "completeness of {}", i);
        // the response parser may have yielded to the request parser before it leaves a complete transaction
        let pending = !closed && i == a.connp.response_index() && !done.contains(&i);
        ensure_eq!(case, done.iter().filter(|x| **x == i).count(), (t.is_complete() && !pending) as usize, "completion callbacks of transaction {}, complete: {}", i, t.is_complete());
        if !t.is_complete() {
            open.push(i);
        }
        // what was told at completion is what stays
        if let Some((_, sn)) = snaps.iter().find(|x| x.0 == i) {
            if let Some(d) = unlike(sn, &snapshot(t)) {
                return Err(format!("transaction {} changed after it completed: {}", i, d));
            }
        }
    }
    ensure!(case, a.connp.tx(size).map_or(true, |t| !t.is_started()), "a transaction at the count {} has started", size);
    ensure!(case, a.connp.tx(size + 1).is_none(), "a transaction beyond the count {}", size);
    let (ri, si) = (a.connp.request_index(), a.connp.response_index());
    let final_a: Vec<_> = (0..size).map(|i| snapshot(a.connp.tx(i).unwrap())).collect();
    case.nontrivial = !done.is_empty() && size > 1;

    // automatic removal
    {
        let mut c2 = cfg.clone();
        c2.set_tx_auto_destroy(true);
        let (b, ev2, snaps2, wrong) = run_with(c2, &ops);
        ensure!(case, wrong.is_none(), "{}", wrong.unwrap());
        same_events(case, &ev2, &ev, "automatic removal")?;
        same_calls(case, &b, &a, "automatic removal")?;
        ensure!(case, snaps == snaps2, "automatic removal changes what is reported at completion");
        ensure_eq!(case, b.connp.tx_size(), size, "number of transactions with automatic removal");
        for i in 0..size {
            let want = !final_done(&a, i) || i == ri || i == si;
            let t = b.connp.tx(i);
            ensure_eq!(case, t.is_some(), want, "transaction {} kept with automatic removal (complete: {}, parsers on {} and {})", i, final_done(&a, i), ri, si);
            if let Some(t) = t {
                if let Some(d) = unlike(&final_a[i], &snapshot(t)) {
                    return Err(format!("automatic removal changes transaction {}: {}", i, d));
                }
            }
        }
        if size > open.len() { case.label("removed automatically"); }
    }
    // flushing what is incomplete at the close
    let auto = s.bool();
    {
        let mut c2 = cfg.clone();
        c2.set_flush_incomplete(true);
        c2.set_tx_auto_destroy(auto);
        let (mut b, ev2, snaps2, wrong) = run_with(c2, &ops);
        ensure!(case, wrong.is_none(), "{}", wrong.unwrap());
        let n = ev.len().min(ev2.len());
        same_events(case, &ev2[..n], &ev, "flushing")?;
        let extra: Vec<(K, usize)> = ev2[n..].iter().map(|e| (e.k, e.tx)).collect();
        let want: Vec<(K, usize)> = if closed { open.iter().map(|i| (K::TxComplete, *i)).collect() } else { vec![] };
        ensure_eq!(case, extra, want, "callbacks added by flushing at the close (auto destroy {})", auto);
        same_calls(case, &b, &a, "flushing")?;
        for (i, sn) in &snaps2 {
            if let Some(d) = unlike(&final_a[*i], sn) {
                return Err(format!("transaction {} told by flushing differs: {}", i, d));
            }
        }
        if !want.is_empty() { case.label("flushed"); }
        let done: Vec<bool> = (0..size).map(|i| b.connp.tx(i).is_none()).collect();
        if closed && s.chance(1, 4) {
            // closing once more tells nothing again
            b.op(&Op::Close);
            let mut told: Vec<usize> = b.events().iter().filter(|e| e.k == K::TxComplete).map(|e| e.tx).collect();
            told.sort();
            ensure!(case, told.windows(2).all(|w| w[0] != w[1]), "a transaction was told complete again by a second close: {:?}", told);
        }
        if !auto {
            ensure!(case, done.iter().all(|x| !x), "flushing removes transactions although removal is off");
        } else if closed {
            for i in &open {
                ensure!(case, done[*i], "flushed transaction {} is kept although removal is on", i);
            }
        }
    }
    // a user removes complete transactions between calls
    {
        SNAPS.with(|v| v.borrow_mut().clear());
        WRONG.with(|w| *w.borrow_mut() = None);
        let mut b = Conn::with_policy(cfg.clone(), vec![], Some(remember));
        let every = s.range(1, 3);
        let mut gone = vec![];
        for (n, o) in ops.iter().enumerate() {
            b.op(o);
            if n % every == 0 {
                // those whose completion was told
                let told: Vec<usize> = SNAPS.with(|v| v.borrow().iter().map(|x| x.0).collect());
                for i in told {
                    if b.connp.tx(i).is_some() && s.chance(3, 4) {
                        b.connp.remove_tx(i);
                        gone.push(i);
                    }
                }
            }
        }
        let wrong = WRONG.with(|w| w.borrow_mut().take());
        ensure!(case, wrong.is_none(), "{}", wrong.unwrap());
        same_events(case, &b.events(), &ev, "removal by the user")?;
        same_calls(case, &b, &a, "removal by the user")?;
        ensure_eq!(case, b.connp.tx_size(), size, "number of transactions after removals");
        for i in 0..size {
            let t = b.connp.tx(i);
            ensure_eq!(case, t.is_none(), gone.contains(&i), "transaction {} is absent", i);
            if let Some(t) = t {
                if let Some(d) = unlike(&final_a[i], &snapshot(t)) {
                    return Err(format!("removing others changes transaction {}: {}", i, d));
                }
            }
        }
        if !gone.is_empty() { case.label("removed by the user"); }
    }
    Ok(())
}
fn final_done(c: &Conn, i: usize) -> bool {
    c.connp.tx(i).is_some_and(|t| t.is_complete())
}

/// The maximum number of live transactions.
fn p24_limit(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 7, big: false, close_delimited: false, ..Default::default() };
    let x = gen_conversation(s, &st);
    let t = streams(&x);
    let max = s.range(1, 6);
    let auto = s.bool();
    let order = *s.pick(&[Order::Eager, Order::ReqFirst]);
    let rc: Vec<usize> = t.req_end[..x.len() - 1].to_vec();
    let sc: Vec<usize> = t.res_end[..x.len() - 1].to_vec();
    let ops = schedule(s, &t, &rc, &sc, order, false);
    let mut cfg = base_config();
    cfg.max_tx = max as u32;
    cfg.set_tx_auto_destroy(auto);
    case.describe(|| format!("at most {} transactions, auto destroy {}\n{}", max, auto, show_ops(&ops)));
    let mut c = Conn::new(cfg);
    let eager = matches!(order, Order::Eager) && x.len() > 0;
    let mut nreq = 0;
    let mut dead = false;
    for o in &ops {
        let got = c.op(o).unwrap();
        let is_req = matches!(o, Op::Req(_));
        if is_req {
            nreq += 1;
        }
        if eager && auto {
            // one is alive at a time (and the parser may hold the next one)
            if max >= 2 {
                ensure_eq!(case, got, S::DATA, "answer to message although at most two transactions are alive");
            } else if is_req && nreq == 1 {
                ensure_eq!(case, got, S::DATA, "answer to the first request");
            }
        } else if is_req && !(eager && auto) {
            if nreq > max && (!auto || !eager) {
                ensure_eq!(case, got, S::ERROR, "answer to request {} when {} transactions may be alive", nreq, max);
                dead = true;
            } else if !dead {
                ensure_eq!(case, got, S::DATA, "answer to request {} when {} transactions may be alive", nreq, max);
            }
        }
        let alive = (0..x.len() + 2).filter(|i| c.connp.tx(*i).is_some()).count();
        ensure!(case, alive <= max, "{} transactions are alive, the maximum is {}", alive, max);
    }
    let reach = if eager && auto && max >= 2 { x.len() } else if !auto || !eager { x.len().min(max) } else { 1 };
    for i in 0..reach {
        if eager && auto && max >= 2 {
            continue;
        }
        if let Some(tx) = c.connp.tx(i) {
            ensure_eq!(case, tx.request_progress, HtpRequestProgress::COMPLETE, "request {} within the maximum", i);
        }
    }
    let ev = c.events();
    for i in 0..reach {
        ensure_eq!(case, ev.iter().filter(|e| e.k == K::ReqComplete && e.tx == i).count(), 1, "completions of request {} (maximum {})", i, max);
    }
    case.nontrivial = x.len() > max || auto;
    case.label("maximum number of transactions");
    Ok(())
}

// ---- P26 ----------------------------------------------------------------------
const LEVELS: [L; 7] = [L::NONE, L::ERROR, L::WARNING, L::NOTICE, L::INFO, L::DEBUG, L::DEBUG2];

fn open(cfg: Config, addr: (Option<std::net::IpAddr>, Option<u16>, Option<std::net::IpAddr>, Option<u16>)) -> Conn {
    let mut c = Conn::new(cfg.clone());
    let mut p = Box::new(ConnectionParser::new(cfg));
    p.open(addr.0, addr.1, addr.2, addr.3, None);
    c.connp = p;
    c
}

fn p26(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = if s.bool() { base_config() } else { random_config(s) };
    let ops = history(s);
    let ip = |s: &mut Src| -> Option<std::net::IpAddr> {
        match s.below(4) {
            0 => None,
            1 => Some(std::net::Ipv6Addr::from(s.below(u64::MAX) as u128 * 7919).into()),
            _ => Some(std::net::Ipv4Addr::from(s.below(1 << 32) as u32).into()),
        }
    };
    let addr = (ip(s), s.bool().then(|| s.below(65536) as u16), ip(s), s.bool().then(|| s.below(65536) as u16));
    case.describe(|| format!("{}\n{:?}\n{}", show_config(&cfg), addr, show_ops(&ops)));
    cfg.log_level = L::DEBUG2;
    let mut a = open(cfg.clone(), addr);
    // logs are read now and then, in one of two ways
    let how = s.below(4);
    let mut full: Vec<Log> = vec![];
    for o in &ops {
        a.op(o);
        match how {
            0 => full.extend(a.connp.conn.get_logs()),
            1 => {
                if let Some(l) = a.connp.conn.get_next_log() {
                    full.push(l);
                }
            }
            _ => {}
        }
    }
    if how == 1 || how == 2 {
        while let Some(l) = a.connp.conn.get_next_log() {
            full.push(l);
        }
    } else {
        full.extend(a.connp.conn.get_logs());
    }
    ensure!(case, a.connp.conn.get_next_log().is_none() && a.connp.conn.get_logs().is_empty(), "messages are read twice");
    let ev = a.events();
    case.describe(|| full.iter().map(log_text).collect::<Vec<_>>().join("\n"));
    for l in &full {
        ensure_eq!(case, (l.client_addr, l.client_port, l.server_addr, l.server_port), addr, "addresses of a log message");
        ensure!(case, !l.msg.msg.is_empty() && l.msg.line > 0 && l.msg.file.ends_with(".rs"), "message without text or place: {}", log_text(l));
        ensure!(case, l.msg.level != L::NONE, "message without a level: {}", log_text(l));
    }
    let snaps: Vec<_> = a.txs().iter().map(|t| snapshot(t)).collect();
    let level = *s.pick(&LEVELS);
    cfg.log_level = level;
    let mut b = open(cfg, addr);
    b.run(&ops);
    let got: Vec<String> = b.connp.conn.get_logs().iter().map(log_text).collect();
    let want: Vec<String> = full.iter().filter(|l| l.msg.level <= level).map(log_text).collect();
    ensure_eq!(case, got, want, "messages at level {:?}", level);
    same_events(case, &b.events(), &ev, "log level")?;
    same_calls(case, &b, &a, "log level")?;
    let s2: Vec<_> = b.txs().iter().map(|t| snapshot(t)).collect();
    ensure!(case, snaps == s2, "the log level changes what is reported");
    case.nontrivial = full.len() >= 2;
    case.label(if want.is_empty() { "nothing at this level" } else if want.len() < full.len() { "some filtered" } else { "all kept" });
    Ok(())
}

// ---- P27 ----------------------------------------------------------------------
/// One step on a raw parser without holding anything back.
fn step(p: &mut ConnectionParser, o: &Op) -> Option<(S, usize)> {
    match o {
        Op::Req(b) => {
            let st = p.request_data(ParserData::from(b.as_slice()), None);
            Some((st, p.request_data_consumed()))
        }
        Op::Res(b) => {
            let st = p.response_data(ParserData::from(b.as_slice()), None);
            Some((st, p.response_data_consumed()))
        }
        Op::ReqGap(n) => {
            let st = p.request_data(ParserData::from(*n), None);
            Some((st, p.request_data_consumed()))
        }
        Op::ResGap(n) => {
            let st = p.response_data(ParserData::from(*n), None);
            Some((st, p.response_data_consumed()))
        }
        Op::ReqClose => {
            p.request_close(None);
            None
        }
        Op::Close => {
            p.close(None);
            None
        }
    }
}
fn fresh(cfg: &Config) -> ConnectionParser {
    let mut p = ConnectionParser::new(cfg.clone());
    p.open(Some("10.0.0.1".parse().unwrap()), Some(1), Some("10.0.0.2".parse().unwrap()), Some(80), None);
    p
}
#[derive(PartialEq, Debug)]
struct Report {
    steps: Vec<Option<(S, usize)>>,
    events: Vec<Event>,
    txs: Vec<Vec<(&'static str, String)>>,
    logs: Vec<String>,
    flags: u8,
}
fn own_hook(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    OWN.with(|o| o.borrow_mut().push((tx.index, d.data().map(|x| x.to_vec()))));
    Ok(())
}
thread_local! {
    static OWN: RefCell<Vec<(usize, Option<Vec<u8>>)>> = const { RefCell::new(vec![]) };
}
fn odd_ones(k: K, tx: &mut Transaction) {
    // a callback of every other transaction only
    if k == K::ReqStart && tx.index % 2 == 1 {
        tx.hook_response_body_data.register(own_hook);
        tx.register_request_body_data(own_hook);
    }
}
fn take() -> Vec<Event> {
    REC.with(|r| std::mem::take(&mut r.borrow_mut().events))
}
fn report(p: &ConnectionParser, steps: Vec<Option<(S, usize)>>, events: Vec<Event>) -> Report {
    Report {
        steps,
        events,
        txs: (0..p.tx_size()).map(|i| p.tx(i).map(snapshot).unwrap_or_default()).collect(),
        logs: p.conn.get_logs().iter().map(log_text).collect(),
        flags: p.conn.flags,
    }
}
fn alone(cfg: &Config, ops: &[Op]) -> (Report, usize) {
    REC.with(|r| *r.borrow_mut() = Recorder { on_tx: Some(odd_ones), ..Default::default() });
    OWN.with(|o| o.borrow_mut().clear());
    let mut p = fresh(cfg);
    let steps = ops.iter().map(|o| step(&mut p, o)).collect();
    (report(&p, steps, take()), OWN.with(|o| o.borrow().len()))
}
fn compare(case: &mut Case, a: &Report, b: &Report, what: &str) -> Result<(), String> {
    for (i, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        ensure_eq!(case, x, y, "{}: answer of step {}", what, i);
    }
    same_events(case, &a.events, &b.events, what)?;
    ensure_eq!(case, a.txs.len(), b.txs.len(), "{}: transactions", what);
    for (x, y) in a.txs.iter().zip(&b.txs) {
        if let Some(d) = diff(x, y) {
            return Err(format!("{}: {}", what, d));
        }
    }
    ensure_eq!(case, a.logs, b.logs, "{}: log messages", what);
    ensure_eq!(case, a.flags, b.flags, "{}: connection flags", what);
    Ok(())
}

fn p27(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = if s.bool() { base_config() } else { random_config(s) };
    let mut a = history(s);
    if s.chance(1, 4) {
        // compressed bodies, to have decompressors alive
        let d = gz(b"some text, some text");
        let mut m = format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", d.len()).into_bytes();
        m.extend_from_slice(&d);
        let k = s.u(m.len());
        a.splice(0..0, [Op::Req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec()), Op::Res(m[..k].to_vec()), Op::Res(m[k..].to_vec())]);
    }
    let b = if s.chance(1, 4) { a.clone() } else { history(s) };
    case.describe(|| format!("{}\nfirst connection:\n{}\nsecond connection:\n{}", show_config(&cfg), show_ops(&a), show_ops(&b)));
    let (ra, oa) = alone(&cfg, &a);
    let (rb, ob) = alone(&cfg, &b);
    // the same again
    let (ra2, _) = alone(&cfg, &a);
    compare(case, &ra2, &ra, "the same history again")?;
    // interleaved
    REC.with(|r| *r.borrow_mut() = Recorder { on_tx: Some(odd_ones), ..Default::default() });
    OWN.with(|o| o.borrow_mut().clear());
    let mut pa = Box::new(fresh(&cfg));
    let mut pb = Box::new(fresh(&cfg));
    let (mut ea, mut eb) = (vec![], vec![]);
    let (mut sa, mut sb) = (vec![], vec![]);
    let (mut i, mut j) = (0, 0);
    let moving = s.bool();
    let mut moves = 0;
    while i < a.len() || j < b.len() {
        if moving && s.chance(1, 3) {
            // The parsers change places in memory; each goes on where it is now.
            std::mem::swap(&mut *pa, &mut *pb);
            std::mem::swap(&mut pa, &mut pb);
            moves += 1;
        }
        if j == b.len() || (i < a.len() && s.bool()) {
            sa.push(step(&mut pa, &a[i]));
            ea.extend(take());
            i += 1;
        } else {
            sb.push(step(&mut pb, &b[j]));
            eb.extend(take());
            j += 1;
        }
    }
    if moves > 0 { case.label("parsers moved in memory between calls"); }
    let ia = report(&pa, sa, ea);
    drop(pa);
    let ib = report(&pb, sb, eb);
    compare(case, &ia, &ra, "first connection next to another")?;
    compare(case, &ib, &rb, "second connection next to another")?;
    // callbacks of a transaction run for it alone
    let own = OWN.with(|o| o.borrow().clone());
    ensure_eq!(case, own.len(), oa + ob, "calls of callbacks registered on single transactions");
    ensure!(case, own.iter().all(|x| x.0 % 2 == 1), "a transaction's own callback ran for another transaction");
    if !own.is_empty() { case.label("callbacks of single transactions"); }
    case.nontrivial = !ra.txs.is_empty() && !rb.txs.is_empty();
    Ok(())
}

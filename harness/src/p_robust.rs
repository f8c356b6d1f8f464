//! P01: any input, any configuration, any call history is handled cleanly.
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use htp::connection_parser::HtpStreamState as S;

pub static PROPS: &[Prop] = &[Prop {
    id: "P01",
    rule: "the history delivered at least 2 data calls and produced at least 3 callbacks",
    run: p01,
    quick: 1_000_000,
}];

fn p01(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = random_config(s);
    let max_tx = cfg.max_tx as usize;
    let ops = wild_ops(s);
    let mut policy = vec![];
    if s.chance(1, 4) {
        for _ in 0..s.range(1, 3) {
            let k = *s.pick(&ALL_K);
            let n = s.range(0, 2);
            let r = *s.pick(&[Ret::Declined, Ret::Stop, Ret::Error]);
            policy.push((k, n, r));
        }
    }
    case.describe(|| format!("policy {:?}\n{}", policy, show_ops(&ops)));
    case.describe(|| show_config(&cfg));
    let mut c = Conn::with_policy(cfg, policy, None);
    // expected byte counters
    let (mut cq, mut cs) = (0u64, 0u64);
    let (mut eq, mut es) = (None::<S>, None::<S>);
    let mut calls_seen = 0;
    let mut closed = false;
    let mut counters = None;
    for op in &ops {
        c.op(op);
        let closes = matches!(op, Op::Close | Op::ReqClose);
        if closes && !closed {
            closed = true;
            // the internal calls made by a close are not observable as calls
            counters = Some((cq, cs, c.connp.conn.request_data_counter, c.connp.conn.response_data_counter));
        }
        if closes {
            // closing lifts a stop, never an error
            if eq == Some(S::STOP) {
                eq = None;
            }
            if es == Some(S::STOP) && *op == Op::Close {
                es = None;
            }
        }
        let new: Vec<Call> = c.calls[calls_seen..].to_vec();
        for k in &new {
            calls_seen += 1;
            let sticky = if k.req { &mut eq } else { &mut es };
            if let Some(st) = sticky {
                ensure_eq!(case, k.st, *st, "after a fatal or stop answer every later call answers the same");
                ensure_eq!(case, k.consumed, 0usize, "a dead stream consumes nothing");
                continue;
            }
            ensure!(case, matches!(k.st, S::DATA | S::DATA_OTHER | S::ERROR | S::STOP | S::TUNNEL | S::CLOSED),
                "unexpected stream state {:?}", k.st);
            ensure!(case, k.consumed <= k.len, "consumed {} of a chunk of {}", k.consumed, k.len);
            if k.len == 0 {
                continue;
            }
            if k.req { cq = cq.wrapping_add(k.len as u64) } else { cs = cs.wrapping_add(k.len as u64) }
            if k.st == S::ERROR || k.st == S::STOP {
                *sticky = Some(k.st);
            }
        }
        if c.connp.tx_size() > 0 {
            let live = (0..c.connp.tx_size()).filter(|i| c.connp.tx(*i).is_some()).count();
            ensure!(case, live <= max_tx.max(1), "{} live transactions with a maximum of {}", live, max_tx);
        }
    }
    if !ops.iter().any(|o| matches!(o, Op::ReqGap(_) | Op::ResGap(_))) {
        let (cq, cs, gq, gs) = counters.unwrap_or((cq, cs, c.connp.conn.request_data_counter, c.connp.conn.response_data_counter));
        ensure_eq!(case, gq, cq, "inbound byte counter");
        ensure_eq!(case, gs, cs, "outbound byte counter");
    }
    let ev = c.events();
    for e in &ev {
        ensure!(case, e.tx < c.connp.tx_size().max(1) + 1, "callback for transaction {} of {}", e.tx, c.connp.tx_size());
    }
    case.nontrivial = c.calls.len() >= 2 && ev.len() >= 3;
    if ev.len() > 10 { case.label("more than 10 callbacks"); }
    if eq == Some(S::ERROR) || es == Some(S::ERROR) { case.label("error"); }
    if c.calls.iter().any(|c| c.st == S::TUNNEL) { case.label("tunnel"); }
    if c.calls.iter().any(|c| c.st == S::DATA_OTHER) { case.label("data other"); }
    if ev.iter().any(|e| e.k == K::TxComplete) { case.label("transaction complete"); }
    if ev.iter().any(|e| e.k == K::ResBody) { case.label("response body"); }
    // dropping everything must be clean too
    drop(c);
    Ok(())
}

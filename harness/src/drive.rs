//! Drives a connection parser and records everything a user can observe:
//! callbacks (with their payload), stream states, consumed counts, transactions.
use crate::engine::*;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::{HtpRequestProgress, HtpResponseProgress, Transaction};
use htp::HtpStatus;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    ReqStart,
    ReqUri,
    ReqLine,
    ReqHeaderData,
    ReqHeaders,
    ReqBody,
    ReqTrailerData,
    ReqTrailer,
    ReqComplete,
    ResStart,
    ResLine,
    ResHeaderData,
    ResHeaders,
    ResBody,
    ResTrailerData,
    ResTrailer,
    ResComplete,
    TxComplete,
}
use K::*;
pub const ALL_K: [K; 18] = [
    ReqStart, ReqUri, ReqLine, ReqHeaderData, ReqHeaders, ReqBody, ReqTrailerData, ReqTrailer,
    ReqComplete, ResStart, ResLine, ResHeaderData, ResHeaders, ResBody, ResTrailerData, ResTrailer,
    ResComplete, TxComplete,
];
impl K {
    pub fn is_req(self) -> bool {
        self <= ReqComplete
    }
    pub fn is_res(self) -> bool {
        self >= ResStart && self <= ResComplete
    }
    pub fn is_data(self) -> bool {
        matches!(
            self,
            ReqHeaderData | ReqBody | ReqTrailerData | ResHeaderData | ResBody | ResTrailerData
        )
    }
}

/// Payload of a data callback.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Payload {
    None,
    Bytes(Vec<u8>),
    Gap(usize),
    /// end-of-body marker (no data)
    End,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Event {
    pub k: K,
    pub tx: usize,
    pub data: Payload,
    pub req_progress: HtpRequestProgress,
    pub res_progress: HtpResponseProgress,
}

/// What a callback answers.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ret {
    Ok,
    Declined,
    Stop,
    Error,
}
impl Ret {
    fn result(self) -> Result<(), HtpStatus> {
        match self {
            Ret::Ok => Ok(()),
            Ret::Declined => Err(HtpStatus::DECLINED),
            Ret::Stop => Err(HtpStatus::STOP),
            Ret::Error => Err(HtpStatus::ERROR),
        }
    }
}

#[derive(Default)]
pub struct Recorder {
    pub events: Vec<Event>,
    /// (kind, nth occurrence starting at 0, status)
    pub policy: Vec<(K, usize, Ret)>,
    pub counts: [usize; 18],
    /// Optional action on a callback: edit the transaction.
    pub on_tx: Option<fn(K, &mut Transaction)>,
    /// the status actually returned by a policy
    pub fired: Vec<(usize, K, Ret)>,
    /// nothing is recorded
    pub muted: bool,
}

thread_local! {
    pub static REC: RefCell<Recorder> = RefCell::new(Recorder::default());
}

fn record(k: K, tx: &mut Transaction, data: Payload) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.counts[k as usize];
        r.counts[k as usize] += 1;
        if r.muted {
            let hit = r.policy.iter().find(|p| p.0 == k && p.1 == n);
            return hit.map_or(Ok(()), |p| p.2.result());
        }
        r.events.push(Event {
            k,
            tx: tx.index,
            data,
            req_progress: tx.request_progress,
            res_progress: tx.response_progress,
        });
        if let Some(f) = r.on_tx {
            f(k, tx);
        }
        let hit = r.policy.iter().find(|p| p.0 == k && p.1 == n).copied();
        if let Some((_, _, st)) = hit {
            let at = r.events.len() - 1;
            r.fired.push((at, k, st));
            st.result()
        } else {
            Ok(())
        }
    })
}
fn payload(d: &ParserData) -> Payload {
    if d.is_gap() {
        Payload::Gap(d.len())
    } else {
        match d.data() {
            Some(s) => Payload::Bytes(s.to_vec()),
            None => Payload::End,
        }
    }
}

macro_rules! txh {
    ($n:ident, $k:ident) => {
        pub fn $n(tx: &mut Transaction) -> Result<(), HtpStatus> {
            record(K::$k, tx, Payload::None)
        }
    };
}
macro_rules! dh {
    ($n:ident, $k:ident) => {
        pub fn $n(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
            record(K::$k, tx, payload(d))
        }
    };
}
txh!(h_req_start, ReqStart);
txh!(h_req_uri, ReqUri);
txh!(h_req_line, ReqLine);
dh!(h_req_hd, ReqHeaderData);
txh!(h_req_headers, ReqHeaders);
dh!(h_req_body, ReqBody);
dh!(h_req_td, ReqTrailerData);
txh!(h_req_trailer, ReqTrailer);
txh!(h_req_complete, ReqComplete);
txh!(h_res_start, ResStart);
txh!(h_res_line, ResLine);
dh!(h_res_hd, ResHeaderData);
txh!(h_res_headers, ResHeaders);
dh!(h_res_body, ResBody);
dh!(h_res_td, ResTrailerData);
txh!(h_res_trailer, ResTrailer);
txh!(h_res_complete, ResComplete);
txh!(h_tx_complete, TxComplete);

pub fn register_all(cfg: &mut Config) {
    cfg.register_request_start(h_req_start);
    cfg.hook_request_uri_normalize.register(h_req_uri);
    cfg.register_request_line(h_req_line);
    cfg.register_request_header_data(h_req_hd);
    cfg.register_request_headers(h_req_headers);
    cfg.register_request_body_data(h_req_body);
    cfg.register_request_trailer_data(h_req_td);
    cfg.register_request_trailer(h_req_trailer);
    cfg.register_request_complete(h_req_complete);
    cfg.register_response_start(h_res_start);
    cfg.register_response_line(h_res_line);
    cfg.register_response_header_data(h_res_hd);
    cfg.register_response_headers(h_res_headers);
    cfg.register_response_body_data(h_res_body);
    cfg.register_response_trailer_data(h_res_td);
    cfg.register_response_trailer(h_res_trailer);
    cfg.register_response_complete(h_res_complete);
    cfg.register_transaction_complete(h_tx_complete);
}

/// A configuration whose wall-clock limit never triggers, so runs are deterministic.
pub fn base_config() -> Config {
    let mut cfg = Config::default();
    cfg.compression_options.set_time_limit(u32::MAX);
    register_all(&mut cfg);
    cfg
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Req(Vec<u8>),
    Res(Vec<u8>),
    ReqGap(usize),
    ResGap(usize),
    ReqClose,
    Close,
}

pub fn show_ops(ops: &[Op]) -> String {
    // runs of pieces in one direction are shown on one line, cuts as |
    let mut out: Vec<(u8, String)> = vec![];
    for o in ops {
        let (d, t) = match o {
            Op::Req(b) => (b'>', esc(b)),
            Op::Res(b) => (b'<', esc(b)),
            Op::ReqGap(n) => (0, format!(">>> gap {}", n)),
            Op::ResGap(n) => (0, format!("<<< gap {}", n)),
            Op::ReqClose => (0, "request close".into()),
            Op::Close => (0, "close".into()),
        };
        match out.last_mut() {
            Some(l) if d != 0 && l.0 == d => {
                l.1.push('|');
                l.1.push_str(&t);
            }
            _ => out.push((d, t)),
        }
    }
    out.iter()
        .map(|(d, t)| match d {
            b'>' => format!(">>> {}", t),
            b'<' => format!("<<< {}", t),
            _ => t.clone(),
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Result of one call into the parser.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Call {
    pub req: bool,
    pub len: usize,
    pub st: HtpStreamState,
    pub consumed: usize,
    /// number of recorded events when the call returned
    pub events_after: usize,
}

pub struct Conn {
    pub connp: Box<ConnectionParser>,
    pub calls: Vec<Call>,
    req_left: Option<Vec<u8>>,
    res_left: Option<Vec<u8>>,
    fed_req: u64,
    fed_res: u64,
}

fn nevents() -> usize {
    REC.with(|r| r.borrow().events.len())
}

impl Conn {
    pub fn new(cfg: Config) -> Self {
        Self::with_policy(cfg, vec![], None)
    }
    pub fn with_policy(
        cfg: Config,
        policy: Vec<(K, usize, Ret)>,
        on_tx: Option<fn(K, &mut Transaction)>,
    ) -> Self {
        REC.with(|r| {
            *r.borrow_mut() = Recorder {
                policy,
                on_tx,
                ..Default::default()
            }
        });
        let mut connp = Box::new(ConnectionParser::new(cfg));
        connp.open(
            Some("127.0.0.1".parse().unwrap()),
            Some(10000),
            Some("127.0.0.1".parse().unwrap()),
            Some(80),
            None,
        );
        Conn {
            connp,
            calls: vec![],
            req_left: None,
            res_left: None,
            fed_req: 0,
            fed_res: 0,
        }
    }
    fn call_req(&mut self, b: &[u8]) -> HtpStreamState {
        let st = self.connp.request_data(ParserData::from(b), None);
        let consumed = self.connp.request_data_consumed();
        self.fed_req = self.fed_req.wrapping_add(b.len() as u64);
        self.calls.push(Call {
            req: true,
            len: b.len(),
            st,
            consumed,
            events_after: nevents(),
        });
        st
    }
    fn call_res(&mut self, b: &[u8]) -> HtpStreamState {
        let st = self.connp.response_data(ParserData::from(b), None);
        let consumed = self.connp.response_data_consumed();
        self.fed_res = self.fed_res.wrapping_add(b.len() as u64);
        self.calls.push(Call {
            req: false,
            len: b.len(),
            st,
            consumed,
            events_after: nevents(),
        });
        st
    }
    /// Feed request bytes following the documented DATA_OTHER protocol.
    pub fn feed_req(&mut self, b: &[u8]) -> HtpStreamState {
        // Anything the parser asked us to hold back goes first.
        let mut data = self.req_left.take().unwrap_or_default();
        data.extend_from_slice(b);
        if data.is_empty() {
            return HtpStreamState::DATA;
        }
        let st = self.call_req(&data);
        if st == HtpStreamState::DATA_OTHER {
            let c = self.connp.request_data_consumed().min(data.len());
            self.req_left = Some(data[c..].to_vec());
        }
        st
    }
    pub fn feed_res(&mut self, b: &[u8]) -> HtpStreamState {
        let mut data = self.res_left.take().unwrap_or_default();
        data.extend_from_slice(b);
        if data.is_empty() {
            return HtpStreamState::DATA;
        }
        let st = self.call_res(&data);
        if st == HtpStreamState::DATA_OTHER {
            let c = self.connp.response_data_consumed().min(data.len());
            self.res_left = Some(data[c..].to_vec());
        }
        st
    }
    pub fn has_left(&self) -> (bool, bool) {
        (self.req_left.is_some(), self.res_left.is_some())
    }
    /// Give each side its held-back bytes again until nothing moves.
    pub fn settle(&mut self) {
        for _ in 0..8 {
            let before = (
                self.req_left.as_ref().map(|x| x.len()),
                self.res_left.as_ref().map(|x| x.len()),
            );
            if before == (None, None) {
                return;
            }
            if self.req_left.is_some() {
                self.feed_req(b"");
            }
            if self.res_left.is_some() {
                self.feed_res(b"");
            }
            let after = (
                self.req_left.as_ref().map(|x| x.len()),
                self.res_left.as_ref().map(|x| x.len()),
            );
            if before == after {
                return;
            }
        }
    }
    /// Offer what each side holds back in turn as long as that helps.
    fn alternate(&mut self) {
        let left = |c: &Self| c.req_left.as_ref().map_or(0, |x| x.len()) + c.res_left.as_ref().map_or(0, |x| x.len());
        loop {
            let before = left(self);
            if self.req_left.is_some() {
                self.feed_req(b"");
            }
            if self.res_left.is_some() {
                self.feed_res(b"");
            }
            if left(self) == 0 || left(self) == before {
                return;
            }
        }
    }
    pub fn op(&mut self, op: &Op) -> Option<HtpStreamState> {
        match op {
            Op::Req(b) => {
                let st = self.feed_req(b);
                if self.res_left.is_some() {
                    self.feed_res(b"");
                    self.alternate();
                }
                Some(st)
            }
            Op::Res(b) => {
                let st = self.feed_res(b);
                if self.req_left.is_some() {
                    self.alternate();
                }
                Some(st)
            }
            Op::ReqGap(n) => {
                let st = self.connp.request_data(ParserData::from(*n), None);
                let consumed = self.connp.request_data_consumed();
                self.fed_req = self.fed_req.wrapping_add(*n as u64);
                self.calls.push(Call { req: true, len: *n, st, consumed, events_after: nevents() });
                Some(st)
            }
            Op::ResGap(n) => {
                let st = self.connp.response_data(ParserData::from(*n), None);
                let consumed = self.connp.response_data_consumed();
                self.fed_res = self.fed_res.wrapping_add(*n as u64);
                self.calls.push(Call { req: false, len: *n, st, consumed, events_after: nevents() });
                Some(st)
            }
            Op::ReqClose => {
                self.connp.request_close(None);
                None
            }
            Op::Close => {
                self.connp.close(None);
                None
            }
        }
    }
    pub fn run(&mut self, ops: &[Op]) {
        for o in ops {
            self.op(o);
        }
    }
    pub fn events(&self) -> Vec<Event> {
        REC.with(|r| r.borrow().events.clone())
    }
    pub fn take_events(&self) -> Vec<Event> {
        REC.with(|r| std::mem::take(&mut r.borrow_mut().events))
    }
    pub fn worst(&self, req: bool) -> Option<HtpStreamState> {
        self.calls
            .iter()
            .filter(|c| c.req == req)
            .map(|c| c.st)
            .find(|s| *s == HtpStreamState::ERROR || *s == HtpStreamState::STOP)
    }
    pub fn txs(&self) -> Vec<&Transaction> {
        (0..self.connp.tx_size())
            .filter_map(|i| self.connp.tx(i))
            .collect()
    }
    pub fn fed(&self) -> (u64, u64) {
        (self.fed_req, self.fed_res)
    }
}

/// Merge neighbouring data events of the same kind and transaction.
pub fn merge(events: &[Event], keep: impl Fn(K) -> bool) -> Vec<(K, usize, Payload)> {
    let mut out: Vec<(K, usize, Payload)> = vec![];
    for e in events.iter().filter(|e| keep(e.k)) {
        if e.k.is_data() {
            if let Payload::Bytes(b) = &e.data {
                if b.is_empty() {
                    continue;
                }
            }
            if let Some(l) = out.last_mut() {
                if l.0 == e.k && l.1 == e.tx {
                    match (&mut l.2, &e.data) {
                        (Payload::Bytes(a), Payload::Bytes(b)) => {
                            a.extend_from_slice(b);
                            continue;
                        }
                        (Payload::Gap(a), Payload::Gap(b)) => {
                            *a += b;
                            continue;
                        }
                        _ => {}
                    }
                }
            }
        }
        out.push((e.k, e.tx, e.data.clone()));
    }
    out
}

/// Concatenated bytes of all data events of a kind for a transaction.
pub fn data_of(events: &[Event], k: K, tx: usize) -> Vec<u8> {
    let mut v = vec![];
    for e in events {
        if e.k == k && e.tx == tx {
            if let Payload::Bytes(b) = &e.data {
                v.extend_from_slice(b);
            }
        }
    }
    v
}

pub fn show_events(ev: &[Event]) -> String {
    ev.iter()
        .map(|e| {
            format!(
                "{:?}#{}{}",
                e.k,
                e.tx,
                match &e.data {
                    Payload::None => "".into(),
                    Payload::Bytes(b) => format!("({})", esc(b)),
                    Payload::Gap(n) => format!("(gap {})", n),
                    Payload::End => "(end)".into(),
                }
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

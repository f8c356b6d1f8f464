//! P25: the C interface against the Rust one. P29: settings against a model.
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_life::history;
use htp::bstr::Bstr;
use htp::c_api::bstr::*;
use htp::c_api::config::*;
use htp::c_api::connection::*;
use htp::c_api::connection_parser::*;
use htp::c_api::header::*;
use htp::c_api::log::*;
use htp::c_api::transaction::*;
use htp::c_api::uri::*;
use htp::c_api::{htp_free_cstring, htp_get_version};
use htp::config::*;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::decompressors::HtpContentEncoding;
use htp::hook::Callback;
use htp::log::{HtpLogCode, HtpLogLevel, Log};
use htp::request::HtpMethod;
use htp::transaction::*;
use htp::uri::Uri;
use htp::HtpStatus;
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_void};
use std::ptr::{null, null_mut};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P25",
        rule: "arbitrary or well-formed histories run through the C interface and the Rust one, with random settings, callback answers and removals; non-trivial when at least two transactions or three header fields were read",
        run: p25,
        quick: 300_000,
    },
    Prop {
        id: "P29",
        rule: "random sequences of settings through both interfaces against a model of the settings; non-trivial when at least two settings are changed",
        run: p29,
        quick: 3_000_000,
    },
];

type View = Vec<(&'static str, String)>;

// ---- what C reads ----------------------------------------------------------------
unsafe fn cb(b: *const Bstr) -> String {
    if b.is_null() {
        return "-".into();
    }
    let n = bstr_len(b);
    let p = bstr_ptr(b);
    if n > bstr_size(b) {
        return "length beyond the capacity".into();
    }
    format!("\"{}\"", esc(std::slice::from_raw_parts(p, n)))
}
unsafe fn c_header(h: *const Header) -> String {
    if h.is_null() {
        return "none".into();
    }
    let by_ptr = |p: *const u8, n: isize| if n < 0 { "?".to_string() } else { format!("\"{}\"", esc(std::slice::from_raw_parts(p, n as usize))) };
    let (n, v) = (cb(htp_header_name(h)), cb(htp_header_value(h)));
    let (n2, v2) = (by_ptr(htp_header_name_ptr(h), htp_header_name_len(h)), by_ptr(htp_header_value_ptr(h), htp_header_value_len(h)));
    if n != n2 || v != v2 {
        return format!("{} {} as strings, {} {} as pointers", n, v, n2, v2);
    }
    format!("[{}|{}|{:x}]", n, v, htp_header_flags(h))
}
const NAMES: [&str; 8] = ["host", "CONTENT-LENGTH", "Transfer-encoding", "X-F", "content-type", "cookie", "a", "none-such"];
unsafe fn c_headers(h: *const Headers, size: isize, by_index: &dyn Fn(usize) -> *const Header, by_name: &dyn Fn(*const c_char) -> *const Header) -> String {
    let mut out = String::new();
    if htp_headers_size(h) != size {
        return format!("sizes {} and {}", htp_headers_size(h), size);
    }
    for i in 0..size as usize {
        let p = by_index(i);
        if p != htp_headers_get_index(h, i) {
            return format!("two headers at index {}", i);
        }
        out.push_str(&c_header(p));
    }
    if !by_index(size as usize).is_null() || !htp_headers_get_index(h, size as usize).is_null() {
        return "a header beyond the last".into();
    }
    out.push_str(&format!(" flags {:x}", htp_headers_flags(h)));
    for n in NAMES {
        let c = CString::new(n).unwrap();
        let p = by_name(c.as_ptr());
        if p != htp_headers_get(h, c.as_ptr()) {
            return format!("two headers named {}", n);
        }
        let at = (0..size as usize).find(|i| by_index(*i) == p).map(|x| x as i64).unwrap_or(-1);
        out.push_str(&format!(" {}@{}", n, at));
    }
    out
}
unsafe fn c_uri(u: *const Uri) -> String {
    if u.is_null() {
        return "-".into();
    }
    format!(
        "{} {} {} {} {} {} {} {} {}",
        cb(htp_uri_scheme(u)), cb(htp_uri_username(u)), cb(htp_uri_password(u)), cb(htp_uri_hostname(u)), cb(htp_uri_port(u)),
        htp_uri_port_number(u), cb(htp_uri_path(u)), cb(htp_uri_query(u)), cb(htp_uri_fragment(u))
    )
}
unsafe fn c_view(t: *const Transaction) -> View {
    vec![
        ("request_line", cb(htp_tx_request_line(t))),
        ("request_method", cb(htp_tx_request_method(t))),
        ("request_method_number", format!("{:?}", htp_tx_request_method_number(t))),
        ("request_uri", cb(htp_tx_request_uri(t))),
        ("request_protocol", cb(htp_tx_request_protocol(t))),
        ("request_protocol_number", format!("{:?}", htp_tx_request_protocol_number(t))),
        ("is_protocol_0_9", htp_tx_is_protocol_0_9(t).to_string()),
        ("is_http_2_upgrade", htp_tx_is_http_2_upgrade(t).to_string()),
        ("parsed_uri", c_uri(htp_tx_parsed_uri(t))),
        ("normalized_uri", cb(htp_tx_normalized_uri(t))),
        ("request_headers", c_headers(htp_tx_request_headers(t), htp_tx_request_headers_size(t), &|i| htp_tx_request_header_index(t, i), &|n| htp_tx_request_header(t, n))),
        ("request_transfer_coding", format!("{:?}", htp_tx_request_transfer_coding(t))),
        ("request_content_encoding", format!("{:?}", htp_tx_request_content_encoding(t))),
        ("request_content_type", cb(htp_tx_request_content_type(t))),
        ("request_content_length", htp_tx_request_content_length(t).to_string()),
        ("request_auth_type", format!("{:?}", htp_tx_request_auth_type(t))),
        ("request_hostname", cb(htp_tx_request_hostname(t))),
        ("request_port_number", htp_tx_request_port_number(t).to_string()),
        ("request_message_len", htp_tx_request_message_len(t).to_string()),
        ("request_entity_len", htp_tx_request_entity_len(t).to_string()),
        ("response_line", cb(htp_tx_response_line(t))),
        ("response_protocol", cb(htp_tx_response_protocol(t))),
        ("response_protocol_number", format!("{:?}", htp_tx_response_protocol_number(t))),
        ("response_status", cb(htp_tx_response_status(t))),
        ("response_status_number", htp_tx_response_status_number(t).to_string()),
        ("response_status_expected_number", htp_tx_response_status_expected_number(t).to_string()),
        ("response_message", cb(htp_tx_response_message(t))),
        ("response_headers", c_headers(htp_tx_response_headers(t), htp_tx_response_headers_size(t), &|i| htp_tx_response_header_index(t, i), &|n| htp_tx_response_header(t, n))),
        ("response_message_len", htp_tx_response_message_len(t).to_string()),
        ("response_entity_len", htp_tx_response_entity_len(t).to_string()),
        ("response_content_length", htp_tx_response_content_length(t).to_string()),
        ("response_content_type", cb(htp_tx_response_content_type(t))),
        ("flags", format!("{:x}", htp_tx_flags(t))),
        ("request_progress", format!("{:?}", htp_tx_request_progress(t))),
        ("response_progress", format!("{:?}", htp_tx_response_progress(t))),
        ("index", htp_tx_index(t).to_string()),
    ]
}
// ---- what Rust reads ---------------------------------------------------------------
fn rb(b: &Option<Bstr>) -> String {
    b.as_ref().map(|b| format!("\"{}\"", esc(b))).unwrap_or("-".into())
}
fn rn(n: u64) -> String {
    if n > i64::MAX as u64 { "-1".into() } else { n.to_string() }
}
fn r_headers(h: &Headers) -> String {
    let mut out = String::new();
    for x in &h.elements {
        out.push_str(&format!("[\"{}\"|\"{}\"|{:x}]", esc(&x.name), esc(&x.value), x.flags));
    }
    out.push_str(&format!(" flags {:x}", h.elements.iter().fold(0, |a, x| a | x.flags)));
    for n in NAMES {
        // names beyond ASCII are trimmed as text: take the library's word for them
        let odd = h.elements.iter().any(|x| x.name.iter().any(|c| *c >= 0x80 || *c == 0x0b));
        if odd {
            let p = h.get_nocase_nozero(n).map(|x| x as *const Header);
            let at = h.elements.iter().position(|x| Some(x as *const Header) == p).map(|x| x as i64).unwrap_or(-1);
            out.push_str(&format!(" {}@{}", n, at));
            continue;
        }
        let at = h
            .elements
            .iter()
            .position(|x| {
                let v: Vec<u8> = x.name.to_vec();
                let ws = |c: &u8| matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0c);
                let a = v.iter().position(|c| !ws(c)).unwrap_or(v.len());
                let z = v.iter().rposition(|c| !ws(c)).map(|k| k + 1).unwrap_or(a);
                let k: Vec<u8> = v[a..z].iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
                k == n.to_ascii_lowercase().as_bytes()
            })
            .map(|x| x as i64)
            .unwrap_or(-1);
        out.push_str(&format!(" {}@{}", n, at));
    }
    out
}
fn r_uri(u: &Option<Uri>) -> String {
    match u {
        None => "-".into(),
        Some(u) => format!(
            "{} {} {} {} {} {} {} {} {}",
            rb(&u.scheme), rb(&u.username), rb(&u.password), rb(&u.hostname), rb(&u.port),
            u.port_number.map(|p| p as i32).unwrap_or(-1), rb(&u.path), rb(&u.query), rb(&u.fragment)
        ),
    }
}
fn r_view(t: &Transaction, all: bool) -> View {
    vec![
        ("request_line", rb(&t.request_line)),
        ("request_method", rb(&t.request_method)),
        ("request_method_number", format!("{:?}", t.request_method_number)),
        ("request_uri", rb(&t.request_uri)),
        ("request_protocol", rb(&t.request_protocol)),
        ("request_protocol_number", format!("{:?}", t.request_protocol_number)),
        ("is_protocol_0_9", (t.is_protocol_0_9 as i32).to_string()),
        ("is_http_2_upgrade", (t.is_http_2_upgrade as i32).to_string()),
        ("parsed_uri", r_uri(&t.parsed_uri)),
        ("normalized_uri", rb(if all { &t.complete_normalized_uri } else { &t.partial_normalized_uri })),
        ("request_headers", r_headers(&t.request_headers)),
        ("request_transfer_coding", format!("{:?}", t.request_transfer_coding)),
        ("request_content_encoding", format!("{:?}", t.request_content_encoding)),
        ("request_content_type", rb(&t.request_content_type)),
        ("request_content_length", t.request_content_length.map(rn).unwrap_or("-1".into())),
        ("request_auth_type", format!("{:?}", t.request_auth_type)),
        ("request_hostname", rb(&t.request_hostname)),
        ("request_port_number", t.request_port_number.map(|p| p as i32).unwrap_or(-1).to_string()),
        ("request_message_len", rn(t.request_message_len)),
        ("request_entity_len", rn(t.request_entity_len)),
        ("response_line", rb(&t.response_line)),
        ("response_protocol", rb(&t.response_protocol)),
        ("response_protocol_number", format!("{:?}", t.response_protocol_number)),
        ("response_status", rb(&t.response_status)),
        ("response_status_number", match t.response_status_number {
            HtpResponseNumber::UNKNOWN => "0".into(),
            HtpResponseNumber::INVALID => "-1".into(),
            HtpResponseNumber::VALID(n) => n.to_string(),
        }),
        ("response_status_expected_number", match t.response_status_expected_number {
            HtpUnwanted::IGNORE => "0",
            HtpUnwanted::CODE_400 => "400",
            HtpUnwanted::CODE_404 => "404",
        }.into()),
        ("response_message", rb(&t.response_message)),
        ("response_headers", r_headers(&t.response_headers)),
        ("response_message_len", rn(t.response_message_len)),
        ("response_entity_len", rn(t.response_entity_len)),
        ("response_content_length", t.response_content_length.map(rn).unwrap_or("-1".into())),
        ("response_content_type", rb(&t.response_content_type)),
        ("flags", format!("{:x}", t.flags)),
        ("request_progress", format!("{:?}", t.request_progress)),
        ("response_progress", format!("{:?}", t.response_progress)),
        ("index", t.index.to_string()),
    ]
}

// ---- recording -----------------------------------------------------------------------
struct Rec {
    events: Vec<(K, usize, Payload)>,
    views: Vec<(K, usize, View)>,
    own: Vec<(usize, Payload)>,
    policy: Vec<(K, usize, Ret)>,
    counts: [usize; 18],
    all: bool,
    wrong: Option<String>,
    user: *mut c_void,
}
impl Default for Rec {
    fn default() -> Self {
        Rec { events: vec![], views: vec![], own: vec![], policy: vec![], counts: [0; 18], all: false, wrong: None, user: null_mut() }
    }
}
thread_local! {
    static R: RefCell<Rec> = RefCell::new(Rec::default());
}
fn note(k: K, index: usize, d: Payload, view: Option<View>) -> Ret {
    R.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.counts[k as usize];
        r.counts[k as usize] += 1;
        r.events.push((k, index, d));
        if let Some(v) = view {
            r.views.push((k, index, v));
        }
        r.policy.iter().find(|p| p.0 == k && p.1 == n).map(|p| p.2).unwrap_or(Ret::Ok)
    })
}
fn wants_view(k: K) -> bool {
    matches!(k, K::ReqHeaders | K::ResHeaders | K::TxComplete | K::ReqLine)
}
fn status(r: Ret) -> HtpStatus {
    match r {
        Ret::Ok => HtpStatus::OK,
        Ret::Declined => HtpStatus::DECLINED,
        Ret::Stop => HtpStatus::STOP,
        Ret::Error => HtpStatus::ERROR,
    }
}
fn answer(r: Ret) -> Result<(), HtpStatus> {
    match r {
        Ret::Ok => Ok(()),
        r => Err(status(r)),
    }
}
fn wrong(m: String) {
    R.with(|r| {
        let mut r = r.borrow_mut();
        if r.wrong.is_none() {
            r.wrong = Some(m);
        }
    })
}
unsafe extern "C" fn c_own(_c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
    let i = htp_tx_index(htp_tx_data_tx(d)) as usize;
    let p = c_payload(d);
    R.with(|r| r.borrow_mut().own.push((i, p)));
    HtpStatus::OK
}
unsafe fn c_payload(d: *const Data) -> Payload {
    let (p, n) = (htp_tx_data_data(d), htp_tx_data_len(d));
    if htp_tx_data_is_empty(d) != (n == 0) {
        wrong(format!("data of length {} is empty: {}", n, htp_tx_data_is_empty(d)));
    }
    // a length beyond isize is told as -1
    match (p.is_null(), n) {
        (true, 0) => Payload::End,
        (true, n) => Payload::Gap(n as usize),
        (false, n) => Payload::Bytes(std::slice::from_raw_parts(p, n as usize).to_vec()),
    }
}
unsafe fn c_event(k: K, c: *const ConnectionParser, t: *mut Transaction, d: Payload) -> HtpStatus {
    let i = htp_tx_index(t);
    let mine = (i + 1) as *mut c_void;
    let u = htp_tx_get_user_data(t);
    if u.is_null() {
        htp_tx_set_user_data(t, mine);
        if i % 2 == 1 {
            htp_tx_register_response_body_data(t, c_own);
        }
    } else if u != mine {
        wrong(format!("user data of transaction {} is {:?} at {:?}", i, u, k));
    }
    if htp_connp_user_data(c) != R.with(|r| r.borrow().user) {
        wrong(format!("user data of the connection is {:?} at {:?}", htp_connp_user_data(c), k));
    }
    let v = if wants_view(k) { Some(c_view(t)) } else { None };
    status(note(k, i as usize, d, v))
}
fn r_event(k: K, t: &mut Transaction, d: Payload) -> Result<(), HtpStatus> {
    if t.user_data.is_none() {
        t.set_user_data(Box::new(0u8));
        if t.index % 2 == 1 {
            t.hook_response_body_data.register(r_own);
        }
    }
    let all = R.with(|r| r.borrow().all);
    let v = if wants_view(k) { Some(r_view(t, all)) } else { None };
    answer(note(k, t.index, d, v))
}
fn r_own(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    R.with(|r| r.borrow_mut().own.push((t.index, r_payload(d))));
    Ok(())
}
fn r_payload(d: &ParserData) -> Payload {
    if d.is_gap() {
        // a gap too long for the C type has length -1
        return if d.len() == 0 { Payload::End } else { Payload::Gap(if d.len() > isize::MAX as usize { usize::MAX } else { d.len() }) };
    }
    match d.data() {
        Some(b) => Payload::Bytes(b.to_vec()),
        None => Payload::End,
    }
}
macro_rules! both_tx {
    ($c:ident, $r:ident, $k:ident) => {
        unsafe extern "C" fn $c(c: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
            c_event(K::$k, c, t, Payload::None)
        }
        fn $r(t: &mut Transaction) -> Result<(), HtpStatus> {
            r_event(K::$k, t, Payload::None)
        }
    };
}
macro_rules! both_data {
    ($c:ident, $r:ident, $k:ident) => {
        unsafe extern "C" fn $c(c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
            c_event(K::$k, c, htp_tx_data_tx(d) as *mut Transaction, c_payload(d))
        }
        fn $r(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
            r_event(K::$k, t, r_payload(d))
        }
    };
}
both_tx!(c1, r1, ReqStart);
both_tx!(c2, r2, ReqLine);
both_data!(c3, r3, ReqHeaderData);
both_tx!(c4, r4, ReqHeaders);
both_data!(c5, r5, ReqBody);
both_data!(c6, r6, ReqTrailerData);
both_tx!(c7, r7, ReqTrailer);
both_tx!(c8, r8, ReqComplete);
both_tx!(c9, r9, ResStart);
both_data!(c10, r10, ResHeaderData);
both_tx!(c11, r11, ResHeaders);
both_data!(c12, r12, ResBody);
both_data!(c13, r13, ResTrailerData);
both_tx!(c14, r14, ResTrailer);
both_tx!(c15, r15, ResComplete);
both_tx!(c16, r16, TxComplete);
const C_KINDS: [K; 16] = [
    K::ReqStart, K::ReqLine, K::ReqHeaderData, K::ReqHeaders, K::ReqBody, K::ReqTrailerData, K::ReqTrailer, K::ReqComplete, K::ResStart,
    K::ResHeaderData, K::ResHeaders, K::ResBody, K::ResTrailerData, K::ResTrailer, K::ResComplete, K::TxComplete,
];

unsafe fn register_c(c: *mut Config) {
    htp_config_register_request_start(c, c1);
    htp_config_register_request_line(c, c2);
    htp_config_register_request_header_data(c, c3);
    htp_config_register_request_headers(c, c4);
    htp_config_register_request_body_data(c, c5);
    htp_config_register_request_trailer_data(c, c6);
    htp_config_register_request_trailer(c, c7);
    htp_config_register_request_complete(c, c8);
    htp_config_register_response_start(c, c9);
    htp_config_register_response_header_data(c, c10);
    htp_config_register_response_headers(c, c11);
    htp_config_register_response_body_data(c, c12);
    htp_config_register_response_trailer_data(c, c13);
    htp_config_register_response_trailer(c, c14);
    htp_config_register_response_complete(c, c15);
    htp_config_register_transaction_complete(c, c16);
}
fn register_r(c: &mut Config) {
    // straight into the public hooks, so that registration functions are judged too
    c.hook_request_start.callbacks.push(Callback::Native(r1));
    c.hook_request_line.callbacks.push(Callback::Native(r2));
    c.hook_request_header_data.callbacks.push(Callback::Native(r3));
    c.hook_request_headers.callbacks.push(Callback::Native(r4));
    c.hook_request_body_data.callbacks.push(Callback::Native(r5));
    c.hook_request_trailer_data.callbacks.push(Callback::Native(r6));
    c.hook_request_trailer.callbacks.push(Callback::Native(r7));
    c.hook_request_complete.callbacks.push(Callback::Native(r8));
    c.hook_response_start.callbacks.push(Callback::Native(r9));
    c.hook_response_header_data.callbacks.push(Callback::Native(r10));
    c.hook_response_headers.callbacks.push(Callback::Native(r11));
    c.hook_response_body_data.callbacks.push(Callback::Native(r12));
    c.hook_response_trailer_data.callbacks.push(Callback::Native(r13));
    c.hook_response_trailer.callbacks.push(Callback::Native(r14));
    c.hook_response_complete.callbacks.push(Callback::Native(r15));
    c.hook_transaction_complete.callbacks.push(Callback::Native(r16));
}

// ---- settings ------------------------------------------------------------------------
/// Every setting in a comparable form.
#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    field_limit: usize,
    log_level: HtpLogLevel,
    auto_destroy: bool,
    personality: HtpServerPersonality,
    res_decomp: bool,
    req_decomp: bool,
    urlenc: bool,
    auth: bool,
    lead: HtpUnwanted,
    flush: bool,
    max_tx: u32,
    lzma_mem: usize,
    lzma_layers: Option<u32>,
    bomb: u64,
    ratio: u64,
    time: u32,
    freq: u32,
    layers: Option<u32>,
    dd_path: bool,
    dd_query: bool,
    backslash: bool,
    lower: bool,
    compress: bool,
    sep_decode: bool,
    plus: bool,
    sep_unwanted: HtpUnwanted,
    nul_raw: bool,
    nul_raw_unwanted: HtpUnwanted,
    ctl_unwanted: HtpUnwanted,
    space: bool,
    u: bool,
    u_unwanted: HtpUnwanted,
    invalid: HtpUrlEncodingHandling,
    invalid_unwanted: HtpUnwanted,
    nul_enc: bool,
    nul_enc_unwanted: HtpUnwanted,
    all: bool,
    utf8_unwanted: HtpUnwanted,
    bestfit: bool,
    replacement: u8,
}
fn defaults() -> Model {
    Model {
        field_limit: 18000, log_level: HtpLogLevel::NOTICE, auto_destroy: false, personality: HtpServerPersonality::MINIMAL, res_decomp: true,
        req_decomp: false, urlenc: false, auth: true, lead: HtpUnwanted::IGNORE, flush: false, max_tx: 512,
        lzma_mem: 1_048_576, lzma_layers: Some(1), bomb: 1_048_576, ratio: 2048, time: 100_000, freq: 256, layers: Some(2),
        dd_path: false, dd_query: false, backslash: false, lower: false, compress: false, sep_decode: false, plus: true,
        sep_unwanted: HtpUnwanted::IGNORE, nul_raw: false, nul_raw_unwanted: HtpUnwanted::IGNORE, ctl_unwanted: HtpUnwanted::IGNORE, space: false,
        u: false, u_unwanted: HtpUnwanted::IGNORE, invalid: HtpUrlEncodingHandling::PRESERVE_PERCENT, invalid_unwanted: HtpUnwanted::IGNORE,
        nul_enc: false, nul_enc_unwanted: HtpUnwanted::IGNORE, all: false, utf8_unwanted: HtpUnwanted::IGNORE, bestfit: false, replacement: b'?',
    }
}
pub fn read(c: &Config) -> Model {
    let d = &c.decoder_cfg;
    let o = &c.compression_options;
    Model {
        field_limit: c.field_limit, log_level: c.log_level, auto_destroy: c.tx_auto_destroy, personality: c.server_personality,
        res_decomp: c.response_decompression_enabled, req_decomp: c.request_decompression_enabled, urlenc: c.parse_urlencoded, auth: c.parse_request_auth,
        lead: c.requestline_leading_whitespace_unwanted, flush: c.flush_incomplete, max_tx: c.max_tx,
        lzma_mem: o.get_lzma_memlimit(), lzma_layers: o.get_lzma_layers(), bomb: o.get_bomb_limit(), ratio: o.get_bomb_ratio(), time: o.get_time_limit(),
        freq: o.get_time_test_freq(), layers: o.get_layer_limit(),
        dd_path: d.double_decode_normalized_path, dd_query: d.double_decode_normalized_query, backslash: d.backslash_convert_slashes,
        lower: d.convert_lowercase, compress: d.path_separators_compress, sep_decode: d.path_separators_decode, plus: d.plusspace_decode,
        sep_unwanted: d.path_separators_encoded_unwanted, nul_raw: d.nul_raw_terminates, nul_raw_unwanted: d.nul_raw_unwanted,
        ctl_unwanted: d.control_chars_unwanted, space: d.allow_space_uri, u: d.u_encoding_decode, u_unwanted: d.u_encoding_unwanted,
        invalid: d.url_encoding_invalid_handling, invalid_unwanted: d.url_encoding_invalid_unwanted, nul_enc: d.nul_encoded_terminates,
        nul_enc_unwanted: d.nul_encoded_unwanted, all: d.normalized_uri_include_all, utf8_unwanted: d.utf8_invalid_unwanted,
        bestfit: d.utf8_convert_bestfit, replacement: d.bestfit_map.replacement_byte,
    }
}
/// What a personality documents.
fn personality(m: &mut Model, p: HtpServerPersonality) -> bool {
    use HtpServerPersonality as P;
    let paths = |m: &mut Model, back: bool, dec: bool| {
        m.backslash = back;
        m.sep_decode = dec;
        m.compress = true;
    };
    match p {
        P::MINIMAL => {}
        P::GENERIC => paths(m, true, true),
        P::IDS => {
            paths(m, true, true);
            m.lower = true;
            m.bestfit = true;
            m.u = true;
            m.lead = HtpUnwanted::IGNORE;
        }
        P::APACHE_2 => {
            paths(m, false, false);
            m.u = false;
            m.invalid = HtpUrlEncodingHandling::PRESERVE_PERCENT;
            m.invalid_unwanted = HtpUnwanted::CODE_400;
            m.ctl_unwanted = HtpUnwanted::IGNORE;
            m.lead = HtpUnwanted::CODE_400;
        }
        P::IIS_5_1 => {
            paths(m, true, true);
            m.u = false;
            m.invalid = HtpUrlEncodingHandling::PRESERVE_PERCENT;
            m.ctl_unwanted = HtpUnwanted::IGNORE;
            m.lead = HtpUnwanted::IGNORE;
        }
        P::IIS_6_0 => {
            paths(m, true, true);
            m.u = true;
            m.invalid = HtpUrlEncodingHandling::PRESERVE_PERCENT;
            m.u_unwanted = HtpUnwanted::CODE_400;
            m.ctl_unwanted = HtpUnwanted::CODE_400;
            m.lead = HtpUnwanted::IGNORE;
        }
        P::IIS_7_0 | P::IIS_7_5 => {
            paths(m, true, true);
            m.u = true;
            m.invalid = HtpUrlEncodingHandling::PRESERVE_PERCENT;
            m.invalid_unwanted = HtpUnwanted::CODE_400;
            m.ctl_unwanted = HtpUnwanted::CODE_400;
            m.lead = HtpUnwanted::IGNORE;
        }
        P::IIS_4_0 | P::IIS_5_0 => return false,
    }
    m.personality = p;
    true
}
const EVERY_PERSONALITY: [HtpServerPersonality; 10] = [
    HtpServerPersonality::MINIMAL, HtpServerPersonality::GENERIC, HtpServerPersonality::IDS, HtpServerPersonality::IIS_4_0, HtpServerPersonality::IIS_5_0,
    HtpServerPersonality::IIS_5_1, HtpServerPersonality::IIS_6_0, HtpServerPersonality::IIS_7_0, HtpServerPersonality::IIS_7_5, HtpServerPersonality::APACHE_2,
];
/// One setting through the C interface; the model is told what it means.
unsafe fn set_c(s: &mut Src, c: *mut Config, m: &mut Model) -> Result<String, String> {
    // only 1 is on
    let e = *s.pick(&[0, 1, 1, 1, 2, -1]);
    let on = e == 1;
    let w = s.below(26);
    let name;
    macro_rules! flag {
        ($f:ident, $m:ident) => {{
            $f(c, e);
            m.$m = on;
            name = format!("{}({})", stringify!($f), e);
        }};
    }
    match w {
        0 => flag!(htp_config_set_backslash_convert_slashes, backslash),
        1 => flag!(htp_config_set_convert_lowercase, lower),
        2 => flag!(htp_config_set_nul_encoded_terminates, nul_enc),
        3 => flag!(htp_config_set_nul_raw_terminates, nul_raw),
        4 => flag!(htp_config_set_path_separators_compress, compress),
        5 => flag!(htp_config_set_plusspace_decode, plus),
        6 => flag!(htp_config_set_path_separators_decode, sep_decode),
        7 => flag!(htp_config_set_request_decompression, req_decomp),
        8 => flag!(htp_config_set_u_encoding_decode, u),
        9 => flag!(htp_config_set_utf8_convert_bestfit, bestfit),
        10 => flag!(htp_config_set_tx_auto_destroy, auto_destroy),
        11 => flag!(htp_config_set_flush_incomplete, flush),
        12 => flag!(htp_config_set_parse_urlencoded, urlenc),
        13 => {
            htp_config_set_allow_space_uri(c, on);
            m.space = on;
            name = format!("allow_space_uri({})", on);
        }
        14 => {
            htp_config_set_double_decode_normalized_query(c, on);
            m.dd_query = on;
            name = format!("double_decode_normalized_query({})", on);
        }
        15 => {
            htp_config_set_double_decode_normalized_path(c, on);
            m.dd_path = on;
            name = format!("double_decode_normalized_path({})", on);
        }
        16 => {
            htp_config_set_normalized_uri_include_all(c, on);
            m.all = on;
            name = format!("normalized_uri_include_all({})", on);
        }
        17 => {
            let b = s.below(256) as i32;
            htp_config_set_bestfit_replacement_byte(c, b);
            m.replacement = b as u8;
            name = format!("bestfit_replacement_byte({})", b);
        }
        18 => {
            let n = *s.pick(&[0usize, 1, 100, 5000, 1_048_576, usize::MAX]);
            htp_config_set_compression_bomb_limit(c, n);
            m.bomb = n as u64;
            name = format!("compression_bomb_limit({})", n);
        }
        19 => {
            let n = *s.pick(&[100, 18000, 1 << 20, 0usize, usize::MAX]);
            htp_config_set_field_limit(c, n);
            m.field_limit = n;
            name = format!("field_limit({})", n);
        }
        20 => {
            let n = *s.pick(&[0usize, 4096, 1_048_576, usize::MAX]);
            htp_config_set_lzma_memlimit(c, n);
            m.lzma_mem = n;
            name = format!("lzma_memlimit({})", n);
        }
        21 => {
            let n = *s.pick(&[-1i32, 0, 1, 2, 3, i32::MAX, i32::MIN]);
            let v = if n <= 0 { None } else { Some(n as u32) };
            if s.bool() {
                htp_config_set_lzma_layers(c, n);
                m.lzma_layers = v;
                name = format!("lzma_layers({})", n);
            } else {
                htp_config_set_decompression_layer_limit(c, n);
                m.layers = v;
                name = format!("decompression_layer_limit({})", n);
            }
        }
        22 => {
            let n = *s.pick(&[0u32, 1, 2, 3, 512, u32::MAX]);
            htp_config_set_max_tx(c, n);
            m.max_tx = n;
            name = format!("max_tx({})", n);
        }
        23 => {
            let p = *s.pick(&EVERY_PERSONALITY);
            let st = htp_config_set_server_personality(c, p);
            let ok = personality(m, p);
            if (st == HtpStatus::OK) != ok || (st == HtpStatus::ERROR) == ok {
                return Err(format!("setting personality {:?} answers {:?}", p, st));
            }
            name = format!("server_personality({:?})", p);
        }
        24 => {
            let h = *s.pick(&[HtpUrlEncodingHandling::PRESERVE_PERCENT, HtpUrlEncodingHandling::REMOVE_PERCENT, HtpUrlEncodingHandling::PROCESS_INVALID]);
            htp_config_set_url_encoding_invalid_handling(c, h);
            m.invalid = h;
            name = format!("url_encoding_invalid_handling({:?})", h);
        }
        _ => {
            // no effect, kept for compatibility
            htp_config_set_parse_request_cookies(c, e);
            name = format!("parse_request_cookies({})", e);
        }
    }
    Ok(name)
}
fn set_r(s: &mut Src, c: &mut Config, m: &mut Model) -> Result<String, String> {
    let on = s.bool();
    let un = unwanted(s);
    let name;
    macro_rules! set {
        ($f:ident, $m:ident, $v:expr) => {{
            c.$f($v);
            m.$m = $v;
            name = format!("{}({:?})", stringify!($f), $v);
        }};
    }
    macro_rules! opt {
        ($f:ident, $m:ident, $v:expr) => {{
            let v = $v;
            c.compression_options.$f(v);
            m.$m = v;
            name = format!("{}({:?})", stringify!($f), v);
        }};
    }
    let layers = *s.pick(&[None, Some(0), Some(1), Some(2), Some(5), Some(u32::MAX)]);
    match s.below(32) {
        0 => set!(set_double_decode_normalized_path, dd_path, on),
        1 => set!(set_double_decode_normalized_query, dd_query, on),
        2 => set!(set_parse_urlencoded, urlenc, on),
        3 => set!(set_field_limit, field_limit, if on { 100 } else { 1 << 20 }),
        4 => set!(set_allow_space_uri, space, on),
        5 => set!(set_tx_auto_destroy, auto_destroy, on),
        6 => set!(set_flush_incomplete, flush, on),
        7 => set!(set_bestfit_replacement_byte, replacement, un as u16 as u8),
        8 => set!(set_nul_raw_terminates, nul_raw, on),
        9 => set!(set_nul_encoded_terminates, nul_enc, on),
        10 => set!(set_u_encoding_decode, u, on),
        11 => set!(set_backslash_convert_slashes, backslash, on),
        12 => set!(set_path_separators_decode, sep_decode, on),
        13 => set!(set_path_separators_compress, compress, on),
        14 => set!(set_plusspace_decode, plus, on),
        15 => set!(set_convert_lowercase, lower, on),
        16 => set!(set_utf8_convert_bestfit, bestfit, on),
        17 => set!(set_u_encoding_unwanted, u_unwanted, un),
        18 => set!(set_control_chars_unwanted, ctl_unwanted, un),
        19 => set!(set_normalized_uri_include_all, all, on),
        20 => set!(set_url_encoding_invalid_unwanted, invalid_unwanted, un),
        21 => set!(set_requestline_leading_whitespace_unwanted, lead, un),
        22 => set!(set_request_decompression, req_decomp, on),
        23 => set!(set_decompression_layer_limit, layers, layers),
        24 => opt!(set_lzma_memlimit, lzma_mem, *s.pick(&[0usize, 1, 4096, usize::MAX])),
        25 => opt!(set_lzma_layers, lzma_layers, layers),
        26 => opt!(set_bomb_limit, bomb, *s.pick(&[0u64, 1, 77, u64::MAX])),
        27 => opt!(set_bomb_ratio, ratio, *s.pick(&[0u64, 1, 77, u64::MAX])),
        28 => opt!(set_time_limit, time, *s.pick(&[0u32, 1, 77, u32::MAX])),
        29 => opt!(set_time_test_freq, freq, *s.pick(&[0u32, 1, 77, u32::MAX])),
        30 => opt!(set_layer_limit, layers, layers),
        _ => {
            let p = *s.pick(&EVERY_PERSONALITY);
            let r = c.set_server_personality(p);
            if r.is_ok() != personality(m, p) {
                return Err(format!("setting personality {:?} answers {:?}", p, r));
            }
            name = format!("set_server_personality({:?})", p);
        }
    }
    Ok(name)
}

fn p29(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut m = defaults();
    unsafe {
        let c = htp_config_create();
        let start = read(&*c);
        let mut log = vec![];
        let r = (|| -> Result<(), String> {
            ensure_eq!(case, start, m, "default settings (C)");
            ensure_eq!(case, read(&Config::default()), m, "default settings");
            for _ in 0..s.range(1, 8) {
                let before = m.clone();
                let what = if s.bool() { set_c(s, c, &mut m)? } else { set_r(s, &mut *c, &mut m)? };
                log.push(what.clone());
                let got = read(&*c);
                ensure_eq!(case, got, m, "settings after {}, which were {:?}", what, before);
            }
            // a copy is independent
            let copy = (*c).clone();
            ensure_eq!(case, read(&copy), m, "settings of a copy");
            let mut m2 = m.clone();
            let w = set_r(s, &mut *c, &mut m2)?;
            ensure_eq!(case, read(&copy), m, "settings of a copy after {} on the original", w);
            ensure_eq!(case, read(&*c), m2, "settings after {}", w);
            Ok(())
        })();
        case.describe(|| log.join(" "));
        htp_config_destroy(c);
        case.nontrivial = m != defaults() && log.len() > 1;
        r
    }
}

// ---- P25 --------------------------------------------------------------------------------
pub unsafe fn c_step(p: *mut ConnectionParser, o: &Op, ts: *const libc::timeval) -> Option<(S, i64)> {
    let empty = b"";
    Some(match o {
        Op::Req(b) => (htp_connp_request_data(p, ts, (if b.is_empty() { empty.as_ptr() } else { b.as_ptr() }) as *const c_void, b.len()), htp_connp_request_data_consumed(p)),
        Op::Res(b) => (htp_connp_response_data(p, ts, (if b.is_empty() { empty.as_ptr() } else { b.as_ptr() }) as *const c_void, b.len()), htp_connp_response_data_consumed(p)),
        Op::ReqGap(n) => (htp_connp_request_data(p, ts, null(), *n), htp_connp_request_data_consumed(p)),
        Op::ResGap(n) => (htp_connp_response_data(p, ts, null(), *n), htp_connp_response_data_consumed(p)),
        Op::ReqClose => {
            htp_connp_request_close(p, ts);
            return None;
        }
        Op::Close => {
            htp_connp_close(p, ts);
            return None;
        }
    })
}
fn r_step(p: &mut ConnectionParser, o: &Op) -> Option<(S, i64)> {
    let n = |x: usize| if x > i64::MAX as usize { -1 } else { x as i64 };
    match o {
        Op::Req(b) => {
            let st = p.request_data(ParserData::from(b.as_slice()), None);
            Some((st, n(p.request_data_consumed())))
        }
        Op::Res(b) => {
            let st = p.response_data(ParserData::from(b.as_slice()), None);
            Some((st, n(p.response_data_consumed())))
        }
        Op::ReqGap(0) => {
            let st = p.request_data(ParserData::from(b"" as &[u8]), None);
            Some((st, n(p.request_data_consumed())))
        }
        Op::ResGap(0) => {
            let st = p.response_data(ParserData::from(b"" as &[u8]), None);
            Some((st, n(p.response_data_consumed())))
        }
        Op::ReqGap(k) => {
            let st = p.request_data(ParserData::from(*k), None);
            Some((st, n(p.request_data_consumed())))
        }
        Op::ResGap(k) => {
            let st = p.response_data(ParserData::from(*k), None);
            Some((st, n(p.response_data_consumed())))
        }
        Op::ReqClose => {
            p.request_close(None);
            None
        }
        Op::Close => {
            p.close(None);
            None
        }
    }
}
#[derive(Default)]
struct Seen {
    steps: Vec<Option<(S, i64)>>,
    sizes: Vec<isize>,
    on: Vec<(isize, isize)>,
    logs: Vec<(String, String, HtpLogCode)>,
    counters: (u64, u64),
    views: Vec<Option<View>>,
}
unsafe fn c_text(p: *mut c_char) -> String {
    if p.is_null() {
        return "-".into();
    }
    let t = CStr::from_ptr(p).to_string_lossy().into_owned();
    htp_free_cstring(p);
    t
}
fn stamp(s: &mut Src) -> libc::timeval {
    let sec = match s.below(4) {
        0 => *s.pick(&[0i64, -1, i64::MAX, i64::MIN, 253402300799, 253402300800, -377705116800, -377705116801]),
        1 => s.below(1 << 40) as i64 - (1 << 39),
        _ => s.below(1 << 31) as i64,
    };
    let usec = match s.below(6) {
        0 => *s.pick(&[999_999i64, 1_000_000, -1, i64::MAX, i64::MIN]),
        _ => s.below(1_000_000) as i64,
    };
    libc::timeval { tv_sec: sec, tv_usec: usec }
}
/// The time a timeval stands for, if it can be told.
fn nanos(t: &libc::timeval) -> Option<i128> {
    let n = t.tv_sec as i128 * 1_000_000_000 + t.tv_usec as i128 * 1000;
    let (lo, hi) = (-377705116800i128, 253402300799i128);
    let ok = (t.tv_sec as i128) >= lo && (t.tv_sec as i128) <= hi && n >= lo * 1_000_000_000 && n < (hi + 1) * 1_000_000_000;
    ok.then_some(n)
}

fn p25(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(24) {
        0 => return nulls(case),
        1 | 2 => return strings(s, case),
        _ => {}
    }
    let ops = history(s);
    let mut m = defaults();
    unsafe {
        let c = htp_config_create();
        htp_config_set_compression_time_limit(c, u32::MAX);
        m.time = u32::MAX;
        let mut names = vec![];
        for _ in 0..s.range(0, 8) {
            names.push(set_c(s, c, &mut m)?);
        }
        ensure_eq!(case, read(&*c), m, "settings");
        // the Rust side from the same values
        let mut rc = (*c).clone();
        register_c(c);
        register_r(&mut rc);
        let policy: Vec<(K, usize, Ret)> = if s.chance(1, 3) {
            (0..s.range(1, 3)).map(|_| (*s.pick(&C_KINDS), s.range(0, 3), *s.pick(&[Ret::Ok, Ret::Declined, Ret::Stop, Ret::Error]))).collect()
        } else {
            vec![]
        };
        // (after this step, transaction to destroy)
        let drops: Vec<(usize, usize)> = if s.chance(1, 4) && !ops.is_empty() { (0..s.range(1, 4)).map(|_| (s.u(ops.len()), s.range(0, 3))).collect() } else { vec![] };
        let peek = s.chance(1, 3);
        let (ca, cp) = (s.bool(), *s.pick(&[0i32, 80, 65535, 65536, -1, i32::MAX]));
        let addr = *s.pick(&["10.1.2.3", "::1", "not an address", "", "256.1.1.1", "fe80::1:2"]);
        case.describe(|| format!("settings {}\nanswers {:?}\nremovals {:?}\naddress {} port {}\n{}", names.join(" "), policy, drops, addr, cp, show_ops(&ops)));

        // through C
        let user = 0x1234usize as *mut c_void;
        R.with(|r| *r.borrow_mut() = Rec { policy: policy.clone(), user, ..Default::default() });
        let p = htp_connp_create(c);
        // later changes of the configuration do not matter
        if s.bool() {
            htp_config_set_tx_auto_destroy(c, 1 - m.auto_destroy as i32);
            htp_config_set_parse_urlencoded(c, 1 - m.urlenc as i32);
        }
        htp_config_destroy(c);
        ensure!(case, htp_connp_user_data(p).is_null(), "user data before any is set");
        htp_connp_set_user_data(p, user);
        let a = CString::new(addr).unwrap();
        let t0 = stamp(s);
        htp_connp_open(p, if ca { a.as_ptr() } else { null() }, cp, a.as_ptr(), 80, if ca { &t0 } else { null() });
        let ip: Option<std::net::IpAddr> = addr.parse().ok();
        let mut x = Seen::default();
        let mut last: (Option<i128>, Option<i128>) = (None, None);
        let r = (|| -> Result<(), String> {
            let conn = &(*p).conn;
            ensure_eq!(case, (conn.client_addr, conn.client_port), (if ca { ip } else { None }, u16::try_from(cp).ok()), "client address");
            ensure_eq!(case, (conn.server_addr, conn.server_port), (ip, Some(80)), "server address");
            if ca {
                if let Some(n) = nanos(&t0) {
                    ensure_eq!(case, conn.open_timestamp.unix_timestamp_nanos(), n, "time of the open");
                }
            }
            for (i, o) in ops.iter().enumerate() {
                let ts = if s.chance(1, 4) { Some(stamp(s)) } else { None };
                let was = ((*p).request_timestamp.unix_timestamp_nanos(), (*p).response_timestamp.unix_timestamp_nanos());
                let got = c_step(p, o, ts.as_ref().map_or(null(), |t| t));
                x.steps.push(got);
                x.sizes.push(htp_connp_tx_size(p));
                for (at, id) in &drops {
                    if *at == i {
                        let t = htp_connp_tx(p, *id);
                        if !t.is_null() && htp_tx_request_progress(t) == HtpRequestProgress::COMPLETE && htp_tx_response_progress(t) == HtpResponseProgress::COMPLETE {
                            htp_tx_destroy(p, t);
                            ensure!(case, htp_connp_tx(p, *id).is_null(), "transaction {} is still there after its destruction", id);
                        }
                    }
                }
                if peek {
                    x.on.push((htp_tx_index(htp_connp_get_request_tx(p)), htp_tx_index(htp_connp_get_response_tx(p))));
                }
                // the time told with the data is kept
                let now = ((*p).request_timestamp.unix_timestamp_nanos(), (*p).response_timestamp.unix_timestamp_nanos());
                if let (Some(t), Some((st, _))) = (&ts, got) {
                    let (n0, n1) = if matches!(o, Op::Req(_) | Op::ReqGap(_)) { (was.0, now.0) } else { (was.1, now.1) };
                    match nanos(t) {
                        Some(n) if st == S::DATA => ensure_eq!(case, n1, n, "time of the data"),
                        None => ensure_eq!(case, n1, n0, "time after data with a time that cannot be told"),
                        _ => {}
                    }
                }
                last = (Some(now.0), Some(now.1));
            }
            let conn = htp_connp_connection(p);
            x.counters = (htp_conn_request_data_counter(conn), htp_conn_response_data_counter(conn));
            loop {
                let l = htp_conn_next_log(conn);
                if l.is_null() {
                    break;
                }
                x.logs.push((c_text(htp_log_message(l)), c_text(htp_log_file(l)), htp_log_code(l)));
                htp_log_free(l);
            }
            let size = htp_connp_tx_size(p);
            ensure!(case, size >= 0, "number of transactions {}", size);
            for i in 0..size as usize + 2 {
                let t = htp_connp_tx(p, i);
                x.views.push(if t.is_null() { None } else { Some(c_view(t)) });
                if !t.is_null() {
                    ensure_eq!(case, read(&*htp_tx_cfg(t)), m, "settings of a transaction");
                }
            }
            Ok(())
        })();
        let _ = last;
        htp_connp_destroy_all(p);
        r?;
        let cr = R.with(|r| std::mem::replace(&mut *r.borrow_mut(), Rec { policy: policy.clone(), all: m.all, ..Default::default() }));
        ensure!(case, cr.wrong.is_none(), "{}", cr.wrong.unwrap());

        // through Rust
        let mut q = ConnectionParser::new(rc);
        q.open(if ca { ip } else { None }, u16::try_from(cp).ok(), ip, Some(80), None);
        let mut y = Seen::default();
        for (i, o) in ops.iter().enumerate() {
            y.steps.push(r_step(&mut q, o));
            y.sizes.push(q.tx_size() as isize);
            for (at, id) in &drops {
                if *at == i && q.tx(*id).is_some_and(|t| t.is_started() && t.is_complete()) {
                    q.remove_tx(*id);
                }
            }
            if peek {
                let a = q.request().map(|t| t.index as isize).unwrap_or(-1);
                let b = q.response().map(|t| t.index as isize).unwrap_or(-1);
                y.on.push((a, b));
            }
        }
        y.counters = (q.conn.request_data_counter, q.conn.response_data_counter);
        y.logs = q
            .conn
            .get_logs()
            .iter()
            .map(|l| (if l.msg.msg.contains('\0') { "-".to_string() } else { l.msg.msg.clone() }, l.msg.file.clone(), l.msg.code))
            .collect();
        for i in 0..q.tx_size() + 2 {
            y.views.push(q.tx(i).filter(|t| t.is_started()).map(|t| r_view(t, m.all)));
        }
        let rr = R.with(|r| std::mem::take(&mut *r.borrow_mut()));

        for (i, (a, b)) in x.steps.iter().zip(&y.steps).enumerate() {
            ensure_eq!(case, a, b, "answer and consumed bytes of step {}", i);
            ensure_eq!(case, x.sizes[i], y.sizes[i], "number of transactions after step {}", i);
        }
        ensure_eq!(case, x.on, y.on, "current transactions");
        for (i, (a, b)) in cr.events.iter().zip(&rr.events).enumerate() {
            ensure_eq!(case, a, b, "callback {}", i);
        }
        ensure_eq!(case, cr.events.len(), rr.events.len(), "number of callbacks");
        ensure_eq!(case, cr.own, rr.own, "callbacks of single transactions");
        ensure_eq!(case, cr.views.len(), rr.views.len(), "views");
        for (a, b) in cr.views.iter().zip(&rr.views) {
            if let Some(d) = crate::snap::diff(&a.2, &b.2) {
                return Err(format!("transaction {} at {:?} read through C: {}", a.1, a.0, d));
            }
            case.asserts += 1;
        }
        ensure_eq!(case, x.views.len(), y.views.len(), "number of transactions");
        for (i, (a, b)) in x.views.iter().zip(&y.views).enumerate() {
            ensure_eq!(case, a.is_some(), b.is_some(), "transaction {} is there", i);
            if let (Some(a), Some(b)) = (a, b) {
                if let Some(d) = crate::snap::diff(a, b) {
                    return Err(format!("transaction {} read through C: {}", i, d));
                }
                case.asserts += 1;
            }
        }
        ensure_eq!(case, x.counters, y.counters, "data counters");
        ensure_eq!(case, x.logs, y.logs, "log messages");
        case.nontrivial = x.views.iter().flatten().count() > 1 || cr.events.len() > 12;
        if !policy.is_empty() { case.label("callback answers"); }
        if !drops.is_empty() { case.label("removals"); }
        if !cr.own.is_empty() { case.label("callbacks of single transactions"); }
    }
    Ok(())
}

/// Every function that documents NULL.
fn nulls(case: &mut Case) -> Result<(), String> {
    case.label("NULL");
    case.describe(|| "every function with NULL".into());
    unsafe {
        let t: *const Transaction = null();
        let strings: [(&str, *const Bstr); 20] = [
            ("normalized_uri", htp_tx_normalized_uri(t)), ("request_line", htp_tx_request_line(t)), ("request_method", htp_tx_request_method(t)),
            ("request_uri", htp_tx_request_uri(t)), ("request_protocol", htp_tx_request_protocol(t)), ("request_content_type", htp_tx_request_content_type(t)),
            ("request_hostname", htp_tx_request_hostname(t)), ("response_line", htp_tx_response_line(t)), ("response_protocol", htp_tx_response_protocol(t)),
            ("response_status", htp_tx_response_status(t)), ("response_message", htp_tx_response_message(t)), ("response_content_type", htp_tx_response_content_type(t)),
            ("scheme", htp_uri_scheme(null())), ("username", htp_uri_username(null())), ("password", htp_uri_password(null())), ("hostname", htp_uri_hostname(null())),
            ("port", htp_uri_port(null())), ("path", htp_uri_path(null())), ("query", htp_uri_query(null())), ("fragment", htp_uri_fragment(null())),
        ];
        for (n, p) in strings {
            ensure!(case, p.is_null(), "{} of NULL", n);
        }
        ensure!(case, htp_header_name(null()).is_null() && htp_header_value(null()).is_null() && htp_header_name_ptr(null()).is_null() && htp_header_value_ptr(null()).is_null(), "strings of a NULL header");
        ensure_eq!(case, (htp_header_name_len(null()), htp_header_value_len(null()), htp_header_flags(null())), (-1, -1, 0), "numbers of a NULL header");
        let k = CString::new("a").unwrap();
        ensure!(case, htp_headers_get(null(), k.as_ptr()).is_null() && htp_headers_get_index(null(), 0).is_null(), "header of NULL headers");
        let h = Headers::with_capacity(1);
        ensure!(case, htp_headers_get(&h, null()).is_null(), "header of a NULL name");
        ensure_eq!(case, (htp_headers_size(null()), htp_headers_flags(null())), (-1, 0), "numbers of NULL headers");
        ensure!(case, htp_tx_cfg(t).is_null() && htp_tx_get_user_data(t).is_null() && htp_tx_parsed_uri(t).is_null() && htp_tx_request_headers(t).is_null() && htp_tx_response_headers(t).is_null(), "parts of a NULL transaction");
        ensure!(case, htp_tx_request_header(t, k.as_ptr()).is_null() && htp_tx_request_header_index(t, 0).is_null() && htp_tx_response_header(t, k.as_ptr()).is_null() && htp_tx_response_header_index(t, 0).is_null(), "headers of a NULL transaction");
        htp_tx_set_user_data(null_mut(), null_mut());
        htp_tx_register_response_body_data(null_mut(), c_own);
        htp_tx_destroy(null_mut(), t);
        ensure_eq!(case, htp_tx_request_method_number(t), HtpMethod::ERROR, "method number of NULL");
        ensure_eq!(case, htp_tx_request_protocol_number(t), HtpProtocol::ERROR, "protocol number of NULL");
        ensure_eq!(case, htp_tx_response_protocol_number(t), HtpProtocol::ERROR, "protocol number of NULL");
        ensure_eq!(case, htp_tx_request_transfer_coding(t), HtpTransferCoding::ERROR, "transfer coding of NULL");
        ensure_eq!(case, htp_tx_request_content_encoding(t), HtpContentEncoding::ERROR, "content encoding of NULL");
        ensure_eq!(case, htp_tx_request_auth_type(t), HtpAuthType::ERROR, "authentication type of NULL");
        ensure_eq!(case, htp_tx_request_progress(t), HtpRequestProgress::ERROR, "progress of NULL");
        ensure_eq!(case, htp_tx_response_progress(t), HtpResponseProgress::ERROR, "progress of NULL");
        ensure_eq!(case, (htp_tx_is_protocol_0_9(t), htp_tx_is_http_2_upgrade(t), htp_tx_flags(t)), (0, 0, 0), "flags of NULL");
        ensure_eq!(case, (htp_tx_request_headers_size(t), htp_tx_response_headers_size(t), htp_tx_index(t)), (-1, -1, -1), "sizes of NULL");
        ensure_eq!(case, (htp_tx_request_content_length(t), htp_tx_request_message_len(t), htp_tx_request_entity_len(t)), (-1, -1, -1), "request lengths of NULL");
        ensure_eq!(case, (htp_tx_response_content_length(t), htp_tx_response_message_len(t), htp_tx_response_entity_len(t)), (-1, -1, -1), "response lengths of NULL");
        ensure_eq!(case, (htp_tx_request_port_number(t), htp_tx_response_status_number(t), htp_tx_response_status_expected_number(t), htp_uri_port_number(null())), (-1, -1, -1, -1), "numbers of NULL");
        ensure!(case, htp_tx_data_tx(null()).is_null() && htp_tx_data_data(null()).is_null() && htp_tx_data_is_empty(null()) && htp_tx_data_len(null()) == -1, "NULL data");
        // connections
        let p: *mut ConnectionParser = null_mut();
        ensure_eq!(case, htp_connp_request_data(p, null(), null(), 0), S::ERROR, "request data without a parser");
        ensure_eq!(case, htp_connp_response_data(p, null(), null(), 0), S::ERROR, "response data without a parser");
        ensure_eq!(case, (htp_connp_tx_size(p), htp_connp_request_data_consumed(p), htp_connp_response_data_consumed(p)), (-1, -1, -1), "numbers of no parser");
        ensure!(case, htp_connp_tx(p, 0).is_null() && htp_connp_get_request_tx(p).is_null() && htp_connp_get_response_tx(p).is_null() && htp_connp_connection(p).is_null() && htp_connp_user_data(p).is_null(), "parts of no parser");
        htp_connp_set_user_data(p, null_mut());
        htp_connp_open(p, null(), 0, null(), 0, null());
        htp_connp_request_close(p, null());
        htp_connp_close(p, null());
        htp_connp_destroy_all(p);
        ensure_eq!(case, (htp_conn_request_data_counter(null()), htp_conn_response_data_counter(null())), (0, 0), "counters of no connection");
        ensure!(case, htp_conn_next_log(null()).is_null() && htp_log_message(null()).is_null() && htp_log_file(null()).is_null(), "NULL log");
        ensure_eq!(case, htp_log_code(null()), HtpLogCode::ERROR, "code of a NULL log");
        htp_log_free(null_mut::<Log>());
        htp_free_cstring(null_mut());
        bstr_free(null_mut());
        ensure!(case, bstr_util_strdup_to_c(null()).is_null(), "copy of a NULL string");
        // settings
        let c: *mut Config = null_mut();
        register_c(c);
        ensure_eq!(case, htp_config_set_server_personality(c, HtpServerPersonality::IDS), HtpStatus::ERROR, "personality of NULL");
        htp_config_set_backslash_convert_slashes(c, 1);
        htp_config_set_bestfit_replacement_byte(c, 1);
        htp_config_set_compression_bomb_limit(c, 1);
        htp_config_set_compression_time_limit(c, 1);
        htp_config_set_convert_lowercase(c, 1);
        htp_config_set_field_limit(c, 1);
        htp_config_set_lzma_memlimit(c, 1);
        htp_config_set_lzma_layers(c, 1);
        htp_config_set_max_tx(c, 1);
        htp_config_set_nul_encoded_terminates(c, 1);
        htp_config_set_nul_raw_terminates(c, 1);
        htp_config_set_parse_request_cookies(c, 1);
        htp_config_set_path_separators_compress(c, 1);
        htp_config_set_plusspace_decode(c, 1);
        htp_config_set_path_separators_decode(c, 1);
        htp_config_set_request_decompression(c, 1);
        htp_config_set_decompression_layer_limit(c, 1);
        htp_config_set_allow_space_uri(c, true);
        htp_config_set_u_encoding_decode(c, 1);
        htp_config_set_url_encoding_invalid_handling(c, HtpUrlEncodingHandling::PROCESS_INVALID);
        htp_config_set_utf8_convert_bestfit(c, 1);
        htp_config_set_double_decode_normalized_query(c, true);
        htp_config_set_double_decode_normalized_path(c, true);
        htp_config_set_normalized_uri_include_all(c, true);
        htp_config_set_tx_auto_destroy(c, 1);
        htp_config_set_flush_incomplete(c, 1);
        htp_config_set_parse_urlencoded(c, 1);
        htp_config_destroy(c);
        // a parser without a configuration has the default one
        let p = htp_connp_create(c);
        let got = read(&(*p).cfg);
        htp_connp_destroy_all(p);
        ensure_eq!(case, got, defaults(), "settings of a parser made without any");
        let v = CStr::from_ptr(htp_get_version()).to_bytes().to_vec();
        ensure!(case, v.starts_with(b"LibHTP v") && v.len() < 40 && v.is_ascii(), "version {}", esc(&v));
    }
    Ok(())
}

/// The string functions.
fn strings(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let a: Vec<u8> = s.bytes_from(b"abAB z\xff\x80", 0, 12);
    let b: Vec<u8> = if s.bool() { s.bytes_from(b"abAB z\xff\x80", 0, 12) } else { a.iter().map(|c| if s.chance(1, 8) { b'a' } else { c.to_ascii_uppercase() }).collect() };
    let raw = s.bytes_from(b"ab\0\\0\xff", 0, 12);
    case.describe(|| format!("{} {} {}", esc(&a), esc(&b), esc(&raw)));
    case.label("strings");
    unsafe {
        let (ca, cc) = (CString::new(a.clone()).unwrap(), CString::new(b.clone()).unwrap());
        let x = bstr_dup_c(ca.as_ptr());
        let got = (bstr_len(x), esc(std::slice::from_raw_parts(bstr_ptr(x), bstr_len(x))), bstr_size(x) >= a.len(), bstr_cmp_c(x, cc.as_ptr()), bstr_cmp_c_nocase(x, cc.as_ptr()));
        bstr_free(x);
        let n = |o: std::cmp::Ordering| o as i32;
        let (la, lb) = (a.to_ascii_lowercase(), b.to_ascii_lowercase());
        ensure_eq!(case, got, (a.len(), esc(&a), true, n(a.cmp(&b)), n(la.cmp(&lb))), "length, bytes, capacity and comparisons of a copy");
        let k = s.range(0, 100);
        let y = bstr_alloc(k);
        let got = (bstr_len(y), bstr_size(y) >= k);
        bstr_free(y);
        ensure_eq!(case, got, (0, true), "a string with room for {}", k);
        let z = Bstr::from(raw.as_slice());
        let p = bstr_util_strdup_to_c(&z);
        let got = CStr::from_ptr(p).to_bytes().to_vec();
        libc::free(p as *mut c_void);
        let mut want = vec![];
        for c in &raw {
            if *c == 0 { want.extend_from_slice(b"\\0") } else { want.push(*c) }
        }
        ensure_eq!(case, esc(&got), esc(&want), "C copy of {}", esc(&raw));
        case.nontrivial = raw.contains(&0) && a.len() > 2;
    }
    Ok(())
}

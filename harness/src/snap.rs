//! Everything a user can read from a transaction, as comparable text.
use crate::engine::esc;
use htp::bstr::Bstr;
use htp::transaction::*;
use htp::uri::Uri;
use htp::util::HtpFlags;

fn o(b: &Option<Bstr>) -> String {
    match b {
        Some(b) => format!("\"{}\"", esc(b)),
        None => "-".into(),
    }
}
pub fn uri_text(u: &Option<Uri>) -> String {
    match u {
        None => "-".into(),
        Some(u) => format!(
            "scheme {} user {} pass {} host {} port {} {:?} path {} query {} fragment {}",
            o(&u.scheme), o(&u.username), o(&u.password), o(&u.hostname), o(&u.port), u.port_number,
            o(&u.path), o(&u.query), o(&u.fragment)
        ),
    }
}
pub fn headers_text(h: &Headers) -> String {
    h.elements
        .iter()
        .map(|h| format!("[{}|{}|{:x}]", esc(&h.name), esc(&h.value), h.flags))
        .collect::<Vec<_>>()
        .join("")
}

pub fn req_snapshot(t: &Transaction) -> Vec<(&'static str, String)> {
    vec![
        ("request_line", o(&t.request_line)),
        ("request_method", o(&t.request_method)),
        ("request_method_number", format!("{:?}", t.request_method_number)),
        ("request_uri", o(&t.request_uri)),
        ("request_protocol", o(&t.request_protocol)),
        ("request_protocol_number", format!("{:?}", t.request_protocol_number)),
        ("is_protocol_0_9", format!("{:?}", t.is_protocol_0_9)),
        ("parsed_uri", uri_text(&t.parsed_uri)),
        ("parsed_uri_raw", uri_text(&t.parsed_uri_raw)),
        ("complete_normalized_uri", o(&t.complete_normalized_uri)),
        ("partial_normalized_uri", o(&t.partial_normalized_uri)),
        ("request_message_len", t.request_message_len.to_string()),
        ("request_entity_len", t.request_entity_len.to_string()),
        ("request_headers", headers_text(&t.request_headers)),
        ("request_transfer_coding", format!("{:?}", t.request_transfer_coding)),
        ("request_content_encoding", format!("{:?}", t.request_content_encoding)),
        ("request_content_encoding_processing", format!("{:?}", t.request_content_encoding_processing)),
        ("request_content_type", o(&t.request_content_type)),
        ("request_content_length", format!("{:?}", t.request_content_length)),
        ("request_auth_type", format!("{:?}", t.request_auth_type)),
        ("request_auth_username", o(&t.request_auth_username)),
        ("request_auth_password", o(&t.request_auth_password)),
        ("request_auth_token", o(&t.request_auth_token)),
        ("request_hostname", o(&t.request_hostname)),
        ("request_port_number", format!("{:?}", t.request_port_number)),
        ("request_ignored_lines", t.request_ignored_lines.to_string()),
        ("request_progress", format!("{:?}", t.request_progress)),
        ("request_header_repetitions", t.request_header_repetitions.to_string()),
    ]
}
pub fn res_snapshot(t: &Transaction) -> Vec<(&'static str, String)> {
    vec![
        ("response_line", o(&t.response_line)),
        ("response_protocol", o(&t.response_protocol)),
        ("response_protocol_number", format!("{:?}", t.response_protocol_number)),
        ("response_status", o(&t.response_status)),
        ("response_status_number", format!("{:?}", t.response_status_number)),
        ("response_status_expected_number", format!("{:?}", t.response_status_expected_number)),
        ("response_message", o(&t.response_message)),
        ("seen_100continue", t.seen_100continue.to_string()),
        ("response_headers", headers_text(&t.response_headers)),
        ("is_http_2_upgrade", t.is_http_2_upgrade.to_string()),
        ("response_message_len", t.response_message_len.to_string()),
        ("response_entity_len", t.response_entity_len.to_string()),
        ("response_content_length", format!("{:?}", t.response_content_length)),
        ("response_transfer_coding", format!("{:?}", t.response_transfer_coding)),
        ("response_content_encoding", format!("{:?}", t.response_content_encoding)),
        ("response_content_encoding_processing", format!("{:?}", t.response_content_encoding_processing)),
        ("response_content_type", o(&t.response_content_type)),
        ("response_ignored_lines", t.response_ignored_lines.to_string()),
        ("response_progress", format!("{:?}", t.response_progress)),
        ("response_header_repetitions", t.response_header_repetitions.to_string()),
    ]
}
/// All fields. The multi-packet mark tells how the head was segmented, so it is
/// left out.
pub fn snapshot(t: &Transaction) -> Vec<(&'static str, String)> {
    let mut v = req_snapshot(t);
    v.extend(res_snapshot(t));
    v.push(("flags", format!("{:x}", t.flags & !HtpFlags::MULTI_PACKET_HEAD)));
    v.push(("index", t.index.to_string()));
    v
}
pub fn diff(a: &[(&'static str, String)], b: &[(&'static str, String)]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Some(format!("{}: {} versus {}", x.0, x.1, y.1));
        }
    }
    None
}

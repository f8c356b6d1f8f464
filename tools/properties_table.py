prop("P01", "Any traffic, configuration and call history is handled cleanly",
 "For every configuration, every byte content, every split of the two streams into data calls, gaps and closes, and every set of callback answers, the parser neither panics, overflows, hangs nor exhausts memory, and dropping it is clean. Each data call answers one of the documented stream states and never reports consuming more than it was given. Once a direction has answered error or stop it keeps giving that answer and consumes nothing (a close lifts a stop, never an error), the two byte counters equal the bytes offered to live streams, and no more transactions than the configured maximum are alive.",
 ["inputs","histories","configurations","fault_sequences"], "all byte streams, interleavings, configurations, gap/close positions and callback failures",
 "Tests replay about 150 captured conversations with default-like settings; robustness is over all inputs, cuts, settings and callback failures.",
 ["src/connection_parser.rs","src/request.rs","src/response.rs","src/transactions.rs","src/decompressors.rs","src/urlencoded.rs","src/headers.rs"],
 [("state machine driver","src/connection_parser.rs:request_data,response_data"),("checked arithmetic and bounded buffers","src/util.rs, src/parsers.rs"),("transaction limit","src/transactions.rs:request_mut,response_mut")],
 ["return value of request_data/response_data","consumed byte counts","connection byte counters","panics"],
 "structure-aware random fuzzing of call histories with a state/consumption/counter oracle; overflow and debug assertions on; crash and hang containment",
 BASE+"Wild histories: generated conversations mutated, spliced and mixed with soup, random configurations and callback failures. Overflow checks and debug assertions are on; memory is capped.")
prop("P02", "How packets are cut and interleaved does not change what is reported",
 "For the same bytes in each direction, every transaction field, header, flag, body, raw header block, parameter and log message reported, and the order of callbacks within each direction, are the same however each stream is cut into data calls (down to single bytes) and however the two directions are interleaved, as long as a response does not start before its request was delivered. Adjacent body pieces may be merged or split, and the mark that a message head spanned several packets may differ. Nothing else may differ.",
 ["inputs","schedules"], "all conversations (well-formed and lenient/odd ones) x all segmentations x all request/response interleavings",
 "Tests feed each captured stream with one fixed segmentation; cut positions and interleavings are exponentially many.",
 ["src/connection_parser.rs","src/request.rs","src/response.rs","src/headers.rs","src/util.rs","src/decompressors.rs"],
 [("line and header buffering across calls","src/request.rs:request_line,request_headers; src/response.rs:response_line,response_headers"),("incomplete-input parsers","src/headers.rs:Parser, src/util.rs:take_till_eol"),("waiting for the other direction","src/connection_parser.rs:request_parser_check_waiting")],
 ["all transaction fields","callback sequences and payloads"],
 "metamorphic property testing: one conversation delivered whole and with generated cuts/interleavings must give equal reports",
 BASE+"Body corruption inside compressed streams and non-HTTP junk before a status line are outside the domain (documented in DESIGN.md).")
prop("P03", "Requests on the wire are reported exactly",
 "For every well-formed or leniently formed request, the transaction reports exactly the method, target, protocol version and request line that were sent, and its header fields with the names, values, order, repetition joining (comma) and unfolding (only the line ending goes) that were sent. Trailer fields are reported as header fields, and no anomaly is reported for a well-formed request. Header lookup by name ignores case.",
 ["inputs","schedules"], "all requests of the generated grammar, anywhere in a conversation, under all segmentations",
 "Tests check a few fields of a few dozen fixed requests.",
 ["src/request.rs","src/headers.rs","src/transaction.rs","src/parsers.rs","src/table.rs"],
 [("request line parsing","src/request.rs:parse_request_line"),("header parsing and merging","src/request.rs:process_request_header,src/headers.rs"),("method and protocol numbers","src/request.rs:HtpMethod, src/parsers.rs:parse_protocol")],
 ["transaction request fields"],
 "generator-knows-the-answer testing: requests generated with their expected report, serialised with varied syntax, then compared field by field",
 BASE+"The oracle is the generator's own model of the request, independent of the parser.")
prop("P04", "Responses on the wire are reported exactly",
 "For every well-formed or leniently formed response, the transaction reports exactly the protocol, status code, reason phrase and status line that were sent, and its header fields with the names, values, order, repetition joining (comma) and unfolding (only the line ending goes) that were sent. Trailer fields are reported as header fields; interim 100 responses are skipped and leave nothing in the final response's fields. No anomaly is reported for a well-formed response.",
 ["inputs","schedules"], "all responses of the generated grammar, anywhere in a conversation, under all segmentations",
 "Tests check a few fields of a few dozen fixed responses.",
 ["src/response.rs","src/headers.rs","src/transaction.rs","src/parsers.rs"],
 [("status line parsing","src/response.rs:parse_response_line"),("header parsing and merging","src/response.rs:process_response_header,src/headers.rs"),("status number","src/parsers.rs:parse_status")],
 ["transaction response fields"],
 "generator-knows-the-answer testing over generated responses",
 BASE+"The oracle is the generator's own model of the response.")
prop("P05", "Bodies are delivered byte for byte with the right framing and lengths",
 "For every message whose body is framed by a length, by chunks (with extensions, leading zeros, either hex case, trailers) or by connection close, the concatenation of the delivered body data is exactly the body that was sent, and the next message starts right after it. The reported content length, transfer coding, entity length and message length (bytes on the wire, chunk framing included) match what was sent. Body data is never delivered for a message without a body.",
 ["inputs","schedules"], "all bodies, framings and segmentations",
 "Tests use short fixed bodies cut in one way.",
 ["src/request.rs","src/response.rs","src/parsers.rs","src/transaction.rs"],
 [("framing decision","src/request.rs:request_body_determine; src/response.rs:response_body_determine; src/transaction.rs:process_request_headers"),("chunked decoding","src/request.rs:request_body_chunked_*; src/response.rs:response_body_chunked_*; src/parsers.rs:parse_chunked_length")],
 ["body data callbacks","entity and message length fields"],
 "generator-knows-the-answer testing over generated bodies and framings",
 BASE+"Bodies up to some tens of kilobytes; lengths near 2^63 are covered by P22.")
prop("P06", "Each response is paired with its request, pipelined or not",
 "In every conversation the n-th response belongs to the transaction of the n-th request, with bodies and fields never mixed between transactions, whatever the number of pipelined requests and however the two streams are interleaved. A response that arrives when no request is outstanding gets a transaction of its own with a placeholder target and no request data, and pairing of later traffic is unaffected. The pipelining mark is set exactly when a request completes while an earlier response is outstanding, and transactions complete once each, in order (only a response nobody asked for may complete while a request is still being sent).",
 ["inputs","schedules","histories"], "all conversations of several exchanges and all interleavings",
 "Tests have a handful of pipelined captures in one interleaving each.",
 ["src/transactions.rs","src/connection_parser.rs","src/response.rs"],
 [("request and response indices","src/transactions.rs:request_next,response_next"),("unmatched responses","src/response.rs:response_idle"),("pipelining detection","src/connection_parser.rs:state_request_complete_partial")],
 ["transactions and callbacks"],
 "generated numbered conversations under random interleavings; pairing oracle from the generator",
 BASE+"Responses that precede their request are covered with their own (placeholder) oracle.")
prop("P07", "Callbacks come once, in protocol order, with final information",
 "For every transaction the callbacks come in protocol order (start, target, line, raw header data, headers, body, raw trailer data, trailer, complete), each non-data callback once, and the transaction-complete callback comes once, last, and only when both messages are complete. What the transaction reports when a callback runs (line fields at the line callback, framing and header fields at the headers callback, lengths at completion) is already final and the progress told at each callback matches its stage. The order guarantees also hold for arbitrary malformed traffic with gaps, closes and any configuration.",
 ["inputs","schedules","histories","configurations"], "all conversations, segmentations and configurations; arbitrary byte streams for the ordering part",
 "Tests register a few callbacks on fixed captures and rarely check their order.",
 ["src/connection_parser.rs","src/request.rs","src/response.rs","src/hook.rs","src/transactions.rs"],
 [("state transitions","src/connection_parser.rs:state_request_*,state_response_*"),("completion","src/connection_parser.rs:finalize"),("receivers of raw header data","src/connection_parser.rs:request_receiver_*,response_receiver_*")],
 ["callback sequence with transaction snapshots"],
 "history invariant over recorded callbacks for generated and wild traffic, exact expected sequence for well-formed traffic",
 BASE+"Snapshots taken inside callbacks are compared with the final report.")
prop("P08", "What a callback answers decides what happens next, and only that",
 "In every conversation a callback that declines changes nothing: the same callbacks, data, answers and fields follow. A callback that answers stop or error ends its direction at once: no later callback of the event and no later event of that direction runs in the call, the data call answers stop or error, later data calls of the direction give the same answer and consume nothing, and the other direction is processed as before. Callbacks registered for one event run in registration order, those registered on the transaction before those of the configuration; the answer to raw header and trailer data is outside this guarantee.",
 ["inputs","histories","fault_sequences"], "all conversations x every callback invocation in them x every answer",
 "Tests have a few callbacks that fail at one fixed place.",
 ["src/hook.rs","src/connection_parser.rs","src/request.rs","src/response.rs"],
 [("hook runners","src/hook.rs:run_all"),("mapping of hook answers to stream states","src/connection_parser.rs:request_data,response_data"),("per-transaction body hooks","src/connection_parser.rs:request_run_hook_body_data,response_run_hook_body_data")],
 ["callback sequences","return value of request_data/response_data"],
 "fault injection at a generated callback of a generated conversation, compared with the fault-free run (differential)",
 BASE+"Raw header/trailer data callbacks are not used as fault points because the library ignores their answer at the end of a packet by design.")
prop("P09", "Raw header and trailer data is the exact header block on the wire",
 "For every message the pieces given to the raw header data callback, put together, are exactly the bytes of the header block from the end of the first line through the empty line, and those given to the raw trailer data callback are exactly the bytes of the trailer block, in order, without loss, repetition or bytes of another part. This holds for both directions, every line ending, folding and every segmentation.",
 ["inputs","schedules"], "all conversations of the generated grammar and all segmentations",
 "Tests compare raw header data for a few captures with one segmentation.",
 ["src/connection_parser.rs","src/request.rs","src/response.rs"],
 [("receivers","src/connection_parser.rs:request_receiver_set,request_receiver_finalize_clear,request_receiver_send_data"),("header states","src/request.rs:request_headers; src/response.rs:response_headers")],
 ["raw header and trailer data callbacks"],
 "generator-knows-the-answer testing: recorded raw pieces against the serialised block",
 BASE)
prop("P10", "Compressed bodies are delivered decompressed, byte for byte",
 "For every request or response body coded with gzip (any header options), deflate (raw or zlib-wrapped) or lzma, in one or several announced layers, in one list or several fields, in any letter case, and even if gzip was announced as deflate or deflate as gzip, the delivered body data is exactly the original body whatever the framing and the cuts, and the reported entity length, message length, content encoding and warnings about unknown codings agree. A body whose coded stream is cut short yields everything that can be decoded of it, a prefix of the original, without a stream error, and bytes after the end of a gzip stream are not delivered. With decompression disabled for the direction, and for a body announced as gzip or deflate that is plainly neither, the bytes are delivered as sent.",
 ["inputs","schedules","configurations"], "all bodies, encoder settings, layer combinations, framings, segmentations",
 "Tests decompress a dozen captured bodies with fixed cuts.",
 ["src/decompressors.rs","src/response.rs","src/request.rs","src/transaction.rs"],
 [("decoder chain","src/decompressors.rs:InnerDecompressor,GzipBufWriter,LzmaBufWriter"),("choice of the chain","src/response.rs:response_initialize_decompressors; src/request.rs:request_initialize_decompressors")],
 ["body data callbacks","entity and message lengths","content encoding fields"],
 "round-trip testing with independent encoders (flate2, lzma-rs) over generated bodies, layers, framings and cuts",
 BASE+"The lzma encoder writes literals only. Plain bodies up to 60 kB. The wall-clock time limit of decompression is left at its default and not exercised.")
prop("P11", "Decompression stays within the configured limits",
 "For every bomb limit and ratio, the decompressed data delivered for a body never exceeds the larger of the limit and the ratio times the wire bytes by more than one output buffer (8192 bytes), a body beyond that ends the stream in error (or, where lzma gives out its last data only at the end of the body, is cut short there), and a body within the limit is always delivered in full. No more announced layers than the layer limit (and, for lzma, the lzma layer limit) are undone, the rest being delivered still coded; lzma with a zero memory limit is passed through. What is delivered is always a prefix of the right data and the entity length counts it.",
 ["inputs","configurations","schedules"], "all limits, ratios, layer counts, bodies around the limits and segmentations",
 "Tests have one bomb and a few layer counts.",
 ["src/decompressors.rs","src/response.rs","src/request.rs"],
 [("bomb check","src/response.rs:response_decompressor_callback; src/request.rs:request_decompressor_callback"),("layer limits","src/response.rs:response_initialize_decompressors; src/request.rs:request_initialize_decompressors")],
 ["body data callbacks","return value of request_data/response_data","entity length"],
 "boundary-biased generated bodies and limits against an arithmetic oracle of the limits",
 BASE)
prop("P17", "Request targets are split and normalised into exactly their parts",
 "For every request target in origin form, absolute form or CONNECT authority form, the reported scheme, user name, password, host name, port, path, query and fragment are exactly the parts that were sent, and a part that was not sent (or an empty port or query) is not reported. The normalised parts are the scheme and host in lower case, the host without trailing dots, credentials, host and fragment decoded as configured, and the port number only when it is 1 to 65535 written in digits; the target's host is marked invalid exactly when the host name or port is not valid (an empty port only in CONNECT). The partial and complete normalised URIs are the reported normalised parts put together, with the query decoded.",
 ["inputs","configurations"], "all targets and all decoder settings",
 "Tests split a few dozen fixed URIs.",
 ["src/uri.rs","src/util.rs","src/transaction.rs","src/request.rs"],
 [("URI split","src/uri.rs:Uri::parse_uri"),("normalisation","src/uri.rs:generate_normalized_uri; src/transaction.rs:normalize_parsed_uri"),("authority of CONNECT","src/uri.rs:parse_uri_hostport; src/parsers.rs:parse_hostport; src/util.rs:validate_hostname")],
 ["parsed_uri_raw, parsed_uri, partial_normalized_uri, complete_normalized_uri, HOSTU_INVALID"],
 "generator-knows-the-answer testing: targets assembled from generated parts, sent in a request, compared part by part; reference model for the decoding",
 BASE+"Targets have no white space (P03 covers lenient request lines).")
prop("P18", "Paths are decoded and normalised exactly as configured",
 "For every path and every decoder configuration, the normalised path is the one the documented rules give: %xx and %uXXXX decoding, invalid encodings kept, stripped or processed, NUL termination, separator decoding, backslash conversion, lower-casing, separator compression, best-fit mapping, then removal of dot segments, of which none survives and which never climb above the root. Each path anomaly flag (encoded NUL, invalid encoding, overlong %u, encoded separator, half/full width range and the UTF-8 marks) is set exactly when its cause is present. The expected response status is that of the last anomaly whose configured status is not 'ignore'.",
 ["inputs","configurations"], "all paths and all decoder settings",
 "Tests check some sixty fixed paths, mostly with one setting changed.",
 ["src/urlencoded.rs","src/uri.rs","src/utf8_decoder.rs","src/config.rs"],
 [("path decoding","src/urlencoded.rs:path_decode_uri_inplace"),("dot segments","src/uri.rs:normalize_uri_path_inplace"),("settings","src/config.rs:DecoderConfig")],
 ["parsed_uri.path, transaction flags, response_status_expected_number"],
 "differential testing against an independently written reference decoder over generated paths and settings",
 BASE+"The expected status follows the library's documented order of checks; path_separators_encoded_unwanted has no effect in the library and is not claimed.")
prop("P19", "UTF-8 in paths is converted and classified exactly",
 "For every sequence of bytes above 0x7f in a path, raw or percent-encoded, the path is marked valid UTF-8, invalid UTF-8, overlong or half/full width range exactly when it is (a sequence cut short by the end of the path is not marked), whether or not conversion is enabled. With best-fit conversion enabled every decoded character becomes its own byte below 0x100, its best-fit byte, or the replacement byte, and every broken sequence one replacement byte without swallowing the byte that broke it; otherwise the bytes stay as they were.",
 ["inputs","configurations"], "all byte sequences and all settings",
 "Tests decode about twenty fixed byte strings.",
 ["src/utf8_decoder.rs","src/unicode_bestfit_map.rs","src/util.rs","src/transaction.rs"],
 [("decoder automaton","src/utf8_decoder.rs:Utf8Decoder"),("best-fit map","src/unicode_bestfit_map.rs:UnicodeBestfitMap"),("validation and conversion","src/utf8_decoder.rs:decode_and_validate_inplace")],
 ["parsed_uri.path and the PATH_UTF8_* flags"],
 "differential testing against an independently written UTF-8 model and a copy of the best-fit table",
 BASE)
prop("P20", "Query parameters are split and decoded exactly",
 "For every query string, separator and decoder configuration, the parameters are exactly the non-empty pieces between separators in order (one empty parameter when there are only separators), name and value split at the first '=', each decoded as configured. They are the same however the string is cut into pieces for the parser, and the same when they reach the parameter processor through a request. Each parameter anomaly flag is set exactly when its cause is present, and the expected response status is that of the last anomaly whose configured status is not 'ignore'.",
 ["inputs","schedules","configurations"], "all query strings, cuts, separators and decoder settings",
 "Tests parse about thirty fixed strings, few of them in pieces.",
 ["src/urlencoded.rs","src/util.rs","src/transaction.rs","src/table.rs"],
 [("splitting","src/urlencoded.rs:Parser"),("decoding","src/urlencoded.rs:decode_uri_with_flags"),("request side","src/transaction.rs, src/connection_parser.rs: parameter_processor")],
 ["urlencoded::Parser params and flags; parameter_processor calls"],
 "differential testing against an independently written reference over generated strings, settings and cuts",
 BASE)
prop("P13", "CONNECT and protocol upgrades switch to a tunnel exactly when they should",
 "After a CONNECT request nothing more of the request stream is parsed until its response line is known: later request bytes are answered with DATA_OTHER and not consumed. When the answer is 2xx and the client's next data is not an HTTP request, or after a 101 response without a body (with one it is a response like any other), both directions answer TUNNEL to every later data call, no callback runs on tunnelled data and no transaction is made from it. When the answer is a refusal (407 or any other), or the client speaks HTTP inside the accepted tunnel, every following request and response is reported in its own transaction, paired and complete, however they are pipelined and cut.",
 ["inputs","schedules","histories"], "all conversations with a CONNECT or an upgrade, all positions, cuts, interleavings and tunnelled data",
 "Tests replay a handful of CONNECT captures.",
 ["src/request.rs","src/response.rs","src/connection_parser.rs"],
 [("CONNECT states","src/request.rs:request_connect_check,request_connect_wait_response,request_connect_probe_data"),("answers","src/response.rs:response_body_determine"),("yielding to the other direction","src/connection_parser.rs:request_parser_check_waiting")],
 ["return values and consumed counts of request_data/response_data","callbacks","transactions","is_http_2_upgrade"],
 "stateful generated histories around CONNECT/101 with an oracle for answers, consumption, callbacks and transactions",
 BASE+"Callers keep what was not consumed and offer it again after the other direction, as DATA_OTHER asks. The first request after a CONNECT has a method the library knows.")
prop("P15", "Conflicting framing and malformed header lines are judged and marked",
 "For every combination of Transfer-Encoding and Content-Length fields the framing chosen is the documented one (chunked wins over any length, the first length wins over later ones, an undeterminable one ends the stream in error), the body and the following message are found accordingly, and the smuggling, invalid Transfer-Encoding and invalid Content-Length marks are set exactly when their cause is present. A header line with white space before the colon, an invalid or empty name, no colon, or leading white space is kept as a field with its mark on the field and on the transaction. Good lines around it are reported unharmed and unmarked.",
 ["inputs","schedules"], "all framing field combinations and malformed header lines, both directions, all cuts",
 "Tests have one message per anomaly.",
 ["src/request.rs","src/response.rs","src/transaction.rs","src/headers.rs","src/util.rs"],
 [("request framing","src/transaction.rs:process_request_headers"),("response framing","src/response.rs:response_body_determine"),("malformed lines","src/headers.rs:Parser; src/request.rs:process_request_header; src/response.rs:process_response_header")],
 ["transfer coding, content length, flags of the transaction and of each header, body data callbacks"],
 "generated framing and header-line combinations against an independent model of the rules",
 BASE+"Field values have no NUL; repeated names containing NUL are left out.")
prop("P16", "Host, credentials and content types are reported exactly",
 "For every request target and Host field the reported host name and port are those of the target or else those of the field, and the missing, ambiguous and invalid host marks are set exactly when their cause is present. For every Authorization field the authentication type, user name, password and bearer token are exactly those sent, unusable credentials are marked and never end the stream, and nothing is reported when authorization parsing is disabled. The content type of a request, and of a response with a body, is the media type in lower case without its parameters; the request after such a request is always found, and of responses only one of type multipart/byteranges without any other framing ends its stream in error.",
 ["inputs","configurations"], "all targets, Host, Authorization and Content-Type values, in any order and case",
 "Tests parse about a dozen Authorization headers and host names.",
 ["src/transaction.rs","src/parsers.rs","src/util.rs"],
 [("host","src/transaction.rs:process_request_headers; src/parsers.rs:parse_hostport"),("credentials","src/parsers.rs:parse_authorization,parse_authorization_basic,parse_authorization_digest,parse_authorization_bearer"),("content type","src/parsers.rs:parse_content_type")],
 ["request_hostname, request_port_number, request_auth_*, request_content_type, HOST* and AUTH_INVALID flags"],
 "generator-knows-the-answer testing: field values are built from known parts",
 BASE+"Digest user names are quoted as RFC 7616 says, without backslashes other than before quotes.")
prop("P14", "Interim responses, refused bodies and unexpected data do not derail parsing",
 "However many interim 100 responses (with or without fields) precede a response, and however they and early final responses are interleaved with the request body, every request and final response is reported exactly and nothing of the interim ones remains. A request with 'Expect: 100-continue' and a Content-Length that is refused with a 4xx before its body began ends there without a body and the next request is a transaction of its own, while in every other case (no Expect, another status, body begun) the announced body is read in full. Data in the same packet behind a complete message that does not start a message is delivered as body data of that message with a warning (white space behind a request without one; behind a compressed request body it is dropped), and the next message is still found and paired.",
 ["inputs","schedules","histories"], "all conversations with interim or early responses, refused bodies or unexpected data, all cuts and interleavings",
 "Tests replay three Expect captures and a few unexpected bodies.",
 ["src/response.rs","src/request.rs","src/util.rs"],
 [("interim responses and refusals","src/response.rs:response_body_determine"),("unexpected bodies","src/response.rs:response_finalize; src/request.rs:request_finalize; src/util.rs:treat_response_line_as_body")],
 ["transactions, callbacks, body data"],
 "stateful generated conversations with the ground truth kept by the generator",
 BASE+"Interim responses carry status 100 without a body. Unexpected data is judged when it shares a packet with the end of the message; empty lines behind a chunked body are ignored by design, and data behind a compressed response body is an error by design (five repository tests demand it).")
prop("P12", "Configured limits are enforced exactly and nothing within them is refused",
 "For every field limit, traffic whose request lines, status lines, header fields and chunk length lines are all at least two bytes shorter is reported in full however it is cut, while an element that is still unfinished after a data call and is over the limit makes that call answer ERROR, never an earlier one. For every maximum number of transactions, requests are accepted as long as fewer are alive (completed ones are gone with automatic destruction, or once the caller removes them), the request beyond it makes the request stream answer ERROR, and responses to those alive are still reported. Repeated header fields are joined up to 64 repetitions beyond each field's second occurrence, counted over the message, and the rest are dropped without harm to other fields or messages.",
 ["inputs","schedules","histories","configurations"], "all limits, traffic around them, and cuts",
 "Tests cross one limit with one fixed input each.",
 ["src/request.rs","src/response.rs","src/transactions.rs","src/config.rs"],
 [("field limit","src/request.rs:check_request_buffer_limit; src/response.rs:check_response_buffer_limit"),("transaction limit","src/transactions.rs:request_mut,response_mut,check_free"),("repetitions","src/request.rs:process_request_header; src/response.rs:process_response_header")],
 ["return value of request_data/response_data","transactions and their fields"],
 "boundary-biased generated traffic and limits with exact oracles; stateful model for live transactions",
 BASE+"An element that arrives complete in one data call is not limited, except request and status lines.")
prop("P23", "Missing bytes are bridged inside bodies and refused elsewhere",
 "For every conversation, replacing any runs of body bytes framed by a length or by the connection end with gaps of the same length changes only that body: the gap is delivered as missing bytes at its place, the rest byte for byte, the message length counts it, the transaction is marked for that direction only, and all other messages are reported as without it. A gap that runs past the end of a body still ends that message there. A gap in a message head, chunked body or between messages is answered with CLOSED and changes nothing but the mark of that transaction, and a stream that starts with a gap answers ERROR from then on without any callback or effect on the other direction.",
 ["inputs","schedules","fault_sequences"], "all conversations, gap positions and lengths, and cuts",
 "Tests have four captures with one gap each.",
 ["src/request.rs","src/response.rs","src/connection_parser.rs"],
 [("gaps in bodies","src/request.rs:request_body_identity; src/response.rs:response_body_identity_cl_known,response_body_identity_stream_close"),("gaps elsewhere","src/request.rs:request_data; src/response.rs:response_data")],
 ["body data callbacks (gap pieces)","return values","transaction flags and lengths"],
 "fault injection: generated conversations with generated gaps against the ground truth and against the same run without the gap",
 BASE+"Bodies with gaps are not compressed. Gaps inside the first line of a later message are left out of the refused case.")
prop("P24", "Transactions live, complete and go exactly as configured",
 "In every history each transaction completes at most once, is told complete exactly when both directions are, keeps its user data, and is not changed afterwards (except for the mark of a refused gap). With automatic removal a complete transaction is gone as soon as no parser is on it, and neither that, nor removal by the caller of transactions told complete, nor flush_incomplete changes any callback, answer or other transaction. With flush_incomplete the close of the connection tells each started and incomplete transaction complete once, in order, and only those; no more transactions than the maximum are ever alive.",
 ["inputs","schedules","histories","configurations"], "all histories of both streams under all lifetime settings and removal points",
 "Tests remove transactions in three fixed histories.",
 ["src/transactions.rs","src/transaction.rs","src/connection_parser.rs","src/response.rs"],
 [("container","src/transactions.rs:Transactions"),("completion","src/transaction.rs:is_complete,is_started; src/connection_parser.rs:finalize_tx"),("removal and flush","src/connection_parser.rs:remove_tx,flush_incomplete_transactions,close")],
 ["tx(i), tx_size, callbacks, user_data, answers of the data calls"],
 "metamorphic testing of generated histories: the same history under different lifetime settings and removals, plus invariants",
 BASE+"Callers remove only transactions whose completion was told.")
prop("P26", "Log messages are complete, ordered and without influence",
 "For every history and log level, the messages read from a connection are exactly those of the most verbose level that are at or below the configured one, in the same order, each once however they are read. Each carries the addresses and ports given to open, a text, a code and a place. The log level changes no answer, callback or transaction.",
 ["inputs","histories","configurations"], "all histories, log levels, addresses and ways of reading",
 "Tests look for single codes in single captures.",
 ["src/log.rs","src/connection.rs","src/connection_parser.rs"],
 [("logging","src/log.rs:Logger::log,Log,Message"),("reading","src/connection.rs:get_logs,get_next_log"),("addresses","src/connection_parser.rs:open")],
 ["Connection::get_logs, get_next_log"],
 "metamorphic testing of generated histories at different log levels",
 BASE+"The log hook of the configuration is never run by the library and is left out.")
prop("P27", "Connections are independent and the same history reports the same",
 "For every configuration and pair of histories, the answers, callbacks, transactions, log messages and connection flags of a parser are the same when its history is run again and when another parser of the same configuration is used, or the parser is moved in memory, in between its calls. A callback registered on one transaction runs for that transaction and no other.",
 ["inputs","schedules","histories","configurations"], "all pairs of histories, interleavings and configurations",
 "Tests use one parser at a time.",
 ["src/connection_parser.rs","src/config.rs","src/hook.rs","src/transaction.rs","src/decompressors.rs"],
 [("parser state","src/connection_parser.rs:ConnectionParser"),("shared configuration and hooks","src/config.rs:Config; src/hook.rs:Hook"),("callbacks of a transaction","src/transaction.rs:register_request_body_data,hook_response_body_data")],
 ["everything a caller can observe of two parsers"],
 "metamorphic testing: alone, repeated and interleaved runs of generated histories",
 BASE)
prop("P21", "Byte strings, tables and header lookups agree with their definitions",
 "For all byte strings, the case-insensitive, zero-skipping and trimmed comparisons, prefix tests, searches, splitting and bounded appending of Bstr give what their definitions say and never read or grow beyond their bounds. Lookups in tables and headers find the first element whose trimmed name equals the key without regard to case (and to zero bytes, for the zero-skipping ones). Indexing and iteration keep insertion order.",
 ["inputs"], "all byte strings, keys and tables",
 "Tests compare about forty fixed strings.",
 ["src/bstr.rs","src/table.rs","src/headers.rs"],
 [("strings","src/bstr.rs:Bstr"),("tables","src/table.rs:Table"),("headers","src/transaction.rs:Headers")],
 ["return values"],
 "model-based testing against definitions written independently over plain byte vectors",
 BASE+"The trimmed comparisons are judged on ASCII names without vertical tabs.")
prop("P22", "Numbers in messages are read exactly or refused, at every magnitude",
 "For every text in the place of a status code, protocol version, Content-Length or chunk length, the number reported is exactly its value, or it is reported as invalid when the text is not a number or is beyond the range, never as a wrapped or truncated one. A length of any 64-bit magnitude makes the message end after exactly that many bytes, and a body one byte short is not complete. An unusable length ends a request stream in error, and makes an unusable response chunk line and everything behind it the body up to the end of the connection.",
 ["inputs","schedules"], "all number texts in messages up to and beyond 64 bits, and cuts",
 "Tests read about twenty fixed numbers.",
 ["src/util.rs","src/parsers.rs","src/request.rs","src/response.rs"],
 [("numbers","src/util.rs:ascii_digits,hex_digits,chomp; src/parsers.rs:parse_content_length,parse_chunked_length,parse_status,parse_protocol"),("lengths in bodies","src/request.rs:request_body_chunked_length; src/response.rs:response_body_chunked_length")],
 ["response_status_number, protocol numbers, content lengths, progress and body data"],
 "boundary-biased generated number texts inside messages against an independent reader; huge bodies are fed as gaps",
 BASE+"Response chunk lengths above 2^31-1 are left out: the library skips such lines.")
prop("P28", "Odd request and status lines are split as documented, HTTP/0.9 included",
 "For every request line, with any white space, missing parts, spaces in the target, NUL bytes, unknown methods and any version text, the method, target, protocol, their numbers, the number of ignored lines and the messages about each oddity are those the configured personality and settings define, and the fields behind it are unharmed. For every status line the same holds for protocol, status, reason and the invalid line mark, and a line in front of it in its packet that does not start with HTTP is skipped when HTTP starts within the next 12 bytes and delivered as body data otherwise. A request line without a version with nothing (or up to 16 bytes of white space) behind it in its packet is a complete HTTP/0.9 request whose response is all body, and anything the client sends later is marked and never parsed.",
 ["inputs","configurations","schedules"], "all request and status lines, personalities, settings and cuts",
 "Tests parse about thirty fixed lines.",
 ["src/request.rs","src/response.rs","src/parsers.rs","src/util.rs"],
 [("request line","src/request.rs:parse_request_line,request_line_complete"),("HTTP/0.9","src/request.rs:request_protocol,request_ignore_data_after_http_0_9"),("status line","src/response.rs:parse_response_line,response_line_complete")],
 ["request_line, request_method, request_uri, request_protocol, response_*; log codes; connection flags"],
 "differential testing of generated lines against an independently written reader",
 BASE)
prop("P25", "The C interface reports the same as the Rust one and is safe with NULL",
 "For every history, setting, callback answer, timestamp and removal made through the C functions, the answers, consumed counts, callbacks with their data, transactions, headers, URIs, log messages, counters and user data read through C are those the Rust interface gives for the same history. Every function documented to accept NULL does so and returns the documented value, and a value C cannot represent is told as -1 and never as another value. Configuration changes after a parser was created from it have no effect on that parser.",
 ["inputs","histories","configurations"], "all histories and settings through both interfaces",
 "Tests call about twenty of the C functions on fixed data.",
 ["src/c_api/config.rs","src/c_api/connection_parser.rs","src/c_api/transaction.rs","src/c_api/header.rs","src/c_api/uri.rs","src/c_api/log.rs","src/c_api/bstr.rs","src/c_api/connection.rs","src/hook.rs"],
 [("entry points","src/c_api/*.rs"),("C callbacks","src/hook.rs:register_extern,run_all")],
 ["return values of all htp_* and bstr_* functions, C callbacks"],
 "differential testing: generated histories through the C interface and the Rust interface, and against documented NULL answers",
 BASE+"Pointers are valid or NULL, as the documentation requires; removal is of complete transactions.")
prop("P29", "Every setting and personality changes exactly what it documents",
 "After any sequence of settings made through either interface, every setting has the value last given to it by its own setter or by the documented table of the chosen server personality, and all others are untouched. An unsupported personality is refused and changes nothing. Copies of a configuration are independent of the original.",
 ["inputs","histories","configurations"], "all sequences of settings and personalities",
 "Tests set one option at a time in about thirty captures.",
 ["src/config.rs","src/decompressors.rs","src/c_api/config.rs"],
 [("setters","src/config.rs:Config; src/decompressors.rs:Options"),("personalities","src/config.rs:set_server_personality")],
 ["public fields and getters of Config, DecoderConfig and Options"],
 "stateful model-based testing: random sequences of setters against a model of all settings",
 BASE)
prop("P30", "Every anomaly is logged under its own code and level, and nothing else is",
 "For every conversation, each irregularity of field lines, repeated and unreadable lengths, protocol and status fields, chunk lines, interim responses, transfer codings, doubly encoded targets, unmatched or early responses and repeated opens puts exactly one message with its own code and severity on the connection (field-line warnings once per transaction), and clean traffic puts none. Messages carry the addresses and ports of the connection, and those below the configured level are left out. How the bytes are cut makes no difference.",
 ["inputs","schedules","configurations"], "all conversations with any combination of the listed irregularities x cuts x log levels",
 "Tests look at the log of a few captures; which message appears for which combination, how often, and that none appears otherwise is over all inputs.",
 ["src/log.rs","src/request.rs","src/response.rs","src/transaction.rs","src/parsers.rs","src/connection.rs","src/uri.rs"],
 [("log sites","src/request.rs, src/response.rs, src/parsers.rs, src/transaction.rs: htp_warn, htp_error, htp_warn_once"),("delivery","src/log.rs:Logger::log; src/connection.rs:get_logs")],
 ["codes, levels and addresses of Connection::get_logs"],
 "generated conversations with known irregularities; the multiset of log codes is compared with the generator's own account",
 BASE+"PARSER_STATE_ERROR, which repeats at every call on a broken stream, is not counted.")
prop("P31", "A conversation that breaks off reports exactly what arrived",
 "For every well-formed conversation cut short at any byte of a request or response and then closed, all earlier transactions and messages are reported as if it had gone on, and of the cut message the words of the first line, every field whose line had ended, the raw field bytes and the body bytes that arrived are reported, nothing else. A message missing part of its body is not reported complete unless the close ends that body, and with flushing enabled its transaction is still announced once. None of this depends on how the bytes were cut into calls.",
 ["inputs","schedules","fault_sequences","configurations"], "all conversations x all break-off points x cuts x flushing",
 "Tests close their captures at message ends; the close can come at every byte.",
 ["src/request.rs","src/response.rs","src/headers.rs","src/connection_parser.rs"],
 [("close","src/connection_parser.rs:close,request_close,flush_incomplete_transactions"),("unfinished lines and fields","src/request.rs:request_line,request_headers,request_idle; src/response.rs:response_line,response_headers,response_idle"),("complete mode of the field parser","src/headers.rs:Parser")],
 ["fields of the cut transaction and of those before it","raw field data and body data callbacks","completion callbacks"],
 "generated conversations cut at a random byte and closed; compared with the generator's own account and with the complete conversation",
 BASE+"The first letters of a message, before it can be told what it is, are outside the domain.")
prop("P32", "What a connection holds in memory is bounded and all of it is returned",
 "However often a conversation is repeated on one connection, with its completed transactions destroyed or removed and its log read, the parser holds no more memory afterwards than after the first rounds, and body data of any framing, tunnelled or ignored data, empty lines, interim responses, fields joined beyond the repetition limit and compressed bodies passing through do not make it grow. A line, field or chunk line that never ends holds no more than a few times the field limit. When the parser and its configuration are dropped, at any point of any history, everything they allocated has been given back.",
 ["inputs","histories","configurations"], "all conversations, all kinds of unbounded data and all histories ended anywhere",
 "Tests never look at memory and are too short for growth to matter.",
 ["src/connection_parser.rs","src/transactions.rs","src/request.rs","src/response.rs","src/decompressors.rs"],
 [("transactions removed","src/transactions.rs:remove; src/connection_parser.rs:remove_tx"),("buffers","src/request.rs:request_buf; src/response.rs:response_buf; src/headers.rs"),("decompressor output","src/decompressors.rs:InnerDecompressor")],
 ["bytes on the heap of the calling thread, live and at their peak"],
 "generated traffic under a counting allocator; live and peak heap compared with earlier in the same run, with the field limit, and with the heap before the parser was made",
 BASE+"Growth is judged with a slack of a few buffers.")

prop("P33", "The connection record tells addresses, times, places and packets exactly",
 "In every history the connection has the addresses, ports and open time of its first open, and an open of a connection already in use changes nothing and is logged; the time of each direction is the last one given with a data call that was not refused (nor without data), the close time the one given to close, also after a stream error, and calls without a time leave all times as they are. During a callback the time is that of the data call being processed, and the bytes told as consumed so far put the parser at the end of the first line when a request line is told and at the end of the head when header fields are told. The mark that a request head came in several packets is never set for one that came in one data call, and is set for one that did not when its request line came whole or it is the first on the connection.",
 ["inputs","schedules","histories"], "all well-formed conversations, cuts, times and opens",
 "Tests open once with fixed addresses, give no times and read no positions during callbacks.",
 ["src/connection.rs","src/connection_parser.rs","src/request.rs","src/response.rs"],
 [("addresses and times","src/connection.rs:open,close; src/connection_parser.rs:open,close"),("times of the data and refusals","src/request.rs:request_data; src/response.rs:response_data"),("place of the parser","src/connection_parser.rs:request_data_consume,request_data_unconsume"),("packets of a head","src/connection_parser.rs:request_reset,state_request_headers")],
 ["connection record","timestamps","consumed bytes during callbacks","MULTI_PACKET_HEAD flag"],
 "model-based testing: generated conversations, cuts, times and opens against a record kept by the check",
 BASE+"Positions are judged at the line and header callbacks of well-formed traffic.")


From a83d62eb49e6e2d4a3bb56d695f9ed453bb87f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 01/46] fix: keep the stream in error when a gap arrives and no
 transaction can be created

---
 src/request.rs  | 1 +
 src/response.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..a645320 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1517,6 +1517,7 @@ impl ConnectionParser {
             let idx = self.request_index();
             let req = self.request_mut();
             if req.is_none() {
+                self.request_status = HtpStreamState::ERROR;
                 return HtpStreamState::ERROR;
             }
             let req = req.unwrap();
diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..86078ea 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1518,6 +1518,7 @@ impl ConnectionParser {
             let idx = self.request_index();
             let resp = self.response_mut();
             if resp.is_none() {
+                self.response_status = HtpStreamState::ERROR;
                 return HtpStreamState::ERROR;
             }
             let resp = resp.unwrap();
-- 
2.43.0


From 4dfbe74a9c233b7ed90baa9d6dc7a0f11ad47ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:06 +0000
Subject: [PATCH 02/46] fix: do not overflow when decoding an invalid percent
 encoding

---
 src/urlencoded.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..d2d84fa 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -164,16 +164,16 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
     let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
+        (c1 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c1 - b'0'
+        c1.wrapping_sub(b'0')
     };
-    decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
+    decoded_byte = decoded_byte.wrapping_mul(16);
+    decoded_byte = decoded_byte.wrapping_add(if c2 >= b'A' {
+        (c2 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c2 - b'0'
-    };
+        c2.wrapping_sub(b'0')
+    });
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From bc6c3c1084085aff0fe386944b509aadf11f5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:15 +0000
Subject: [PATCH 03/46] fix: do not resume a stopped stream when the other
 direction switches to tunnel or answers CONNECT

---
 src/request.rs  |  6 +++++-
 src/response.rs | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index a645320..c37bccb 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,11 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                if self.response_status != HtpStreamState::ERROR
+                    && self.response_status != HtpStreamState::STOP
+                {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
diff --git a/src/response.rs b/src/response.rs
index 86078ea..a36cf9d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -372,13 +372,17 @@ impl ConnectionParser {
                 return self.state_response_headers(input);
             } else if response_tx.response_status_number.eq_num(407) {
                 // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -413,7 +417,9 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From aa255e639c226ee8479659dac5a96bfc76e333e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:31 +0000
Subject: [PATCH 04/46] fix: parse a chunk length line that is split across
 packets

---
 src/request.rs  | 24 ++++++++++++++----------
 src/response.rs | 35 +++++++++++++++++++++++------------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index c37bccb..c742034 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -340,8 +340,10 @@ impl ConnectionParser {
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
+            // Advance to end. Dont need to buffer
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA_BUFFER)
         }
     }
 
@@ -384,8 +386,9 @@ impl ConnectionParser {
         loop {
             if let Ok((remaining, line)) = take_till_lf(data) {
                 self.request_data_consume(input, line.len());
-                if !self.request_buf.is_empty() {
-                    self.check_request_buffer_limit(line.len())?;
+                let mut buffered = take(&mut self.request_buf);
+                if !buffered.is_empty() {
+                    self.check_request_buffer_limit(buffered.len().wrapping_add(line.len()))?;
                 }
                 let req = self.request_mut();
                 if req.is_none() {
@@ -393,19 +396,18 @@ impl ConnectionParser {
                 }
                 let req = req.unwrap();
 
-                if line.eq(b"\n") {
+                if buffered.is_empty() && line.eq(b"\n") {
                     req.request_message_len =
                         req.request_message_len.wrapping_add(line.len() as u64);
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
+                buffered.add(line);
+                req.request_message_len =
+                    req.request_message_len.wrapping_add(buffered.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&buffered)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
@@ -438,7 +440,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut seen = self.request_buf.clone();
+                seen.add(data);
+                return if !is_valid_chunked_length_data(&seen) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
diff --git a/src/response.rs b/src/response.rs
index a36cf9d..51a7745 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,19 +184,18 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
                     self.response_data_consume(input, line.len());
-                    if !self.response_buf.is_empty() {
-                        self.check_response_buffer_limit(line.len())?;
+                    let buffered = take(&mut self.response_buf);
+                    if !buffered.is_empty() {
+                        self.check_response_buffer_limit(buffered.len().wrapping_add(line.len()))?;
                     }
-                    if is_chunked_ctl_line(line) {
+                    if buffered.is_empty() && is_chunked_ctl_line(line) {
                         let resp = self.response_mut().unwrap();
                         resp.response_message_len =
                             (resp.response_message_len).wrapping_add(line.len() as u64);
@@ -204,14 +203,14 @@ impl ConnectionParser {
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
+                    let mut data = buffered.clone();
                     data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
                     match parse_chunked_length(&data) {
                         Ok((len, ext)) => {
+                            let resp = self.response_mut().unwrap();
+                            resp.response_message_len =
+                                (resp.response_message_len).wrapping_add(data.len() as u64);
                             self.response_chunked_length = len;
                             if ext {
                                 htp_warn!(
@@ -250,6 +249,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            if !buffered.is_empty() {
+                                // the start of the line came with an earlier packet
+                                return self.response_body_data(Some(buffered.as_slice()));
+                            }
                         }
                     }
 
@@ -257,15 +260,23 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut seen = self.response_buf.clone();
+                    seen.add(data);
+                    if !is_valid_chunked_length_data(&seen) {
                         // Contains leading junk non hex_ascii data
-                        resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
+                        self.response_mut().unwrap().response_transfer_coding =
+                            HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
                         htp_error!(
                             self.logger,
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        let buffered = take(&mut self.response_buf);
+                        if !buffered.is_empty() {
+                            // the start of the line came with an earlier packet
+                            return self.response_body_data(Some(buffered.as_slice()));
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From e7f33aee92549798f666b63a083ab1d8cbb88575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:08 +0000
Subject: [PATCH 05/46] fix: find the end of an empty header section or trailer
 wherever the packets are cut

---
 src/request.rs  | 22 +++++++++-------------
 src/response.rs | 28 +++++++++++++++++++---------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index c742034..bec20a6 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -583,22 +583,18 @@ impl ConnectionParser {
             data
         };
 
-        let (remaining, eoh) = self.parse_request_headers(data2)?;
         //TODO: Update the request state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == data2.len()
-            && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"));
-        if eoh
-            //If the input started with an EOL, we assume this is the end of the headers
-            || eol
-        {
+        //If the input starts with an EOL, we assume this is the end of the headers
+        let (remaining, eoh) = if data2.starts_with(b"\r\n") {
+            (&data2[2..], true)
+        } else if data2.starts_with(b"\n") {
+            (&data2[1..], true)
+        } else {
+            self.parse_request_headers(data2)?
+        };
+        if eoh {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
-            } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
diff --git a/src/response.rs b/src/response.rs
index 51a7745..2bca328 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -982,16 +982,17 @@ impl ConnectionParser {
             Bstr::from(input.as_slice())
         };
 
-        let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
         //TODO: Update the response state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
-        // If remaining is EOL or header parsing saw EOH this is end of headers
-        if eoh || eol {
-            if eol {
-                //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
-            } else if remaining.len() <= input.len() {
+        //If the input starts with an EOL, we assume this is the end of the headers
+        let (remaining, eoh) = if response_header.starts_with(b"\r\n") {
+            (&response_header.as_slice()[2..], true)
+        } else if response_header.starts_with(b"\n") {
+            (&response_header.as_slice()[1..], true)
+        } else {
+            self.parse_response_headers(response_header.as_slice())?
+        };
+        if eoh {
+            if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
             // We've seen all response headers. At terminator.
@@ -1401,6 +1402,15 @@ impl ConnectionParser {
             //closing
             return self.state_response_complete(input);
         }
+        if data.iter().all(|c| *c == b'\r' || *c == b'\n')
+            && self
+                .response()
+                .map(|resp| resp.response_transfer_coding == HtpTransferCoding::CHUNKED)
+                .unwrap_or(false)
+        {
+            // An empty line after the end of a chunked body is not body data
+            return Ok(());
+        }
         if treat_response_line_as_body(&data) {
             // Interpret remaining bytes as body data
             htp_warn!(
-- 
2.43.0


From 157c32a4db30e6b6fb4cb03758adf18da2ecf2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:46 +0000
Subject: [PATCH 06/46] fix: end response lines and headers at the same byte
 wherever the packets are cut

---
 src/headers.rs  | 15 +++++++++++++--
 src/response.rs | 21 +++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8bd193e..629305f 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -453,6 +453,17 @@ impl Parser {
         move |input| alt((complete(self.header_with_colon()), self.header_sans_colon()))(input)
     }
 
+    /// Parse the end of line that terminates the headers
+    fn eoh(&self) -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> + '_ {
+        move |input| {
+            // A CR may be the first half of a CRLF
+            if !self.complete && input == b"\r" {
+                return Err(Incomplete(Needed::new(1)));
+            }
+            self.complete_eol_regular()(input)
+        }
+    }
+
     /// Parse multiple headers and indicate if end of headers or null was found
     pub fn headers(&self) -> impl Fn(&[u8]) -> IResult<&[u8], ParsedHeaders> + '_ {
         move |input| {
@@ -463,7 +474,7 @@ impl Parser {
             if is_null_terminated {
                 return Ok((rest, (out, true)));
             }
-            if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+            if let Ok((rest, _eoh)) = self.eoh()(rest) {
                 return Ok((rest, (out, true)));
             }
             let mut i = rest;
@@ -477,7 +488,7 @@ impl Parser {
                         if is_null_terminated {
                             return Ok((rest, (out, true)));
                         }
-                        if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+                        if let Ok((rest, _eoh)) = self.eoh()(rest) {
                             return Ok((rest, (out, true)));
                         }
                     }
diff --git a/src/response.rs b/src/response.rs
index 2bca328..9cf34ce 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -649,6 +649,27 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
+        if matches!(self.response_buf.last(), Some(b'\r') | Some(b'\n')) {
+            // The line ending was left in the buffer because it depended on the next byte
+            let mut data = self.response_buf.clone();
+            data.add(input.as_slice());
+            if let Ok((_, (line, _))) = take_till_eol(data.as_slice()) {
+                let buffered = take(&mut self.response_buf);
+                if line.len() >= buffered.len() {
+                    self.response_data_consume(input, line.len() - buffered.len());
+                    return self.response_line_complete(line, input);
+                }
+                // What follows the line ending belongs to the next line
+                let rc = self.response_line_complete(line, input);
+                let rest = Bstr::from(&buffered[line.len()..]);
+                if self.response_state == State::HEADERS {
+                    self.response_header = Some(rest);
+                } else {
+                    self.response_buf = rest;
+                }
+                return rc;
+            }
+        }
         match take_till_eol(input.as_slice()) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
-- 
2.43.0


From db4f03a6e329d829ad9641b16f4ac5b76de87b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:40 +0000
Subject: [PATCH 07/46] fix: keep the first byte of a gzip header field that is
 split across packets

---
 src/decompressors.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..959995c 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -459,11 +459,13 @@ impl Write for GzipBufWriter {
         const FNAME: u8 = 1 << 3;
         const FCOMMENT: u8 = 1 << 4;
 
-        let (mut parse, direct) = if !self.buffer.is_empty() && self.state == GzState::Start {
-            self.buffer.extend_from_slice(data);
-            (self.buffer.as_ref(), false)
+        // Bytes of an incomplete fixed-size field left over from the previous call.
+        let mut buffered = std::mem::take(&mut self.buffer);
+        let mut parse = if buffered.is_empty() {
+            data
         } else {
-            (data, true)
+            buffered.extend_from_slice(data);
+            buffered.as_slice()
         };
 
         loop {
@@ -475,9 +477,7 @@ impl Write for GzipBufWriter {
                         self.state = GzState::Xlen;
                     }
                     Err(nom::Err::Incomplete(_)) => {
-                        if direct {
-                            self.buffer.extend_from_slice(data);
-                        }
+                        self.buffer.extend_from_slice(parse);
                         return Ok(data.len());
                     }
                     Err(_) => {
@@ -495,6 +495,11 @@ impl Write for GzipBufWriter {
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if parse.len() >= data.len() {
+                                    // Not even one byte could be consumed.
+                                    self.buffer.extend_from_slice(parse);
+                                    return Ok(data.len());
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
@@ -570,6 +575,11 @@ impl Write for GzipBufWriter {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if parse.len() >= data.len() {
+                                    // Not even one byte could be consumed.
+                                    self.buffer.extend_from_slice(parse);
+                                    return Ok(data.len());
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
-- 
2.43.0


From 801ce4d7033e038482c2d00c5621db5216414393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:28 +0000
Subject: [PATCH 08/46] fix: end the raw header data of an interim response
 with its header section

---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 9cf34ce..3fae385 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -463,6 +463,8 @@ impl ConnectionParser {
                             "Already seen 100-Continue."
                         );
                     }
+                    // The header data of the interim response ends here.
+                    self.response_receiver_finalize_clear(input)?;
                     // Expecting to see another response line next.
                     self.response_state = State::LINE;
                     let response_tx = self.response_mut().unwrap();
-- 
2.43.0


From 5fd3ea8ba8225e0c15942cc9e72ae1e1a39a48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:36 +0000
Subject: [PATCH 09/46] fix: recognise a leading response gap by the index of
 the response

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 3fae385..345e578 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1565,7 +1565,7 @@ impl ConnectionParser {
         }
         if chunk.is_gap() {
             // Mark the transaction as having a gap
-            let idx = self.request_index();
+            let idx = self.response_index();
             let resp = self.response_mut();
             if resp.is_none() {
                 self.response_status = HtpStreamState::ERROR;
-- 
2.43.0


From d8fb80a5dfdd51ab67164bc8b73299518f38a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:14 +0000
Subject: [PATCH 10/46] fix: count only lzma layers against the lzma layer
 limit of a request

---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index bec20a6..0449e9e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1156,6 +1156,7 @@ impl ConnectionParser {
                 if slow_path {
                     if let Some(ce) = &ce {
                         let mut layers = 0;
+                        let mut lzma_layers = 0;
                         for encoding in ce.split(|c| *c == b',' || *c == b' ') {
                             if encoding.is_empty() {
                                 continue;
@@ -1198,9 +1199,10 @@ impl ConnectionParser {
                                 }
                                 HtpContentEncoding::DEFLATE
                             } else if encoding.cmp_slice(b"lzma") == Ordering::Equal {
+                                lzma_layers += 1;
                                 if let Some(limit) = compression_options.get_lzma_layers() {
                                     // LZMA decompression layer depth check
-                                    if layers > limit {
+                                    if lzma_layers > limit {
                                         htp_warn!(
                                             self.logger,
                                             HtpLogCode::REQUEST_TOO_MANY_LZMA_LAYERS,
-- 
2.43.0


From c601f3777923cf59871c79cb87f83760235cb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:48 +0000
Subject: [PATCH 11/46] fix: honour a stop or error answered by a request start
 callback

---
 src/request.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 0449e9e..3187858 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1434,9 +1434,7 @@ impl ConnectionParser {
         }
         self.request_reset();
         // Change state to TRANSACTION_START
-        // Ignore the result.
-        let _ = self.state_request_start();
-        Ok(())
+        self.state_request_start()
     }
 
     /// Buffer incomplete request data and verify that field_limit
-- 
2.43.0


From 0e2648e999e87809eb49c75ac038e20281b83a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:14 +0000
Subject: [PATCH 12/46] fix: account for a gap in a response body that ends
 with the connection

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 345e578..35f8b81 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -343,8 +343,12 @@ impl ConnectionParser {
             if resp.is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let mut tx_data = Data::new(resp.unwrap(), data);
+            let resp = resp.unwrap();
+            resp.response_message_len = resp.response_message_len.wrapping_add(data.len() as u64);
+            let mut tx_data = Data::new(resp, data);
             self.response_run_hook_body_data(&mut tx_data)?;
+            // Adjust the counters.
+            self.response_data_consume(data, data.len());
         } else if !data.is_empty() {
             // Consume all data from the input buffer.
             self.response_body_data(data.data())?;
-- 
2.43.0


From 6f44193dd270afc7ce05119800302af3a6b299c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:34 +0000
Subject: [PATCH 13/46] fix: mark folded header fields, so that a folded
 Content-Length is reported

---
 src/request.rs  | 3 +++
 src/response.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 3187858..d490ca9 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -773,6 +773,9 @@ impl ConnectionParser {
             for h in headers {
                 let mut flags = 0;
                 let name_flags = h.name.flags;
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 // Ignore LWS after field-name.
                 if name_flags.is_set(HeaderFlags::NAME_TRAILING_WHITESPACE) {
                     // Log only once per transaction.
diff --git a/src/response.rs b/src/response.rs
index 35f8b81..acacf93 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -834,6 +834,9 @@ impl ConnectionParser {
                 let mut flags = 0;
                 let name_flags = &h.name.flags;
                 let value_flags = &h.value.flags;
+                if value_flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 if value_flags.is_set(HeaderFlags::DEFORMED_EOL)
                     || name_flags.is_set(HeaderFlags::DEFORMED_EOL)
                 {
-- 
2.43.0


From b32ac12c154db9b30e49a32ec476ba4669dd0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:55 +0000
Subject: [PATCH 14/46] fix: tell a header field with an empty name from one
 without a colon

---
 src/request.rs  | 2 +-
 src/response.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index d490ca9..0693ff9 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -815,7 +815,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index acacf93..05f8379 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -882,7 +882,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From d3f48ee56bc39be8c52e97dabbdcfbe0d1fb94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 15/46] fix: decode a zlib body announced as deflate when its
 first bytes are split across packets

---
 src/decompressors.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 959995c..753932c 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -6,6 +6,10 @@ use std::{
 /// Buffer compression output to this chunk size.
 const ENCODING_CHUNK_SIZE: usize = 8192;
 
+/// Number of bytes of a deflate stream to keep for a restart. A zlib stream looks
+/// like a stored deflate block until the five bytes of the block header are seen.
+const REPLAY_LIMIT: usize = 5;
+
 /// Default LZMA dictionary memory limit in bytes.
 const DEFAULT_LZMA_MEMLIMIT: usize = 1_048_576;
 /// Default number of LZMA layers to pass to the decompressor.
@@ -704,6 +708,10 @@ struct InnerDecompressor {
     passthrough: bool,
     /// Tracks the number of restarts
     restarts: u8,
+    /// The first bytes given to a deflate writer, kept until it produces output
+    /// or accepts more than `REPLAY_LIMIT` bytes, so that they can be given to
+    /// the next writer on a restart.
+    replay: Option<Vec<u8>>,
     /// Options for decompression
     options: Options,
 }
@@ -759,10 +767,24 @@ impl InnerDecompressor {
             writer: Some(writer),
             passthrough,
             restarts: 0,
+            replay: Some(Vec::new()),
             options,
         })
     }
 
+    /// Keeps the first bytes accepted by a deflate writer for a possible restart.
+    fn remember(&mut self, data: &[u8]) {
+        if self.encoding != HtpContentEncoding::DEFLATE {
+            return;
+        }
+        if let Some(mut replay) = self.replay.take() {
+            if replay.len() + data.len() <= REPLAY_LIMIT {
+                replay.extend_from_slice(data);
+                self.replay = Some(replay);
+            }
+        }
+    }
+
     /// Tries to pass data to the callback instead of calling the writers.
     ///
     /// This will set passthrough mode on success or revert on error.
@@ -791,6 +813,9 @@ impl InnerDecompressor {
                 // Flush all of the bytes the writer has written to our temporary
                 // buffer of fixed size.
                 if let Some(cursor) = writer.get_mut() {
+                    if cursor.position() > 0 {
+                        self.replay = None;
+                    }
                     inner.write_all(&cursor.get_ref()[0..cursor.position() as usize])?;
                     cursor.set_position(0);
                 }
@@ -844,6 +869,7 @@ impl Write for InnerDecompressor {
                         // we pretend to have consumed this data.
                         Ok(data.len())
                     } else {
+                        self.remember(&data[..consumed]);
                         Ok(consumed)
                     };
                     self.writer.replace(writer);
@@ -861,11 +887,16 @@ impl Write for InnerDecompressor {
                         _ => {
                             // try to restart, any data in the temp buffer will be
                             // discarded
+                            let replay = self.replay.replace(Vec::new()).unwrap_or_default();
                             if self.restart().is_err() {
+                                if !replay.is_empty() {
+                                    self.try_passthrough(&replay)?;
+                                }
                                 self.try_passthrough(data)
                             } else {
                                 // Recursion: restart will fail after a small
                                 // number of attempts
+                                self.write_all(&replay)?;
                                 self.write(data)
                             }
                         }
-- 
2.43.0


From ec42da13e5707511b294caad97b15565562e401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:23 +0000
Subject: [PATCH 16/46] fix: do not let a response end the body of a later
 request that it does not answer

---
 src/response.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/response.rs b/src/response.rs
index 05f8379..c378f52 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -484,6 +484,7 @@ impl ConnectionParser {
         // before sending its body cf
         // https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Expect
         else if response_tx.response_status_number.in_range(400, 499)
+            && self.request_index() == self.response_index()
             && self.request_content_length > Some(0)
             && self.request_body_data_left == self.request_content_length
         {
-- 
2.43.0


From 4efd2d8a6deaa37aab0a2e4207275e0b18673b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:58 +0000
Subject: [PATCH 17/46] fix: keep pairing requests and responses when a
 response without a request arrives during a request

---
 src/response.rs     |  5 ++++-
 src/transactions.rs | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index c378f52..970ac9b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1498,7 +1498,10 @@ impl ConnectionParser {
             tx.request_uri = uri.path.clone();
             tx.parsed_uri = Some(uri);
             tx.request_progress = HtpRequestProgress::COMPLETE;
-            self.request_next();
+            // An earlier request may still be in progress, it stays current.
+            if self.request_index() == self.response_index() {
+                self.request_next();
+            }
         }
         self.response_content_length = None;
         self.response_body_data_left = None;
diff --git a/src/transactions.rs b/src/transactions.rs
index 45a8893..45aed79 100644
--- a/src/transactions.rs
+++ b/src/transactions.rs
@@ -1,4 +1,8 @@
-use crate::{config::Config, log::Logger, transaction::Transaction};
+use crate::{
+    config::Config,
+    log::Logger,
+    transaction::{HtpRequestProgress, Transaction},
+};
 use std::collections::btree_map::Entry;
 use std::collections::BTreeMap;
 use std::rc::Rc;
@@ -109,6 +113,16 @@ impl Transactions {
     pub fn request_next(&mut self) -> usize {
         self.check_free(self.request);
         self.request = self.request.wrapping_add(1);
+        // Responses seen while the previous request was still in progress have
+        // taken the transactions up to the current response.
+        if self.request < self.response {
+            self.request = self.response;
+        }
+        if let Some(tx) = self.transactions.get(&self.request) {
+            if tx.request_progress == HtpRequestProgress::COMPLETE {
+                self.request = self.request.wrapping_add(1);
+            }
+        }
         self.request
     }
 
-- 
2.43.0


From f9f4a34c3159b279078d9e0ee1b883b1a22f43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:28 +0000
Subject: [PATCH 18/46] fix: report the completion of a transaction only once

---
 src/connection_parser.rs | 8 +++++---
 src/transaction.rs       | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..baa2160 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -793,10 +793,11 @@ impl ConnectionParser {
 
     /// Determine if the transaction is complete and run any hooks.
     fn finalize(&mut self, tx_index: usize) -> Result<()> {
-        if let Some(tx) = self.tx(tx_index) {
-            if !tx.is_complete() {
+        if let Some(tx) = self.tx_mut(tx_index) {
+            if !tx.is_complete() || tx.is_finalized {
                 return Ok(());
             }
+            tx.is_finalized = true;
             // Disconnect transaction from the parser.
             // Run hook TRANSACTION_COMPLETE.
             self.cfg
@@ -967,7 +968,8 @@ impl ConnectionParser {
     fn flush_incomplete_transactions(&mut self) {
         let mut to_remove = Vec::<usize>::new();
         for tx in &mut self.transactions {
-            if tx.is_started() && !tx.is_complete() {
+            if tx.is_started() && !tx.is_complete() && !tx.is_finalized {
+                tx.is_finalized = true;
                 to_remove.push(tx.index);
             }
         }
diff --git a/src/transaction.rs b/src/transaction.rs
index 070c1d4..c7aee73 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -568,6 +568,8 @@ pub struct Transaction {
     pub request_header_parser: HeaderParser,
     /// Response header parser
     pub response_header_parser: HeaderParser,
+    /// Whether the completion of this transaction was already reported.
+    pub(crate) is_finalized: bool,
 }
 
 impl std::fmt::Debug for Transaction {
@@ -706,6 +708,7 @@ impl Transaction {
             response_header_repetitions: 0,
             request_header_parser: HeaderParser::new(Side::Request),
             response_header_parser: HeaderParser::new(Side::Response),
+            is_finalized: false,
         }
     }
 
-- 
2.43.0


From 126aac0338c84de70f8c5244137fb9382f4a4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:37 +0000
Subject: [PATCH 19/46] fix: resume a response that waited for the request
 without taking its next bytes as body

---
 src/connection_parser.rs | 1 +
 src/response.rs          | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index baa2160..84c0969 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -913,6 +913,7 @@ impl ConnectionParser {
             self.response_receiver_finalize_clear(input)?;
         }
         // Check if we want to signal the caller to send request data
+        self.response_state = State::FINALIZE;
         self.request_parser_check_waiting()?;
         // Otherwise finalize the transaction
         self.finalize(response_index)?;
diff --git a/src/response.rs b/src/response.rs
index 970ac9b..fffc964 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1399,7 +1399,11 @@ impl ConnectionParser {
 
     /// Finalizes response parsing.
     pub fn response_finalize(&mut self, input: &mut ParserData) -> Result<()> {
-        if input.is_gap() {
+        let complete = self
+            .response()
+            .map(|resp| resp.response_progress == HtpResponseProgress::COMPLETE)
+            .unwrap_or(false);
+        if input.is_gap() || complete {
             return self.state_response_complete(input);
         }
         let mut work = input.as_slice();
-- 
2.43.0


From aa4ca1b5a1e82146f07a927b2c094a732be39ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:32 +0000
Subject: [PATCH 20/46] fix: do not free a transaction while one of the parsers
 is still on it

---
 src/transactions.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/transactions.rs b/src/transactions.rs
index 45aed79..0713991 100644
--- a/src/transactions.rs
+++ b/src/transactions.rs
@@ -111,7 +111,6 @@ impl Transactions {
     /// May cause the previous transaction to be freed if configured to auto-destroy.
     /// Returns the new request transaction index
     pub fn request_next(&mut self) -> usize {
-        self.check_free(self.request);
         self.request = self.request.wrapping_add(1);
         // Responses seen while the previous request was still in progress have
         // taken the transactions up to the current response.
@@ -123,6 +122,7 @@ impl Transactions {
                 self.request = self.request.wrapping_add(1);
             }
         }
+        self.check_free();
         self.request
     }
 
@@ -130,20 +130,19 @@ impl Transactions {
     /// May cause the previous transaction to be freed if configured to auto-destroy.
     /// Returns the new response transaction index
     pub fn response_next(&mut self) -> usize {
-        self.check_free(self.response);
         self.response = self.response.wrapping_add(1);
+        self.check_free();
         self.response
     }
 
-    /// Check if any old transactions can be freed
-    fn check_free(&mut self, index: usize) {
+    /// Free the complete transactions, except the one that the request
+    /// or the response parser is still on.
+    fn check_free(&mut self) {
         if self.config.tx_auto_destroy {
-            if let Some(tx) = self.transactions.get(&index) {
-                if !tx.is_complete() {
-                    return;
-                }
-            }
-            self.transactions.remove(&index);
+            let (request, response) = (self.request, self.response);
+            self.transactions.retain(|index, tx| {
+                *index == request || *index == response || !tx.is_complete()
+            });
         }
     }
 
-- 
2.43.0


From 192f8e2e1b04d11f83d1b7f2f37c59467febacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:06 +0000
Subject: [PATCH 21/46] fix: deliver lzma output larger than the temporary
 buffer

---
 src/decompressors.rs | 67 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 753932c..8338811 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -666,25 +666,64 @@ impl BufWriter for ZlibBufWriter {
 }
 
 /// Simple wrapper around an lzma implementation
-struct LzmaBufWriter(lzma_rs::decompress::Stream<Cursor<Box<[u8]>>>);
+struct LzmaBufWriter {
+    /// The lzma decoder. It hands out its dictionary as a whole, which can be
+    /// larger than the temporary buffer, and it does not survive a failed write,
+    /// so its output has to be a buffer that grows.
+    stream: lzma_rs::decompress::Stream<Vec<u8>>,
+    /// Temporary buffer of fixed size.
+    buf: Cursor<Box<[u8]>>,
+}
+
+impl LzmaBufWriter {
+    /// Maximum number of bytes given to the decoder before its output is
+    /// taken, which bounds the size of that output.
+    const INPUT_CHUNK_SIZE: usize = 64;
+
+    fn new(options: &lzma_rs::decompress::Options, buf: Cursor<Box<[u8]>>) -> Self {
+        Self {
+            stream: lzma_rs::decompress::Stream::new_with_options(options, Vec::new()),
+            buf,
+        }
+    }
+
+    /// Moves the output of the decoder to the temporary buffer. Returns a
+    /// `WriteZero` error if it does not fit.
+    fn take_output(&mut self) -> std::io::Result<()> {
+        if let Some(output) = self.stream.get_output_mut() {
+            let written = self.buf.write(output)?;
+            output.drain(..written);
+            if !output.is_empty() {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::WriteZero,
+                    "temporary buffer is full",
+                ));
+            }
+        }
+        Ok(())
+    }
+}
 
 impl Write for LzmaBufWriter {
     fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
-        self.0.write(data)
+        self.take_output()?;
+        self.stream
+            .write(&data[..data.len().min(Self::INPUT_CHUNK_SIZE)])
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-        self.0.flush()
+        self.stream.flush()?;
+        self.take_output()
     }
 }
 
 impl BufWriter for LzmaBufWriter {
     fn get_mut(&mut self) -> Option<&mut Cursor<Box<[u8]>>> {
-        self.0.get_output_mut()
+        Some(&mut self.buf)
     }
 
     fn finish(self: Box<Self>) -> std::io::Result<Cursor<Box<[u8]>>> {
-        self.0.finish().map_err(|e| match e {
+        let output = self.stream.finish().map_err(|e| match e {
             lzma_rs::error::Error::IoError(e) => e,
             lzma_rs::error::Error::HeaderTooShort(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, format!("{}", e))
@@ -692,7 +731,11 @@ impl BufWriter for LzmaBufWriter {
             lzma_rs::error::Error::LzmaError(e) | lzma_rs::error::Error::XzError(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, e)
             }
-        })
+        })?;
+        let len = output.len() as u64;
+        let mut cursor = Cursor::new(output.into_boxed_slice());
+        cursor.set_position(len);
+        Ok(cursor)
     }
 }
 
@@ -736,12 +779,7 @@ impl InnerDecompressor {
             )),
             HtpContentEncoding::LZMA => {
                 if let Some(options) = options.lzma {
-                    Ok((
-                        Box::new(LzmaBufWriter(
-                            lzma_rs::decompress::Stream::new_with_options(&options, buf),
-                        )),
-                        false,
-                    ))
+                    Ok((Box::new(LzmaBufWriter::new(&options, buf)), false))
                 } else {
                     Ok((Box::new(NullBufWriter(buf)), true))
                 }
@@ -975,7 +1013,10 @@ impl Decompress for InnerDecompressor {
 
         if let Some(mut inner) = self.inner.take() {
             if let Some(output) = output {
-                inner.write_all(&output.get_ref()[..output.position() as usize])?;
+                let output = &output.get_ref()[..output.position() as usize];
+                for chunk in output.chunks(ENCODING_CHUNK_SIZE) {
+                    inner.write_all(chunk)?;
+                }
             }
             inner.finish()
         } else {
-- 
2.43.0


From 20fe41987b91982421bf6e5209dcd5bc5077c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:05 +0000
Subject: [PATCH 22/46] fix: keep the expected response status when later bytes
 of a path or parameter are unremarkable

---
 src/urlencoded.rs | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index d2d84fa..11f7cf1 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
@@ -320,13 +324,15 @@ fn path_decode_valid_hex(
         not(tag_no_case("u"))(remaining_input)?;
         let (mut left, hex) = take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit())(remaining_input)?;
         let mut flags = 0;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
-                return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
+                return Ok((b"", (byte, expected_status_code, flags, false)));
             }
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
@@ -337,7 +343,10 @@ fn path_decode_valid_hex(
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -356,7 +365,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -366,7 +375,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -434,11 +446,18 @@ fn path_parse_other(
         let (remaining_input, byte) = be_u8(i)?;
         // One non-encoded byte.
         // Did we get a raw NUL byte?
-        if byte == 0 && cfg.nul_raw_terminates {
-            // Terminate the path at the encoded NUL byte.
-            return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
+        let mut expected_status_code = HtpUnwanted::IGNORE;
+        if byte == 0 {
+            expected_status_code = cfg.nul_raw_unwanted;
+            if cfg.nul_raw_terminates {
+                // Terminate the path at the encoded NUL byte.
+                return Ok((b"", (byte, expected_status_code, 0, false)));
+            }
+        }
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
@@ -500,7 +519,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -519,7 +540,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From e40f4cfcfeb104bb58c11982177468fa28d6901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:46 +0000
Subject: [PATCH 23/46] fix: look for URI credentials in the authority only

---
 src/parsers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..6ec9a39 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    bytes::complete::{is_not, tag, tag_no_case, take_till, take_until, take_while},
     combinator::{map, not, opt, peek},
     error::ErrorKind,
     multi::many0,
@@ -137,8 +137,13 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // Authority test: two forward slash characters and it's an authority.
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
-        let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+        // The authority ends with the first slash, question mark or hash character.
+        let (input, (_, _, credentials, _)) = tuple((
+            tag("//"),
+            peek(not(tag("/"))),
+            take_till(|c| matches!(c, b'@' | b'/' | b'?' | b'#')),
+            tag("@"),
+        ))(input)?;
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From 102be26f36606132ea02ad09a636578fc130b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 24/46] fix: do not take the delimiter of an empty port or
 query for other parts of the URI

---
 src/uri.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..8f36fec 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,7 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{bytes::complete::tag, combinator::opt, sequence::tuple};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,13 +184,16 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                // The delimiter of an empty port belongs to no other part.
+                opt(tuple((hostname(), opt(port()), opt(tag(":"))))),
             ))),
             opt(path()),
             opt(query()),
+            // Nor does that of an empty query.
+            opt(tag("?")),
             opt(fragment()),
         ))(input);
-        if let Ok((_, (scheme_authority, path, query, fragment))) = res {
+        if let Ok((_, (scheme_authority, path, query, _, fragment))) = res {
             if let Some(path) = path {
                 self.path = Some(Bstr::from(path));
             }
@@ -208,7 +211,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
-- 
2.43.0


From ede3d230a1aba08e3b4d6f15cd8a33b556dddf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:08 +0000
Subject: [PATCH 25/46] fix: accept only ASCII letters and digits in host names
 and only digits in ports

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..344f249 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,8 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    // A sign is not part of a port number
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
@@ -432,7 +433,7 @@ pub fn validate_hostname(input: &[u8]) -> bool {
         // According to the RFC, an underscore it not allowed in the label, but
         // we allow it here because we think it's often seen in practice.
         if take_while_m_n::<_, _, NomError<&[u8]>>(section.len(), section.len(), |c| {
-            c == b'_' || c == b'-' || (c as char).is_alphanumeric()
+            c == b'_' || c == b'-' || c.is_ascii_alphanumeric()
         })(section)
         .is_err()
         {
-- 
2.43.0


From f6745115ed885bcd68248c07b2994935ee2c13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:51 +0000
Subject: [PATCH 26/46] fix: do not fail the stream on a request with an empty
 content type

---
 src/parsers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 6ec9a39..dfa399e 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -26,7 +26,10 @@ use nom::{
 fn content_type() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         map(
-            tuple((take_ascii_whitespace(), is_not(";, "))),
+            tuple((
+                take_ascii_whitespace(),
+                take_till(|c| matches!(c, b';' | b',' | b' ')),
+            )),
             |(_, content_type)| content_type,
         )(input)
     }
-- 
2.43.0


From 21673fbe41f2da16733d7aceb19af4cdbda1c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:37 +0000
Subject: [PATCH 27/46] fix: hold back the response while the request parser
 waits for an accepted CONNECT

---
 src/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 84c0969..dfd80d6 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -938,7 +938,7 @@ impl ConnectionParser {
         // It is not enough to check only in_status here. Because of pipelining, it's possible
         // that many inbound transactions have been processed, and that the parser is
         // waiting on a response that we have not seen yet.
-        if self.response_status == HtpStreamState::DATA_OTHER
+        if self.request_status == HtpStreamState::DATA_OTHER
             && self.response_index() == self.request_index()
         {
             return Err(HtpStatus::DATA_OTHER);
-- 
2.43.0


From ce81998aff6e5ce0b2c22ff7cfa82dadd8dd7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:37 +0000
Subject: [PATCH 28/46] fix: hold back the next response after a CONNECT
 refused with 407

---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index fffc964..e9fc792 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -392,6 +392,8 @@ impl ConnectionParser {
                 {
                     self.request_status = HtpStreamState::DATA
                 }
+                // The request that follows has to be seen before its response.
+                self.response_data_other_at_tx_end = true
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-- 
2.43.0


From 8c8f524aa6c803e1c5b87f3c871194ab4a98b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:35 +0000
Subject: [PATCH 29/46] fix: find the next response behind an empty line after
 a response

---
 src/response.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index e9fc792..85cd020 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1425,6 +1425,12 @@ impl ConnectionParser {
                     return self.handle_response_absent_lf(input);
                 }
             } else {
+                // The end of a line seen before, or an empty line, which goes with the next one.
+                if !self.response_buf.is_empty() {
+                    work = &work[..1];
+                } else if let Ok((_, line)) = take_till_lf(&work[1..]) {
+                    work = &work[..1 + line.len()];
+                }
                 self.response_data_consume(input, work.len());
             }
         }
-- 
2.43.0


From eb214da0a8d816d9125f5e15e103380c3648380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:48 +0000
Subject: [PATCH 30/46] fix: do not answer CLOSED to a gap that ends with the
 body

---
 src/request.rs  | 1 +
 src/response.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 0693ff9..eaf3fd0 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1550,6 +1550,7 @@ impl ConnectionParser {
         {
             // handle gap
             if chunk.is_gap()
+                && !chunk.is_empty()
                 && self.request_state != State::BODY_IDENTITY
                 && self.request_state != State::IGNORE_DATA_AFTER_HTTP_0_9
                 && self.request_state != State::FINALIZE
diff --git a/src/response.rs b/src/response.rs
index 85cd020..7b990ae 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1618,6 +1618,7 @@ impl ConnectionParser {
         // keep quiet here.
         {
             if chunk.is_gap()
+                && !chunk.is_empty()
                 && self.response_state != State::BODY_IDENTITY_CL_KNOWN
                 && self.response_state != State::BODY_IDENTITY_STREAM_CLOSE
                 && self.response_state != State::FINALIZE
-- 
2.43.0


From 90e7e220c3e8d856d4e1ff45b1c98edfaed66c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:13 +0000
Subject: [PATCH 31/46] fix: complete the transaction of a CONNECT whose
 refusal is ended by the connection close

---
 src/connection_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index dfd80d6..86f41df 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -947,9 +947,11 @@ impl ConnectionParser {
         // Do we have a signal to yield to inbound processing at
         // the end of the next transaction?
         if self.response_data_other_at_tx_end {
-            // We do. Let's yield then.
+            // We do. Let's yield then, unless there will be no other call.
             self.response_data_other_at_tx_end = false;
-            return Err(HtpStatus::DATA_OTHER);
+            if self.response_status != HtpStreamState::CLOSED {
+                return Err(HtpStatus::DATA_OTHER);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From ea1ccfb437ce932d5f1faeb7420c9074319c5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:13 +0000
Subject: [PATCH 32/46] fix: move the response parser on when the complete
 transaction it yielded on is removed

---
 src/connection_parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 86f41df..3399ebb 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -958,7 +958,15 @@ impl ConnectionParser {
 
     /// Remove the given transaction from the parser
     pub fn remove_tx(&mut self, tx_id: usize) {
-        self.transactions.remove(tx_id);
+        if let Some(tx) = self.transactions.remove(tx_id) {
+            // The response parser may still be on a complete transaction if it had
+            // to yield to the request parser: there is nothing left to do for it.
+            if tx.is_finalized && tx_id == self.response_index() {
+                self.response_data_other_at_tx_end = false;
+                self.response_next();
+                self.response_state = State::IDLE;
+            }
+        }
     }
 
     /// For each transaction that is started but not completed, invoke the
-- 
2.43.0


From c68a1939526dd0206c4511b097a6dd1979b8e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:44 +0000
Subject: [PATCH 33/46] fix: accept NULL in htp_connp_destroy_all as documented

---
 src/c_api/connection_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index f8d750b..7813278 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -60,7 +60,9 @@ pub unsafe extern "C" fn htp_connp_create(cfg: *mut Config) -> *mut ConnectionPa
 /// When calling this method, you have to ensure that connp is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_connp_destroy_all(connp: *mut ConnectionParser) {
-    drop(Box::from_raw(connp));
+    if !connp.is_null() {
+        drop(Box::from_raw(connp));
+    }
 }
 
 /// Returns the connection associated with the connection parser.
-- 
2.43.0


From 9e472f22962146840a30ecf6610d682f278c140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:44 +0000
Subject: [PATCH 34/46] fix: accept NULL in htp_tx_normalized_uri as documented

---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0


From 231ca6ffa181bba6369703244142c236088fedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 35/46] fix: ignore a timestamp that cannot be represented
 instead of aborting

---
 src/c_api/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index 7813278..05742d5 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -14,7 +14,7 @@ use time::{Duration, OffsetDateTime};
 /// Take seconds and microseconds and return a OffsetDateTime
 fn datetime_from_sec_usec(sec: i64, usec: i64) -> Option<OffsetDateTime> {
     match OffsetDateTime::from_unix_timestamp(sec) {
-        Ok(date) => Some(date + Duration::microseconds(usec)),
+        Ok(date) => date.checked_add(Duration::microseconds(usec)),
         Err(_) => None,
     }
 }
-- 
2.43.0


From f377ef51ed5193a181374f15b4eb14b739e2421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:40 +0000
Subject: [PATCH 36/46] fix: a parser moved in memory lets its decompressors
 call back to where it was

---
 src/connection_parser.rs | 4 ++++
 src/request.rs           | 6 ++++--
 src/response.rs          | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 3399ebb..d42ee7d 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -278,6 +278,9 @@ pub struct ConnectionParser {
     pub logger: Logger,
     /// A reference to the current parser configuration structure.
     pub cfg: Rc<Config>,
+    /// Where this parser is in memory while it hands body data to a decompressor, for the
+    /// decompressor's callback. It is set before each use, as the parser can be moved in between.
+    pub(crate) decompressor_connp: Rc<Cell<*mut ConnectionParser>>,
     /// The connection structure associated with this parser.
     pub conn: Connection,
     /// Opaque user data associated with this parser.
@@ -375,6 +378,7 @@ impl ConnectionParser {
         Self {
             logger: logger.clone(),
             cfg: Rc::clone(&cfg),
+            decompressor_connp: Rc::new(Cell::new(std::ptr::null_mut())),
             conn,
             user_data: None,
             request_status: HtpStreamState::NEW,
diff --git a/src/request.rs b/src/request.rs
index eaf3fd0..d1563db 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1009,6 +1009,8 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on success or HtpStatus::ERROR if the request transaction
     /// is invalid or response body data hook fails.
     pub fn request_body_data(&mut self, data: Option<&[u8]>) -> Result<()> {
+        let connp_ptr: *mut ConnectionParser = self;
+        self.decompressor_connp.set(connp_ptr);
         // None data is used to indicate the end of request body.
         // Keep track of body size before decompression.
         let req = self.request_mut();
@@ -1261,12 +1263,12 @@ impl ConnectionParser {
                 // the chain of writers
 
                 // TODO: fix lifetime error and remove this line!
-                let connp_ptr: *mut ConnectionParser = self as *mut ConnectionParser;
+                let connp_ptr = self.decompressor_connp.clone();
                 let decompressor = unsafe {
                     Decompressor::new_with_callback(
                         encoding,
                         Box::new(move |data: Option<&[u8]>| -> std::io::Result<usize> {
-                            (*connp_ptr).request_decompressor_callback(data)
+                            (*connp_ptr.get()).request_decompressor_callback(data)
                         }),
                         compression_options,
                     )?
diff --git a/src/response.rs b/src/response.rs
index 7b990ae..b112e53 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1071,6 +1071,8 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on success or HtpStatus::ERROR if the request transaction
     /// is invalid or response body data hook fails.
     pub fn response_body_data(&mut self, data: Option<&[u8]>) -> Result<()> {
+        let connp_ptr: *mut ConnectionParser = self;
+        self.decompressor_connp.set(connp_ptr);
         // None data is used to indicate the end of response body.
         // Keep track of body size before decompression.
         let resp = self.response_mut();
@@ -1380,12 +1382,12 @@ impl ConnectionParser {
                 // the chain of writers
 
                 // TODO: fix lifetime error and remove this line!
-                let connp_ptr = self as *mut Self;
+                let connp_ptr = self.decompressor_connp.clone();
                 let decompressor = unsafe {
                     Decompressor::new_with_callback(
                         encoding,
                         Box::new(move |data: Option<&[u8]>| -> std::io::Result<usize> {
-                            (*connp_ptr).response_decompressor_callback(data)
+                            (*connp_ptr.get()).response_decompressor_callback(data)
                         }),
                         compression_options,
                     )?
-- 
2.43.0


From 22be66cad83c9dc7463d8ff0b1da2e13d655eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:27 +0000
Subject: [PATCH 37/46] fix: a header line without a colon and its continuation
 line are read the same wherever the packets are cut

---
 src/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 629305f..08a37de 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -450,7 +450,14 @@ impl Parser {
 
     /// Parses a header name and value with, or without a colon separator
     fn header(&self) -> impl Fn(&[u8]) -> IResult<&[u8], Header> + '_ {
-        move |input| alt((complete(self.header_with_colon()), self.header_sans_colon()))(input)
+        move |input| {
+            if self.complete {
+                alt((complete(self.header_with_colon()), self.header_sans_colon()))(input)
+            } else {
+                // Do not settle for a header without a colon before the one with it is decided
+                alt((self.header_with_colon(), self.header_sans_colon()))(input)
+            }
+        }
     }
 
     /// Parse the end of line that terminates the headers
-- 
2.43.0


From a1954c8b14ca6a145b04f382c621090bee8c0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:17 +0000
Subject: [PATCH 38/46] fix: an invalid request chunk length is counted and
 logged the same wherever the packets are cut

---
 src/request.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index d1563db..860ea45 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -404,10 +404,19 @@ impl ConnectionParser {
                     continue;
                 }
                 buffered.add(line);
+                // Handle chunk length.
+                let (len, ext) = parse_chunked_length(&buffered).map_err(|e| {
+                    // Invalid chunk length
+                    htp_error!(
+                        self.logger,
+                        HtpLogCode::INVALID_REQUEST_CHUNK_LEN,
+                        "Request chunk encoding: Invalid chunk length"
+                    );
+                    e
+                })?;
+                let req = self.request_mut().unwrap();
                 req.request_message_len =
                     req.request_message_len.wrapping_add(buffered.len() as u64);
-                // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&buffered)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
-- 
2.43.0


From e8f5a5981edb67e1957cf63c17016450951a040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:17 +0000
Subject: [PATCH 39/46] fix: a deformed end of a header line is recognised
 wherever the packets are cut

---
 src/headers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 08a37de..1eb24c8 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -269,6 +269,10 @@ impl Parser {
         &self,
     ) -> impl Fn(&[u8]) -> IResult<&[u8], FoldingOrTerminator> + '_ {
         move |input| {
+            // The bytes so far may be the first half of a deformed end of line
+            if input.len() > 1 && b"\n\r\r\n\r".starts_with(input) {
+                return Err(Incomplete(Needed::new(1)));
+            }
             alt((
                 map(self.folding(), |(end, fold, flags)| {
                     ((end, flags), Some(fold))
-- 
2.43.0


From 348c5f7104c64b2045ac4f87d7d05d731a76c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:17 +0000
Subject: [PATCH 40/46] fix: wait for the end of a header name before taking
 the line for one without a colon

---
 src/headers.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 1eb24c8..9417ba7 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -376,11 +376,11 @@ impl Parser {
     fn name(&self) -> impl Fn(&[u8]) -> IResult<&[u8], Name> + '_ {
         move |input| {
             let mut terminated = false;
-            let mut offset = 0;
+            let mut offset = None;
             for i in 0..input.len() {
                 if !terminated {
                     if input[i] == b':' {
-                        offset = i;
+                        offset = Some(i);
                         break;
                     } else if input[i] == b'\n' {
                         terminated = true;
@@ -389,12 +389,16 @@ impl Parser {
                     if input[i] == b' ' {
                         terminated = false;
                     } else {
-                        offset = i - 1;
+                        offset = Some(i - 1);
                         break;
                     }
                 }
             }
-            let (name, rem) = input.split_at(offset);
+            if offset.is_none() && !self.complete {
+                // Neither a colon nor the end of the line has been seen yet
+                return Err(Incomplete(Needed::new(1)));
+            }
+            let (name, rem) = input.split_at(offset.unwrap_or(0));
             let mut flags = 0;
             if !name.is_empty() {
                 if is_space(name[0]) {
-- 
2.43.0


From d7a340a38acc5d76035d2ffd45a12c502bbc8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:36 +0000
Subject: [PATCH 41/46] fix: a gzip body announced as deflate is decompressed
 wherever the packets are cut

---
 src/decompressors.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 8338811..725a1c4 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -751,7 +751,7 @@ struct InnerDecompressor {
     passthrough: bool,
     /// Tracks the number of restarts
     restarts: u8,
-    /// The first bytes given to a deflate writer, kept until it produces output
+    /// The first bytes given to a writer, kept until it produces output
     /// or accepts more than `REPLAY_LIMIT` bytes, so that they can be given to
     /// the next writer on a restart.
     replay: Option<Vec<u8>>,
@@ -810,9 +810,9 @@ impl InnerDecompressor {
         })
     }
 
-    /// Keeps the first bytes accepted by a deflate writer for a possible restart.
+    /// Keeps the first bytes accepted by a writer for a possible restart.
     fn remember(&mut self, data: &[u8]) {
-        if self.encoding != HtpContentEncoding::DEFLATE {
+        if self.encoding == HtpContentEncoding::LZMA {
             return;
         }
         if let Some(mut replay) = self.replay.take() {
-- 
2.43.0


From 4cbe35096c02dae88a80f15eae26d16eab6eb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:48 +0000
Subject: [PATCH 42/46] fix: a status line left unfinished behind another
 response is reported at the close

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index b112e53..68097ef 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1484,7 +1484,10 @@ impl ConnectionParser {
         // new structures even if there's no more data on the
         // connection.
         if input.is_empty() {
-            return Err(HtpStatus::DATA);
+            // we may have buffered some data, if we are closing, we want to process it
+            if self.response_status != HtpStreamState::CLOSED || self.response_buf.is_empty() {
+                return Err(HtpStatus::DATA);
+            }
         }
 
         // Parsing a new response
-- 
2.43.0


From 0f6d4a287b49fa2b76c4db9b26608e50c4e1b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:58 +0000
Subject: [PATCH 43/46] fix: report the last response field when the close
 comes inside the empty line

---
 src/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 9417ba7..aacf3fb 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -214,7 +214,14 @@ impl Parser {
 
     /// Parse one null byte or complete end of line
     fn complete_null_or_eol(&self) -> impl Fn(&[u8]) -> IResult<&[u8], ParsedBytes> + '_ {
-        move |input| alt((null, self.complete_eol()))(input)
+        move |input| {
+            alt((
+                null,
+                // Nothing follows, so what could only become a deformed end of line is a regular one
+                complete(self.complete_eol_deformed()),
+                map(self.complete_eol_regular(), |eol| (eol, 0)),
+            ))(input)
+        }
     }
 
     /// Parse empty header folding as a single EOL (eol + whitespace + eol = eol)
-- 
2.43.0


From 2cb629d09ee55f340ee4c43c1ab4969e738541ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:09 +0000
Subject: [PATCH 44/46] fix: half an empty line at the close is not a response
 field

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 68097ef..2c777d2 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -996,7 +996,10 @@ impl ConnectionParser {
             resp.response_header_parser.set_complete(true);
             // Parse previous header, if any.
             if let Some(response_header) = self.response_header.take() {
-                self.parse_response_headers(response_header.as_slice())?;
+                // A lone CR is the beginning of the empty line
+                if response_header.as_slice() != b"\r" {
+                    self.parse_response_headers(response_header.as_slice())?;
+                }
             }
             // Finalize sending raw trailer data.
             self.response_receiver_finalize_clear(input)?;
-- 
2.43.0


From 504bf3ebd910233cee73536af82a7634ca6b341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:16 +0000
Subject: [PATCH 45/46] fix: an address in brackets followed by something is
 not a valid host name

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 344f249..383ba0f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -410,14 +410,15 @@ pub fn validate_hostname(input: &[u8]) -> bool {
     }
 
     // Check IPv6
-    if let Ok((_rest, (_left_br, addr, _right_br))) = tuple((
+    if let Ok((rest, (_left_br, addr, _right_br))) = tuple((
         char::<_, NomError<&[u8]>>('['),
         is_not::<_, _, NomError<&[u8]>>("#?/]"),
         char::<_, NomError<&[u8]>>(']'),
     ))(input)
     {
         if let Ok(str) = std::str::from_utf8(addr) {
-            return std::net::Ipv6Addr::from_str(str).is_ok();
+            // Nothing may follow the address
+            return rest.is_empty() && std::net::Ipv6Addr::from_str(str).is_ok();
         }
     }
 
-- 
2.43.0


From 168f3078455713ce5a8de84ebff3a74644ba9b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:29 +0000
Subject: [PATCH 46/46] fix: a line behind a complete compressed request body
 does not end the request stream in error

---
 src/request.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 860ea45..f23ded0 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1036,8 +1036,9 @@ impl ConnectionParser {
             | HtpContentEncoding::DEFLATE
             | HtpContentEncoding::ZLIB
             | HtpContentEncoding::LZMA => {
-                // Send data buffer to the decompressor if it exists
-                if req.request_decompressor.is_none() && data.is_none() {
+                // Send data buffer to the decompressor if it exists, there
+                // is none any more behind the end of the body
+                if req.request_decompressor.is_none() {
                     return Ok(());
                 }
                 let mut decompressor = req.request_decompressor.take().ok_or(HtpStatus::ERROR)?;
-- 
2.43.0


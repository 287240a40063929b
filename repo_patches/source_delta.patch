From 8500ea8cca79efc0bbb1be1b56adbf4ec1d31f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 1/8] fix: masker advances the key only by the bytes its
 endpoint accepted

---
 websocket-base/src/ws/util/mask.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..52dbdd1 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,15 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
+		let mut pos = self.pos;
 		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+			buf.push(byte ^ self.key[pos]);
+			pos = (pos + 1) % self.key.len();
 		}
-		self.end.write(&buf)
+		// only the bytes the endpoint accepted move the key forward
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From f3b604179b6d3ad3755a9c12d6702ff779f4726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 2/8] fix: blocking client uses the message limit it was given

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..199807e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From 0397c587ff8390d2d7c4d5fe04e32b9c489f413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 3/8] fix: validate the Connection header of the response, not
 of the request

---
 src/client/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 199807e..f756d17 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,12 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let upgrade = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
+		let is_upgrade = match response.headers.get::<Connection>() {
+			Some(Connection(options)) => options.contains(&upgrade),
+			None => false,
+		};
+		if !is_upgrade {
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From 33394f183cc6a78c5fe2e3fd5f3cd78085c4a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 4/8] fix: split extension parameters into name and value

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From 246596296d04400779cf764daac08d515a438bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 5/8] fix: do not preallocate an unbounded declared payload
 length

---
 websocket-base/src/dataframe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..f3d541b 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -88,7 +88,8 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		// the declared length is not bounded, so do not allocate on the strength of it
+		let mut data: Vec<u8> = Vec::new();
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From 01d628f19ebf70f3df97e43c30670981ac5ffd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 6/8] fix: report an unparsable HTTP head instead of dropping
 it silently

---
 src/codec/http.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..d9bfdd7 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -98,10 +98,6 @@ impl Decoder for HttpClientCodec {
 			Some(buf) => {
 				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
 				let res = match parse_response(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
@@ -192,10 +188,6 @@ impl Decoder for HttpServerCodec {
 			Some(buf) => {
 				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
 				let res = match parse_request(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
-- 
2.43.0


From ebe6a6755489b9720affbd540c0a8da1e4e53b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 7/8] fix: blocking receiver applies the message limits after
 the first fragment too

---
 src/receiver.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..144d8f4 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -147,6 +147,17 @@ impl ws::Receiver for Receiver {
 		};
 
 		while !finished {
+			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded count of data frames in one WebSocket message",
+				));
+			}
+			if current_message_length >= self.max_message_size as usize {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded maximum WebSocket message size",
+				));
+			}
+
 			let next = self.recv_dataframe(reader)?;
 			finished = next.finished;
 
@@ -167,19 +178,6 @@ impl ws::Receiver for Receiver {
 					));
 				}
 			}
-
-			if !finished {
-				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded count of data frames in one WebSocket message",
-					));
-				}
-				if current_message_length >= self.max_message_size as usize {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded maximum WebSocket message size",
-					));
-				}
-			}
 		}
 
 		Ok(::std::mem::replace(&mut self.buffer, Vec::new()))
-- 
2.43.0


From 0cebc1bcaac09c8285cf11c4dec7871060c55731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:21 +0000
Subject: [PATCH 8/8] fix: protocols and extensions are added although the
 header present is unparsable

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5be5a0b..11f8e2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -62,10 +62,8 @@ extern crate test;
 
 macro_rules! upsert_header {
 	($headers:expr; $header:ty;  { Some($pat:pat) => $some_match:expr,None => $default:expr }) => {{
-		if $headers.has::<$header>() {
-			if let Some($pat) = $headers.get_mut::<$header>() {
-				$some_match
-			}
+		if let Some($pat) = $headers.get_mut::<$header>() {
+			$some_match
 		} else {
 			$headers.set($default);
 		}
-- 
2.43.0


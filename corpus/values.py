M='websocket-base/src/message.rs'; S='websocket-base/src/stream.rs'; R='src/result.rs'; B='websocket-base/src/result.rs'; C='src/client/sync.rs'; W='src/sender.rs'; V='src/receiver.rs'; D='websocket-base/src/dataframe.rs'; WR='websocket-base/src/ws/receiver.rs'
U='src/server/upgrade/mod.rs'
EDITS=[
 ('b-pong-any','bug',['C25'],[(M,'if self.opcode == Type::Ping {','if self.opcode != Type::Close {')]),
 ('b-close-code','bug',['C25'],[(M,'status_code: code,\n','status_code: code & 0xfff,\n')]),
 ('b-ctrl','bug',['C25'],[(M,'			OwnedMessage::Pong(_) => true,\n			_ => false,\n		}\n	}\n\n	/// Checks if this message is a data','			_ => false,\n		}\n	}\n\n	/// Checks if this message is a data')]),
 ('b-swap-pp','bug',['C25'],[(M,'OwnedMessage::Ping(data) => Message::ping(data),','OwnedMessage::Ping(data) => Message::pong(data),')]),
 ('b-resv','bug',['C25'],[(D,'			reserved: [false; 3],\n			opcode,','			reserved: [false, false, !finished],\n			opcode,')]),
 ('b-closedata','bug',['C25'],[(M,'buf.write_u16::<BigEndian>(self.status_code)?;','buf.write_u16::<byteorder::LittleEndian>(self.status_code)?;')]),
 ('b-eof','bug',['C26'],[(B,'err.kind() == io::ErrorKind::UnexpectedEof','err.kind() == io::ErrorKind::UnexpectedEof || err.kind() == io::ErrorKind::ConnectionReset')]),
 ('b-src','bug',['C26'],[(R,'WebSocketOtherError::UrlError(ref error) => Some(error),\n','')]),
 ('b-tls','bug',['C26'],[(R,'TlsHandshakeError::WouldBlock(_) => WebSocketOtherError::TlsHandshakeInterruption','TlsHandshakeError::WouldBlock(_) => WebSocketOtherError::TlsHandshakeFailure')]),
 ('b-msg','bug',['C26'],[(R,'NoSecWsKeyHeader => ProtocolError("Missing Sec-WebSocket-Key header")','NoSecWsKeyHeader => ProtocolError("Missing Upgrade WebSocket header")')]),
 ('b-io','bug',['C26'],[(R,'HttpCodecError::Io(e) => WebSocketOtherError::IoError(e)','HttpCodecError::Io(e) => WebSocketOtherError::IoError(io::Error::new(io::ErrorKind::Other, e.to_string()))')]),
 ('b-iter','bug',['C30'],[(WR,'Some(self.inner.recv_message(self.reader))','self.inner.recv_message(self.reader).ok().map(Ok)')]),
 ('b-iter2','bug',['C30'],[(WR,'Some(self.inner.recv_dataframe(self.reader))','match self.inner.recv_dataframe(self.reader) { Err(crate::result::WebSocketError::NoDataAvailable) => None, r => Some(r) }')]),
 ('b-iter3','bug',['C30'],[('src/server/sync.rs','	type Item = AcceptResult<TcpStream>;\n\n	fn next(&mut self) -> Option<<Self as Iterator>::Item> {\n		Some(self.accept())','	type Item = AcceptResult<TcpStream>;\n\n	fn next(&mut self) -> Option<<Self as Iterator>::Item> {\n		match self.accept() { Err(_) => Some(self.accept()), r => Some(r) }')]),
 ('b-shut','bug',['C27'],[(W,'self.stream.as_tcp().shutdown(Shutdown::Both)','self.stream.as_tcp().shutdown(Shutdown::Write)')]),
 ('b-shut2','bug',['C27'],[(V,'self.stream.get_ref().as_tcp().shutdown(Shutdown::Read)','self.stream.get_ref().as_tcp().shutdown(Shutdown::Both)')]),
 ('b-flush','bug',['C27'],[(S,'	fn flush(&mut self) -> io::Result<()> {\n		self.1.flush()','	fn flush(&mut self) -> io::Result<()> {\n		Ok(())')]),
 ('b-ashut','bug',['C27'],[(S,'self.1.shutdown()','Ok(futures::Async::Ready(()))')]),
 ('b-nodelay','bug',['C27'],[(C,'set_nodelay(nodelay)','set_nodelay(!nodelay)')]),
 ('b-split','bug',['C27'],[(C,'stream: BufReader::from_parts(read, buf, pos, cap)','stream: BufReader::from_parts(read, buf, cap, cap)')]),
 ('b-split2','bug',['C27'],[(C,'				sender: self.sender,\n','				sender: Sender::new(true),\n')]),
 ('s-iter','same',[],[(WR,'Some(self.inner.recv_message(self.reader))','let r = self.inner.recv_message(self.reader); Some(r)')]),
 ('s-as','same',[],[(C,'		self.stream.get_ref().as_tcp().set_nodelay(nodelay)','		let tcp = self.stream.get_ref().as_tcp();\n		let r = tcp.set_nodelay(nodelay);\n		r')]),
 ('s-split','same',[],[(S,'self.try_clone().map(|s| (s, self))','let s = self.try_clone()?;\n		Ok((s, self))')]),
 ('s-from','same',[],[(B,'		if err.kind() == io::ErrorKind::UnexpectedEof {\n			return WebSocketError::NoDataAvailable;\n		}\n		WebSocketError::IoError(err)','		match err.kind() { io::ErrorKind::UnexpectedEof => WebSocketError::NoDataAvailable, _ => WebSocketError::IoError(err) }')]),
 ('s-src','same',[],[(B,'		match *self {\n			WebSocketError::IoError(ref error) => Some(error),','		match *self {\n			WebSocketError::NoDataAvailable => None,\n			WebSocketError::IoError(ref error) => Some(error),')]),
 ('s-pred','same',[],[(M,'	pub fn is_data(&self) -> bool {\n		!self.is_control()','	pub fn is_data(&self) -> bool {\n		match self { OwnedMessage::Text(_) | OwnedMessage::Binary(_) => true, _ => false }')]),
 ('s-pred2','same',[],[(M,'	pub fn is_ping(&self) -> bool {\n		match *self {\n			OwnedMessage::Ping(_) => true,\n			_ => false,\n		}','	pub fn is_ping(&self) -> bool {\n		matches!(self, OwnedMessage::Ping(_))')]),
 ('s-cl','same',[],[(M,'		for i in self.reason.as_bytes().iter() {\n			buf.push(*i);\n		}\n','		buf.extend_from_slice(self.reason.as_bytes());\n')]),
 ('s-conv','same',[],[(M,'				let convert = String::from_utf8_lossy(&message.payload).into_owned();\n				OwnedMessage::Text(convert)','				OwnedMessage::Text(lossy(&message.payload))'),(M,'impl From<String> for OwnedMessage {','fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }\nimpl From<String> for OwnedMessage {')]),
 ('s-conv2','same',[],[(M,'				let convert = String::from_utf8_lossy(&message.payload).into_owned();\n				OwnedMessage::Text(convert)','				let convert = match String::from_utf8(message.payload.into_owned()) { Ok(s) => s, Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned() };\n				OwnedMessage::Text(convert)')]),
]

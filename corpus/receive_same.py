R='src/receiver.rs'; W='websocket-base/src/codec/ws.rs'; M='websocket-base/src/message.rs'; D='websocket-base/src/dataframe.rs'; T='websocket-base/src/ws/dataframe.rs'; H='websocket-base/src/ws/util/header.rs'; K='websocket-base/src/ws/util/mod.rs'
EDITS=[
 ('s-r-helper','same',[],[(R,'			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {\n				return Err(WebSocketError::ProtocolError(\n					"Exceeded count of data frames in one WebSocket message",\n				));\n			}\n			if current_message_length >= self.max_message_size as usize {\n				return Err(WebSocketError::ProtocolError(\n					"Exceeded maximum WebSocket message size",\n				));\n			}\n','			self.check_limits(current_message_length)?;\n'),
   (R,'impl ws::Receiver for Receiver {','impl Receiver {\n fn check_limits(&self, len: usize) -> WebSocketResult<()> {\n if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {\n return Err(WebSocketError::ProtocolError("Exceeded count of data frames in one WebSocket message"));\n }\n if len >= self.max_message_size as usize {\n return Err(WebSocketError::ProtocolError("Exceeded maximum WebSocket message size"));\n }\n Ok(())\n }\n}\n\nimpl ws::Receiver for Receiver {')]),
 ('s-r-if','same',[],[(R,'match next.opcode as u8 {','let code = next.opcode as u8;\n if code >= 8 { return Ok(vec![next]); }\n match code {'),(R,'				// Control frame\n				8..=15 => {\n					return Ok(vec![next]);\n				}\n','')]),
 ('s-r-fold','same',[],[(R,'self.buffer.iter().map(|x|x.data.len()).sum()','self.buffer.iter().fold(0, |n, x| n + x.data.len())')]),
 ('s-r-for','same',[],[(R,'let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();','let mut current_message_length : usize = 0;\n for f in &self.buffer { current_message_length += f.data.len(); }')]),
 ('s-r-take','same',[],[(R,'Ok(::std::mem::replace(&mut self.buffer, Vec::new()))','Ok(::std::mem::take(&mut self.buffer))')]),
 ('s-r-drain','same',[],[(R,'Ok(::std::mem::replace(&mut self.buffer, Vec::new()))','Ok(self.buffer.drain(..).collect())')]),
 ('s-w-loop','same',[],[(W,'while let Some(frame) = self.dataframe_codec.decode(src)? {','loop {\n let frame = match self.dataframe_codec.decode(src)? { Some(f) => f, None => break };')]),
 ('s-w-take','same',[],[(W,'let buffer = mem::replace(&mut self.buffer, Vec::new());\n				return Ok(Some(OwnedMessage::from_dataframes(buffer)?));','let frames = mem::take(&mut self.buffer);\n let m = OwnedMessage::from_dataframes(frames)?;\n return Ok(Some(m));')]),
 ('s-w-else','same',[],[(W,'			} else {\n				if self.buffer.len() >=','			}\n			{\n				if self.buffer.len() >=')]),
 ('s-w-split','same',[],[(W,'if header.len + bytes_read > src.len() as u64 {\n			return Ok(None);\n		}','let needed = header.len + bytes_read;\n if (src.len() as u64) < needed { return Ok(None); }')]),
 ('s-w-advance','same',[],[(W,'let _ = src.split_to(bytes_read as usize);\n','src.advance(bytes_read as usize);\n'),(W,'use self::bytes::BufMut;','use self::bytes::BufMut;\nuse self::bytes::Buf;')]),
]

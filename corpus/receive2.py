RV='src/receiver.rs'; CO='websocket-base/src/codec/ws.rs'; MS='websocket-base/src/message.rs'; DF='websocket-base/src/dataframe.rs'
UTF='''		if opcode == Some(Opcode::Text) {
			if let Err(e) = from_utf8(data.as_slice()) {
				return Err(e.into());
			}
		}
'''
APP='''			data.append(&mut dataframe.take_payload());
'''
CLOSE='''				if !data.is_empty() {
					let status_code = (&data[..]).read_u16::<BigEndian>()?;
					let reason = bytes_to_string(&data[2..])?;
					Message::close_because(status_code, reason)
				} else {
					Message::close()
				}
'''
LIM='''		if header.len > self.max_dataframe_size as u64 {
'''
SUM='let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();'
EDITS=[
 ('b-lim-trunc','bug',['C10'],[(CO,LIM,'		if header.len as u32 > self.max_dataframe_size {\n')]),
 ('b-lim-fin','bug',['C10'],[(CO,LIM,'		if header.len > self.max_dataframe_size as u64 && header.opcode != 0 {\n')]),
 ('b-lim-ge','bug',['C10'],[(CO,LIM,'		if header.len >= self.max_dataframe_size as u64 {\n')]),
 ('b-lim-late','bug',['C10'],[(CO,LIM,'		if header.len > self.max_dataframe_size as u64 && src.len() > bytes_read as usize {\n')]),
 ('b-lim-zero','bug',['C10'],[(CO,LIM,'		if self.max_dataframe_size > 0 && header.len > self.max_dataframe_size as u64 {\n')]),
 ('b-wrap-new','bug',['C11'],[(CO,'		let max_dataframe_size: u32 = max_dataframe_size.min(u32::MAX as usize) as u32;','		let max_dataframe_size: u32 = max_dataframe_size as u32;')]),
 ('b-wrap-msg','bug',['C11'],[(RV,'		let max_message_size: u32 = max_message_size.min(u32::MAX as usize) as u32;','		let max_message_size: u32 = max_message_size as u32;')]),
 ('b-wait-trunc','bug',['C12'],[(CO,'header.len + bytes_read > src.len() as u64','(header.len + bytes_read) as u32 > src.len() as u32')]),
 ('b-wait-hdr','bug',['C12'],[(CO,'				Err(e) => return Err(e),\n			};\n\n			(header','				Err(_) if src.len() < 2 => return Ok(None),\n				Err(WebSocketError::DataFrameError(_)) if src.len() < 14 => return Ok(None),\n				Err(e) => return Err(e),\n			};\n\n			(header')]),
 ('b-first-outside','bug',['C08'],[(CO,'		while let Some(frame) = self.dataframe_codec.decode(src)? {\n			let is_first = self.buffer.is_empty();','		let is_first = self.buffer.is_empty();\n		while let Some(frame) = self.dataframe_codec.decode(src)? {')]),
 ('b-sum-len','bug',['C10'],[(CO,SUM,'let mut current_message_length : usize = self.buffer.len();')]),
 ('b-sum-last','bug',['C10'],[(RV,SUM,'let mut current_message_length : usize = self.buffer.last().map(|x| x.data.len()).unwrap_or(0);')]),
 ('b-first-len','bug',['C10'],[(RV,'			current_message_length += first.data.len() + PER_DATAFRAME_OVERHEAD;\n','			current_message_length += PER_DATAFRAME_OVERHEAD;\n')]),
 ('b-utf-per','bug',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if opcode == Some(Opcode::Text) {
				from_utf8(&part)?;
			}
			data.append(&mut part);
''')]),
 ('b-utf-one','bug',['C09'],[(MS,'		if opcode == Some(Opcode::Text) {\n			if let','		if opcode == Some(Opcode::Text) && data.len() != payload_size {\n			if let'),(MS,'let payload_size = frames.iter()','let payload_size: usize = frames.iter()')]),
 ('b-lossy','bug',['C09'],[(MS,CLOSE,CLOSE.replace('bytes_to_string(&data[2..])?','String::from_utf8_lossy(&data[2..]).into_owned()'))]),
 ('b-close-le','bug',['C09'],[(MS,CLOSE,CLOSE.replace('BigEndian','byteorder::LittleEndian'))]),
 ('b-close-2','bug',['C09'],[(MS,CLOSE,CLOSE.replace('!data.is_empty()','data.len() > 2'))]),
 ('b-close-trim','bug',['C09'],[(MS,CLOSE,CLOSE.replace('bytes_to_string(&data[2..])?','bytes_to_string(&data[2..])?.trim().to_string()'))]),
 ('b-ping','bug',['C09'],[(MS,'			Some(Opcode::Ping) => Message::ping(data),','			Some(Opcode::Ping) => Message::pong(data),')]),
 ('b-opcode','bug',['C09'],[(MS,'			Some(Opcode::Binary) => Message::binary(data),','			Some(Opcode::Binary) | Some(Opcode::NonControl1) => Message::binary(data),')]),
 ('b-empty','bug',['C08'],[(CO,'			if finished {\n','			if finished && !(is_first && current_message_length == PER_DATAFRAME_OVERHEAD) {\n')]),
 ('b-ctrl-data','bug',['C08'],[(CO,'				8..=15 => {\n','				8..=15 if is_first || frame.data.is_empty() => {\n')]),
 ('b-swap-keep','bug',['C08'],[(RV,'Ok(::std::mem::replace(&mut self.buffer, Vec::new()))','''{
			let rest = self.buffer.split_off(self.buffer.len().min(3));
			Ok(::std::mem::replace(&mut self.buffer, rest))
		}''')]),
 ('b-fin-prev','bug',['C08'],[(RV,'			finished = next.finished;\n','			finished = next.finished || next.data.is_empty() && self.buffer.len() > 1;\n')]),
 ('s-lim','same',['C10','C12'],[(CO,LIM,'		let limit = u64::from(self.max_dataframe_size);\n		if limit < header.len {\n')]),
 ('s-take','same',['C08','C09','C10'],[(RV,'::std::mem::replace(&mut self.buffer, Vec::new())','std::mem::take(&mut self.buffer)'),(CO,'mem::replace(&mut self.buffer, Vec::new())','mem::take(&mut self.buffer)')]),
 ('s-close-match','same',['C09','C13'],[(MS,CLOSE,'''				match data.len() {
					0 => Message::close(),
					1 => return Err(WebSocketError::NoDataAvailable),
					_ => Message::close_because(u16::from_be_bytes([data[0], data[1]]), bytes_to_string(&data[2..])?),
				}
''')]),
 ('s-close-split','same',['C09','C13'],[(MS,CLOSE,'''				if data.is_empty() {
					Message::close()
				} else {
					let mut code = &data[..];
					let status_code = code.read_u16::<BigEndian>()?;
					Message::close_because(status_code, bytes_to_string(code)?)
				}
''')]),
 ('s-utf-map','same',['C09','C13'],[(MS,UTF,'''		if let Some(Opcode::Text) = opcode {
			from_utf8(&data)?;
		}
''')]),
 ('s-extend','same',['C09','C13'],[(MS,APP,'''			data.extend(dataframe.take_payload());
''')]),
 ('s-sum-fold','same',['C10','C08'],[(RV,SUM,'let mut current_message_length = self.buffer.iter().fold(0usize, |n, f| n + f.data.len());')]),
 ('s-sum-loop','same',['C10','C08'],[(CO,SUM,'''let mut current_message_length : usize = 0;
		for frame in &self.buffer {
			current_message_length += frame.data.len();
		}''')]),
]
EDITS += [
 ('s-utf-part','same',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if opcode == Some(Opcode::Text) && i > 0 && from_utf8(&part).is_err() && part.is_empty() {
				return Err(WebSocketError::ProtocolError("never"));
			}
			data.append(&mut part);
''')]),
 ('b-utf-later','bug',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if opcode == Some(Opcode::Text) && i > 0 {
				from_utf8(&part)?;
			}
			data.append(&mut part);
''')]),
 ('s-part-never','same',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if from_utf8(&part).is_err() && part.is_empty() {
				return Err(WebSocketError::ProtocolError("never"));
			}
			data.append(&mut part);
''')]),
 ('s-part-never2','same',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if i > 0 && part.len() > 5 && part.is_empty() {
				return Err(WebSocketError::ProtocolError("never"));
			}
			data.append(&mut part);
''')]),
 ('s-part-empty','same',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if !part.is_empty() {
				data.append(&mut part);
			}
''')]),
 ('b-part-len','bug',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if i > 0 && part.len() == 5 {
				return Err(WebSocketError::ProtocolError("never"));
			}
			data.append(&mut part);
''')]),
 ('b-part-drop','bug',['C09'],[(MS,APP,'''			let mut part = dataframe.take_payload();
			if part.len() != 1 || i != 2 {
				data.append(&mut part);
			}
''')]),
]

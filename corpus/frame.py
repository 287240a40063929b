HD='websocket-base/src/ws/util/header.rs'; WD='websocket-base/src/ws/dataframe.rs'; DF='websocket-base/src/dataframe.rs'; CO='websocket-base/src/codec/ws.rs'; MK='websocket-base/src/ws/util/mask.rs'
LEN2='''	writer.write_u8(
		// Write the 'MASK'
		if header.mask.is_some() { 0x80 } else { 0x00 } |
		// Write the 'Payload len'
		if header.len <= 125 { header.len as u8 }
		else if header.len <= 65535 { 126 }
		else { 127 },
	)?;

	// Write 'Extended payload length'
	if header.len >= 126 && header.len <= 65535 {
		writer.write_u16::<BigEndian>(header.len as u16)?;
	} else if header.len > 65535 {
		writer.write_u64::<BigEndian>(header.len)?;
	}
'''
RLEN='''	let len = match byte1 & 0x7F {
		0..=125 => u64::from(byte1 & 0x7F),
		126 => {
			let len = u64::from(reader.read_u16::<BigEndian>()?);
			if len <= 125 {
				return Err(WebSocketError::DataFrameError("Invalid data frame length"));
			}
			len
		}
		127 => {
			let len = reader.read_u64::<BigEndian>()?;
			if len <= 65535 {
				return Err(WebSocketError::DataFrameError("Invalid data frame length"));
			}
			len
		}
		_ => unreachable!(),
	};
'''
RMASK='''		Some([
			reader.read_u8()?,
			reader.read_u8()?,
			reader.read_u8()?,
			reader.read_u8()?,
		])'''
FLAGS='''		let mut flags = dfh::DataFrameFlags::empty();
		if self.is_last() {
			flags.insert(dfh::DataFrameFlags::FIN);
		}
		{
			let reserved = self.reserved();
			if reserved[0] {
				flags.insert(dfh::DataFrameFlags::RSV1);
			}
			if reserved[1] {
				flags.insert(dfh::DataFrameFlags::RSV2);
			}
			if reserved[2] {
				flags.insert(dfh::DataFrameFlags::RSV3);
			}
		}
'''
WRITE='''		match masking_key {
			Some(mask) => {
				let mut masker = Masker::new(mask, &mut data);
				self.write_payload(&mut masker)?
			}
			None => self.write_payload(&mut data)?,
		};
		writer.write_all(data.as_slice())?;
		Ok(())'''
SIZE='''		1
        // depending on the size of the payload, add the right payload len bytes
        + match self.size() {
            s if s <= 125 => 1,
            s if s <= 65535 => 3,
            _ => 9,
        }
        // add the mask size if there is one
        + if masked {
            4
        } else {
            0
        }
        // finally add the payload len
        + self.size()'''
MD='''	let mut out = Vec::with_capacity(data.len());
	let zip_iter = data.iter().zip(mask.iter().cycle());
	for (&buf_item, &key_item) in zip_iter {
		out.push(buf_item ^ key_item);
	}
	out'''
BODY='''		let data = match header.mask {
			Some(mask) => {
				if !should_be_masked {
					return Err(WebSocketError::DataFrameError(
						"Expected unmasked data frame",
					));
				}
				mask::mask_data(mask, &body)
			}
			None => {
				if should_be_masked {
					return Err(WebSocketError::DataFrameError("Expected masked data frame"));
				}
				body
			}
		};
'''
RDF='''		// the declared length is not bounded, so do not allocate on the strength of it
		let mut data: Vec<u8> = Vec::new();
		let read = reader.take(header.len).read_to_end(&mut data)?;
		if (read as u64) < header.len {
			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
		}
'''
DEC='''		// check if we have enough bytes to continue
		if header.len + bytes_read > src.len() as u64 {
			return Ok(None);
		}

		// TODO: using usize is not the right thing here (can be larger)
		let _ = src.split_to(bytes_read as usize);
		let body = src.split_to(header.len as usize).to_vec();
'''
ENC='''		let frame_size = item.borrow().frame_size(masked);
		if frame_size > dst.remaining_mut() {
			dst.reserve(frame_size);
		}
		item.borrow().write_to(&mut dst.writer(), masked)'''
W=['C02','C03','C07']; R=['C01','C05','C10','C12']; ALL=['C01','C02','C03','C04','C05','C06','C07','C10','C12']
EDITS=[
 # writing a header
 ('s-w-match','same',W,[(HD,LEN2,'''	let m = if header.mask.is_some() { 0x80u8 } else { 0 };
	match header.len {
		n if n < 126 => writer.write_u8(m | n as u8)?,
		n if n < 65536 => {
			writer.write_u8(m | 126)?;
			writer.write_all(&(n as u16).to_be_bytes())?;
		}
		n => {
			writer.write_u8(m + 127)?;
			writer.write_all(&n.to_be_bytes())?;
		}
	}
''')]),
 ('s-w-buffer','same',W,[(HD,LEN2,'''	let mut rest = Vec::with_capacity(9);
	rest.push(match header.len { 0..=125 => header.len as u8, 126..=65535 => 126, _ => 127 });
	if header.mask.is_some() { rest[0] |= 0x80; }
	if rest[0] & 0x7f == 126 { rest.extend_from_slice(&(header.len as u16).to_be_bytes()); }
	if rest[0] & 0x7f == 127 { rest.extend(header.len.to_be_bytes().iter()); }
	writer.write_all(&rest)?;
''')]),
 ('s-w-shifts','same',W,[(HD,LEN2,'''	let m: u8 = header.mask.map_or(0, |_| 128);
	let small = if header.len > 0xffff { 127 } else if header.len > 125 { 126 } else { header.len as u8 };
	writer.write_u8(m | small)?;
	let bytes = match small { 127 => 8, 126 => 2, _ => 0 };
	for i in (0..bytes).rev() {
		writer.write_u8((header.len >> (8 * i)) as u8)?;
	}
''')]),
 ('b-w-126','bug',['C02'],[(HD,'if header.len <= 125 { header.len as u8 }','if header.len < 125 { header.len as u8 }'),(HD,'if header.len >= 126 && header.len <= 65535','if header.len >= 125 && header.len <= 65535')]),
 ('b-w-65536','bug',['C02'],[(HD,'else if header.len <= 65535 { 126 }','else if header.len <= 65536 { 126 }'),(HD,'if header.len >= 126 && header.len <= 65535','if header.len >= 126 && header.len <= 65536'),(HD,'} else if header.len > 65535 {','} else if header.len > 65536 {')]),
 ('b-w-u32','bug',['C02'],[(HD,'writer.write_u64::<BigEndian>(header.len)?','writer.write_u64::<BigEndian>(u64::from(header.len as u32))?')]),
 ('b-w-ctrl','bug',['C02'],[(HD,'if header.opcode >= 8 && header.len >= 126 {','if header.opcode > 8 && header.len >= 126 {')]),
 ('b-w-op','bug',['C02'],[(HD,'	if header.opcode > 0xF {\n','	if header.opcode > 0x1F {\n')]),
 # reading a header
 ('s-r-nest','same',R,[(HD,RLEN,'''	let bad = || WebSocketError::DataFrameError("Invalid data frame length");
	let short = byte1 & 0x7F;
	let len = if short < 126 {
		u64::from(short)
	} else {
		let (len, least) = if short == 126 {
			(u64::from(reader.read_u16::<BigEndian>()?), 126)
		} else {
			(reader.read_u64::<BigEndian>()?, 65536)
		};
		if len < least {
			return Err(bad());
		}
		len
	};
''')]),
 ('s-r-array','same',R,[(HD,RLEN,'''	let len = match byte1 & 0x7F {
		126 => {
			let mut b = [0u8; 2];
			reader.read_exact(&mut b)?;
			u64::from(u16::from_be_bytes(b))
		}
		127 => {
			let mut b = [0u8; 8];
			reader.read_exact(&mut b)?;
			u64::from_be_bytes(b)
		}
		n => u64::from(n),
	};
	match byte1 & 0x7F {
		126 if len <= 125 => return Err(WebSocketError::DataFrameError("Invalid data frame length")),
		127 if len <= 65535 => return Err(WebSocketError::DataFrameError("Invalid data frame length")),
		_ => (),
	}
''')]),
 ('s-r-maskarr','same',R,[(HD,RMASK,'''		let mut key = [0; 4];
		reader.read_exact(&mut key)?;
		Some(key)''')]),
 ('s-r-maskloop','same',R,[(HD,RMASK,'''		let mut key = [0; 4];
		for b in key.iter_mut() { *b = reader.read_u8()?; }
		Some(key)''')]),
 ('s-r-masku32','same',R,[(HD,RMASK,'''		Some(reader.read_u32::<BigEndian>()?.to_be_bytes())''')]),
 ('b-r-masku32','bug',['C01'],[(HD,RMASK,'''		Some(reader.read_u32::<BigEndian>()?.to_le_bytes())''')]),
 ('b-r-msb','bug',['C01'],[(HD,'			let len = reader.read_u64::<BigEndian>()?;','			let len = reader.read_u64::<BigEndian>()? & 0x7fff_ffff_ffff_ffff;')]),
 ('b-r-min','bug',['C01'],[(HD,'if len <= 65535 {','if len <= 125 {')]),
 ('b-r-frag','bug',['C01'],[(HD,'if !flags.contains(DataFrameFlags::FIN) {','if !flags.contains(DataFrameFlags::FIN) && opcode <= 10 {')]),
 # sending
 ('s-flags-set','same',W,[(WD,FLAGS,'''		let reserved = self.reserved();
		let mut flags = dfh::DataFrameFlags::empty();
		flags.set(dfh::DataFrameFlags::FIN, self.is_last());
		flags.set(dfh::DataFrameFlags::RSV1, reserved[0]);
		flags.set(dfh::DataFrameFlags::RSV2, reserved[1]);
		flags.set(dfh::DataFrameFlags::RSV3, reserved[2]);
''')]),
 ('s-flags-bits','same',W,[(WD,FLAGS,'''		let r = self.reserved();
		let bits = (self.is_last() as u8) << 7 | (r[0] as u8) << 6 | (r[1] as u8) << 5 | (r[2] as u8) << 4;
		let flags = dfh::DataFrameFlags::from_bits_truncate(bits);
''')]),
 ('s-flags-loop','same',W,[(WD,FLAGS,'''		let mut flags = if self.is_last() { dfh::DataFrameFlags::FIN } else { dfh::DataFrameFlags::empty() };
		let all = [dfh::DataFrameFlags::RSV1, dfh::DataFrameFlags::RSV2, dfh::DataFrameFlags::RSV3];
		for (on, flag) in self.reserved().iter().zip(all.iter()) {
			if *on { flags |= *flag; }
		}
''')]),
 ('b-flags','bug',['C07'],[(WD,'if reserved[2] {','if reserved[2] && !reserved[1] {')]),
 ('s-write-buf','same',W+['C04'],[(WD,WRITE,'''		if let Some(mask) = masking_key {
			let mut plain = Vec::with_capacity(self.size());
			self.write_payload(&mut plain)?;
			data.extend(mask::mask_data(mask, &plain));
		} else {
			self.write_payload(&mut data)?;
		}
		writer.write_all(&data)?;
		Ok(())''')]),
 ('s-write-ret','same',W+['C04'],[(WD,WRITE,'''		let out: &mut dyn Write = &mut data;
		match masking_key {
			Some(mask) => self.write_payload(&mut Masker::new(mask, out))?,
			None => self.write_payload(out)?,
		}
		Ok(writer.write_all(&data[..])?)''')]),
 ('s-write-cap','same',W,[(WD,'let mut data = Vec::<u8>::new();','let mut data: Vec<u8> = Vec::with_capacity(self.frame_size(mask));')]),
 ('b-write-two','bug',['C03'],[(WD,'''		writer.write_all(data.as_slice())?;
		Ok(())''','''		let (head, tail) = data.split_at(2);
		writer.write_all(head)?;
		writer.write_all(tail)?;
		Ok(())''')]),
 ('s-write-loop','same',W+['C04'],[(WD,'''		writer.write_all(data.as_slice())?;
		Ok(())''','''		let mut done = 0;
		while done < data.len() {
			match writer.write(&data[done..]) { Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::WriteZero, "failed to write whole buffer").into()), Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (), Ok(n) => done += n, Err(e) => return Err(e.into()) }
		}
		Ok(())''')]),
 ('b-write-flush','bug',['C07'],[(WD,'''		writer.write_all(data.as_slice())?;
		Ok(())''','''		let mut done = 0;
		while done < data.len() {
			match writer.write(&data[done..]) { Ok(0) => break, Ok(n) => done += n, Err(e) => return Err(e.into()) }
		}
		Ok(())''')]),
 ('s-size-if','same',['C07','C12'],[(WD,SIZE,'''		let n = self.size();
		let extended = if n > 65535 { 8 } else if n > 125 { 2 } else { 0 };
		let key = if masked { 4 } else { 0 };
		2 + extended + key + n''')]),
 ('s-size-mul','same',['C07','C12'],[(WD,SIZE,'''		let n = self.size();
		n + 2 + 4 * masked as usize + match n { 0..=125 => 0, 126..=65535 => 2, _ => 8 }''')]),
 ('b-size','bug',['C07'],[(WD,'s if s <= 125 => 1,','s if s <= 126 => 1,')]),
 # masking
 ('s-mask-map','same',['C06','C04'],[(MK,MD,'''	data.iter().zip(mask.iter().cycle()).map(|(d, k)| d ^ k).collect()''')]),
 ('s-mask-enum','same',['C06','C04'],[(MK,MD,'''	data.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]).collect()''')]),
 ('s-mask-inplace','same',['C06','C04'],[(MK,MD,'''	let mut out = data.to_vec();
	for (i, b) in out.iter_mut().enumerate() {
		*b ^= mask[i & 3];
	}
	out''')]),
 ('s-mask-chunks','same',['C06','C04'],[(MK,MD,'''	let mut out = Vec::with_capacity(data.len());
	for block in data.chunks(4) {
		for (b, k) in block.iter().zip(mask.iter()) {
			out.push(b ^ k);
		}
	}
	out''')]),
 ('s-mask-chunks64','same',['C06','C04'],[(MK,MD,'''	let mut out = Vec::with_capacity(data.len());
	for block in data.chunks(64) {
		out.extend(block.iter().zip(mask.iter().cycle()).map(|(b, k)| b ^ k));
	}
	out''')]),
 ('s-mask-index','same',['C06','C04'],[(MK,MD,'''	let mut out = vec![0; data.len()];
	let mut i = 0;
	while i < data.len() {
		out[i] = data[i] ^ mask[i % mask.len()];
		i += 1;
	}
	out''')]),
 ('s-body-if','same',R,[(DF,BODY,'''		if header.mask.is_some() != should_be_masked {
			return Err(WebSocketError::DataFrameError(if should_be_masked {
				"Expected masked data frame"
			} else {
				"Expected unmasked data frame"
			}));
		}
		let data = match header.mask {
			Some(key) => mask::mask_data(key, &body),
			None => body,
		};
''')]),
 ('s-body-tuple','same',R,[(DF,BODY,'''		let data = match (header.mask, should_be_masked) {
			(Some(key), true) => mask::mask_data(key, body.as_slice()),
			(None, false) => body,
			(Some(_), false) => return Err(WebSocketError::DataFrameError("Expected unmasked data frame")),
			(None, true) => return Err(WebSocketError::DataFrameError("Expected masked data frame")),
		};
''')]),
 ('s-body-helper','same',R,[(DF,'''		let data = match header.mask {
			Some(mask) => {
				if !should_be_masked {
					return Err(WebSocketError::DataFrameError(
						"Expected unmasked data frame",
					));
				}
				mask::mask_data(mask, &body)
			}
			None => {
				if should_be_masked {
					return Err(WebSocketError::DataFrameError("Expected masked data frame"));
				}
				body
			}
		};
''','''		let data = Self::unmask(header.mask, body, should_be_masked)?;
'''),(DF,'''	/// Take the body and header of a dataframe and combine it into a single''','''	fn unmask(key: Option<[u8; 4]>, body: Vec<u8>, should_be_masked: bool) -> WebSocketResult<Vec<u8>> {
		match key {
			Some(_) if !should_be_masked => Err(WebSocketError::DataFrameError("Expected unmasked data frame")),
			None if should_be_masked => Err(WebSocketError::DataFrameError("Expected masked data frame")),
			Some(key) => Ok(mask::mask_data(key, &body)),
			None => Ok(body),
		}
	}

	/// Take the body and header of a dataframe and combine it into a single''')]),
 ('b-body-empty','bug',['C05'],[(DF,'				if should_be_masked {\n','				if should_be_masked && !body.is_empty() {\n')]),
 ('b-body-ctl','bug',['C05'],[(DF,'				if !should_be_masked {\n','				if !should_be_masked && header.opcode < 8 {\n')]),
 ('s-rdf-take','same',['C02','C05','C10'],[(DF,RDF,'''		let mut data = Vec::new();
		reader.by_ref().take(header.len).read_to_end(&mut data)?;
		if data.len() as u64 != header.len {
			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
		}
''')]),
 ('s-rdf-cap','same',['C02','C05','C10'],[(DF,RDF,'''		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(4096) as usize);
		let read = reader.take(header.len).read_to_end(&mut data)?;
		if (read as u64) < header.len {
			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
		}
''')]),
 ('b-rdf-short','bug',['C12'],[(DF,RDF,'''		let mut data: Vec<u8> = Vec::new();
		let read = reader.take(header.len).read_to_end(&mut data)?;
		if read == 0 && header.len > 0 {
			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
		}
''')]),
 # codec
 ('s-dec-one','same',['C12','C10'],[(CO,DEC,'''		let header_len = bytes_read as usize;
		let total = match (header.len as usize).checked_add(header_len) {
			Some(n) if n <= src.len() => n,
			_ => return Ok(None),
		};
		let body = src.split_to(total)[header_len..].to_vec();
''')]),
 ('s-dec-adv','same',['C12','C10'],[(CO,DEC,'''		if (src.len() as u64) < header.len + bytes_read {
			return Ok(None);
		}
		src.advance(bytes_read as usize);
		let body = Vec::from(&src.split_to(header.len as usize)[..]);
''')]),
 ('s-dec-off','same',['C12','C10'],[(CO,DEC,'''		if src.len() as u64 - bytes_read < header.len {
			return Ok(None);
		}
		let mut frame = src.split_to((bytes_read + header.len) as usize);
		let body = frame.split_off(bytes_read as usize).to_vec();
''')]),
 ('s-dec-match','same',['C12','C10'],[(CO,'''			let header = match read_header(&mut reader) {
				Ok(head) => head,
				Err(WebSocketError::NoDataAvailable) => return Ok(None),
				Err(e) => return Err(e),
			};

			(header, reader.position())''','''			match read_header(&mut reader) {
				Err(WebSocketError::NoDataAvailable) => return Ok(None),
				r => (r?, reader.position()),
			}''')]),
 ('b-dec-early','bug',['C12'],[(CO,'if header.len + bytes_read > src.len() as u64 {','if header.len + bytes_read > src.len() as u64 + (header.mask.is_some() as u64) && header.len > 0 || header.len + bytes_read > src.len() as u64 && header.len < 4096 {')]),
 ('b-dec-reserve','bug',['C12'],[(CO,'''			return Ok(None);
		}

		// TODO: using''','''			src.truncate(bytes_read as usize);
			return Ok(None);
		}

		// TODO: using''')]),
 ('s-enc-temp','same',['C12','C07','C03'],[(CO,ENC,'''		let mut out = Vec::with_capacity(item.borrow().frame_size(masked));
		item.borrow().write_to(&mut out, masked)?;
		dst.extend_from_slice(&out);
		Ok(())''')]),
 ('s-enc-reserve','same',['C12','C07','C03'],[(CO,ENC,'''		dst.reserve(item.borrow().frame_size(masked));
		item.borrow().write_to(&mut dst.writer(), masked)''')]),
 ('b-enc-cap','bug',['C07'],[(CO,ENC,'''		let frame_size = item.borrow().frame_size(masked);
		if frame_size > dst.capacity() {
			dst.reserve(frame_size);
		}
		item.borrow().write_to(&mut dst.writer(), masked)''')]),
]

X='src/header/extensions.rs'; K='src/header/key.rs'; A='src/header/accept.rs'; V='src/header/version.rs'; P='src/header/protocol.rs'; O='src/header/origin.rs'; L='websocket-base/src/header.rs'
C=['C24']
PAIR='''					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());

					Parameter {
						name: pair.next().unwrap(),
						value: pair.next(),
					}'''
FROM='''		match base64::decode(key) {
			Ok(vec) => {
				if vec.len() != 16 {
					return Err(WebSocketError::ProtocolError(
						"Sec-WebSocket-Key must be 16 bytes",
					));
				}
				let mut array = [0u8; 16];
				array[..16].clone_from_slice(&vec[..16]);
				Ok(WebSocketKey(array))
			}
			Err(_) => Err(WebSocketError::ProtocolError(
				"Invalid Sec-WebSocket-Accept",
			)),
		}'''
EXT='''		let mut ext = s.split(';').map(str::trim);
		Ok(Extension {
			name: match ext.next() {
				Some(x) => x.to_string(),
				None => return Err(WebSocketError::ProtocolError(INVALID_EXTENSION)),
			},
			params: ext
				.map(|x| {
'''+PAIR+'''
				})
				.collect(),
		})'''
FMT='''		write!(f, "{}", self.name)?;
		for param in &self.params {
			write!(f, "; {}", param)?;
		}
		Ok(())'''
PFMT='''		write!(f, "{}", self.name)?;
		if let Some(ref x) = self.value {
			write!(f, "={}", x)?;
		}
		Ok(())'''
VP='''		from_one_raw_str(raw).map(|s: String| match &s[..] {
			"13" => WebSocketVersion::WebSocket13,
			_ => WebSocketVersion::Unknown(s),
		})'''
EDITS=[
 ('b-short','bug',C,[(L,'if vec.len() != 16 {','if vec.len() < 16 {')]),
 ('b-long','bug',C,[(L,'if vec.len() != 20 {','if vec.len() < 20 {')]),
 ('b-pad','bug',C,[(L,'				if vec.len() != 16 {','				let mut vec = vec;\n				if vec.len() < 16 && vec.len() > 12 {\n					vec.resize(16, 0);\n				}\n				if vec.len() != 16 {')]),
 ('b-half','bug',C,[(L,'array[..16].clone_from_slice(&vec[..16]);','array[..15].clone_from_slice(&vec[..15]);\n				array[15] = vec[14];')]),
 ('b-rev','bug',C,[(L,'array[..20].clone_from_slice(&vec[..20]);','array[..20].clone_from_slice(&vec[..20]);\n				array[16..].reverse();')]),
 ('b-lax','bug',C,[(L,'match base64::decode(key) {','match base64::decode(key).or_else(|_| base64::decode_config(key, base64::URL_SAFE)) {')]),
 ('b-lax2','bug',C,[(L,FROM,FROM.replace('''			Err(_) =>''','''			Err(_) if key.len() == 16 => {
				let mut array = [0u8; 16];
				array.copy_from_slice(key.as_bytes());
				Ok(WebSocketKey(array))
			}
			Err(_) =>'''))]),
 ('b-ser','bug',C,[(L,'base64::encode(&accept)','base64::encode(&accept[..]).replace("+", "-")')]),
 ('b-ser2','bug',C,[(L,'''		let WebSocketKey(key) = *self;
		base64::encode(&key)''','''		let WebSocketKey(key) = *self;
		base64::encode(&key).trim_end_matches('=').to_string()''')]),
 ('b-v1','bug',C,[(V,VP,VP.replace('match &s[..] {','match s.trim() {'))]),
 ('b-v2','bug',C,[(V,VP,'''		from_one_raw_str(raw).map(|s: String| match s.parse::<u8>() {
			Ok(13) => WebSocketVersion::WebSocket13,
			_ => WebSocketVersion::Unknown(s),
		})''')]),
 ('b-v3','bug',C,[(V,VP,VP.replace('"13" =>','"13" | "13, 8" =>'))]),
 ('b-v4','bug',C,[(V,VP,'''		from_one_raw_str(raw).map(|s: String| match s.split(',').next().unwrap_or("") {
			"13" => WebSocketVersion::WebSocket13,
			_ => WebSocketVersion::Unknown(s.clone()),
		})''')]),
 ('b-v5','bug',C,[(V,'_ => WebSocketVersion::Unknown(s),','_ => WebSocketVersion::Unknown(s.to_lowercase()),')]),
 ('b-v6','bug',C,[(V,VP,'''		from_one_raw_str(raw).map(|s: String| if s.starts_with("13") {
			WebSocketVersion::WebSocket13
		} else {
			WebSocketVersion::Unknown(s)
		})''')]),
 ('b-name','bug',C,[(P,'"Sec-WebSocket-Protocol"','"Sec-WebSocket-Protocols"')]),
 ('b-name2','bug',C,[(O,'"Origin"','"Sec-WebSocket-Origin"')]),
 ('b-split-all','bug',C,[(X,"x.splitn(2, '=')","x.split('=')")]),
 ('b-rsplit','bug',C,[(X,PAIR,'''					let mut pair = x.rsplitn(2, '=').map(|x| x.trim().to_string());
					let last = pair.next().unwrap();
					match pair.next() {
						Some(name) => Parameter { name, value: Some(last) },
						None => Parameter { name: last, value: None },
					}''')]),
 ('b-empty','bug',C,[(X,'value: pair.next(),','value: pair.next().filter(|v| !v.is_empty()),')]),
 ('b-quote','bug',C,[(X,'value: pair.next(),',"value: pair.next().map(|v| v.trim_matches('\"').to_string()),")]),
 ('b-notrim','bug',C,[(X,"x.splitn(2, '=').map(|x| x.trim().to_string())","x.splitn(2, '=').map(|x| x.to_string())")]),
 ('b-noext-trim','bug',C,[(X,"s.split(';').map(str::trim)","s.split(';')")]),
 ('b-dedup','bug',C,[(X,'''				.collect(),
		})''','''				.take(1)
				.collect(),
		})''')]),
 ('b-fmt','bug',C,[(X,'write!(f, "; {}", param)?;','write!(f, ";{}", param.name)?;')]),
 ('b-fmt2','bug',C,[(X,'write!(f, "={}", x)?;','if !x.is_empty() {\n				write!(f, "={}", x)?;\n			}')]),
 ('b-fmt3','bug',C,[(X,'write!(f, "={}", x)?;','write!(f, "=\\"{}\\"", x)?;')]),
 ('b-prot1','bug',C,[(P,'from_comma_delimited(raw).map(WebSocketProtocol)','from_comma_delimited(&raw[..1]).map(WebSocketProtocol)')]),
 ('b-prot2','bug',C,[(P,'from_comma_delimited(raw).map(WebSocketProtocol)','from_comma_delimited(raw).map(|mut v: Vec<String>| { v.dedup(); WebSocketProtocol(v) })')]),
 ('s-prot3','same',C,[(P,'fmt_comma_delimited(fmt, &value[..])','write!(fmt, "{}", value.join(","))')]),
 ('b-prot4','bug',C,[(P,'fmt_comma_delimited(fmt, &value[..])','fmt_comma_delimited(fmt, &value[value.len().saturating_sub(2)..])')]),
 ('b-prot5','bug',C,[(P,'from_comma_delimited(raw).map(WebSocketProtocol)','from_comma_delimited(raw).map(|mut v: Vec<String>| { v.sort(); WebSocketProtocol(v) })')]),
 ('b-origin','bug',C,[(O,'from_one_raw_str(raw).map(Origin)','from_one_raw_str(raw).map(|s: String| Origin(s.split(\',\').next().unwrap_or("").to_string()))')]),
 ('b-origin2','bug',C,[(O,'from_one_raw_str(raw).map(Origin)','from_one_raw_str(raw).map(|s: String| Origin(s.to_lowercase()))')]),
 ('s-arr','same',C,[(L,FROM,'''		let vec = base64::decode(key).map_err(|_| WebSocketError::ProtocolError("Invalid Sec-WebSocket-Accept"))?;
		if vec.len() == 16 {
			let mut array = [0u8; 16];
			array.copy_from_slice(&vec);
			Ok(WebSocketKey(array))
		} else {
			Err(WebSocketError::ProtocolError("Sec-WebSocket-Key must be 16 bytes"))
		}''')]),
 ('s-arr2','same',C,[(L,FROM,'''		let vec = match base64::decode(key.as_bytes()) {
			Ok(vec) => vec,
			Err(_) => return Err(WebSocketError::ProtocolError("Invalid Sec-WebSocket-Accept")),
		};
		if vec.len() != 16 {
			return Err(WebSocketError::ProtocolError("Sec-WebSocket-Key must be 16 bytes"));
		}
		let mut array = [0u8; 16];
		for (to, from) in array.iter_mut().zip(vec.iter()) {
			*to = *from;
		}
		Ok(WebSocketKey(array))''')]),
 ('s-arr3','same',C,[(L,FROM,'''		use std::convert::TryFrom;
		match base64::decode(key) {
			Ok(vec) => match <[u8; 16]>::try_from(&vec[..]) {
				Ok(array) => Ok(WebSocketKey(array)),
				Err(_) => Err(WebSocketError::ProtocolError("Sec-WebSocket-Key must be 16 bytes")),
			},
			Err(_) => Err(WebSocketError::ProtocolError("Invalid Sec-WebSocket-Accept")),
		}''')]),
 ('s-ser','same',C,[(L,'''		let WebSocketKey(key) = *self;
		base64::encode(&key)''','''		base64::encode(&self.0[..])''')]),
 ('s-ver','same',C,[(V,VP,'''		let text: String = from_one_raw_str(raw)?;
		Ok(if text == "13" {
			WebSocketVersion::WebSocket13
		} else {
			WebSocketVersion::Unknown(text)
		})''')]),
 ('s-ver2','same',C,[(V,'''			WebSocketVersion::WebSocket13 => write!(f, "13"),
			WebSocketVersion::Unknown(ref value) => write!(f, "{}", value),''','''			WebSocketVersion::WebSocket13 => f.write_str("13"),
			WebSocketVersion::Unknown(ref value) => f.write_str(value),''')]),
 ('s-pair','same',C,[(X,PAIR,'''					match x.find('=') {
						Some(i) => Parameter {
							name: x[..i].trim().to_string(),
							value: Some(x[i + 1..].trim().to_string()),
						},
						None => Parameter::new(x.to_string(), None),
					}''')]),
 ('s-pair2','same',C,[(X,PAIR,'''					let mut pair = x.splitn(2, '=');
					let name = pair.next().unwrap_or("").trim().to_owned();
					let value = pair.next().map(str::trim).map(String::from);
					Parameter { name, value }''')]),
 ('s-pair3','same',C,[(X,PAIR,'''					match x.split_once('=') {
						Some((name, value)) => Parameter::new(name.trim().into(), Some(value.trim().into())),
						None => Parameter::new(x.into(), None),
					}''')]),
 ('s-ext','same',C,[(X,EXT,'''		let mut pieces = s.split(';');
		let name = pieces.next().ok_or(WebSocketError::ProtocolError(INVALID_EXTENSION))?;
		let mut extension = Extension::new(name.trim().to_string());
		for piece in pieces {
			let mut pair = piece.splitn(2, '=');
			let name = pair.next().unwrap().trim().to_string();
			let value = pair.next().map(|v| v.trim().to_string());
			extension.params.push(Parameter::new(name, value));
		}
		Ok(extension)''')]),
 ('s-ext2','same',C,[(X,EXT,'''		let pieces: Vec<&str> = s.split(';').map(|p| p.trim()).collect();
		let (name, rest) = match pieces.split_first() {
			Some(x) => x,
			None => return Err(WebSocketError::ProtocolError(INVALID_EXTENSION)),
		};
		let mut params = Vec::with_capacity(rest.len());
		for x in rest {
			let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
			params.push(Parameter {
				name: pair.next().unwrap(),
				value: pair.next(),
			});
		}
		Ok(Extension { name: name.to_string(), params })''')]),
 ('s-fmt','same',C,[(X,FMT,'''		f.write_str(&self.name)?;
		self.params.iter().try_for_each(|p| write!(f, "; {}", p))''')]),
 ('s-fmt2','same',C,[(X,PFMT,'''		match self.value {
			Some(ref x) => write!(f, "{}={}", self.name, x),
			None => write!(f, "{}", self.name),
		}''')]),
 ('s-fmt3','same',C,[(X,FMT,'''		write!(f, "{}", self.name)?;
		for i in 0..self.params.len() {
			f.write_str("; ")?;
			self.params[i].fmt(f)?;
		}
		Ok(())''')]),
 ('s-prot','same',C,[(P,'fmt_comma_delimited(fmt, &value[..])','fmt.write_str(&value.join(", "))')]),
 ('s-prot2','same',C,[(P,'''		let WebSocketProtocol(ref value) = *self;
		fmt_comma_delimited(fmt, &value[..])''','''		for (i, protocol) in self.0.iter().enumerate() {
			if i > 0 {
				fmt.write_str(", ")?;
			}
			fmt.write_str(protocol)?;
		}
		Ok(())''')]),
 ('s-prot3','same',C,[(P,'from_comma_delimited(raw).map(WebSocketProtocol)','Ok(WebSocketProtocol(from_comma_delimited(raw)?))')]),
 ('s-origin','same',C,[(O,'write!(fmt, "{}", value)','fmt.write_str(value)')]),
 ('s-origin2','same',C,[(O,'from_one_raw_str(raw).map(Origin)','match from_one_raw_str(raw) {\n			Ok(text) => Ok(Origin(text)),\n			Err(e) => Err(e),\n		}')]),
]

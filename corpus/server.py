US='src/server/upgrade/sync.rs'; UA='src/server/upgrade/async.rs'; UM='src/server/upgrade/mod.rs'; SS='src/server/sync.rs'; SA='src/server/async.rs'; C='src/client/sync.rs'
H='websocket-base/src/header.rs'; UT='websocket-base/src/ws/util/mod.rs'; HA='src/header/accept.rs'
EDITS=[
 # C15
 ('b-custom-last','bug',['C15'],[(UM,'''		if let Some(headers) = custom {
			self.headers.extend(headers.iter());
		}
''',''),(UM,'''		StatusCode::SwitchingProtocols
''','''		if let Some(headers) = custom {
			self.headers.extend(headers.iter());
		}
		StatusCode::SwitchingProtocols
''')]),
 ('b-conn-if-absent','bug',['C15'],[(UM,'''		self.headers
			.set(Connection(''','''		if !self.headers.has::<Connection>() { self.headers
			.set(Connection('''),(UM,''')]));
		self.headers
			.set(Upgrade(vec!''',''')])); }
		self.headers
			.set(Upgrade(vec!''')]),
 ('b-ignore-write','bug',['C15'],[(US,'''		if let Err(e) = self.send(status) {
			return Err((self.stream, e));
		}''','''		if let Err(e) = self.send(status) {
			if e.kind() != io::ErrorKind::Interrupted { return Err((self.stream, e)); }
		}''')]),
 ('b-version','bug',['C15'],[(UA,'''			.send(Incoming {
				version: request.version,''','''			.send(Incoming {
				version: hyper::version::HttpVersion::Http11,''')]),
 ('b-reject-headers','bug',['C15'],[(UA,'''			subject: StatusCode::BadRequest,
			headers: self.headers,''','''			subject: StatusCode::BadRequest,
			headers: Headers::new(),''')]),
 ('b-reject-101','bug',['C15'],[(US,'match self.send(StatusCode::BadRequest)','match self.send(StatusCode::Forbidden)')]),
 ('b-accept-with','bug',['C15'],[(UA,'''		self.internal_accept(Some(custom_headers))''','''		let _ = custom_headers; self.internal_accept(None)''')]),
 ('b-partial','bug',['C15'],[(UM,'self.stream.write_all(','self.stream.write(')]),
 ('b-order','bug',['C15'],[(UA,'''				headers: headers.clone(),
			})''','''				headers: request.headers.clone(),
			})''')]),
 # C16
 ('b-guid','bug',['C16'],[(H,'258EAFA5-E914-47DA-95CA-C5AB0DC85B11"','258EAFA5-E914-47DA-95CA-C5AB0DC85B12"')]),
 ('b-hash-raw','bug',['C16'],[(H,'concat_key.push_str(&serialized[..]);','concat_key.push_str(serialized.trim_end_matches(\'=\'));')]),
 ('b-text-19','bug',['C16'],[(H,'''		let WebSocketAccept(accept) = *self;
		base64::encode(&accept)''','''		let WebSocketAccept(accept) = *self;
		base64::encode(&accept[..19])''')]),
 ('b-order-guid','bug',['C16'],[(H,'''		concat_key.push_str(&serialized[..]);
		concat_key.push_str(MAGIC_GUID);''','''		concat_key.push_str(MAGIC_GUID);
		concat_key.push_str(&serialized[..]);''')]),
 # C19
 ('b-drop-buf','bug',['C19'],[(UA,'		parts.read_buf = buffer;\n		let duplex = Framed::from_parts(parts);\n\n		let future','		let _ = buffer; let duplex = Framed::from_parts(parts);\n\n		let future'),(UA,'let mut parts = FramedParts::new(stream, HttpServerCodec);','let parts = FramedParts::new(stream, HttpServerCodec);')]),
 ('b-swap-pos','bug',['C19'],[(US,'BufReader::from_parts(self.stream, buf, pos, cap)','BufReader::from_parts(self.stream, buf, cap, cap)')]),
 ('b-codec','bug',['C19'],[(UT,'	new_parts.read_buf = old_parts.read_buf;\n	new_parts.write_buf','	new_parts.write_buf')]),
 ('b-hyper','bug',['C19'],[(US,'buffer: Some(Buffer { buf, pos, cap }),\n			request','buffer: { let _ = (buf, pos, cap); None },\n			request')]),
 ('b-into','bug',['C19'],[(C,'(stream, Some((buf, pos, cap)))','(stream, if pos == 0 { None } else { Some((buf, pos, cap)) })')]),
 ('b-split-pos','bug',['C19'],[(C,'BufReader::from_parts(read, buf, pos, cap)','BufReader::from_parts(read, buf, 0, cap)')]),
 ('b-async-into','bug',['C19'],[(UA,'''				let FramedParts { io, read_buf, .. } = s.into_parts();
				if let Some(msg) = m {''','''				let FramedParts { io, mut read_buf, .. } = s.into_parts();
				read_buf.clear();
				if let Some(msg) = m {''')]),
 # C20
 ('b-no-req','bug',['C20'],[(US,'Err(e) => Err((stream, Some(request), buffer, e)),','Err(e) => { let _ = request; Err((stream, None, buffer, e)) }')]),
 ('b-srv-buf','bug',['C20'],[(SS,'''			Err((s, r, b, e)) => Err(InvalidConnection {
				stream: Some(s),
				parsed: r,
				buffer: b,
				error: e,
			}),
		}
	}

	/// Create''','''			Err((s, r, b, e)) => { let _ = b; Err(InvalidConnection {
				stream: Some(s),
				parsed: r,
				buffer: None,
				error: e,
			}) },
		}
	}

	/// Create''')]),
 ('b-aserver-stream','bug',['C20'],[(SA,'''					.map_err(|(stream, req, buf, err)| InvalidConnection {
						stream: Some(stream),''','''					.map_err(|(stream, req, buf, err)| InvalidConnection {
						stream: if req.is_some() { Some(stream) } else { None },''')]),
 ('b-async-req','bug',['C20'],[(UA,'Err(e) => Err((io, Some(msg), read_buf, e)),','Err(e) => { let _ = msg; Err((io, None, read_buf, e)) }')]),
 ('b-async-buf','bug',['C20'],[(UA,'(io, None, read_buf, e.into())','{ let _ = read_buf; (io, None, BytesMut::new(), e.into()) }')]),
 ('b-pos-cap','bug',['C20','C19'],[(US,'let buffer = Some(Buffer { buf, cap, pos });','let buffer = Some(Buffer { buf, cap: pos, pos: cap });')]),
 # C22
 ('b-serial-tls','bug',['C22'],[(SA,'''				let handshake = acceptor
					.accept(stream)''','''				acceptor
					.accept(stream)'''),(SA,'''					.and_then(move |stream| {
						stream
							.into_ws()
							.map_err(|(stream, req, buf, err)| InvalidConnection {
								stream: Some(stream),
								parsed: req,
								buffer: Some(buf),
								error: err,
							})
							.map(move |u| (u, a))
					});
				futures::future::ok(handshake)''','''					.map(move |stream| {
						stream
							.into_ws()
							.map_err(|(stream, req, buf, err)| InvalidConnection {
								stream: Some(stream),
								parsed: req,
								buffer: Some(buf),
								error: err,
							})
							.map(move |u| (u, a))
					})''')]),
 ('b-limit','bug',['C22'],[(SA,'''				futures::future::ok(handshake)
			})
			.buffer_unordered(std::usize::MAX);
		Box::new(future)
	}
}
''','''				futures::future::ok(handshake)
			})
			.buffer_unordered(1024);
		Box::new(future)
	}
}
''')]),
 ('b-ordered','bug',['C22'],[(SA,'.buffer_unordered(std::usize::MAX)','.buffered(1 << 40)')]),
 ('b-direct','bug',['C22'],[(SA,'''				futures::future::ok(handshake)
			})
			.buffer_unordered(std::usize::MAX);
		Box::new(future)
	}
}
''','''				handshake
			});
		Box::new(future)
	}
}
''')]),
 # C11 / roles
 ('b-swap','bug',['C11'],[(US,'false, true, max_dataframe_size, max_message_size))','false, true, max_message_size, max_dataframe_size))')]),
 ('b-swap2','bug',['C11'],[(UA,'self.internal_accept_with_limits(Some(custom_headers), max_dataframe_size, max_message_size)','self.internal_accept_with_limits(Some(custom_headers), max_message_size, max_dataframe_size)')]),
 ('b-default','bug',['C11'],[(UA,'const DEFAULT_MAX_MESSAGE_SIZE : usize = 1024*1024*200;','const DEFAULT_MAX_MESSAGE_SIZE : usize = 1024*1024*20;')]),
 ('b-drop-lim','bug',['C11'],[(US,'self.internal_accept_with_limits(None, max_dataframe_size, max_message_size)','self.internal_accept_with_limits(None, max_dataframe_size, DEFAULT_MAX_MESSAGE_SIZE.max(max_message_size))')]),
 ('b-role','bug',['C05'],[(US,'self.headers, false, true, max_data','self.headers, false, false, max_data')]),
 ('b-role2','bug',['C04'],[(UA,'Context::Server, max_data','Context::Client, max_data')]),
 # refactorings
 ('s-helper','same',['C15','C16','C19','C20','C11','C04','C05','C22','C14'],[(US,'''		let stream = match self.buffer {
			Some(Buffer { buf, pos, cap }) => BufReader::from_parts(self.stream, buf, pos, cap),
			None => BufReader::new(self.stream),
		};

		Ok(Client''','''		let stream = Self::reader(self.stream, self.buffer);

		Ok(Client'''),(US,'''	fn internal_accept(self,''','''	fn reader(stream: S, buffer: Option<Buffer>) -> BufReader<S> {
		if let Some(b) = buffer {
			return BufReader::from_parts(stream, b.buf, b.pos, b.cap);
		}
		BufReader::new(stream)
	}

	fn internal_accept(self,''')]),
 ('s-set-order','same',['C15','C16'],[(UM,'''		self.headers.set(WebSocketAccept::new(key));
		self.headers
			.set(Connection(vec![ConnectionOption::ConnectionHeader(
				UniCase("Upgrade".to_string()),
			)]));
''','''		let accept = WebSocketAccept::new(key);
		let options = vec![ConnectionOption::ConnectionHeader(UniCase(String::from("Upgrade")))];
		self.headers.set(Connection(options));
		self.headers.set(accept);
''')]),
 ('s-two-writes','same',['C15','C16','C19','C11'],[(UM,'''		let data = format!(
			"{} {}\\r\\n{}\\r\\n",
			self.request.version, status, self.headers
		);
		self.stream.write_all(data.as_bytes())?;
		Ok(())''','''		let line = format!("{} {}\\r\\n", self.request.version, status);
		self.stream.write_all(line.as_bytes())?;
		let rest = format!("{}\\r\\n", self.headers);
		self.stream.write_all(rest.as_bytes())''')]),
 ('s-write-macro','same',['C15'],[(UM,'''		self.stream.write_all(data.as_bytes())?;
		Ok(())''','''		self.stream.write_all(data.as_bytes())''')]),
 ('s-hash','same',['C16'],[(H,'''		let hash = Sha1::digest(concat_key.as_bytes());''','''		let mut hasher = Sha1::new();
		hasher.input(key.serialize().as_bytes());
		hasher.input(MAGIC_GUID.as_bytes());
		let _ = concat_key;
		let hash = hasher.result();''')]),
 ('s-fmt','same',['C16'],[(H,'''		let mut concat_key = String::with_capacity(serialized.len() + 36);
		concat_key.push_str(&serialized[..]);
		concat_key.push_str(MAGIC_GUID);''','''		let concat_key = format!("{}{}", serialized, MAGIC_GUID);''')]),
 ('s-async-match','same',['C20','C19','C14','C22'],[(UA,'''				if let Some(msg) = m {
					match validate(&msg.subject.0, msg.version, &msg.headers) {
						Ok(()) => Ok((msg, io, read_buf)),
						Err(e) => Err((io, Some(msg), read_buf, e)),
					}
				} else {
''','''				match m { Some(msg) => {
					if let Err(e) = validate(&msg.subject.0, msg.version, &msg.headers) {
						return Err((io, Some(msg), read_buf, e));
					}
					Ok((msg, io, read_buf))
				} None => {
'''),(UA,'''					Err((io, None, read_buf, err))
				}''','''					Err((io, None, read_buf, err))
				}}''')]),
 ('s-srv','same',['C20','C19','C30'],[(SS,'''		let stream = match self.listener.accept() {
			Ok(s) => s.0,
			Err(e) => {
				return Err(InvalidConnection {
					stream: None,
					parsed: None,
					buffer: None,
					error: e.into(),
				});
			}
		};

		match stream.into_ws() {
			Ok(u) => Ok(u),
			Err((s, r, b, e)) => Err(InvalidConnection {
				stream: Some(s),
				parsed: r,
				buffer: b,
				error: e,
			}),
		}
	}

	/// Create''','''		let (stream, _) = self.listener.accept().map_err(|e| InvalidConnection {
			stream: None,
			parsed: None,
			buffer: None,
			error: HyperIntoWsError::Io(e),
		})?;
		stream.into_ws().map_err(|(s, r, b, e)| InvalidConnection {
			stream: Some(s),
			parsed: r,
			buffer: b,
			error: e,
		})
	}

	/// Create''')]),
 ('s-incoming','same',['C20','C22','C19'],[(SA,'''				futures::future::ok(handshake)
			})
			.buffer_unordered(std::usize::MAX);
		Box::new(future)
	}
}
''','''				Ok(handshake)
			})
			.buffer_unordered(usize::max_value());
		Box::new(future)
	}
}
''')]),
 ('s-incoming2','same',['C20','C22','C19'],[(SA,'''			.and_then(|(stream, a)| {
				let handshake''','''			.map(|(stream, a)| {
				let handshake'''),(SA,'''				futures::future::ok(handshake)
			})
			.buffer_unordered(std::usize::MAX);
		Box::new(future)
	}
}
''','''				handshake
			})
			.buffer_unordered(std::usize::MAX);
		Box::new(future)
	}
}
''')]),
 ('s-split','same',['C19','C04','C05','C11','C27'],[(C,'''		let (stream, buf, pos, cap) = self.stream.into_parts();
		let (read, write) = stream.split()?;
		Ok((''','''		let Client { stream, sender, receiver, .. } = self;
		let (inner, buf, pos, cap) = stream.into_parts();
		let halves = inner.split()?;
		let (read, write) = halves;
		Ok(('''),(C,'receiver: self.receiver,\n			},\n			Writer','receiver,\n			},\n			Writer'),(C,'				sender: self.sender,\n','				sender,\n')]),
 ('s-codec','same',['C19','C15','C11'],[(UA,'''			.map(move |s| {
				let codec = MessageCodec::new_with_limits(Context::Server, max_dataframe_size, max_message_size);
				let client = update_framed_codec(s, codec);
				(client, headers)
			})
			.map_err(Into::into);''','''			.map_err(|e| crate::result::WebSocketError::from(e))
			.and_then(move |s| {
				let codec = MessageCodec::new_with_limits(Context::Server, max_dataframe_size, max_message_size);
				Ok((update_framed_codec(s, codec), headers))
			});''')]),
]

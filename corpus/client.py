B='src/client/builder.rs'; SS='src/server/sync.rs'; SA='src/server/async.rs'
COPY='''			key_set: self.key_set,
			max_dataframe_size: self.max_dataframe_size,
			max_message_size: self.max_message_size,
		};'''
RX='''		let resource = builder.build_request();
		let framed'''
EDITS=[
 # C17
 ('b-status-range','bug',['C17'],[(B,'if status != StatusCode::SwitchingProtocols {','if !status.is_informational() {')]),
 ('b-accept-optional','bug',['C17'],[(B,'''		if response.headers.get() != Some(&(WebSocketAccept::new(key))) {''','''		if response.headers.get::<WebSocketAccept>().map_or(false, |a| *a != WebSocketAccept::new(key)) {''')]),
 ('b-accept-has','bug',['C17'],[(B,'''		if response.headers.get() != Some(&(WebSocketAccept::new(key))) {''','''		let _ = key;
		if !response.headers.has::<WebSocketAccept>() {''')]),
 ('b-accept-case','bug',['C17'],[(B,'''		if response.headers.get() != Some(&(WebSocketAccept::new(key))) {''','''		if response.headers.get::<WebSocketAccept>().map(|a| a.serialize().to_lowercase()) != Some(WebSocketAccept::new(key).serialize().to_lowercase()) {''')]),
 ('b-upgrade-or','bug',['C17'],[(B,'''		if response.headers.get()
			!= Some(
				&(Upgrade''','''		if response.headers.has::<Upgrade>() && response.headers.get()
			!= Some(
				&(Upgrade''')]),
 ('b-conn-any','bug',['C17'],[(B,'Some(Connection(options)) => options.contains(&upgrade),','Some(Connection(options)) => options.contains(&upgrade) || !options.is_empty(),')]),
 ('b-conn-close','bug',['C17'],[(B,'None => false,\n		};\n		if !is_upgrade','None => response.version == HttpVersion::Http11,\n		};\n		if !is_upgrade')]),
 ('b-redirect-lost','bug',['C17'],[(B,'if status.is_redirection() {','if status == StatusCode::MovedPermanently || status == StatusCode::Found {')]),
 ('b-redirect-308','bug',['C17'],[(B,'x.to_string())).map_err(towse)','x.to_string().to_lowercase())).map_err(towse)')]),
 ('b-empty-stream','bug',['C17'],[(B,'''					.and_then(|message| builder.validate(&message).map(|()| (message, stream)))''','''					.map(|message| { let _ = builder.validate(&message); (message, stream) })''')]),
 ('b-sync-novalidate','bug',['C17'],[(B,'''		self.validate(&response)?;
''','''		if self.headers.has::<WebSocketProtocol>() { self.validate(&response)?; }
''')]),
 ('b-status-only-key','bug',['C17'],[(B,'''		let key = self
			.headers
			.get::<WebSocketKey>()
			.ok_or(WebSocketOtherError::RequestError(
				"Request Sec-WebSocket-Key was invalid",
			))?;

		if response.headers.get() !=''','''		let echoed = response.headers.get::<WebSocketKey>();
		let key = echoed.or(self
			.headers
			.get::<WebSocketKey>())
			.ok_or(WebSocketOtherError::RequestError(
				"Request Sec-WebSocket-Key was invalid",
			))?;

		if response.headers.get() !=''')]),
 ('b-one-conn','bug',['C17'],[(B,'Some(Connection(options)) => options.contains(&upgrade),','Some(Connection(options)) => options.len() == 1 && options.contains(&upgrade),')]),
 ('b-last-conn','bug',['C17'],[(B,'Some(Connection(options)) => options.contains(&upgrade),','Some(Connection(options)) => options.last() == Some(&upgrade),')]),
 # C18
 ('b-port-default','bug',['C18'],[(B,'port: self.url.port(),','port: self.url.port_or_known_default(),')]),
 ('b-no-query','bug',['C18'],[(B,'Position::AfterQuery]','Position::AfterPath]')]),
 ('b-fragment','bug',['C18'],[(B,'Position::AfterQuery]','Position::AfterFragment]')]),
 ('b-version-set','bug',['C18','C28'],[(B,'''		self.headers.set(version);
		self.version_set = true;''','''		self.version_set = version == WebSocketVersion::WebSocket13;
		self.headers.set(version);''')]),
 ('b-key-reuse','bug',['C18'],[(B,'''		if !self.key_set {
			self.headers''','''		if !self.key_set && !self.headers.has::<WebSocketKey>() {
			self.headers''')]),
 ('b-key-once','bug',['C18'],[(B,'''			self.headers.set(WebSocketKey::new());
''','''			self.headers.set(WebSocketKey::new());
			self.key_set = true;
''')]),
 ('b-auth-pass','bug',['C18'],[(B,'if !self.url.username().is_empty() {','if !self.url.username().is_empty() && self.url.password().is_some() {')]),
 ('b-auth-pass2','bug',['C18'],[(B,'Some(password) => Some(password.to_owned()),\n					None => None,','Some(password) => Some(password.to_owned()),\n					None => Some(String::new()),')]),
 ('b-lf','bug',['C18'],[(B,'format!("GET {} {}\\r\\n{}\\r\\n"','format!("GET {} {}\\r\\n{}\\n"')]),
 ('b-async-headers','bug',['C18'],[(B,'''		let resource = builder.build_request();
		let framed''','''		let mut resource = builder.build_request();
		if resource.is_empty() { resource.push('/'); }
		builder.headers.remove::<Origin>();
		let framed''')]),
 ('b-async-version','bug',['C18','C28'],[(B,'''			version_set: self.version_set,
			key_set: self.key_set,
			max_dataframe_size: self.max_dataframe_size,
			max_message_size: self.max_message_size,
		};
		let resource''','''			version_set: false,
			key_set: self.key_set,
			max_dataframe_size: self.max_dataframe_size,
			max_message_size: self.max_message_size,
		};
		let resource''')]),
 ('b-write','bug',['C18'],[(B,'stream.write_all(data.as_bytes())?;','stream.write(data.as_bytes())?;')]),
 ('b-ignore','bug',['C18'],[(B,'stream.write_all(data.as_bytes())?;','let _ = stream.write_all(data.as_bytes());')]),
 ('b-two-writes-order','bug',['C18'],[(B,'''		stream.write_all(data.as_bytes())?;

		// wait for a response
		let mut reader = BufReader::new(stream);''','''		let head = data.len() - 2;
		stream.write_all(&data.as_bytes()[..head])?;

		// wait for a response
		let mut reader = BufReader::new(stream);''')]),
 ('b-host-port80','bug',['C18'],[(B,'port: self.url.port(),','port: self.url.port().filter(|p| *p != 8080),')]),
 # C21
 ('b-wss-only','bug',['C21'],[(B,'scheme == "wss" || scheme == "https"','scheme == "wss"')]),
 ('b-tls-fallback','bug',['C21'],[(B,'Box::new(self.wrap_ssl(tcp_stream, ssl_config)?)','match tcp_stream.try_clone().map_err(WebSocketError::from).and_then(|s| self.wrap_ssl(s, ssl_config)) { Ok(s) => Box::new(s), Err(e) => { if self.url.port() == Some(80) { Box::new(tcp_stream) } else { return Err(e); } } }')]),
 ('b-domain','bug',['C21'],[(B,'let host = match self.url.host_str() {','let host = match self.url.domain().map(|d| d.trim_end_matches(\'.\')).or(self.url.host_str()) {')]),
 ('b-host-header','bug',['C21'],[(B,'let host = match self.url.host_str() {','let host = match self.headers.get::<Host>().map(|h| h.hostname.as_str()).or(self.url.host_str()) {')]),
 ('b-connector-ignored','bug',['C21'],[(B,'''			Some(c) => c,
			None =>''','''			Some(ref c) if self.url.port().is_none() => c.clone(),
			_ =>''')]),
 ('b-connector-insecure','bug',['C21'],[(B,'None => TlsConnector::builder().build()','None => TlsConnector::builder().danger_accept_invalid_hostnames(true).build()')]),
 ('b-connector-insecure2','bug',['C21'],[(B,'None => TlsConnector::builder().build()','None => TlsConnector::builder().use_sni(false).build()')]),
 ('b-server-skip','bug',['C21'],[(SA,'','')]),
 # refactors
 ('s-validate-split','same',['C17','C18'],[(B,'''		if response.headers.get() != Some(&(WebSocketAccept::new(key))) {
			return''','''		let expected = WebSocketAccept::new(key);
		let proven = match response.headers.get::<WebSocketAccept>() {
			Some(given) => *given == expected,
			None => false,
		};
		if !proven {
			return''')]),
 ('s-conn-any','same',['C17'],[(B,'Some(Connection(options)) => options.contains(&upgrade),\n			None => false,','Some(Connection(options)) => options.iter().any(|o| *o == upgrade),\n			None => false,')]),
 ('s-conn-map-or','same',['C17'],[(B,'''		let is_upgrade = match response.headers.get::<Connection>() {
			Some(Connection(options)) => options.contains(&upgrade),
			None => false,
		};''','''		let is_upgrade = response
			.headers
			.get::<Connection>()
			.map_or(false, |c| c.0.contains(&upgrade));''')]),
 ('s-conn-loop','same',['C17'],[(B,'''		let is_upgrade = match response.headers.get::<Connection>() {
			Some(Connection(options)) => options.contains(&upgrade),
			None => false,
		};''','''		let mut is_upgrade = false;
		if let Some(c) = response.headers.get::<Connection>() {
			for o in c.iter() {
				if *o == upgrade {
					is_upgrade = true;
					break;
				}
			}
		}''')]),
 ('s-order','same',['C17'],[(B,'''		let upgrade = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
		let is_upgrade = match response.headers.get::<Connection>() {
			Some(Connection(options)) => options.contains(&upgrade),
			None => false,
		};
		if !is_upgrade {
			return Err(WebSocketOtherError::ResponseError(
				"Connection field must be 'Upgrade'",
			))
			.map_err(towse);
		}

		Ok(())''','''		Ok(())'''),(B,'''		let key = self
			.headers
			.get::<WebSocketKey>()
			.ok_or(''','''		let upgrade = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
		let is_upgrade = match response.headers.get::<Connection>() {
			Some(Connection(options)) => options.contains(&upgrade),
			None => false,
		};
		if !is_upgrade {
			return Err(WebSocketOtherError::ResponseError(
				"Connection field must be 'Upgrade'",
			))
			.map_err(towse);
		}

		let key = self
			.headers
			.get::<WebSocketKey>()
			.ok_or(''')]),
 ('s-status-u16','same',['C17'],[(B,'if status != StatusCode::SwitchingProtocols {','if response.subject.0 != 101 {')]),
 ('s-status-match','same',['C17'],[(B,'''				match response.headers.get::<hyper::header::Location>() {
					Some(x) => return Err(WebSocketOtherError::RedirectError(status, x.to_string())).map_err(towse),
					None => (),
				}''','''				if let Some(x) = response.headers.get::<hyper::header::Location>() {
					let to = x.to_string();
					return Err(towse(WebSocketOtherError::RedirectError(status, to)));
				}''')]),
 ('s-format-parts','same',['C18'],[(B,'''		let data = format!("GET {} {}\\r\\n{}\\r\\n", resource, self.version, self.headers);
		stream.write_all(data.as_bytes())?;''','''		let mut data = String::from("GET ");
		data.push_str(&resource);
		data.push(' ');
		data += &self.version.to_string();
		data.push_str("\\r\\n");
		data.push_str(&self.headers.to_string());
		data.push_str("\\r\\n");
		stream.write_all(data.as_bytes())?;''')]),
 ('s-write-fmt','same',['C18'],[(B,'''		let data = format!("GET {} {}\\r\\n{}\\r\\n", resource, self.version, self.headers);
		stream.write_all(data.as_bytes())?;''','''		write!(stream, "GET {} {}\\r\\n{}\\r\\n", resource, self.version, self.headers)?;''')]),
 ('s-flush','same',['C18'],[(B,'''		stream.write_all(data.as_bytes())?;''','''		stream.write_all(data.as_bytes())?;
		stream.flush()?;''')]),
 ('s-two-writes','same',['C18','C17'],[(B,'''		let data = format!("GET {} {}\\r\\n{}\\r\\n", resource, self.version, self.headers);
		stream.write_all(data.as_bytes())?;''','''		let line = format!("GET {} {}\\r\\n", resource, self.version);
		let rest = format!("{}\\r\\n", self.headers);
		stream.write_all(line.as_bytes())?;
		stream.write_all(rest.as_bytes())?;''')]),
 ('s-password','same',['C18'],[(B,'''				password: match self.url.password() {
					Some(password) => Some(password.to_owned()),
					None => None,
				},''','''				password: self.url.password().map(str::to_owned),''')]),
 ('s-helper','same',['C18','C28','C11'],[(B,'''		let mut builder = ClientBuilder {
			url: Cow::Owned(self.url.into_owned()),
			version: self.version,
			headers: self.headers,
			version_set: self.version_set,
			key_set: self.key_set,
			max_dataframe_size: self.max_dataframe_size,
			max_message_size: self.max_message_size,
		};
		let resource''','''		let max_dataframe_size = self.max_dataframe_size;
		let max_message_size = self.max_message_size;
		let mut builder = self.detached();
		let resource'''),(B,'''		let max_dataframe_size = self.max_dataframe_size;
		let max_message_size = self.max_message_size;
		let future = framed''','''		let future = framed'''),(B,'''	#[cfg(feature = "async")]
	fn async_tcpstream(''','''	#[cfg(feature = "async")]
	fn detached(self) -> ClientBuilder<'static> {
		ClientBuilder {
			url: Cow::Owned(self.url.into_owned()),
			version: self.version,
			headers: self.headers,
			version_set: self.version_set,
			key_set: self.key_set,
			max_dataframe_size: self.max_dataframe_size,
			max_message_size: self.max_message_size,
		}
	}

	#[cfg(feature = "async")]
	fn async_tcpstream(''')]),
 ('s-secure-match','same',['C21'],[(B,'''		let scheme = self.url.scheme();
		scheme == "wss" || scheme == "https"''','''		match self.url.scheme() {
			"wss" | "https" => true,
			_ => false,
		}''')]),
 ('s-port-if','same',['C21'],[(B,'''			Ok(match secure {
				None if url.scheme() == SECURE_WS_SCHEME => SECURE_PORT,
				None => INSECURE_PORT,
				Some(true) => SECURE_PORT,
				Some(false) => INSECURE_PORT,
			})''','''			let secure = secure.unwrap_or_else(|| url.scheme() == SECURE_WS_SCHEME);
			Ok(if secure { SECURE_PORT } else { INSECURE_PORT })''')]),
 ('s-conn-early','same',['C21','C17'],[(B,'''		let tcp_stream = self.establish_tcp(None)?;

		let boxed_stream: Box<dyn NetworkStream + Send> = if self.is_secure_url() {
			Box::new(self.wrap_ssl(tcp_stream, ssl_config)?)
		} else {
			Box::new(tcp_stream)
		};

		self.connect_on(boxed_stream)''','''		let tcp_stream = self.establish_tcp(None)?;
		if !self.is_secure_url() {
			return self.connect_on(Box::new(tcp_stream) as Box<dyn NetworkStream + Send>);
		}
		let tls_stream = self.wrap_ssl(tcp_stream, ssl_config)?;
		self.connect_on(Box::new(tls_stream) as Box<dyn NetworkStream + Send>)''')]),
 ('s-async-addr','same',['C21'],[(B,'''			Ok(mut s) => match s.next() {
				Some(a) => a,
				None => {
					return''','''			Ok(s) => match s.into_iter().nth(0) {
				Some(a) => a,
				None => {
					return''')]),
 ('s-connector','same',['C21'],[(B,'''		let connector = match connector {
			Some(c) => c,
			None => TlsConnector::builder().build().map_err(towse)?,
		};
		Ok((host, connector))''','''		if let Some(c) = connector {
			return Ok((host, c));
		}
		TlsConnector::builder().build().map_err(towse).map(|c| (host, c))''')]),
 ('s-connector2','same',['C21'],[(B,'None => TlsConnector::builder().build().map_err(towse)?','None => TlsConnector::new().map_err(towse)?')]),
 ('s-sock','same',['C21'],[(B,'''		Ok(TcpStream::connect(self.extract_host_port(secure)?)?)''','''		let target = self.extract_host_port(secure)?;
		let stream = TcpStream::connect(target)?;
		Ok(stream)''')]),
 ('s-box','same',['C21','C18'],[(B,'''			// insecure connection, connect normally
			let future = tcp_stream.and_then(move |stream| {
				let stream: Box<dyn stream::r#async::Stream + Send> = Box::new(stream);
				builder.async_connect_on(stream)
			});
			Box::new(future)''','''			// insecure connection, connect normally
			Box::new(
				tcp_stream
					.map(|stream| -> Box<dyn stream::r#async::Stream + Send> { Box::new(stream) })
					.and_then(move |stream| builder.async_connect_on(stream)),
			)''')]),
]
EDITS=[e for e in EDITS if e[3][0][1]]

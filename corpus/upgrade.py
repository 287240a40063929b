UP='src/server/upgrade/mod.rs'; BU='src/client/builder.rs'
V1='''	if *method != Method::Get {
		return Err(HyperIntoWsError::MethodNotGet);
	}
'''
V2='''	if version == HttpVersion::Http09 || version == HttpVersion::Http10 {
		return Err(HyperIntoWsError::UnsupportedHttpVersion);
	}
'''
V3='''	if let Some(version) = headers.get::<WebSocketVersion>() {
		if version != &WebSocketVersion::WebSocket13 {
			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
		}
	}
'''
V4='''	if headers.get::<WebSocketKey>().is_none() {
		return Err(HyperIntoWsError::NoSecWsKeyHeader);
	}
'''
V5='''	match headers.get() {
		Some(&Upgrade(ref upgrade)) => {
			if upgrade.iter().all(|u| u.name != ProtocolName::WebSocket) {
				return Err(HyperIntoWsError::NoWsUpgradeHeader);
			}
		}
		None => return Err(HyperIntoWsError::NoUpgradeHeader),
	};
'''
V6='''		for header in headers {
			if let ConnectionOption::ConnectionHeader(ref h) = *header {
				if UniCase(h as &str) == UniCase("upgrade") {
					return true;
				}
			}
		}
		false
'''
V7='''			if !check_connection_header(connection) {
				return Err(HyperIntoWsError::NoWsConnectionHeader);
			}
'''
EXTS='''		let mut extensions: Vec<Extension> = extensions.into_iter().collect();
		upsert_header!(self.headers; WebSocketExtensions; {
			Some(protos) => protos.0.append(&mut extensions),
			None => WebSocketExtensions(extensions)
		});
'''
PROTS='''		let mut protocols: Vec<String> = protocols.into_iter().map(Into::into).collect();

		upsert_header!(self.headers; WebSocketProtocol; {
			Some(protos) => protos.0.append(&mut protocols),
			None => WebSocketProtocol(protocols)
		});
'''
EDITS=[
 ('b-any-method','bug',['C14'],[(UP,V1,'''	if !method.safe() {
		return Err(HyperIntoWsError::MethodNotGet);
	}
''')]),
 ('b-h10','bug',['C14'],[(UP,V2,'''	if version == HttpVersion::Http09 {
		return Err(HyperIntoWsError::UnsupportedHttpVersion);
	}
''')]),
 ('b-version-unknown','bug',['C14'],[(UP,V3,'''	if let Some(WebSocketVersion::Unknown(v)) = headers.get::<WebSocketVersion>() {
		if v.parse::<u8>().is_err() {
			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
		}
	}
''')]),
 ('b-version-8','bug',['C14'],[(UP,V3,'''	if let Some(WebSocketVersion::Unknown(v)) = headers.get::<WebSocketVersion>() {
		if v != "8" {
			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
		}
	}
''')]),
 ('b-key-raw','bug',['C14'],[(UP,V4,'''	if headers.get_raw("Sec-WebSocket-Key").is_none() {
		return Err(HyperIntoWsError::NoSecWsKeyHeader);
	}
''')]),
 ('b-upg-not-all','bug',['C14'],[(UP,V5,V5.replace('upgrade.iter().all(|u| u.name != ProtocolName::WebSocket)','upgrade.is_empty()'))]),
 ('b-upg-h2c','bug',['C14'],[(UP,V5,V5.replace('u.name != ProtocolName::WebSocket','u.name != ProtocolName::WebSocket && u.version.is_none()'))]),
 ('b-upg-none','bug',['C14'],[(UP,'		None => return Err(HyperIntoWsError::NoUpgradeHeader),','		None => {}')]),
 ('b-upg-first','bug',['C14'],[(UP,V5,V5.replace('upgrade.iter().all(|u|','upgrade.iter().take(1).all(|u|'))]),
 ('b-upg-prefix','bug',['C14'],[(UP,V5,V5.replace('u.name != ProtocolName::WebSocket','!u.name.to_string().starts_with("web")'))]),
 ('b-conn-contains','bug',['C14'],[(UP,V6,'''		for header in headers {
			if let ConnectionOption::ConnectionHeader(ref h) = *header {
				if h.to_lowercase().contains("upgrade") {
					return true;
				}
			}
		}
		false
''')]),
 ('b-conn-case','bug',['C14'],[(UP,V6,V6.replace('UniCase(h as &str) == UniCase("upgrade")','&h[..] == "upgrade" || &h[..] == "Upgrade"'))]),
 ('b-conn-close','bug',['C14'],[(UP,V6,V6.replace('		false\n','		headers.len() > 1 && headers[0] == ConnectionOption::KeepAlive\n'))]),
 ('b-conn-first','bug',['C14'],[(UP,V6,'''		for header in headers {
			if let ConnectionOption::ConnectionHeader(ref h) = *header {
				return UniCase(h as &str) == UniCase("upgrade");
			}
		}
		false
''')]),
 ('b-conn-none','bug',['C14'],[(UP,'		None => return Err(HyperIntoWsError::NoConnectionHeader),','		None if version == HttpVersion::Http11 => {}\n		None => return Err(HyperIntoWsError::NoConnectionHeader),')]),
 ('b-order-skip','bug',['C14'],[(UP,V4,V4.replace('is_none()','is_none() && headers.get::<Origin>().is_some()'))]),
 # the same
 ('s-match','same',['C14'],[(UP,V1+'\n'+V2,'''	match (method, version) {
		(&Method::Get, HttpVersion::Http11) | (&Method::Get, HttpVersion::Http20) => {}
		(&Method::Get, _) => return Err(HyperIntoWsError::UnsupportedHttpVersion),
		_ => return Err(HyperIntoWsError::MethodNotGet),
	}
''')]),
 ('s-reorder','same',['C14'],[(UP,V1+'\n'+V2,V2+'\n'+V1)]),
 ('s-lt','same',['C14'],[(UP,V2,V2.replace('version == HttpVersion::Http09 || version == HttpVersion::Http10','version < HttpVersion::Http11'))]),
 ('s-version-match','same',['C14'],[(UP,V3,'''	match headers.get::<WebSocketVersion>() {
		Some(WebSocketVersion::Unknown(_)) => return Err(HyperIntoWsError::UnsupportedWebsocketVersion),
		Some(WebSocketVersion::WebSocket13) | None => {}
	}
''')]),
 ('s-key','same',['C14'],[(UP,V4,'''	let _key: &WebSocketKey = headers.get().ok_or(HyperIntoWsError::NoSecWsKeyHeader)?;
''')]),
 ('s-key-has','same',['C14'],[(UP,V4,'''	if !headers.has::<WebSocketKey>() {
		return Err(HyperIntoWsError::NoSecWsKeyHeader);
	}
	if headers.get::<WebSocketKey>().is_none() {
		return Err(HyperIntoWsError::NoSecWsKeyHeader);
	}
''')]),
 ('s-upg-any','same',['C14'],[(UP,V5,'''	let Upgrade(upgrade) = headers.get::<Upgrade>().ok_or(HyperIntoWsError::NoUpgradeHeader)?;
	if !upgrade.iter().any(|u| u.name == ProtocolName::WebSocket) {
		return Err(HyperIntoWsError::NoWsUpgradeHeader);
	}
''')]),
 ('s-upg-loop','same',['C14'],[(UP,V5,'''	let mut found = false;
	match headers.get::<Upgrade>() {
		Some(upgrade) => for p in &upgrade.0 {
			found |= p.name == ProtocolName::WebSocket;
		},
		None => return Err(HyperIntoWsError::NoUpgradeHeader),
	}
	if !found {
		return Err(HyperIntoWsError::NoWsUpgradeHeader);
	}
''')]),
 ('s-upg-find','same',['C14'],[(UP,V5,V5.replace('upgrade.iter().all(|u| u.name != ProtocolName::WebSocket)','upgrade.iter().find(|u| u.name == ProtocolName::WebSocket).is_none()'))]),
 ('s-upg-pos','same',['C14'],[(UP,V5,V5.replace('upgrade.iter().all(|u| u.name != ProtocolName::WebSocket)','upgrade.iter().filter(|u| match u.name { ProtocolName::WebSocket => true, _ => false }).count() == 0'))]),
 ('s-conn-any','same',['C14'],[(UP,V6,'''		headers.iter().any(|header| match *header {
			ConnectionOption::ConnectionHeader(ref h) => UniCase(h as &str) == UniCase("upgrade"),
			_ => false,
		})
''')]),
 ('s-conn-ascii','same',['C14'],[(UP,V6,V6.replace('UniCase(h as &str) == UniCase("upgrade")','h.eq_ignore_ascii_case("Upgrade")'))]),
 ('s-conn-lower','same',['C14'],[(UP,V6,V6.replace('UniCase(h as &str) == UniCase("upgrade")','h.to_ascii_lowercase() == "upgrade"'))]),
 ('s-conn-lower2','same',['C14'],[(UP,V6,V6.replace('UniCase(h as &str) == UniCase("upgrade")','h.to_lowercase() == "upgrade"'))]),
 ('s-conn-contains','same',['C14'],[(UP,V7,'''			let wanted = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
			if !connection.contains(&wanted) && !check_connection_header(connection) {
				return Err(HyperIntoWsError::NoWsConnectionHeader);
			}
''')]),
 ('s-conn-contains2','same',['C14'],[(UP,V7,'''			if !connection.contains(&ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()))) {
				return Err(HyperIntoWsError::NoWsConnectionHeader);
			}
'''),(UP,'	fn check_connection_header(','	fn _check_connection_header(')]),
 # settings
 ('b-exts-front','bug',['C28'],[(UP,EXTS,EXTS.replace('protos.0.append(&mut extensions)','{ extensions.append(&mut protos.0); protos.0 = extensions.split_off(0) }'))]),
 ('b-proto-set','bug',['C28'],[(UP,'''			Some(protos) => protos.0.push(protocol.into()),''','''			Some(protos) => protos.0 = vec![protocol.into()],''')]),
 ('b-prots-dedup','bug',['C28'],[(BU,PROTS,PROTS.replace('protos.0.append(&mut protocols)','{ protos.0.append(&mut protocols); protos.0.dedup() }'))]),
 ('b-prots-drop','bug',['C28'],[(BU,PROTS,PROTS.replace('Some(protos) => protos.0.append(&mut protocols)','Some(protos) => protos.0.append(&mut protocols.split_off(1))'))]),
 ('b-clear-ext','bug',['C28'],[(BU,'		self.headers.remove::<WebSocketExtensions>();','		self.headers.remove::<WebSocketProtocol>();')]),
 ('b-clear-key','bug',['C28'],[(BU,'		self.headers.remove::<WebSocketKey>();\n		self.key_set = false;','		self.headers.remove::<WebSocketKey>();')]),
 ('b-clear-version','bug',['C28'],[(BU,'		self.headers.remove::<WebSocketVersion>();\n		self.version_set = false;','		self.version_set = false;')]),
 ('b-origin-once','bug',['C28'],[(BU,'		self.headers.set(Origin(origin));','		if !self.headers.has::<Origin>() {\n			self.headers.set(Origin(origin));\n		}')]),
 ('b-custom','bug',['C28'],[(BU,'		self.headers.extend(custom_headers.iter());','		self.headers = custom_headers.clone();')]),
 ('b-max','bug',['C11'],[(BU,'		self.max_message_size = value;','		self.max_message_size = value.max(self.max_dataframe_size);')]),
 ('b-max2','bug',['C11'],[(BU,'		self.max_dataframe_size = value;','		self.max_dataframe_size = value.min(DEFAULT_MAX_DATAFRAME_SIZE);')]),
 ('s-exts-extend','same',['C28'],[(UP,EXTS,'''		let extensions: Vec<Extension> = extensions.into_iter().collect();
		upsert_header!(self.headers; WebSocketExtensions; {
			Some(protos) => protos.0.extend(extensions),
			None => WebSocketExtensions(extensions)
		});
''')]),
 ('s-prots-loop','same',['C28'],[(BU,PROTS,'''		let mut list: Vec<String> = Vec::new();
		for p in protocols {
			list.push(p.into());
		}
		upsert_header!(self.headers; WebSocketProtocol; {
			Some(protos) => protos.0.extend(list),
			None => WebSocketProtocol(list)
		});
''')]),
 ('s-prots-take','same',['C28'],[(BU,PROTS,'''		let mut all = self.headers.get::<WebSocketProtocol>().map_or_else(Vec::new, |p| p.0.clone());
		all.extend(protocols.into_iter().map(Into::into));
		self.headers.set(WebSocketProtocol(all));
''')]),
 ('s-clear','same',['C28'],[(BU,'		self.headers.remove::<WebSocketKey>();\n		self.key_set = false;','		self.key_set = false;\n		let removed = self.headers.remove::<WebSocketKey>();\n		drop(removed);')]),
 ('s-key','same',['C28'],[(BU,'		self.headers.set(WebSocketKey::from_array(key));\n		self.key_set = true;','		self.key_set = true;\n		let k = WebSocketKey::from_array(key);\n		self.headers.set(k);')]),
]

H='src/codec/http.rs'
SPLIT='''	match src.windows(4).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => Some(src.split_to(p + 4)),
		None => None,
	}'''
RES='''				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
				let res = match parse_request(&mut reader) {
					Err(e) => return Err(e.into()),
					Ok(r) => r,
				};
				Ok(Some(res))'''
CRES=RES.replace('request','response')
ENC='''		let response = format!("{} {}\\r\\n{}\\r\\n", item.version, item.subject, item.headers);
		let byte_len = response.as_bytes().len();
		if byte_len > dst.remaining_mut() {
			dst.reserve(byte_len);
		}
		dst.writer().write(response.as_bytes()).map(|_| ())'''
C=['C23']
EDITS=[
 ('b-two','bug',C,[(H,SPLIT,'''	match src.windows(2).position(|i| i == b"\\n\\n").map(|p| p + 2).or_else(|| src.windows(4).position(|i| i == b"\\r\\n\\r\\n").map(|p| p + 4)) {
		Some(p) => Some(src.split_to(p)),
		None => None,
	}''')]),
 ('b-last','bug',C,[(H,'src.windows(4).position(','src.windows(4).rposition(')]),
 ('b-skip','bug',C,[(H,SPLIT,'''	match src.windows(4).skip(1).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => Some(src.split_to(p + 5)),
		None => None,
	}''')]),
 ('b-tail','bug',C,[(H,SPLIT,'''	let from = src.len().saturating_sub(4);
	let from = if from > 4096 { from } else { 0 };
	match src[from..].windows(4).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => Some(src.split_to(from + p + 4)),
		None => None,
	}''')]),
 ('b-crlf-left','bug',C,[(H,'src.split_to(p + 4)','src.split_to(p + 2)')]),
 ('b-take','bug',C,[(H,'src.split_to(p + 4)','{ let _ = p; src.take() }')]),
 ('b-chunks','bug',C,[(H,SPLIT,'''	match src.chunks(4).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => Some(src.split_to(p * 4 + 4)),
		None => None,
	}''')]),
 ('b-limit','bug',C,[(H,SPLIT,'''	match src.windows(4).take(8192).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => Some(src.split_to(p + 4)),
		None if src.len() > 8192 => Some(src.split_to(8192)),
		None => None,
	}''')]),
 ('b-adv','bug',C,[(H,SPLIT,'''	match src.windows(4).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => {
			let head = src.split_to(p + 4);
			while src.len() >= 2 && &src[..2] == b"\\r\\n" {
				src.advance(2);
			}
			Some(head)
		}
		None => None,
	}'''),(H,'use bytes::BufMut;','use bytes::Buf;\nuse bytes::BufMut;')]),
 ('b-clear','bug',C,[(H,SPLIT,'''	match src.windows(4).position(|i| i == b"\\r\\n\\r\\n") {
		Some(p) => Some(src.split_to(p + 4)),
		None if src.len() >= 1 << 16 => {
			src.clear();
			None
		}
		None => None,
	}''')]),
 ('b-silent-c','bug',C,[(H,CRES,CRES.replace('Err(e) => return Err(e.into()),','Err(hyper::Error::TooLarge) => return Ok(None),\n\t\t\t\t\tErr(e) => return Err(e.into()),'))]),
 ('b-silent-s','bug',C,[(H,RES,RES.replace('Err(e) => return Err(e.into()),','Err(hyper::Error::Io(_)) => return Ok(None),\n\t\t\t\t\tErr(e) => return Err(e.into()),'))]),
 ('b-errkind','bug',C,[(H,RES,RES.replace('Err(e) => return Err(e.into()),','Err(hyper::Error::Io(e)) => return Err(HttpCodecError::Io(e)),\n\t\t\t\t\tErr(e) => return Err(HttpCodecError::Io(io::Error::new(io::ErrorKind::Other, e))),'))]),
 ('b-room','bug',C,[(H,ENC,ENC.replace('byte_len > dst.remaining_mut()','byte_len > dst.capacity()'))]),
 ('b-room2','bug',C,[(H,ENC,ENC.replace('''		if byte_len > dst.remaining_mut() {
			dst.reserve(byte_len);
		}
''','''		if dst.is_empty() {
			dst.reserve(byte_len);
		}
'''))]),
 ('b-room3','bug',C,[(H,ENC,ENC.replace('dst.reserve(byte_len);','dst.reserve(byte_len - dst.remaining_mut());').replace('byte_len > dst.remaining_mut()','byte_len > dst.remaining_mut() && dst.len() < 4096'))]),
 ('b-extra','bug',C,[(H,'"{} {}\\r\\n{}\\r\\n", item','"{} {}\\r\\n{}\\r\\n\\r\\n", item')]),
 ('b-cleardst','bug',C,[(H,ENC,ENC.replace('		if byte_len > dst','		dst.clear();\n		if byte_len > dst'))]),
 ('b-noversion','bug',C,[(H,'item.subject.0, item.subject.1, item.version, item.headers','item.subject.0, item.subject.1, hyper::version::HttpVersion::Http11, item.headers')]),
 ('b-status','bug',C,[(H,'item.version, item.subject, item.headers','item.version, item.subject.to_u16(), item.headers')]),
 ('s-loop','same',C,[(H,SPLIT,'''	let end = b"\\r\\n\\r\\n";
	let mut p = 0;
	while p + end.len() <= src.len() {
		if &src[p..p + end.len()] == end {
			return Some(src.split_to(p + end.len()));
		}
		p += 1;
	}
	None''')]),
 ('s-for','same',C,[(H,SPLIT,'''	for p in 3..src.len() {
		if src[p - 3] == b'\\r' && src[p - 2] == b'\\n' && src[p - 1] == b'\\r' && src[p] == b'\\n' {
			return Some(src.split_to(p + 1));
		}
	}
	None''')]),
 ('s-map','same',C,[(H,SPLIT,'''	let end = src.windows(4).position(|w| w == b"\\r\\n\\r\\n").map(|p| p + 4)?;
	Some(src.split_to(end))''')]),
 ('s-ends','same',C,[(H,SPLIT,'''	src.windows(4)
		.enumerate()
		.find(|(_, w)| w.starts_with(b"\\r\\n\\r\\n"))
		.map(|(p, _)| p + 4)
		.map(|n| src.split_to(n))''')]),
 ('s-dec','same',C,[(H,RES,'''				let mut reader = BufReader::new(&buf[..]);
				parse_request(&mut reader).map(Some).map_err(HttpCodecError::from)''')]),
 ('s-dec2','same',C,[(H,RES,'''				let mut reader = BufReader::with_capacity(&buf[..], buf.len());
				let res = parse_request(&mut reader)?;
				Ok(Some(res))''')]),
 ('s-dec3','same',C,[(H,'''		match split_off_http(src) {
			Some(buf) => {
'''+RES+'''
			}
			None => Ok(None),
		}''','''		let head = match split_off_http(src) {
			Some(head) => head.freeze(),
			None => return Ok(None),
		};
		let mut reader = BufReader::with_capacity(head.as_ref(), head.len());
		match parse_request(&mut reader) {
			Ok(request) => Ok(Some(request)),
			Err(error) => Err(HttpCodecError::Http(error)),
		}''')]),
 ('s-enc','same',C,[(H,ENC,'''		let response = format!("{} {}\\r\\n{}\\r\\n", item.version, item.subject, item.headers);
		dst.reserve(response.len());
		dst.put_slice(response.as_bytes());
		Ok(())''')]),
 ('s-enc2','same',C,[(H,ENC,'''		let response = format!("{} {}\\r\\n{}\\r\\n", item.version, item.subject, item.headers);
		dst.extend_from_slice(response.as_bytes());
		Ok(())''')]),
 ('s-enc3','same',C,[(H,ENC,ENC.replace('.write(response.as_bytes()).map(|_| ())','.write_all(response.as_bytes())'))]),
 ('s-enc4','same',C,[(H,ENC,'''		let mut response = String::new();
		response.push_str(&item.version.to_string());
		response.push(' ');
		response.push_str(&item.subject.to_string());
		response.push_str("\\r\\n");
		response.push_str(&item.headers.to_string());
		response.push_str("\\r\\n");
		dst.reserve(response.len());
		dst.put(response.as_bytes());
		Ok(())''')]),
 ('s-enc5','same',C,[(H,ENC,'''		let mut response = Vec::new();
		write!(response, "{} {}\\r\\n", item.version, item.subject)?;
		write!(response, "{}\\r\\n", item.headers)?;
		dst.extend_from_slice(&response);
		Ok(())''')]),
 ('s-helper','same',C,[(H,ENC,'''		let response = format!("{} {}\\r\\n{}\\r\\n", item.version, item.subject, item.headers);
		append(dst, response.as_bytes())'''),(H,'fn split_off_http','''fn append(dst: &mut BytesMut, head: &[u8]) -> Result<(), io::Error> {
	let room = dst.remaining_mut();
	if head.len() > room {
		dst.reserve(head.len());
	}
	let written = dst.writer().write(head)?;
	debug_assert_eq!(written, head.len());
	Ok(())
}

fn split_off_http''')]),
]

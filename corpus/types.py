C=['C29']
R='src/receiver.rs'; S='src/sender.rs'; CS='src/client/sync.rs'; U='src/server/upgrade/sync.rs'; UA='src/server/upgrade/async.rs'; UM='src/server/upgrade/mod.rs'; W='websocket-base/src/codec/ws.rs'; B='src/client/builder.rs'
SPLIT='''		let (stream, buf, pos, cap) = self.stream.into_parts();
		let (read, write) = stream.split()?;
		Ok((
			Reader {
				stream: BufReader::from_parts(read, buf, pos, cap),
				receiver: self.receiver,
			},'''
EDITS=[
 ('b-rc','bug',C,[(R,'	mask: bool,\n	// u32s','	mask: std::rc::Rc<bool>,\n	// u32s'),(R,'			mask,\n','			mask: std::rc::Rc::new(mask),\n'),(R,'self.mask','*self.mask')]),
 ('b-raw','bug',C,[(S,'	pub sender: Sender,\n','	pub sender: Sender,\n	/// owner\n	pub owner: std::marker::PhantomData<*const ()>,\n'),(CS,'				sender: self.sender,\n','				sender: self.sender,\n				owner: Default::default(),\n')]),
 ('b-phantom','bug',C,[(W,'PhantomData<fn(M)>','PhantomData<M>')]),
 ('b-accept-ref','bug',C,[(U,'pub fn accept(self)','pub fn accept(&self)'),(U,'		self.internal_accept(None)','		unsafe { std::ptr::read(self) }.internal_accept(None)')]),
 ('b-reject-ref','bug',C,[(UA,'pub fn reject(self)','pub fn reject(&self)'),(UA,'		self.internal_reject(None)','		unsafe { std::ptr::read(self) }.internal_reject(None)')]),
 ('b-deref','bug',C,[(S,'impl<W> Writer<W>','''impl<W> std::ops::Deref for Writer<W> {
	type Target = W;
	fn deref(&self) -> &W {
		&self.stream
	}
}

impl<W: std::io::Read> Writer<W> {
	/// Reads a message
	pub fn recv_message(&mut self) -> WebSocketResult<crate::OwnedMessage> {
		use crate::ws::Receiver as R;
		crate::receiver::Receiver::new(false).recv_message(&mut hyper::buffer::BufReader::new(&mut self.stream))
	}
}

impl<W> Writer<W>''')]),
 ('b-clone','bug',C,[(CS,'impl Client<TcpStream> {','''impl Clone for Client<TcpStream> {
	fn clone(&self) -> Self {
		Client::unchecked(BufReader::new(self.stream.get_ref().try_clone().unwrap()), self.headers.clone(), true, false)
	}
}

impl Client<TcpStream> {''')]),
 ('b-split-ref','bug',C,[(CS,'''	pub fn split(
		self,''','''	pub fn split(
		&mut self,'''),(CS,SPLIT,'''		let me = unsafe { std::ptr::read(self) };
		let (stream, buf, pos, cap) = me.stream.into_parts();
		let (read, write) = stream.split()?;
		Ok((
			Reader {
				stream: BufReader::from_parts(read, buf, pos, cap),
				receiver: me.receiver,
			},'''),(CS,'sender: self.sender,\n			},\n		))','sender: me.sender,\n			},\n		))')]),
 ('b-future','bug',C,[('src/result.rs','Error = WebSocketError> + Send>','Error = WebSocketError>>')]),
 ('s-arc','same',C,[(R,'	mask: bool,\n	// u32s','	mask: std::sync::Arc<bool>,\n	// u32s'),(R,'			mask,\n','			mask: std::sync::Arc::new(mask),\n'),(R,'self.mask','*self.mask')]),
 ('s-cell','same',C,[(R,'	mask: bool,\n	// u32s','	mask: std::cell::Cell<bool>,\n	// u32s'),(R,'			mask,\n','			mask: std::cell::Cell::new(mask),\n'),(R,'self.mask','self.mask.get()')]),
 ('s-mut','same',C,[(U,'pub fn accept(self)','pub fn accept(mut self)'),(U,'		self.internal_accept(None)','		self.headers.remove_raw("x-none");\n		self.internal_accept(None)')]),
 ('s-new-method','same',C,[(S,'impl<W> Writer<W>','''impl<W> Writer<W> {
	/// The stream
	pub fn get_ref(&self) -> &W {
		&self.stream
	}
}

impl<W> Writer<W>''')]),
]

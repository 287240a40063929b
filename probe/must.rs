//! Programs that must compile: one per function, marked with what they show and where it is decided. Compiled by rustc, never run.
//! `send::<T>()` compiles only if T can be sent to another thread. The functions ending in _ok are the legal twins of the programs in mustnot*.rs.
#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_must_use)]
include!("witness.rs");

fn send<T: Send>() {}
fn sends<T: Send>(_: &T) {}

// @send src/client/sync.rs:Client
fn client<S: Stream + Send>() { send::<Client<S>>() }
// @send src/client/sync.rs:Client
fn client_boxed() { send::<Client<Box<dyn NetworkStream + Send>>>() }
// @send src/client/sync.rs:Client
fn client_tls() { send::<Client<TlsStream<TcpStream>>>() }
// @send src/receiver.rs:Reader
fn reader<R: Read + Send>() { send::<Reader<R>>() }
// @send src/receiver.rs:Receiver
fn receiver() { send::<Receiver>() }
// @send src/sender.rs:Writer
fn writer<W: Write + Send>() { send::<Writer<W>>() }
// @send src/sender.rs:Sender
fn sender() { send::<Sender>() }
// @send websocket-base/src/codec/ws.rs:MessageCodec
fn message_codec() { send::<MessageCodec<OwnedMessage>>() }
// @send websocket-base/src/codec/ws.rs:MessageCodec
fn message_codec_any<M: websocket::ws::Message>() { send::<MessageCodec<M>>() }
// @send websocket-base/src/codec/ws.rs:DataFrameCodec
fn frame_codec_any<D: Send>() { send::<DataFrameCodec<D>>() }
// @send websocket-base/src/codec/ws.rs:DataFrameCodec
fn frame_codec() { send::<DataFrameCodec<DataFrame>>() }
// @send src/codec/http.rs:HttpClientCodec
fn http_client_codec() { send::<HttpClientCodec>() }
// @send src/codec/http.rs:HttpServerCodec
fn http_server_codec() { send::<HttpServerCodec>() }
// @send src/client/async.rs:Client
fn async_client<S: Send>() { send::<AClient<S>>() }
// @send src/client/async.rs:ClientNew
fn client_new<S: 'static>() { send::<ClientNew<S>>() }
// @send src/server/upgrade/sync.rs:Upgrade
fn upgrade<S: Stream + Send>() { send::<Upgrade<S>>() }
// @send src/server/upgrade/async.rs:Upgrade
fn async_upgrade<S: Stream + Send>() { send::<AUpgrade<S>>() }
// @send src/server/upgrade/sync.rs:Buffer
fn buffer() { send::<Buffer>() }
// @send src/server/upgrade/sync.rs:RequestStreamPair
fn request_pair<S: Stream + Send>() { send::<RequestStreamPair<S>>() }
// @send src/server/mod.rs:WsServer
fn server() { send::<websocket::sync::Server<NoTlsAcceptor>>() }
// @send src/server/mod.rs:WsServer
fn tls_server() { send::<websocket::sync::Server<TlsAcceptor>>() }
// @send src/server/mod.rs:WsServer
fn async_server() { send::<websocket::r#async::Server<NoTlsAcceptor>>() }
// @send src/server/mod.rs:WsServer
fn async_tls_server() { send::<websocket::r#async::Server<TlsAcceptor>>() }
// @send src/server/mod.rs:InvalidConnection
fn invalid<S: Stream + Send>() { send::<InvalidConnection<S, Buffer>>() }
// @send src/server/mod.rs:InvalidConnection
fn async_invalid<S: Stream + Send>() { send::<InvalidConnection<S, BytesMut>>() }
// @send src/server/async.rs:Incoming
fn incoming<S: Stream + 'static>() { send::<AIncoming<S>>() }
// @send src/client/builder.rs:ClientBuilder
fn builder() { send::<ClientBuilder<'static>>() }
// @send src/result.rs:WebSocketFuture
fn future<T: 'static>() { send::<websocket::result::r#async::WebSocketFuture<T>>() }
// @send websocket-base/src/result.rs:WebSocketFuture
fn base_future<T: 'static>() { send::<websocket_base::result::r#async::WebSocketFuture<T>>() }
// @send websocket-base/src/message.rs:OwnedMessage
fn owned_message() { send::<OwnedMessage>() }
// @send websocket-base/src/message.rs:Message
fn message() { send::<Message<'static>>() }
// @send websocket-base/src/dataframe.rs:DataFrame
fn frame() { send::<DataFrame>() }
// @send websocket-base/src/result.rs:WebSocketError
fn base_error() { send::<websocket_base::result::WebSocketError>() }
// @send src/result.rs:WebSocketError
fn error() { send::<websocket::WebSocketError>() }
// @send src/server/upgrade/mod.rs:HyperIntoWsError
fn into_ws_error() { send::<HyperIntoWsError>() }
// @send websocket-base/src/stream.rs:ReadWritePair
fn pair<R: Read + Send, W: Write + Send>() { send::<ReadWritePair<R, W>>() }
// @send src/server/upgrade/async.rs:IntoWs::into_ws
fn into_ws_future<S: AStream + Send + 'static>(s: S) { sends(&AIntoWs::into_ws(s)) }
// @send src/server/upgrade/async.rs:WsUpgrade::accept
fn accept_future<S: AStream + Send + 'static>(u: AUpgrade<S>) { sends(&u.accept()) }
// @send src/server/upgrade/async.rs:WsUpgrade::accept_with
fn accept_with_future<S: AStream + Send + 'static>(u: AUpgrade<S>, h: &Headers) { sends(&u.accept_with(h)) }
// @send src/server/upgrade/async.rs:WsUpgrade::accept_with_limits
fn accept_limits_future<S: AStream + Send + 'static>(u: AUpgrade<S>) { sends(&u.accept_with_limits(1, 2)) }
// @send src/server/upgrade/async.rs:WsUpgrade::accept_with_headers_and_limits
fn accept_all_future<S: AStream + Send + 'static>(u: AUpgrade<S>, h: &Headers) { sends(&u.accept_with_headers_and_limits(h, 1, 2)) }
// @send src/server/upgrade/async.rs:WsUpgrade::reject
fn reject_future<S: AStream + Send + 'static>(u: AUpgrade<S>) { sends(&u.reject()) }
// @send src/server/upgrade/async.rs:WsUpgrade::reject_with
fn reject_with_future<S: AStream + Send + 'static>(u: AUpgrade<S>, h: &Headers) { sends(&u.reject_with(h)) }
// @send src/client/builder.rs:ClientBuilder::async_connect
fn connect_future(b: ClientBuilder<'static>) { sends(&b.async_connect(None)) }
// @send src/client/builder.rs:ClientBuilder::async_connect_secure
fn connect_secure_future(b: ClientBuilder<'static>) { sends(&b.async_connect_secure(None)) }
// @send src/client/builder.rs:ClientBuilder::async_connect_insecure
fn connect_insecure_future(b: ClientBuilder<'static>) { sends(&b.async_connect_insecure()) }
// @send src/client/builder.rs:ClientBuilder::async_connect_on
fn connect_on_future<S: AStream + Send + 'static>(b: ClientBuilder<'static>, s: S) { sends(&b.async_connect_on(s)) }
// @send src/client/builder.rs:ClientBuilder::connect
fn connect_result(b: &mut ClientBuilder<'static>) { sends(&b.connect(None)) }
// @send src/client/builder.rs:ClientBuilder::connect_on
fn connect_on_result<S: Stream + Send>(b: &mut ClientBuilder<'static>, s: S) { sends(&b.connect_on(s)) }
// @send src/server/upgrade/sync.rs:WsUpgrade::accept
fn accept_result<S: Stream + Send>(u: Upgrade<S>) { sends(&u.accept()) }
// @send src/server/upgrade/sync.rs:IntoWs::into_ws
fn into_ws_result<S: Stream + Send>(s: S) { sends(&SIntoWs::into_ws(s)) }
// @send src/client/sync.rs:Client::split
fn split_result(c: Client<TcpStream>) { sends(&c.split()) }
// @send src/client/sync.rs:Client::split
fn split_pair_result<R: Read + Send, W: Write + Send>(c: Client<ReadWritePair<R, W>>) { sends(&c.split()) }
// @send src/server/sync.rs:WsServer::accept
fn server_accept_result(mut s: websocket::sync::Server<NoTlsAcceptor>) { sends(&s.accept()) }
// @send src/server/sync.rs:WsServer::accept
fn tls_accept_result(mut s: websocket::sync::Server<TlsAcceptor>) { sends(&s.accept()) }

// legal twins

// @twin
fn accept_ok(mut u: Upgrade<TcpStream>) { u.accept(); }
// @twin
fn accept_with_ok(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with(h); }
// @twin
fn accept_limits_ok(mut u: Upgrade<TcpStream>) { u.accept_with_limits(1, 2); }
// @twin
fn accept_all_ok(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with_headers_and_limits(h, 1, 2); }
// @twin
fn reject_ok(mut u: Upgrade<TcpStream>) { u.reject(); }
// @twin
fn reject_with_ok(mut u: Upgrade<TcpStream>, h: &Headers) { u.reject_with(h); }
// @twin
fn drop_ok(mut u: Upgrade<TcpStream>) { u.drop(); }
// @twin
fn a_accept_ok(mut u: AUpgrade<ATcp>) { u.accept(); }
// @twin
fn a_accept_with_ok(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with(h); }
// @twin
fn a_accept_limits_ok(mut u: AUpgrade<ATcp>) { u.accept_with_limits(1, 2); }
// @twin
fn a_accept_all_ok(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with_headers_and_limits(h, 1, 2); }
// @twin
fn a_reject_ok(mut u: AUpgrade<ATcp>) { u.reject(); }
// @twin
fn a_reject_with_ok(mut u: AUpgrade<ATcp>, h: &Headers) { u.reject_with(h); }
// @twin
fn split_ok(mut c: Client<TcpStream>) { c.split(); }
// @twin
fn take_ok(mut c: Client<TcpStream>) { c.into_stream(); }
// @twin
fn use_ok(mut c: Client<TcpStream>) { c.recv_message(); c.send_message(&Message::ping(&b""[..])); c.shutdown(); }
// @twin
fn reader_ok(mut r: Reader<TcpStream>) { r.recv_message(); r.recv_dataframe(); r.incoming_messages(); r.incoming_dataframes(); }
// @twin
fn writer_ok(mut w: Writer<TcpStream>, f: DataFrame) { w.send_message(&Message::ping(&b""[..])); w.send_dataframe(&f); }
// @twin
fn sender_ok(mut s: Sender, mut t: TcpStream, f: DataFrame) { s.send_message(&mut t, &Message::ping(&b""[..])); s.send_dataframe(&mut t, &f); }
// @twin
fn receiver_ok(mut r: Receiver, mut t: BufReader<TcpStream>) { r.recv_message(&mut t); r.recv_dataframe(&mut t); }
// @twin
fn into_ws_ok(s: TcpStream) { SIntoWs::into_ws(s); }
// @twin
fn a_into_ws_ok(s: ATcp) { AIntoWs::into_ws(s); }
// @twin
fn incoming_ok(s: websocket::r#async::Server<NoTlsAcceptor>) { s.incoming(); }
// @twin
fn read_ok(mut c: Client<TcpStream>) { c.recv_message(); c.incoming_messages(); c.send_message(&Message::ping(&b""[..])); }

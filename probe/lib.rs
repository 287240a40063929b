//! Concrete uses of the generic public interface. Nothing here is ever run: the analysis reads the MIR of these
//! functions, and through them of the instantiated library code.
#![allow(dead_code)]
extern crate bytes;
extern crate futures;
extern crate hyper;
extern crate native_tls;
extern crate url;
extern crate tokio_codec;
extern crate websocket;
extern crate websocket_base;

use bytes::BytesMut;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{Read, Write};
use tokio_codec::{Decoder, Encoder};
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use std::borrow::Cow;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::message::{CloseData, Message, OwnedMessage};
use websocket::result::{WebSocketError, WebSocketResult};
use websocket::receiver::Receiver;
use websocket::sender::Sender;
use websocket::ws::Receiver as Recv;
use websocket::sync::Reader;
use websocket::sync::stream::Splittable;
use websocket::sync::{Client, Stream, Writer};
use websocket::ws::dataframe::DataFrame as Frame;
use websocket::ws::Message as Msg;

/// a data frame written by a user of the library: its payload may be refused after part of it was written
pub struct Part {
    pub last: bool,
    pub code: u8,
    pub bits: [bool; 3],
    pub first: Vec<u8>,
    pub second: Vec<u8>,
    pub refuse: bool,
}

impl Frame for Part {
    fn is_last(&self) -> bool {
        self.last
    }
    fn opcode(&self) -> u8 {
        self.code
    }
    fn reserved(&self) -> &[bool; 3] {
        &self.bits
    }
    fn size(&self) -> usize {
        self.first.len() + self.second.len()
    }
    fn write_payload(&self, socket: &mut dyn Write) -> WebSocketResult<()> {
        socket.write_all(&self.first)?;
        if self.refuse {
            return Err(WebSocketError::ProtocolError("refused"));
        }
        socket.write_all(&self.second)?;
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        let mut v = self.first;
        v.extend_from_slice(&self.second);
        v
    }
}

// ---- sizes

pub fn size_of<F: Frame>(f: &F) -> usize {
    f.size()
}
macro_rules! sizes {
    ($t:ty, $size:ident, $fsize:ident, $msize:ident, $wp:ident, $tp:ident, $wt:ident) => {
        pub fn $size(f: &$t) -> usize {
            Frame::size(f)
        }
        pub fn $fsize(f: &$t, masked: bool) -> usize {
            Frame::frame_size(f, masked)
        }
        pub fn $wp(f: &$t, out: &mut dyn Write) -> WebSocketResult<()> {
            Frame::write_payload(f, out)
        }
        pub fn $tp(f: &$t) -> Vec<u8> {
            Frame::take_payload(f.clone())
        }
        pub fn $wt(f: &$t, out: &mut dyn Write, masked: bool) -> WebSocketResult<()> {
            Frame::write_to(f, out, masked)
        }
    };
}
sizes!(DataFrame, size_frame, frame_size_frame, x1, payload_frame, take_frame, write_frame);
sizes!(Message<'static>, size_message, frame_size_message, x2, payload_message, take_message, write_message);
sizes!(OwnedMessage, size_owned, frame_size_owned, x3, payload_owned, take_owned, write_owned);
pub fn frame_size_part(f: &Part, masked: bool) -> usize {
    f.frame_size(masked)
}
pub fn write_part(f: &Part, out: &mut dyn Write, masked: bool) -> WebSocketResult<()> {
    f.write_to(out, masked)
}
pub fn message_size_message(f: &Message<'static>, masked: bool) -> usize {
    f.message_size(masked)
}
pub fn message_size_owned(f: &OwnedMessage, masked: bool) -> usize {
    f.message_size(masked)
}
pub fn serialize_message(f: &Message<'static>, out: &mut dyn Write, masked: bool) -> WebSocketResult<()> {
    f.serialize(out, masked)
}
pub fn serialize_owned(f: &OwnedMessage, out: &mut dyn Write, masked: bool) -> WebSocketResult<()> {
    f.serialize(out, masked)
}

// ---- sending

pub fn client_frame<S: Stream>(c: &mut Client<S>, f: &DataFrame) -> WebSocketResult<()> {
    c.send_dataframe(f)
}
pub fn client_part<S: Stream>(c: &mut Client<S>, f: &Part) -> WebSocketResult<()> {
    c.send_dataframe(f)
}
pub fn client_message<S: Stream>(c: &mut Client<S>, f: &Message<'static>) -> WebSocketResult<()> {
    c.send_message(f)
}
pub fn client_owned<S: Stream>(c: &mut Client<S>, f: &OwnedMessage) -> WebSocketResult<()> {
    c.send_message(f)
}
pub fn writer_frame<W: Write>(c: &mut Writer<W>, f: &DataFrame) -> WebSocketResult<()> {
    c.send_dataframe(f)
}
pub fn writer_part<W: Write>(c: &mut Writer<W>, f: &Part) -> WebSocketResult<()> {
    c.send_dataframe(f)
}
pub fn writer_message<W: Write>(c: &mut Writer<W>, f: &Message<'static>) -> WebSocketResult<()> {
    c.send_message(f)
}
pub fn writer_owned<W: Write>(c: &mut Writer<W>, f: &OwnedMessage) -> WebSocketResult<()> {
    c.send_message(f)
}
pub fn encode_frame(ctx: Context, f: DataFrame, dst: &mut BytesMut) -> WebSocketResult<()> {
    let b: Box<dyn Frame> = Box::new(f);
    let mut c: DataFrameCodec<Box<dyn Frame>> = DataFrameCodec::new(ctx);
    c.encode(b, dst)
}
pub fn encode_part(ctx: Context, f: Part, dst: &mut BytesMut) -> WebSocketResult<()> {
    let b: Box<dyn Frame> = Box::new(f);
    let mut c: DataFrameCodec<Box<dyn Frame>> = DataFrameCodec::new(ctx);
    c.encode(b, dst)
}
pub fn encode_message(ctx: Context, f: Message<'static>, dst: &mut BytesMut) -> WebSocketResult<()> {
    let mut c: MessageCodec<Message<'static>> = MessageCodec::new(ctx);
    c.encode(f, dst)
}
pub fn encode_owned(ctx: Context, f: OwnedMessage, dst: &mut BytesMut) -> WebSocketResult<()> {
    let mut c: MessageCodec<OwnedMessage> = MessageCodec::new(ctx);
    c.encode(f, dst)
}

pub fn new_client_frame<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool, f: &DataFrame) -> WebSocketResult<()> {
    let mut c = Client::unchecked(r, h, out, inm);
    c.send_dataframe(f)
}
pub fn new_client_limits_frame<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool, a: usize, b: usize, f: &DataFrame) -> WebSocketResult<()> {
    let mut c = Client::unchecked_with_limits(r, h, out, inm, a, b);
    c.send_dataframe(f)
}
pub fn new_client_part<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool, f: &Part) -> WebSocketResult<()> {
    let mut c = Client::unchecked(r, h, out, inm);
    c.send_dataframe(f)
}
pub fn new_client_message<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool, f: &Message<'static>) -> WebSocketResult<()> {
    let mut c = Client::unchecked(r, h, out, inm);
    c.send_message(f)
}
pub fn new_client_owned<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool, f: &OwnedMessage) -> WebSocketResult<()> {
    let mut c = Client::unchecked(r, h, out, inm);
    c.send_message(f)
}
pub fn new_client_split_frame<S: Stream + Splittable>(
    r: BufReader<S>, h: Headers, out: bool, inm: bool, f: &DataFrame,
) -> Result<WebSocketResult<()>, std::io::Error>
where
    S::Reader: Read,
    S::Writer: Write,
{
    let c = Client::unchecked(r, h, out, inm);
    let (_, mut w) = c.split()?;
    Ok(w.send_dataframe(f))
}
pub fn new_writer_frame<W: Write>(w: W, out: bool, f: &DataFrame) -> WebSocketResult<()> {
    let mut c = Writer { stream: w, sender: Sender::new(out) };
    c.send_dataframe(f)
}
pub fn new_writer_part<W: Write>(w: W, out: bool, f: &Part) -> WebSocketResult<()> {
    let mut c = Writer { stream: w, sender: Sender::new(out) };
    c.send_dataframe(f)
}
pub fn new_writer_message<W: Write>(w: W, out: bool, f: &Message<'static>) -> WebSocketResult<()> {
    let mut c = Writer { stream: w, sender: Sender::new(out) };
    c.send_message(f)
}
pub fn new_writer_owned<W: Write>(w: W, out: bool, f: &OwnedMessage) -> WebSocketResult<()> {
    let mut c = Writer { stream: w, sender: Sender::new(out) };
    c.send_message(f)
}

// ---- receiving

pub fn assemble_frames(v: Vec<DataFrame>) -> WebSocketResult<OwnedMessage> {
    OwnedMessage::from_dataframes(v)
}
pub fn assemble_parts(v: Vec<Part>) -> WebSocketResult<OwnedMessage> {
    OwnedMessage::from_dataframes(v)
}
pub fn assemble_message(v: Vec<DataFrame>) -> WebSocketResult<Message<'static>> {
    Message::from_dataframes(v)
}
pub fn decode_message(c: &mut MessageCodec<OwnedMessage>, src: &mut BytesMut) -> WebSocketResult<Option<OwnedMessage>> {
    c.decode(src)
}

pub fn new_receiver(mask: bool, frame: usize, message: usize) -> Receiver {
    Receiver::new_with_limits(mask, frame, message)
}
pub fn new_default_receiver(mask: bool) -> Receiver {
    Receiver::new(mask)
}
pub fn recv_frames<R: Read>(r: &mut Receiver, from: &mut R) -> WebSocketResult<Vec<DataFrame>> {
    r.recv_message_dataframes(from)
}
pub fn recv_owned<R: Read>(r: &mut Receiver, from: &mut R) -> WebSocketResult<OwnedMessage> {
    r.recv_message(from)
}
pub fn recv_one<R: Read>(r: &mut Receiver, from: &mut R) -> WebSocketResult<DataFrame> {
    r.recv_dataframe(from)
}
pub fn new_client<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool, a: usize, b: usize) -> Client<S> {
    Client::unchecked_with_limits(r, h, out, inm, a, b)
}
pub fn new_default_client<S: Stream>(r: BufReader<S>, h: Headers, out: bool, inm: bool) -> Client<S> {
    Client::unchecked(r, h, out, inm)
}
pub fn client_recv_owned<S: Stream>(c: &mut Client<S>) -> WebSocketResult<OwnedMessage> {
    c.recv_message()
}
pub fn client_recv_one<S: Stream>(c: &mut Client<S>) -> WebSocketResult<DataFrame> {
    c.recv_dataframe()
}
pub fn reader_recv_owned<S: Stream>(c: &mut Reader<S>) -> WebSocketResult<OwnedMessage> {
    c.recv_message()
}
pub fn reader_recv_one<S: Stream>(c: &mut Reader<S>) -> WebSocketResult<DataFrame> {
    c.recv_dataframe()
}
pub fn new_codec(c: Context, frame: usize, message: usize) -> MessageCodec<OwnedMessage> {
    MessageCodec::new_with_limits(c, frame, message)
}
pub fn new_default_codec(c: Context) -> MessageCodec<OwnedMessage> {
    MessageCodec::default(c)
}
pub fn new_frame_codec(c: Context, frame: usize) -> DataFrameCodec<DataFrame> {
    DataFrameCodec::new_with_limits(c, frame)
}
pub fn new_default_frame_codec(c: Context) -> DataFrameCodec<DataFrame> {
    DataFrameCodec::default(c)
}
pub fn decode_frame(c: &mut DataFrameCodec<DataFrame>, src: &mut BytesMut) -> WebSocketResult<Option<DataFrame>> {
    c.decode(src)
}

// ---- constructors, conversions, predicates

pub fn text_string(s: String) -> Message<'static> {
    Message::text(s)
}
pub fn text_str(s: &'static str) -> Message<'static> {
    Message::text(s)
}
pub fn binary_vec(s: Vec<u8>) -> Message<'static> {
    Message::binary(s)
}
pub fn binary_slice(s: &'static [u8]) -> Message<'static> {
    Message::binary(s)
}
pub fn binary_cow(s: Cow<'static, [u8]>) -> Message<'static> {
    Message::binary(s)
}
pub fn ping_vec(s: Vec<u8>) -> Message<'static> {
    Message::ping(s)
}
pub fn ping_slice(s: &'static [u8]) -> Message<'static> {
    Message::ping(s)
}
pub fn pong_vec(s: Vec<u8>) -> Message<'static> {
    Message::pong(s)
}
pub fn pong_slice(s: &'static [u8]) -> Message<'static> {
    Message::pong(s)
}
pub fn close_none() -> Message<'static> {
    Message::close()
}
pub fn close_string(c: u16, s: String) -> Message<'static> {
    Message::close_because(c, s)
}
pub fn close_str(c: u16, s: &'static str) -> Message<'static> {
    Message::close_because(c, s)
}
pub fn owned_of_message(m: Message<'static>) -> OwnedMessage {
    OwnedMessage::from(m)
}
pub fn owned_of_string(m: String) -> OwnedMessage {
    OwnedMessage::from(m)
}
pub fn owned_of_vec(m: Vec<u8>) -> OwnedMessage {
    OwnedMessage::from(m)
}
pub fn message_of_owned(m: OwnedMessage) -> Message<'static> {
    Message::from(m)
}
pub fn into_pong(m: &mut Message<'static>) -> Result<(), ()> {
    m.into_pong()
}
pub fn is_close(m: &OwnedMessage) -> bool {
    m.is_close()
}
pub fn is_control(m: &OwnedMessage) -> bool {
    m.is_control()
}
pub fn is_data(m: &OwnedMessage) -> bool {
    m.is_data()
}
pub fn is_ping(m: &OwnedMessage) -> bool {
    m.is_ping()
}
pub fn is_pong(m: &OwnedMessage) -> bool {
    m.is_pong()
}
macro_rules! facts {
    ($t:ty, $op:ident, $last:ident, $rsv:ident) => {
        pub fn $op(m: &$t) -> u8 {
            m.opcode()
        }
        pub fn $last(m: &$t) -> bool {
            m.is_last()
        }
        pub fn $rsv(m: &$t) -> [bool; 3] {
            *m.reserved()
        }
    };
}
facts!(DataFrame, opcode_frame, last_frame, reserved_frame);
facts!(Message<'static>, opcode_message, last_message, reserved_message);
facts!(OwnedMessage, opcode_owned, last_owned, reserved_owned);
pub fn frame_new(last: bool, op: Opcode, data: Vec<u8>) -> DataFrame {
    DataFrame::new(last, op, data)
}
pub fn opcode_new(op: u8) -> Option<Opcode> {
    Opcode::new(op)
}
pub fn close_data(c: u16, s: String) -> CloseData {
    CloseData::new(c, s)
}
pub fn close_data_bytes(c: CloseData) -> std::io::Result<Vec<u8>> {
    c.into_bytes()
}

// ---- errors

use std::error::Error as StdError;
use websocket::codec::http::HttpCodecError;
use websocket::result::{WSUrlErrorKind, WebSocketOtherError};
use websocket::server::upgrade::HyperIntoWsError;

pub fn ws_of_io(e: std::io::Error) -> WebSocketError {
    WebSocketError::from(e)
}
pub fn ws_of_utf8(e: std::str::Utf8Error) -> WebSocketError {
    WebSocketError::from(e)
}
pub fn ws_of_other(e: WebSocketOtherError) -> WebSocketError {
    WebSocketError::from(e)
}
pub fn other_of_http(e: hyper::Error) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn other_of_url(e: url::ParseError) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn other_of_tls(e: native_tls::Error) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn other_of_tls_handshake<S>(e: native_tls::HandshakeError<S>) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn other_of_codec(e: HttpCodecError) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn other_of_wsurl(e: WSUrlErrorKind) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn other_of_upgrade(e: HyperIntoWsError) -> WebSocketOtherError {
    WebSocketOtherError::from(e)
}
pub fn upgrade_of_io(e: std::io::Error) -> HyperIntoWsError {
    HyperIntoWsError::from(e)
}
pub fn upgrade_of_http(e: hyper::Error) -> HyperIntoWsError {
    HyperIntoWsError::from(e)
}
pub fn upgrade_of_codec(e: HttpCodecError) -> HyperIntoWsError {
    HyperIntoWsError::from(e)
}
pub fn codec_of_io(e: std::io::Error) -> HttpCodecError {
    HttpCodecError::from(e)
}
pub fn codec_of_http(e: hyper::Error) -> HttpCodecError {
    HttpCodecError::from(e)
}
pub fn source_ws(e: &WebSocketError) -> Option<&(dyn StdError + 'static)> {
    e.source()
}
pub fn source_other(e: &WebSocketOtherError) -> Option<&(dyn StdError + 'static)> {
    e.source()
}
pub fn source_upgrade(e: &HyperIntoWsError) -> Option<&(dyn StdError + 'static)> {
    e.source()
}
pub fn source_codec(e: &HttpCodecError) -> Option<&(dyn StdError + 'static)> {
    e.source()
}
pub fn source_of_other(e: WebSocketOtherError) -> bool {
    WebSocketError::from(e).source().is_some()
}

// ---- iterators

pub fn next_message<S: Stream>(c: &mut Client<S>) -> Option<WebSocketResult<OwnedMessage>> {
    c.incoming_messages().next()
}
pub fn next_frame<S: Stream>(c: &mut Client<S>) -> Option<WebSocketResult<DataFrame>> {
    c.incoming_dataframes().next()
}
pub fn reader_next_message<R: Read>(c: &mut Reader<R>) -> Option<WebSocketResult<OwnedMessage>> {
    c.incoming_messages().next()
}
pub fn reader_next_frame<R: Read>(c: &mut Reader<R>) -> Option<WebSocketResult<DataFrame>> {
    c.incoming_dataframes().next()
}
pub fn receiver_next_message<R: Read>(r: &mut Receiver, from: &mut R) -> Option<WebSocketResult<OwnedMessage>> {
    r.incoming_messages(from).next()
}
pub fn receiver_next_frame<R: Read>(r: &mut Receiver, from: &mut R) -> Option<WebSocketResult<DataFrame>> {
    r.incoming_dataframes(from).next()
}

// ---- halves

use websocket::stream::sync::{AsTcpStream, TcpStream, TlsStream};
use websocket::stream::ReadWritePair;
use websocket::stream::r#async::{AsyncRead, AsyncWrite};

pub fn pair_read<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: &mut [u8]) -> std::io::Result<usize> {
    p.read(b)
}
pub fn pair_read_to_end<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: &mut Vec<u8>) -> std::io::Result<usize> {
    p.read_to_end(b)
}
pub fn pair_read_to_string<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: &mut String) -> std::io::Result<usize> {
    p.read_to_string(b)
}
pub fn pair_read_exact<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: &mut [u8]) -> std::io::Result<()> {
    p.read_exact(b)
}
pub fn pair_write<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: &[u8]) -> std::io::Result<usize> {
    p.write(b)
}
pub fn pair_write_all<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: &[u8]) -> std::io::Result<()> {
    p.write_all(b)
}
pub fn pair_write_fmt<R: Read, W: Write>(p: &mut ReadWritePair<R, W>, b: std::fmt::Arguments) -> std::io::Result<()> {
    p.write_fmt(b)
}
pub fn pair_flush<R: Read, W: Write>(p: &mut ReadWritePair<R, W>) -> std::io::Result<()> {
    p.flush()
}
pub fn pair_shutdown<R: AsyncRead, W: AsyncWrite>(p: &mut ReadWritePair<R, W>) -> futures::Poll<(), std::io::Error> {
    p.shutdown()
}
pub fn pair_split<R: Read, W: Write>(p: ReadWritePair<R, W>) -> std::io::Result<(R, W)> {
    p.split()
}
pub fn tcp_split(p: TcpStream) -> std::io::Result<(TcpStream, TcpStream)> {
    p.split()
}
pub fn tcp_as_tcp(p: &TcpStream) -> &TcpStream {
    p.as_tcp()
}
pub fn tls_as_tcp(p: &TlsStream<TcpStream>) -> &TcpStream {
    p.as_tcp()
}
pub fn box_as_tcp<S: AsTcpStream>(p: &Box<S>) -> &TcpStream {
    p.as_tcp()
}
pub fn client_shutdown_sender(c: &Client<TcpStream>) -> std::io::Result<()> {
    c.shutdown_sender()
}
pub fn client_shutdown_receiver(c: &Client<TcpStream>) -> std::io::Result<()> {
    c.shutdown_receiver()
}
pub fn client_shutdown<S: AsTcpStream + Stream>(c: &Client<S>) -> std::io::Result<()> {
    c.shutdown()
}
pub fn client_peer_addr<S: AsTcpStream + Stream>(c: &Client<S>) -> std::io::Result<std::net::SocketAddr> {
    c.peer_addr()
}
pub fn client_local_addr<S: AsTcpStream + Stream>(c: &Client<S>) -> std::io::Result<std::net::SocketAddr> {
    c.local_addr()
}
pub fn client_set_nodelay<S: AsTcpStream + Stream>(c: &mut Client<S>, v: bool) -> std::io::Result<()> {
    c.set_nodelay(v)
}
pub fn client_set_nonblocking<S: AsTcpStream + Stream>(c: &Client<S>, v: bool) -> std::io::Result<()> {
    c.set_nonblocking(v)
}
pub fn writer_shutdown<S: AsTcpStream + Write>(c: &Writer<S>) -> std::io::Result<()> {
    c.shutdown()
}
pub fn writer_shutdown_all<S: AsTcpStream + Write>(c: &Writer<S>) -> std::io::Result<()> {
    c.shutdown_all()
}
pub fn reader_shutdown<S: AsTcpStream + Stream>(c: &Reader<S>) -> std::io::Result<()> {
    c.shutdown()
}
pub fn reader_shutdown_all<S: AsTcpStream + Stream>(c: &Reader<S>) -> std::io::Result<()> {
    c.shutdown_all()
}
pub fn client_split<S: Splittable + Stream>(c: Client<S>) -> std::io::Result<(Reader<S::Reader>, Writer<S::Writer>)> {
    c.split()
}
pub fn client_stream_ref<S: Stream>(c: &Client<S>) -> &S {
    c.stream_ref()
}
pub fn client_writer_flush<S: Stream>(c: &mut Client<S>) -> std::io::Result<()> {
    c.writer_mut().flush()
}
pub fn client_writer_write<S: Stream>(c: &mut Client<S>, b: &[u8]) -> std::io::Result<()> {
    c.writer_mut().write_all(b)
}
pub fn client_into_stream<S: Stream>(c: Client<S>) -> (S, Option<(Vec<u8>, usize, usize)>) {
    c.into_stream()
}
use websocket::server::sync::AcceptResult;
use websocket::server::NoTlsAcceptor;
use websocket::sync::Server;

// ---- server handshakes

use websocket::server::upgrade::r#async as aup;
use websocket::server::upgrade::sync as sup;
use websocket::server::upgrade::Request;
use websocket::stream::r#async::Stream as AStream;
use websocket::header::extensions::Extension;
use websocket::header::{WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion, Origin};

pub fn into_ws<S: Stream>(s: S) -> Result<sup::Upgrade<S>, (S, Option<Request>, Option<sup::Buffer>, HyperIntoWsError)> {
    sup::IntoWs::into_ws(s)
}
pub fn into_ws_pair<S: Stream>(s: S, r: Request) -> Result<sup::Upgrade<S>, (S, Request, HyperIntoWsError)> {
    sup::IntoWs::into_ws(sup::RequestStreamPair(s, r))
}
pub fn into_ws_hyper<'a, 'b>(r: hyper::server::Request<'a, 'b>) -> Result<sup::Upgrade<&'a mut &'b mut dyn hyper::net::NetworkStream>, (hyper::server::Request<'a, 'b>, HyperIntoWsError)> {
    sup::IntoWs::into_ws(sup::HyperRequest(r))
}
pub fn into_ws_async<S: AStream + Send + 'static>(s: S) -> Box<dyn futures::Future<Item = aup::Upgrade<S>, Error = (S, Option<Request>, BytesMut, HyperIntoWsError)> + Send> {
    aup::IntoWs::into_ws(s)
}
pub fn accept<S: Stream>(u: sup::Upgrade<S>) -> Result<Client<S>, (S, std::io::Error)> {
    u.accept()
}
pub fn accept_with<S: Stream>(u: sup::Upgrade<S>, h: &Headers) -> Result<Client<S>, (S, std::io::Error)> {
    u.accept_with(h)
}
pub fn accept_limits<S: Stream>(u: sup::Upgrade<S>, d: usize, m: usize) -> Result<Client<S>, (S, std::io::Error)> {
    u.accept_with_limits(d, m)
}
pub fn accept_both<S: Stream>(u: sup::Upgrade<S>, h: &Headers, d: usize, m: usize) -> Result<Client<S>, (S, std::io::Error)> {
    u.accept_with_headers_and_limits(h, d, m)
}
pub fn reject<S: Stream>(u: sup::Upgrade<S>) -> Result<S, (S, std::io::Error)> {
    u.reject()
}
pub fn reject_with<S: Stream>(u: sup::Upgrade<S>, h: &Headers) -> Result<S, (S, std::io::Error)> {
    u.reject_with(h)
}
pub fn async_accept<S: AStream + Send + 'static>(u: aup::Upgrade<S>) -> websocket::r#async::client::ClientNew<S> {
    u.accept()
}
pub fn async_accept_with<S: AStream + Send + 'static>(u: aup::Upgrade<S>, h: &Headers) -> websocket::r#async::client::ClientNew<S> {
    u.accept_with(h)
}
pub fn async_accept_limits<S: AStream + Send + 'static>(u: aup::Upgrade<S>, d: usize, m: usize) -> websocket::r#async::client::ClientNew<S> {
    u.accept_with_limits(d, m)
}
pub fn async_accept_both<S: AStream + Send + 'static>(u: aup::Upgrade<S>, h: &Headers, d: usize, m: usize) -> websocket::r#async::client::ClientNew<S> {
    u.accept_with_headers_and_limits(h, d, m)
}
pub fn async_reject<S: AStream + Send + 'static>(u: aup::Upgrade<S>) -> futures::sink::Send<tokio_codec::Framed<S, websocket::codec::http::HttpServerCodec>> {
    u.reject()
}
pub fn async_reject_with<S: AStream + Send + 'static>(u: aup::Upgrade<S>, h: &Headers) -> futures::sink::Send<tokio_codec::Framed<S, websocket::codec::http::HttpServerCodec>> {
    u.reject_with(h)
}
pub fn up_protocol<S: Stream>(u: sup::Upgrade<S>, p: String) -> sup::Upgrade<S> {
    u.use_protocol(p)
}
pub fn up_extension<S: Stream>(u: sup::Upgrade<S>, e: Extension) -> sup::Upgrade<S> {
    u.use_extension(e)
}
pub fn up_extensions<S: Stream>(u: sup::Upgrade<S>, e: Vec<Extension>) -> sup::Upgrade<S> {
    u.use_extensions(e)
}
pub fn aup_protocol<S: AStream>(u: aup::Upgrade<S>, p: String) -> aup::Upgrade<S> {
    u.use_protocol(p)
}
pub fn aup_extension<S: AStream>(u: aup::Upgrade<S>, e: Extension) -> aup::Upgrade<S> {
    u.use_extension(e)
}
pub fn aup_extensions<S: AStream>(u: aup::Upgrade<S>, e: Vec<Extension>) -> aup::Upgrade<S> {
    u.use_extensions(e)
}
pub fn up_protocols<S: Stream>(u: &sup::Upgrade<S>) -> &[String] {
    u.protocols()
}
pub fn up_exts<S: Stream>(u: &sup::Upgrade<S>) -> &[Extension] {
    u.extensions()
}
pub fn up_key<S: Stream>(u: &sup::Upgrade<S>) -> Option<&[u8; 16]> {
    u.key()
}
pub fn up_version<S: Stream>(u: &sup::Upgrade<S>) -> Option<&WebSocketVersion> {
    u.version()
}
pub fn up_origin<S: Stream>(u: &sup::Upgrade<S>) -> Option<&str> {
    u.origin()
}
pub fn up_uri<S: Stream>(u: &sup::Upgrade<S>) -> String {
    u.uri()
}
pub fn up_tcp<S: Stream + AsTcpStream>(u: &sup::Upgrade<S>) -> &TcpStream {
    u.tcp_stream()
}
pub fn accept_of(k: &WebSocketKey) -> WebSocketAccept {
    WebSocketAccept::new(k)
}

// ---- servers

pub fn server_accept(s: &mut Server<NoTlsAcceptor>) -> AcceptResult<TcpStream> {
    s.accept()
}
pub fn tls_server_accept(s: &mut Server<native_tls::TlsAcceptor>) -> AcceptResult<TlsStream<TcpStream>> {
    s.accept()
}
pub fn server_next(s: &mut Server<NoTlsAcceptor>) -> Option<AcceptResult<TcpStream>> {
    s.next()
}
pub fn tls_server_next(s: &mut Server<native_tls::TlsAcceptor>) -> Option<AcceptResult<TlsStream<TcpStream>>> {
    s.next()
}
pub fn async_incoming(s: websocket::r#async::Server<NoTlsAcceptor>) -> websocket::r#async::server::Incoming<websocket::r#async::TcpStream> {
    s.incoming()
}
pub fn async_tls_incoming(s: websocket::r#async::Server<native_tls::TlsAcceptor>) -> websocket::r#async::server::Incoming<websocket::r#async::client::TlsStream<websocket::r#async::TcpStream>> {
    s.incoming()
}

// ---- client handshakes

use websocket::client::builder::ClientBuilder;
use websocket::stream::sync::NetworkStream;

pub fn connect_on<S: Stream>(b: &mut ClientBuilder<'_>, s: S) -> WebSocketResult<Client<S>> {
    b.connect_on(s)
}
pub fn connect(b: &mut ClientBuilder<'_>, c: Option<native_tls::TlsConnector>) -> WebSocketResult<Client<Box<dyn NetworkStream + Send>>> {
    b.connect(c)
}
pub fn connect_insecure(b: &mut ClientBuilder<'_>) -> WebSocketResult<Client<TcpStream>> {
    b.connect_insecure()
}
pub fn connect_secure(b: &mut ClientBuilder<'_>, c: Option<native_tls::TlsConnector>) -> WebSocketResult<Client<TlsStream<TcpStream>>> {
    b.connect_secure(c)
}
pub fn async_connect_on<S: AStream + Send + 'static>(b: ClientBuilder<'_>, s: S) -> websocket::r#async::client::ClientNew<S> {
    b.async_connect_on(s)
}
pub fn async_connect(b: ClientBuilder<'_>, c: Option<native_tls::TlsConnector>) -> websocket::r#async::client::ClientNew<Box<dyn AStream + Send>> {
    b.async_connect(c)
}
pub fn async_connect_insecure(b: ClientBuilder<'_>) -> websocket::r#async::client::ClientNew<websocket::r#async::TcpStream> {
    b.async_connect_insecure()
}
pub fn async_connect_secure(b: ClientBuilder<'_>, c: Option<native_tls::TlsConnector>) -> websocket::r#async::client::ClientNew<websocket::r#async::client::TlsStream<websocket::r#async::TcpStream>> {
    b.async_connect_secure(c)
}

// ---- HTTP codecs

use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use hyper::http::h1::Incoming;

pub fn http_server_decode(c: &mut HttpServerCodec, b: &mut BytesMut) -> Result<Option<Request>, HttpCodecError> {
    Decoder::decode(c, b)
}
pub fn http_server_encode(c: &mut HttpServerCodec, i: Incoming<hyper::status::StatusCode>, b: &mut BytesMut) -> Result<(), std::io::Error> {
    Encoder::encode(c, i, b)
}
pub fn http_client_decode(c: &mut HttpClientCodec, b: &mut BytesMut) -> Result<Option<Incoming<hyper::http::RawStatus>>, HttpCodecError> {
    Decoder::decode(c, b)
}
pub fn http_client_encode(c: &mut HttpClientCodec, i: Request, b: &mut BytesMut) -> Result<(), std::io::Error> {
    Encoder::encode(c, i, b)
}

// ---- header values

use hyper::header::{Header, HeaderFormat};
use std::str::FromStr;

pub struct Printed<'a, H: HeaderFormat>(pub &'a H);
impl<'a, H: HeaderFormat> std::fmt::Display for Printed<'a, H> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt_header(f)
    }
}
pub fn print_key(h: &WebSocketKey) -> String {
    Printed(h).to_string()
}
pub fn print_accept(h: &WebSocketAccept) -> String {
    Printed(h).to_string()
}
pub fn print_version(h: &WebSocketVersion) -> String {
    Printed(h).to_string()
}
pub fn print_protocol(h: &WebSocketProtocol) -> String {
    Printed(h).to_string()
}
pub fn print_extensions(h: &WebSocketExtensions) -> String {
    Printed(h).to_string()
}
pub fn print_origin(h: &Origin) -> String {
    Printed(h).to_string()
}
pub fn show_version(h: &WebSocketVersion) -> String {
    h.to_string()
}
pub fn show_protocol(h: &WebSocketProtocol) -> String {
    h.to_string()
}
pub fn show_extensions(h: &WebSocketExtensions) -> String {
    h.to_string()
}
pub fn show_extension(h: &Extension) -> String {
    h.to_string()
}
pub fn show_origin(h: &Origin) -> String {
    h.to_string()
}
pub fn serialize_key(h: &WebSocketKey) -> String {
    h.serialize()
}
pub fn serialize_accept(h: &WebSocketAccept) -> String {
    h.serialize()
}
pub fn parse_key(r: &[Vec<u8>]) -> hyper::Result<WebSocketKey> {
    Header::parse_header(r)
}
pub fn parse_accept(r: &[Vec<u8>]) -> hyper::Result<WebSocketAccept> {
    Header::parse_header(r)
}
pub fn parse_version(r: &[Vec<u8>]) -> hyper::Result<WebSocketVersion> {
    Header::parse_header(r)
}
pub fn parse_protocol(r: &[Vec<u8>]) -> hyper::Result<WebSocketProtocol> {
    Header::parse_header(r)
}
pub fn parse_extensions(r: &[Vec<u8>]) -> hyper::Result<WebSocketExtensions> {
    Header::parse_header(r)
}
pub fn parse_origin(r: &[Vec<u8>]) -> hyper::Result<Origin> {
    Header::parse_header(r)
}
pub fn key_from(s: &str) -> WebSocketResult<WebSocketKey> {
    FromStr::from_str(s)
}
pub fn accept_from(s: &str) -> WebSocketResult<WebSocketAccept> {
    FromStr::from_str(s)
}
pub fn extension_from(s: &str) -> WebSocketResult<Extension> {
    FromStr::from_str(s)
}
pub fn key_from_array(a: [u8; 16]) -> WebSocketKey {
    WebSocketKey::from_array(a)
}
pub fn new_key() -> WebSocketKey {
    WebSocketKey::new()
}
pub fn name_key() -> &'static str {
    WebSocketKey::header_name()
}
pub fn name_accept() -> &'static str {
    WebSocketAccept::header_name()
}
pub fn name_version() -> &'static str {
    WebSocketVersion::header_name()
}
pub fn name_protocol() -> &'static str {
    WebSocketProtocol::header_name()
}
pub fn name_extensions() -> &'static str {
    WebSocketExtensions::header_name()
}
pub fn name_origin() -> &'static str {
    Origin::header_name()
}
pub fn base_key_from(s: &str) -> WebSocketResult<websocket_base::header::WebSocketKey> {
    FromStr::from_str(s)
}
pub fn base_accept_from(s: &str) -> WebSocketResult<websocket_base::header::WebSocketAccept> {
    FromStr::from_str(s)
}
pub fn update_codec<S: AsyncRead + AsyncWrite>(f: tokio_codec::Framed<S, HttpServerCodec>, c: MessageCodec<OwnedMessage>) -> tokio_codec::Framed<S, MessageCodec<OwnedMessage>> {
    websocket::ws::util::update_framed_codec(f, c)
}
pub fn new_sender(mask: bool) -> Sender {
    Sender::new(mask)
}

pub fn again_key(h: &WebSocketKey) -> hyper::Result<WebSocketKey> {
    Header::parse_header(&[Printed(h).to_string().into_bytes()])
}
pub fn again_accept(h: &WebSocketAccept) -> hyper::Result<WebSocketAccept> {
    Header::parse_header(&[Printed(h).to_string().into_bytes()])
}
pub fn again_version(h: &WebSocketVersion) -> hyper::Result<WebSocketVersion> {
    Header::parse_header(&[Printed(h).to_string().into_bytes()])
}
pub fn again_protocol(h: &WebSocketProtocol) -> hyper::Result<WebSocketProtocol> {
    Header::parse_header(&[Printed(h).to_string().into_bytes()])
}
pub fn again_extensions(h: &WebSocketExtensions) -> hyper::Result<WebSocketExtensions> {
    Header::parse_header(&[Printed(h).to_string().into_bytes()])
}
pub fn again_origin(h: &Origin) -> hyper::Result<Origin> {
    Header::parse_header(&[Printed(h).to_string().into_bytes()])
}
pub fn again_extension(e: &Extension) -> WebSocketResult<Extension> {
    e.to_string().parse()
}

// ---- client builders, made with the public methods only


/// a builder for a borrowed URL with the given settings
pub fn make_builder<'u>(url: &'u url::Url, headers: &Headers, key: Option<[u8; 16]>, version: Option<WebSocketVersion>, frame: usize, message: usize) -> ClientBuilder<'u> {
    let mut b = ClientBuilder::from_url(url).custom_headers(headers);
    if let Some(k) = key {
        b = b.key(k);
    }
    if let Some(v) = version {
        b = b.version(v);
    }
    b.max_dataframe_size(frame).max_message_size(message)
}
/// a builder with nothing set
pub fn plain_builder(url: &url::Url) -> ClientBuilder<'_> {
    ClientBuilder::from_url(url)
}
/// a builder whose key and version were set and cleared again
pub fn cleared_builder<'u>(url: &'u url::Url, headers: &Headers, key: [u8; 16], version: WebSocketVersion) -> ClientBuilder<'u> {
    ClientBuilder::from_url(url).custom_headers(headers).key(key).version(version).clear_key().clear_version()
}
/// a builder that owns its URL
pub fn parsed_builder<'u>(text: &str) -> Result<ClientBuilder<'u>, url::ParseError> {
    ClientBuilder::new(text)
}

// ---- one builder method each

type CB<'u> = ClientBuilder<'u>;
pub fn b_add_protocol<'u>(b: CB<'u>, p: String) -> CB<'u> {
    b.add_protocol(p)
}
pub fn b_add_protocols<'u>(b: CB<'u>, p: Vec<String>) -> CB<'u> {
    b.add_protocols(p)
}
pub fn b_clear_protocols<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_protocols()
}
pub fn b_add_extension<'u>(b: CB<'u>, e: Extension) -> CB<'u> {
    b.add_extension(e)
}
pub fn b_add_extensions<'u>(b: CB<'u>, e: Vec<Extension>) -> CB<'u> {
    b.add_extensions(e)
}
pub fn b_clear_extensions<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_extensions()
}
pub fn b_frame<'u>(b: CB<'u>, n: usize) -> CB<'u> {
    b.max_dataframe_size(n)
}
pub fn b_message<'u>(b: CB<'u>, n: usize) -> CB<'u> {
    b.max_message_size(n)
}
pub fn b_key<'u>(b: CB<'u>, k: [u8; 16]) -> CB<'u> {
    b.key(k)
}
pub fn b_clear_key<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_key()
}
pub fn b_version<'u>(b: CB<'u>, v: WebSocketVersion) -> CB<'u> {
    b.version(v)
}
pub fn b_clear_version<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_version()
}
pub fn b_origin<'u>(b: CB<'u>, o: String) -> CB<'u> {
    b.origin(o)
}
pub fn b_clear_origin<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_origin()
}
pub fn b_custom<'u>(b: CB<'u>, h: &Headers) -> CB<'u> {
    b.custom_headers(h)
}
pub fn b_drop_origin<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_header::<Origin>()
}
pub fn b_drop_host<'u>(b: CB<'u>) -> CB<'u> {
    b.clear_header::<hyper::header::Host>()
}
pub fn b_get_protocol<'a>(b: &'a CB<'_>) -> Option<&'a WebSocketProtocol> {
    b.get_header::<WebSocketProtocol>()
}
pub fn b_get_host<'a>(b: &'a CB<'_>) -> Option<&'a hyper::header::Host> {
    b.get_header::<hyper::header::Host>()
}

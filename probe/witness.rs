extern crate bytes;
extern crate hyper;
extern crate native_tls;
extern crate tokio_io;
extern crate websocket;
extern crate websocket_base;

use bytes::BytesMut;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use native_tls::TlsAcceptor;
use std::io::{Read, Write};
use std::net::TcpStream;
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::message::{Message, OwnedMessage};
use websocket::r#async::client::ClientNew;
use websocket::r#async::server::upgrade::IntoWs as AIntoWs;
use websocket::r#async::server::Incoming as AIncoming;
use websocket::r#async::server::Upgrade as AUpgrade;
use websocket::r#async::Client as AClient;
use websocket::r#async::Stream as AStream;
use websocket::r#async::TcpStream as ATcp;
use websocket::receiver::Receiver;
use websocket::sender::Sender;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::server::{InvalidConnection, NoTlsAcceptor};
use websocket::stream::ReadWritePair;
use websocket::sync::server::upgrade::{Buffer, IntoWs as SIntoWs, RequestStreamPair};
use websocket::sync::server::Upgrade;
use websocket::sync::stream::{NetworkStream, Splittable, TlsStream};
use websocket::sync::{Client, Reader, Stream, Writer};
use websocket::ws::{Receiver as _, Sender as _};
use websocket::ClientBuilder;

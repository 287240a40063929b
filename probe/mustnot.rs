//! Programs that must not compile because a value is used after the operation that takes it: one per function, with the error rustc must give for it. Compiled by rustc, never run.
#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_must_use)]
include!("witness.rs");

// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept | an upgrade can be accepted twice (accept does not take it)
fn accept_twice(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept(); u.accept(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept | an upgrade that was accepted can still be rejected
fn accept_then_reject(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept(); u.reject(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept_with | an upgrade can be accepted twice (accept_with does not take it)
fn accept_with_twice(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with(h); u.accept_with(h); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept_with | an upgrade that was accepted can still be rejected
fn accept_with_then_reject(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with(h); u.reject(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept_with_limits | an upgrade can be accepted twice (accept_with_limits does not take it)
fn accept_with_limits_twice(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with_limits(1, 2); u.accept_with_limits(1, 2); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept_with_limits | an upgrade that was accepted can still be rejected
fn accept_with_limits_then_reject(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with_limits(1, 2); u.reject(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept_with_headers_and_limits | an upgrade can be accepted twice (accept_with_headers_and_limits does not take it)
fn accept_with_headers_and_limits_twice(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with_headers_and_limits(h, 1, 2); u.accept_with_headers_and_limits(h, 1, 2); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::accept_with_headers_and_limits | an upgrade that was accepted can still be rejected
fn accept_with_headers_and_limits_then_reject(mut u: Upgrade<TcpStream>, h: &Headers) { u.accept_with_headers_and_limits(h, 1, 2); u.reject(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::reject | an upgrade can be rejected twice (reject does not take it)
fn reject_twice(mut u: Upgrade<TcpStream>, h: &Headers) { u.reject(); u.reject(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::reject | an upgrade that was rejected can still be accepted
fn reject_then_accept(mut u: Upgrade<TcpStream>, h: &Headers) { u.reject(); u.accept(); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::reject_with | an upgrade can be rejected twice (reject_with does not take it)
fn reject_with_twice(mut u: Upgrade<TcpStream>, h: &Headers) { u.reject_with(h); u.reject_with(h); }
// @not E0382 src/server/upgrade/sync.rs:WsUpgrade::reject_with | an upgrade that was rejected can still be accepted
fn reject_with_then_accept(mut u: Upgrade<TcpStream>, h: &Headers) { u.reject_with(h); u.accept(); }
// @not E0382 src/server/upgrade/mod.rs:WsUpgrade::drop | an upgrade can be accepted after it was dropped
fn drop_then_accept(mut u: Upgrade<TcpStream>) { u.drop(); u.accept(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept | an upgrade can be accepted twice (accept does not take it)
fn a_accept_twice(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept(); u.accept(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept | an upgrade that was accepted can still be rejected
fn a_accept_then_reject(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept(); u.reject(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept_with | an upgrade can be accepted twice (accept_with does not take it)
fn a_accept_with_twice(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with(h); u.accept_with(h); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept_with | an upgrade that was accepted can still be rejected
fn a_accept_with_then_reject(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with(h); u.reject(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept_with_limits | an upgrade can be accepted twice (accept_with_limits does not take it)
fn a_accept_with_limits_twice(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with_limits(1, 2); u.accept_with_limits(1, 2); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept_with_limits | an upgrade that was accepted can still be rejected
fn a_accept_with_limits_then_reject(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with_limits(1, 2); u.reject(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept_with_headers_and_limits | an upgrade can be accepted twice (accept_with_headers_and_limits does not take it)
fn a_accept_with_headers_and_limits_twice(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with_headers_and_limits(h, 1, 2); u.accept_with_headers_and_limits(h, 1, 2); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::accept_with_headers_and_limits | an upgrade that was accepted can still be rejected
fn a_accept_with_headers_and_limits_then_reject(mut u: AUpgrade<ATcp>, h: &Headers) { u.accept_with_headers_and_limits(h, 1, 2); u.reject(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::reject | an upgrade can be rejected twice (reject does not take it)
fn a_reject_twice(mut u: AUpgrade<ATcp>, h: &Headers) { u.reject(); u.reject(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::reject | an upgrade that was rejected can still be accepted
fn a_reject_then_accept(mut u: AUpgrade<ATcp>, h: &Headers) { u.reject(); u.accept(); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::reject_with | an upgrade can be rejected twice (reject_with does not take it)
fn a_reject_with_twice(mut u: AUpgrade<ATcp>, h: &Headers) { u.reject_with(h); u.reject_with(h); }
// @not E0382 src/server/upgrade/async.rs:WsUpgrade::reject_with | an upgrade that was rejected can still be accepted
fn a_reject_with_then_accept(mut u: AUpgrade<ATcp>, h: &Headers) { u.reject_with(h); u.accept(); }
// @not E0382 src/server/upgrade/mod.rs:WsUpgrade::drop | an upgrade can be accepted after it was dropped
fn a_drop_then_accept(mut u: AUpgrade<ATcp>) { u.drop(); u.accept(); }
// @not E0382 src/client/sync.rs:Client::split | a client can be used after splitting it
fn split_then_recv(mut c: Client<TcpStream>) { c.split(); c.recv_message(); }
// @not E0382 src/client/sync.rs:Client::split | a client can be used after splitting it
fn split_then_send(mut c: Client<TcpStream>) { c.split(); c.send_message(&Message::ping(&b""[..])); }
// @not E0382 src/client/sync.rs:Client::split | a client can be used after splitting it
fn split_then_shutdown(mut c: Client<TcpStream>) { c.split(); c.shutdown(); }
// @not E0382 src/client/sync.rs:Client::split | a client can be used after splitting it
fn split_then_split(mut c: Client<TcpStream>) { c.split(); c.split(); }
// @not E0382 src/client/sync.rs:Client::split | a client can be used after splitting it
fn split_then_take(mut c: Client<TcpStream>) { c.split(); c.into_stream(); }
// @not E0382 src/client/sync.rs:Client::into_stream | a client can be used after taking it apart
fn into_stream_then_recv(mut c: Client<TcpStream>) { c.into_stream(); c.recv_message(); }
// @not E0382 src/client/sync.rs:Client::into_stream | a client can be used after taking it apart
fn into_stream_then_send(mut c: Client<TcpStream>) { c.into_stream(); c.send_message(&Message::ping(&b""[..])); }
// @not E0382 src/client/sync.rs:Client::into_stream | a client can be used after taking it apart
fn into_stream_then_shutdown(mut c: Client<TcpStream>) { c.into_stream(); c.shutdown(); }
// @not E0382 src/client/sync.rs:Client::into_stream | a client can be used after taking it apart
fn into_stream_then_split(mut c: Client<TcpStream>) { c.into_stream(); c.split(); }
// @not E0382 src/client/sync.rs:Client::into_stream | a client can be used after taking it apart
fn into_stream_then_take(mut c: Client<TcpStream>) { c.into_stream(); c.into_stream(); }
// @not E0382 src/client/sync.rs:Client::split | a client can be used after splitting it
fn split_pair_then_recv(mut c: Client<ReadWritePair<TcpStream, TcpStream>>) { c.split(); c.recv_message(); }
// @not E0382 src/server/upgrade/sync.rs:IntoWs::into_ws | a stream can be used after it was turned into an upgrade
fn into_ws_twice(s: TcpStream) { SIntoWs::into_ws(s); s.peer_addr(); }
// @not E0382 src/server/upgrade/async.rs:IntoWs::into_ws | a stream can be used after it was turned into an upgrade
fn a_into_ws_twice(s: ATcp) { AIntoWs::into_ws(s); s.peer_addr(); }

//! Programs that must not compile because a half or a client does not have an operation: one per function, with the error rustc must give for it. Compiled by rustc, never run.
#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_must_use)]
include!("witness.rs");

fn clone<T: Clone>() {}
fn sender<T: websocket::ws::Sender>() {}
fn receiver<T: websocket::ws::Receiver>() {}

// @not E0599 src/sender.rs:Writer | a writer half can receive (recv_message)
fn writer_recv_message(w: &mut Writer<TcpStream>) { w.recv_message(); }
// @not E0599 src/sender.rs:Writer | a writer half can receive (recv_dataframe)
fn writer_recv_dataframe(w: &mut Writer<TcpStream>) { w.recv_dataframe(); }
// @not E0599 src/sender.rs:Writer | a writer half can receive (incoming_messages)
fn writer_incoming_messages(w: &mut Writer<TcpStream>) { w.incoming_messages(); }
// @not E0599 src/sender.rs:Writer | a writer half can receive (incoming_dataframes)
fn writer_incoming_dataframes(w: &mut Writer<TcpStream>) { w.incoming_dataframes(); }
// @not E0599 src/receiver.rs:Reader | a reader half can send (send_message)
fn reader_send_message(r: &mut Reader<TcpStream>, f: &DataFrame) { r.send_message(&Message::ping(&b""[..])); }
// @not E0599 src/receiver.rs:Reader | a reader half can send (send_dataframe)
fn reader_send_dataframe(r: &mut Reader<TcpStream>, f: &DataFrame) { r.send_dataframe(f); }
// @not E0277 src/sender.rs:Sender | a sender is a receiver
fn writer_sends() { receiver::<Sender>() }
// @not E0277 src/receiver.rs:Receiver | a receiver is a sender
fn reader_receives() { sender::<Receiver>() }
// @not E0277 src/sender.rs:Writer | a writer half is a receiver
fn writer_half() { receiver::<Writer<TcpStream>>() }
// @not E0277 src/receiver.rs:Reader | a reader half is a sender
fn reader_half() { sender::<Reader<TcpStream>>() }
// @not E0599 src/sender.rs:Writer | a writer half can be read from
fn writer_reads(w: &mut Writer<TcpStream>, b: &mut [u8]) { w.read(b); }
// @not E0599 src/receiver.rs:Reader | a reader half can be written to
fn reader_writes(r: &mut Reader<TcpStream>) { r.write(b""); }
// @not E0277 src/client/sync.rs:Client | a client can be copied, so it can be used after splitting it
fn client_clone() { clone::<Client<TcpStream>>() }
// @not E0277 src/server/upgrade/mod.rs:WsUpgrade | an upgrade can be copied, so it can be accepted twice
fn upgrade_clone() { clone::<Upgrade<TcpStream>>() }
// @not E0277 src/server/upgrade/mod.rs:WsUpgrade | an upgrade can be copied, so it can be accepted twice
fn a_upgrade_clone() { clone::<AUpgrade<ATcp>>() }

import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
B='websocket-base/src/'
p('C01','Frame headers are decoded exactly as RFC 6455 section 5.2 lays them out',
 'For every sequence of header bytes, reading a frame header yields FIN/RSV flags from the top four bits of the first byte, the opcode from its low four bits, the 7-, 16- or 64-bit big-endian length selected by the second byte, and the four mask key bytes in order exactly when the mask bit is set, consuming exactly the header. A length not encoded minimally, a control frame with a payload over 125 bytes, and a fragmented control frame are rejected with an error, and no other header is rejected.',
 ['inputs'],'all byte sequences a peer can send as a header (2 to 14 bytes), including every flag/opcode/length-class combination',
 'The header unit tests are nightly-gated and do not run; two sample headers cannot cover 65536 first-two-byte values and the length-class boundaries.',
 [B+'ws/util/header.rs',B+'dataframe.rs'],[('read_header decodes and rejects',B+'ws/util/header.rs read_header'),('Opcode::new maps all 16 nibbles',B+'dataframe.rs Opcode::new')],
 [('DataFrameHeader','flags, opcode, mask, len',B+'ws/util/header.rs')],['ws::util::header::read_header','DataFrame::read_dataframe'])
p('C02','Frame headers are encoded exactly, or refused with nothing written',
 'For every header value, writing it emits flags and opcode in the first byte, the mask bit and the minimal length class in the second, the big-endian extended length when the length exceeds 125 (16-bit up to 65535, else 64-bit), and then the mask key if there is one. An opcode above 15 or a control opcode with a length of 126 or more is refused with an error before any byte is written.',
 ['inputs'],'all flag values, opcodes, payload lengths (u64) and mask keys',
 'Only sampled lengths are encoded in tests that run; class boundaries (125/126, 65535/65536) and illegal headers are not.',
 [B+'ws/util/header.rs',B+'ws/dataframe.rs'],[('write_header',B+'ws/util/header.rs write_header'),('write_to builds the header',B+'ws/dataframe.rs DataFrame::write_to')],(),['ws::util::header::write_header','DataFrame::write_to'])
p('C03','Declared payload and frame sizes equal the bytes produced',
 'For every data frame, borrowed message and owned message, the reported payload size equals the number of bytes written as payload and the number of bytes returned when the payload is taken, and these byte sequences are the same. The predicted frame (message) size, masked or not, equals the number of bytes the frame occupies on the wire, and the asynchronous encoders reserve at least that many bytes before writing.',
 ['inputs'],'all payload lengths, all message kinds, masked and unmasked',
 'The size tests use a handful of lengths; equality must hold at every length-class boundary and for every kind, including close frames with and without a status.',
 [B+'ws/dataframe.rs',B+'dataframe.rs',B+'message.rs',B+'codec/ws.rs'],[('frame_size',B+'ws/dataframe.rs'),('size/write_payload/take_payload',B+'message.rs, dataframe.rs'),('reserve before write',B+'codec/ws.rs encode')],(),['DataFrame::frame_size','Message::message_size','Encoder::encode'])
p('C04','Clients mask every frame with a fresh random key; servers never mask',
 'Every frame a client-side connection sends (sync client, split writer, or async client codec, as message or as data frame) is masked, every frame a server-side connection sends is unmasked. Each masked frame uses a newly drawn random 4-byte key, the key in its header is the one applied to its payload, and a frame is either masked in both header and payload or in neither.',
 ['inputs','histories','configurations'],'all frames, all connection roles and construction paths (builder, upgrade accept, split, codecs)',
 'Tests sample one or two frames per role and cannot observe key freshness or every construction path.',
 [B+'ws/dataframe.rs',B+'ws/sender.rs','src/sender.rs','src/client/sync.rs','src/client/builder.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs',B+'codec/ws.rs',B+'ws/util/mask.rs'],[('write_to draws gen_mask() per frame',B+'ws/dataframe.rs'),('is_masked / is_server',B+'codec/ws.rs, src/sender.rs')],[('Sender.mask','whether outgoing frames are masked','src/sender.rs'),('is_server','role of a codec',B+'codec/ws.rs')],['bytes written to the stream'])
p('C05','Wrongly masked frames are rejected for the role, right ones unmasked',
 'A server-side receiver rejects every unmasked frame and a client-side receiver rejects every masked frame with an error, on both the blocking and the asynchronous path, and delivers no payload from it. A correctly masked frame is delivered with its payload unmasked by its own header key; an unmasked one is delivered byte for byte.',
 ['inputs','configurations'],'all frames, both roles, all construction paths',
 'Existing tests only feed correctly masked frames through each role.',
 [B+'dataframe.rs',B+'codec/ws.rs','src/receiver.rs','src/client/sync.rs','src/client/builder.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs'],[('read_dataframe_body checks header.mask against should_be_masked',B+'dataframe.rs')],[('Receiver.mask','incoming frames must be masked','src/receiver.rs')],['recv_dataframe','Decoder::decode'])
p('C06','Masking XORs payload byte i with key byte i mod 4, whatever the chunking',
 'For every key and payload, the masking transformation outputs exactly one byte per input byte, the i-th being input byte i XOR key byte (i mod 4). The streaming masker keeps this alignment across any sequence of writes, including writes the underlying writer accepts only partly: a byte not accepted does not advance the key position.',
 ['inputs','histories'],'all keys, all payload lengths, all splits of the payload into writes, all short writes',
 'The mask tests are nightly-gated, use one 8-byte payload, and never split it.',
 [B+'ws/util/mask.rs'],[('Masker::write with a running key position',B+'ws/util/mask.rs'),('mask_data zips with a cycled key',B+'ws/util/mask.rs')],[('Masker.pos','index of the next key byte',B+'ws/util/mask.rs')],['Masker::write','mask_data'])
p('C07','A frame reaches the stream whole and only if it could be encoded',
 'Sending a frame or message performs exactly one complete write of the whole encoded frame to the underlying stream, and only after encoding its header and payload has succeeded, so a message that cannot be encoded leaves the stream untouched. Success is reported only if that write succeeded; its error is returned otherwise.',
 ['inputs','fault_sequences'],'all frames and messages, all encoding failures and stream write failures at any point',
 'No test makes the stream or the encoder fail.',
 [B+'ws/dataframe.rs',B+'ws/sender.rs',B+'message.rs','src/sender.rs','src/client/sync.rs'],[('write_to encodes into a buffer, then write_all',B+'ws/dataframe.rs')],(),['writes to the stream'])
p('C08','Fragmented messages are reassembled in order; control frames may interleave',
 'On both the blocking and asynchronous receivers: a first frame with the continuation opcode and a new data frame in the middle of a fragmented message are errors; a control frame is delivered at once on its own without disturbing the fragments collected so far; data and continuation frames are collected in arrival order until the final one, then all collected frames form one message and the collection is empty again. No other frame sequence is an error at this level, and no frame is dropped or duplicated.',
 ['inputs','histories'],'all sequences of frames (opcode x FIN) of any length, across repeated receive calls',
 'Tests exercise a few fixed sequences; the state machine must be right for every history, in two independent implementations.',
 ['src/receiver.rs',B+'codec/ws.rs'],[('recv_message_dataframes state machine','src/receiver.rs'),('MessageCodec::decode state machine',B+'codec/ws.rs')],[('buffer','fragments of the message under assembly','src/receiver.rs, codec/ws.rs')],['recv_message','MessageCodec::decode'])
p('C09','Only well-formed messages are delivered',
 'A message is built from frames only if there is at least one, no reserved bit is set on any of them, every frame after the first is a continuation, and the first has the text, binary, close, ping or pong opcode; the payload is the concatenation of the frame payloads in order. Text payloads and close reasons that are not valid UTF-8 and a one-byte close payload are errors; a close payload of two or more bytes yields the big-endian status and the reason that follows, and an empty one yields a close without status.',
 ['inputs'],'all lists of frames with all opcodes, reserved bits and payload bytes',
 'Conversion tests use a few valid messages; rejections are hardly tested.',
 [B+'message.rs'],[('Message::from_dataframes',B+'message.rs'),('OwnedMessage::from_dataframes',B+'message.rs')],(),['from_dataframes','recv_message'])
p('C10','Receive limits are enforced before the data is buffered',
 'A frame whose declared payload exceeds the configured frame limit is refused on the strength of its header alone, before memory proportional to the declared length is allocated or the payload is awaited, and a frame within the limit is not refused for its size. A message still incomplete after its collected fragments exceed the configured message limit, or with too many fragments, is refused with an error instead of being collected further; limits above what 32 bits can hold are clamped, never wrapped.',
 ['inputs','histories','configurations'],'all declared lengths up to 2^63-1, all fragment histories, all limit settings',
 'No test sends an over-limit frame or message.',
 [B+'dataframe.rs',B+'codec/ws.rs','src/receiver.rs'],[('limit test before with_capacity',B+'dataframe.rs read_dataframe_with_limit'),('limit test in decode',B+'codec/ws.rs'),('MAX_DATAFRAMES_IN_ONE_MESSAGE, max_message_size','src/receiver.rs, codec/ws.rs')],[('max_dataframe_size/max_message_size','clamped limits','src/receiver.rs, codec/ws.rs')],['recv_message','decode'])
p('C11','Configured limits reach the endpoint they were configured for, unswapped',
 'The frame limit and the message limit given to the client builder or to an accept call, or the documented defaults (100 MiB and 200 MiB) when none is given, are exactly the frame limit and message limit the resulting connection enforces, for blocking and asynchronous clients and servers alike.',
 ['configurations'],'all limit values and all ways of constructing a connection',
 'No test inspects or exercises limits on a constructed connection.',
 ['src/client/builder.rs','src/client/sync.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/receiver.rs',B+'codec/ws.rs'],[('unchecked_with_limits / new_with_limits plumbing','src/client/sync.rs, src/receiver.rs, codec/ws.rs')],[('ClientBuilder.max_*','configured limits','src/client/builder.rs')],['limits of the constructed receiver/codec'])
p('C12','Frame decoding consumes exactly one frame or nothing',
 'Given any prefix of a frame, the asynchronous decoder asks for more data without consuming or changing any buffered byte; given a whole frame it yields that frame and consumes exactly its bytes, leaving what follows. The blocking reader consumes exactly one frame and reports an error, never a shortened frame, when the stream ends early.',
 ['inputs','histories'],'all byte streams and all ways they are split into arrivals',
 'Tests deliver whole frames in one read.',
 [B+'codec/ws.rs',B+'dataframe.rs',B+'ws/util/header.rs'],[('decode returns None before split_to',B+'codec/ws.rs'),('short read check',B+'dataframe.rs')],(),['Decoder::decode','read_dataframe'])
p('C13','No byte sequence from the peer makes the library panic',
 'Whatever frame bytes the peer sends, reading frames and messages (blocking or asynchronous) returns a value or an error: no unwrap of an absent value, out-of-range slice or index, arithmetic overflow, unreachable marker, or unbounded preallocation is reachable from them.',
 ['inputs'],'all byte sequences received on a connection, under any limits',
 'Panic freedom quantifies over all inputs; the tests send well-formed ones.',
 [B+'ws/util/header.rs',B+'dataframe.rs',B+'message.rs',B+'codec/ws.rs','src/receiver.rs'],[('length checks before slicing',B+'codec/ws.rs, message.rs'),('opcode is a nibble',B+'dataframe.rs')],(),['recv_message','decode','from_dataframes'])
p('C14','A connection becomes upgradable only if its request is a WebSocket handshake',
 'Every way of turning a connection into a pending upgrade (raw stream, stream with parsed request, HTTP-server request, asynchronous stream) succeeds only if the request has method GET, an HTTP version of at least 1.1, no WebSocket version other than 13, a well-formed 16-byte key, an Upgrade header naming websocket, and a Connection header with the upgrade token in any letter case; each violation is reported with its own error kind. A request meeting all of these is accepted.',
 ['inputs','configurations'],'all requests: methods, versions, header sets, token lists and letter cases; all four entry points',
 'No server test sends a malformed handshake.',
 ['src/server/upgrade/mod.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs'],[('validate','src/server/upgrade/mod.rs'),('into_ws implementations','src/server/upgrade/{sync,async}.rs')],(),['IntoWs::into_ws'])
p('C15','Accepting sends 101 with mandatory headers before yielding a client',
 'Accepting an upgrade writes exactly one response head: the version of the request, status 101, and the header set including custom ones, in which Sec-WebSocket-Accept (derived from the request key), Connection: Upgrade and Upgrade: websocket always have their required values whatever custom headers say. The server-side connection is handed out only after that response was written successfully; a write failure is returned as an error. Rejecting writes one response with status 400 and the caller\'s headers.',
 ['inputs','configurations','fault_sequences'],'all requests, all custom header sets, all write failures, sync and async',
 'Tests do not fail writes and do not try conflicting custom headers.',
 ['src/server/upgrade/mod.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/codec/http.rs'],[('prepare_headers sets mandatory headers after custom ones','src/server/upgrade/mod.rs'),('send before Client::unchecked','src/server/upgrade/sync.rs')],(),['accept*','reject*'])
p('C16','The accept value is base64(SHA-1(base64(key) + GUID))',
 'For every 16-byte key the computed accept value is the SHA-1 digest of the base64 text of the key followed by the GUID 258EAFA5-E914-47DA-95CA-C5AB0DC85B11, and it is printed as base64 of all 20 digest bytes; the server computes it from the key of the request it answers and the client from the key of the request it sent.',
 ['inputs'],'all keys',
 'One published key/accept pair is tested.',
 [B+'header.rs','src/header/accept.rs','src/server/upgrade/mod.rs','src/client/builder.rs'],[('WebSocketAccept::new',B+'header.rs')],(),['WebSocketAccept::new','serialize'])
p('C17','A client connects only if the response proves the handshake',
 'A client connection (blocking or asynchronous) is produced only after the response to the request it sent has been read and has status 101, the accept value derived from the key that was sent, an Upgrade header of websocket, and a Connection header containing the upgrade token; anything else, including a closed stream, is an error, and a redirect with a location is reported as a redirect. A response meeting all of these is accepted.',
 ['inputs','fault_sequences'],'all responses a server can send: statuses, header sets and accept values',
 'Client tests use one valid response.',
 ['src/client/builder.rs'],[('ClientBuilder::validate','src/client/builder.rs')],(),['connect_on','async_connect_on'])
p('C18','The client sends a correct handshake request, identical for sync and async',
 'A connecting client writes exactly one request before reading anything: GET with the path and query of its URL, and headers including Host from the URL (with its explicit port), Upgrade: websocket, Connection: Upgrade, WebSocket version 13 unless one was chosen, a freshly generated random key unless one was chosen, and basic authorization when the URL has a user name; all other headers come from the builder.',
 ['inputs','configurations'],'all URLs and builder settings',
 'Tests check header presence for single builders.',
 ['src/client/builder.rs','src/codec/http.rs',B+'header.rs'],[('build_request','src/client/builder.rs'),('HttpClientCodec::encode','src/codec/http.rs')],[('version_set/key_set','explicitly chosen values are kept','src/client/builder.rs')],['bytes/request written'])
p('C19','Bytes received after the handshake are never lost or reordered',
 'Any bytes already read past the end of the handshake are kept, with their position, when a stream becomes a pending upgrade, when an upgrade is accepted, when a client is established, when the codec of an asynchronous connection is exchanged, when a blocking client is split, and when it is taken apart into its stream, so the first frame is read from them.',
 ['inputs','histories','schedules'],'all amounts of early data and all network timings, sync and async',
 'Tests never deliver handshake and frames in one segment.',
 ['src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/client/sync.rs','src/client/builder.rs',B+'ws/util/mod.rs'],[('Buffer {buf,pos,cap}','src/server/upgrade/sync.rs'),('update_framed_codec',B+'ws/util/mod.rs'),('into_parts/from_parts','src/client/sync.rs')],[('Buffer','unread bytes of the HTTP reader','src/server/upgrade/sync.rs')],['into_ws','accept','split','into_stream'])
p('C20','A failed server handshake gives back what it had',
 'When a handshake fails, the caller receives the stream, the request if it was parsed, the unread buffer if there is one, and the error that caused the failure; the server\'s accept loop passes all four on, and failures before a stream exists say so with none of them.',
 ['inputs','fault_sequences'],'all failure points of a server handshake, sync and async, plain and TLS',
 'No test makes a handshake fail and inspects the pieces.',
 ['src/server/sync.rs','src/server/async.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs'],[('InvalidConnection','src/server/mod.rs')],(),['IntoWs::Error','InvalidConnection'])
p('C21','Secure URLs and secure connects always use TLS, verified against the URL host',
 'Connecting to a wss or https URL, or with the secure connect calls, sends the handshake only over a TLS stream established with the supplied connector (or a default one) for the host name of the URL; any TLS failure aborts with an error and never falls back to plain text. Plain connects are used exactly for other schemes and for the explicitly insecure calls; the TCP connection goes to the host and explicit port of the URL, by default 80 for ws and 443 for wss; a secure server wraps every accepted connection in its acceptor before reading the request.',
 ['configurations','fault_sequences','inputs'],'all URLs, connectors and TLS failures; all connect and accept entry points',
 'No test performs TLS.',
 ['src/client/builder.rs','src/server/sync.rs','src/server/async.rs'],[('is_secure_url/wrap_ssl/extract_host_ssl_conn','src/client/builder.rs'),('acceptor.accept','src/server/{sync,async}.rs')],(),['connect','connect_secure','async_connect','async_connect_secure','Server::accept/incoming'])
p('C22','A slow handshake does not hold up other connections on the asynchronous server',
 'On the asynchronous server each accepted connection\'s handshake (including TLS) is started independently and any number of them run concurrently; the stream of results never waits for one handshake before polling the next connection, and yields each as it completes.',
 ['schedules'],'all interleavings of connection arrivals and handshake progress',
 'Needs adversarial scheduling of many peers; no test runs the server.',
 ['src/server/async.rs'],[('ok(handshake) + buffer_unordered(MAX)','src/server/async.rs')],(),['Server::incoming'])
p('C23','HTTP codecs take exactly one head from the buffer and lose nothing silently',
 'The asynchronous HTTP codecs wait, consuming nothing, until a complete head ending in an empty line is buffered, then consume exactly through it and leave later bytes in place. Once bytes have been consumed the outcome is the parsed head or an error, never a silent request for more data; encoders emit start line, headers and the empty line completely, reserving enough room first.',
 ['inputs','histories'],'all byte streams and splits into arrivals',
 'Codec tests feed one complete head.',
 ['src/codec/http.rs'],[('split_off_http','src/codec/http.rs'),('Decoder/Encoder impls','src/codec/http.rs')],(),['HttpServerCodec','HttpClientCodec'])
p('C24','WebSocket headers parse and print faithfully',
 'The key and accept headers parse only from valid base64 of exactly 16 and 20 bytes and keep all bytes in order; the version header parses 13 and only 13 as version 13 and keeps any other text; protocol and extension lists keep all elements in order; an extension keeps its name and every parameter with its value split at the first equals sign, and printing then parsing gives the same value back. Each header type uses its RFC 6455 name.',
 ['inputs'],'all header texts and values',
 'Header tests parse a few sample strings and do not check parameter values.',
 ['src/header/extensions.rs','src/header/key.rs','src/header/accept.rs','src/header/version.rs','src/header/protocol.rs','src/header/origin.rs',B+'header.rs'],[('FromStr/Header/HeaderFormat impls','src/header/*.rs')],(),['Header::parse_header','HeaderFormat::fmt_header'])
p('C25','Message constructors, conversions and predicates preserve kind and content',
 'Constructors give a message the kind, close status and payload they were given; converting between borrowed and owned messages keeps kind, close status and payload; turning a message into a pong succeeds exactly for pings and changes only the kind; kind predicates are true exactly for their kinds; a message or frame reports its RFC opcode, final bit and reserved bits.',
 ['inputs'],'all message kinds and payloads',
 'Tests cover a few kinds and payloads.',
 [B+'message.rs',B+'dataframe.rs'],[('From impls, into_pong, is_*',B+'message.rs')],(),['Message','OwnedMessage','CloseData'])
p('C26','Errors keep their cause and their kind',
 'Converting an error from a lower layer keeps it: an I/O error becomes the no-data error exactly when it reports an unexpected end of file and otherwise carries the original; UTF-8, URL, HTTP, TLS and handshake errors map to the variant of their own kind carrying the original; and an error that carries a cause exposes it as its source.',
 ['inputs','fault_sequences'],'all error values of all layers',
 'Tests do not construct errors.',
 [B+'result.rs','src/result.rs','src/codec/http.rs','src/server/upgrade/mod.rs'],[('From impls and source()',B+'result.rs, src/result.rs, ...')],(),['From','Error::source'])
p('C27','Reading, writing, splitting and shutdown act on the intended half',
 'A read/write pair reads only from its reader and writes, flushes and shuts down only its writer, passing buffers and results through unchanged, and splitting returns the same halves; splitting a TCP stream clones it. Shutting down the sender closes only the write half, the receiver only the read half, and a full shutdown both, and socket options are applied to the underlying socket with the given value.',
 ['inputs','histories'],'all stream types and operations',
 'Tests use pairs of cursors and never shut down.',
 [B+'stream.rs','src/client/sync.rs','src/receiver.rs','src/sender.rs'],[('ReadWritePair impls',B+'stream.rs'),('shutdown*','src/client/sync.rs, receiver.rs, sender.rs')],(),['Read/Write impls','shutdown*'])
p('C28','Builder and upgrade settings accumulate, replace and clear exactly as named',
 'Adding protocols or extensions appends them in order to those already set, clearing removes that setting only, and setting key, version, origin or limits replaces that setting only; using protocols and extensions on an upgrade likewise appends. Every asynchronous connect call carries all settings over unchanged to the connection it makes.',
 ['histories','configurations'],'all sequences of builder calls with all arguments',
 'Tests check two short call sequences.',
 ['src/client/builder.rs','src/server/upgrade/mod.rs','src/lib.rs'],[('upsert_header!','src/lib.rs'),('builder rebuild in async_connect*','src/client/builder.rs')],[('ClientBuilder fields','settings','src/client/builder.rs')],['ClientBuilder','WsUpgrade'])
p('C29','Connections can move between threads and halves cannot be confused',
 'Clients, their reader and writer halves, codecs, pending upgrades and the futures the asynchronous API returns can be sent to another thread whenever their stream can. Consuming operations take the value, so no program can accept or reject an upgrade twice, use a client after splitting it or taking it apart, or send through a reader half or receive through a writer half.',
 ['programs'],'all programs using the API',
 'A test that compiles says nothing about programs that must not compile.',
 ['src/client/sync.rs','src/receiver.rs','src/sender.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/client/async.rs',B+'codec/ws.rs'],[('by-value self, Send bounds','public signatures')],(),['compilation of client programs'])
p('C30','Receive iterators report every receive result, one per step',
 'Each step of the blocking message and frame iterators performs exactly one receive on the connection and yields its result unchanged, success or error, so errors and control messages are never swallowed; the server\'s iterator likewise yields the result of exactly one accept per step.',
 ['histories','fault_sequences'],'all sequences of frames, errors and connection events',
 'Tests iterate over one or two successes.',
 [B+'ws/receiver.rs','src/server/sync.rs','src/client/sync.rs','src/receiver.rs'],[('Iterator impls',B+'ws/receiver.rs, src/server/sync.rs')],(),['incoming_messages','incoming_dataframes','Server as Iterator'])
p('C31','A whole conversation between two endpoints arrives in order and in time',
 'Every message one endpoint sends is eventually received by the other, once, in order and intact, within bounded time and memory, over any network that keeps delivering bytes.',
 ['schedules','histories','fault_sequences'],'all networks, schedulers and peers',
 'Liveness over unbounded executions cannot be tested.',
 ['src/lib.rs',B+'lib.rs'],[('the whole library','src, websocket-base/src')],(),['two connected endpoints'])
p('C32','Random keys are unpredictable and never repeat in practice',
 'Mask keys and handshake keys are unpredictable to peers and observers, and repeat no more often than uniform random choice would.',
 ['inputs','histories'],'all keys drawn over the life of a process',
 'A statistical property of the random source.',
 [B+'ws/util/mask.rs',B+'header.rs'],[('rand::random',B+'ws/util/mask.rs, header.rs')],(),['gen_mask','WebSocketKey::new'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    len(x['title'])<=80 or print(x['id'],len(x['title']))
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)

D='websocket-base/src/ws/dataframe.rs'
M='websocket-base/src/ws/util/mask.rs'
H='websocket-base/src/header.rs'
K='let masking_key = if mask { Some(mask::gen_mask()) } else { None };'
G=open('/repo/'+M).read()
import re
i=G.index('pub fn gen_mask'); j=G.index('}\n',i)+2
GEN=G[i:j]
def g(body, pre=''): return pre+'pub fn gen_mask() -> [u8; 4] {\n'+body+'\n}\n'
C=['C04']
EDITS=[
 ('b-tls','bug',C,[(D,K,'''thread_local!(static KEY: [u8; 4] = mask::gen_mask());
		let masking_key = if mask { Some(KEY.with(|k| *k)) } else { None };''')]),
 ('b-tls-cell','bug',C,[(M,GEN,g('''	thread_local!(static KEY: std::cell::Cell<u32> = std::cell::Cell::new(rand::random()));
	KEY.with(|k| { let v = k.get().wrapping_mul(1664525).wrapping_add(1013904223); k.set(v); [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8] })'''))]),
 ('b-atomic','bug',C,[(M,GEN,g('''	use std::sync::atomic::{AtomicUsize, Ordering};
	static N: AtomicUsize = AtomicUsize::new(1);
	let v = N.fetch_add(0x9e37, Ordering::Relaxed);
	[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]'''))]),
 ('b-oncelock','bug',C,[(M,GEN,g('''	static K: std::sync::OnceLock<[u8; 4]> = std::sync::OnceLock::new();
	*K.get_or_init(rand::random)'''))]),
 ('b-mutex','bug',C,[(M,GEN,g('''	static K: std::sync::Mutex<Option<[u8; 4]>> = std::sync::Mutex::new(None);
	let mut k = K.lock().unwrap();
	match *k { Some(v) => v, None => { let v = rand::random(); *k = Some(v); v } }'''))]),
 ('b-time','bug',C,[(M,GEN,g('''	let v = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos();
	[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]'''))]),
 ('b-zero','bug',C,[(M,GEN,g('''	let v: u16 = rand::random();
	[(v >> 8) as u8, v as u8, (v >> 8) as u8, v as u8]'''))]),
 ('b-and','bug',C,[(M,GEN,g('''	let v: [u8; 4] = rand::random();
	[v[0] & 0x7f, v[1], v[2], v[3]]'''))]),
 ('b-seeded','bug',C,[(M,GEN,g('''	use rand::{SeedableRng, Rng};
	let mut r = rand::rngs::StdRng::seed_from_u64(7);
	r.gen()'''))]),
 ('b-hash','bug',C,[(M,GEN,g('''	use std::hash::{BuildHasher, Hasher};
	let v = std::collections::hash_map::RandomState::new().build_hasher().finish() as u32;
	v.to_be_bytes()'''))]),
 ('s-bytes','same',C,[(M,GEN,g('''	let v: u32 = rand::random();
	v.to_be_bytes()'''))]),
 ('s-shifts','same',C,[(M,GEN,g('''	let v: u32 = rand::random();
	[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]'''))]),
 ('s-rng','same',C,[(M,GEN,g('''	use rand::Rng;
	rand::thread_rng().gen()'''))]),
 ('s-fill','same',C,[(M,GEN,g('''	use rand::RngCore;
	let mut k = [0; 4];
	rand::thread_rng().fill_bytes(&mut k);
	k'''))]),
 ('s-each','same',C,[(M,GEN,g('''	[rand::random(), rand::random(), rand::random(), rand::random()]'''))]),
 ('s-loop','same',C,[(M,GEN,g('''	let mut k = [0u8; 4];
	for b in k.iter_mut() { *b = rand::random(); }
	k'''))]),
 ('s-tlsrng','same',C,[(M,GEN,g('''	use rand::Rng;
	thread_local!(static R: std::cell::RefCell<rand::rngs::ThreadRng> = std::cell::RefCell::new(rand::thread_rng()));
	R.with(|r| r.borrow_mut().gen())'''))]),
 ('s-os','same',C,[(M,GEN,g('''	use rand::RngCore;
	let mut k = [0; 4];
	rand::rngs::OsRng::new().unwrap().fill_bytes(&mut k);
	k'''))]),
 # the key of the handshake
 ('b-hkey-tls','bug',['C18'],[(H,'let key = rand::random();','thread_local!(static K: [u8; 16] = rand::random());\n\t\tlet key = K.with(|k| *k);')]),
 ('b-hkey-half','bug',['C18'],[(H,'let key = rand::random();','let half: u64 = rand::random();\n\t\tlet mut key = [0; 16];\n\t\tkey[..8].copy_from_slice(&half.to_be_bytes());\n\t\tkey[8..].copy_from_slice(&half.to_le_bytes());')]),
 ('b-hkey-time','bug',['C18'],[(H,'let key = rand::random();','let key = (std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()).to_be_bytes();')]),
 ('b-hkey-ascii','bug',['C18'],[(H,'let key = rand::random();','let mut key: [u8; 16] = rand::random();\n\t\tfor b in key.iter_mut() { *b &= 0x7f; }')]),
 ('s-hkey-u128','same',['C18'],[(H,'let key = rand::random();','let (a, b): (u64, u64) = rand::random();\n\t\tlet mut key = [0; 16];\n\t\tkey[..8].copy_from_slice(&a.to_be_bytes());\n\t\tkey[8..].copy_from_slice(&b.to_le_bytes());')]),
 ('s-hkey-fill','same',['C18'],[(H,'let key = rand::random();','let mut key = [0; 16];\n\t\trand::RngCore::fill_bytes(&mut rand::thread_rng(), &mut key);')]),
 ('s-hkey-loop','same',['C18'],[(H,'let key = rand::random();','let mut key = [0; 16];\n\t\tfor b in key.iter_mut() { *b = rand::random(); }')]),
]

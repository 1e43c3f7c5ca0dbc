//! Flat entry points over the public API of dhkem. Everything here only moves bytes in and out;
//! the behaviour under check is all in /repo.
#![allow(clippy::missing_safety_doc)]
use core::cmp::Ordering;
use core::slice::{from_raw_parts, from_raw_parts_mut};
use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
use elliptic_curve::sec1::ToEncodedPoint;
use kem::{Decapsulate, Encapsulate};
use rand_core::{CryptoRng, Error, RngCore};
use zeroize::Zeroize;

/// deterministic generator: replays a buffer, counts the bytes drawn
pub struct BufRng {
    pub p: *const u8,
    pub len: usize,
    pub pos: usize,
}
impl BufRng {
    fn byte(&mut self) -> u8 {
        let v = if self.pos < self.len { unsafe { *self.p.add(self.pos) } } else { 0x01 };
        self.pos += 1;
        v
    }
}
impl RngCore for BufRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for BufRng {}

unsafe fn arr<const N: usize>(p: *const u8) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(from_raw_parts(p, N));
    a
}
unsafe fn put(p: *mut u8, s: &[u8]) {
    from_raw_parts_mut(p, s.len()).copy_from_slice(s);
}

macro_rules! ecdh {
    ($K:ty, $agree:ident, $pair:ident, $dec:ident, $enc_point:ident, $seq:ident) => {
        /// key pair, encapsulation, two decapsulations; all from one byte stream.
        /// pos[0..2]: bytes drawn after each step
        #[no_mangle]
        pub unsafe fn $agree(buf: *const u8, len: usize, pk: *mut u8, ek: *mut u8, ss1: *mut u8, ss2: *mut u8, ss3: *mut u8, pos: *mut u32) {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let (sk, p) = <$K as DhKem>::random_keypair(&mut r);
            *pos = r.pos as u32;
            put(pk, p.as_ref().to_encoded_point(false).as_bytes());
            let (c, s1) = p.encapsulate(&mut r).unwrap();
            *pos.add(1) = r.pos as u32;
            put(ek, c.to_encoded_point(false).as_bytes());
            put(ss1, s1.raw_secret_bytes());
            put(ss2, sk.decapsulate(&c).unwrap().raw_secret_bytes());
            put(ss3, sk.decapsulate(&c).unwrap().raw_secret_bytes());
        }
        /// the encapsulating key and the public key of the secret inside the decapsulating key
        #[no_mangle]
        pub unsafe fn $pair(buf: *const u8, len: usize, pk: *mut u8, own: *mut u8) -> usize {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let (sk, p) = <$K as DhKem>::random_keypair(&mut r);
            put(pk, p.into_inner().to_encoded_point(false).as_bytes());
            put(own, sk.into_inner().public_key().to_encoded_point(false).as_bytes());
            r.pos
        }
        /// decapsulate an unrelated public key
        #[no_mangle]
        pub unsafe fn $dec(buf: *const u8, len: usize, pk: *mut u8, other: *mut u8, ss: *mut u8) {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let (sk, p) = <$K as DhKem>::random_keypair(&mut r);
            let (_, o) = <$K as DhKem>::random_keypair(&mut r);
            put(pk, p.as_ref().to_encoded_point(false).as_bytes());
            put(other, o.as_ref().to_encoded_point(false).as_bytes());
            put(ss, sk.decapsulate(o.as_ref()).unwrap().raw_secret_bytes());
        }
        /// three encapsulations to the same key in a row; `es`: size of a public key, `fs`: of a secret
        #[no_mangle]
        pub unsafe fn $seq(buf: *const u8, len: usize, ek: *mut u8, es: usize, ss: *mut u8, fs: usize, rs: *mut u8, pos: *mut u32) {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let (sk, p) = <$K as DhKem>::random_keypair(&mut r);
            for i in 0..3 {
                let (c, s) = p.encapsulate(&mut r).unwrap();
                *pos.add(i) = r.pos as u32;
                put(ek.add(i * es), c.to_encoded_point(false).as_bytes());
                put(ss.add(i * fs), s.raw_secret_bytes());
                put(rs.add(i * fs), sk.decapsulate(&c).unwrap().raw_secret_bytes());
            }
        }
        /// point encoding of the wrapper and of the wrapped key
        #[no_mangle]
        pub unsafe fn $enc_point(buf: *const u8, len: usize, a: *mut u8, b: *mut u8, ac: *mut u8, bc: *mut u8) {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let (_, p) = <$K as DhKem>::random_keypair(&mut r);
            put(a, p.to_encoded_point(false).as_bytes());
            put(b, p.as_ref().to_encoded_point(false).as_bytes());
            put(ac, p.to_encoded_point(true).as_bytes());
            put(bc, p.as_ref().to_encoded_point(true).as_bytes());
        }
    };
}
ecdh!(dhkem::Secp256k1Kem, h_dagree_k256, h_dpair_k256, h_ddec_k256, h_dpoint_k256, h_dseq_k256);
ecdh!(dhkem::NistP256Kem, h_dagree_p256, h_dpair_p256, h_ddec_p256, h_dpoint_p256, h_dseq_p256);
ecdh!(dhkem::NistP384Kem, h_dagree_p384, h_dpair_p384, h_ddec_p384, h_dpoint_p384, h_dseq_p384);
ecdh!(dhkem::NistP521Kem, h_dagree_p521, h_dpair_p521, h_ddec_p521, h_dpoint_p521, h_dseq_p521);

#[no_mangle]
pub unsafe fn h_dagree_x25519(buf: *const u8, len: usize, pk: *mut u8, ek: *mut u8, ss1: *mut u8, ss2: *mut u8, ss3: *mut u8, pos: *mut u32) {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (sk, p) = dhkem::X25519Kem::random_keypair(&mut r);
    *pos = r.pos as u32;
    put(pk, p.as_ref().as_bytes());
    let (c, s1) = p.encapsulate(&mut r).unwrap();
    *pos.add(1) = r.pos as u32;
    put(ek, c.as_bytes());
    put(ss1, s1.as_bytes());
    put(ss2, sk.decapsulate(&c).unwrap().as_bytes());
    put(ss3, sk.decapsulate(&c).unwrap().as_bytes());
}
#[no_mangle]
pub unsafe fn h_dseq_x25519(buf: *const u8, len: usize, ek: *mut u8, es: usize, ss: *mut u8, fs: usize, rs: *mut u8, pos: *mut u32) {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (sk, p) = dhkem::X25519Kem::random_keypair(&mut r);
    for i in 0..3 {
        let (c, s) = p.encapsulate(&mut r).unwrap();
        *pos.add(i) = r.pos as u32;
        put(ek.add(i * es), c.as_bytes());
        put(ss.add(i * fs), s.as_bytes());
        put(rs.add(i * fs), sk.decapsulate(&c).unwrap().as_bytes());
    }
}
#[no_mangle]
pub unsafe fn h_dpair_x25519(buf: *const u8, len: usize, pk: *mut u8, own: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (sk, p) = dhkem::X25519Kem::random_keypair(&mut r);
    put(pk, p.into_inner().as_bytes());
    let s = sk.into_inner();
    put(own, x25519::PublicKey::from(&s).as_bytes());
    r.pos
}
/// encapsulate to arbitrary recipient key bytes
#[no_mangle]
pub unsafe fn h_denc_x25519(pk: *const u8, buf: *const u8, len: usize, ek: *mut u8, ss: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let p = DhEncapsulator::from(x25519::PublicKey::from(arr::<32>(pk)));
    let (c, s) = p.encapsulate(&mut r).unwrap();
    put(ek, c.as_bytes());
    put(ss, s.as_bytes());
    r.pos
}
/// decapsulate arbitrary received bytes
#[no_mangle]
pub unsafe fn h_ddec_x25519(buf: *const u8, len: usize, ek: *const u8, ss: *mut u8) {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (sk, _) = dhkem::X25519Kem::random_keypair(&mut r);
    let c = x25519::PublicKey::from(arr::<32>(ek));
    put(ss, sk.decapsulate(&c).unwrap().as_bytes());
}

/// From / AsRef / into_inner / Clone of both wrappers
#[no_mangle]
pub unsafe fn h_dwrap(x: *const u8, o1: *mut u8, o2: *mut u8, o3: *mut u8, o4: *mut u8, o5: *mut u8, o6: *mut u8) {
    let v: [u8; 32] = arr(x);
    let e = DhEncapsulator::from(v);
    let d = DhDecapsulator::from(v);
    put(o1, e.as_ref());
    put(o2, d.as_ref());
    put(o5, e.clone().as_ref());
    put(o6, d.clone().as_ref());
    put(o3, &e.into_inner());
    put(o4, &d.into_inner());
}
fn ord(o: Ordering) -> u32 {
    match o {
        Ordering::Less => 1,
        Ordering::Equal => 2,
        Ordering::Greater => 3,
    }
}
fn ops<T: PartialOrd>(a: &T, b: &T) -> u32 {
    (a < b) as u32 | ((a <= b) as u32) << 1 | ((a > b) as u32) << 2 | ((a >= b) as u32) << 3 | ((a != b) as u32) << 4
}
/// comparison results of wrappers (low half) and wrapped values (high half)
#[no_mangle]
pub unsafe fn h_dcmp(a: *const u8, b: *const u8) -> u64 {
    let (a, b): ([u8; 4], [u8; 4]) = (arr(a), arr(b));
    let (ea, eb) = (DhEncapsulator::from(a), DhEncapsulator::from(b));
    let (da, db) = (DhDecapsulator::from(a), DhDecapsulator::from(b));
    let w = (ea == eb) as u32
        | ((da == db) as u32) << 1
        | ord(ea.cmp(&eb)) << 2
        | ord(da.cmp(&db)) << 4
        | ea.partial_cmp(&eb).map_or(0, ord) << 6
        | da.partial_cmp(&db).map_or(0, ord) << 8
        | ops(&ea, &eb) << 10
        | ops(&da, &db) << 15;
    let o = ord(a.cmp(&b));
    let p = a.partial_cmp(&b).map_or(0, ord);
    let x = (a == b) as u32 | ((a == b) as u32) << 1 | o << 2 | o << 4 | p << 6 | p << 8 | ops(&a, &b) << 10 | ops(&a, &b) << 15;
    w as u64 | (x as u64) << 32
}
/// x25519 public keys inside the wrapper: equality
#[no_mangle]
pub unsafe fn h_deqpk(a: *const u8, b: *const u8) -> u8 {
    let (a, b) = (x25519::PublicKey::from(arr::<32>(a)), x25519::PublicKey::from(arr::<32>(b)));
    let w = DhEncapsulator::from(a) == DhEncapsulator::from(b);
    w as u8 | ((a == b) as u8) << 1
}
#[no_mangle]
pub unsafe fn h_dmkenc(x: *const u8, slot: *mut u8) {
    core::ptr::write(slot as *mut DhEncapsulator<[u8; 32]>, DhEncapsulator::from(arr::<32>(x)));
}
#[no_mangle]
pub unsafe fn h_dzenc(slot: *mut u8) {
    (*(slot as *mut DhEncapsulator<[u8; 32]>)).zeroize();
}
#[no_mangle]
pub unsafe fn h_dmkdec(x: *const u8, slot: *mut u8) {
    core::ptr::write(slot as *mut DhDecapsulator<[u8; 32]>, DhDecapsulator::from(arr::<32>(x)));
}
#[no_mangle]
pub unsafe fn h_dzdec(slot: *mut u8) {
    (*(slot as *mut DhDecapsulator<[u8; 32]>)).zeroize();
}
#[no_mangle]
pub fn h_dsizes() -> usize {
    core::mem::size_of::<DhEncapsulator<[u8; 32]>>() | core::mem::size_of::<DhDecapsulator<[u8; 32]>>() << 16
}

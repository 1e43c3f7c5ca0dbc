//! Flat entry points over the public API of x-wing. Everything here only moves bytes in and out;
//! the behaviour under check is all in /repo.
#![allow(clippy::missing_safety_doc)]
use core::mem::{align_of, size_of};
use core::slice::{from_raw_parts, from_raw_parts_mut};
use kem::{Decapsulate, Encapsulate};
use rand_core::{CryptoRng, Error, RngCore};
use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};
use zeroize::Zeroize;

/// deterministic generator: replays a buffer, counts the bytes drawn
pub struct BufRng {
    pub p: *const u8,
    pub len: usize,
    pub pos: usize,
}
impl BufRng {
    fn byte(&mut self) -> u8 {
        let v = if self.pos < self.len { unsafe { *self.p.add(self.pos) } } else { 0xA5 };
        self.pos += 1;
        v
    }
}
impl RngCore for BufRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for BufRng {}

unsafe fn arr<'a, const N: usize>(p: *const u8) -> &'a [u8; N] {
    from_raw_parts(p, N).try_into().unwrap()
}
unsafe fn put(p: *mut u8, s: &[u8]) {
    from_raw_parts_mut(p, s.len()).copy_from_slice(s);
}

/// (ek, secret bytes) of a key made from a seed
#[no_mangle]
pub unsafe fn h_xkeygen(sk: *const u8, ek: *mut u8, sk2: *mut u8) {
    let k = DecapsulationKey::from(*arr::<32>(sk));
    put(ek, &k.encapsulation_key().as_bytes());
    put(sk2, k.as_bytes());
}
/// generate_key_pair; returns the number of RNG bytes drawn
#[no_mangle]
pub unsafe fn h_xgenrng(buf: *const u8, len: usize, sk: *mut u8, ek: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (k, p) = x_wing::generate_key_pair(&mut r);
    put(sk, k.as_bytes());
    put(ek, &p.as_bytes());
    r.pos
}
#[no_mangle]
pub unsafe fn h_xgen(buf: *const u8, len: usize, sk: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let k = DecapsulationKey::generate(&mut r);
    put(sk, k.as_bytes());
    r.pos
}
#[no_mangle]
pub unsafe fn h_xencaps(ek: *const u8, buf: *const u8, len: usize, ct: *mut u8, ss: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let ek = EncapsulationKey::from(arr::<1216>(ek));
    let (c, k) = ek.encapsulate(&mut r).unwrap();
    put(ct, &c.as_bytes());
    put(ss, &k);
    r.pos
}
#[no_mangle]
pub unsafe fn h_xdecaps(sk: *const u8, ct: *const u8, ss: *mut u8) {
    let k = DecapsulationKey::from(*arr::<32>(sk));
    let c = Ciphertext::from(arr::<1120>(ct));
    put(ss, &k.decapsulate(&c).unwrap());
}
/// one key used twice, its clone once; then encoded
#[no_mangle]
pub unsafe fn h_xseqdk(sk: *const u8, ct: *const u8, ct2: *const u8, s1: *mut u8, s2: *mut u8, s3: *mut u8, out: *mut u8, ek: *mut u8) {
    let k = DecapsulationKey::from(*arr::<32>(sk));
    let (c1, c2) = (Ciphertext::from(arr::<1120>(ct)), Ciphertext::from(arr::<1120>(ct2)));
    put(s1, &k.decapsulate(&c1).unwrap());
    put(s2, &k.decapsulate(&c2).unwrap());
    let l = k.clone();
    put(s3, &l.decapsulate(&c1).unwrap());
    put(out, k.as_bytes());
    put(ek, &l.encapsulation_key().as_bytes());
}
/// one key and its clone, one generator; returns the number of bytes drawn
#[no_mangle]
pub unsafe fn h_xseqek(ek: *const u8, buf: *const u8, len: usize, c1: *mut u8, s1: *mut u8, c2: *mut u8, s2: *mut u8, out: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let ek = EncapsulationKey::from(arr::<1216>(ek));
    let (c, k) = ek.encapsulate(&mut r).unwrap();
    put(c1, &c.clone().as_bytes());
    put(s1, &k);
    let (c, k) = ek.clone().encapsulate(&mut r).unwrap();
    put(c2, &c.as_bytes());
    put(s2, &k);
    put(out, &ek.as_bytes());
    r.pos
}
#[no_mangle]
pub unsafe fn h_xctrt(ct: *const u8, out: *mut u8) {
    put(out, &Ciphertext::from(arr::<1120>(ct)).as_bytes());
}
#[no_mangle]
pub unsafe fn h_xekrt(ek: *const u8, out: *mut u8) {
    put(out, &EncapsulationKey::from(arr::<1216>(ek)).as_bytes());
}
#[no_mangle]
pub unsafe fn h_xskrt(sk: *const u8, out: *mut u8) {
    put(out, DecapsulationKey::from(*arr::<32>(sk)).as_bytes());
}
#[no_mangle]
pub unsafe fn h_xeqct(a: *const u8, b: *const u8) -> u8 {
    (Ciphertext::from(arr::<1120>(a)) == Ciphertext::from(arr::<1120>(b))) as u8
}
#[no_mangle]
pub unsafe fn h_xeqek(a: *const u8, b: *const u8) -> u8 {
    (EncapsulationKey::from(arr::<1216>(a)) == EncapsulationKey::from(arr::<1216>(b))) as u8
}
/// 32 + 64 bytes of randomness; everything in memory
#[no_mangle]
pub unsafe fn h_xagree(buf: *const u8, len: usize, ct: *mut u8, ss1: *mut u8, ss2: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (k, p) = x_wing::generate_key_pair(&mut r);
    let (c, s) = p.encapsulate(&mut r).unwrap();
    put(ct, &c.as_bytes());
    put(ss1, &s);
    put(ss2, &k.decapsulate(&c).unwrap());
    r.pos
}
/// keys and ciphertext through their encodings
#[no_mangle]
pub unsafe fn h_xagree2_(buf: *const u8, len: usize, ct: *mut u8, ss1: *mut u8, ss2: *mut u8) -> usize {
    let mut r = BufRng { p: buf, len, pos: 0 };
    let (k, p) = x_wing::generate_key_pair(&mut r);
    let p = EncapsulationKey::from(&p.as_bytes());
    let (c, s) = p.encapsulate(&mut r).unwrap();
    put(ct, &c.as_bytes());
    put(ss1, &s);
    let k = DecapsulationKey::from(*k.as_bytes());
    let c = Ciphertext::from(&c.as_bytes());
    put(ss2, &k.decapsulate(&c).unwrap());
    r.pos
}
#[no_mangle]
pub fn h_xdksize() -> usize {
    size_of::<DecapsulationKey>()
}
#[no_mangle]
pub fn h_xdkalign() -> usize {
    align_of::<DecapsulationKey>()
}
#[no_mangle]
pub fn h_xctsize() -> usize {
    size_of::<Ciphertext>()
}
#[no_mangle]
pub fn h_xctalign() -> usize {
    align_of::<Ciphertext>()
}
#[no_mangle]
pub unsafe fn h_xmkdk(sk: *const u8, slot: *mut u8) {
    core::ptr::write(slot as *mut DecapsulationKey, DecapsulationKey::from(*arr::<32>(sk)));
}
#[no_mangle]
pub unsafe fn h_xdropdk(slot: *mut u8) {
    core::ptr::drop_in_place(slot as *mut DecapsulationKey);
}
#[no_mangle]
pub unsafe fn h_xzerodk(slot: *mut u8) {
    (*(slot as *mut DecapsulationKey)).zeroize();
}
#[no_mangle]
pub unsafe fn h_xmkct(ct: *const u8, slot: *mut u8) {
    core::ptr::write(slot as *mut Ciphertext, Ciphertext::from(arr::<1120>(ct)));
}
#[no_mangle]
pub unsafe fn h_xdropct(slot: *mut u8) {
    core::ptr::drop_in_place(slot as *mut Ciphertext);
}
#[no_mangle]
pub unsafe fn h_xzeroct(slot: *mut u8) {
    (*(slot as *mut Ciphertext)).zeroize();
}

//! Flat entry points over the public API of ml-kem. Everything here only moves bytes
//! in and out; the behaviour under check is all in /repo.
#![allow(clippy::missing_safety_doc)]
use core::mem::{align_of, size_of};
use core::slice::{from_raw_parts, from_raw_parts_mut};
use ml_kem::array::{Array, ArraySize};
use ml_kem::kem::{Decapsulate, Encapsulate};
use ml_kem::*;
use rand_core::{CryptoRng, Error, RngCore};

/// deterministic generator: replays a buffer, counts the bytes drawn
pub struct BufRng {
    pub p: *const u8,
    pub len: usize,
    pub pos: usize,
}
impl BufRng {
    fn byte(&mut self) -> u8 {
        let v = if self.pos < self.len { unsafe { *self.p.add(self.pos) } } else { 0xA5 };
        self.pos += 1;
        v
    }
}
impl RngCore for BufRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for BufRng {}

unsafe fn arr<N: ArraySize>(p: *const u8) -> Array<u8, N> {
    let s = from_raw_parts(p, N::USIZE);
    Array::<u8, N>::try_from(s).unwrap()
}
unsafe fn put(p: *mut u8, s: &[u8]) {
    from_raw_parts_mut(p, s.len()).copy_from_slice(s);
}

macro_rules! api {
    ($K:ty, $keygen:ident, $encaps:ident, $decaps:ident, $ekrt:ident, $dkrt:ident, $genrng:ident, $encrng:ident,
     $agree:ident, $eqek:ident, $eqdk:ident, $dksize:ident, $dkalign:ident, $mkdk:ident, $dropdk:ident, $decmem:ident, $agree2:ident, $seqdk:ident, $seqek:ident) => {
        /// (dk, ek) of generate_deterministic, and the encoding of dk.encapsulation_key()
        #[no_mangle]
        pub unsafe fn $keygen(d: *const u8, z: *const u8, dk: *mut u8, ek: *mut u8, ek2: *mut u8) {
            let (sk, pk) = <$K>::generate_deterministic(&arr(d), &arr(z));
            put(dk, &sk.as_bytes());
            put(ek, &pk.as_bytes());
            put(ek2, &sk.encapsulation_key().as_bytes());
        }
        #[no_mangle]
        pub unsafe fn $encaps(ek: *const u8, m: *const u8, ct: *mut u8, ss: *mut u8) {
            let ek = <$K as KemCore>::EncapsulationKey::from_bytes(&arr(ek));
            let (c, k) = ek.encapsulate_deterministic(&arr(m)).unwrap();
            put(ct, &c);
            put(ss, &k);
        }
        #[no_mangle]
        pub unsafe fn $decaps(dk: *const u8, ct: *const u8, ss: *mut u8) {
            let dk = <$K as KemCore>::DecapsulationKey::from_bytes(&arr(dk));
            let k = dk.decapsulate(&arr(ct)).unwrap();
            put(ss, &k);
        }
        #[no_mangle]
        pub unsafe fn $ekrt(ek: *const u8, out: *mut u8) {
            let ek = <$K as KemCore>::EncapsulationKey::from_bytes(&arr(ek));
            put(out, &ek.as_bytes());
        }
        #[no_mangle]
        pub unsafe fn $dkrt(dk: *const u8, out: *mut u8, ek: *mut u8) {
            let dk = <$K as KemCore>::DecapsulationKey::from_bytes(&arr(dk));
            put(out, &dk.as_bytes());
            put(ek, &dk.encapsulation_key().as_bytes());
        }
        /// returns the number of RNG bytes drawn
        #[no_mangle]
        pub unsafe fn $genrng(buf: *const u8, len: usize, dk: *mut u8, ek: *mut u8) -> usize {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let (sk, pk) = <$K>::generate(&mut r);
            put(dk, &sk.as_bytes());
            put(ek, &pk.as_bytes());
            r.pos
        }
        #[no_mangle]
        pub unsafe fn $encrng(ek: *const u8, buf: *const u8, len: usize, ct: *mut u8, ss: *mut u8) -> usize {
            let mut r = BufRng { p: buf, len, pos: 0 };
            let ek = <$K as KemCore>::EncapsulationKey::from_bytes(&arr(ek));
            let (c, k) = ek.encapsulate(&mut r).unwrap();
            put(ct, &c);
            put(ss, &k);
            r.pos
        }
        /// in-memory keys, no encoding in between
        #[no_mangle]
        pub unsafe fn $agree(d: *const u8, z: *const u8, m: *const u8, ct: *mut u8, ss1: *mut u8, ss2: *mut u8) {
            let (sk, pk) = <$K>::generate_deterministic(&arr(d), &arr(z));
            let (c, k) = pk.encapsulate_deterministic(&arr(m)).unwrap();
            put(ct, &c);
            put(ss1, &k);
            let k2 = sk.decapsulate(&c).unwrap();
            put(ss2, &k2);
        }
        /// both keys and the ciphertext through their encodings
        #[no_mangle]
        pub unsafe fn $agree2(d: *const u8, z: *const u8, m: *const u8, ct: *mut u8, ss1: *mut u8, ss2: *mut u8) {
            let (sk, pk) = <$K>::generate_deterministic(&arr(d), &arr(z));
            let pk = <$K as KemCore>::EncapsulationKey::from_bytes(&pk.as_bytes());
            let (c, k) = pk.encapsulate_deterministic(&arr(m)).unwrap();
            put(ct, &c);
            put(ss1, &k);
            let sk = <$K as KemCore>::DecapsulationKey::from_bytes(&sk.as_bytes());
            let k2 = sk.decapsulate(&c).unwrap();
            put(ss2, &k2);
        }
        #[no_mangle]
        pub unsafe fn $eqek(a: *const u8, b: *const u8) -> u8 {
            let a = <$K as KemCore>::EncapsulationKey::from_bytes(&arr(a));
            let b = <$K as KemCore>::EncapsulationKey::from_bytes(&arr(b));
            (a == b) as u8
        }
        #[no_mangle]
        pub unsafe fn $eqdk(a: *const u8, b: *const u8) -> u8 {
            let a = <$K as KemCore>::DecapsulationKey::from_bytes(&arr(a));
            let b = <$K as KemCore>::DecapsulationKey::from_bytes(&arr(b));
            (a == b) as u8
        }
        #[no_mangle]
        pub fn $dksize() -> usize {
            size_of::<<$K as KemCore>::DecapsulationKey>()
        }
        #[no_mangle]
        pub fn $dkalign() -> usize {
            align_of::<<$K as KemCore>::DecapsulationKey>()
        }
        /// construct a key in place
        #[no_mangle]
        pub unsafe fn $mkdk(dk: *const u8, slot: *mut u8) {
            let k = <$K as KemCore>::DecapsulationKey::from_bytes(&arr(dk));
            core::ptr::write(slot as *mut <$K as KemCore>::DecapsulationKey, k);
        }
        /// run the destructor in place
        #[no_mangle]
        pub unsafe fn $dropdk(slot: *mut u8) {
            core::ptr::drop_in_place(slot as *mut <$K as KemCore>::DecapsulationKey);
        }
        /// one key used twice, its clone once; then encoded
        #[no_mangle]
        pub unsafe fn $seqdk(dk: *const u8, ct: *const u8, ct2: *const u8, s1: *mut u8, s2: *mut u8, s3: *mut u8, out: *mut u8, ek: *mut u8) {
            let dk = <$K as KemCore>::DecapsulationKey::from_bytes(&arr(dk));
            put(s1, &dk.decapsulate(&arr(ct)).unwrap());
            put(s2, &dk.decapsulate(&arr(ct2)).unwrap());
            let c = dk.clone();
            put(s3, &c.decapsulate(&arr(ct)).unwrap());
            put(out, &dk.as_bytes());
            put(ek, &c.encapsulation_key().as_bytes());
        }
        #[no_mangle]
        pub unsafe fn $seqek(ek: *const u8, m: *const u8, m2: *const u8, c1: *mut u8, s1: *mut u8, c2: *mut u8, s2: *mut u8, c3: *mut u8, s3: *mut u8, out: *mut u8) {
            let ek = <$K as KemCore>::EncapsulationKey::from_bytes(&arr(ek));
            let cl = ek.clone();
            for (e, m, c, s) in [(&ek, m, c1, s1), (&ek, m2, c2, s2), (&cl, m, c3, s3)] {
                let (x, k) = e.encapsulate_deterministic(&arr(m)).unwrap();
                put(c, &x);
                put(s, &k);
            }
            put(out, &ek.as_bytes());
        }
        /// decapsulate with a key already in memory
        #[no_mangle]
        pub unsafe fn $decmem(slot: *const u8, ct: *const u8, ss: *mut u8) {
            let dk = &*(slot as *const <$K as KemCore>::DecapsulationKey);
            let k = dk.decapsulate(&arr(ct)).unwrap();
            put(ss, &k);
        }
    };
}

api!(MlKem512, h_keygen512, h_encaps512, h_decaps512, h_ekrt512, h_dkrt512, h_genrng512, h_encrng512, h_agree512, h_eqek512, h_eqdk512, h_dksize512, h_dkalign512, h_mkdk512, h_dropdk512, h_decmem512, h_agree2_512, h_seqdk512, h_seqek512);
api!(MlKem768, h_keygen768, h_encaps768, h_decaps768, h_ekrt768, h_dkrt768, h_genrng768, h_encrng768, h_agree768, h_eqek768, h_eqdk768, h_dksize768, h_dkalign768, h_mkdk768, h_dropdk768, h_decmem768, h_agree2_768, h_seqdk768, h_seqek768);
api!(MlKem1024, h_keygen1024, h_encaps1024, h_decaps1024, h_ekrt1024, h_dkrt1024, h_genrng1024, h_encrng1024, h_agree1024, h_eqek1024, h_eqdk1024, h_dksize1024, h_dkalign1024, h_mkdk1024, h_dropdk1024, h_decmem1024, h_agree2_1024, h_seqdk1024, h_seqek1024);

//! The executable specification on concrete values.
use crate::spec::Dom;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct V(pub u8, pub u64);
pub struct Conc;

fn m(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1 << w) - 1
    }
}
impl Dom for Conc {
    type V = V;
    type F = u32;
    type C = bool;
    fn konst(&mut self, w: u32, v: u64) -> V {
        V(w as u8, v & m(w))
    }
    fn concat(&mut self, l: &[V]) -> V {
        let mut o = 0;
        let mut v = 0u64;
        for x in l {
            v |= x.1 << o;
            o += x.0 as u32;
        }
        assert!(o <= 64);
        V(o as u8, v)
    }
    fn extract(&mut self, v: &V, lo: u32, len: u32) -> V {
        V(len as u8, (v.1 >> lo) & m(len))
    }
    fn xor(&mut self, a: &V, b: &V) -> V {
        V(a.0, a.1 ^ b.1)
    }
    fn keccak(&mut self, st: &[V]) -> Vec<V> {
        let mut s = [0u64; 25];
        for i in 0..25 {
            s[i] = st[i].1;
        }
        crate::keccak_f(&mut s);
        s.iter().map(|&x| V(64, x)).collect()
    }
    fn f_from(&mut self, v: &V) -> u32 {
        (v.1 % 3329) as u32
    }
    fn f_const(&mut self, v: u32) -> u32 {
        v % 3329
    }
    fn f_add(&mut self, a: &u32, b: &u32) -> u32 {
        (a + b) % 3329
    }
    fn f_sub(&mut self, a: &u32, b: &u32) -> u32 {
        (a + 3329 - b) % 3329
    }
    fn f_mul(&mut self, a: &u32, b: &u32) -> u32 {
        a * b % 3329
    }
    fn f_bits(&mut self, a: &u32) -> V {
        V(12, *a as u64)
    }
    fn compress(&mut self, a: &u32, d: u32) -> V {
        V(d as u8, (((*a as u64) << (d + 1)) + 3329) / 6658 & m(d))
    }
    fn decompress(&mut self, v: &V, d: u32) -> u32 {
        ((v.1 * 6658 + (1 << d)) >> (d + 1)) as u32
    }
    fn candidate_ok(&mut self, v: &V) -> bool {
        v.1 < 3329
    }
    fn all_eq(&mut self, a: &[V], b: &[V]) -> bool {
        a.iter().zip(b).all(|(x, y)| x.1 == y.1)
    }
    fn ite(&mut self, c: &bool, a: &V, b: &V) -> V {
        if *c {
            *a
        } else {
            *b
        }
    }
    fn x25519(&mut self, s: &[V], p: &[V]) -> Vec<V> {
        vals(&crate::x25519::x25519(&bytes(s), &bytes(p)))
    }
    fn x25519_base(&mut self, s: &[V]) -> Vec<V> {
        vals(&crate::x25519::x25519(&bytes(s), &crate::x25519::base()))
    }
}
pub fn vals(b: &[u8]) -> Vec<V> {
    b.iter().map(|&x| V(8, x as u64)).collect()
}
pub fn bytes(v: &[V]) -> Vec<u8> {
    v.iter().map(|x| x.1 as u8).collect()
}

//! The executable specification evaluated over symbolic terms.
use crate::spec::Dom;
use crate::term::*;

pub struct Sym<'a> {
    pub cx: &'a mut Ctx,
    /// candidate conditions that the implementation's path did not decide
    pub undecided: u32,
    pub on_x25519: Option<fn(&mut Ctx, &[T], Option<&[T]>) -> Vec<T>>,
    /// bits the honest sender put in, to replace the decrypted bits with (agreement checks)
    pub decrypt_hook: Option<Vec<T>>,
    /// leave reductions modulo q as remainder terms for the solver
    pub raw: bool,
}

impl<'a> Sym<'a> {
    pub fn new(cx: &'a mut Ctx) -> Sym<'a> {
        Sym { cx, undecided: 0, on_x25519: None, decrypt_hook: None, raw: false }
    }
}

pub fn compress_term(cx: &mut Ctx, x: T, d: u32) -> T {
    // floor((2^(d+1) x + q) / 2q) mod 2^d
    let x = cx.zext(x, 32);
    let k = cx.konst(32, 1 << (d + 1));
    let a = cx.bin(B::Mul, x, k);
    let q = cx.konst(32, Q);
    let a = cx.bin(B::Add, a, q);
    let q2 = cx.konst(32, 2 * Q);
    let u = cx.bin(B::UDiv, a, q2);
    let t = cx.extract(u, 0, d);
    cx.rep(t)
}

impl<'a> Dom for Sym<'a> {
    type V = T;
    type F = u32;
    type C = T;
    fn konst(&mut self, w: u32, v: u64) -> T {
        self.cx.konst(w, v as u128)
    }
    fn concat(&mut self, l: &[T]) -> T {
        self.cx.concat(l)
    }
    fn extract(&mut self, v: &T, lo: u32, len: u32) -> T {
        self.cx.extract(*v, lo, len)
    }
    fn xor(&mut self, a: &T, b: &T) -> T {
        self.cx.xor(*a, *b)
    }
    fn keccak(&mut self, st: &[T]) -> Vec<T> {
        self.cx.keccak(st)
    }
    fn f_from(&mut self, v: &T) -> u32 {
        self.cx.form(*v).expect("spec value without a form")
    }
    fn f_const(&mut self, v: u32) -> u32 {
        self.cx.poly.constant(v as u128)
    }
    fn f_add(&mut self, a: &u32, b: &u32) -> u32 {
        self.cx.poly.addmul(*a, 1, *b)
    }
    fn f_sub(&mut self, a: &u32, b: &u32) -> u32 {
        self.cx.poly.addmul(*a, Q as u32 - 1, *b)
    }
    fn f_mul(&mut self, a: &u32, b: &u32) -> u32 {
        self.cx.form_mul(*a, *b)
    }
    fn f_bits(&mut self, a: &u32) -> T {
        if self.raw {
            let v = self.cx.poly.get(*a);
            if v.len() == 1 && v[0].1 == 1 {
                let m = self.cx.poly.monos[v[0].0 as usize].to_vec();
                if m.len() == 1 {
                    let x = self.cx.zext(m[0], 32);
                    let q = self.cx.konst(32, Q);
                    let r = self.cx.bin(B::URem, x, q);
                    return self.cx.extract(r, 0, 12);
                }
            }
        }
        self.cx.fq(*a)
    }
    fn compress(&mut self, a: &u32, d: u32) -> T {
        let x = self.cx.fq(*a);
        compress_term(self.cx, x, d)
    }
    fn decompress(&mut self, v: &T, d: u32) -> u32 {
        // floor((2q y + 2^d) / 2^(d+1))
        let y = self.cx.zext(*v, 32);
        let k = self.cx.konst(32, 2 * Q);
        let a = self.cx.bin(B::Mul, y, k);
        let h = self.cx.konst(32, 1 << d);
        let a = self.cx.bin(B::Add, a, h);
        let t = self.cx.extract(a, d + 1, 12);
        let t = self.cx.rep(t);
        self.cx.form(t).expect("decompress form")
    }
    fn candidate_ok(&mut self, v: &T) -> bool {
        let q = self.cx.konst(12, Q);
        let c = self.cx.ult(*v, q);
        if let Some(b) = self.cx.cval(c) {
            return b == 1;
        }
        if let Some(&b) = self.cx.facts.get(&c) {
            return b;
        }
        // not decided by the implementation's path: follow the first active simulation
        self.undecided += 1;
        let k = self.cx.active.trailing_zeros() as usize;
        let b = self.cx.sim(c, k.min(NS - 1)) == 1;
        self.cx.assume(c, b);
        b
    }
    fn all_eq(&mut self, a: &[T], b: &[T]) -> T {
        let mut r = self.cx.tt();
        for (x, y) in a.iter().zip(b) {
            let e = self.cx.eq(*x, *y);
            r = self.cx.and(r, e);
        }
        r
    }
    fn ite(&mut self, c: &T, a: &T, b: &T) -> T {
        self.cx.ite(*c, *a, *b)
    }
    fn x25519(&mut self, s: &[T], p: &[T]) -> Vec<T> {
        let f = self.on_x25519.expect("x25519 not modelled");
        f(self.cx, s, Some(p))
    }
    fn x25519_base(&mut self, s: &[T]) -> Vec<T> {
        let f = self.on_x25519.expect("x25519 not modelled");
        f(self.cx, s, None)
    }
}

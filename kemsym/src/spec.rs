//! Executable specification: FIPS 203 (ML-KEM) and the X-Wing combiner, written against an
//! abstract value domain so that the same text runs concretely and symbolically.

pub trait Dom {
    /// bit-vector value
    type V: Clone;
    /// element of Z_q in [0,q)
    type F: Clone;
    /// truth value
    type C: Clone;
    fn konst(&mut self, w: u32, v: u64) -> Self::V;
    fn concat(&mut self, lo_to_hi: &[Self::V]) -> Self::V;
    fn extract(&mut self, v: &Self::V, lo: u32, len: u32) -> Self::V;
    fn xor(&mut self, a: &Self::V, b: &Self::V) -> Self::V;
    fn keccak(&mut self, st: &[Self::V]) -> Vec<Self::V>;
    /// unsigned value mod q
    fn f_from(&mut self, v: &Self::V) -> Self::F;
    fn f_const(&mut self, v: u32) -> Self::F;
    fn f_add(&mut self, a: &Self::F, b: &Self::F) -> Self::F;
    fn f_sub(&mut self, a: &Self::F, b: &Self::F) -> Self::F;
    fn f_mul(&mut self, a: &Self::F, b: &Self::F) -> Self::F;
    /// 12-bit encoding of an element
    fn f_bits(&mut self, a: &Self::F) -> Self::V;
    /// Compress_d (FIPS 203 section 4.2.1): round(2^d/q * x) mod 2^d
    fn compress(&mut self, a: &Self::F, d: u32) -> Self::V;
    /// Decompress_d: round(q/2^d * y)
    fn decompress(&mut self, v: &Self::V, d: u32) -> Self::F;
    /// control decision: 12-bit candidate below q?
    fn candidate_ok(&mut self, v: &Self::V) -> bool;
    fn all_eq(&mut self, a: &[Self::V], b: &[Self::V]) -> Self::C;
    fn ite(&mut self, c: &Self::C, a: &Self::V, b: &Self::V) -> Self::V;
    /// X25519(scalar, point) and X25519(scalar, 9)
    fn x25519(&mut self, s: &[Self::V], p: &[Self::V]) -> Vec<Self::V>;
    fn x25519_base(&mut self, s: &[Self::V]) -> Vec<Self::V>;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Params {
    pub name: &'static str,
    pub k: usize,
    pub eta1: u32,
    pub eta2: u32,
    pub du: u32,
    pub dv: u32,
}
pub const P512: Params = Params { name: "512", k: 2, eta1: 3, eta2: 2, du: 10, dv: 4 };
pub const P768: Params = Params { name: "768", k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 };
pub const P1024: Params = Params { name: "1024", k: 4, eta1: 2, eta2: 2, du: 11, dv: 5 };

impl Params {
    pub fn ek_len(&self) -> usize {
        384 * self.k + 32
    }
    pub fn dk_len(&self) -> usize {
        768 * self.k + 96
    }
    pub fn ct_len(&self) -> usize {
        32 * (self.du as usize * self.k + self.dv as usize)
    }
}

type Poly<D> = Vec<<D as Dom>::F>;

// ------------------------------------------------------------------ hashing
/// sponge with the given rate (bytes) and domain byte; returns `out` bytes
pub fn sponge<D: Dom>(d: &mut D, rate: usize, dom: u8, input: &[D::V], out: usize) -> Vec<D::V> {
    let (mut st, mut buf) = (absorb(d, rate, dom, input), vec![]);
    while buf.len() < out {
        for l in st.iter().take(rate / 8) {
            for i in 0..8 {
                buf.push(d.extract(l, 8 * i, 8));
            }
        }
        if buf.len() < out {
            st = d.keccak(&st);
        }
    }
    buf.truncate(out);
    buf
}
pub fn absorb<D: Dom>(d: &mut D, rate: usize, dom: u8, input: &[D::V]) -> Vec<D::V> {
    let mut msg: Vec<D::V> = input.to_vec();
    // padding: dom ... 0x80
    let padlen = rate - (msg.len() % rate);
    for i in 0..padlen {
        let mut b = 0u8;
        if i == 0 {
            b |= dom;
        }
        if i == padlen - 1 {
            b |= 0x80;
        }
        msg.push(d.konst(8, b as u64));
    }
    let zero = d.konst(64, 0);
    let mut st = vec![zero; 25];
    for blk in msg.chunks(rate) {
        for i in 0..rate / 8 {
            let lane = d.concat(&blk[8 * i..8 * i + 8]);
            st[i] = d.xor(&st[i], &lane);
        }
        st = d.keccak(&st);
    }
    st
}
pub fn sha3_256<D: Dom>(d: &mut D, m: &[D::V]) -> Vec<D::V> {
    sponge(d, 136, 0x06, m, 32)
}
pub fn sha3_512<D: Dom>(d: &mut D, m: &[D::V]) -> Vec<D::V> {
    sponge(d, 72, 0x06, m, 64)
}
pub fn shake128<D: Dom>(d: &mut D, m: &[D::V], n: usize) -> Vec<D::V> {
    sponge(d, 168, 0x1f, m, n)
}
pub fn shake256<D: Dom>(d: &mut D, m: &[D::V], n: usize) -> Vec<D::V> {
    sponge(d, 136, 0x1f, m, n)
}

// ------------------------------------------------------------------ encodings
pub fn byte_encode<D: Dom>(d: &mut D, w: u32, vals: &[D::V]) -> Vec<D::V> {
    let mut bits = vec![];
    for v in vals {
        for i in 0..w {
            bits.push((v.clone(), i));
        }
    }
    bits.chunks(8)
        .map(|c| {
            let bs: Vec<D::V> = c.iter().map(|(v, i)| d.extract(v, *i, 1)).collect();
            d.concat(&bs)
        })
        .collect()
}
pub fn byte_decode<D: Dom>(d: &mut D, w: u32, bytes: &[D::V]) -> Vec<D::V> {
    let n = bytes.len() * 8 / w as usize;
    (0..n)
        .map(|k| {
            let bs: Vec<D::V> = (0..w as usize)
                .map(|i| {
                    let b = k * w as usize + i;
                    d.extract(&bytes[b / 8], (b % 8) as u32, 1)
                })
                .collect();
            d.concat(&bs)
        })
        .collect()
}
fn encode12<D: Dom>(d: &mut D, p: &[D::F]) -> Vec<D::V> {
    let v: Vec<D::V> = p.iter().map(|x| d.f_bits(x)).collect();
    byte_encode(d, 12, &v)
}
fn decode12<D: Dom>(d: &mut D, b: &[D::V]) -> Poly<D> {
    let v = byte_decode(d, 12, b);
    v.iter().map(|x| d.f_from(x)).collect()
}

// ------------------------------------------------------------------ sampling
/// Algorithm 7 SampleNTT
pub fn sample_ntt<D: Dom>(d: &mut D, seed: &[D::V]) -> Poly<D> {
    let mut st = absorb(d, 168, 0x1f, seed);
    let mut out = vec![];
    let mut first = true;
    while out.len() < 256 {
        if !first {
            st = d.keccak(&st);
        }
        first = false;
        let mut buf = vec![];
        for l in st.iter().take(21) {
            for i in 0..8 {
                buf.push(d.extract(l, 8 * i, 8));
            }
        }
        for t in buf.chunks(3) {
            let lo = d.extract(&t[1], 0, 4);
            let hi = d.extract(&t[1], 4, 4);
            let d1 = d.concat(&[t[0].clone(), lo]);
            let d2 = d.concat(&[hi, t[2].clone()]);
            for c in [d1, d2] {
                if out.len() < 256 && d.candidate_ok(&c) {
                    out.push(d.f_from(&c));
                }
            }
        }
    }
    out
}
/// Algorithm 8 SamplePolyCBD_eta
pub fn sample_cbd<D: Dom>(d: &mut D, eta: u32, b: &[D::V]) -> Poly<D> {
    let bit = |d: &mut D, i: usize| {
        let x = d.extract(&b[i / 8], (i % 8) as u32, 1);
        d.f_from(&x)
    };
    (0..256)
        .map(|i| {
            let mut x = d.f_const(0);
            let mut y = d.f_const(0);
            for j in 0..eta as usize {
                let b1 = bit(d, 2 * i * eta as usize + j);
                x = d.f_add(&x, &b1);
                let b2 = bit(d, 2 * i * eta as usize + eta as usize + j);
                y = d.f_add(&y, &b2);
            }
            d.f_sub(&x, &y)
        })
        .collect()
}
fn prf_cbd<D: Dom>(d: &mut D, eta: u32, s: &[D::V], n: u8) -> Poly<D> {
    let mut m = s.to_vec();
    m.push(d.konst(8, n as u64));
    let o = shake256(d, &m, 64 * eta as usize);
    sample_cbd(d, eta, &o)
}

// ------------------------------------------------------------------ NTT
fn bitrev7(x: u32) -> u32 {
    (0..7).map(|i| ((x >> i) & 1) << (6 - i)).sum()
}
fn powq(mut b: u32, mut e: u32) -> u32 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % 3329;
        }
        b = b * b % 3329;
        e >>= 1;
    }
    r
}
/// Algorithm 9
pub fn ntt<D: Dom>(d: &mut D, f: &[D::F]) -> Poly<D> {
    let mut f = f.to_vec();
    let mut i = 1;
    let mut len = 128;
    while len >= 2 {
        let mut start = 0;
        while start < 256 {
            let z = d.f_const(powq(17, bitrev7(i)));
            i += 1;
            for j in start..start + len {
                let t = d.f_mul(&z, &f[j + len]);
                f[j + len] = d.f_sub(&f[j], &t);
                f[j] = d.f_add(&f[j], &t);
            }
            start += 2 * len;
        }
        len /= 2;
    }
    f
}
/// Algorithm 10
pub fn inv_ntt<D: Dom>(d: &mut D, f: &[D::F]) -> Poly<D> {
    let mut f = f.to_vec();
    let mut i = 127;
    let mut len = 2;
    while len <= 128 {
        let mut start = 0;
        while start < 256 {
            let z = d.f_const(powq(17, bitrev7(i)));
            i -= 1;
            for j in start..start + len {
                let t = f[j].clone();
                f[j] = d.f_add(&t, &f[j + len]);
                let s = d.f_sub(&f[j + len], &t);
                f[j + len] = d.f_mul(&z, &s);
            }
            start += 2 * len;
        }
        len *= 2;
    }
    let c = d.f_const(3303);
    f.iter().map(|x| d.f_mul(x, &c)).collect()
}
/// Algorithm 11 / 12
pub fn mul_ntts<D: Dom>(d: &mut D, f: &[D::F], g: &[D::F]) -> Poly<D> {
    let mut out = vec![];
    for i in 0..128 {
        let gam = d.f_const(powq(17, 2 * bitrev7(i as u32) + 1));
        let (a0, a1, b0, b1) = (&f[2 * i], &f[2 * i + 1], &g[2 * i], &g[2 * i + 1]);
        let x = d.f_mul(a0, b0);
        let y = d.f_mul(a1, b1);
        let y = d.f_mul(&y, &gam);
        out.push(d.f_add(&x, &y));
        let x = d.f_mul(a0, b1);
        let y = d.f_mul(a1, b0);
        out.push(d.f_add(&x, &y));
    }
    out
}
fn padd<D: Dom>(d: &mut D, a: &[D::F], b: &[D::F]) -> Poly<D> {
    a.iter().zip(b).map(|(x, y)| d.f_add(x, y)).collect()
}
fn psub<D: Dom>(d: &mut D, a: &[D::F], b: &[D::F]) -> Poly<D> {
    a.iter().zip(b).map(|(x, y)| d.f_sub(x, y)).collect()
}

fn matrix<D: Dom>(d: &mut D, p: &Params, rho: &[D::V]) -> Vec<Vec<Poly<D>>> {
    // A[i][j] = SampleNTT(rho || j || i)
    (0..p.k)
        .map(|i| {
            (0..p.k)
                .map(|j| {
                    let mut s = rho.to_vec();
                    s.push(d.konst(8, j as u64));
                    s.push(d.konst(8, i as u64));
                    sample_ntt(d, &s)
                })
                .collect()
        })
        .collect()
}

// ------------------------------------------------------------------ K-PKE
pub fn pke_keygen<D: Dom>(d: &mut D, p: &Params, seed: &[D::V]) -> (Vec<D::V>, Vec<D::V>) {
    let mut m = seed.to_vec();
    m.push(d.konst(8, p.k as u64));
    let g = sha3_512(d, &m);
    let (rho, sigma) = (&g[..32], &g[32..]);
    let a = matrix(d, p, rho);
    let mut n = 0u8;
    let mut s_hat = vec![];
    for _ in 0..p.k {
        let s = prf_cbd(d, p.eta1, sigma, n);
        n += 1;
        s_hat.push(ntt(d, &s));
    }
    let mut e_hat = vec![];
    for _ in 0..p.k {
        let e = prf_cbd(d, p.eta1, sigma, n);
        n += 1;
        e_hat.push(ntt(d, &e));
    }
    let mut ek = vec![];
    let mut dk = vec![];
    for i in 0..p.k {
        let mut t = e_hat[i].clone();
        for j in 0..p.k {
            let x = mul_ntts(d, &a[i][j], &s_hat[j]);
            t = padd(d, &t, &x);
        }
        ek.extend(encode12(d, &t));
        dk.extend(encode12(d, &s_hat[i]));
    }
    ek.extend_from_slice(rho);
    (ek, dk)
}
pub fn pke_encrypt<D: Dom>(d: &mut D, p: &Params, ek: &[D::V], m: &[D::V], r: &[D::V]) -> Vec<D::V> {
    let t_hat: Vec<Poly<D>> = (0..p.k).map(|i| decode12(d, &ek[384 * i..384 * (i + 1)])).collect();
    let rho = &ek[384 * p.k..];
    let a = matrix(d, p, rho);
    let mut n = 0u8;
    let mut y_hat = vec![];
    for _ in 0..p.k {
        let y = prf_cbd(d, p.eta1, r, n);
        n += 1;
        y_hat.push(ntt(d, &y));
    }
    let mut e1 = vec![];
    for _ in 0..p.k {
        e1.push(prf_cbd(d, p.eta2, r, n));
        n += 1;
    }
    let e2 = prf_cbd(d, p.eta2, r, n);
    let mut c = vec![];
    for i in 0..p.k {
        let mut acc: Option<Poly<D>> = None;
        for j in 0..p.k {
            let x = mul_ntts(d, &a[j][i], &y_hat[j]);
            acc = Some(match acc {
                None => x,
                Some(a) => padd(d, &a, &x),
            });
        }
        let u = inv_ntt(d, &acc.unwrap());
        let u = padd(d, &u, &e1[i]);
        let cu: Vec<D::V> = u.iter().map(|x| d.compress(x, p.du)).collect();
        c.extend(byte_encode(d, p.du, &cu));
    }
    let mb = byte_decode(d, 1, m);
    let mu: Poly<D> = mb.iter().map(|b| d.decompress(b, 1)).collect();
    let mut acc: Option<Poly<D>> = None;
    for j in 0..p.k {
        let x = mul_ntts(d, &t_hat[j], &y_hat[j]);
        acc = Some(match acc {
            None => x,
            Some(a) => padd(d, &a, &x),
        });
    }
    let v = inv_ntt(d, &acc.unwrap());
    let v = padd(d, &v, &e2);
    let v = padd(d, &v, &mu);
    let cv: Vec<D::V> = v.iter().map(|x| d.compress(x, p.dv)).collect();
    c.extend(byte_encode(d, p.dv, &cv));
    c
}
/// returns the message bits as well as the noisy values they are rounded from
pub fn pke_decrypt_w<D: Dom>(d: &mut D, p: &Params, dk: &[D::V], c: &[D::V]) -> Poly<D> {
    let du = p.du as usize;
    let mut acc: Option<Poly<D>> = None;
    for i in 0..p.k {
        let cu = byte_decode(d, p.du, &c[32 * du * i..32 * du * (i + 1)]);
        let u: Poly<D> = cu.iter().map(|x| d.decompress(x, p.du)).collect();
        let u_hat = ntt(d, &u);
        let s_hat = decode12(d, &dk[384 * i..384 * (i + 1)]);
        let x = mul_ntts(d, &s_hat, &u_hat);
        acc = Some(match acc {
            None => x,
            Some(a) => padd(d, &a, &x),
        });
    }
    let cv = byte_decode(d, p.dv, &c[32 * du * p.k..]);
    let v: Poly<D> = cv.iter().map(|x| d.decompress(x, p.dv)).collect();
    let su = inv_ntt(d, &acc.unwrap());
    psub(d, &v, &su)
}
pub fn pke_decrypt<D: Dom>(d: &mut D, p: &Params, dk: &[D::V], c: &[D::V]) -> Vec<D::V> {
    let w = pke_decrypt_w(d, p, dk, c);
    let m: Vec<D::V> = w.iter().map(|x| d.compress(x, 1)).collect();
    byte_encode(d, 1, &m)
}

// ------------------------------------------------------------------ ML-KEM
/// Algorithm 16: (ek, dk)
pub fn keygen<D: Dom>(d: &mut D, p: &Params, seed_d: &[D::V], z: &[D::V]) -> (Vec<D::V>, Vec<D::V>) {
    let (ek, dkp) = pke_keygen(d, p, seed_d);
    let h = sha3_256(d, &ek);
    let mut dk = dkp;
    dk.extend_from_slice(&ek);
    dk.extend(h);
    dk.extend_from_slice(z);
    (ek, dk)
}
/// the encapsulation key a byte string stands for: coefficients reduced mod q
pub fn reduce_ek<D: Dom>(d: &mut D, p: &Params, ek: &[D::V]) -> Vec<D::V> {
    let mut out = vec![];
    for i in 0..p.k {
        let t = decode12(d, &ek[384 * i..384 * (i + 1)]);
        out.extend(encode12(d, &t));
    }
    out.extend_from_slice(&ek[384 * p.k..]);
    out
}
/// a decapsulation key byte string with both coefficient vectors reduced mod q
pub fn reduce_dk<D: Dom>(d: &mut D, p: &Params, dk: &[D::V]) -> Vec<D::V> {
    let mut out = vec![];
    for i in 0..p.k {
        let t = decode12(d, &dk[384 * i..384 * (i + 1)]);
        out.extend(encode12(d, &t));
    }
    out.extend(reduce_ek(d, p, &dk[384 * p.k..768 * p.k + 32]));
    out.extend_from_slice(&dk[768 * p.k + 32..]);
    out
}
/// Algorithm 17 on a valid (reduced) encapsulation key: (K, c)
pub fn encaps<D: Dom>(d: &mut D, p: &Params, ek: &[D::V], m: &[D::V]) -> (Vec<D::V>, Vec<D::V>) {
    let h = sha3_256(d, ek);
    encaps_h(d, p, ek, &h, m)
}
pub fn encaps_h<D: Dom>(d: &mut D, p: &Params, ek: &[D::V], h: &[D::V], m: &[D::V]) -> (Vec<D::V>, Vec<D::V>) {
    let mut g = m.to_vec();
    g.extend_from_slice(h);
    let kr = sha3_512(d, &g);
    let c = pke_encrypt(d, p, ek, m, &kr[32..]);
    (kr[..32].to_vec(), c)
}
/// Algorithm 18
pub fn decaps<D: Dom>(d: &mut D, p: &Params, dk: &[D::V], c: &[D::V]) -> Vec<D::V> {
    decaps_full(d, p, dk, c).0
}
/// (K, accepted?, K', Kbar, c')
pub fn decaps_full<D: Dom>(d: &mut D, p: &Params, dk: &[D::V], c: &[D::V]) -> (Vec<D::V>, D::C, Vec<D::V>, Vec<D::V>, Vec<D::V>) {
    let k = p.k;
    let dkp = &dk[..384 * k];
    let ekp = &dk[384 * k..768 * k + 32];
    let h = &dk[768 * k + 32..768 * k + 64];
    let z = &dk[768 * k + 64..768 * k + 96];
    let m = pke_decrypt(d, p, dkp, c);
    let (kp, c2) = encaps_h(d, p, ekp, h, &m);
    let mut j = z.to_vec();
    j.extend_from_slice(c);
    let kbar = shake256(d, &j, 32);
    let eq = d.all_eq(c, &c2);
    let key = kp.iter().zip(&kbar).map(|(a, b)| d.ite(&eq, a, b)).collect();
    (key, eq, kp, kbar, c2)
}

// ------------------------------------------------------------------ X-Wing
pub const XWING_LABEL: [u8; 6] = [0x5c, 0x2e, 0x2f, 0x2f, 0x5e, 0x5c];

/// draft-connolly-cfrg-xwing-kem: expandDecapsulationKey -> (ek, mlkem dk, x25519 secret)
pub fn xwing_expand<D: Dom>(d: &mut D, sk: &[D::V]) -> (Vec<D::V>, Vec<D::V>, Vec<D::V>) {
    let e = shake128(d, sk, 96);
    let (ek_m, dk_m) = keygen(d, &P768, &e[..32], &e[32..64]);
    let sk_x = e[64..].to_vec();
    let pk_x = d.x25519_base(&sk_x);
    let mut ek = ek_m;
    ek.extend(pk_x);
    (ek, dk_m, sk_x)
}
/// combiner with the argument order the implementation documents: label first
pub fn xwing_combine<D: Dom>(d: &mut D, ss_m: &[D::V], ss_x: &[D::V], ct_x: &[D::V], pk_x: &[D::V]) -> Vec<D::V> {
    let mut m: Vec<D::V> = XWING_LABEL.iter().map(|&b| d.konst(8, b as u64)).collect();
    m.extend_from_slice(ss_m);
    m.extend_from_slice(ss_x);
    m.extend_from_slice(ct_x);
    m.extend_from_slice(pk_x);
    sha3_256(d, &m)
}
/// (ss, ct) from a reduced encapsulation key and 64 bytes of randomness
pub fn xwing_encaps<D: Dom>(d: &mut D, ek: &[D::V], rnd: &[D::V]) -> (Vec<D::V>, Vec<D::V>) {
    let (ek_m, pk_x) = ek.split_at(1184);
    let (ss_m, ct_m) = encaps(d, &P768, ek_m, &rnd[..32]);
    let ct_x = d.x25519_base(&rnd[32..]);
    let ss_x = d.x25519(&rnd[32..], pk_x);
    let ss = xwing_combine(d, &ss_m, &ss_x, &ct_x, pk_x);
    let mut ct = ct_m;
    ct.extend(ct_x);
    (ss, ct)
}
pub fn xwing_decaps<D: Dom>(d: &mut D, sk: &[D::V], ct: &[D::V]) -> Vec<D::V> {
    let (ek, dk_m, sk_x) = xwing_expand(d, sk);
    let pk_x = &ek[1184..];
    let (ct_m, ct_x) = ct.split_at(1088);
    let ss_m = decaps(d, &P768, &dk_m, ct_m);
    let ss_x = d.x25519(&sk_x, ct_x);
    xwing_combine(d, &ss_m, &ss_x, ct_x, pk_x)
}

//! Reference X25519 (RFC 7748), independent of the libraries under /repo's dependencies.
type Gf = [i64; 16];

fn car(o: &mut Gf) {
    for i in 0..16 {
        o[i] += 1 << 16;
        let c = o[i] >> 16;
        if i < 15 {
            o[i + 1] += c - 1;
        } else {
            o[0] += 38 * (c - 1);
        }
        o[i] -= c << 16;
    }
}
fn sel(p: &mut Gf, q: &mut Gf, b: i64) {
    if b == 1 {
        std::mem::swap(p, q);
    }
}
fn pack(n: &Gf) -> [u8; 32] {
    let mut t = *n;
    for _ in 0..3 {
        car(&mut t);
    }
    for _ in 0..2 {
        let mut m = [0i64; 16];
        m[0] = t[0] - 0xffed;
        for i in 1..15 {
            m[i] = t[i] - 0xffff - ((m[i - 1] >> 16) & 1);
            m[i - 1] &= 0xffff;
        }
        m[15] = t[15] - 0x7fff - ((m[14] >> 16) & 1);
        let b = (m[15] >> 16) & 1;
        m[14] &= 0xffff;
        if b == 0 {
            t = m;
        }
    }
    let mut o = [0u8; 32];
    for i in 0..16 {
        o[2 * i] = (t[i] & 0xff) as u8;
        o[2 * i + 1] = (t[i] >> 8) as u8;
    }
    o
}
fn unpack(n: &[u8]) -> Gf {
    let mut o = [0i64; 16];
    for i in 0..16 {
        o[i] = n[2 * i] as i64 + ((n[2 * i + 1] as i64) << 8);
    }
    o[15] &= 0x7fff;
    o
}
fn add(a: &Gf, b: &Gf) -> Gf {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] + b[i];
    }
    o
}
fn sub(a: &Gf, b: &Gf) -> Gf {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] - b[i];
    }
    o
}
fn mul(a: &Gf, b: &Gf) -> Gf {
    let mut t = [0i64; 31];
    for i in 0..16 {
        for j in 0..16 {
            t[i + j] += a[i] * b[j];
        }
    }
    for i in 0..15 {
        t[i] += 38 * t[i + 16];
    }
    let mut o = [0i64; 16];
    o.copy_from_slice(&t[..16]);
    car(&mut o);
    car(&mut o);
    o
}
fn inv(i: &Gf) -> Gf {
    let mut c = *i;
    for a in (0..=253).rev() {
        c = mul(&c, &c);
        if a != 2 && a != 4 {
            c = mul(&c, i);
        }
    }
    c
}
pub fn x25519(n: &[u8], p: &[u8]) -> [u8; 32] {
    let mut z = [0u8; 32];
    z.copy_from_slice(n);
    z[31] = (n[31] & 127) | 64;
    z[0] &= 248;
    let x = unpack(p);
    let mut a: Gf = [0; 16];
    let mut b = x;
    let mut c: Gf = [0; 16];
    let mut d: Gf = [0; 16];
    a[0] = 1;
    d[0] = 1;
    let k121665: Gf = {
        let mut t = [0; 16];
        t[0] = 0xDB41;
        t[1] = 1;
        t
    };
    for i in (0..=254).rev() {
        let r = ((z[i >> 3] >> (i & 7)) & 1) as i64;
        sel(&mut a, &mut b, r);
        sel(&mut c, &mut d, r);
        let mut e = add(&a, &c);
        a = sub(&a, &c);
        c = add(&b, &d);
        b = sub(&b, &d);
        d = mul(&e, &e);
        let f = mul(&a, &a);
        a = mul(&c, &a);
        c = mul(&b, &e);
        e = add(&a, &c);
        a = sub(&a, &c);
        b = mul(&a, &a);
        c = sub(&d, &f);
        a = mul(&c, &k121665);
        a = add(&a, &d);
        c = mul(&c, &a);
        a = mul(&d, &f);
        d = mul(&b, &x);
        b = mul(&e, &e);
        sel(&mut a, &mut b, r);
        sel(&mut c, &mut d, r);
    }
    pack(&mul(&a, &inv(&c)))
}
pub fn base() -> [u8; 32] {
    let mut b = [0; 32];
    b[0] = 9;
    b
}
/// the field element a string stands for, encoded canonically
pub fn canonical(n: &[u8]) -> [u8; 32] {
    pack(&unpack(n))
}

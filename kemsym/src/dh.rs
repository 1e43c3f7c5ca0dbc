//! DHKEM checks and the abstraction of the prime-order curves.
//!
//! A scalar is represented by the bytes it was drawn from, a point by the canonical encodings of
//! its coordinates. Scalar multiplication is an arbitrary function with
//! [a]([b]G) = [b]([a]G).
use crate::checks::*;
use crate::exec::*;
use crate::ir::Ty;
use crate::term::*;
use crate::uf::mix;
use crate::xw::{get, put, x25519_uf};

struct Curve {
    name: &'static str,
    /// bytes of an encoded field element / scalar
    f: usize,
    /// bytes of a field element and of a scalar in memory
    fe: usize,
    sc: usize,
}
const CURVES: [Curve; 4] = [
    Curve { name: "k256", f: 32, fe: 48, sc: 32 },
    Curve { name: "p256", f: 32, fe: 32, sc: 32 },
    Curve { name: "p384", f: 48, fe: 48, sc: 48 },
    Curve { name: "p521", f: 66, fe: 72, sc: 72 },
];
fn curve(n: &str) -> X<&'static Curve> {
    CURVES.iter().filter_map(|c| n.find(&format!("_4{}", c.name)).map(|i| (i, c))).min_by_key(|x| x.0).map(|x| x.1).ok_or(Stop::Unsupported(format!("curve of {n}")))
}
fn zeros(cx: &mut Ctx, n: usize) -> Vec<T> {
    (0..n).map(|_| cx.konst(8, 0)).collect()
}
fn fe_blob(cx: &mut Ctx, c: &Curve, b: &[T]) -> Vec<T> {
    let mut v = b.to_vec();
    v.extend(zeros(cx, c.fe - c.f));
    v
}
/// x || y of [s]P, where P is the generator (None) or a point given by its coordinates
fn mul(cx: &mut Ctx, c: &Curve, s: &[T], p: Option<&[T]>) -> Vec<T> {
    let mut w = vec![8u32; 2 * c.f];
    if c.f == 66 {
        w[0] = 1;
        w[66] = 1;
    }
    let gen = format!("{}-generator-multiple", c.name);
    let mut r = match p {
        None => cx.apply(&gen, s, &w),
        Some(p) => {
            // bytes narrower than eight bits were widened
            let mut q = p.to_vec();
            if c.f == 66 {
                q[0] = cx.extract(p[0], 0, 1);
                q[66] = cx.extract(p[66], 0, 1);
            }
            match cx.app_of(&gen, &q) {
                Some(o) => {
                    let s = s.to_vec();
                    let (a, b) = if s <= o { (s, o) } else { (o, s) };
                    let args: Vec<T> = a.into_iter().chain(b).collect();
                    cx.apply(&format!("{}-shared", c.name), &args, &w)
                }
                None => {
                    let args: Vec<T> = s.iter().chain(p).cloned().collect();
                    cx.apply(&format!("{}-multiple", c.name), &args, &w)
                }
            }
        }
    };
    if c.f == 66 {
        r[0] = cx.zext(r[0], 8);
        r[66] = cx.zext(r[66], 8);
    }
    r
}
fn encode(cx: &mut Ctx, c: &Curve, xy: &[T], compress: bool) -> Vec<T> {
    if !compress {
        let mut v = vec![cx.konst(8, 4)];
        v.extend_from_slice(xy);
        return v;
    }
    let odd = cx.extract(xy[2 * c.f - 1], 0, 1);
    let h = cx.konst(7, 1);
    let mut v = vec![cx.concat(&[odd, h])];
    v.extend_from_slice(&xy[..c.f]);
    v
}

// ---------------------------------------------------------------- stand-ins for curve operations
fn c_scalar_from_bytes(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let mut b = get(ex, &a[1], c.f as u64)?;
    b.extend(zeros(&mut ex.cx, c.sc - c.f));
    b.push(ex.cx.konst(8, 1));
    put(ex, &a[0], &b)?;
    Ok(Val::U)
}
fn c_scalar_is_zero(ex: &mut Exec, _: &str, _: &[Val], _: &Ty) -> X<Val> {
    Ok(Val::I(ex.cx.konst(8, 0)))
}
/// projective points are kept normalised, with a marker instead of the third coordinate
fn put_proj(ex: &mut Exec, c: &Curve, dst: &Val, xy: &[T]) -> X<()> {
    let mut v = fe_blob(&mut ex.cx, c, &xy[..c.f]);
    v.extend(fe_blob(&mut ex.cx, c, &xy[c.f..]));
    for _ in 0..c.fe {
        v.push(ex.cx.konst(8, 0xa5));
    }
    put(ex, dst, &v)
}
fn get_xy(ex: &mut Exec, c: &Curve, p: &Val) -> X<Vec<T>> {
    let mut v = get_coord(ex, c, p, 0)?;
    v.extend(get_coord(ex, c, p, 1)?);
    Ok(v)
}
fn get_coord(ex: &mut Exec, c: &Curve, p: &Val, i: usize) -> X<Vec<T>> {
    let p = ex.as_ptr(p)?;
    if p.sym.is_some() {
        return Err(Stop::Unsupported("group operation through a symbolic address".into()));
    }
    ex.get_bytes(p.obj, p.off + (i * c.fe) as u64, c.f as u64)
}
fn do_mul(ex: &mut Exec, c: &Curve, dst: &Val, p: &Val, s: &[T]) -> X<Val> {
    let mut whole = get_xy(ex, c, p)?;
    whole.extend(get_coord(ex, c, p, 2)?);
    let k: Vec<Option<u128>> = whole.iter().map(|&t| ex.cx.cval(t)).collect();
    let marked = k[2 * c.f..].iter().all(|x| *x == Some(0xa5));
    let r = if marked {
        mul(&mut ex.cx, c, s, Some(&whole[..2 * c.f]))
    } else if k.iter().all(|x| x.is_some()) {
        // a constant of the curve library: there is only one, the generator
        let h = k.iter().fold(0u64, |h, x| mix(h ^ x.unwrap() as u64));
        if *ex.generators.entry(c.name.to_string()).or_insert(h) != h {
            return Err(Stop::Unsupported("two different constant points".into()));
        }
        mul(&mut ex.cx, c, s, None)
    } else {
        return Err(Stop::Unsupported("multiple of a point that is not normalised".into()));
    };
    put_proj(ex, c, dst, &r)?;
    Ok(Val::U)
}
fn c_mul(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let s = get(ex, &a[2], c.f as u64)?;
    do_mul(ex, c, &a[0], &a[1], &s)
}
fn c_mul_gen(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let s = get(ex, &a[1], c.f as u64)?;
    let r = mul(&mut ex.cx, c, &s, None);
    put_proj(ex, c, &a[0], &r)?;
    Ok(Val::U)
}
/// one-term linear combination: (point, scalar) pairs
fn c_lincomb(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let p = ex.as_ptr(&a[1])?;
    if p.sym.is_some() {
        return Err(Stop::Unsupported("group operation through a symbolic address".into()));
    }
    let s = ex.get_bytes(p.obj, p.off + (3 * c.fe) as u64, c.f as u64)?;
    do_mul(ex, c, &a[0], &a[1], &s)
}
fn c_to_affine(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let z = get_coord(ex, c, &a[1], 2)?;
    if !z.iter().all(|&t| ex.cx.cval(t) == Some(0xa5)) {
        return Err(Stop::Unsupported("affine form of a point that is not a scalar multiple".into()));
    }
    let xy = get_xy(ex, c, &a[1])?;
    let mut v = fe_blob(&mut ex.cx, c, &xy[..c.f]);
    v.extend(fe_blob(&mut ex.cx, c, &xy[c.f..]));
    v.extend(zeros(&mut ex.cx, 8));
    put(ex, &a[0], &v)?;
    Ok(Val::U)
}
fn c_from_affine(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let xy = get_xy(ex, c, &a[1])?;
    put_proj(ex, c, &a[0], &xy)?;
    Ok(Val::U)
}
fn c_x(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let xy = get_xy(ex, c, &a[1])?;
    put(ex, &a[0], &xy[..c.f])?;
    Ok(Val::U)
}
fn c_encode(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let xy = get_xy(ex, c, &a[1])?;
    let k = ex.as_int(&a[2])?;
    let Some(k) = ex.cx.cval(k) else { return Err(Stop::Unsupported("symbolic compression flag".into())) };
    let mut v = encode(&mut ex.cx, c, &xy, k & 1 == 1);
    v.resize_with(2 * c.f + 1, || ex.cx.konst(8, 0));
    put(ex, &a[0], &v)?;
    Ok(Val::U)
}
fn c_fe_bytes(ex: &mut Exec, n: &str, a: &[Val], _: &Ty) -> X<Val> {
    let c = curve(n)?;
    let b = get(ex, &a[1], c.f as u64)?;
    put(ex, &a[0], &b)?;
    Ok(Val::U)
}

fn install(ex: &mut Exec) {
    let l: [(&str, CustomFn); 14] = [
        ("arithmetic6scalar*6Scalar*ff10PrimeField9from_repr", c_scalar_from_bytes),
        ("arithmetic6scalar*6Scalar10from_bytes", c_scalar_from_bytes),
        ("arithmetic6scalar*6Scalar*7is_zero", c_scalar_is_zero),
        ("15ProjectivePoint*16mul_by_generator", c_mul_gen),
        ("15ProjectivePoint*20LinearCombinationExt*11lincomb_ext", c_lincomb),
        ("15ProjectivePoint*5arith3Mul*6ScalarE3mul", c_mul),
        ("primeorder10projective*15ProjectivePoint*E3mul", c_mul),
        ("15ProjectivePoint*9to_affine", c_to_affine),
        ("15ProjectivePoint*4From*11AffinePoint*4from", c_from_affine),
        ("11AffinePoint*17AffineCoordinates1x", c_x),
        ("11AffinePoint*ToEncodedPoint*16to_encoded_point", c_encode),
        ("arithmetic5field12FieldElement*7to_repr", c_fe_bytes),
        ("arithmetic5field12FieldElement8to_bytes", c_fe_bytes),
        ("arithmetic5field12FieldElement7to_sec1", c_fe_bytes),
    ];
    for (p, f) in l {
        ex.custom.push((p.to_string(), f));
    }
}

/// one group seen from outside: scalar size, key size, key of a scalar, agreement
enum Group {
    X,
    E(&'static Curve),
}
impl Group {
    fn of(s: &str) -> Option<Group> {
        if s == "x25519" {
            return Some(Group::X);
        }
        CURVES.iter().find(|c| c.name == s).map(Group::E)
    }
    fn name(&self) -> &'static str {
        match self {
            Group::X => "x25519",
            Group::E(c) => c.name,
        }
    }
    fn f(&self) -> usize {
        match self {
            Group::X => 32,
            Group::E(c) => c.f,
        }
    }
    fn pk(&self) -> usize {
        match self {
            Group::X => 32,
            Group::E(c) => 2 * c.f + 1,
        }
    }
    /// public key, as encoded
    fn public(&self, cx: &mut Ctx, s: &[T]) -> Vec<T> {
        match self {
            Group::X => x25519_uf(cx, s, None),
            Group::E(c) => {
                let p = mul(cx, c, s, None);
                encode(cx, c, &p, false)
            }
        }
    }
    /// shared value with an encoded public key
    fn dh(&self, cx: &mut Ctx, s: &[T], p: &[T]) -> Vec<T> {
        match self {
            Group::X => x25519_uf(cx, s, Some(p)),
            Group::E(c) => mul(cx, c, s, Some(&p[1..]))[..c.f].to_vec(),
        }
    }
}

const N: usize = 512;

impl Run {
    fn group(&mut self, set: &str) -> X<Group> {
        install(&mut self.ex);
        Group::of(set).ok_or(Stop::Unsupported(format!("unknown group {set}")))
    }
    /// the generator's byte stream; candidates for 521-bit scalars start with a bit-sized byte
    fn stream(&mut self, g: &Group) -> Vec<T> {
        let mut s = vec![];
        for i in 0..N {
            let mut v: Sims = [0; NS];
            for k in 0..NS {
                v[k] = self.rnd() & if g.f() == 66 && i % 66 == 0 { 1 } else { 0xff };
            }
            s.push(v);
        }
        self.vars_sims("buf", &s)
    }
    fn u32s(&mut self, o: u32, i: usize) -> X<T> {
        let b = self.ex.get_bytes(o, 4 * i as u64, 4)?;
        Ok(self.ex.cx.concat(&b))
    }
    fn at(&mut self, what: &str, t: T, n: usize) {
        let w = self.ex.cx.width(t);
        let k = self.ex.cx.konst(w, n as u128);
        let e = self.ex.cx.eq(t, k);
        self.holds(what, e);
    }
    fn len_arg(&mut self, n: usize) -> Val {
        Val::I(self.ex.cx.konst(64, n as u128))
    }
    /// key pair, one encapsulation, two decapsulations; and a sequence of three encapsulations.
    /// `full`: also the values themselves (C22), otherwise only agreement (C21)
    pub fn dagree(&mut self, set: &str, full: bool) -> X<()> {
        let g = self.group(set)?;
        let (f, pl) = (g.f(), g.pk());
        let buf = self.stream(&g);
        let b = self.buf(&buf, "rng");
        let n = self.len_arg(N);
        let (pk, ek, s1, s2, s3, pos) = (self.out(pl, "pk"), self.out(pl, "ek"), self.out(f, "ss1"), self.out(f, "ss2"), self.out(f, "ss3"), self.ex.alloc(8, 4, "pos"));
        let args = vec![self.ex.p(b), n.clone(), self.ex.p(pk), self.ex.p(ek), self.ex.p(s1), self.ex.p(s2), self.ex.p(s3), self.ex.p(pos)];
        self.ex.call_name(&format!("h_dagree_{}", g.name()), args)?;
        let (pk, ek, s1, s2, s3) = (self.read(pk, pl)?, self.read(ek, pl)?, self.read(s1, f)?, self.read(s2, f)?, self.read(s3, f)?);
        self.same("receiver's secret", &s2, &s1);
        self.same("receiver's secret, again", &s3, &s1);
        if full {
            let (p0, p1) = (self.u32s(pos, 0)?, self.u32s(pos, 1)?);
            self.at("bytes drawn by key generation", p0, f);
            self.at("bytes drawn up to the end of encapsulation", p1, 2 * f);
            let cx = &mut self.ex.cx;
            let wpk = g.public(cx, &buf[..f]);
            let wek = g.public(cx, &buf[f..2 * f]);
            let wss = g.dh(cx, &buf[f..2 * f], &wpk);
            self.same("encapsulating key", &pk, &wpk);
            self.same("encapsulated key", &ek, &wek);
            self.same("sender's secret", &s1, &wss);
        }
        // a history of encapsulations to one key
        let (eks, sss, rss, poss) = (self.out(3 * pl, "eks"), self.out(3 * f, "sss"), self.out(3 * f, "rss"), self.ex.alloc(12, 4, "poss"));
        let args = vec![self.ex.p(b), n, self.ex.p(eks), self.len_arg(pl), self.ex.p(sss), self.len_arg(f), self.ex.p(rss), self.ex.p(poss)];
        self.ex.call_name(&format!("h_dseq_{}", g.name()), args)?;
        let (e, s, r) = (self.read(eks, 3 * pl)?, self.read(sss, 3 * f)?, self.read(rss, 3 * f)?);
        self.same("receiver's secrets of three encapsulations", &r, &s);
        if full {
            for i in 0..3 {
                let p = self.u32s(poss, i)?;
                self.at("bytes drawn", p, (i + 2) * f);
                let cx = &mut self.ex.cx;
                let own = g.public(cx, &buf[..f]);
                let k = &buf[(i + 1) * f..(i + 2) * f];
                let we = g.public(cx, k);
                let ws = g.dh(cx, k, &own);
                self.same("encapsulated key in sequence", &e[i * pl..(i + 1) * pl], &we);
                self.same("secret in sequence", &s[i * f..(i + 1) * f], &ws);
            }
        }
        Ok(())
    }
    /// C22: the pair belongs together; encapsulation to and decapsulation of unrelated keys
    pub fn dpair(&mut self, set: &str) -> X<()> {
        let g = self.group(set)?;
        let (f, pl) = (g.f(), g.pk());
        let buf = self.stream(&g);
        let b = self.buf(&buf, "rng");
        let (pk, own) = (self.out(pl, "pk"), self.out(pl, "own"));
        let args = vec![self.ex.p(b), self.len_arg(N), self.ex.p(pk), self.ex.p(own)];
        let r = self.ex.call_name(&format!("h_dpair_{}", g.name()), args)?;
        self.drawn(r, f as u64)?;
        let (pk, own) = (self.read(pk, pl)?, self.read(own, pl)?);
        let w = g.public(&mut self.ex.cx, &buf[..f]);
        self.same("encapsulating key", &pk, &w);
        self.same("public key of the decapsulating key", &own, &w);
        match g {
            Group::E(_) => {
                let (pk, other, ss) = (self.out(pl, "pk"), self.out(pl, "other"), self.out(f, "ss"));
                let args = vec![self.ex.p(b), self.len_arg(N), self.ex.p(pk), self.ex.p(other), self.ex.p(ss)];
                self.ex.call_name(&format!("h_ddec_{}", g.name()), args)?;
                let (pk, other, ss) = (self.read(pk, pl)?, self.read(other, pl)?, self.read(ss, f)?);
                let cx = &mut self.ex.cx;
                let wo = g.public(cx, &buf[f..2 * f]);
                let ws = g.dh(cx, &buf[..f], &wo);
                self.same("first key", &pk, &w);
                self.same("second key", &other, &wo);
                self.same("secret with the second key", &ss, &ws);
            }
            Group::X => {
                let peer = self.vars("pk", 32);
                let pb = self.buf(&peer, "peer");
                let (ek, ss, ss2) = (self.out(32, "ek"), self.out(32, "ss"), self.out(32, "ss2"));
                let args = vec![self.ex.p(pb), self.ex.p(b), self.len_arg(N), self.ex.p(ek), self.ex.p(ss)];
                let r = self.ex.call_name("h_denc_x25519", args)?;
                self.drawn(r, 32)?;
                let args = vec![self.ex.p(b), self.len_arg(N), self.ex.p(pb), self.ex.p(ss2)];
                self.ex.call_name("h_ddec_x25519", args)?;
                let (ek, ss, ss2) = (self.read(ek, 32)?, self.read(ss, 32)?, self.read(ss2, 32)?);
                let ws = g.dh(&mut self.ex.cx, &buf[..32], &peer);
                self.same("encapsulated key", &ek, &w);
                self.same("secret with an arbitrary recipient key", &ss, &ws);
                self.same("secret with an arbitrary received key", &ss2, &ws);
            }
        }
        Ok(())
    }
    /// C23: point encodings of the wrapper
    pub fn dpoint(&mut self, set: &str) -> X<()> {
        let g = self.group(set)?;
        let Group::E(c) = g else { return Ok(()) };
        let (f, pl) = (g.f(), g.pk());
        let buf = self.stream(&g);
        let b = self.buf(&buf, "rng");
        let o = [self.out(pl, "a"), self.out(pl, "b"), self.out(f + 1, "ac"), self.out(f + 1, "bc")];
        let mut args = vec![self.ex.p(b), self.len_arg(N)];
        args.extend(o.iter().map(|&o| self.ex.p(o)));
        self.ex.call_name(&format!("h_dpoint_{}", g.name()), args)?;
        let v = [self.read(o[0], pl)?, self.read(o[1], pl)?, self.read(o[2], f + 1)?, self.read(o[3], f + 1)?];
        let cx = &mut self.ex.cx;
        let p = mul(cx, c, &buf[..f], None);
        let (u, k) = (encode(cx, c, &p, false), encode(cx, c, &p, true));
        self.same("point encoding of the wrapped key", &v[1], &u);
        self.same("point encoding of the wrapper", &v[0], &u);
        self.same("compressed encoding of the wrapped key", &v[3], &k);
        self.same("compressed encoding of the wrapper", &v[2], &k);
        Ok(())
    }
    /// C23: conversions, comparisons and zeroization of the wrappers
    pub fn dwrap(&mut self) -> X<()> {
        self.ex.cx.no_canon = true;
        let x = self.vars("a", 32);
        let xb = self.buf(&x, "x");
        let outs: Vec<u32> = (0..6).map(|_| self.out(32, "o")).collect();
        let mut args = vec![xb];
        args.extend(&outs);
        self.call_raw("h_dwrap", &args)?;
        for (i, &o) in outs.iter().enumerate() {
            let v = self.read(o, 32)?;
            self.same(["DhEncapsulator::as_ref", "DhDecapsulator::as_ref", "DhEncapsulator::into_inner", "DhDecapsulator::into_inner", "clone of DhEncapsulator", "clone of DhDecapsulator"][i], &v, &x);
        }
        // comparisons
        let mut sb = self.sims_of(&x);
        for k in 1..NS {
            let i = (self.rnd() % 4) as usize;
            sb[i][k] = self.rnd() & 0xff;
        }
        for s in sb.iter_mut() {
            s[0] = self.rnd() & 0xff;
        }
        let y = self.vars_sims("b", &sb);
        let yb = self.buf(&y, "y");
        let r = self.call_raw("h_dcmp", &[xb, yb])?;
        let r = self.ex.as_int(&r)?;
        for i in 0..20 {
            let (a, b) = (self.ex.cx.extract(r, i, 1), self.ex.cx.extract(r, 32 + i, 1));
            self.same(&format!("comparison bit {i} of wrappers"), &[a], &[b]);
        }
        let r = self.call_raw("h_deqpk", &[xb, yb])?;
        let r = self.ex.as_int(&r)?;
        let (a, b) = (self.ex.cx.extract(r, 0, 1), self.ex.cx.extract(r, 1, 1));
        self.same("equality of wrapped X25519 keys", &[a], &[b]);
        // zeroization
        for (mk, z) in [("h_dmkenc", "h_dzenc"), ("h_dmkdec", "h_dzdec")] {
            let mut slots = vec![];
            for v in [xb, yb] {
                let o = self.out(32, "slot");
                self.call_raw(mk, &[v, o])?;
                slots.push(o);
            }
            let v = self.read(slots[0], 32)?;
            self.same("contents before", &v, &x);
            for &o in &slots {
                self.call_raw(z, &[o])?;
            }
            self.cells_same(&format!("memory after {z}"), slots[0], slots[1])?;
        }
        Ok(())
    }
}

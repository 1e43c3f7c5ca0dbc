//! DHKEM cases: the adapters next to the elliptic-curve libraries used directly.
use crate::{In, Rng};
use elliptic_curve::sec1::ToEncodedPoint;
use harness_dhkem as hd;

type Out = Vec<(&'static str, Vec<u8>)>;
pub const CURVES: [&str; 5] = ["x25519", "k256", "p256", "p384", "p521"];

type Agree = unsafe fn(*const u8, usize, *mut u8, *mut u8, *mut u8, *mut u8, *mut u8, *mut u32);
type Pair = unsafe fn(*const u8, usize, *mut u8, *mut u8) -> usize;
type Dec = unsafe fn(*const u8, usize, *mut u8, *mut u8, *mut u8);
type Seq = unsafe fn(*const u8, usize, *mut u8, usize, *mut u8, usize, *mut u8, *mut u32);
type Point = unsafe fn(*const u8, usize, *mut u8, *mut u8, *mut u8, *mut u8);

/// field size, functions
fn table(c: &str) -> (usize, Agree, Pair, Option<(Dec, Point)>) {
    match c {
        "k256" => (32, hd::h_dagree_k256, hd::h_dpair_k256, Some((hd::h_ddec_k256, hd::h_dpoint_k256))),
        "p256" => (32, hd::h_dagree_p256, hd::h_dpair_p256, Some((hd::h_ddec_p256, hd::h_dpoint_p256))),
        "p384" => (48, hd::h_dagree_p384, hd::h_dpair_p384, Some((hd::h_ddec_p384, hd::h_dpoint_p384))),
        "p521" => (66, hd::h_dagree_p521, hd::h_dpair_p521, Some((hd::h_ddec_p521, hd::h_dpoint_p521))),
        _ => (32, hd::h_dagree_x25519, hd::h_dpair_x25519, None),
    }
}

/// reference: the two scalars drawn from the stream, their public keys, the shared value
fn reference<C>(b: &[u8]) -> (usize, usize, Vec<u8>, Vec<u8>, Vec<u8>)
where
    C: elliptic_curve::CurveArithmetic,
    C::FieldBytesSize: elliptic_curve::sec1::ModulusSize,
    C::AffinePoint: elliptic_curve::sec1::FromEncodedPoint<C> + ToEncodedPoint<C>,
{
    let mut r = hd::BufRng { p: b.as_ptr(), len: b.len(), pos: 0 };
    let s1 = elliptic_curve::NonZeroScalar::<C>::random(&mut r);
    let n1 = r.pos;
    let s2 = elliptic_curve::NonZeroScalar::<C>::random(&mut r);
    let n2 = r.pos;
    let p1 = elliptic_curve::PublicKey::<C>::from_secret_scalar(&s1);
    let p2 = elliptic_curve::PublicKey::<C>::from_secret_scalar(&s2);
    let ss = elliptic_curve::ecdh::diffie_hellman(s2, p1.as_affine());
    (n1, n2, p1.to_encoded_point(false).as_bytes().to_vec(), p2.to_encoded_point(false).as_bytes().to_vec(), ss.raw_secret_bytes().to_vec())
}
fn reference_of(c: &str, b: &[u8]) -> (usize, usize, Vec<u8>, Vec<u8>, Vec<u8>) {
    match c {
        "k256" => reference::<k256::Secp256k1>(b),
        "p256" => reference::<p256::NistP256>(b),
        "p384" => reference::<p384::NistP384>(b),
        "p521" => reference::<p521::NistP521>(b),
        _ => {
            let p1 = crate::x25519::x25519(&b[..32], &crate::x25519::base());
            let p2 = crate::x25519::x25519(&b[32..64], &crate::x25519::base());
            (32, 64, p1.to_vec(), p2.to_vec(), crate::x25519::x25519(&b[32..64], &p1).to_vec())
        }
    }
}

/// public keys and shared values of three encapsulations in a row, and bytes drawn after each
fn seq_reference<C>(b: &[u8]) -> Out
where
    C: elliptic_curve::CurveArithmetic,
    C::FieldBytesSize: elliptic_curve::sec1::ModulusSize,
    C::AffinePoint: elliptic_curve::sec1::FromEncodedPoint<C> + ToEncodedPoint<C>,
{
    let mut r = hd::BufRng { p: b.as_ptr(), len: b.len(), pos: 0 };
    let s1 = elliptic_curve::NonZeroScalar::<C>::random(&mut r);
    let p1 = elliptic_curve::PublicKey::<C>::from_secret_scalar(&s1);
    let (mut ek, mut ss, mut pos) = (vec![], vec![], vec![]);
    for _ in 0..3 {
        let s = elliptic_curve::NonZeroScalar::<C>::random(&mut r);
        ek.extend_from_slice(elliptic_curve::PublicKey::<C>::from_secret_scalar(&s).to_encoded_point(false).as_bytes());
        ss.extend_from_slice(elliptic_curve::ecdh::diffie_hellman(s, p1.as_affine()).raw_secret_bytes());
        pos.extend_from_slice(&(r.pos as u32).to_le_bytes());
    }
    vec![("seq ek", ek), ("seq ss", ss.clone()), ("seq rs", ss), ("seq drawn", pos)]
}
fn seq_of(c: &str, b: &[u8]) -> (Out, Out) {
    let (f, run, e): (usize, Seq, Out) = match c {
        "k256" => (32, hd::h_dseq_k256, seq_reference::<k256::Secp256k1>(b)),
        "p256" => (32, hd::h_dseq_p256, seq_reference::<p256::NistP256>(b)),
        "p384" => (48, hd::h_dseq_p384, seq_reference::<p384::NistP384>(b)),
        "p521" => (66, hd::h_dseq_p521, seq_reference::<p521::NistP521>(b)),
        _ => {
            let base = crate::x25519::base();
            let p1 = crate::x25519::x25519(&b[..32], &base);
            let (mut ek, mut ss, mut pos) = (vec![], vec![], vec![]);
            for i in 1..4 {
                let s = &b[32 * i..32 * i + 32];
                ek.extend_from_slice(&crate::x25519::x25519(s, &base));
                ss.extend_from_slice(&crate::x25519::x25519(s, &p1));
                pos.extend_from_slice(&(32 * (i + 1) as u32).to_le_bytes());
            }
            (32, hd::h_dseq_x25519, vec![("seq ek", ek), ("seq ss", ss.clone()), ("seq rs", ss), ("seq drawn", pos)])
        }
    };
    let es = if c == "x25519" { 32 } else { 2 * f + 1 };
    let (mut ek, mut ss, mut rs, mut pos) = (vec![0; 3 * es], vec![0; 3 * f], vec![0; 3 * f], [0u32; 3]);
    unsafe { run(b.as_ptr(), b.len(), ek.as_mut_ptr(), es, ss.as_mut_ptr(), f, rs.as_mut_ptr(), pos.as_mut_ptr()) };
    (vec![("seq ek", ek), ("seq ss", ss), ("seq rs", rs), ("seq drawn", pos.iter().flat_map(|x| x.to_le_bytes()).collect())], e)
}

pub fn is_group(set: &str) -> bool {
    CURVES.contains(&set)
}
pub fn eval(prop: &str, set: &str, i: &In) -> Option<(Out, Out)> {
    let g = |k: &str| i.get(k).cloned().unwrap_or_default();
    let mut o: Out = vec![];
    let mut e: Out = vec![];
    if prop == "C23" {
        let (a, b) = (g("a"), g("b"));
        if a.len() != 32 || b.len() != 32 {
            return None;
        }
        let mut v = vec![vec![0u8; 32]; 6];
        let mut it = v.iter_mut().map(|x| x.as_mut_ptr());
        let mut n = || it.next().unwrap();
        unsafe {
            hd::h_dwrap(a.as_ptr(), n(), n(), n(), n(), n(), n());
        }
        for x in v {
            o.push(("unwrapped", x));
            e.push(("unwrapped", a.clone()));
        }
        let r = unsafe { hd::h_dcmp(a.as_ptr(), b.as_ptr()) };
        o.push(("comparison", (r as u32).to_le_bytes().to_vec()));
        e.push(("comparison", ((r >> 32) as u32).to_le_bytes().to_vec()));
        let r = unsafe { hd::h_deqpk(a.as_ptr(), b.as_ptr()) };
        o.push(("key equality", vec![r & 1]));
        e.push(("key equality", vec![r >> 1]));
        unsafe {
            for (mk, z) in [(hd::h_dmkenc as unsafe fn(*const u8, *mut u8), hd::h_dzenc as unsafe fn(*mut u8)), (hd::h_dmkdec, hd::h_dzdec)] {
                let mut s = vec![0u8; 32];
                mk(a.as_ptr(), s.as_mut_ptr());
                z(s.as_mut_ptr());
                o.push(("zeroized", s));
                e.push(("zeroized", vec![0; 32]));
            }
        }
        if set != "x25519" {
            let buf = g("buf");
            let (f, _, _, x) = table(set);
            let pt = x?.1;
            let (mut p, mut q, mut r, mut s) = (vec![0; 2 * f + 1], vec![0; 2 * f + 1], vec![0; f + 1], vec![0; f + 1]);
            unsafe { pt(buf.as_ptr(), buf.len(), p.as_mut_ptr(), q.as_mut_ptr(), r.as_mut_ptr(), s.as_mut_ptr()) };
            o.push(("point", p));
            e.push(("point", q));
            o.push(("compressed point", r));
            e.push(("compressed point", s));
        }
        return Some((o, e));
    }
    let buf = g("buf");
    if buf.len() < 256 {
        return None;
    }
    let (f, agree, pair, ecx) = table(set);
    let pl = if set == "x25519" { 32 } else { 2 * f + 1 };
    let (mut pk, mut ek, mut s1, mut s2, mut s3, mut pos) = (vec![0; pl], vec![0; pl], vec![0; f], vec![0; f], vec![0; f], [0u32; 2]);
    unsafe { agree(buf.as_ptr(), buf.len(), pk.as_mut_ptr(), ek.as_mut_ptr(), s1.as_mut_ptr(), s2.as_mut_ptr(), s3.as_mut_ptr(), pos.as_mut_ptr()) };
    if prop == "C21" {
        let (q, _) = seq_of(set, &buf);
        return Some((vec![("ss_receiver", s2), ("ss_again", s3), ("seq rs", q[2].1.clone())], vec![("ss_receiver", s1.clone()), ("ss_again", s1), ("seq rs", q[1].1.clone())]));
    }
    let (n1, n2, p1, p2, ss) = reference_of(set, &buf);
    o.push(("drawn", vec![pos[0] as u8, pos[1] as u8]));
    e.push(("drawn", vec![n1 as u8, n2 as u8]));
    o.push(("recipient key", pk));
    e.push(("recipient key", p1.clone()));
    o.push(("encapsulated key", ek));
    e.push(("encapsulated key", p2.clone()));
    o.push(("ss_sender", s1));
    e.push(("ss_sender", ss.clone()));
    o.push(("ss_receiver", s2));
    e.push(("ss_receiver", ss.clone()));
    let (mut a, mut b) = (vec![0; pl], vec![0; pl]);
    let n = unsafe { pair(buf.as_ptr(), buf.len(), a.as_mut_ptr(), b.as_mut_ptr()) };
    o.push(("pair", a));
    e.push(("pair", p1.clone()));
    o.push(("own key", b));
    e.push(("own key", p1));
    o.push(("pair drawn", vec![n as u8]));
    e.push(("pair drawn", vec![n1 as u8]));
    if let Some((dec, _)) = ecx {
        let (mut a, mut b, mut s) = (vec![0; pl], vec![0; pl], vec![0; f]);
        unsafe { dec(buf.as_ptr(), buf.len(), a.as_mut_ptr(), b.as_mut_ptr(), s.as_mut_ptr()) };
        o.push(("dec other", b));
        e.push(("dec other", p2));
        o.push(("dec ss", s));
        e.push(("dec ss", ss));
    } else {
        let pk = g("pk");
        if pk.len() == 32 {
            let (mut ek, mut s) = (vec![0; 32], vec![0; 32]);
            let n = unsafe { hd::h_denc_x25519(pk.as_ptr(), buf.as_ptr(), buf.len(), ek.as_mut_ptr(), s.as_mut_ptr()) };
            o.push(("enc drawn", vec![n as u8]));
            e.push(("enc drawn", vec![32]));
            o.push(("enc ek", ek));
            e.push(("enc ek", crate::x25519::x25519(&buf[..32], &crate::x25519::base()).to_vec()));
            o.push(("enc ss", s));
            e.push(("enc ss", crate::x25519::x25519(&buf[..32], &pk).to_vec()));
            let mut s = vec![0; 32];
            unsafe { hd::h_ddec_x25519(buf.as_ptr(), buf.len(), pk.as_ptr(), s.as_mut_ptr()) };
            o.push(("dec ss", s));
            e.push(("dec ss", crate::x25519::x25519(&buf[..32], &pk).to_vec()));
        }
    }
    let (q, x) = seq_of(set, &buf);
    o.extend(q);
    e.extend(x);
    Some((o, e))
}

pub fn gen(prop: &str, n: u64, r: &mut Rng) -> (String, In) {
    let mut i = In::new();
    let set = CURVES[(n % 5) as usize].to_string();
    let mut buf = r.fill(512);
    if set == "p521" {
        // candidates for a 521-bit scalar are 66 big-endian bytes
        for k in 0..512 / 66 {
            if r.below(3) > 0 {
                buf[66 * k] &= 1;
            }
        }
    }
    let f = match set.as_str() {
        "p384" => 48,
        "p521" => 66,
        _ => 32,
    };
    match r.below(5) {
        // both parties hold the same scalar
        0 => buf.copy_within(0..f, f),
        1 => buf[..f].copy_from_slice(&r.odd(f)),
        2 => buf[f..2 * f].copy_from_slice(&r.odd(f)),
        _ => {}
    }
    if set == "p521" {
        buf[0] = 0;
        buf[66] &= 1;
    }
    i.insert("buf".into(), buf.clone());
    if prop == "C23" {
        let a = r.odd(32);
        let mut b = a.clone();
        match r.below(3) {
            0 => {}
            1 => b = r.odd(32),
            _ => {
                let j = r.below(8);
                b[j] = r.next() as u8;
            }
        }
        i.insert("a".into(), a);
        i.insert("b".into(), b);
    } else {
        let pk = match r.below(5) {
            0 => crate::x25519::x25519(&buf[..32], &crate::x25519::base()).to_vec(),
            1 => r.odd(32),
            _ => crate::odd_u(r),
        };
        i.insert("pk".into(), pk);
    }
    (set, i)
}

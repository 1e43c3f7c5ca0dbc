//! Native confirmation of counterexamples: run the real code (compiled from /repo) next to the
//! executable specification on concrete inputs.
//!
//!   replay run FILE                      re-run one recorded case; exit 1 if it still fails
//!   replay search PROP SECONDS SEED OUT [--hints FILE] [--trace FILE]
//!                                        look for a failing case, hints first; exit 1 when found
#[allow(dead_code)]
mod conc;
mod ec;
#[path = "../../kemsym/src/spec.rs"]
#[allow(dead_code)]
mod spec;
mod x25519;
use conc::{bytes, vals, Conc};
use spec::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

include!("keccak.rs");

use harness_dhkem as hd;
use harness_mlkem as hm;
use harness_xwing as hx;

pub type In = BTreeMap<String, Vec<u8>>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        x ^ (x >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// random, constant, or mostly-constant bytes
    pub fn odd(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                let i = self.below(n);
                v[i] = 1 << self.below(8);
                v
            }
            _ => self.fill(n),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn params(set: &str) -> Params {
    match set {
        "512" => P512,
        "1024" => P1024,
        _ => P768,
    }
}

macro_rules! disp {
    ($set:expr, $a:ident, $b:ident, $c:ident, ($($x:expr),*)) => {
        match $set { "512" => unsafe { hm::$a($($x),*) }, "768" => unsafe { hm::$b($($x),*) }, _ => unsafe { hm::$c($($x),*) } }
    };
}

/// outputs of the real code, by name
type Out = Vec<(&'static str, Vec<u8>)>;

fn mlkem_keygen(set: &str, d: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let p = params(set);
    let (mut dk, mut ek, mut e2) = (vec![0; p.dk_len()], vec![0; p.ek_len()], vec![0; p.ek_len()]);
    disp!(set, h_keygen512, h_keygen768, h_keygen1024, (d.as_ptr(), z.as_ptr(), dk.as_mut_ptr(), ek.as_mut_ptr(), e2.as_mut_ptr()));
    (dk, ek, e2)
}
fn mlkem_encaps(set: &str, ek: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let p = params(set);
    let (mut ct, mut ss) = (vec![0; p.ct_len()], vec![0; 32]);
    disp!(set, h_encaps512, h_encaps768, h_encaps1024, (ek.as_ptr(), m.as_ptr(), ct.as_mut_ptr(), ss.as_mut_ptr()));
    (ct, ss)
}
fn mlkem_decaps(set: &str, dk: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut ss = vec![0; 32];
    disp!(set, h_decaps512, h_decaps768, h_decaps1024, (dk.as_ptr(), ct.as_ptr(), ss.as_mut_ptr()));
    ss
}

fn spec_keygen(p: &Params, d: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (a, b) = keygen(&mut Conc, p, &vals(d), &vals(z));
    (bytes(&a), bytes(&b))
}
fn spec_encaps(p: &Params, ek: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let r = reduce_ek(&mut Conc, p, &vals(ek));
    let (k, c) = encaps(&mut Conc, p, &r, &vals(m));
    (bytes(&c), bytes(&k))
}
fn spec_decaps(p: &Params, dk: &[u8], ct: &[u8]) -> Vec<u8> {
    let r = reduce_dk(&mut Conc, p, &vals(dk));
    bytes(&decaps(&mut Conc, p, &r, &vals(ct)))
}

/// (observed, expected) of one case; None if the case does not apply
fn eval(prop: &str, set: &str, i: &In) -> Option<(Out, Out)> {
    let g = |k: &str| i.get(k).cloned().unwrap_or_default();
    let p = params(set);
    let op = String::from_utf8_lossy(&g("op")).to_string();
    let op = if op.is_empty() { prop.to_string() } else { op };
    let need = |k: &str, n: usize| i.get(k).map_or(false, |v| v.len() == n);
    match op.as_str() {
        "C01" | "C10" | "keygen" => {
            if !need("d", 32) || !need("z", 32) {
                return None;
            }
            let (dk, ek, e2) = mlkem_keygen(set, &g("d"), &g("z"));
            let (sek, sdk) = spec_keygen(&p, &g("d"), &g("z"));
            Some((vec![("dk", dk), ("ek", ek), ("ek2", e2)], vec![("dk", sdk), ("ek", sek.clone()), ("ek2", sek)]))
        }
        "C02" | "encaps" => {
            if !need("ek", p.ek_len()) || !need("m", 32) {
                return None;
            }
            let (c, k) = mlkem_encaps(set, &g("ek"), &g("m"));
            let (sc, sk) = spec_encaps(&p, &g("ek"), &g("m"));
            Some((vec![("ct", c), ("ss", k)], vec![("ct", sc), ("ss", sk)]))
        }
        "C03" | "C04" | "decaps" | "reject" | "rejectall" => {
            if !need("dk", p.dk_len()) || !need("ct", p.ct_len()) {
                return None;
            }
            let k = mlkem_decaps(set, &g("dk"), &g("ct"));
            Some((vec![("ss", k)], vec![("ss", spec_decaps(&p, &g("dk"), &g("ct")))]))
        }
        "C05" | "agree" | "agree2" | "agreep" => {
            if !need("d", 32) || !need("z", 32) || !need("m", 32) {
                return None;
            }
            let (d, z, m) = (g("d"), g("z"), g("m"));
            let mut o: Out = vec![];
            let mut e: Out = vec![];
            // the specification's own decryption of the specification's ciphertext decides whether
            // the decryption-failure event occurs
            let (sek, sdk) = spec_keygen(&p, &d, &z);
            let (sct, sss) = spec_encaps(&p, &sek, &m);
            if spec_decaps(&p, &sdk, &sct) != sss {
                return None;
            }
            for v in 0..2 {
                let (mut ct, mut s1, mut s2) = (vec![0; p.ct_len()], vec![0; 32], vec![0; 32]);
                if v == 0 {
                    disp!(set, h_agree512, h_agree768, h_agree1024, (d.as_ptr(), z.as_ptr(), m.as_ptr(), ct.as_mut_ptr(), s1.as_mut_ptr(), s2.as_mut_ptr()));
                } else {
                    disp!(set, h_agree2_512, h_agree2_768, h_agree2_1024, (d.as_ptr(), z.as_ptr(), m.as_ptr(), ct.as_mut_ptr(), s1.as_mut_ptr(), s2.as_mut_ptr()));
                }
                o.push(("ss_receiver", s2));
                e.push(("ss_receiver", s1));
            }
            Some((o, e))
        }
        "C06" | "ekrt" => {
            if !need("ek", p.ek_len()) {
                return None;
            }
            let mut out = vec![0; p.ek_len()];
            disp!(set, h_ekrt512, h_ekrt768, h_ekrt1024, (g("ek").as_ptr(), out.as_mut_ptr()));
            Some((vec![("ek", out)], vec![("ek", bytes(&reduce_ek(&mut Conc, &p, &vals(&g("ek")))))]))
        }
        "C07" | "dkrt" => {
            if !need("dk", p.dk_len()) {
                return None;
            }
            let (mut out, mut ek) = (vec![0; p.dk_len()], vec![0; p.ek_len()]);
            disp!(set, h_dkrt512, h_dkrt768, h_dkrt1024, (g("dk").as_ptr(), out.as_mut_ptr(), ek.as_mut_ptr()));
            let s = bytes(&reduce_dk(&mut Conc, &p, &vals(&g("dk"))));
            let e = s[384 * p.k..768 * p.k + 32].to_vec();
            Some((vec![("dk", out), ("ek", ek)], vec![("dk", s), ("ek", e)]))
        }
        "C09" | "genrng" | "encrng" => {
            // generation and encapsulation from a generator
            if !need("buf", 128) {
                return None;
            }
            let b = g("buf");
            let (mut dk, mut ek) = (vec![0; p.dk_len()], vec![0; p.ek_len()]);
            let n = disp!(set, h_genrng512, h_genrng768, h_genrng1024, (b.as_ptr(), b.len(), dk.as_mut_ptr(), ek.as_mut_ptr()));
            let (sdk, sek, _) = mlkem_keygen(set, &b[..32], &b[32..64]);
            let (mut ct, mut ss) = (vec![0; p.ct_len()], vec![0; 32]);
            let n2 = disp!(set, h_encrng512, h_encrng768, h_encrng1024, (sek.as_ptr(), b[64..].as_ptr(), 64, ct.as_mut_ptr(), ss.as_mut_ptr()));
            let (sct, sss) = mlkem_encaps(set, &sek, &b[64..96]);
            Some((
                vec![("drawn", vec![n as u8]), ("dk", dk), ("ek", ek), ("drawn_enc", vec![n2 as u8]), ("ct", ct), ("ss", ss)],
                vec![("drawn", vec![64]), ("dk", sdk), ("ek", sek), ("drawn_enc", vec![32]), ("ct", sct), ("ss", sss)],
            ))
        }
        "C11" | "wipe" => {
            if !need("dk", p.dk_len()) || !need("dk2", p.dk_len()) {
                return None;
            }
            // two keys equal in everything public
            let (a, mut b) = (g("dk"), g("dk2"));
            let k = p.k;
            b[384 * k..768 * k + 64].copy_from_slice(&a[384 * k..768 * k + 64]);
            let f = |x: &[u8]| -> Vec<u8> {
                let n = disp!(set, h_dksize512, h_dksize768, h_dksize1024, ());
                let mut mem = vec![0x33u64; n.div_ceil(8)];
                let s = mem.as_mut_ptr() as *mut u8;
                disp!(set, h_mkdk512, h_mkdk768, h_mkdk1024, (x.as_ptr(), s));
                disp!(set, h_dropdk512, h_dropdk768, h_dropdk1024, (s));
                (0..n).map(|i| unsafe { std::ptr::read_volatile(s.add(i)) }).collect()
            };
            Some((vec![("memory", f(&a))], vec![("memory", f(&b))]))
        }
        "C12" | "eq" | "eqek" | "eqdk" => {
            let (ek, dk) = (g("ek").len(), g("dk").len());
            if ek == p.ek_len() && g("ek2").len() == ek {
                let r = disp!(set, h_eqek512, h_eqek768, h_eqek1024, (g("ek").as_ptr(), g("ek2").as_ptr()));
                let s = bytes(&reduce_ek(&mut Conc, &p, &vals(&g("ek")))) == bytes(&reduce_ek(&mut Conc, &p, &vals(&g("ek2"))));
                Some((vec![("equal", vec![r])], vec![("equal", vec![s as u8])]))
            } else if dk == p.dk_len() && g("dk2").len() == dk {
                let r = disp!(set, h_eqdk512, h_eqdk768, h_eqdk1024, (g("dk").as_ptr(), g("dk2").as_ptr()));
                let s = bytes(&reduce_dk(&mut Conc, &p, &vals(&g("dk")))) == bytes(&reduce_dk(&mut Conc, &p, &vals(&g("dk2"))));
                Some((vec![("equal", vec![r])], vec![("equal", vec![s as u8])]))
            } else {
                None
            }
        }
        "C14" | "xkeygen" | "xgenrng" => {
            let mut b = g("buf");
            if b.is_empty() {
                b = g("sk");
            }
            if b.len() < 32 {
                return None;
            }
            b.resize(96, 0x5a);
            let (mut ek, mut sk) = (vec![0; 1216], vec![0; 32]);
            unsafe { hx::h_xkeygen(b.as_ptr(), ek.as_mut_ptr(), sk.as_mut_ptr()) };
            let (mut ek2, mut sk2, mut sk3) = (vec![0; 1216], vec![0; 32], vec![0; 32]);
            let n = unsafe { hx::h_xgenrng(b.as_ptr(), 96, sk2.as_mut_ptr(), ek2.as_mut_ptr()) };
            let n2 = unsafe { hx::h_xgen(b.as_ptr(), 96, sk3.as_mut_ptr()) };
            let s = bytes(&xwing_expand(&mut Conc, &vals(&b[..32])).0);
            let q = b[..32].to_vec();
            Some((
                vec![("ek", ek), ("sk", sk), ("ek_rng", ek2), ("sk_rng", sk2), ("sk_gen", sk3), ("drawn", vec![n as u8, n2 as u8])],
                vec![("ek", s.clone()), ("sk", q.clone()), ("ek_rng", s), ("sk_rng", q.clone()), ("sk_gen", q), ("drawn", vec![32, 32])],
            ))
        }
        "C15" | "xencaps" => {
            if !need("ek", 1216) || !need("buf", 96) {
                return None;
            }
            let (ek, b) = (g("ek"), g("buf"));
            let (mut ct, mut ss) = (vec![0; 1120], vec![0; 32]);
            let n = unsafe { hx::h_xencaps(ek.as_ptr(), b.as_ptr(), b.len(), ct.as_mut_ptr(), ss.as_mut_ptr()) };
            let mut r = reduce_ek(&mut Conc, &P768, &vals(&ek[..1184]));
            r.extend(vals(&ek[1184..]));
            let (s, c) = xwing_encaps(&mut Conc, &r, &vals(&b[..64]));
            Some((vec![("ct", ct), ("ss", ss), ("drawn", vec![n as u8])], vec![("ct", bytes(&c)), ("ss", bytes(&s)), ("drawn", vec![64])]))
        }
        "C16" | "xdecaps" => {
            if !need("sk", 32) || !need("ct", 1120) {
                return None;
            }
            let mut ss = vec![0; 32];
            unsafe { hx::h_xdecaps(g("sk").as_ptr(), g("ct").as_ptr(), ss.as_mut_ptr()) };
            Some((vec![("ss", ss)], vec![("ss", bytes(&xwing_decaps(&mut Conc, &vals(&g("sk")), &vals(&g("ct")))))]))
        }
        "C17" | "xrt" | "xeqek" | "xeqct" => {
            let mut o: Out = vec![];
            let mut e: Out = vec![];
            let (ct, ct2, ek, ek2, sk) = (g("ct"), g("ct2"), g("ek"), g("ek2"), g("sk"));
            let red = |x: &[u8]| {
                let mut r = bytes(&reduce_ek(&mut Conc, &P768, &vals(&x[..1184])));
                r.extend_from_slice(&x[1184..]);
                r
            };
            if ct.len() == 1120 {
                let mut x = vec![0; 1120];
                unsafe { hx::h_xctrt(ct.as_ptr(), x.as_mut_ptr()) };
                o.push(("ct", x));
                e.push(("ct", ct.clone()));
                if ct2.len() == 1120 {
                    o.push(("ct_eq", vec![unsafe { hx::h_xeqct(ct.as_ptr(), ct2.as_ptr()) }]));
                    e.push(("ct_eq", vec![(ct == ct2) as u8]));
                }
            }
            if ek.len() == 1216 {
                let mut x = vec![0; 1216];
                unsafe { hx::h_xekrt(ek.as_ptr(), x.as_mut_ptr()) };
                o.push(("ek", x));
                e.push(("ek", red(&ek)));
                if ek2.len() == 1216 {
                    o.push(("ek_eq", vec![unsafe { hx::h_xeqek(ek.as_ptr(), ek2.as_ptr()) }]));
                    // X25519 public keys are compared as field elements
                    let can = |x: &[u8]| {
                        let mut r = red(x);
                        let u = x25519::canonical(&x[1184..]);
                        r[1184..].copy_from_slice(&u);
                        r
                    };
                    e.push(("ek_eq", vec![(can(&ek) == can(&ek2)) as u8]));
                }
            }
            if sk.len() == 32 {
                let mut x = vec![0; 32];
                unsafe { hx::h_xskrt(sk.as_ptr(), x.as_mut_ptr()) };
                o.push(("sk", x));
                e.push(("sk", sk));
            }
            Some((o, e))
        }
        "C18" | "xagree" | "xagree2" => {
            if !need("buf", 128) {
                return None;
            }
            let b = g("buf");
            let mut o: Out = vec![];
            let mut e: Out = vec![];
            for v in 0..2 {
                let (mut ct, mut s1, mut s2) = (vec![0; 1120], vec![0; 32], vec![0; 32]);
                unsafe {
                    if v == 0 {
                        hx::h_xagree(b.as_ptr(), 128, ct.as_mut_ptr(), s1.as_mut_ptr(), s2.as_mut_ptr());
                    } else {
                        hx::h_xagree2_(b.as_ptr(), 128, ct.as_mut_ptr(), s1.as_mut_ptr(), s2.as_mut_ptr());
                    }
                }
                o.push(("ss_receiver", s2));
                e.push(("ss_receiver", s1));
            }
            Some((o, e))
        }
        "C19" | "xwipe" => {
            let (sk, ct) = (g("sk"), g("ct"));
            let mut o: Out = vec![];
            let mut e: Out = vec![];
            unsafe fn f(n: usize, x: &[u8], mk: unsafe fn(*const u8, *mut u8), rm: unsafe fn(*mut u8)) -> Vec<u8> {
                let mut mem = vec![0x33u64; n.div_ceil(8)];
                let s = mem.as_mut_ptr() as *mut u8;
                mk(x.as_ptr(), s);
                rm(s);
                (0..n).map(|i| std::ptr::read_volatile(s.add(i))).collect()
            }
            if sk.len() == 32 {
                let z: Vec<u8> = sk.iter().map(|x| x ^ 0x5f).collect();
                unsafe {
                    for rm in [hx::h_xdropdk as unsafe fn(*mut u8), hx::h_xzerodk] {
                        o.push(("dk memory", f(hx::h_xdksize(), &sk, hx::h_xmkdk, rm)));
                        e.push(("dk memory", f(hx::h_xdksize(), &z, hx::h_xmkdk, rm)));
                    }
                }
            }
            if ct.len() == 1120 {
                let z: Vec<u8> = ct.iter().map(|x| x ^ 0x5f).collect();
                unsafe {
                    for rm in [hx::h_xdropct as unsafe fn(*mut u8), hx::h_xzeroct] {
                        o.push(("ct memory", f(hx::h_xctsize(), &ct, hx::h_xmkct, rm)));
                        e.push(("ct memory", f(hx::h_xctsize(), &z, hx::h_xmkct, rm)));
                    }
                }
            }
            Some((o, e))
        }
        "C21" | "C22" | "C23" => ec::eval(prop, set, i),
        "C26" | "seqdk" | "seqek" | "xseqdk" | "xseqek" if ec::is_group(set) => ec::eval("C22", set, i),
        "C26" | "seqdk" | "seqek" | "xseqdk" | "xseqek" => {
            let mut o: Out = vec![];
            let mut e: Out = vec![];
            if need("dk", p.dk_len()) && need("ct", p.ct_len()) && need("ct2", p.ct_len()) {
                let (dk, c1, c2) = (g("dk"), g("ct"), g("ct2"));
                let mut s = vec![vec![0; 32]; 3];
                let (mut out, mut ek) = (vec![0; p.dk_len()], vec![0; p.ek_len()]);
                let q: Vec<*mut u8> = s.iter_mut().map(|x| x.as_mut_ptr()).collect();
                disp!(set, h_seqdk512, h_seqdk768, h_seqdk1024, (dk.as_ptr(), c1.as_ptr(), c2.as_ptr(), q[0], q[1], q[2], out.as_mut_ptr(), ek.as_mut_ptr()));
                let r = bytes(&reduce_dk(&mut Conc, &p, &vals(&dk)));
                let w = [spec_decaps(&p, &dk, &c1), spec_decaps(&p, &dk, &c2)];
                for k in 0..3 {
                    o.push((["first ss", "second ss", "third ss (clone)"][k], s[k].clone()));
                    e.push(("", w[k % 2].clone()));
                }
                e.push(("", r.clone()));
                o.push(("dk after use", out));
                e.push(("", r[384 * p.k..768 * p.k + 32].to_vec()));
                o.push(("ek after use", ek));
            } else if need("ek", p.ek_len()) && need("m", 32) && need("m2", 32) {
                let (ek, m, m2) = (g("ek"), g("m"), g("m2"));
                let mut c = vec![vec![0; p.ct_len()]; 3];
                let mut s = vec![vec![0; 32]; 3];
                let mut out = vec![0; p.ek_len()];
                let cp: Vec<*mut u8> = c.iter_mut().map(|x| x.as_mut_ptr()).collect();
                let sp: Vec<*mut u8> = s.iter_mut().map(|x| x.as_mut_ptr()).collect();
                disp!(set, h_seqek512, h_seqek768, h_seqek1024, (ek.as_ptr(), m.as_ptr(), m2.as_ptr(), cp[0], sp[0], cp[1], sp[1], cp[2], sp[2], out.as_mut_ptr()));
                let w = [spec_encaps(&p, &ek, &m), spec_encaps(&p, &ek, &m2)];
                for k in 0..3 {
                    o.push((["first ct", "second ct", "third ct (clone)"][k], c[k].clone()));
                    e.push(("", w[k % 2].0.clone()));
                    o.push((["first ss", "second ss", "third ss (clone)"][k], s[k].clone()));
                    e.push(("", w[k % 2].1.clone()));
                }
                o.push(("ek after use", out));
                e.push(("", bytes(&reduce_ek(&mut Conc, &p, &vals(&ek)))));
            } else if need("sk", 32) && need("ct", 1120) && need("ct2", 1120) {
                let (sk, c1, c2) = (g("sk"), g("ct"), g("ct2"));
                let mut s = vec![vec![0; 32]; 3];
                let (mut out, mut ek) = (vec![0; 32], vec![0; 1216]);
                let q: Vec<*mut u8> = s.iter_mut().map(|x| x.as_mut_ptr()).collect();
                unsafe { hx::h_xseqdk(sk.as_ptr(), c1.as_ptr(), c2.as_ptr(), q[0], q[1], q[2], out.as_mut_ptr(), ek.as_mut_ptr()) };
                let w = [bytes(&xwing_decaps(&mut Conc, &vals(&sk), &vals(&c1))), bytes(&xwing_decaps(&mut Conc, &vals(&sk), &vals(&c2)))];
                for k in 0..3 {
                    o.push((["first ss", "second ss", "third ss (clone)"][k], s[k].clone()));
                    e.push(("", w[k % 2].clone()));
                }
                o.push(("secret after use", out));
                e.push(("", sk.clone()));
                o.push(("ek after use", ek));
                e.push(("", bytes(&xwing_expand(&mut Conc, &vals(&sk)).0)));
            } else if need("ek", 1216) && need("buf", 160) {
                let (ek, b) = (g("ek"), g("buf"));
                let (mut c1, mut c2, mut s1, mut s2, mut out) = (vec![0; 1120], vec![0; 1120], vec![0; 32], vec![0; 32], vec![0; 1216]);
                let n = unsafe { hx::h_xseqek(ek.as_ptr(), b.as_ptr(), b.len(), c1.as_mut_ptr(), s1.as_mut_ptr(), c2.as_mut_ptr(), s2.as_mut_ptr(), out.as_mut_ptr()) };
                let mut r = reduce_ek(&mut Conc, &P768, &vals(&ek[..1184]));
                r.extend(vals(&ek[1184..]));
                let a = xwing_encaps(&mut Conc, &r, &vals(&b[..64]));
                let d = xwing_encaps(&mut Conc, &r, &vals(&b[64..128]));
                o.extend([("first ct", c1), ("first ss", s1), ("second ct (clone)", c2), ("second ss (clone)", s2), ("ek after use", out), ("drawn", vec![n as u8])]);
                e.extend([("", bytes(&a.1)), ("", bytes(&a.0)), ("", bytes(&d.1)), ("", bytes(&d.0)), ("", bytes(&r)), ("", vec![128])]);
            } else {
                return None;
            }
            Some((o, e))
        }
        _ => None,
    }
}

/// Some(description) if the case fails
fn fails(prop: &str, set: &str, i: &In) -> Option<String> {
    let r = catch_unwind(AssertUnwindSafe(|| eval(prop, set, i)));
    match r {
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Some(format!("panic: {}", m.replace('\n', " ")))
        }
        Ok(None) => None,
        Ok(Some((o, e))) => {
            if matches!(prop, "C08" | "C20") {
                return None; // only panics and crashes count
            }
            for ((n, a), (_, b)) in o.iter().zip(&e) {
                if a != b {
                    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
                    let w = |v: &[u8]| hex(&v[at.min(v.len())..(at + 16).min(v.len())]);
                    return Some(format!("{n}: byte {at}: code gives {} expected {}", w(a), w(b)));
                }
            }
            None
        }
    }
}

fn edge_coeffs(r: &mut Rng, v: &mut [u8], k: usize) {
    // plant boundary values into a few 12-bit coefficients
    for _ in 0..1 + r.below(6) {
        let i = r.below(256 * k);
        let x = [0u32, 1, 1664, 1665, 3328, 3329, 3330, 4095, 2048, 6][r.below(10)];
        for b in 0..12 {
            let p = 12 * i + b;
            v[p / 8] = v[p / 8] & !(1 << (p % 8)) | (((x >> b & 1) as u8) << (p % 8));
        }
    }
}
fn gen_ek(r: &mut Rng, set: &str) -> Vec<u8> {
    let p = params(set);
    match r.below(4) {
        0 => {
            let mut v = r.odd(p.ek_len());
            edge_coeffs(r, &mut v, p.k);
            v
        }
        1 => {
            let (d, z) = (r.fill(32), r.fill(32));
            let mut v = mlkem_keygen(set, &d, &z).1;
            edge_coeffs(r, &mut v, p.k);
            v
        }
        _ => {
            let (d, z) = (r.fill(32), r.fill(32));
            mlkem_keygen(set, &d, &z).1
        }
    }
}
fn tweak(r: &mut Rng, v: &mut [u8]) {
    match r.below(5) {
        0 | 1 => {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
        2 => {
            let i = r.below(v.len());
            v[i] = r.next() as u8;
        }
        3 => {
            for _ in 0..2 {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
        }
        _ => {
            let i = r.below(v.len());
            let j = (i + 1 + r.below(64)).min(v.len());
            let f = r.fill(j - i);
            v[i..j].copy_from_slice(&f);
        }
    }
}
/// boundary X25519 coordinates: low order, non-canonical, bit 255 set, the base point
pub fn odd_u(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(9) {
        0 => vec![0; 32],
        1 => (0..32).map(|i| (i == 0) as u8).collect(),
        2 => unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        3 => unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        4 => {
            let mut v = vec![0xff; 32];
            v[0] = 0xec + r.below(20) as u8;
            v[31] = 0x7f;
            v
        }
        5 => x25519::base().to_vec(),
        6 => r.odd(32),
        _ => r.fill(32),
    };
    if r.below(3) == 0 {
        v[31] |= 0x80;
    }
    v
}
/// an X-Wing key pair and the fields a careless implementation could compare or reuse
fn xpair(b: &[u8]) -> Vec<u8> {
    let (mut ek, mut s2) = (vec![0; 1216], vec![0; 32]);
    unsafe { hx::h_xkeygen(b.as_ptr(), ek.as_mut_ptr(), s2.as_mut_ptr()) };
    ek
}
/// a contiguous region given by the layout of (dk_pke, ek, h, z), changed
fn tweak_dk(r: &mut Rng, p: &Params, dk: &mut [u8]) {
    let k = 384 * p.k;
    let n = dk.len();
    let (lo, hi) = [(0, k), (k, 2 * k), (2 * k, 2 * k + 32), (n - 64, n - 32), (n - 32, n)][r.below(5)];
    match r.below(3) {
        0 => {
            let f = r.odd(hi - lo);
            dk[lo..hi].copy_from_slice(&f);
        }
        _ => tweak(r, &mut dk[lo..hi]),
    }
}
fn gen_dk_ct(r: &mut Rng, set: &str) -> (Vec<u8>, Vec<u8>) {
    let p = params(set);
    let (d, z, m) = (r.odd(32), r.odd(32), r.odd(32));
    let (mut dk, ek, _) = mlkem_keygen(set, &d, &z);
    let (mut ct, _) = mlkem_encaps(set, &ek, &m);
    match r.below(12) {
        0 | 1 => {}
        8 | 9 => tweak_dk(r, &p, &mut dk),
        10 => {
            tweak_dk(r, &p, &mut dk);
            tweak(r, &mut ct);
        }
        2 | 3 | 4 => tweak(r, &mut ct),
        5 => ct = r.odd(p.ct_len()),
        6 => {
            edge_coeffs(r, &mut dk, p.k);
            edge_coeffs(r, &mut dk[384 * p.k..], p.k);
        }
        _ => {
            dk = r.odd(p.dk_len());
            ct = r.odd(p.ct_len());
        }
    }
    (dk, ct)
}
/// repeats keygen / encapsulation / decapsulation on fixed inputs until a result changes
fn burst(secs: f64, seed: u64) -> Option<(String, In, String)> {
    let mut r = Rng(seed ^ 0xb0b);
    for set in SETS {
        let p = params(set);
        let (d, z, m) = (r.fill(32), r.fill(32), r.fill(32));
        let run = || {
            let (dk, ek, _) = mlkem_keygen(set, &d, &z);
            let (ct, s1) = mlkem_encaps(set, &ek, &m);
            let s2 = mlkem_decaps(set, &dk, &ct);
            (dk, ek, ct, s1, s2)
        };
        let first = catch_unwind(AssertUnwindSafe(run)).ok()?;
        let t = Instant::now();
        let mut n = 1u64;
        while t.elapsed().as_secs_f64() < secs / 3.0 {
            n += 1;
            if catch_unwind(AssertUnwindSafe(run)).ok().as_ref() != Some(&first) {
                let mut i = In::new();
                let mut ct2 = vec![0; p.ct_len()];
                ct2.copy_from_slice(&first.2);
                i.insert("dk".into(), first.0);
                i.insert("ct".into(), first.2);
                i.insert("ct2".into(), ct2);
                i.insert("repeat".into(), (2 * n).to_be_bytes().to_vec());
                return Some((set.into(), i, format!("repetition {n} of the same calls gives another result")));
            }
        }
    }
    None
}
const SETS: [&str; 3] = ["512", "768", "1024"];

fn gen(prop: &str, n: u64, r: &mut Rng) -> (String, In) {
    let mut i = In::new();
    let mut set = SETS[(n % 3) as usize].to_string();
    let p = params(&set);
    match prop {
        "C01" | "C10" => {
            i.insert("d".into(), r.odd(32));
            i.insert("z".into(), r.odd(32));
        }
        "C02" => {
            i.insert("ek".into(), gen_ek(r, &set));
            i.insert("m".into(), r.odd(32));
        }
        "C03" | "C04" => {
            let (dk, ct) = gen_dk_ct(r, &set);
            i.insert("dk".into(), dk);
            i.insert("ct".into(), ct);
        }
        "C05" => {
            for k in ["d", "z", "m"] {
                i.insert(k.into(), r.odd(32));
            }
        }
        "C06" => {
            i.insert("ek".into(), gen_ek(r, &set));
        }
        "C07" => {
            let (dk, _) = gen_dk_ct(r, &set);
            i.insert("dk".into(), dk);
        }
        "C08" => {
            let op = ["C01", "C02", "C03", "C05", "C06", "C07", "C09", "C12"][r.below(8)];
            let (s, j) = gen(op, n, r);
            set = s;
            i = j;
            i.insert("op".into(), op.as_bytes().to_vec());
        }
        "C09" => {
            i.insert("buf".into(), r.odd(128));
        }
        "C11" => {
            i.insert("dk".into(), r.fill(p.dk_len()));
            i.insert("dk2".into(), r.fill(p.dk_len()));
        }
        "C12" => {
            if r.below(2) == 0 {
                let a = gen_ek(r, &set);
                let mut b = a.clone();
                match r.below(4) {
                    0 => {}
                    1 => b = gen_ek(r, &set),
                    _ => tweak(r, &mut b),
                }
                i.insert("ek".into(), a);
                i.insert("ek2".into(), b);
            } else {
                let (a, _) = gen_dk_ct(r, &set);
                let mut b = a.clone();
                match r.below(4) {
                    0 => {}
                    1 => b = gen_dk_ct(r, &set).0,
                    _ => tweak(r, &mut b),
                }
                i.insert("dk".into(), a);
                i.insert("dk2".into(), b);
            }
        }
        "C14" => {
            i.insert("buf".into(), r.odd(96));
        }
        "C15" => {
            let mut ek = gen_ek(r, "768");
            let mut buf = r.odd(96);
            if r.below(4) == 0 {
                // the ephemeral scalar is the recipient's, or its public key equals a field
                let sk = r.fill(32);
                ek = xpair(&sk);
                let (_, _, x) = xwing_expand(&mut Conc, &vals(&sk));
                buf[32..64].copy_from_slice(&bytes(&x));
            } else {
                ek.extend(odd_u(r));
            }
            if r.below(8) == 0 {
                let e = x25519::x25519(&buf[32..64], &x25519::base());
                ek[1184..].copy_from_slice(&e);
            }
            i.insert("ek".into(), ek);
            i.insert("buf".into(), buf);
        }
        "C16" => {
            let sk = r.odd(32);
            let (mut ek, mut s2) = (vec![0; 1216], vec![0; 32]);
            unsafe { hx::h_xkeygen(sk.as_ptr(), ek.as_mut_ptr(), s2.as_mut_ptr()) };
            let b = r.odd(64);
            let (mut ct, mut ss) = (vec![0; 1120], vec![0; 32]);
            unsafe { hx::h_xencaps(ek.as_ptr(), b.as_ptr(), 64, ct.as_mut_ptr(), ss.as_mut_ptr()) };
            match r.below(9) {
                0 | 1 => {}
                2 => tweak(r, &mut ct),
                3 => tweak(r, &mut ct[1088..]),
                4 | 5 => ct[1088..].copy_from_slice(&odd_u(r)),
                6 => ct[1088..].copy_from_slice(&ek[1184..]),
                7 => ct[1088..].copy_from_slice(&sk),
                _ => {
                    ct = r.odd(1120);
                    ct[1088..].copy_from_slice(&odd_u(r));
                }
            }
            i.insert("sk".into(), sk);
            i.insert("ct".into(), ct);
        }
        "C17" => {
            let mut ek = gen_ek(r, "768");
            ek.extend(odd_u(r));
            let mut ct = r.odd(1120);
            if r.below(2) == 0 {
                ct[1088..].copy_from_slice(&odd_u(r));
            }
            let (mut ek2, mut ct2) = (ek.clone(), ct.clone());
            match r.below(4) {
                0 => {}
                1 => {
                    tweak(r, &mut ek2[1184..]);
                    tweak(r, &mut ct2[1088..]);
                }
                2 => {
                    ek2[1184..].copy_from_slice(&odd_u(r));
                    ct2[1088..].copy_from_slice(&odd_u(r));
                }
                _ => {
                    tweak(r, &mut ek2);
                    tweak(r, &mut ct2);
                }
            }
            i.insert("ek".into(), ek);
            i.insert("ek2".into(), ek2);
            i.insert("ct".into(), ct);
            i.insert("ct2".into(), ct2);
            i.insert("sk".into(), r.odd(32));
        }
        "C18" => {
            let mut buf = r.odd(128);
            if r.below(3) == 0 {
                // the ephemeral scalar is the recipient's
                let (_, _, x) = xwing_expand(&mut Conc, &vals(&buf[..32]));
                buf[64..96].copy_from_slice(&bytes(&x));
            }
            i.insert("buf".into(), buf);
        }
        "C19" => {
            i.insert("sk".into(), r.fill(32));
            i.insert("ct".into(), r.fill(1120));
        }
        "C20" => {
            let op = ["C14", "C15", "C16", "C16", "C15", "C17", "C18"][r.below(7)];
            let (s, j) = gen(op, n, r);
            set = s;
            i = j;
            i.insert("op".into(), op.as_bytes().to_vec());
        }
        "C26" => match r.below(8) {
            0 | 1 | 2 => {
                let (dk, ct) = gen_dk_ct(r, &set);
                let mut ct2 = ct.clone();
                if r.below(2) == 0 {
                    tweak(r, &mut ct2);
                } else {
                    ct2 = gen_dk_ct(r, &set).1;
                }
                i.insert("dk".into(), dk);
                i.insert("ct".into(), ct);
                i.insert("ct2".into(), ct2);
            }
            3 | 4 => {
                i.insert("ek".into(), gen_ek(r, &set));
                i.insert("m".into(), r.odd(32));
                i.insert("m2".into(), r.odd(32));
            }
            5 => {
                set = "768".into();
                i = gen("C16", n, r).1;
                let mut c = i["ct"].clone();
                if r.below(2) == 0 {
                    tweak(r, &mut c);
                } else {
                    c = gen("C16", n, r).1["ct"].clone();
                }
                i.insert("ct2".into(), c);
            }
            6 => {
                set = "768".into();
                i = gen("C15", n, r).1;
                let mut b = i["buf"].clone();
                b.extend(r.odd(64));
                i.insert("buf".into(), b);
            }
            _ => return ec::gen("C22", n, r),
        },
        _ => return ec::gen(prop, n, r),
    }
    (set, i)
}

fn write_case(path: &str, prop: &str, set: &str, i: &In, why: &str) {
    let mut s = format!("property={prop}\nset={set}\nwhat={}\n", why.replace('\n', " "));
    for (k, v) in i {
        s += &format!("in.{k}={}\n", hex(v));
    }
    std::fs::write(path, s).ok();
}
/// cases separated by blank lines
fn read_cases(path: &str) -> Vec<(String, String, In)> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for blk in t.split("\n\n") {
        let (mut p, mut s, mut i) = (String::new(), String::new(), In::new());
        for l in blk.lines() {
            if let Some((k, v)) = l.split_once('=') {
                match k {
                    "property" => p = v.into(),
                    "set" => s = v.into(),
                    _ => {
                        if let Some(n) = k.strip_prefix("in.") {
                            i.insert(n.into(), unhex(v));
                        }
                    }
                }
            }
        }
        if !i.is_empty() {
            out.push((p, s, i));
        }
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: replay run FILE | search PROP SECONDS SEED OUT [--hints F] [--trace F]");
        std::process::exit(2);
    }
    if a[1] == "run" {
        let cs = read_cases(&a[2]);
        let mut bad = 0;
        for (p, s, i) in &cs {
            // hidden state: the failing call may be a later one of the same kind
            let reps = if p == "C26" { i.get("repeat").map_or(2000, |b| b.iter().fold(0u64, |a, x| a << 8 | *x as u64)) } else { 1 };
            match (0..reps).find_map(|_| fails(p, s, i)) {
                Some(m) => {
                    println!("FAILS property={p} set={s}: {m}");
                    bad = 1;
                }
                None => println!("holds property={p} set={s}"),
            }
        }
        std::process::exit(if cs.is_empty() { 2 } else { bad });
    }
    let prop = a[2].clone();
    let secs: f64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let out = a[5].clone();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let trace = opt("--trace");
    let tried = AtomicU64::new(0);
    if let Some(h) = opt("--hints") {
        for (check, set, mut i) in read_cases(&h) {
            if matches!(prop.as_str(), "C08" | "C20") && !i.contains_key("op") {
                i.insert("op".into(), check.into_bytes());
            }
            if let Some(t) = &trace {
                write_case(t, &prop, &set, &i, "crash");
            }
            tried.fetch_add(1, Ordering::Relaxed);
            if let Some(m) = fails(&prop, &set, &i) {
                write_case(&out, &prop, &set, &i, &m);
                println!("FOUND by=hint set={set}: {m}");
                std::process::exit(1);
            }
        }
    }
    if prop == "C26" {
        // the same calls many times over: a result that changes shows hidden state
        if let Some((set, i, m)) = burst(secs / 3.0, seed) {
            write_case(&out, &prop, &set, &i, &m);
            println!("FOUND by=repetition set={set}: {m}");
            std::process::exit(1);
        }
    }
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(String, In, String)>> = Mutex::new(None);
    let nt = if trace.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |x| x.get()) };
    std::thread::scope(|sc| {
        for th in 0..nt {
            let (stop, found, tried, prop, trace) = (&stop, &found, &tried, &prop, &trace);
            sc.spawn(move || {
                let mut r = Rng(seed.wrapping_mul(0x1234567) ^ ((th as u64) << 40));
                let mut n = th as u64;
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs_f64(secs) {
                    // generation itself calls the real code
                    let g = catch_unwind(AssertUnwindSafe(|| gen(prop, n, &mut r)));
                    n += 1;
                    let (set, i) = match g {
                        Ok(x) => x,
                        Err(_) => {
                            // fall back to raw inputs
                            let set = SETS[(n % 3) as usize].to_string();
                            let p = params(&set);
                            let mut i = In::new();
                            for (k, l) in [("d", 32), ("z", 32), ("m", 32), ("ek", p.ek_len()), ("dk", p.dk_len()), ("ct", p.ct_len()), ("ct2", p.ct_len()), ("m2", 32), ("buf", 128), ("sk", 32)] {
                                i.insert(k.into(), r.fill(l));
                            }
                            let op: Option<&str> = match prop.as_str() {
                                "C08" => Some("C01"),
                                "C20" => Some("C14"),
                                _ => None,
                            };
                            if let Some(o) = op {
                                i.insert("op".into(), o.as_bytes().to_vec());
                            }
                            if prop.starts_with("C1") || prop == "C20" {
                                i.insert("buf".into(), r.fill(96));
                            }
                            (set, i)
                        }
                    };
                    if let Some(t) = trace {
                        write_case(t, prop, &set, &i, "crash");
                    }
                    tried.fetch_add(1, Ordering::Relaxed);
                    if let Some(m) = fails(prop, &set, &i) {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((set, i, m));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let n = tried.load(Ordering::Relaxed);
    if let Some((set, i, m)) = found.into_inner().unwrap() {
        write_case(&out, &prop, &set, &i, &m);
        println!("FOUND by=search tried={n} set={set}: {m}");
        std::process::exit(1);
    }
    println!("NONE tried={n}");
}

//! Uninterpreted-function applications: Keccak-f[1600] and group operations.
use crate::term::*;

#[derive(Clone, Debug)]
pub struct App {
    pub name: String,
    pub args: Vec<T>,
    pub outs: Vec<T>,
    /// SHAKE128 stream application (public matrix expansion): (stream index, block index)
    pub xof: Option<(u32, u32)>,
}

#[derive(Default)]
pub struct Apps {
    pub apps: Vec<App>,
    pub by_args: FxMap<(String, Vec<T>), u32>,
    pub by_sims: FxMap<(String, Vec<u64>), Vec<u32>>,
    pub n_xof: u32,
    /// accept/reject pattern of 12-bit candidates of XOF stream s: Some(true)=accept
    pub pattern: Option<Box<dyn Fn(u32, u32) -> Option<bool>>>,
    pub unified: u64,
    pub seed: u64,
    pub concrete_calls: u64,
    /// concrete mode: assignment index whose XOF streams are shaped
    pub conc_k: Option<usize>,
    conc_xof: FxMap<Vec<u64>, (u32, u32)>,
}

pub fn keccak_f(a: &mut [u64; 25]) {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001, 0x8000000080008081,
        0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b,
        0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a, 0x8000000080008081,
        0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROTC: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    for rc in RC {
        let mut bc = [0u64; 5];
        for i in 0..5 {
            bc[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
        }
        for i in 0..5 {
            let t = bc[(i + 4) % 5] ^ bc[(i + 1) % 5].rotate_left(1);
            for j in 0..5 {
                a[j * 5 + i] ^= t;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let j = PIL[i];
            let b = a[j];
            a[j] = t.rotate_left(ROTC[i]);
            t = b;
        }
        for j in 0..5 {
            let r = [a[j * 5], a[j * 5 + 1], a[j * 5 + 2], a[j * 5 + 3], a[j * 5 + 4]];
            for i in 0..5 {
                a[j * 5 + i] = r[i] ^ (!r[(i + 1) % 5] & r[(i + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

impl Ctx {
    fn find_app(&mut self, name: &str, args: &[T]) -> Result<u32, Vec<u64>> {
        if let Some(&a) = self.apps.by_args.get(&(name.to_string(), args.to_vec())) {
            return Ok(a);
        }
        let mut key = vec![];
        for k in 0..NS {
            if self.is_active(k) {
                for &t in args {
                    key.push(self.sims[t as usize][k]);
                }
            }
        }
        let cands = self.apps.by_sims.get(&(name.to_string(), key.clone())).cloned().unwrap_or_default();
        for c in cands {
            let old = self.apps.apps[c as usize].args.clone();
            let mut ok = true;
            for (x, y) in old.iter().zip(args) {
                if x != y {
                    let e = self.eq(*x, *y);
                    if !self.prove(e) {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                self.apps.unified += 1;
                self.apps.by_args.insert((name.to_string(), args.to_vec()), c);
                return Ok(c);
            }
        }
        Err(key)
    }
    fn add_app(&mut self, name: &str, args: Vec<T>, key: Vec<u64>, widths: &[u32], sims: Vec<Sims>, xof: Option<(u32, u32)>) -> u32 {
        let id = self.apps.apps.len() as u32;
        let outs = widths.iter().enumerate().map(|(i, &w)| self.uf(id, i as u16, w, sims[i])).collect();
        self.apps.by_args.insert((name.to_string(), args.clone()), id);
        self.apps.by_sims.entry((name.to_string(), key)).or_default().push(id);
        self.apps.apps.push(App { name: name.to_string(), args, outs, xof });
        id
    }
    /// impose the accept/reject pattern of stream s on block b (bytes 0..168 carry 112 candidates)
    fn shape(&self, st: &mut [u64; 25], s: u32, b: u32, k: usize) {
        let pat = match &self.apps.pattern {
            Some(p) => p,
            None => return,
        };
        let mut by = [0u8; 168];
        for i in 0..168 {
            by[i] = (st[i / 8] >> (8 * (i % 8))) as u8;
        }
        for c in 0..112u32 {
            let o = (c / 2 * 3) as usize;
            let old = if c % 2 == 0 { by[o] as u32 | ((by[o + 1] as u32 & 15) << 8) } else { (by[o + 1] as u32 >> 4) | ((by[o + 2] as u32) << 4) };
            let r = mix(self.apps.seed ^ ((s as u64) << 40) ^ ((b as u64) << 24) ^ ((c as u64) << 8) ^ ((k as u64) << 56) ^ old as u64);
            let v = match pat(s, b * 112 + c) {
                Some(true) if old >= 3329 => (r % 3329) as u32,
                Some(false) if old < 3329 => 3329 + (r % 767) as u32,
                _ => old,
            };
            if c % 2 == 0 {
                by[o] = v as u8;
                by[o + 1] = (by[o + 1] & 0xf0) | (v >> 8) as u8;
            } else {
                by[o + 1] = (by[o + 1] & 0x0f) | ((v & 15) << 4) as u8;
                by[o + 2] = (v >> 4) as u8;
            }
        }
        for i in 0..168 {
            st[i / 8] &= !(0xffu64 << (8 * (i % 8)));
            st[i / 8] |= (by[i] as u64) << (8 * (i % 8));
        }
    }
    pub fn keccak(&mut self, args: &[T]) -> Vec<T> {
        if args.iter().all(|&t| self.is_const(t)) {
            let mut st = [0u64; 25];
            for i in 0..25 {
                st[i] = self.cval(args[i]).unwrap() as u64;
            }
            let inp = st;
            keccak_f(&mut st);
            self.apps.concrete_calls += 1;
            if let Some(k) = self.apps.conc_k {
                let first = inp[5..20].iter().all(|&x| x == 0) && inp[21..].iter().all(|&x| x == 0) && inp[20] == 1 << 63 && inp[4] >> 16 == 0x1f;
                let x = if first { Some((inp[4] as u32 & 0xffff, 0)) } else { self.apps.conc_xof.get(&inp.to_vec()).map(|x| (x.0, x.1 + 1)) };
                if let Some((s, b)) = x {
                    self.shape(&mut st, s, b, k);
                    self.apps.conc_xof.insert(st.to_vec(), (s, b));
                }
            }
            return st.iter().map(|&v| self.konst(64, v as u128)).collect();
        }
        let key = match self.find_app("keccak-f1600", args) {
            Ok(a) => return self.apps.apps[a as usize].outs.clone(),
            Err(k) => k,
        };
        // is this a block of a SHAKE128 stream over a 34-byte input?
        let mut xof = None;
        let top = |s: &Self, i: usize| s.cval(args[i]);
        if (5..20).all(|i| top(self, i) == Some(0)) && (21..25).all(|i| top(self, i) == Some(0)) && top(self, 20) == Some(0x8000000000000000) {
            let h = self.extract(args[4], 16, 48);
            if self.cval(h) == Some(0x1f) {
                // label the stream by its two index bytes so that shaping does not depend on
                // the order in which streams are expanded
                let ji = self.extract(args[4], 0, 16);
                let s = match self.cval(ji) {
                    Some(v) => v as u32,
                    None => 0x10000 + self.apps.n_xof,
                };
                self.apps.n_xof += 1;
                xof = Some((s, 0));
            }
        } else {
            for (i, a) in self.apps.apps.iter().enumerate() {
                if let Some((s, b)) = a.xof {
                    if a.outs == args {
                        let _ = i;
                        xof = Some((s, b + 1));
                    }
                }
            }
        }
        let mut sims = vec![[0u64; NS]; 25];
        for k in 0..NS {
            let mut st = [0u64; 25];
            for i in 0..25 {
                st[i] = self.sims[args[i] as usize][k];
            }
            keccak_f(&mut st);
            if let Some((s, b)) = xof {
                self.shape(&mut st, s, b, k);
            }
            for i in 0..25 {
                sims[i][k] = st[i];
            }
        }
        let id = self.add_app("keccak-f1600", args.to_vec(), key, &[64; 25], sims, xof);
        self.apps.apps[id as usize].outs.clone()
    }
    /// generic uninterpreted function with pseudo-random simulation semantics
    pub fn apply(&mut self, name: &str, args: &[T], widths: &[u32]) -> Vec<T> {
        let key = match self.find_app(name, args) {
            Ok(a) => return self.apps.apps[a as usize].outs.clone(),
            Err(k) => k,
        };
        let mut nh = 0u64;
        for b in name.bytes() {
            nh = mix(nh ^ b as u64);
        }
        let mut sims = vec![[0u64; NS]; widths.len()];
        for k in 0..NS {
            let mut h = nh;
            for &a in args {
                h = mix(h ^ self.sims[a as usize][k]);
            }
            for (i, &w) in widths.iter().enumerate() {
                sims[i][k] = crate::ir::mask(mix(h ^ (i as u64 + 1)) as u128, w) as u64;
            }
        }
        let id = self.add_app(name, args.to_vec(), key, widths, sims, None);
        self.apps.apps[id as usize].outs.clone()
    }
    /// uninterpreted function whose simulation values are those of a real function
    pub fn apply_real(&mut self, name: &str, args: &[T], widths: &[u32], f: &dyn Fn(&[u64]) -> Vec<u64>) -> Vec<T> {
        if args.iter().all(|&t| self.is_const(t)) {
            let v: Vec<u64> = args.iter().map(|&t| self.cval(t).unwrap() as u64).collect();
            return f(&v).iter().zip(widths).map(|(&x, &w)| self.konst(w, x as u128)).collect();
        }
        let key = match self.find_app(name, args) {
            Ok(a) => return self.apps.apps[a as usize].outs.clone(),
            Err(k) => k,
        };
        let mut sims = vec![[0u64; NS]; widths.len()];
        for k in 0..NS {
            let v: Vec<u64> = args.iter().map(|&a| self.sims[a as usize][k]).collect();
            for (i, x) in f(&v).into_iter().enumerate() {
                sims[i][k] = x;
            }
        }
        let id = self.add_app(name, args.to_vec(), key, widths, sims, None);
        self.apps.apps[id as usize].outs.clone()
    }
    pub fn app_of(&self, name: &str, outs: &[T]) -> Option<Vec<T>> {
        let Node::Uf(a, _) = *self.node(outs[0]) else { return None };
        let ap = &self.apps.apps[a as usize];
        if ap.name == name && ap.outs == outs {
            Some(ap.args.clone())
        } else {
            None
        }
    }
    /// does the term depend (through its cone, looking inside XOF applications only as leaves)
    /// on nothing but XOF streams?
    pub fn only_xof(&self, t: T) -> bool {
        let mut st = vec![t];
        let mut seen: FxSet<T> = Default::default();
        let mut n = 0;
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            n += 1;
            if n > 2000 {
                return false;
            }
            match self.node(x) {
                Node::Const(_) => {}
                Node::Uf(a, _) => {
                    if self.apps.apps[*a as usize].xof.is_none() {
                        return false;
                    }
                }
                Node::Var(_) | Node::Fq(_) => return false,
                _ => st.extend(self.children(x)),
            }
        }
        true
    }
}

//! Polynomial normal forms modulo q over atoms (terms).
use crate::term::*;
use std::rc::Rc;

pub type Form = Rc<[(u32, u16)]>;
const QU: u32 = 3329;

pub struct Polys {
    pub monos: Vec<Box<[T]>>,
    mono_map: FxMap<Box<[T]>, u32>,
    forms: Vec<Form>,
    form_map: FxMap<Form, u32>,
    pub memo: FxMap<T, Option<u32>>,
    pub entries: u64,
}

pub fn inv(a: u32) -> u32 {
    // a^(q-2)
    let mut r = 1u32;
    let mut b = a % QU;
    let mut e = QU - 2;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % QU;
        }
        b = b * b % QU;
        e >>= 1;
    }
    r
}

impl Polys {
    pub fn new() -> Polys {
        let mut p = Polys { monos: vec![], mono_map: Default::default(), forms: vec![], form_map: Default::default(), memo: Default::default(), entries: 0 };
        p.mono(&[]); // 0 = constant
        p
    }
    pub fn mono(&mut self, m: &[T]) -> u32 {
        if let Some(&i) = self.mono_map.get(m) {
            return i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.into());
        self.mono_map.insert(m.into(), i);
        i
    }
    pub fn get(&self, f: u32) -> Form {
        self.forms[f as usize].clone()
    }
    pub fn intern(&mut self, v: Vec<(u32, u16)>) -> u32 {
        let f: Form = v.into();
        if let Some(&i) = self.form_map.get(&f) {
            return i;
        }
        let i = self.forms.len() as u32;
        self.entries += f.len() as u64;
        self.forms.push(f.clone());
        self.form_map.insert(f, i);
        i
    }
    pub fn constant(&mut self, c: u128) -> u32 {
        let c = (c % 3329) as u16;
        if c == 0 {
            self.intern(vec![])
        } else {
            self.intern(vec![(0, c)])
        }
    }
    pub fn as_const(&self, f: u32) -> Option<u32> {
        let v = &self.forms[f as usize];
        match v.len() {
            0 => Some(0),
            1 if v[0].0 == 0 => Some(v[0].1 as u32),
            _ => None,
        }
    }
    pub fn atom(&mut self, t: T) -> u32 {
        let m = self.mono(&[t]);
        self.intern(vec![(m, 1)])
    }
    /// a + k*b
    pub fn addmul(&mut self, a: u32, k: u32, b: u32) -> u32 {
        let k = k % QU;
        if k == 0 {
            return a;
        }
        let x = self.forms[a as usize].clone();
        let y = self.forms[b as usize].clone();
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                v.push(x[i]);
                i += 1;
            } else {
                let c = y[j].1 as u32 * k % QU;
                if i < x.len() && x[i].0 == y[j].0 {
                    let s = (x[i].1 as u32 + c) % QU;
                    if s != 0 {
                        v.push((x[i].0, s as u16));
                    }
                    i += 1;
                } else {
                    v.push((y[j].0, c as u16));
                }
                j += 1;
            }
        }
        self.intern(v)
    }
    pub fn scale(&mut self, a: u32, k: u32) -> u32 {
        let z = self.constant(0);
        self.addmul(z, k, a)
    }
    /// number of live entries, for statistics
    pub fn nforms(&self) -> usize {
        self.forms.len()
    }
}

impl Ctx {
    /// (coefficient, atom) such that form = coef * atom, atomising big forms
    fn monic_atom(&mut self, f: u32) -> (u32, u32) {
        // returns (coef, monomial id)
        let v = self.poly.get(f);
        if v.len() == 1 {
            return (v[0].1 as u32, v[0].0);
        }
        let c = v[0].1 as u32;
        let g = self.poly.scale(f, inv(c));
        let t = self.fq(g);
        (c, self.poly.mono(&[t]))
    }
    pub fn form_mul(&mut self, a: u32, b: u32) -> u32 {
        if let Some(k) = self.poly.as_const(a) {
            return self.poly.scale(b, k);
        }
        if let Some(k) = self.poly.as_const(b) {
            return self.poly.scale(a, k);
        }
        let (x, y) = (self.poly.get(a), self.poly.get(b));
        let mut acc: Vec<(u32, u32)> = vec![];
        let left: Vec<(u32, u32)>;
        let right: Vec<(u32, u32)>;
        if x.len() * y.len() <= 36 && x.len() <= 6 && y.len() <= 6 {
            left = x.iter().map(|p| (p.1 as u32, p.0)).collect();
            right = y.iter().map(|p| (p.1 as u32, p.0)).collect();
        } else {
            left = if x.len() <= 2 { x.iter().map(|p| (p.1 as u32, p.0)).collect() } else { vec![self.monic_atom(a)] };
            right = if y.len() <= 2 { y.iter().map(|p| (p.1 as u32, p.0)).collect() } else { vec![self.monic_atom(b)] };
        }
        for &(c1, m1) in &left {
            for &(c2, m2) in &right {
                let mut m: Vec<T> = self.poly.monos[m1 as usize].to_vec();
                m.extend_from_slice(&self.poly.monos[m2 as usize]);
                m.sort();
                let id = self.poly.mono(&m);
                acc.push((id, c1 * c2 % QU));
            }
        }
        acc.sort();
        let mut v: Vec<(u32, u16)> = vec![];
        for (m, c) in acc {
            if let Some(l) = v.last_mut() {
                if l.0 == m {
                    l.1 = ((l.1 as u32 + c) % QU) as u16;
                    continue;
                }
            }
            v.push((m, c as u16));
        }
        v.retain(|x| x.1 != 0);
        self.poly.intern(v)
    }
    pub fn eval_form(&self, f: u32, k: usize) -> u64 {
        let v = self.poly.get(f);
        let mut acc = 0u64;
        for (m, c) in v.iter() {
            let mut p = *c as u64;
            for &a in self.poly.monos[*m as usize].iter() {
                p = p * (self.sims[a as usize][k] % 3329) % 3329;
            }
            acc += p;
        }
        acc % 3329
    }
    /// the canonical 12-bit term with value (form mod q) in [0,q)
    pub fn fq(&mut self, f: u32) -> T {
        if let Some(c) = self.poly.as_const(f) {
            return self.konst(12, c as u128);
        }
        let v = self.poly.get(f);
        if v.len() == 1 && v[0].1 == 1 {
            let m = &self.poly.monos[v[0].0 as usize];
            if m.len() == 1 {
                let a = m[0];
                if self.hi(a) < Q {
                    return self.fit(a, 12);
                }
            }
        }
        let key = (12u8, Node::Fq(f));
        if let Some(&t) = self.intern.get(&key) {
            return t;
        }
        let mut s = [0u64; NS];
        // evaluate all simulations in one pass
        for (m, c) in v.iter() {
            let ms = &self.poly.monos[*m as usize];
            match ms.len() {
                0 => {
                    for k in 0..NS {
                        s[k] += *c as u64;
                    }
                }
                1 => {
                    let a = &self.sims[ms[0] as usize];
                    for k in 0..NS {
                        s[k] += *c as u64 * (a[k] % 3329);
                    }
                }
                _ => {
                    for k in 0..NS {
                        let mut p = *c as u64;
                        for &a in ms.iter() {
                            p = p * (self.sims[a as usize][k] % 3329) % 3329;
                        }
                        s[k] += p;
                    }
                }
            }
        }
        for k in 0..NS {
            s[k] %= 3329;
        }
        self.push_fq(key, s)
    }
    fn push_fq(&mut self, key: (u8, Node), s: Sims) -> T {
        let id = self.nodes.len() as T;
        self.nodes.push(key.1.clone());
        self.w.push(12);
        self.lo.push(0);
        self.hi.push(3328);
        self.sims.push(s);
        self.intern.insert(key, id);
        id
    }
    /// the form of an integer-valued term modulo q (sound: value(t) = form mod q);
    /// returns None when the term must be treated as opaque and is too large to be an atom
    pub fn form(&mut self, t: T) -> Option<u32> {
        if let Some(&f) = self.poly.memo.get(&t) {
            return f;
        }
        let f = self.form_uncached(t);
        self.poly.memo.insert(t, f);
        f
    }
    fn form_uncached(&mut self, t: T) -> Option<u32> {
        match self.node(t).clone() {
            Node::Const(v) => Some(self.poly.constant(v)),
            Node::Fq(f) => Some(f),
            Node::Bin(B::Add, a, b) => {
                if self.hi(a) + self.hi(b) > ones(self.width(t)) && !self.no_wrap(B::Add, t, a, b) {
                    return self.atom_form(t);
                }
                let x = self.form(a)?;
                let y = self.form(b)?;
                let f = self.poly.addmul(x, 1, y);
                if self.cval(a).is_none() && self.cval(b).is_none() && self.splits(f) && self.tiny(t) {
                    // a function of a few bits, computed in two parts: keep it whole
                    return self.atom_form(t);
                }
                Some(f)
            }
            Node::Bin(B::Sub, a, b) => {
                if self.lo(a) < self.hi(b) && !self.no_wrap(B::Sub, t, a, b) {
                    return self.atom_form(t);
                }
                let x = self.form(a)?;
                let y = self.form(b)?;
                Some(self.poly.addmul(x, QU - 1, y))
            }
            Node::Bin(B::Mul, a, b) => {
                if self.hi(a).checked_mul(self.hi(b)).map_or(true, |m| m > ones(self.width(t))) && !self.no_wrap(B::Mul, t, a, b) {
                    return self.atom_form(t);
                }
                let x = self.form(a)?;
                let y = self.form(b)?;
                Some(self.form_mul(x, y))
            }
            Node::Bin(B::URem, a, b) if self.cval(b) == Some(Q) => self.form(a),
            Node::Ite(c, a, b) => {
                // both arms congruent (conditional subtraction)
                let arith = |s: &Self, x: T| {
                    let n = s.core(x);
                    matches!(s.node(n), Node::Bin(B::Add | B::Sub, ..))
                };
                if arith(self, a) || arith(self, b) {
                    let x = self.form_arm(a, c, true);
                    let y = self.form_arm(b, c, false);
                    if x.is_some() && x == y {
                        return x;
                    }
                }
                self.atom_form(t)
            }
            Node::Slices(ps) => {
                // zero extension, shift left, or truncation without loss
                if let Some(&x) = self.trim.get(&t) {
                    if matches!(self.node(x), Node::Slices(xs) if xs.len() > 1) || self.refined.contains(&x) || self.is_leaf(self.strip(x).t) {
                        return self.form(x);
                    }
                }
                let mut nz = vec![];
                let mut o = 0u32;
                for p in ps.iter() {
                    if self.cval(p.t) != Some(0) {
                        nz.push((*p, o));
                    }
                    o += p.len as u32;
                }
                if nz.len() == 1 && !self.is_const(nz[0].0.t) {
                    let (p, o) = nz[0];
                    if p.lo == 0 && o <= 64 {
                        if p.len as u32 >= bits(self.hi(p.t)) || self.fits(p.t, p.len as u32) {
                            let f = self.form(p.t)?;
                            let k = (1u128 << o) % Q;
                            return Some(self.poly.scale(f, k as u32));
                        }
                    }
                }
                match self.trim.get(&t) {
                    Some(&x) if x != t => self.form(x),
                    _ => self.atom_form(t),
                }
            }
            _ => self.atom_form(t),
        }
    }
    /// form of an ite arm under the arm's condition: allows a subtraction that cannot
    /// borrow because of the condition
    fn form_arm(&mut self, t: T, c: T, sense: bool) -> Option<u32> {
        let ct = self.core(t);
        if let Node::Bin(op @ (B::Sub | B::Add), a, b) = *self.node(ct) {
            let bad = match op {
                B::Sub => self.lo(a) < self.hi(b),
                _ => self.hi(a) + self.hi(b) > ones(self.width(ct)),
            };
            if bad {
                // condition x < k with arm x - k' (k' <= k), sense false
                let guard = if sense { c } else { self.not(c) };
                let nw = self.nowrap_cond(op, a, b);
                let ng = self.not(guard);
                let imp = self.or(ng, nw);
                if self.cval(imp) == Some(1) || self.prove(imp) {
                    let x = self.form(a)?;
                    let y = self.form(b)?;
                    return Some(self.poly.addmul(x, if op == B::Sub { QU - 1 } else { 1 }, y));
                }
                return None;
            }
        }
        self.form(t)
    }
    fn nowrap_cond(&mut self, op: B, a: T, b: T) -> T {
        match op {
            B::Sub => self.ule(b, a),
            B::Add => {
                let s = self.bin(B::Add, a, b);
                self.ule(a, s)
            }
            _ => {
                let w = self.width(a);
                let x = self.zext(a, 2 * w);
                let y = self.zext(b, 2 * w);
                let p = self.bin(B::Mul, x, y);
                let h = self.extract(p, w, w);
                let z = self.konst(w, 0);
                self.eq(h, z)
            }
        }
    }
    fn no_wrap(&mut self, op: B, t: T, a: T, b: T) -> bool {
        if op == B::Mul && self.width(t) > 32 {
            return false;
        }
        let c = self.nowrap_cond(op, a, b);
        if self.cval(c) == Some(1) {
            return true;
        }
        self.stats.range_by_smt += 1;
        self.prove(c)
    }
    /// prove value(t) < 2^k
    fn fits(&mut self, t: T, k: u32) -> bool {
        let w = self.width(t);
        if k >= w {
            return true;
        }
        for s in 0..NS {
            if self.is_active(s) && self.sims[t as usize][s] >> k != 0 {
                return false;
            }
        }
        // only worthwhile for arithmetic nodes
        if !matches!(self.node(t), Node::Bin(B::Sub | B::Add, ..) | Node::Ite(..)) {
            return false;
        }
        let h = self.extract(t, k, w - k);
        let z = self.konst(w - k, 0);
        let c = self.eq(h, z);
        self.prove(c)
    }
    /// a form with several opaque multi-bit or computed atoms
    fn splits(&self, f: u32) -> bool {
        let v = self.poly.get(f);
        if v.len() < 2 || v.len() > 4 {
            return false;
        }
        v.iter().any(|(m, _)| {
            let at = &self.poly.monos[*m as usize];
            at.len() == 1 && {
                let p = self.strip(at[0]).t;
                !self.is_leaf(p) && !self.refined.contains(&p)
            }
        })
    }
    /// depends on at most 12 input bits, none of them of a field element
    fn tiny(&self, t: T) -> bool {
        match self.bit_support(t, 12) {
            Some(s) => !s.is_empty() && !s.iter().any(|(l, _)| matches!(self.node(*l), Node::Fq(_)) || self.refined.contains(l)),
            None => false,
        }
    }
    /// opaque term as atom; small cones that are affine in their bits become affine forms
    fn atom_form(&mut self, t: T) -> Option<u32> {
        let c = self.core(t);
        if c != t {
            return self.form(c);
        }
        if self.width(t) > 64 {
            return None;
        }
        if let Some(f) = self.affine(t) {
            return Some(f);
        }
        let a = self.rep(t);
        if a != t {
            return self.form(a);
        }
        Some(self.poly.atom(t))
    }
    fn affine(&mut self, t: T) -> Option<u32> {
        if self.width(t) == 1 {
            // a bit of a computed value may be an input bit
            if let Node::Slices(ps) = self.node(t) {
                let p = ps[0].t;
                if ps.len() == 1 && matches!(self.node(p), Node::Bin(B::Add | B::Sub | B::Mul, ..)) && !self.refined.contains(&p) {
                    if let Some(f) = self.affine_bits(t) {
                        return Some(f);
                    }
                }
            }
            return Some(self.poly.atom(t));
        }
        if self.refined.contains(&t) || matches!(self.node(t), Node::Var(_) | Node::Uf(..)) {
            return None;
        }
        self.affine_bits(t)
    }
    fn affine_bits(&mut self, t: T) -> Option<u32> {
        let sup = self.bit_support(t, 6)?;
        if sup.is_empty() {
            return None;
        }
        if sup.iter().any(|(l, _)| matches!(self.node(*l), Node::Fq(_)) || self.refined.contains(l)) {
            return None;
        }
        // evaluate on all assignments of the support bits
        let n = sup.len();
        let mut vals = vec![0u128; 1 << n];
        for a in 0..1usize << n {
            let mut env: FxMap<T, u128> = Default::default();
            for (i, (l, b)) in sup.iter().enumerate() {
                *env.entry(*l).or_insert(0) |= ((a >> i & 1) as u128) << b;
            }
            let mut memo = Default::default();
            vals[a] = self.eval(t, &env, &mut memo) % Q;
        }
        let c0 = vals[0];
        let mut co = vec![];
        for i in 0..n {
            co.push((vals[1 << i] + Q - c0) % Q);
        }
        for a in 0..1usize << n {
            let mut s = c0;
            for i in 0..n {
                if a >> i & 1 == 1 {
                    s += co[i];
                }
            }
            if s % Q != vals[a] {
                return None;
            }
        }
        // solver proof that the term equals its affine form (mod q)
        let bitsv: Vec<T> = sup.iter().map(|(l, b)| self.extract(*l, *b as u32, 1)).collect();
        let mut sum = self.konst(32, c0);
        for i in 0..n {
            let z = self.konst(32, 0);
            let k = self.konst(32, co[i]);
            let x = self.ite(bitsv[i], k, z);
            sum = self.bin(B::Add, sum, x);
        }
        let q = self.konst(32, Q);
        let l = self.bin(B::URem, sum, q);
        let tw = self.width(t).max(32);
        let tt = self.zext(t, tw);
        let q2 = self.konst(tw, Q);
        let r = self.bin(B::URem, tt, q2);
        let l = self.zext(l, tw);
        let e = self.eq(l, r);
        if self.cval(e) != Some(1) && !self.prove(e) {
            return None;
        }
        let mut f = self.poly.constant(c0);
        for i in 0..n {
            let a = self.poly.atom(bitsv[i]);
            f = self.poly.addmul(f, co[i] as u32, a);
        }
        Some(f)
    }
    /// rewrite a value proven to lie in [0,q) with a known form into its canonical term
    pub fn canon(&mut self, t: T) -> T {
        if self.no_canon {
            return t;
        }
        if let Some(&r) = self.repl.get(&t) {
            return r;
        }
        let w = self.width(t);
        let c = self.core(t);
        let arith = matches!(self.node(c), Node::Bin(B::Add | B::Sub | B::Mul | B::URem, ..) | Node::Ite(..));
        if !arith || w > 64 || w < 12 {
            return t;
        }
        let r = self.canon_uncached(c);
        let r = match r {
            Some(x) => self.fit(x, w),
            None => t,
        };
        if r != t {
            self.stats.canon += 1;
            for k in 0..NS {
                if self.is_active(k) && self.sims[r as usize][k] != self.sims[t as usize][k] {
                    panic!("internal: canonicalisation changed a value: {} vs {}", self.show(t, 4), self.show(r, 4));
                }
            }
        }
        self.repl.insert(t, r);
        r
    }
    fn canon_uncached(&mut self, t: T) -> Option<T> {
        // quick rejection by simulation
        for k in 0..NS {
            if self.is_active(k) && self.sims[t as usize][k] as u128 >= Q {
                return None;
            }
        }
        // Ite nodes must be arithmetic to be worth a form
        if let Node::Ite(_, a, b) = *self.node(t) {
            let ar = |s: &Self, x: T| matches!(s.node(s.core(x)), Node::Bin(B::Add | B::Sub | B::Mul | B::URem, ..) | Node::Fq(_) | Node::Ite(..));
            if !ar(self, a) && !ar(self, b) {
                return None;
            }
        }
        let f = self.form(t)?;
        // an atom form of itself is useless
        let v = self.poly.get(f);
        if v.len() == 1 && v[0].1 == 1 && self.poly.monos[v[0].0 as usize].as_ref() == [t] {
            return None;
        }
        if self.hi(t) < Q {
            self.stats.range_by_interval += 1;
        } else {
            let qv = self.konst(self.width(t), Q);
            let c = self.ult(t, qv);
            self.stats.range_by_smt += 1;
            if self.cval(c) != Some(1) && !self.prove(c) {
                self.stats.unproved.push(format!("range {}", self.show(t, 4)));
                return None;
            }
        }
        Some(self.fq(f))
    }
}

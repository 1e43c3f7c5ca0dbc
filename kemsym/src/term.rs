//! Hash-consed bit-vector terms with intervals, simulation vectors and a
//! normal form for bit-slicing operations.
use crate::poly::Polys;
use crate::smt::Smt;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub const NS: usize = 8;
pub const Q: u128 = 3329;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let h = self.0;
        (h ^ (h >> 29)).wrapping_mul(0x9E3779B97F4A7C15)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Piece {
    pub t: T,
    pub lo: u8,
    pub len: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    /// free input variable
    Var(u32),
    /// output `idx` of an uninterpreted-function application
    Uf(u32, u16),
    /// the representative in [0,q) of a polynomial form mod q
    Fq(u32),
    Slices(Rc<[Piece]>),
    Bin(B, T, T),
    Eq(T, T),
    Ult(T, T),
    Ite(T, T, T),
    Ctpop(T),
    Table(Rc<[u64]>, T),
}

pub type Sims = [u64; NS];

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub w: Vec<u8>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub sims: Vec<Sims>,
    pub intern: FxMap<(u8, Node), T>,
    pub var_names: Vec<String>,
    pub poly: Polys,
    pub smt: Smt,
    /// terms whose interval was narrowed by an assumption; leaves for the solver
    pub refined: FxSet<T>,
    /// boolean terms known to hold / not hold globally
    pub facts: FxMap<T, bool>,
    pub byte: Vec<T>,
    pub active: u32,
    pub leafhash: FxMap<T, u64>,
    /// sweep index: (sims, leaf support) -> terms
    pub sweep: FxMap<(Sims, u64), Vec<T>>,
    pub sweep_seen: FxSet<T>,
    /// zero-extended multi-piece terms and the term they extend, both directions
    pub trim: FxMap<T, T>,
    pub exts: FxMap<T, Vec<T>>,
    /// replacement of proven-equal or assumed-equal terms
    pub repl: FxMap<T, T>,
    /// values assumed equal (no decryption failure): compressed noise -> message bit
    pub same_as: FxMap<T, T>,
    /// memo of the large-cone sweep
    pub big: FxMap<T, T>,
    pub apps: crate::uf::Apps,
    pub stats: Stats,
    /// keep the implementation's arithmetic as written; the solver decides everything
    pub no_canon: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub canon: u64,
    pub canon_const: u64,
    pub range_by_interval: u64,
    pub range_by_smt: u64,
    pub merges: u64,
    pub unproved: Vec<String>,
}

pub fn bits(v: u128) -> u32 {
    128 - v.leading_zeros()
}
pub fn ones(w: u32) -> u128 {
    crate::ir::mask(!0, w)
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            w: vec![],
            lo: vec![],
            hi: vec![],
            sims: vec![],
            intern: Default::default(),
            var_names: vec![],
            poly: Polys::new(),
            smt: Smt::new(),
            refined: Default::default(),
            facts: Default::default(),
            byte: vec![],
            active: (1 << NS) - 1,
            leafhash: Default::default(),
            sweep: Default::default(),
            sweep_seen: Default::default(),
            trim: Default::default(),
            exts: Default::default(),
            repl: Default::default(),
            same_as: Default::default(),
            big: Default::default(),
            apps: Default::default(),
            stats: Default::default(),
            no_canon: false,
        };
        for i in 0..256 {
            let t = c.konst(8, i);
            c.byte.push(t);
        }
        c
    }
    #[inline]
    pub fn width(&self, t: T) -> u32 {
        self.w[t as usize] as u32
    }
    #[inline]
    pub fn node(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn cval(&self, t: T) -> Option<u128> {
        match &self.nodes[t as usize] {
            Node::Const(v) => Some(*v),
            _ => None,
        }
    }
    #[inline]
    pub fn is_const(&self, t: T) -> bool {
        matches!(&self.nodes[t as usize], Node::Const(_))
    }
    #[inline]
    pub fn hi(&self, t: T) -> u128 {
        self.hi[t as usize]
    }
    #[inline]
    pub fn lo(&self, t: T) -> u128 {
        self.lo[t as usize]
    }
    pub fn konst(&mut self, w: u32, v: u128) -> T {
        let v = crate::ir::mask(v, w);
        if w == 8 && self.byte.len() == 256 {
            return self.byte[v as usize];
        }
        if let Some(&t) = self.intern.get(&(w as u8, Node::Const(v))) {
            return t;
        }
        self.push(w, Node::Const(v), v, v, [v as u64; NS])
    }
    fn push(&mut self, w: u32, n: Node, lo: u128, hi: u128, s: Sims) -> T {
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.w.push(w as u8);
        self.lo.push(lo);
        self.hi.push(hi);
        self.sims.push(s);
        self.intern.insert((w as u8, n), id);
        id
    }
    pub fn var(&mut self, w: u32, name: &str, s: Sims) -> T {
        let k = self.var_names.len() as u32;
        self.var_names.push(name.to_string());
        self.push(w, Node::Var(k), 0, ones(w), s)
    }
    pub fn uf(&mut self, app: u32, idx: u16, w: u32, s: Sims) -> T {
        let n = Node::Uf(app, idx);
        if let Some(&t) = self.intern.get(&(w as u8, n.clone())) {
            return t;
        }
        self.push(w, n, 0, ones(w), s)
    }
    pub fn tt(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn ff(&mut self) -> T {
        self.konst(1, 0)
    }

    /// simulation value of a (possibly wide) term
    pub fn sim(&self, t: T, k: usize) -> u128 {
        if self.width(t) <= 64 {
            return self.sims[t as usize][k] as u128;
        }
        match self.node(t) {
            Node::Const(v) => *v,
            Node::Slices(ps) => {
                let mut v = 0u128;
                let mut o = 0;
                for p in ps.iter() {
                    v |= crate::ir::mask(self.sim(p.t, k) >> p.lo, p.len as u32) << o;
                    o += p.len as u32;
                }
                v
            }
            _ => 0,
        }
    }

    // ---------------------------------------------------------------- slices
    pub fn pieces(&self, t: T) -> Vec<Piece> {
        match self.node(t) {
            Node::Slices(p) => p.to_vec(),
            _ => self.trim(Piece { t, lo: 0, len: self.w[t as usize] }),
        }
    }
    fn zero_piece(&self, len: u32) -> Piece {
        // constant pieces: t refers to a width-128 zero; encoded via konst lookup
        let z = self.intern[&(128u8, Node::Const(0))];
        Piece { t: z, lo: 0, len: len as u8 }
    }
    fn is_cpiece(&self, p: &Piece) -> Option<u128> {
        self.cval(p.t).map(|v| crate::ir::mask(v >> p.lo, p.len as u32))
    }
    /// split off known-zero top bits
    fn trim(&self, p: Piece) -> Vec<Piece> {
        if self.is_const(p.t) {
            return vec![p];
        }
        let k = bits(self.hi(p.t));
        let (lo, len) = (p.lo as u32, p.len as u32);
        if lo >= k {
            vec![self.zero_piece(len)]
        } else if lo + len > k {
            vec![Piece { t: p.t, lo: p.lo, len: (k - lo) as u8 }, self.zero_piece(lo + len - k)]
        } else {
            vec![p]
        }
    }
    pub fn mk_slices(&mut self, ps: &[Piece]) -> T {
        if !self.intern.contains_key(&(128u8, Node::Const(0))) {
            self.konst(128, 0);
        }
        // flatten
        let mut out: Vec<Piece> = Vec::with_capacity(ps.len() + 1);
        let mut total = 0u32;
        for p in ps {
            if p.len == 0 {
                continue;
            }
            total += p.len as u32;
            if let Node::Slices(sub) = self.node(p.t) {
                let sub = sub.clone();
                let (lo, hi) = (p.lo as u32, p.lo as u32 + p.len as u32);
                let mut o = 0u32;
                for s in sub.iter() {
                    let (a, b) = (o, o + s.len as u32);
                    let x = a.max(lo);
                    let y = b.min(hi);
                    if x < y {
                        out.push(Piece { t: s.t, lo: s.lo + (x - a) as u8, len: (y - x) as u8 });
                    }
                    o = b;
                }
            } else {
                let tr = self.trim(*p);
                out.extend(tr);
            }
        }
        // merge
        let mut m: Vec<Piece> = Vec::with_capacity(out.len());
        for p in out {
            if let Some(l) = m.last().copied() {
                if l.t == p.t && l.lo as u32 + l.len as u32 == p.lo as u32 && !self.is_const(p.t) {
                    m.last_mut().unwrap().len += p.len;
                    continue;
                }
                if let (Some(a), Some(b)) = (self.is_cpiece(&l), self.is_cpiece(&p)) {
                    if l.len as u32 + p.len as u32 <= 128 {
                        let v = a | (b << l.len);
                        let len = l.len + p.len;
                        let t = self.konst(len as u32, v);
                        *m.last_mut().unwrap() = Piece { t, lo: 0, len };
                        continue;
                    }
                }
            }
            m.push(p);
        }
        if m.is_empty() {
            return self.konst(0, 0);
        }
        // canonical const pieces
        for p in m.iter_mut() {
            if let Some(v) = self.cval(p.t) {
                let v = crate::ir::mask(v >> p.lo, p.len as u32);
                let t = self.konst(p.len as u32, v);
                *p = Piece { t, lo: 0, len: p.len };
            }
        }
        if m.len() == 1 {
            let p = m[0];
            if p.lo == 0 && p.len as u32 == self.width(p.t) {
                return p.t;
            }
        }
        if m.len() == 2 {
            let p = m[0];
            if p.lo == 0 && self.width(p.t) == total && bits(self.hi(p.t)) <= p.len as u32 && self.cval(m[1].t) == Some(0) {
                return p.t;
            }
        }
        if total > 128 {
            panic!("wide slices {total}");
        }
        let key = (total as u8, Node::Slices(m.clone().into()));
        if let Some(&t) = self.intern.get(&key) {
            return t;
        }
        // interval
        let mut lo = 0u128;
        let mut hi = 0u128;
        let mut o = 0u32;
        for p in &m {
            let (a, b);
            if self.is_const(p.t) {
                a = self.cval(p.t).unwrap();
                b = a;
            } else {
                let h = self.hi(p.t);
                if p.lo as u32 + p.len as u32 >= bits(h) {
                    a = self.lo(p.t) >> p.lo;
                    b = h >> p.lo;
                } else {
                    a = 0;
                    b = ones(p.len as u32);
                }
            }
            lo |= a << o;
            hi |= b << o;
            o += p.len as u32;
        }
        let mut s = [0u64; NS];
        if total <= 64 {
            let mut o = 0u32;
            for p in &m {
                for k in 0..NS {
                    s[k] |= (crate::ir::mask(self.sim(p.t, k) >> p.lo, p.len as u32) << o) as u64;
                }
                o += p.len as u32;
            }
        }
        let ext = m.len() >= 2 && self.cval(m[m.len() - 1].t) == Some(0);
        if ext {
            let x = self.mk_slices(&m[..m.len() - 1]);
            hi = hi.min(self.hi(x));
            lo = lo.max(self.lo(x));
            let t = self.push(total, key.1, lo, hi, s);
            self.trim.insert(t, x);
            self.exts.entry(x).or_default().push(t);
            return t;
        }
        self.push(total, key.1, lo, hi, s)
    }
    pub fn extract(&mut self, t: T, lo: u32, len: u32) -> T {
        if lo == 0 && len == self.width(t) {
            return t;
        }
        if let Some(v) = self.cval(t) {
            return self.konst(len, v >> lo);
        }
        // push through ite with constant arms
        if let Node::Ite(c, a, b) = *self.node(t) {
            let sl = |s: &Self, x: T| matches!(s.node(x), Node::Const(_) | Node::Slices(_));
            if (self.is_const(a) && self.is_const(b)) || (sl(self, a) && sl(self, b)) {
                let x = self.extract(a, lo, len);
                let y = self.extract(b, lo, len);
                return self.ite(c, x, y);
            }
        }
        // one bit of a bitwise operation
        if len == 1 {
            if let Node::Bin(op @ (B::And | B::Or | B::Xor), a, b) = *self.node(t) {
                let x = self.extract(a, lo, 1);
                let y = self.extract(b, lo, 1);
                return match op {
                    B::And => self.and(x, y),
                    B::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
        }
        // one bit of a slice of a conjunction
        if len == 1 {
            if let Node::Slices(ps) = self.node(t).clone() {
                let mut o = 0u32;
                for q in ps.iter() {
                    if o <= lo && lo < o + q.len as u32 {
                        if matches!(self.node(q.t), Node::Bin(B::And | B::Or | B::Xor, ..)) {
                            return self.extract(q.t, q.lo as u32 + lo - o, 1);
                        }
                        break;
                    }
                    o += q.len as u32;
                }
            }
        }
        // upper bits of a difference: all equal to the borrow
        if lo > 0 && len <= 64 {
            let mut p = Piece { t, lo: lo as u8, len: len as u8 };
            if let Node::Slices(ps) = self.node(t) {
                let mut o = 0u32;
                for q in ps.iter() {
                    if o <= lo && lo + len <= o + q.len as u32 {
                        p = Piece { t: q.t, lo: (q.lo as u32 + lo - o) as u8, len: len as u8 };
                        break;
                    }
                    o += q.len as u32;
                }
            }
            if let Node::Bin(B::Sub, x, y) = *self.node(p.t) {
                let b = 1u128 << p.lo;
                let mut ok = self.hi(x).saturating_sub(self.lo(y)) < b && self.hi(y).saturating_sub(self.lo(x)) <= b;
                if !ok && !self.no_canon && self.is_const(y) && self.hi(y) > 255 && self.hi(y) <= b {
                    // no interval known for x: let the solver bound it
                    let mut sim = false;
                    for k in 0..NS {
                        sim |= self.is_active(k) && self.sims[x as usize][k] as u128 >= b;
                    }
                    if !sim {
                        let w = self.width(x);
                        let bt = self.konst(w, b);
                        let u = self.ult(x, bt);
                        ok = self.prove(u);
                    }
                }
                if ok {
                    let u = self.ult(x, y);
                    return self.sext(u, len);
                }
            }
        }
        self.mk_slices(&[Piece { t, lo: lo as u8, len: len as u8 }])
    }
    /// c is x < k (Some(true)) or x >= k (Some(false))
    fn below(&mut self, c: T, x: T, k: T) -> Option<bool> {
        let u = self.ult(x, k);
        if c == u {
            return Some(true);
        }
        if self.is_const(u) {
            return None;
        }
        let n = self.not(u);
        if c == n {
            return Some(false);
        }
        None
    }
    /// conditional addition or subtraction of a constant that belongs to a modular reduction:
    /// a + ite(c, k, 0) where a = x - k, a - ite(c, k, 0) where c compares a with k
    fn cond_fix(&mut self, op: B, a: T, b: T) -> Option<T> {
        let Node::Ite(c, u, v) = *self.node(b) else { return None };
        let (ku, kv) = (self.cval(u)?, self.cval(v)?);
        let k = match (ku, kv) {
            (k, 0) | (0, k) => k,
            _ => return None,
        };
        let w = self.width(a);
        let kt = self.konst(w, k);
        let hit = match (op, self.node(a)) {
            (B::Add, Node::Bin(B::Sub, _, k2)) => *k2 == kt,
            (B::Sub, _) => self.below(c, a, kt).is_some(),
            _ => false,
        };
        if !hit {
            return None;
        }
        let x = self.bin(op, a, u);
        let y = self.bin(op, a, v);
        Some(self.ite(c, x, y))
    }
    pub fn concat(&mut self, lo_to_hi: &[T]) -> T {
        let ps: Vec<Piece> = lo_to_hi.iter().map(|&t| Piece { t, lo: 0, len: self.w[t as usize] }).collect();
        self.mk_slices(&ps)
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let k = self.width(t);
        if k == w {
            return t;
        }
        if let Some(v) = self.cval(t) {
            return self.konst(w, v);
        }
        let z = self.konst(w - k, 0);
        self.mk_slices(&[Piece { t, lo: 0, len: k as u8 }, Piece { t: z, lo: 0, len: (w - k) as u8 }])
    }
    /// resize to width w (truncate or zero-extend)
    pub fn fit(&mut self, t: T, w: u32) -> T {
        if self.width(t) > w {
            self.extract(t, 0, w)
        } else {
            self.zext(t, w)
        }
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let k = self.width(t);
        if k == w {
            return t;
        }
        if let Some(v) = self.cval(t) {
            let s = if v >> (k - 1) & 1 == 1 { v | (ones(w) & !ones(k)) } else { v };
            return self.konst(w, s);
        }
        let s = self.extract(t, k - 1, 1);
        let a = self.konst(w - k, ones(w - k));
        let z = self.konst(w - k, 0);
        let h = self.ite(s, a, z);
        if k == 1 {
            let a = self.konst(w, ones(w));
            let z = self.konst(w, 0);
            return self.ite(t, a, z);
        }
        self.concat(&[t, h])
    }
    /// view as (x, lo, len): the value of t equals the unsigned extract of x
    pub fn strip(&self, t: T) -> Piece {
        match self.node(t) {
            Node::Slices(p) => {
                if p.len() == 1 {
                    return p[0];
                }
                if p.len() == 2 && self.cval(p[1].t) == Some(0) {
                    return p[0];
                }
                Piece { t, lo: 0, len: self.w[t as usize] }
            }
            _ => Piece { t, lo: 0, len: self.w[t as usize] },
        }
    }
    /// if t is a zero-extension / exact copy of the full value of x, x
    pub fn core(&self, t: T) -> T {
        let p = self.strip(t);
        if p.lo == 0 && p.len as u32 >= bits(self.hi(p.t)) {
            p.t
        } else {
            t
        }
    }

    // ---------------------------------------------------------------- bitwise
    fn segs(&self, a: &[Piece], b: &[Piece]) -> Vec<(Piece, Piece)> {
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut ao, mut bo) = (0u8, 0u8);
        while i < a.len() && j < b.len() {
            let n = (a[i].len - ao).min(b[j].len - bo);
            out.push((Piece { t: a[i].t, lo: a[i].lo + ao, len: n }, Piece { t: b[j].t, lo: b[j].lo + bo, len: n }));
            ao += n;
            bo += n;
            if ao == a[i].len {
                i += 1;
                ao = 0;
            }
            if bo == b[j].len {
                j += 1;
                bo = 0;
            }
        }
        out
    }
    fn split64(v: Vec<(Piece, Piece)>) -> Vec<(Piece, Piece)> {
        let mut o = vec![];
        for (a, b) in v {
            if a.len > 64 {
                o.push((Piece { len: 64, ..a }, Piece { len: 64, ..b }));
                o.push((Piece { lo: a.lo + 64, len: a.len - 64, ..a }, Piece { lo: b.lo + 64, len: b.len - 64, ..b }));
            } else {
                o.push((a, b));
            }
        }
        o
    }
    fn bitwise(&mut self, op: B, a: T, b: T) -> T {
        let w = self.width(a);
        if !self.intern.contains_key(&(128u8, Node::Const(0))) {
            self.konst(128, 0);
        }
        // mask & constant
        if op == B::And && w > 1 {
            for (x, y) in [(a, b), (b, a)] {
                if let (Node::Ite(c, u, v), Some(k)) = (self.node(x).clone(), self.cval(y)) {
                    match (self.cval(u), self.cval(v)) {
                        (Some(m), Some(0)) if m == ones(w) && k & (k + 1) != 0 => {
                            return self.ite(c, y, v);
                        }
                        (Some(0), Some(m)) if m == ones(w) && k & (k + 1) != 0 => {
                            return self.ite(c, u, y);
                        }
                        _ => {}
                    }
                }
            }
        }
        let mut pa = self.pieces(a);
        let mut pb = self.pieces(b);
        // split constants at runs of ones / zeros
        for p in [&mut pa, &mut pb] {
            let mut o = vec![];
            for x in p.iter() {
                if let Some(v) = self.is_cpiece(x) {
                    let mut i = 0u32;
                    let n = x.len as u32;
                    while i < n {
                        let bit = v >> i & 1;
                        let mut j = i;
                        while j < n && v >> j & 1 == bit {
                            j += 1;
                        }
                        o.push(Piece { t: x.t, lo: x.lo + i as u8, len: (j - i) as u8 });
                        i = j;
                    }
                } else {
                    o.push(*x);
                }
            }
            *p = o;
        }
        let segs = Self::split64(self.segs(&pa, &pb));
        let single = segs.len() == 1;
        let mut out = vec![];
        for (x, y) in segs {
            let n = x.len as u32;
            let cx = self.is_cpiece(&x);
            let cy = self.is_cpiece(&y);
            let r: Piece = match (cx, cy) {
                (Some(u), Some(v)) => {
                    let z = match op {
                        B::And => u & v,
                        B::Or => u | v,
                        _ => u ^ v,
                    };
                    let t = self.konst(n, z);
                    Piece { t, lo: 0, len: n as u8 }
                }
                (Some(c), None) | (None, Some(c)) => {
                    let v = if cx.is_some() { y } else { x };
                    let full = c == ones(n);
                    match (op, full) {
                        (B::And, true) | (B::Or, false) | (B::Xor, false) => v,
                        (B::And, false) => self.zero_piece(n),
                        (B::Or, true) => {
                            let t = self.konst(n, ones(n));
                            Piece { t, lo: 0, len: n as u8 }
                        }
                        _ => {
                            // complement
                            let e = self.mk_slices(&[v]);
                            let t = self.not(e);
                            Piece { t, lo: 0, len: n as u8 }
                        }
                    }
                }
                (None, None) => {
                    if x == y {
                        match op {
                            B::Xor => self.zero_piece(n),
                            _ => x,
                        }
                    } else {
                        let (ex, ey) = if single { (a, b) } else { (self.mk_slices(&[x]), self.mk_slices(&[y])) };
                        let t = self.bit_bin(op, ex, ey);
                        Piece { t, lo: 0, len: n as u8 }
                    }
                }
            };
            out.push(r);
        }
        let r = self.mk_slices(&out);
        debug_assert_eq!(self.width(r), w);
        r
    }
    pub fn not(&mut self, t: T) -> T {
        let n = self.width(t);
        if let Some(v) = self.cval(t) {
            return self.konst(n, !v);
        }
        if let Node::Bin(B::Xor, a, b) = *self.node(t) {
            if self.cval(b) == Some(ones(n)) {
                return a;
            }
        }
        if let Node::Ite(c, a, b) = *self.node(t) {
            if self.is_const(a) || self.is_const(b) {
                let x = self.not(a);
                let y = self.not(b);
                return self.ite(c, x, y);
            }
        }
        if let Node::Slices(ps) = self.node(t) {
            if ps.len() > 1 {
                let ps = ps.clone();
                let mut out = vec![];
                for p in ps.iter() {
                    let e = self.mk_slices(&[*p]);
                    let x = self.not(e);
                    out.push(Piece { t: x, lo: 0, len: p.len });
                }
                return self.mk_slices(&out);
            }
        }
        let o = self.konst(n, ones(n));
        self.raw_bin(B::Xor, t, o)
    }
    fn bit_bin(&mut self, op: B, a: T, b: T) -> T {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == b {
            return if op == B::Xor { self.konst(self.width(a), 0) } else { a };
        }
        let n = self.width(a);
        // masks written as ite(c, ones, zeros)
        for (x, y) in [(a, b), (b, a)] {
            if let Node::Ite(c, u, v) = *self.node(x) {
                if let (Some(cu), Some(cv)) = (self.cval(u), self.cval(v)) {
                    if n > 1 && (cu == 0 || cu == ones(n)) && (cv == 0 || cv == ones(n)) {
                        let r1 = self.bitwise(op, u, y);
                        let r2 = self.bitwise(op, v, y);
                        return self.ite(c, r1, r2);
                    }
                }
            }
        }
        // y ^ ite(c, x ^ y, 0)
        if op == B::Xor && n > 1 {
            for (x, y) in [(a, b), (b, a)] {
                if let Node::Ite(c, u, v) = *self.node(x) {
                    let has = |s: &Self, t: T| matches!(*s.node(t), Node::Bin(B::Xor, p, q) if p == y || q == y);
                    if (self.cval(v) == Some(0) && has(self, u)) || (self.cval(u) == Some(0) && has(self, v)) {
                        let r1 = self.bitwise(op, u, y);
                        let r2 = self.bitwise(op, v, y);
                        return self.ite(c, r1, r2);
                    }
                }
            }
        }
        // x | y where both are ite on the same condition
        if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (self.node(a).clone(), self.node(b).clone()) {
            if c1 == c2 && n > 1 {
                let r1 = self.bitwise(op, a1, a2);
                let r2 = self.bitwise(op, b1, b2);
                return self.ite(c1, r1, r2);
            }
        }
        // complement laws
        let isneg = |s: &Self, x: T, y: T| matches!(*s.node(x), Node::Bin(B::Xor, u, v) if u == y && s.cval(v) == Some(ones(n)));
        if isneg(self, a, b) || isneg(self, b, a) {
            return match op {
                B::And => self.konst(n, 0),
                _ => self.konst(n, ones(n)),
            };
        }
        if n == 1 && op == B::And {
            if let Some(z) = self.zero_test(a, b) {
                return z;
            }
        }
        if n == 1 {
            if let Some(&v) = self.facts.get(&a) {
                let c = self.konst(1, v as u128);
                return self.bitwise(op, c, b);
            }
            if let Some(&v) = self.facts.get(&b) {
                let c = self.konst(1, v as u128);
                return self.bitwise(op, a, c);
            }
        }
        // absorb: a & (a & x)
        if op != B::Xor {
            for (x, y) in [(a, b), (b, a)] {
                if let Node::Bin(o2, u, v) = *self.node(y) {
                    if o2 == op && (u == x || v == x) {
                        return y;
                    }
                }
            }
        } else {
            for (x, y) in [(a, b), (b, a)] {
                if let Node::Bin(B::Xor, u, v) = *self.node(y) {
                    if u == x {
                        return v;
                    }
                    if v == x {
                        return u;
                    }
                }
            }
            // move complement outwards
            for (x, y) in [(a, b), (b, a)] {
                if let Node::Bin(B::Xor, u, v) = *self.node(y) {
                    if self.cval(v) == Some(ones(n)) {
                        let r = self.bitwise(B::Xor, x, u);
                        return self.not(r);
                    }
                }
            }
        }
        self.raw_bin(op, a, b)
    }
    /// the top bit of !d & (d - 1), which says whether d is zero
    fn zero_test(&mut self, a: T, b: T) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            let Node::Slices(ps) = self.node(y).clone() else { continue };
            if ps.len() != 1 {
                continue;
            }
            let Node::Bin(B::Sub, d, k) = *self.node(ps[0].t) else { continue };
            let w = self.width(d);
            if self.cval(k) != Some(1) || ps[0].lo as u32 != w - 1 || w > 64 {
                continue;
            }
            let top = self.extract(d, w - 1, 1);
            let nt = self.not(top);
            if nt == x {
                let z = self.konst(w, 0);
                return Some(self.eq(d, z));
            }
        }
        None
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(B::Or, a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        self.bin(B::Xor, a, b)
    }

    fn eval_bin(op: B, w: u32, x: u128, y: u128) -> u128 {
        let r = match op {
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::UDiv => {
                if y == 0 {
                    ones(w)
                } else {
                    x / y
                }
            }
            B::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            B::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            B::AShr => {
                let s = x >> (w - 1) & 1 == 1;
                let y = y.min(w as u128 - 1) as u32;
                let mut r = x >> y;
                if s {
                    r |= ones(w) & !(ones(w) >> y);
                }
                r
            }
        };
        crate::ir::mask(r, w)
    }
    fn raw_bin(&mut self, op: B, a: T, b: T) -> T {
        let w = self.width(a);
        let key = (w as u8, Node::Bin(op, a, b));
        if let Some(&t) = self.intern.get(&key) {
            return t;
        }
        if w > 64 {
            panic!("wide op {op:?} on {w} bits");
        }
        let (la, ha, lb, hb) = (self.lo(a), self.hi(a), self.lo(b), self.hi(b));
        let m = ones(w);
        let (lo, hi) = match op {
            B::Add if ha + hb <= m => (la + lb, ha + hb),
            B::Sub if la >= hb => (la - hb, ha - lb),
            B::Mul if ha.checked_mul(hb).map_or(false, |x| x <= m) => (la * lb, ha * hb),
            B::UDiv if lb > 0 => (la / hb, ha / lb),
            B::URem if hb > 0 && lb > 0 => (0, ha.min(hb - 1)),
            B::And => (0, ha.min(hb)),
            B::Or => (la.max(lb), ones(bits(ha.max(hb)))),
            B::Xor => (0, ones(bits(ha.max(hb)))),
            B::LShr => (0, ha),
            _ => (0, m),
        };
        let mut s = [0u64; NS];
        for k in 0..NS {
            s[k] = Self::eval_bin(op, w, self.sims[a as usize][k] as u128, self.sims[b as usize][k] as u128) as u64;
        }
        self.push(w, key.1, lo, hi, s)
    }
    /// concat-like merge of two values with disjoint non-zero bits
    fn disjoint(&mut self, a: T, b: T) -> Option<T> {
        let z = |s: &Self, p: &Piece| s.is_cpiece(p) == Some(0);
        if !self.intern.contains_key(&(128u8, Node::Const(0))) {
            self.konst(128, 0);
        }
        let pa = self.pieces(a);
        let pb = self.pieces(b);
        if pa.len() == 1 && !z(self, &pa[0]) && pb.len() == 1 && !z(self, &pb[0]) {
            return None;
        }
        let segs = self.segs(&pa, &pb);
        let mut out = vec![];
        for (x, y) in segs {
            if z(self, &x) {
                out.push(y);
            } else if z(self, &y) {
                out.push(x);
            } else {
                return None;
            }
        }
        Some(self.mk_slices(&out))
    }

    pub fn bin(&mut self, op: B, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{op:?}");
        let ca = self.cval(a);
        let cb = self.cval(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, Self::eval_bin(op, w, x, y));
        }
        match op {
            B::And | B::Or | B::Xor => return self.bitwise(op, a, b),
            B::Add => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(B::Add, b, a);
                }
                if w == 1 {
                    return self.bitwise(B::Xor, a, b);
                }
                if let Some(c) = cb {
                    if c >> (w - 1) & 1 == 1 && w > 1 {
                        let n = self.konst(w, c.wrapping_neg());
                        return self.bin(B::Sub, a, n);
                    }
                    match *self.node(a) {
                        Node::Bin(B::Add, x, k) if self.is_const(k) => {
                            let n = self.konst(w, self.cval(k).unwrap().wrapping_add(c));
                            return self.bin(B::Add, x, n);
                        }
                        Node::Bin(B::Sub, x, k) if self.is_const(k) => {
                            let n = self.konst(w, c.wrapping_sub(self.cval(k).unwrap()));
                            return self.bin(B::Add, x, n);
                        }
                        _ => {}
                    }
                }
                if let Some(t) = self.disjoint(a, b) {
                    return t;
                }
                for (x, y) in [(a, b), (b, a)] {
                    if let Some(t) = self.cond_fix(B::Add, x, y) {
                        return t;
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.raw_bin(B::Add, a, b);
            }
            B::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bitwise(B::Xor, a, b);
                }
                if let Some(c) = cb {
                    match *self.node(a) {
                        Node::Bin(B::Sub, x, k) if self.is_const(k) => {
                            let kv = self.cval(k).unwrap();
                            let n = crate::ir::mask(kv.wrapping_add(c), w);
                            if n >= kv {
                                let n = self.konst(w, n);
                                return self.bin(B::Sub, x, n);
                            }
                        }
                        Node::Bin(B::Add, x, k) if self.is_const(k) => {
                            let kv = self.cval(k).unwrap();
                            if kv >= c {
                                let n = self.konst(w, kv - c);
                                return self.bin(B::Add, x, n);
                            } else {
                                let n = self.konst(w, c - kv);
                                return self.bin(B::Sub, x, n);
                            }
                        }
                        _ => {}
                    }
                    // x - c with x>=... where the subtraction only clears bits is left to the solver
                }
                // (x + y) - x
                if let Node::Bin(B::Add, x, y) = *self.node(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
                // 0 - zext(bit) = mask
                if ca == Some(0) {
                    if self.hi(b) == 1 {
                        let c = self.extract(b, 0, 1);
                        let o = self.konst(w, ones(w));
                        let z = self.konst(w, 0);
                        return self.ite(c, o, z);
                    }
                }
                if let Some(t) = self.cond_fix(B::Sub, a, b) {
                    return t;
                }
                // low part of a removed: [p0..] - [p0]
                return self.raw_bin(B::Sub, a, b);
            }
            B::Mul => {
                if ca.is_some() {
                    return self.bin(B::Mul, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let n = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(B::Shl, a, n);
                    }
                    // (multiplying a single bit) -> ite
                    if self.hi(a) == 1 {
                        let bit = self.extract(a, 0, 1);
                        let z = self.konst(w, 0);
                        return self.ite(bit, b, z);
                    }
                } else {
                    for (x, y) in [(a, b), (b, a)] {
                        if self.hi(x) == 1 {
                            let bit = self.extract(x, 0, 1);
                            let z = self.konst(w, 0);
                            return self.ite(bit, y, z);
                        }
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.raw_bin(B::Mul, a, b);
            }
            B::UDiv => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let n = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(B::LShr, a, n);
                    }
                    if c != 0 && self.hi(a) < c {
                        return self.konst(w, 0);
                    }
                }
            }
            B::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let n = self.konst(w, c - 1);
                        return self.bin(B::And, a, n);
                    }
                    if c != 0 && self.hi(a) < c {
                        return a;
                    }
                }
            }
            B::Shl | B::LShr | B::AShr => {
                if let Some(n) = cb {
                    if n == 0 {
                        return a;
                    }
                    if n >= w as u128 {
                        if op == B::AShr {
                            let k = self.konst(w, w as u128 - 1);
                            return self.bin(op, a, k);
                        }
                        return self.konst(w, 0);
                    }
                    let n = n as u32;
                    match op {
                        B::Shl => {
                            let l = self.extract(a, 0, w - n);
                            let z = self.konst(n, 0);
                            return self.concat(&[z, l]);
                        }
                        B::LShr => {
                            let h = self.extract(a, n, w - n);
                            return self.zext(h, w);
                        }
                        _ => {
                            let h = self.extract(a, n, w - n);
                            return self.sext(h, w);
                        }
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
        }
        self.raw_bin(op, a, b)
    }

    // ---------------------------------------------------------------- predicates
    /// t == k, when every constant leaf of the selection t agrees on it
    fn leaf_eq(&self, t: T, k: u128, depth: u32) -> Option<bool> {
        if let Some(v) = self.cval(t) {
            return Some(v == k);
        }
        match *self.node(t) {
            Node::Ite(_, u, v) if depth > 0 => {
                let (x, y) = (self.leaf_eq(u, k, depth - 1)?, self.leaf_eq(v, k, depth - 1)?);
                if x == y {
                    Some(x)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        debug_assert_eq!(self.width(a), self.width(b));
        if a == b {
            return self.tt();
        }
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (x == y) as u128);
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.ff();
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        // ite over constants against a constant: all leaves on one side differ
        for (x, y) in [(a, b), (b, a)] {
            if let (Some(k), &Node::Ite(c, u, v)) = (self.cval(y), self.node(x)) {
                match (self.leaf_eq(u, k, 4), self.leaf_eq(v, k, 4)) {
                    (Some(true), Some(true)) => return self.tt(),
                    (Some(false), Some(false)) => return self.ff(),
                    (Some(true), Some(false)) => return c,
                    (Some(false), Some(true)) => return self.not(c),
                    (Some(false), None) => {
                        let (n, e) = (self.not(c), self.eq(v, y));
                        return self.and(n, e);
                    }
                    (None, Some(false)) => {
                        let e = self.eq(u, y);
                        return self.and(c, e);
                    }
                    _ => {}
                }
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if self.is_const(y) {
                if let Node::Ite(c, u, v) = *self.node(x) {
                    if self.is_const(u) && self.is_const(v) {
                        let (eu, ev) = (self.cval(u) == self.cval(y), self.cval(v) == self.cval(y));
                        return match (eu, ev) {
                            (true, true) => self.tt(),
                            (false, false) => self.ff(),
                            (true, false) => c,
                            (false, true) => self.not(c),
                        };
                    }
                }
                // a ^ b == 0
                if self.cval(y) == Some(0) {
                    if let Node::Bin(B::Xor, u, v) = *self.node(x) {
                        return self.eq(u, v);
                    }
                    // a | b == 0
                    if let Node::Bin(B::Or, u, v) = *self.node(x) {
                        let (p, q) = (self.eq(u, y), self.eq(v, y));
                        return self.and(p, q);
                    }
                }
            }
        }
        // piecewise
        let sl = matches!(self.node(a), Node::Slices(_)) || matches!(self.node(b), Node::Slices(_));
        if sl || w > 64 {
            if !self.intern.contains_key(&(128u8, Node::Const(0))) {
                self.konst(128, 0);
            }
            let pa = self.pieces(a);
            let pb = self.pieces(b);
            let segs = Self::split64(self.segs(&pa, &pb));
            if segs.len() > 1 || w > 64 {
                // drop equal segments, detect constant difference
                let mut keep: Vec<(T, T)> = vec![];
                for (x, y) in segs {
                    match (self.is_cpiece(&x), self.is_cpiece(&y)) {
                        (Some(u), Some(v)) => {
                            if u != v {
                                return self.ff();
                            }
                            continue;
                        }
                        _ => {}
                    }
                    if x == y {
                        continue;
                    }
                    let ex = self.mk_slices(&[x]);
                    let ey = self.mk_slices(&[y]);
                    keep.push((ex, ey));
                }
                let mut r = self.tt();
                for (x, y) in keep {
                    let e = self.eq(x, y);
                    r = self.and(r, e);
                }
                return r;
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let n = Node::Eq(a, b);
        if let Some(&t) = self.intern.get(&(1, n.clone())) {
            if let Some(&v) = self.facts.get(&t) {
                return self.konst(1, v as u128);
            }
            return t;
        }
        let mut s = [0u64; NS];
        for k in 0..NS {
            s[k] = (self.sim(a, k) == self.sim(b, k)) as u64;
        }
        self.push(1, n, 0, 1, s)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if a == b {
            return self.ff();
        }
        if self.hi(a) < self.lo(b) {
            return self.tt();
        }
        if self.lo(a) >= self.hi(b) {
            return self.ff();
        }
        // x < x - k and x - k < x: the subtraction wraps or not
        if let Node::Bin(B::Sub, x, k) = *self.node(b) {
            if x == a && self.lo(k) > 0 {
                return self.ult(x, k);
            }
        }
        if let Node::Bin(B::Sub, x, k) = *self.node(a) {
            if x == b && self.lo(k) > 0 {
                let u = self.ult(x, k);
                return self.not(u);
            }
        }
        // b is a with some bits cleared
        if matches!(self.node(a), Node::Slices(_)) || matches!(self.node(b), Node::Slices(_)) {
            let (pa, pb) = (self.pieces(a), self.pieces(b));
            if self.segs(&pa, &pb).iter().all(|(x, y)| x == y || self.is_cpiece(y) == Some(0) || (self.is_cpiece(x).is_some() && self.is_cpiece(x) == self.is_cpiece(y))) {
                return self.ff();
            }
        }
        // shrink
        let k = bits(self.hi(a).max(self.hi(b))).max(1);
        if k < w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            return self.ult(x, y);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(c) = self.cval(a) {
            // c < b  <=>  !(b < c+1)
            if c == ones(w) {
                return self.ff();
            }
            let k = self.konst(w, c + 1);
            let r = self.ult(b, k);
            return self.not(r);
        }
        if let Some(c) = self.cval(b) {
            if c == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if c.is_power_of_two() {
                let n = c.trailing_zeros();
                let h = self.extract(a, n, w - n);
                let z = self.konst(w - n, 0);
                return self.eq(h, z);
            }
            if let Node::Ite(c0, u, v) = *self.node(a) {
                if self.is_const(u) && self.is_const(v) {
                    let x = self.ult(u, b);
                    let y = self.ult(v, b);
                    return self.ite(c0, x, y);
                }
            }
        }
        if w > 64 {
            panic!("wide ult");
        }
        let n = Node::Ult(a, b);
        if let Some(&t) = self.intern.get(&(1, n.clone())) {
            if let Some(&v) = self.facts.get(&t) {
                return self.konst(1, v as u128);
            }
            return t;
        }
        let mut s = [0u64; NS];
        for k in 0..NS {
            s[k] = (self.sims[a as usize][k] < self.sims[b as usize][k]) as u64;
        }
        self.push(1, n, 0, 1, s)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        let h = 1u128 << (w - 1);
        if self.hi(a) < h && self.hi(b) < h {
            return self.ult(a, b);
        }
        // sign test
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cval(a) == Some(ones(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        let k = self.konst(w, h);
        let x = self.xor(a, k);
        let y = self.xor(b, k);
        self.ult(x, y)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if let Some(&v) = self.facts.get(&c) {
            return if v { a } else { b };
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        // not condition
        if let Node::Bin(B::Xor, x, k) = *self.node(c) {
            if self.is_const(k) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // nested same condition
        if let Node::Ite(c2, x, _) = *self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = *self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // ite(c, ite(d, x, K), K) = ite(c & d, x, K), and the mirrored forms
        if self.is_const(b) {
            if let Node::Ite(d, x, y) = *self.node(a) {
                if y == b {
                    let e = self.and(c, d);
                    return self.ite(e, x, b);
                }
                if x == b {
                    let nd = self.not(d);
                    let e = self.and(c, nd);
                    return self.ite(e, y, b);
                }
            }
        }
        if self.is_const(a) {
            if let Node::Ite(d, x, y) = *self.node(b) {
                if x == a {
                    let e = self.or(c, d);
                    return self.ite(e, a, y);
                }
                if y == a {
                    let nd = self.not(d);
                    let e = self.or(c, nd);
                    return self.ite(e, a, x);
                }
            }
        }
        // share common segments
        {
            if !self.intern.contains_key(&(128u8, Node::Const(0))) {
                self.konst(128, 0);
            }
            let pa = self.pieces(a);
            let pb = self.pieces(b);
            let segs = self.segs(&pa, &pb);
            if segs.len() > 1 {
                let common = segs.iter().any(|(x, y)| x == y || (self.is_cpiece(x).is_some() && self.is_cpiece(x) == self.is_cpiece(y)));
                if common || w > 64 {
                    let mut out: Vec<Piece> = vec![];
                    // group maximal runs of differing segments
                    let mut i = 0;
                    while i < segs.len() {
                        let (x, y) = segs[i];
                        let same = |s: &Self, x: &Piece, y: &Piece| x == y || (s.is_cpiece(x).is_some() && s.is_cpiece(x) == s.is_cpiece(y));
                        if same(self, &x, &y) {
                            out.push(x);
                            i += 1;
                            continue;
                        }
                        let mut xs = vec![];
                        let mut ys = vec![];
                        let mut tot = 0u32;
                        while i < segs.len() {
                            let (x, y) = segs[i];
                            if same(self, &x, &y) || tot + x.len as u32 > 64 {
                                break;
                            }
                            tot += x.len as u32;
                            xs.push(x);
                            ys.push(y);
                            i += 1;
                        }
                        if xs.is_empty() {
                            // a single segment wider than 64 bits
                            let (x, y) = segs[i];
                            i += 1;
                            let mut o = 0u8;
                            while o < x.len {
                                let n = (x.len - o).min(64);
                                let ex = self.mk_slices(&[Piece { t: x.t, lo: x.lo + o, len: n }]);
                                let ey = self.mk_slices(&[Piece { t: y.t, lo: y.lo + o, len: n }]);
                                let t = self.ite(c, ex, ey);
                                out.push(Piece { t, lo: 0, len: n });
                                o += n;
                            }
                            continue;
                        }
                        let ex = self.mk_slices(&xs);
                        let ey = self.mk_slices(&ys);
                        let t = self.ite(c, ex, ey);
                        out.push(Piece { t, lo: 0, len: tot as u8 });
                    }
                    return self.mk_slices(&out);
                }
            }
        }
        if w > 64 {
            let mut out = vec![];
            let mut o = 0;
            while o < w {
                let n = (w - o).min(64);
                let x = self.extract(a, o, n);
                let y = self.extract(b, o, n);
                out.push(self.ite(c, x, y));
                o += n;
            }
            return self.concat(&out);
        }
        let n = Node::Ite(c, a, b);
        if let Some(&t) = self.intern.get(&(w as u8, n.clone())) {
            return t;
        }
        let (mut la, mut ha, mut lb, mut hb) = (self.lo(a), self.hi(a), self.lo(b), self.hi(b));
        // refinement by the condition
        if let Node::Ult(x, k) = *self.node(c) {
            let cx = self.core(x);
            if let Some(kv) = self.cval(k) {
                // a holds under x < k
                let (l, h) = self.under(a, cx, self.lo(cx), self.hi(cx).min(kv - 1));
                la = la.max(l);
                ha = ha.min(h);
                let (l, h) = self.under(b, cx, self.lo(cx).max(kv), self.hi(cx));
                lb = lb.max(l);
                hb = hb.min(h);
            } else {
                // x < y: a may be y - x (no borrow)
                let ck = self.core(k);
                if let Node::Bin(B::Sub, p, r) = *self.node(self.core(b)) {
                    if self.core(p) == cx && self.core(r) == ck && self.hi(cx) >= self.lo(ck) {
                        lb = 0;
                        hb = hb.min(self.hi(cx) - self.lo(ck));
                    }
                }
                if let Node::Bin(B::Sub, p, r) = *self.node(self.core(a)) {
                    if self.core(p) == ck && self.core(r) == cx && self.hi(ck) >= self.lo(cx) {
                        la = 0;
                        ha = ha.min(self.hi(ck) - self.lo(cx));
                    }
                }
            }
        }
        if la > ha {
            la = ha;
        }
        if lb > hb {
            lb = hb;
        }
        let mut s = [0u64; NS];
        for k in 0..NS {
            s[k] = if self.sims[c as usize][k] == 1 { self.sims[a as usize][k] } else { self.sims[b as usize][k] };
        }
        self.push(w, n, la.min(lb), ha.max(hb), s)
    }
    /// interval of t when x is in [l,h]
    fn under(&self, t: T, x: T, l: u128, h: u128) -> (u128, u128) {
        let full = (self.lo(t), self.hi(t));
        if l > h {
            return full; // branch infeasible
        }
        let ct = self.core(t);
        if ct == x {
            return (l, h);
        }
        if let Node::Bin(op, p, k) = *self.node(ct) {
            if self.core(p) == x {
                if let Some(kv) = self.cval(k) {
                    let m = ones(self.width(ct));
                    match op {
                        B::Sub if l >= kv => return (l - kv, h - kv),
                        B::Sub if h < kv => {
                            let m1 = m + 1;
                            return (l + m1 - kv, h + m1 - kv);
                        }
                        B::Add if h + kv <= m => return (l + kv, h + kv),
                        _ => {}
                    }
                }
            }
        }
        full
    }
    pub fn ctpop(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(v) = self.cval(a) {
            return self.konst(w, v.count_ones() as u128);
        }
        let n = Node::Ctpop(a);
        if let Some(&t) = self.intern.get(&(w as u8, n.clone())) {
            return t;
        }
        let mut s = [0u64; NS];
        for k in 0..NS {
            s[k] = (self.sims[a as usize][k] as u64).count_ones() as u64;
        }
        let hi = bits(self.hi(a)) as u128;
        self.push(w, n, 0, hi, s)
    }
    /// constant table lookup; index must be proven in range by the caller
    pub fn table(&mut self, w: u32, vals: Vec<u64>, idx: T) -> T {
        if let Some(i) = self.cval(idx) {
            return self.konst(w, vals[i as usize] as u128);
        }
        if vals.iter().all(|&v| v == vals[0]) {
            return self.konst(w, vals[0] as u128);
        }
        let k = bits(self.hi(idx)).max(1);
        let idx = self.extract(idx, 0, k);
        let lo = *vals.iter().min().unwrap() as u128;
        let hi = *vals.iter().max().unwrap() as u128;
        let mut s = [0u64; NS];
        for k in 0..NS {
            s[k] = vals.get(self.sims[idx as usize][k] as usize).copied().unwrap_or(0);
        }
        let n = Node::Table(vals.into(), idx);
        if let Some(&t) = self.intern.get(&(w as u8, n.clone())) {
            return t;
        }
        self.push(w, n, lo, hi, s)
    }

    pub fn children(&self, t: T) -> Vec<T> {
        match self.node(t) {
            Node::Const(_) | Node::Var(_) | Node::Uf(..) | Node::Fq(_) => vec![],
            Node::Slices(p) => match self.trim.get(&t) {
                Some(x) if self.refined.contains(x) => vec![*x],
                _ => p.iter().map(|p| p.t).collect(),
            },
            Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) => vec![*a, *b],
            Node::Ite(c, a, b) => vec![*c, *a, *b],
            Node::Ctpop(a) => vec![*a],
            Node::Table(_, i) => vec![*i],
        }
    }
    /// record a global assumption on a boolean term; drops simulations that violate it
    pub fn assume(&mut self, c: T, v: bool) {
        if let Node::Bin(B::Xor, x, k) = *self.node(c) {
            if self.is_const(k) && self.width(c) == 1 {
                return self.assume(x, !v);
            }
        }
        self.facts.insert(c, v);
        for k in 0..NS {
            if (self.sims[c as usize][k] == 1) != v {
                self.active &= !(1 << k);
            }
        }
        if let Node::Ult(x, k) = *self.node(c) {
            if let Some(kv) = self.cval(k) {
                if v {
                    self.hi[x as usize] = self.hi(x).min(kv - 1);
                } else {
                    self.lo[x as usize] = self.lo(x).max(kv);
                }
                self.refined.insert(x);
                let (l, h) = (self.lo(x), self.hi(x));
                for e in self.exts.get(&x).cloned().unwrap_or_default() {
                    self.lo[e as usize] = self.lo(e).max(l);
                    self.hi[e as usize] = self.hi(e).min(h);
                }
            }
        }
    }
    pub fn is_active(&self, k: usize) -> bool {
        self.active >> k & 1 == 1
    }
    /// hash of the set of leaf terms (variables, UF outputs, Fq values, refined slices)
    pub fn leaves(&self, t: T, limit: usize) -> Option<Vec<T>> {
        let mut seen: FxSet<T> = Default::default();
        let mut out = vec![];
        let mut st = vec![t];
        let mut visited = 0;
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            visited += 1;
            if visited > limit * 50 {
                return None;
            }
            match self.node(x) {
                Node::Const(_) => {}
                Node::Var(_) | Node::Uf(..) | Node::Fq(_) => out.push(x),
                _ => {
                    if self.refined.contains(&x) {
                        out.push(x);
                    } else {
                        st.extend(self.children(x));
                    }
                }
            }
            if out.len() > limit {
                return None;
            }
        }
        out.sort();
        Some(out)
    }
    /// bit-precise support for small cones: set of (leaf, bit)
    pub fn bit_support(&self, t: T, limit: usize) -> Option<Vec<(T, u8)>> {
        let mut seen: FxSet<T> = Default::default();
        let mut out: Vec<(T, u8)> = vec![];
        let mut st: Vec<T> = vec![t];
        let mut visited = 0;
        let add = |s: &Self, x: T, lo: u8, len: u8, out: &mut Vec<(T, u8)>| {
            let _ = s;
            for i in lo..lo + len {
                out.push((x, i));
            }
        };
        let leaf = |s: &Self, x: T| matches!(s.node(x), Node::Var(_) | Node::Uf(..) | Node::Fq(_)) || s.refined.contains(&x);
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            visited += 1;
            if visited > 400 {
                return None;
            }
            if leaf(self, x) {
                add(self, x, 0, self.w[x as usize], &mut out);
            } else if let Node::Slices(ps) = self.node(x) {
                for p in ps.iter() {
                    if self.is_const(p.t) {
                        continue;
                    }
                    if leaf(self, p.t) {
                        add(self, p.t, p.lo, p.len, &mut out);
                    } else {
                        st.push(p.t);
                    }
                }
            } else {
                st.extend(self.children(x));
            }
            if out.len() > limit * 4 {
                return None;
            }
        }
        out.sort();
        out.dedup();
        if out.len() > limit {
            None
        } else {
            Some(out)
        }
    }
    /// concrete evaluation with leaf values
    pub fn eval(&self, t: T, env: &FxMap<T, u128>, memo: &mut FxMap<T, u128>) -> u128 {
        if let Some(&v) = env.get(&t) {
            return v;
        }
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let w = self.width(t);
        let v = match self.node(t).clone() {
            Node::Const(v) => v,
            Node::Var(_) | Node::Uf(..) | Node::Fq(_) => self.sim(t, 0),
            Node::Slices(ps) => {
                let mut v = 0;
                let mut o = 0;
                for p in ps.iter() {
                    v |= crate::ir::mask(self.eval(p.t, env, memo) >> p.lo, p.len as u32) << o;
                    o += p.len as u32;
                }
                v
            }
            Node::Bin(op, a, b) => {
                let x = self.eval(a, env, memo);
                let y = self.eval(b, env, memo);
                Self::eval_bin(op, w, x, y)
            }
            Node::Eq(a, b) => (self.eval(a, env, memo) == self.eval(b, env, memo)) as u128,
            Node::Ult(a, b) => (self.eval(a, env, memo) < self.eval(b, env, memo)) as u128,
            Node::Ite(c, a, b) => {
                if self.eval(c, env, memo) == 1 {
                    self.eval(a, env, memo)
                } else {
                    self.eval(b, env, memo)
                }
            }
            Node::Ctpop(a) => self.eval(a, env, memo).count_ones() as u128,
            Node::Table(v, i) => {
                let i = self.eval(i, env, memo) as usize;
                v.get(i).copied().unwrap_or(0) as u128
            }
        };
        memo.insert(t, v);
        v
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        let w = self.width(t);
        match self.node(t) {
            Node::Const(v) => format!("{v}:{w}"),
            Node::Var(k) => self.var_names[*k as usize].clone(),
            Node::Uf(a, i) => format!("U{a}.{i}"),
            Node::Fq(f) => {
                let f = self.poly.get(*f);
                format!("Fq<{} terms>#{t}", f.len())
            }
            _ if depth == 0 => format!("#{t}:{w}"),
            Node::Slices(p) => {
                let v: Vec<String> = p.iter().map(|p| format!("{}[{}+{}]", self.show(p.t, depth - 1), p.lo, p.len)).collect();
                format!("{{{}}}", v.join(","))
            }
            Node::Bin(o, a, b) => format!("({o:?} {} {})", self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Eq(a, b) => format!("(= {} {})", self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Ult(a, b) => format!("(< {} {})", self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, depth - 1), self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Ctpop(a) => format!("(ctpop {})", self.show(*a, depth - 1)),
            Node::Table(_, i) => format!("(table {})", self.show(*i, depth - 1)),
        }
    }
}

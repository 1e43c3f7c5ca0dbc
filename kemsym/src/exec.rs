//! Symbolic execution of LLVM IR.
use crate::ir::*;
use crate::smt::Res;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ptr {
    pub obj: u32, // 0: no object
    pub off: u64,
    pub sym: Option<(T, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U,
    I(T),
    P(Ptr),
    A(Rc<Vec<Val>>),
    Raw(Rc<Vec<Cell>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cell {
    Un,
    B(T, u8),
    P(u32, u8),
}

pub struct Obj {
    pub cells: Vec<Cell>,
    pub base: u64,
    pub alive: bool,
    pub ro: bool,
    pub name: String,
    pub func: Option<String>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Unsupported(String),
    /// the current path certainly panics (after recording the finding)
    Panic(String),
}
/// largest constant table that may be indexed by secrets
pub const TABLE_MAX: u64 = 128;
pub type X<V> = Result<V, Stop>;
fn uns<V>(s: impl Into<String>) -> X<V> {
    Err(Stop::Unsupported(s.into()))
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub msg: String,
    /// simulation vector exhibiting it
    pub sim: Option<usize>,
    pub model: Vec<(T, u128)>,
    pub inconclusive: bool,
}

pub enum Out {
    Ret(Val),
    Stop(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Icpt {
    None,
    Keccak,
    Panic,
    MulClamped,
    MulBaseClamped,
    Memcmp,
    Bcmp,
    Ignore,
    Undefined,
    Custom(u32),
}

pub type CustomFn = fn(&mut Exec, &str, &[Val], &Ty) -> X<Val>;

pub struct Exec {
    pub m: Rc<Module>,
    pub cx: Ctx,
    pub mem: Vec<Obj>,
    pub globals: HashMap<String, u32>,
    /// writable statics start with arbitrary contents (any history of earlier calls)
    pub havoc: bool,
    pub statics: Vec<String>,
    pub ptrs: Vec<Ptr>,
    pub next_addr: u64,
    pub pc: Vec<T>,
    pub pcset: FxMap<T, bool>,
    pub journal: Vec<Vec<(u32, u32, Cell)>>,
    pub findings: Vec<Finding>,
    /// conditions of refuted obligations
    pub bad_conds: Vec<T>,
    pub obligations: u64,
    pub obl_const: u64,
    pub steps: u64,
    pub depth: u32,
    pub max_steps: u64,
    pub icpt: HashMap<String, Icpt>,
    pub funcs_run: BTreeMap<String, u64>,
    pub custom: Vec<(String, CustomFn)>,
    /// hash of the one constant point seen per curve
    pub generators: std::collections::HashMap<String, u64>,
    pub ct: Option<crate::ct::Split>,
    pub trace_secrets: bool,
    /// a branch condition that simulations with equal public data disagree on was met
    pub leak: bool,
    /// control flow, divisors and addresses of a concrete execution
    pub trace: Option<Vec<u64>>,
    pub trace_at: Vec<String>,
    pub trace_pos: Vec<u64>,
    pub xof_assumptions: Vec<(T, bool)>,
    pub hash_assumptions: u64,
    pub ifconv: u64,
    pub stack: Vec<String>,
    pub sweep_stores: bool,
    pub bases: BTreeMap<u64, u32>,
    pub log: Vec<String>,
    pub concrete_only: bool,
    supp: FxMap<T, Option<Rc<Vec<T>>>>,
}

struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    allocas: Vec<u32>,
}

/// bytes a load or store of the type touches (i24 touches three, though it occupies four)
fn store_size(ty: &Ty) -> u64 {
    match ty {
        Ty::Int(w) => (*w as u64 + 7) / 8,
        _ => ty.size(),
    }
}

fn demangle_hint(n: &str) -> String {
    // cheap readable form of v0 names: keep identifiers
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && !(i > 0 && (b[i - 1] == b'_' || b[i - 1].is_ascii_alphanumeric()) && b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 0 && l < 60 && s + l <= b.len() && b[s..s + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(n[s..s + l].to_string());
                i = s + l;
                continue;
            }
            i = j;
        } else if b[i] == b's' && n[i + 1..].find('_').map_or(false, |k| k < 14) && i + 1 < b.len() {
            // disambiguator s<base62>_
            let k = n[i + 1..].find('_').unwrap();
            if n[i + 1..i + 1 + k].bytes().all(|c| c.is_ascii_alphanumeric()) && (b[i - 1] == b'C' || b[i - 1].is_ascii_lowercase() || b[i - 1] == b'M' || b[i - 1] == b'X') {
                i += k + 2;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

impl Exec {
    pub fn new(m: Rc<Module>) -> Exec {
        let mut e = Exec {
            m,
            cx: Ctx::new(),
            mem: vec![],
            globals: HashMap::new(),
            havoc: false,
            statics: vec![],
            ptrs: vec![],
            next_addr: 0x10000,
            pc: vec![],
            pcset: Default::default(),
            journal: vec![],
            findings: vec![],
            bad_conds: vec![],
            obligations: 0,
            obl_const: 0,
            steps: 0,
            depth: 0,
            max_steps: 2_000_000_000,
            icpt: HashMap::new(),
            funcs_run: BTreeMap::new(),
            custom: vec![],
            generators: Default::default(),
            ct: None,
            trace_secrets: false,
            leak: false,
            trace: None,
            trace_at: vec![],
            trace_pos: vec![],
            xof_assumptions: vec![],
            hash_assumptions: 0,
            ifconv: 0,
            stack: vec![],
            sweep_stores: false,
            bases: BTreeMap::new(),
            log: vec![],
            concrete_only: false,
            supp: Default::default(),
        };
        e.mem.push(Obj { cells: vec![], base: 0, alive: false, ro: true, name: "null".into(), func: None });
        e
    }
    pub fn pretty(n: &str) -> String {
        demangle_hint(n)
    }
    // ------------------------------------------------------------ memory
    pub fn alloc(&mut self, size: u64, align: u64, name: &str) -> u32 {
        let a = align.max(1);
        // aligned to exactly `a`
        let mut addr = (self.next_addr + 2 * a - 1) / (2 * a) * (2 * a) + a;
        if addr % a != 0 {
            addr += a;
        }
        self.next_addr = addr + size + 32;
        let id = self.mem.len() as u32;
        self.mem.push(Obj { cells: vec![Cell::Un; size as usize], base: addr, alive: true, ro: false, name: name.to_string(), func: None });
        self.bases.insert(addr, id);
        id
    }
    pub fn free(&mut self, id: u32) {
        let b = self.mem[id as usize].base;
        self.bases.remove(&b);
        let o = &mut self.mem[id as usize];
        o.alive = false;
        o.cells = vec![];
    }
    pub fn p(&self, obj: u32) -> Val {
        Val::P(Ptr { obj, off: 0, sym: None })
    }
    fn write(&mut self, obj: u32, off: u64, c: Cell) {
        if let Some(j) = self.journal.last_mut() {
            let old = self.mem[obj as usize].cells[off as usize];
            j.push((obj, off as u32, old));
        }
        self.mem[obj as usize].cells[off as usize] = c;
    }
    pub fn set_bytes(&mut self, obj: u32, off: u64, ts: &[T]) {
        for (i, &t) in ts.iter().enumerate() {
            self.write(obj, off + i as u64, Cell::B(t, 0));
        }
    }
    pub fn cell_byte(&mut self, c: Cell) -> Option<T> {
        match c {
            Cell::B(t, i) => Some(if self.cx.width(t) == 8 { t } else { self.cx.extract(t, 8 * i as u32, 8) }),
            Cell::P(p, i) => {
                let a = self.addr(self.ptrs[p as usize])?;
                let c = self.cx.konst(8, (a >> (8 * i)) as u128);
                Some(c)
            }
            Cell::Un => None,
        }
    }
    pub fn get_bytes(&mut self, obj: u32, off: u64, n: u64) -> X<Vec<T>> {
        let mut v = vec![];
        for i in 0..n {
            let c = self.mem[obj as usize].cells[(off + i) as usize];
            match self.cell_byte(c) {
                Some(t) => v.push(t),
                None => return uns(format!("output byte {} of {} is uninitialised", off + i, self.mem[obj as usize].name)),
            }
        }
        Ok(v)
    }
    fn addr(&self, p: Ptr) -> Option<u64> {
        if p.sym.is_some() {
            return None;
        }
        Some(self.mem[p.obj as usize].base.wrapping_add(p.off))
    }
    fn addr_t(&mut self, p: Ptr) -> T {
        let b = self.mem[p.obj as usize].base.wrapping_add(p.off);
        let c = self.cx.konst(64, b as u128);
        match p.sym {
            None => c,
            Some((i, s)) => {
                let k = self.cx.konst(64, s as u128);
                let x = self.cx.bin(B::Mul, i, k);
                self.cx.bin(B::Add, x, c)
            }
        }
    }
    fn find(&mut self, kind: &str, msg: String, sim: Option<usize>, model: Vec<(T, u128)>, inconclusive: bool) {
        let pc: Vec<T> = self.pc.clone();
        self.bad_conds.extend(pc);
        if self.findings.len() < 50 {
            let st: Vec<String> = self.stack.iter().rev().take(4).map(|s| demangle_hint(s)).collect();
            self.findings.push(Finding { kind: kind.into(), msg: format!("{msg} [in {}]", st.join(" < ")), sim, model, inconclusive });
        }
    }
    /// resolve an access of n bytes; returns concrete (obj, off)
    fn access(&mut self, p: Ptr, n: u64, write: bool) -> X<(u32, u64)> {
        if n == 0 {
            return Ok((p.obj, p.off));
        }
        let o = &self.mem[p.obj as usize];
        if p.obj == 0 || !o.alive || p.off.checked_add(n).map_or(true, |e| e > o.cells.len() as u64) {
            let msg = format!("access of {n} bytes at offset {} of object '{}' ({} bytes, alive {})", p.off as i64, o.name, o.cells.len(), o.alive);
            let k = self.cx.active.trailing_zeros() as usize;
            self.find("memory", msg.clone(), Some(k), vec![], false);
            return Err(Stop::Panic(msg));
        }
        if write && o.ro {
            let msg = format!("write to read-only object '{}'", o.name);
            self.find("memory", msg.clone(), None, vec![], false);
            return Err(Stop::Panic(msg));
        }
        if self.trace.is_some() {
            let o = &self.mem[p.obj as usize];
            if !(o.ro && o.cells.len() <= TABLE_MAX as usize) {
                self.mark(0xadd4 ^ (p.obj as u64) << 32 ^ p.off);
            }
        }
        Ok((p.obj, p.off))
    }
    pub fn mark(&mut self, x: u64) {
        if let Some(t) = &mut self.trace {
            t.push(x);
            let n = self.trace_at.len();
            let f = self.stack.last();
            if n == 0 || f.map(|f| *f != self.trace_at[n - 1]).unwrap_or(false) {
                // position of function changes, for reporting
                let f = f.cloned().unwrap_or_default();
                self.trace_at.push(f);
                self.trace_pos.push(t.len() as u64 - 1);
            }
        }
    }
    fn load_cells(&mut self, obj: u32, off: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                let cells = &self.mem[obj as usize].cells[off as usize..off as usize + n];
                let first = cells[0];
                match first {
                    Cell::B(t, 0) if self.cx.width(t) as usize == 8 * n && (n == 1 || cells.iter().enumerate().all(|(i, c)| *c == Cell::B(t, i as u8))) => {
                        if *w as usize == 8 * n {
                            return Ok(Val::I(t));
                        }
                        let x = self.cx.extract(t, 0, *w);
                        return Ok(Val::I(x));
                    }
                    Cell::P(p, 0) if n == 8 && cells.iter().enumerate().all(|(i, c)| *c == Cell::P(p, i as u8)) => return Ok(Val::P(self.ptrs[p as usize])),
                    _ => {}
                }
                if cells.iter().any(|c| !matches!(c, Cell::B(..))) {
                    if cells.iter().all(|c| *c == Cell::Un) {
                        return Ok(Val::U);
                    }
                    return Ok(Val::Raw(Rc::new(cells.to_vec())));
                }
                let ps: Vec<Piece> = cells
                    .iter()
                    .map(|c| match c {
                        Cell::B(t, i) => Piece { t: *t, lo: 8 * i, len: 8 },
                        _ => unreachable!(),
                    })
                    .collect();
                if 8 * n > 128 {
                    return Ok(Val::Raw(Rc::new(cells.to_vec())));
                }
                let t = self.cx.mk_slices(&ps);
                let t = self.cx.fit(t, *w);
                Ok(Val::I(t))
            }
            Ty::Ptr => {
                let v = self.load_cells(obj, off, &Ty::Int(64))?;
                match v {
                    Val::I(_) => Ok(Val::P(self.as_ptr(&v)?)),
                    v => Ok(v),
                }
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..ty.count() {
                    let o = ty.field_off(i);
                    v.push(self.load_cells(obj, off + o, ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => uns("load type"),
        }
    }
    pub fn load(&mut self, p: Ptr, ty: &Ty) -> X<Val> {
        let n = store_size(ty);
        if n == 0 {
            return Ok(match ty {
                Ty::Struct(..) | Ty::Array(..) => Val::A(Rc::new(vec![])),
                _ => Val::U,
            });
        }
        if let Some((idx, scale)) = p.sym {
            return self.load_sym(p, idx, scale, ty);
        }
        let (o, off) = self.access(p, n, false)?;
        self.load_cells(o, off, ty)
    }
    fn sym_range(&mut self, p: Ptr, idx: T, scale: u64, n: u64) -> X<u64> {
        // largest index that stays in bounds
        if p.obj == 0 || !self.mem[p.obj as usize].alive || p.off > self.mem[p.obj as usize].cells.len() as u64 {
            return uns("symbolic offset into dead object");
        }
        let size = self.mem[p.obj as usize].cells.len() as u64;
        if p.off + n > size {
            return uns("symbolic offset with negative base");
        }
        let max = (size - n - p.off) / scale;
        if self.cx.hi(idx) <= max as u128 {
            return Ok(self.cx.hi(idx) as u64);
        }
        let k = self.cx.konst(64, max as u128);
        let c = self.cx.ule(idx, k);
        self.obligations += 1;
        match self.prove_pc(c) {
            Res::Proved => {}
            Res::RefutedBySim(s) => self.find("memory", "symbolic index out of bounds".into(), Some(s), vec![], false),
            Res::Refuted(m, ex) => self.find("memory", "symbolic index may be out of bounds".into(), None, m, !ex),
            Res::Unknown(e) => self.find("memory", format!("symbolic index bound undecided: {e}"), None, vec![], true),
        }
        Ok(max)
    }
    fn load_sym(&mut self, p: Ptr, idx: T, scale: u64, ty: &Ty) -> X<Val> {
        if self.trace_secrets {
            let o = &self.mem[p.obj as usize];
            let t = if o.ro { Some(o.cells.len() as u64) } else { None };
            self.log_sym(idx, "address", t);
        }
        let n = store_size(ty);
        let max = self.sym_range(p, idx, scale, n)?;
        if max > 70000 {
            return uns("symbolic index range too large");
        }
        let mut vals = vec![];
        for i in 0..=max {
            vals.push(self.load_cells(p.obj, p.off + i * scale, ty)?);
        }
        if let Ty::Int(w) = ty {
            let cs: Option<Vec<u64>> = vals
                .iter()
                .map(|v| match v {
                    Val::I(t) if *w <= 64 => self.cx.cval(*t).map(|x| x as u64),
                    _ => None,
                })
                .collect();
            if let Some(cs) = cs {
                return Ok(Val::I(self.cx.table(*w, cs, idx)));
            }
        }
        let mut acc = vals[max as usize].clone();
        for i in (0..max).rev() {
            let k = self.cx.konst(64, i as u128);
            let c = self.cx.eq(idx, k);
            acc = self.merge(c, &vals[i as usize], &acc)?;
        }
        Ok(acc)
    }
    fn ptr_id(&mut self, p: Ptr) -> u32 {
        self.ptrs.push(p);
        self.ptrs.len() as u32 - 1
    }
    fn store_cells(&mut self, obj: u32, off: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::A(vs)) => {
                for i in 0..ty.count() {
                    let o = ty.field_off(i);
                    self.store_cells(obj, off + o, ty.elem(i), &vs[i])?;
                }
                Ok(())
            }
            (_, Val::U) => {
                for i in 0..ty.size() {
                    self.write(obj, off + i, Cell::Un);
                }
                Ok(())
            }
            (_, Val::Raw(cs)) => {
                for (i, c) in cs.iter().enumerate() {
                    self.write(obj, off + i as u64, *c);
                }
                Ok(())
            }
            (_, Val::P(p)) => {
                let id = self.ptr_id(*p);
                for i in 0..8 {
                    self.write(obj, off + i, Cell::P(id, i as u8));
                }
                Ok(())
            }
            (Ty::Int(w), Val::I(t)) => {
                let n = (*w + 7) / 8;
                let mut t = *t;
                if w % 8 != 0 {
                    t = self.cx.zext(t, n * 8);
                }
                if *w >= 16 && *w <= 64 {
                    t = self.cx.canon(t);
                    if self.sweep_stores {
                        let c = self.cx.core(t);
                        let r = self.cx.rep(c);
                        if r != c {
                            t = self.cx.fit(r, n * 8);
                        }
                    }
                }
                for i in 0..n {
                    self.write(obj, off + i as u64, Cell::B(t, i as u8));
                }
                Ok(())
            }
            (Ty::Ptr, Val::I(_)) => {
                let p = self.as_ptr(v)?;
                self.store_cells(obj, off, ty, &Val::P(p))
            }
            _ => uns(format!("store {ty:?}")),
        }
    }
    pub fn store(&mut self, p: Ptr, ty: &Ty, v: &Val) -> X<()> {
        let n = store_size(ty);
        if n == 0 {
            return Ok(());
        }
        if let Some((idx, scale)) = p.sym {
            if self.trace_secrets {
                self.log_sym(idx, "address", None);
            }
            let max = self.sym_range(p, idx, scale, n)?;
            if max > 4096 {
                return uns("symbolic store range");
            }
            for i in 0..=max {
                let k = self.cx.konst(64, i as u128);
                let c = self.cx.eq(idx, k);
                let old = self.load_cells(p.obj, p.off + i * scale, ty)?;
                let nv = self.merge(c, v, &old)?;
                self.store_cells(p.obj, p.off + i * scale, ty, &nv)?;
            }
            return Ok(());
        }
        let (o, off) = self.access(p, n, true)?;
        self.store_cells(o, off, ty, v)
    }
    fn merge(&mut self, c: T, a: &Val, b: &Val) -> X<Val> {
        if a == b {
            return Ok(a.clone());
        }
        match (a, b) {
            (Val::I(x), Val::I(y)) if self.cx.width(*x) == self.cx.width(*y) => {
                let t = self.cx.ite(c, *x, *y);
                Ok(Val::I(self.cx.canon(t)))
            }
            (Val::A(x), Val::A(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.merge(c, p, q)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Val::P(x), Val::P(y)) => {
                if x.obj == y.obj && x.sym.is_none() && y.sym.is_none() {
                    // symbolic offset
                    let (lo, d) = if x.off <= y.off { (x.off, y.off - x.off) } else { (y.off, x.off - y.off) };
                    let one = self.cx.konst(64, 1);
                    let zero = self.cx.konst(64, 0);
                    let i = if x.off <= y.off { self.cx.ite(c, zero, one) } else { self.cx.ite(c, one, zero) };
                    return Ok(Val::P(Ptr { obj: x.obj, off: lo, sym: Some((i, d)) }));
                }
                Ok(Val::U)
            }
            (Val::U, x) | (x, Val::U) => {
                let _ = x;
                Ok(Val::U)
            }
            _ => Ok(Val::U),
        }
    }
    pub fn as_ptr(&mut self, v: &Val) -> X<Ptr> {
        match v {
            Val::P(p) => Ok(*p),
            Val::I(t) => {
                if let Some(a) = self.cx.cval(*t) {
                    let a = a as u64;
                    if let Some((_, &id)) = self.bases.range(..=a).next_back() {
                        let o = &self.mem[id as usize];
                        if a <= o.base + o.cells.len() as u64 {
                            return Ok(Ptr { obj: id, off: a - o.base, sym: None });
                        }
                    }
                    return Ok(Ptr { obj: 0, off: a, sym: None });
                }
                uns("symbolic integer used as a pointer")
            }
            Val::U => uns("undefined pointer"),
            Val::Raw(_) => uns("mixed bytes used as a pointer"),
            _ => uns("aggregate used as pointer"),
        }
    }
    pub fn as_int(&mut self, v: &Val) -> X<T> {
        match v {
            Val::I(t) => Ok(*t),
            Val::P(p) => Ok(self.addr_t(*p)),
            Val::U => uns("use of an uninitialised value"),
            Val::Raw(cs) => {
                let cs = cs.clone();
                let mut ts = vec![];
                for c in cs.iter() {
                    match self.cell_byte(*c) {
                        Some(t) => ts.push(t),
                        None => return uns("use of a partially uninitialised value"),
                    }
                }
                Ok(self.cx.concat(&ts))
            }
            Val::A(_) => uns("aggregate used as integer"),
        }
    }
    pub fn memcpy(&mut self, d: Ptr, s: Ptr, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        if d.sym.is_some() || s.sym.is_some() {
            let ty = Ty::Array(n, Box::new(Ty::Int(8)));
            let v = self.load(s, &ty)?;
            return self.store(d, &ty, &v);
        }
        let (so, sf) = self.access(s, n, false)?;
        let (d_o, df) = self.access(d, n, true)?;
        let tmp: Vec<Cell> = self.mem[so as usize].cells[sf as usize..(sf + n) as usize].to_vec();
        if self.journal.is_empty() {
            self.mem[d_o as usize].cells[df as usize..(df + n) as usize].copy_from_slice(&tmp);
        } else {
            for (i, c) in tmp.into_iter().enumerate() {
                self.write(d_o, df + i as u64, c);
            }
        }
        Ok(())
    }
    fn len(&mut self, v: &Val) -> X<u64> {
        let t = self.as_int(v)?;
        match self.cx.cval(t) {
            Some(n) => Ok(n as u64),
            None => uns("symbolic length"),
        }
    }

    // ------------------------------------------------------------ constants
    pub fn global(&mut self, name: &str) -> X<u32> {
        if let Some(&o) = self.globals.get(name) {
            return Ok(o);
        }
        let m = self.m.clone();
        if m.funcs.contains_key(name) || m.declares.contains_key(name) {
            let o = self.alloc(0, 16, name);
            self.mem[o as usize].func = Some(name.to_string());
            self.globals.insert(name.to_string(), o);
            return Ok(o);
        }
        if let Some(a) = m.aliases.get(name) {
            return self.global(&a.clone());
        }
        let g = match m.globals.get(name) {
            Some(g) => g,
            None => return uns(format!("unknown global {name}")),
        };
        let o = self.alloc(g.ty.size(), g.align, name);
        self.globals.insert(name.to_string(), o);
        // initialisation is not journaled
        let js = std::mem::take(&mut self.journal);
        let r = match &g.init {
            Some(c) => {
                let sw = self.sweep_stores;
                self.sweep_stores = false;
                let r = self.init(o, 0, &g.ty, c);
                self.sweep_stores = sw;
                r
            }
            None => Err(Stop::Unsupported(format!("external global {name}"))),
        };
        if r.is_ok() && !g.constant && !name.contains("cpuid") {
            self.statics.push(name.to_string());
            if self.havoc {
                for i in 0..self.mem[o as usize].cells.len() {
                    let Cell::B(t, lo) = self.mem[o as usize].cells[i] else { continue };
                    let t = self.cx.extract(t, 8 * lo as u32, 8);
                    let mut s = [0u64; NS];
                    for k in 0..NS {
                        s[k] = if k < NS / 2 { self.cx.sim(t, k) as u64 } else { crate::uf::mix((k * 1009 + i) as u64) & 0xff };
                    }
                    let v = self.cx.var(8, &format!("{name}[{i}]"), s);
                    self.write(o, i as u64, Cell::B(v, 0));
                }
            }
        }
        self.journal = js;
        r?;
        if g.constant {
            self.mem[o as usize].ro = true;
        }
        Ok(o)
    }
    fn init(&mut self, o: u32, off: u64, ty: &Ty, c: &Const) -> X<()> {
        match c {
            Const::Zero => {
                let z = self.cx.byte[0];
                for i in 0..ty.size() {
                    self.write(o, off + i, Cell::B(z, 0));
                }
                Ok(())
            }
            Const::Undef => Ok(()),
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    let t = self.cx.byte[*x as usize];
                    self.write(o, off + i as u64, Cell::B(t, 0));
                }
                Ok(())
            }
            Const::Agg(vs) => {
                for (i, (t, v)) in vs.iter().enumerate() {
                    self.init(o, off + ty.field_off(i), t, v)?;
                }
                Ok(())
            }
            c => {
                let v = self.cst(ty, c)?;
                self.store_cells(o, off, ty, &v)
            }
        }
    }
    pub fn cst(&mut self, ty: &Ty, c: &Const) -> X<Val> {
        Ok(match c {
            Const::Int(w, v) => Val::I(self.cx.konst(*w, *v)),
            Const::Null => Val::P(Ptr { obj: 0, off: 0, sym: None }),
            Const::Undef => Val::U,
            Const::Zero => match ty {
                Ty::Int(w) => Val::I(self.cx.konst(*w, 0)),
                Ty::Ptr => Val::P(Ptr { obj: 0, off: 0, sym: None }),
                _ => {
                    let mut v = vec![];
                    for i in 0..ty.count() {
                        v.push(self.cst(ty.elem(i), c)?);
                    }
                    Val::A(Rc::new(v))
                }
            },
            Const::Agg(vs) => {
                let mut v = vec![];
                for (t, c) in vs {
                    v.push(self.cst(t, c)?);
                }
                Val::A(Rc::new(v))
            }
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(self.cx.byte[*x as usize])).collect())),
            Const::Global(g) => {
                let o = self.global(g)?;
                self.p(o)
            }
            Const::Gep(t, b, idx) => {
                let base = self.cst(&Ty::Ptr, b)?;
                let mut v = vec![];
                for (t, c) in idx {
                    v.push((t.clone(), self.cst(t, c)?));
                }
                self.gep(t, base, v)?
            }
            Const::Cast(op, b, t) => {
                let v = self.cst(&b.0, &b.1)?;
                match op.as_str() {
                    "ptrtoint" => {
                        let x = self.as_int(&v)?;
                        Val::I(self.cx.fit(x, t.bits()))
                    }
                    "inttoptr" => Val::P(self.as_ptr(&v)?),
                    _ => v,
                }
            }
            Const::Bin(op, a, b) => {
                let va = self.cst(&a.0, &a.1)?;
                let x = self.as_int(&va)?;
                let vb = self.cst(&b.0, &b.1)?;
                let y = self.as_int(&vb)?;
                let o = match op.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Xor,
                };
                Val::I(self.cx.bin(o, x, y))
            }
        })
    }
    fn gep(&mut self, t: &Ty, base: Val, idx: Vec<(Ty, Val)>) -> X<Val> {
        let mut p = self.as_ptr(&base)?;
        let mut cur = t.clone();
        for (k, (it, v)) in idx.iter().enumerate() {
            let i = self.as_int(v)?;
            let i = {
                let w = it.bits();
                if w < 64 {
                    self.cx.sext(i, 64)
                } else {
                    i
                }
            };
            if k == 0 {
                let s = cur.size();
                p = self.padd(p, i, s)?;
            } else {
                let (scale, next) = match &cur {
                    Ty::Struct(fs, _) => {
                        let n = self.cx.cval(i).unwrap() as usize;
                        p.off = p.off.wrapping_add(cur.field_off(n));
                        (None, fs[n].clone())
                    }
                    Ty::Array(_, e) | Ty::Vector(_, e) => (Some(e.size()), (**e).clone()),
                    _ => return uns("gep into scalar"),
                };
                if let Some(s) = scale {
                    p = self.padd(p, i, s)?;
                }
                cur = next;
            }
        }
        Ok(Val::P(p))
    }
    fn padd(&mut self, mut p: Ptr, i: T, scale: u64) -> X<Ptr> {
        if scale == 0 {
            return Ok(p);
        }
        if let Some(c) = self.cx.cval(i) {
            p.off = p.off.wrapping_add((c as u64).wrapping_mul(scale));
            return Ok(p);
        }
        match p.sym {
            None => p.sym = Some((i, scale)),
            Some((j, s)) => {
                if s == scale {
                    let t = self.cx.bin(B::Add, i, j);
                    p.sym = Some((t, s));
                } else {
                    let k1 = self.cx.konst(64, scale as u128);
                    let k2 = self.cx.konst(64, s as u128);
                    let x = self.cx.bin(B::Mul, i, k1);
                    let y = self.cx.bin(B::Mul, j, k2);
                    let t = self.cx.bin(B::Add, x, y);
                    p.sym = Some((t, 1));
                }
            }
        }
        Ok(p)
    }

    // ------------------------------------------------------------ decisions
    pub fn prove_pc(&mut self, c: T) -> Res {
        match self.prove_under(c, false) {
            Res::Proved => Res::Proved,
            r => {
                if (0..self.pc.len()).any(|i| self.support(self.pc[i]).is_none()) {
                    self.prove_under(c, true)
                } else {
                    r
                }
            }
        }
    }
    /// prove c from the path condition (all: also from conjuncts with very large support)
    fn prove_under(&mut self, c: T, all: bool) -> Res {
        let r = self.cx.check(c);
        if r == Res::Proved || self.pc.is_empty() {
            return r;
        }
        // only path conditions connected to c through shared inputs matter (the path itself is
        // satisfiable); a conclusion drawn from fewer hypotheses is still a conclusion
        let rel = self.relevant(c, all);
        if rel.is_empty() {
            return r;
        }
        let mut t = c;
        for p in rel {
            let n = self.cx.not(p);
            t = self.cx.or(t, n);
        }
        self.cx.check(t)
    }
    pub fn support(&mut self, t: T) -> Option<Rc<Vec<T>>> {
        if let Some(v) = self.supp.get(&t) {
            return v.clone();
        }
        let v = self.cx.leaves(t, 64).map(Rc::new);
        self.supp.insert(t, v.clone());
        v
    }
    fn relevant(&mut self, c: T, all: bool) -> Vec<T> {
        let pc = self.pc.clone();
        let Some(s0) = self.support(c) else { return if all { pc } else { vec![] } };
        let mut sup: FxSet<T> = s0.iter().copied().collect();
        let ss: Vec<Option<Rc<Vec<T>>>> = pc.iter().map(|&p| self.support(p)).collect();
        let mut take = vec![false; pc.len()];
        loop {
            let mut more = false;
            for i in (0..pc.len()).rev() {
                if take[i] {
                    continue;
                }
                let hit = match &ss[i] {
                    None => all,
                    Some(v) => v.iter().any(|x| sup.contains(x)),
                };
                if hit {
                    take[i] = true;
                    more = true;
                    if let Some(v) = &ss[i] {
                        sup.extend(v.iter().copied());
                    }
                }
            }
            if !more {
                break;
            }
        }
        (0..pc.len()).filter(|&i| take[i]).map(|i| pc[i]).collect()
    }
    fn known(&self, c: T) -> Option<bool> {
        if let Some(v) = self.cx.cval(c) {
            return Some(v == 1);
        }
        if let Some(&v) = self.cx.facts.get(&c) {
            return Some(v);
        }
        if let Some(&v) = self.pcset.get(&c) {
            return Some(v);
        }
        if let Node::Bin(B::Xor, x, k) = *self.cx.node(c) {
            if self.cx.is_const(k) {
                return self.known(x).map(|v| !v);
            }
        }
        None
    }
    /// Some(b): the condition always has value b here; None: both directions are possible
    fn decide(&mut self, c: T) -> X<Option<bool>> {
        if let Some(b) = self.known(c) {
            return Ok(Some(b));
        }
        let act = self.cx.active;
        let (mut any0, mut any1) = (false, false);
        for k in 0..NS {
            if act >> k & 1 == 1 {
                if self.cx.sims[c as usize][k] == 1 {
                    any1 = true
                } else {
                    any0 = true
                }
            }
        }
        // public rejection sampling: follow the pattern of the first simulation
        if self.pc.is_empty() && self.cx.only_xof(c) {
            let k = act.trailing_zeros() as usize;
            let v = self.cx.sims[c as usize][k] == 1;
            let n = if v { c } else { self.cx.not(c) };
            // maybe it is not a real choice
            if !(any0 && any1) {
                if let Some(true) = self.quick(n) {
                    return Ok(Some(v));
                }
            }
            self.xof_assumptions.push((c, v));
            self.cx.assume(c, v);
            return Ok(Some(v));
        }
        // conditions over very many inputs are explored both ways instead of proved; obligations
        // (must_not) are always proved
        if self.support(c).is_none() {
            return Ok(None);
        }
        if !any0 && (any1 || act == 0) {
            if self.prove_under(c, false) == Res::Proved {
                return Ok(Some(true));
            }
        }
        if !any1 && (any0 || act == 0) {
            let n = self.cx.not(c);
            if self.prove_under(n, false) == Res::Proved {
                return Ok(Some(false));
            }
        }
        Ok(None)
    }
    fn quick(&mut self, c: T) -> Option<bool> {
        // range-check conditions on unconstrained XOF candidates are never decided; only
        // attempt a proof when the condition is not of that shape
        let mut x = c;
        if let Node::Bin(B::Xor, y, _) = *self.cx.node(c) {
            x = y;
        }
        if let Node::Ult(a, b) = *self.cx.node(x) {
            if self.cx.is_const(b) && matches!(self.cx.node(a), Node::Slices(_)) && !self.cx.refined.contains(&a) {
                return None;
            }
        }
        Some(self.cx.prove(c))
    }
    /// the condition `bad` must be impossible here
    fn must_not(&mut self, bad: T, what: &str) -> X<()> {
        self.obligations += 1;
        if let Some(b) = self.known(bad) {
            self.obl_const += 1;
            if b {
                let k = if self.cx.active != 0 { Some(self.cx.active.trailing_zeros() as usize) } else { None };
                self.find("panic", what.to_string(), k, vec![], false);
                return Err(Stop::Panic(what.to_string()));
            }
            return Ok(());
        }
        let n = self.cx.not(bad);
        let r = self.prove_pc(n);
        if r != Res::Proved {
            self.bad_conds.push(bad);
        }
        match r {
            Res::Proved => {
                if self.pc.is_empty() {
                    self.cx.facts.insert(bad, false);
                }
            }
            Res::RefutedBySim(s) => self.find("panic", what.to_string(), Some(s), vec![], false),
            Res::Refuted(m, ex) => self.find("panic", what.to_string(), None, m, !ex),
            Res::Unknown(e) => self.find("panic", format!("{what}: undecided ({e})"), None, vec![], true),
        }
        Ok(())
    }

    // ------------------------------------------------------------ execution
    fn op(&mut self, fr: &Frame, ty: &Ty, o: &Op) -> X<Val> {
        match o {
            Op::L(i) => Ok(fr.regs[*i].clone()),
            Op::C(c) => self.cst(ty, c),
        }
    }
    fn opi(&mut self, fr: &Frame, ty: &Ty, o: &Op) -> X<T> {
        match o {
            Op::L(i) => {
                if let Val::I(t) = &fr.regs[*i] {
                    return Ok(*t);
                }
                let v = fr.regs[*i].clone();
                self.as_int(&v)
            }
            Op::C(Const::Int(w, v)) => Ok(self.cx.konst(*w, *v)),
            Op::C(c) => {
                let v = self.cst(ty, c)?;
                self.as_int(&v)
            }
        }
    }
    pub fn call_name(&mut self, name: &str, args: Vec<Val>) -> X<Val> {
        let f = match self.m.funcs.get(name) {
            Some(f) => f.clone(),
            None => return uns(format!("no function {name}")),
        };
        self.call(f, args)
    }
    pub fn call(&mut self, f: Rc<Func>, args: Vec<Val>) -> X<Val> {
        if self.depth > 400 {
            return uns("call depth");
        }
        *self.funcs_run.entry(f.name.clone()).or_insert(0) += 1;
        let mut fr = Frame { regs: vec![Val::U; f.nslots], f: f.clone(), allocas: vec![] };
        for (k, ((_, s), a)) in f.params.iter().zip(args).enumerate() {
            if let Some(t) = &f.byval[k] {
                let o = self.alloc(t.size(), t.align(), "byval");
                fr.allocas.push(o);
                let p = self.as_ptr(&a)?;
                self.memcpy(Ptr { obj: o, off: 0, sym: None }, p, t.size())?;
                fr.regs[*s] = self.p(o);
            } else {
                fr.regs[*s] = a;
            }
        }
        self.depth += 1;
        self.stack.push(f.name.clone());
        let r = self.run(&mut fr, 0, usize::MAX, None);
        self.stack.pop();
        self.depth -= 1;
        for o in fr.allocas {
            self.free(o);
        }
        match r? {
            Out::Ret(v) => Ok(v),
            Out::Stop(_) => uns("stop at function level"),
        }
    }
    fn phis(&mut self, fr: &Frame, b: usize, prev: usize) -> X<Vec<(usize, Val)>> {
        let f = fr.f.clone();
        let mut out = vec![];
        for (d, i) in &f.blocks[b].insts {
            if let Inst::Phi(t, v) = i {
                let o = v.iter().find(|x| x.1 == prev).map(|x| &x.0);
                let o = match o {
                    Some(o) => o,
                    None => return uns("phi predecessor"),
                };
                let val = self.op(fr, t, o)?;
                out.push((d.unwrap(), val));
            } else {
                break;
            }
        }
        Ok(out)
    }
    fn run(&mut self, fr: &mut Frame, start: usize, prev0: usize, stop: Option<usize>) -> X<Out> {
        let f = fr.f.clone();
        let mut b = start;
        let mut prev = prev0;
        let mut skip_phi = false;
        let mut first = true;
        loop {
            if stop == Some(b) && !skip_phi && !(first && false) {
                return Ok(Out::Stop(prev));
            }
            first = false;
            if !skip_phi {
                let ph = self.phis(fr, b, prev)?;
                for (d, v) in ph {
                    fr.regs[d] = v;
                }
            }
            skip_phi = false;
            let blk = &f.blocks[b];
            let mut next: Option<usize> = None;
            for (dst, ins) in &blk.insts {
                self.steps += 1;
                if self.steps > self.max_steps {
                    return uns("step limit");
                }
                match ins {
                    Inst::Phi(..) => {}
                    Inst::Br(t) => next = Some(*t),
                    Inst::Ret(None) => return Ok(Out::Ret(Val::U)),
                    Inst::Ret(Some((t, o))) => {
                        let v = self.op(fr, t, o)?;
                        return Ok(Out::Ret(v));
                    }
                    Inst::Unreachable => {
                        let k = self.cx.active.trailing_zeros() as usize;
                        self.find("panic", "unreachable code reached".into(), Some(k.min(NS - 1)), vec![], false);
                        return Err(Stop::Panic("unreachable".into()));
                    }
                    Inst::CondBr(c, t, e) => {
                        let c = match self.opi(fr, &Ty::Int(1), c) {
                            Ok(c) => c,
                            Err(Stop::Unsupported(m)) if m.contains("uninitialised") => {
                                self.find("memory", "branch on an uninitialised value".into(), None, vec![], false);
                                return uns(m);
                            }
                            Err(e) => return Err(e),
                        };
                        if self.trace.is_some() {
                            let v = self.cx.cval(c).unwrap_or(2) as u64;
                            self.mark((b as u64) << 8 | v);
                        }
                        let (pt, pe) = (f.blocks[*t].is_panic, f.blocks[*e].is_panic);
                        if pt != pe && !blk.is_panic {
                            let bad = if pt { c } else { self.cx.not(c) };
                            let what = self.panic_msg(&f, if pt { *t } else { *e });
                            self.must_not(bad, &what)?;
                            next = Some(if pt { *e } else { *t });
                            continue;
                        }
                        if t == e {
                            next = Some(*t);
                            continue;
                        }
                        let d = self.decide(c)?;
                        if let (None, true) = (d, self.trace_secrets) {
                            self.log_sym(c, "branch", None);
                        }
                        match d {
                            Some(true) => next = Some(*t),
                            Some(false) => next = Some(*e),
                            None => match self.fork(fr, b, vec![(Some(c), *t), (None, *e)], stop)? {
                                Forked::Ret(v) => return Ok(Out::Ret(v)),
                                Forked::At(j) => {
                                    next = Some(j);
                                    skip_phi = true;
                                }
                                Forked::OneStop(j, p) => {
                                    // only one arm survived; phis not yet applied
                                    next = Some(j);
                                    prev = p;
                                    // handled below through explicit predecessor
                                    let ph = self.phis(fr, j, p)?;
                                    for (d, v) in ph {
                                        fr.regs[d] = v;
                                    }
                                    skip_phi = true;
                                }
                                Forked::OuterStop(p) => return Ok(Out::Stop(p)),
                            },
                        }
                    }
                    Inst::Switch(ty, v, d, cs) => {
                        let v = self.opi(fr, ty, v)?;
                        if let Some(x) = self.cx.cval(v) {
                            if self.trace.is_some() {
                                self.mark((b as u64) << 8 ^ (x as u64) << 32 ^ 0x55);
                            }
                            next = Some(cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d));
                        } else {
                            let w = ty.bits();
                            let mut arms = vec![];
                            let mut cases: Vec<(u128, usize)> = cs.clone();
                            // cases leading to panics become obligations
                            let mut alive = vec![];
                            for (x, t) in cases.drain(..) {
                                let k = self.cx.konst(w, x);
                                let c = self.cx.eq(v, k);
                                if f.blocks[t].is_panic {
                                    self.must_not(c, "switch case")?;
                                    continue;
                                }
                                match self.decide(c)? {
                                    Some(true) => {
                                        alive = vec![(c, t)];
                                        arms.push(t);
                                        break;
                                    }
                                    Some(false) => {}
                                    None => {
                                        if self.trace_secrets {
                                            self.log_sym(c, "switch", None);
                                        }
                                        alive.push((c, t))
                                    }
                                }
                            }
                            if arms.len() == 1 {
                                next = Some(arms[0]);
                            } else {
                                // default feasible?
                                let mut none = self.cx.tt();
                                for (c, _) in &alive {
                                    let n = self.cx.not(*c);
                                    none = self.cx.and(none, n);
                                }
                                let mut list: Vec<(Option<T>, usize)> = vec![];
                                let def_ok = if f.blocks[*d].is_panic || matches!(f.blocks[*d].insts[0].1, Inst::Unreachable) {
                                    self.must_not(none, "switch default")?;
                                    false
                                } else {
                                    !matches!(self.decide(none)?, Some(false))
                                };
                                for (c, t) in &alive {
                                    list.push((Some(*c), *t));
                                }
                                if def_ok {
                                    list.push((None, *d));
                                } else if let Some(l) = list.last_mut() {
                                    l.0 = None;
                                }
                                if list.len() == 1 {
                                    next = Some(list[0].1);
                                } else {
                                    match self.fork(fr, b, list, stop)? {
                                        Forked::Ret(v) => return Ok(Out::Ret(v)),
                                        Forked::At(j) => {
                                            next = Some(j);
                                            skip_phi = true;
                                        }
                                        Forked::OneStop(j, p) => {
                                            next = Some(j);
                                            prev = p;
                                            let ph = self.phis(fr, j, p)?;
                                            for (d, v) in ph {
                                                fr.regs[d] = v;
                                            }
                                            skip_phi = true;
                                        }
                                        Forked::OuterStop(p) => return Ok(Out::Stop(p)),
                                    }
                                }
                            }
                        }
                    }
                    Inst::Call(c) => {
                        let v = self.do_call(fr, c)?;
                        if let Some(d) = dst {
                            fr.regs[*d] = v;
                        }
                        if let Some(n) = c.normal {
                            next = Some(n);
                        }
                    }
                    _ => {
                        let v = self.inst(fr, ins)?;
                        if let Some(d) = dst {
                            fr.regs[*d] = v;
                        }
                    }
                }
            }
            match next {
                Some(n) => {
                    if !skip_phi {
                        prev = b;
                    } else if stop == Some(n) {
                        // merged exactly at the outer stop block: phi values are already merged
                        return Ok(Out::Stop(MERGED));
                    }
                    b = n;
                }
                None => return uns("fell off block"),
            }
        }
    }
    fn panic_msg(&self, f: &Func, b: usize) -> String {
        let mut x = b;
        for _ in 0..6 {
            for (_, i) in &f.blocks[x].insts {
                if let Inst::Call(c) = i {
                    if let Op::C(Const::Global(g)) = &c.callee {
                        return format!("panic: {}", demangle_hint(g));
                    }
                }
            }
            match f.blocks[x].succ.first() {
                Some(&s) => x = s,
                None => break,
            }
        }
        "panic".into()
    }

    /// execute all arms and merge at the immediate post-dominator
    fn fork(&mut self, fr: &mut Frame, b: usize, arms: Vec<(Option<T>, usize)>, outer: Option<usize>) -> X<Forked> {
        self.ifconv += 1;
        if self.concrete_only {
            return uns("symbolic branch in concrete mode");
        }
        if self.leak {
            return uns("stopped at a branch on secret data");
        }
        if self.pc.len() > 6000 {
            return uns("too many nested symbolic branches");
        }
        let f = fr.f.clone();
        let j = f.ipdom[b];
        let stop = j.or(outer);
        let regs0 = fr.regs.clone();
        let active0 = self.cx.active;
        struct Arm {
            c: Option<T>,
            out: Out,
            phis: Vec<(usize, Val)>,
            regs: Vec<Val>,
            writes: FxMap<(u32, u32), Cell>,
        }
        let mut res: Vec<Arm> = vec![];
        let mut neg: Vec<T> = vec![];
        let mut last_panic = None;
        for (c, t) in arms {
            fr.regs = regs0.clone();
            let npc = self.pc.len();
            let mut added = vec![];
            for &n in &neg {
                let x = self.cx.not(n);
                self.push_pc(x, &mut added);
            }
            if let Some(c) = c {
                self.push_pc(c, &mut added);
                neg.push(c);
            }
            self.journal.push(vec![]);
            let r = self.run(fr, t, b, stop);
            let j1 = self.journal.pop().unwrap();
            // collect writes and roll back
            let mut w: FxMap<(u32, u32), Cell> = Default::default();
            for (o, off, _) in &j1 {
                let ob = &self.mem[*o as usize];
                if ob.alive {
                    w.insert((*o, *off), ob.cells[*off as usize]);
                }
            }
            for (o, off, old) in j1.into_iter().rev() {
                if self.mem[o as usize].alive {
                    self.mem[o as usize].cells[off as usize] = old;
                }
            }
            let mut r = r;
            let mut phis = vec![];
            if let Ok(Out::Stop(p)) = &r {
                let s = stop.unwrap();
                if *p == MERGED {
                    // values already in registers
                    for (d, i) in &f.blocks[s].insts {
                        if let Inst::Phi(..) = i {
                            phis.push((d.unwrap(), fr.regs[d.unwrap()].clone()));
                        } else {
                            break;
                        }
                    }
                } else {
                    match self.phis(fr, s, *p) {
                        Ok(v) => phis = v,
                        Err(e) => r = Err(e),
                    }
                }
            }
            // undo path condition
            for (t, old) in added.into_iter().rev() {
                match old {
                    Some(v) => {
                        self.pcset.insert(t, v);
                    }
                    None => {
                        self.pcset.remove(&t);
                    }
                }
            }
            self.pc.truncate(npc);
            self.cx.active = active0;
            match r {
                Ok(out) => res.push(Arm { c, out, phis, regs: std::mem::take(&mut fr.regs), writes: w }),
                Err(Stop::Panic(m)) => last_panic = Some(m),
                Err(e) => return Err(e),
            }
        }
        if res.is_empty() {
            return Err(Stop::Panic(last_panic.unwrap_or_default()));
        }
        // merge from the last arm backwards
        let mut acc = res.pop().unwrap();
        let single = res.is_empty();
        let mut merged_any = false;
        while let Some(a) = res.pop() {
            merged_any = true;
            let c = a.c.unwrap();
            // memory
            let mut keys: Vec<(u32, u32)> = a.writes.keys().chain(acc.writes.keys()).copied().collect();
            keys.sort();
            keys.dedup();
            let mut out: FxMap<(u32, u32), Cell> = Default::default();
            let mut i = 0;
            while i < keys.len() {
                let (o, off) = keys[i];
                let cur = |s: &Self, k: &(u32, u32)| s.mem[k.0 as usize].cells[k.1 as usize];
                let ca = a.writes.get(&keys[i]).copied().unwrap_or_else(|| cur(self, &keys[i]));
                let cb = acc.writes.get(&keys[i]).copied().unwrap_or_else(|| cur(self, &keys[i]));
                if ca == cb {
                    out.insert(keys[i], ca);
                    i += 1;
                    continue;
                }
                // whole-term runs
                if let (Cell::B(x, 0), Cell::B(y, 0)) = (ca, cb) {
                    let (wx, wy) = (self.cx.width(x), self.cx.width(y));
                    if wx == wy && wx > 8 && wx <= 64 {
                        let n = (wx / 8) as usize;
                        let mut ok = i + n <= keys.len();
                        if ok {
                            for k in 0..n {
                                let kk = (o, off + k as u32);
                                let ca = a.writes.get(&kk).copied().unwrap_or_else(|| cur(self, &kk));
                                let cb = acc.writes.get(&kk).copied().unwrap_or_else(|| cur(self, &kk));
                                if keys[i + k] != kk || ca != Cell::B(x, k as u8) || cb != Cell::B(y, k as u8) {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            let t = self.cx.ite(c, x, y);
                            let t = self.cx.canon(t);
                            for k in 0..n {
                                out.insert((o, off + k as u32), Cell::B(t, k as u8));
                            }
                            i += n;
                            continue;
                        }
                    }
                }
                let m = match (ca, cb) {
                    (Cell::B(..), Cell::B(..)) => {
                        let x = self.cell_byte(ca).unwrap();
                        let y = self.cell_byte(cb).unwrap();
                        Cell::B(self.cx.ite(c, x, y), 0)
                    }
                    _ => Cell::Un,
                };
                out.insert(keys[i], m);
                i += 1;
            }
            // registers
            let mut regs = acc.regs;
            for (k, v) in a.regs.iter().enumerate() {
                if *v != regs[k] {
                    regs[k] = self.merge(c, v, &regs[k])?;
                }
            }
            let o = match (a.out, acc.out) {
                (Out::Ret(x), Out::Ret(y)) => Out::Ret(self.merge(c, &x, &y)?),
                (Out::Stop(_), Out::Stop(_)) => Out::Stop(MERGED),
                _ => return uns("arms do not rejoin"),
            };
            let mut phis = vec![];
            for ((d, x), (_, y)) in a.phis.into_iter().zip(acc.phis) {
                let v = self.merge(c, &x, &y)?;
                phis.push((d, v));
            }
            acc = Arm { c: None, out: o, phis, regs, writes: out };
        }
        let _ = (single, merged_any);
        for ((o, off), c) in acc.writes {
            self.write(o, off as u64, c);
        }
        fr.regs = acc.regs;
        match acc.out {
            Out::Ret(v) => Ok(Forked::Ret(v)),
            Out::Stop(_) => {
                for (d, v) in acc.phis {
                    fr.regs[d] = v;
                }
                match j {
                    Some(j) => Ok(Forked::At(j)),
                    None => Ok(Forked::OuterStop(MERGED)),
                }
            }
        }
    }
    fn push_pc(&mut self, c: T, added: &mut Vec<(T, Option<bool>)>) {
        if let Node::Bin(B::And, ..) = *self.cx.node(c) {
            for x in crate::checks::conjuncts(&mut self.cx, c) {
                if self.known(x) != Some(true) {
                    self.push_pc(x, added);
                }
            }
            if self.pcset.get(&c).is_none() {
                added.push((c, self.pcset.insert(c, true)));
            }
            return;
        }
        self.pc.push(c);
        let mut x = c;
        let mut v = true;
        if let Node::Bin(B::Xor, y, k) = *self.cx.node(c) {
            if self.cx.is_const(k) {
                x = y;
                v = false;
            }
        }
        added.push((x, self.pcset.insert(x, v)));
        // conjunctions
        if v {
            if let Node::Bin(B::And, a, b) = *self.cx.node(x) {
                added.push((a, self.pcset.insert(a, true)));
                added.push((b, self.pcset.insert(b, true)));
            }
        }
        for k in 0..NS {
            if self.cx.sims[c as usize][k] != 1 {
                self.cx.active &= !(1 << k);
            }
        }
    }

    fn vecop(&mut self, a: &Val, b: &Val, n: usize, mut g: impl FnMut(&mut Self, T, T) -> X<T>) -> X<Val> {
        let (x, y) = match (a, b) {
            (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
            _ => return uns("vector operand"),
        };
        let mut v = vec![];
        for i in 0..n {
            if x[i] == Val::U || y[i] == Val::U {
                v.push(Val::U);
                continue;
            }
            let p = self.as_int(&x[i])?;
            let q = self.as_int(&y[i])?;
            v.push(Val::I(g(self, p, q)?));
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn binop(&mut self, op: BinOp, a: T, b: T) -> X<T> {
        let o = match op {
            BinOp::Add => B::Add,
            BinOp::Sub => B::Sub,
            BinOp::Mul => B::Mul,
            BinOp::UDiv => B::UDiv,
            BinOp::URem => B::URem,
            BinOp::Shl => B::Shl,
            BinOp::LShr => B::LShr,
            BinOp::AShr => B::AShr,
            BinOp::And => B::And,
            BinOp::Or => B::Or,
            BinOp::Xor => B::Xor,
            BinOp::SDiv | BinOp::SRem => {
                let w = self.cx.width(a);
                let h = 1u128 << (w - 1);
                if self.cx.hi(a) < h && self.cx.hi(b) < h {
                    if op == BinOp::SDiv {
                        B::UDiv
                    } else {
                        B::URem
                    }
                } else if let (Some(x), Some(y)) = (self.cx.cval(a), self.cx.cval(b)) {
                    let s = |v: u128| if v >> (w - 1) & 1 == 1 { (v | !ones(w)) as i128 } else { v as i128 };
                    if y == 0 {
                        return uns("division by zero");
                    }
                    let r = if op == BinOp::SDiv { s(x).wrapping_div(s(y)) } else { s(x).wrapping_rem(s(y)) };
                    return Ok(self.cx.konst(w, r as u128));
                } else {
                    if self.trace_secrets && !self.cx.is_const(b) {
                        self.log_sym(a, "division", None);
                        self.log_sym(b, "division", None);
                    }
                    // |a| op |b| with signs
                    let z = self.cx.konst(w, 0);
                    let sa = self.cx.extract(a, w - 1, 1);
                    let sb = self.cx.extract(b, w - 1, 1);
                    let na = self.cx.bin(B::Sub, z, a);
                    let nb = self.cx.bin(B::Sub, z, b);
                    let aa = self.cx.ite(sa, na, a);
                    let ab = self.cx.ite(sb, nb, b);
                    let (r, s) = if op == BinOp::SDiv {
                        let s = self.cx.xor(sa, sb);
                        (self.cx.bin(B::UDiv, aa, ab), s)
                    } else {
                        (self.cx.bin(B::URem, aa, ab), sa)
                    };
                    let n = self.cx.bin(B::Sub, z, r);
                    return Ok(self.cx.ite(s, n, r));
                }
            }
        };
        let w = self.cx.width(a);
        if w > 64 && !matches!(o, B::And | B::Or | B::Xor) {
            return self.wide(o, a, b);
        }
        if matches!(o, B::UDiv | B::URem) && self.trace_secrets && !self.cx.is_const(b) {
            self.log_sym(a, "division", None);
            self.log_sym(b, "division", None);
        }
        let r = self.cx.bin(o, a, b);
        let c = self.cx.core(r);
        let fix = matches!(o, B::Add | B::Sub | B::And | B::Or | B::Xor) && matches!(self.cx.node(c), Node::Ite(..));
        Ok(if o == B::URem || fix { self.cx.canon(r) } else { r })
    }
    fn wide(&mut self, o: B, a: T, b: T) -> X<T> {
        let w = self.cx.width(a);
        let (ca, cb) = (self.cx.cval(a), self.cx.cval(b));
        if ca.is_some() && cb.is_some() {
            return Ok(self.cx.bin(o, a, b));
        }
        match o {
            B::Shl | B::LShr | B::AShr if cb.is_some() => return Ok(self.cx.bin(o, a, b)),
            B::Add => {
                // disjoint or small values
                if self.cx.hi(a) + self.cx.hi(b).min(ones(100)) <= ones(63) && self.cx.hi(b) <= ones(63) {
                    let x = self.cx.fit(a, 64);
                    let y = self.cx.fit(b, 64);
                    let r = self.cx.bin(B::Add, x, y);
                    return Ok(self.cx.zext(r, w));
                }
                let pa = self.cx.pieces(a);
                let pb = self.cx.pieces(b);
                if pa.len() > 1 || pb.len() > 1 {
                    // try bit-disjointness
                    let x = self.cx.and(a, b);
                    if self.cx.cval(x) == Some(0) {
                        return Ok(self.cx.or(a, b));
                    }
                }
            }
            B::Sub | B::Mul | B::UDiv | B::URem => {
                let (ha, hb) = (self.cx.hi(a), self.cx.hi(b));
                if ha <= ones(64) && hb <= ones(64) {
                    let ok = match o {
                        B::Mul => ha.checked_mul(hb).map_or(false, |x| x <= ones(64)),
                        B::Sub => self.cx.lo(a) >= hb,
                        _ => true,
                    };
                    if ok {
                        let x = self.cx.fit(a, 64);
                        let y = self.cx.fit(b, 64);
                        let r = self.cx.bin(o, x, y);
                        return Ok(self.cx.zext(r, w));
                    }
                }
                if let (B::Mul, Some(c)) = (o, cb) {
                    if c.is_power_of_two() {
                        return Ok(self.cx.bin(o, a, b));
                    }
                }
            }
            _ => {}
        }
        uns(format!("wide {o:?} on {w} bits"))
    }
    fn icmp(&mut self, p: Pred, a: T, b: T) -> T {
        let cx = &mut self.cx;
        match p {
            Pred::Eq => cx.eq(a, b),
            Pred::Ne => cx.ne(a, b),
            Pred::Ult => cx.ult(a, b),
            Pred::Ule => cx.ule(a, b),
            Pred::Ugt => cx.ult(b, a),
            Pred::Uge => cx.ule(b, a),
            Pred::Slt => cx.slt(a, b),
            Pred::Sgt => cx.slt(b, a),
            Pred::Sle => {
                let r = cx.slt(b, a);
                cx.not(r)
            }
            Pred::Sge => {
                let r = cx.slt(a, b);
                cx.not(r)
            }
        }
    }
    fn cast1(&mut self, op: CastOp, v: &Val, from: &Ty, to: &Ty) -> X<Val> {
        if *v == Val::U {
            return Ok(Val::U);
        }
        Ok(match op {
            CastOp::ZExt => {
                let t = self.as_int(v)?;
                Val::I(self.cx.zext(t, to.bits()))
            }
            CastOp::SExt => {
                let t = self.as_int(v)?;
                Val::I(self.cx.sext(t, to.bits()))
            }
            CastOp::Trunc => {
                let t = self.as_int(v)?;
                Val::I(self.cx.extract(t, 0, to.bits()))
            }
            CastOp::PtrToInt => match v {
                Val::P(p) if to.bits() == 64 => Val::P(*p),
                _ => {
                    let t = self.as_int(v)?;
                    Val::I(self.cx.fit(t, to.bits()))
                }
            },
            CastOp::IntToPtr => Val::P(self.as_ptr(v)?),
            CastOp::BitCast => {
                if from == to {
                    v.clone()
                } else {
                    let o = self.alloc(from.size().max(to.size()), 16, "bitcast");
                    self.store_cells(o, 0, from, v)?;
                    let r = self.load_cells(o, 0, to)?;
                    self.free(o);
                    r
                }
            }
        })
    }
    fn inst(&mut self, fr: &mut Frame, i: &Inst) -> X<Val> {
        Ok(match i {
            Inst::Bin(op, ty, a, b) => {
                if let Ty::Vector(n, _) = ty {
                    let x = self.op(fr, ty, a)?;
                    let y = self.op(fr, ty, b)?;
                    let o = *op;
                    return self.vecop(&x, &y, *n as usize, |s, p, q| s.binop(o, p, q));
                }
                if let Ty::Int(w) = ty {
                    if *w > 128 {
                        return uns("integer wider than 128 bits");
                    }
                }
                // pointer arithmetic done on integers
                let va = self.op(fr, ty, a)?;
                let vb = self.op(fr, ty, b)?;
                if self.trace.is_some() && matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && !matches!(b, Op::C(_)) {
                    for v in [&va, &vb] {
                        if let Val::I(t) = v {
                            let x = self.cx.cval(*t).unwrap_or(0) as u64;
                            self.mark(crate::uf::mix(x));
                        }
                    }
                }
                if va == Val::U || vb == Val::U {
                    return Ok(Val::U);
                }
                match (&va, &vb) {
                    (Val::P(p), Val::P(q)) if *op == BinOp::Sub && p.obj == q.obj && p.sym.is_none() && q.sym.is_none() => {
                        return Ok(Val::I(self.cx.konst(64, p.off.wrapping_sub(q.off) as u128)));
                    }
                    (Val::P(p), Val::I(t)) if *op == BinOp::Add && p.obj != 0 => {
                        let q = self.padd(*p, *t, 1)?;
                        return Ok(Val::P(q));
                    }
                    (Val::P(p), Val::I(t)) if *op == BinOp::Sub && p.obj != 0 => {
                        let z = self.cx.konst(64, 0);
                        let n = self.cx.bin(B::Sub, z, *t);
                        let q = self.padd(*p, n, 1)?;
                        return Ok(Val::P(q));
                    }
                    _ => {}
                }
                let x = self.as_int(&va)?;
                let y = self.as_int(&vb)?;
                Val::I(self.binop(*op, x, y)?)
            }
            Inst::ICmp(p, ty, a, b) => {
                let x = self.op(fr, ty, a)?;
                let y = self.op(fr, ty, b)?;
                if let Ty::Vector(n, _) = ty {
                    let p = *p;
                    return self.vecop(&x, &y, *n as usize, |s, a, b| Ok(s.icmp(p, a, b)));
                }
                if x == Val::U || y == Val::U {
                    return Ok(Val::U);
                }
                if let (Val::P(a), Val::P(b)) = (&x, &y) {
                    if a.sym.is_none() && b.sym.is_none() && a.obj == b.obj {
                        let (u, v) = (self.cx.konst(64, a.off as u128), self.cx.konst(64, b.off as u128));
                        return Ok(Val::I(self.icmp(*p, u, v)));
                    }
                }
                let u = self.as_int(&x)?;
                let v = self.as_int(&y)?;
                Val::I(self.icmp(*p, u, v))
            }
            Inst::Cast(op, from, a, to) => {
                let v = self.op(fr, from, a)?;
                if let (Ty::Vector(n, fe), Ty::Vector(m, te)) = (from, to) {
                    if n == m && *op != CastOp::BitCast {
                        let x = match &v {
                            Val::A(x) => x.clone(),
                            _ => return Ok(Val::U),
                        };
                        let mut o = vec![];
                        for e in x.iter() {
                            o.push(self.cast1(*op, e, fe, te)?);
                        }
                        return Ok(Val::A(Rc::new(o)));
                    }
                }
                self.cast1(*op, &v, from, to)?
            }
            Inst::Select(c, ty, a, b, ct) => {
                let cv = self.op(fr, ct, c)?;
                let x = self.op(fr, ty, a)?;
                let y = self.op(fr, ty, b)?;
                if let (Ty::Vector(n, _), Val::A(cs)) = (ct, &cv) {
                    let cs = cs.clone();
                    let (x, y) = match (&x, &y) {
                        (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                        _ => return uns("vector select"),
                    };
                    let mut v = vec![];
                    for k in 0..*n as usize {
                        let c = self.as_int(&cs[k])?;
                        v.push(self.sel(c, &x[k], &y[k])?);
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                if cv == Val::U {
                    return uns("select on uninitialised value");
                }
                let c = self.as_int(&cv)?;
                self.sel(c, &x, &y)?
            }
            Inst::Alloca(t, n, al) => {
                let mut s = t.size();
                if let Some((ty, o)) = n {
                    let k = self.op(fr, ty, o)?;
                    s *= self.len(&k)?;
                }
                let o = self.alloc(s, (*al).max(t.align().min(8)).min((*al).max(1)), "stack");
                fr.allocas.push(o);
                self.p(o)
            }
            Inst::Load(t, p) => {
                let pv = self.op(fr, &Ty::Ptr, p)?;
                let p = self.as_ptr(&pv)?;
                self.load(p, t)?
            }
            Inst::Store(t, v, p) => {
                let v = self.op(fr, t, v)?;
                let pv = self.op(fr, &Ty::Ptr, p)?;
                let p = self.as_ptr(&pv)?;
                self.store(p, t, &v)?;
                Val::U
            }
            Inst::Gep(t, b, idx) => {
                let base = self.op(fr, &Ty::Ptr, b)?;
                if base == Val::U {
                    return Ok(Val::U);
                }
                let mut v = Vec::with_capacity(idx.len());
                for (ty, o) in idx {
                    let x = self.op(fr, ty, o)?;
                    v.push((ty.clone(), x));
                }
                self.gep(t, base, v)?
            }
            Inst::ExtractValue(t, a, ix) => {
                let mut v = self.op(fr, t, a)?;
                for &i in ix {
                    v = match &v {
                        Val::A(x) => x[i].clone(),
                        Val::U => Val::U,
                        _ => return uns("extractvalue"),
                    };
                }
                v
            }
            Inst::InsertValue(t, a, t2, b, ix) => {
                let v = self.op(fr, t, a)?;
                let x = self.op(fr, t2, b)?;
                insert(t, v, ix, x)?
            }
            Inst::ExtractElement(t, a, i) => {
                let v = self.op(fr, t, a)?;
                let i = self.op(fr, &Ty::Int(64), i)?;
                let k = self.len(&i)? as usize;
                match v {
                    Val::A(x) => x[k].clone(),
                    _ => Val::U,
                }
            }
            Inst::InsertElement(t, a, e, i) => {
                let v = self.op(fr, t, a)?;
                let x = self.op(fr, t.elem(0), e)?;
                let i = self.op(fr, &Ty::Int(64), i)?;
                let k = self.len(&i)? as usize;
                insert(t, v, &[k], x)?
            }
            Inst::Shuffle(t, a, b, m) => {
                let n = t.count();
                let x = self.op(fr, t, a)?;
                let y = self.op(fr, t, b)?;
                let g = |v: &Val, i: usize| match v {
                    Val::A(x) => x[i].clone(),
                    _ => Val::U,
                };
                let v = m
                    .iter()
                    .map(|i| match i {
                        None => Val::U,
                        Some(i) if *i < n => g(&x, *i),
                        Some(i) => g(&y, *i - n),
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            Inst::Freeze(t, a) => {
                let v = self.op(fr, t, a)?;
                if v == Val::U {
                    if let Ty::Int(w) = t {
                        let s = [0; NS];
                        return Ok(Val::I(self.cx.var(*w, "freeze", s)));
                    }
                }
                v
            }
            Inst::Fence => Val::U,
            Inst::Unsupported(s) => return uns(format!("instruction {s}")),
            _ => return uns("instruction"),
        })
    }
    fn sel(&mut self, c: T, x: &Val, y: &Val) -> X<Val> {
        if let Some(v) = self.known(c) {
            return Ok(if v { x.clone() } else { y.clone() });
        }
        if let (Val::P(_), Val::P(_)) = (x, y) {
            if x != y {
                // decide
                let d = self.decide(c)?;
                if let (None, true) = (d, self.trace_secrets) {
                    self.log_sym(c, "pointer-select", None);
                }
                if let Some(v) = d {
                    return Ok(if v { x.clone() } else { y.clone() });
                }
            }
        }
        // selects on public sampling decisions are treated like branches
        if self.pc.is_empty() && self.cx.only_xof(c) {
            if let Some(v) = self.decide(c)? {
                return Ok(if v { x.clone() } else { y.clone() });
            }
        }
        self.merge(c, x, y)
    }

    // ------------------------------------------------------------ calls
    fn classify(&self, n: &str) -> Icpt {
        for (i, (pat, _)) in self.custom.iter().enumerate() {
            if matches_pat(n, pat) {
                return Icpt::Custom(i as u32);
            }
        }
        let has = |s: &str| n.contains(s);
        if has("6keccak5f1600") || has("6keccak5p1600") || has("6keccak8keccak_py") {
            return Icpt::Keccak;
        }
        if n == "memcmp" {
            return Icpt::Memcmp;
        }
        if n == "bcmp" {
            return Icpt::Bcmp;
        }
        if n.starts_with("llvm.") {
            return Icpt::None;
        }
        if self.m.funcs.contains_key(n) {
            return Icpt::None;
        }
        if has("panicking") || has("unwrap_failed") || has("expect_failed") || has("slice_index_fail") || has("mismatch_fail") || has("_fail") || has("panic") {
            return Icpt::Panic;
        }
        Icpt::Undefined
    }
    fn do_call(&mut self, fr: &Frame, c: &CallInst) -> X<Val> {
        // resolve callee
        let holder;
        let name: &str = match &c.callee {
            Op::C(Const::Global(g)) => g,
            o => {
                let v = self.op(fr, &Ty::Ptr, o)?;
                let p = self.as_ptr(&v)?;
                match self.mem[p.obj as usize].func.clone() {
                    Some(n) if p.sym.is_none() => {
                        holder = n;
                        &holder
                    }
                    _ => return uns("indirect call to unknown target"),
                }
            }
        };
        if name.starts_with("llvm.") {
            return self.intrinsic(fr, name, c);
        }
        let mut args = Vec::with_capacity(c.args.len());
        for (t, o) in &c.args {
            args.push(self.op(fr, t, o)?);
        }
        let k = match self.icpt.get(name) {
            Some(k) => *k,
            None => {
                let k = self.classify(name);
                self.icpt.insert(name.to_string(), k);
                k
            }
        };
        match k {
            Icpt::None => {
                let f = self.m.funcs.get(name).unwrap().clone();
                self.call(f, args)
            }
            Icpt::Custom(i) => {
                *self.funcs_run.entry(format!("[uninterpreted] {name}")).or_insert(0) += 1;
                let g = self.custom[i as usize].1;
                let n = name.to_string();
                g(self, &n, &args, &c.ret)
            }
            Icpt::Keccak => {
                *self.funcs_run.entry(format!("[uninterpreted] {name}")).or_insert(0) += 1;
                let p = self.as_ptr(&args[0])?;
                if args.len() > 1 {
                    let r = self.as_int(&args[1])?;
                    if self.cx.cval(r) != Some(24) {
                        return uns("keccak-p with a number of rounds other than 24");
                    }
                }
                let mut lanes = vec![];
                for i in 0..25 {
                    let v = self.load(Ptr { off: p.off + 8 * i, ..p }, &Ty::Int(64))?;
                    lanes.push(self.as_int(&v)?);
                }
                let out = self.cx.keccak(&lanes);
                for (i, t) in out.into_iter().enumerate() {
                    self.store(Ptr { off: p.off + 8 * i as u64, ..p }, &Ty::Int(64), &Val::I(t))?;
                }
                Ok(Val::U)
            }
            Icpt::Panic => {
                let msg = format!("panic: {}", demangle_hint(name));
                let s = if self.cx.active != 0 { Some(self.cx.active.trailing_zeros() as usize) } else { None };
                self.find("panic", msg.clone(), s, vec![], false);
                Err(Stop::Panic(msg))
            }
            Icpt::Memcmp | Icpt::Bcmp => {
                let a = self.as_ptr(&args[0])?;
                let b = self.as_ptr(&args[1])?;
                let n = self.len(&args[2])?;
                let mut xs = vec![];
                let mut ys = vec![];
                for i in 0..n {
                    let x = self.load(Ptr { off: a.off + i, ..a }, &Ty::Int(8))?;
                    xs.push(self.as_int(&x)?);
                    let y = self.load(Ptr { off: b.off + i, ..b }, &Ty::Int(8))?;
                    ys.push(self.as_int(&y)?);
                }
                let one = self.cx.konst(32, 1);
                let zero = self.cx.konst(32, 0);
                let m1 = self.cx.konst(32, ones(32));
                if k == Icpt::Bcmp || xs.iter().zip(&ys).all(|(x, y)| x == y) {
                    let mut e = self.cx.tt();
                    for (x, y) in xs.iter().zip(&ys) {
                        let c = self.cx.eq(*x, *y);
                        e = self.cx.and(e, c);
                    }
                    if self.trace_secrets {
                        self.log_sym(e, "memcmp", None);
                    }
                    if self.trace.is_some() {
                        let x = self.cx.cval(e).unwrap_or(2) as u64;
                        self.mark(0xc3 ^ x << 8);
                    }
                    return Ok(Val::I(self.cx.ite(e, zero, one)));
                }
                let mut e = self.cx.tt();
                let mut lt = self.cx.ff();
                for (x, y) in xs.iter().zip(&ys).rev() {
                    let c = self.cx.eq(*x, *y);
                    e = self.cx.and(e, c);
                    let l = self.cx.ult(*x, *y);
                    lt = self.cx.ite(c, lt, l);
                }
                if self.trace_secrets {
                    self.log_sym(e, "memcmp", None);
                }
                let r = self.cx.ite(lt, m1, one);
                Ok(Val::I(self.cx.ite(e, zero, r)))
            }
            Icpt::Ignore => Ok(Val::U),
            Icpt::MulClamped | Icpt::MulBaseClamped | Icpt::Undefined => uns(format!("call to {}", demangle_hint(name))),
        }
    }
    fn intrinsic(&mut self, fr: &Frame, name: &str, c: &CallInst) -> X<Val> {
        let n = &name[5..];
        if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("dbg") || n.starts_with("experimental.noalias") || n.starts_with("prefetch") {
            return Ok(Val::U);
        }
        let mut a = Vec::with_capacity(c.args.len());
        for (t, o) in &c.args {
            a.push(self.op(fr, t, o)?);
        }
        if n.starts_with("expect") {
            return Ok(a[0].clone());
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let l = self.len(&a[2])?;
            if l == 0 {
                return Ok(Val::U);
            }
            let d = self.as_ptr(&a[0])?;
            let s = self.as_ptr(&a[1])?;
            self.memcpy(d, s, l)?;
            return Ok(Val::U);
        }
        if n.starts_with("memset") {
            let l = self.len(&a[2])?;
            if l == 0 {
                return Ok(Val::U);
            }
            let d = self.as_ptr(&a[0])?;
            let (o, off) = self.access(d, l, true)?;
            let cell = match &a[1] {
                Val::I(t) => Cell::B(*t, 0),
                _ => Cell::Un,
            };
            for i in 0..l {
                self.write(o, off + i, cell);
            }
            return Ok(Val::U);
        }
        if n == "trap" || n.starts_with("ubsantrap") {
            self.find("panic", "trap".into(), Some(self.cx.active.trailing_zeros() as usize), vec![], false);
            return Err(Stop::Panic("trap".into()));
        }
        if n.starts_with("vector.reduce") {
            let xs = match &a[0] {
                Val::A(x) => x.clone(),
                _ => return uns("reduce"),
            };
            let op = n.split('.').nth(2).unwrap_or("");
            let mut acc = self.as_int(&xs[0])?;
            for x in xs.iter().skip(1) {
                let y = self.as_int(x)?;
                acc = match op {
                    "add" => self.cx.bin(B::Add, acc, y),
                    "mul" => self.cx.bin(B::Mul, acc, y),
                    "and" => self.cx.and(acc, y),
                    "or" => self.cx.or(acc, y),
                    "xor" => self.cx.xor(acc, y),
                    "umin" | "umax" => {
                        let l = self.cx.ult(acc, y);
                        if op == "umin" {
                            self.cx.ite(l, acc, y)
                        } else {
                            self.cx.ite(l, y, acc)
                        }
                    }
                    _ => return uns(format!("reduce {op}")),
                };
            }
            return Ok(Val::I(acc));
        }
        // element-wise on vectors
        if let Ty::Vector(k, et) = &c.ret {
            let mut out = vec![];
            for i in 0..*k as usize {
                let mut ai = vec![];
                for v in &a {
                    ai.push(match v {
                        Val::A(x) => self.as_int(&x[i])?,
                        v => self.as_int(v)?,
                    });
                }
                out.push(self.scalar_intrinsic(n, &ai, et)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let mut ai = vec![];
        for v in &a {
            if *v == Val::U {
                return Ok(Val::U);
            }
            ai.push(self.as_int(v)?);
        }
        self.scalar_intrinsic(n, &ai, &c.ret)
    }
    fn scalar_intrinsic(&mut self, n: &str, a: &[T], ret: &Ty) -> X<Val> {
        let w = a.first().map(|&t| self.cx.width(t)).unwrap_or(0);
        let cx = &mut self.cx;
        let ov = |r: T, o: T| Ok(Val::A(Rc::new(vec![Val::I(r), Val::I(o)])));
        if n.contains("with.overflow") {
            let op = n.split('.').next().unwrap();
            match op {
                "uadd" => {
                    let r = if w > 64 { self.wide(B::Add, a[0], a[1])? } else { cx.bin(B::Add, a[0], a[1]) };
                    let cx = &mut self.cx;
                    let o = if cx.hi(a[0]).checked_add(cx.hi(a[1])).map_or(false, |s| s <= ones(w)) { cx.ff() } else { cx.ult(r, a[0]) };
                    return ov(r, o);
                }
                "usub" => {
                    let r = if w > 64 { self.wide(B::Sub, a[0], a[1])? } else { cx.bin(B::Sub, a[0], a[1]) };
                    let o = self.cx.ult(a[0], a[1]);
                    return ov(r, o);
                }
                "umul" => {
                    if w > 64 {
                        let (ha, hb) = (cx.hi(a[0]), cx.hi(a[1]));
                        if ha.checked_mul(hb).is_none() {
                            return uns("wide multiplication");
                        }
                        let r = self.wide(B::Mul, a[0], a[1])?;
                        let o = self.cx.ff();
                        return ov(r, o);
                    }
                    let r = cx.bin(B::Mul, a[0], a[1]);
                    let o = if cx.hi(a[0]).checked_mul(cx.hi(a[1])).map_or(false, |s| s <= ones(w)) {
                        cx.ff()
                    } else if w <= 32 {
                        let x = cx.zext(a[0], 2 * w);
                        let y = cx.zext(a[1], 2 * w);
                        let p = cx.bin(B::Mul, x, y);
                        let h = cx.extract(p, w, w);
                        let z = cx.konst(w, 0);
                        cx.ne(h, z)
                    } else if let Some(k) = cx.cval(a[1]) {
                        if k == 0 {
                            cx.ff()
                        } else {
                            let m = cx.konst(w, ones(w) / k);
                            cx.ult(m, a[0])
                        }
                    } else {
                        return uns("64-bit umul.with.overflow");
                    };
                    return ov(r, o);
                }
                "sadd" | "ssub" => {
                    let o = if op == "sadd" { B::Add } else { B::Sub };
                    let x = cx.sext(a[0], w + 1);
                    let y = cx.sext(a[1], w + 1);
                    if w + 1 > 64 {
                        if cx.is_const(a[0]) && cx.is_const(a[1]) {
                            let r = cx.bin(o, a[0], a[1]);
                            let s = cx.bin(o, x, y);
                            let rs = cx.sext(r, w + 1);
                            let f = cx.ne(rs, s);
                            return ov(r, f);
                        }
                        return uns("64-bit signed overflow check");
                    }
                    let s = cx.bin(o, x, y);
                    let r = cx.extract(s, 0, w);
                    let rs = cx.sext(r, w + 1);
                    let f = cx.ne(rs, s);
                    return ov(r, f);
                }
                "smul" if w <= 32 => {
                    let x = cx.sext(a[0], 2 * w);
                    let y = cx.sext(a[1], 2 * w);
                    let s = cx.bin(B::Mul, x, y);
                    let r = cx.extract(s, 0, w);
                    let rs = cx.sext(r, 2 * w);
                    let f = cx.ne(rs, s);
                    return ov(r, f);
                }
                _ => return uns(format!("intrinsic {n}")),
            }
        }
        let base = n.rsplit_once('.').map(|x| x.0).unwrap_or(n);
        let r = match base {
            "uadd.sat" => {
                let r = cx.bin(B::Add, a[0], a[1]);
                if cx.hi(a[0]) + cx.hi(a[1]) <= ones(w) {
                    r
                } else {
                    let o = cx.ult(r, a[0]);
                    let m = cx.konst(w, ones(w));
                    cx.ite(o, m, r)
                }
            }
            "usub.sat" => {
                let o = cx.ult(a[0], a[1]);
                let r = cx.bin(B::Sub, a[0], a[1]);
                let z = cx.konst(w, 0);
                cx.ite(o, z, r)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let l = if base.starts_with('u') { cx.ult(a[0], a[1]) } else { cx.slt(a[0], a[1]) };
                if base.ends_with("min") {
                    cx.ite(l, a[0], a[1])
                } else {
                    cx.ite(l, a[1], a[0])
                }
            }
            "abs" => {
                let z = cx.konst(w, 0);
                let s = cx.extract(a[0], w - 1, 1);
                let m = cx.bin(B::Sub, z, a[0]);
                cx.ite(s, m, a[0])
            }
            "ctpop" => cx.ctpop(a[0]),
            "bswap" => {
                let n = w / 8;
                let ps: Vec<T> = (0..n).rev().map(|i| cx.extract(a[0], 8 * i, 8)).collect();
                cx.concat(&ps)
            }
            "bitreverse" => {
                let ps: Vec<T> = (0..w).rev().map(|i| cx.extract(a[0], i, 1)).collect();
                cx.concat(&ps)
            }
            "fshl" | "fshr" => {
                let k = match cx.cval(a[2]) {
                    Some(k) => (k % w as u128) as u32,
                    None => return uns("symbolic funnel shift"),
                };
                // concatenation a0:a1
                if base == "fshl" {
                    if k == 0 {
                        a[0]
                    } else {
                        let hi = cx.extract(a[0], 0, w - k);
                        let lo = cx.extract(a[1], w - k, k);
                        cx.concat(&[lo, hi])
                    }
                } else if k == 0 {
                    a[1]
                } else {
                    let lo = cx.extract(a[1], k, w - k);
                    let hi = cx.extract(a[0], 0, k);
                    cx.concat(&[lo, hi])
                }
            }
            "ctlz" | "cttz" => {
                let mut acc = cx.konst(w, w as u128);
                let order: Vec<u32> = if base == "ctlz" { (0..w).collect() } else { (0..w).rev().collect() };
                for i in order {
                    let b = cx.extract(a[0], i, 1);
                    let k = cx.konst(w, if base == "ctlz" { (w - 1 - i) as u128 } else { i as u128 });
                    acc = cx.ite(b, k, acc);
                }
                acc
            }
            _ if n.starts_with("ucmp") || n.starts_with("scmp") => {
                let l = if n.starts_with('u') { cx.ult(a[0], a[1]) } else { cx.slt(a[0], a[1]) };
                let e = cx.eq(a[0], a[1]);
                let rw = ret.bits();
                let one = cx.konst(rw, 1);
                let m = cx.konst(rw, ones(rw));
                let z = cx.konst(rw, 0);
                let g = cx.ite(l, m, one);
                cx.ite(e, z, g)
            }
            _ => return uns(format!("intrinsic {n}")),
        };
        let r = if w <= 64 { self.cx.canon(r) } else { r };
        Ok(Val::I(r))
    }
}

pub const MERGED: usize = usize::MAX - 1;

enum Forked {
    Ret(Val),
    At(usize),
    #[allow(dead_code)]
    OneStop(usize, usize),
    OuterStop(usize),
}

pub fn matches_pat(n: &str, pat: &str) -> bool {
    // '*'-separated substrings in order
    let mut s = n;
    for p in pat.split('*') {
        match s.find(p) {
            Some(i) => s = &s[i + p.len()..],
            None => return false,
        }
    }
    true
}

fn insert(t: &Ty, v: Val, ix: &[usize], x: Val) -> X<Val> {
    if ix.is_empty() {
        return Ok(x);
    }
    let mut vs = match v {
        Val::A(v) => (*v).clone(),
        _ => vec![Val::U; t.count()],
    };
    let sub = vs[ix[0]].clone();
    vs[ix[0]] = insert(t.elem(ix[0]), sub, &ix[1..], x)?;
    Ok(Val::A(Rc::new(vs)))
}

//! Parser for the textual LLVM IR that rustc/llvm-dis produce.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    Null,
    Undef,
    Zero,
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(Box<Ty>, Box<Const>, Vec<(Ty, Const)>),
    Cast(String, Box<(Ty, Const)>, Ty),
    Bin(String, Box<(Ty, Const)>, Box<(Ty, Const)>),
}

#[derive(Clone, Debug)]
pub enum Op {
    L(usize),
    C(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Cast(CastOp, Ty, Op, Ty),
    Select(Op, Ty, Op, Op, Ty),
    Alloca(Ty, Option<(Ty, Op)>, u64),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Phi(Ty, Vec<(Op, usize)>),
    Call(Box<CallInst>),
    ExtractValue(Ty, Op, Vec<usize>),
    InsertValue(Ty, Op, Ty, Op, Vec<usize>),
    ExtractElement(Ty, Op, Op),
    InsertElement(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<Option<usize>>),
    Freeze(Ty, Op),
    Fence,
    Unsupported(String),
    // terminators
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(Ty, Op, usize, Vec<(u128, usize)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct CallInst {
    pub callee: Op,
    pub ret: Ty,
    pub args: Vec<(Ty, Op)>,
    /// for invoke: normal destination
    pub normal: Option<usize>,
    /// result range attribute (lo, hi) on the call, if present: not used as an assumption
    pub asm: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    PtrToInt,
    IntToPtr,
    BitCast,
}

pub struct Block {
    pub insts: Vec<(Option<usize>, Inst)>,
    pub name: String,
    /// the block only leads to a panic / unreachable
    pub is_panic: bool,
    pub succ: Vec<usize>,
}

pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, usize)>,
    pub byval: Vec<Option<Ty>>,
    pub nslots: usize,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<usize>>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}

#[derive(Default)]
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub funcs: HashMap<String, std::rc::Rc<Func>>,
    pub globals: HashMap<String, Global>,
    pub declares: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Glob(String),
    Word(String),
    Num(String), // integer literal (possibly negative) or float text
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    P(char),
    Nl,
    Dots,
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    fn idch(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn string(b: &[u8], i: &mut usize) -> Vec<u8> {
        // b[*i] == '"'
        *i += 1;
        let mut v = Vec::new();
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    i += 1;
                    name = String::from_utf8_lossy(&string(b, &mut i)).to_string();
                } else {
                    let st = i + 1;
                    i += 1;
                    while i < b.len() && idch(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let st = i;
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    string(b, &mut i);
                } else {
                    while i < b.len() && idch(b[i]) {
                        i += 1;
                    }
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'"' => {
                let v = string(b, &mut i);
                out.push(Tok::Str(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = string(b, &mut i);
                out.push(Tok::CStr(v));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            b'.' if b[i..].starts_with(b"...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && idch(b[i]) {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ps<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
    slots: HashMap<String, usize>,
    blocks: HashMap<String, usize>,
}

type R<T> = Result<T, String>;

impl<'a> Ps<'a> {
    fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Nl)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Nl);
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c}, got {:?}", self.peek()))
        }
    }
    fn skip_nl(&mut self) {
        while matches!(self.peek(), Tok::Nl) {
            self.i += 1;
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    /// skip parameter / function attributes
    fn skip_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Word(w) => {
                    if self.looks_type(&w) || is_value_word(&w) {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if self.is_p('(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.is_p('=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
    fn looks_type(&self, w: &str) -> bool {
        w == "void"
            || w == "ptr"
            || w == "label"
            || w == "metadata"
            || w == "float"
            || w == "double"
            || w == "opaque"
            || w == "token"
            || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn ty(&mut self) -> R<Ty> {
        let base = match self.next() {
            Tok::Word(w) => {
                if w == "void" {
                    Ty::Void
                } else if w == "ptr" {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                } else if w == "label" || w == "metadata" || w == "float" || w == "double" || w == "opaque" || w == "token" {
                    Ty::Other
                } else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    return Err(format!("type? {w}"));
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or_else(|| format!("unknown type {n}"))?,
            Tok::P('[') => {
                let n = self.num()? as u64;
                self.eat_w("x");
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Array(n, Box::new(t))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    v.push(self.ty()?);
                    self.eat_p(',');
                }
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.eat_p('}') {
                        v.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.exp('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()? as u64;
                    self.eat_w("x");
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            t => return Err(format!("type tok {t:?}")),
        };
        // function type in call: "void (i8, ...)"
        Ok(base)
    }
    fn num(&mut self) -> R<i128> {
        match self.next() {
            Tok::Num(n) => n.parse().map_err(|_| format!("num {n}")),
            t => Err(format!("num? {t:?}")),
        }
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            let k = self.slots.len();
            return Ok(Op::L(*self.slots.entry(n).or_insert(k)));
        }
        Ok(Op::C(self.cst(ty)?))
    }
    fn tcst(&mut self) -> R<(Ty, Const)> {
        let t = self.ty()?;
        self.skip_attrs();
        let c = self.cst(&t)?;
        Ok((t, c))
    }
    fn cst(&mut self, ty: &Ty) -> R<Const> {
        let w = match ty {
            Ty::Int(w) => *w,
            _ => 64,
        };
        Ok(match self.next() {
            Tok::Num(n) => {
                if let Ok(v) = n.parse::<i128>() {
                    Const::Int(w, mask(v as u128, w))
                } else if let Ok(v) = n.parse::<u128>() {
                    Const::Int(w, mask(v, w))
                } else {
                    return Err(format!("const {n}"));
                }
            }
            Tok::Word(s) => match s.as_str() {
                "true" => Const::Int(1, 1),
                "false" => Const::Int(1, 0),
                "null" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.exp('(')?;
                    let e = self.tcst()?;
                    self.exp(')')?;
                    let n = ty.count();
                    Const::Agg(vec![e; n])
                }
                "getelementptr" => {
                    while let Tok::Word(w) = self.peek().clone() {
                        if self.looks_type(&w) {
                            break;
                        }
                        self.i += 1;
                        if self.is_p('(') && (w == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    self.exp(',')?;
                    let (_, base) = self.tcst()?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        idx.push(self.tcst()?);
                    }
                    self.exp(')')?;
                    Const::Gep(Box::new(t), Box::new(base), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                    self.exp('(')?;
                    let a = self.tcst()?;
                    if !self.eat_w("to") {
                        return Err("cast to".into());
                    }
                    let t = self.ty()?;
                    self.exp(')')?;
                    Const::Cast(s, Box::new(a), t)
                }
                "add" | "sub" | "xor" => {
                    while let Tok::Word(_) = self.peek() {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let a = self.tcst()?;
                    self.exp(',')?;
                    let b = self.tcst()?;
                    self.exp(')')?;
                    Const::Bin(s, Box::new(a), Box::new(b))
                }
                _ => return Err(format!("const word {s}")),
            },
            Tok::Glob(g) => Const::Global(g),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat_p(']') {
                    v.push(self.tcst()?);
                    self.eat_p(',');
                }
                Const::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    v.push(self.tcst()?);
                    self.eat_p(',');
                }
                Const::Agg(v)
            }
            Tok::P('<') => {
                let br = self.eat_p('{');
                let mut v = vec![];
                loop {
                    if br && self.eat_p('}') {
                        self.exp('>')?;
                        break;
                    }
                    if !br && self.eat_p('>') {
                        break;
                    }
                    v.push(self.tcst()?);
                    self.eat_p(',');
                }
                Const::Agg(v)
            }
            t => return Err(format!("const tok {t:?}")),
        })
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs();
        if t == Ty::Other {
            // metadata / float arguments
            self.i += 1;
            return Ok((t, Op::C(Const::Undef)));
        }
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<usize> {
        if self.eat_w("label") {
            if let Tok::Local(n) = self.next() {
                let k = self.blocks.len();
                return Ok(*self.blocks.entry(n).or_insert(k));
            }
        }
        Err("label".into())
    }
    fn flags(&mut self) {
        while let Tok::Word(w) = self.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" => {
                    self.i += 1;
                }
                _ => break,
            }
        }
    }
    fn call(&mut self, invoke: bool) -> R<Inst> {
        // after 'call'
        self.skip_attrs();
        // calling convention words are consumed by skip_attrs ("fastcc", "coldcc")
        let ret = self.ty()?;
        if self.is_p('(') {
            self.skip_parens(); // full function type
        }
        if self.is_w("asm") {
            return Ok(Inst::Unsupported("inline asm".into()));
        }
        let callee = self.op(&Ty::Ptr)?;
        self.exp('(')?;
        let mut args = vec![];
        while !self.eat_p(')') {
            args.push(self.tyop()?);
            self.eat_p(',');
        }
        let mut normal = None;
        if invoke {
            // skip attrs / newlines until 'to label'
            while !self.is_w("to") {
                self.i += 1;
            }
            self.i += 1;
            normal = Some(self.label()?);
            while !self.is_w("unwind") {
                self.i += 1;
            }
            self.i += 1;
            self.label()?;
        }
        Ok(Inst::Call(Box::new(CallInst { callee, ret, args, normal, asm: false })))
    }
    fn inst(&mut self) -> R<Inst> {
        let w = match self.next() {
            Tok::Word(w) => w,
            t => return Err(format!("inst tok {t:?}")),
        };
        let bin = match w.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags();
            let t = self.ty()?;
            let a = self.op(&t)?;
            self.exp(',')?;
            let c = self.op(&t)?;
            return Ok(Inst::Bin(b, t, a, c));
        }
        let cast = match w.as_str() {
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "trunc" => Some(CastOp::Trunc),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" => Some(CastOp::BitCast),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags();
            let (t, a) = self.tyop()?;
            if !self.eat_w("to") {
                return Err("cast".into());
            }
            let t2 = self.ty()?;
            return Ok(Inst::Cast(c, t, a, t2));
        }
        Ok(match w.as_str() {
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Word(p) => match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err(format!("pred {p}")),
                    },
                    _ => return Err("pred".into()),
                };
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.exp(',')?;
                let b = self.op(&t)?;
                Inst::ICmp(p, t, a, b)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyop()?;
                self.exp(',')?;
                let (t, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                Inst::Select(c, t, a, b, ct)
            }
            "alloca" => {
                self.flags();
                let t = self.ty()?;
                let mut n = None;
                let mut al = 1;
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.num()? as u64;
                    } else if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        n = Some(self.tyop()?);
                    }
                }
                Inst::Alloca(t, n, al)
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                Inst::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tyop()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                let mut idx = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    }
                    idx.push(self.tyop()?);
                }
                Inst::Gep(t, p, idx)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp('[')?;
                    let o = self.op(&t)?;
                    self.exp(',')?;
                    let l = match self.next() {
                        Tok::Local(n) => {
                            let k = self.blocks.len();
                            *self.blocks.entry(n).or_insert(k)
                        }
                        _ => return Err("phi".into()),
                    };
                    self.exp(']')?;
                    v.push((o, l));
                    if !self.eat_p(',') || !self.is_p('[') {
                        break;
                    }
                }
                Inst::Phi(t, v)
            }
            "tail" | "musttail" | "notail" => {
                if !self.eat_w("call") {
                    return Err("tail".into());
                }
                self.flags();
                self.call(false)?
            }
            "call" => {
                self.flags();
                self.call(false)?
            }
            "invoke" => self.call(true)?,
            "extractvalue" => {
                let (t, a) = self.tyop()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if let Tok::Num(_) = self.peek() {
                        ix.push(self.num()? as usize);
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyop()?;
                self.exp(',')?;
                let (t2, b) = self.tyop()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if let Tok::Num(_) = self.peek() {
                        ix.push(self.num()? as usize);
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(t, a, t2, b, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                Inst::ExtractElement(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyop()?;
                self.exp(',')?;
                let (_, e) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                Inst::InsertElement(t, a, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                self.exp(',')?;
                let (mt, m) = self.tyop()?;
                let n = mt.count();
                let v = match m {
                    Op::C(Const::Zero) => vec![Some(0); n],
                    Op::C(Const::Undef) => vec![None; n],
                    Op::C(Const::Agg(es)) => es
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(_, v) => Some(*v as usize),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Inst::Shuffle(t, a, b, v)
            }
            "freeze" => {
                let (t, a) = self.tyop()?;
                Inst::Freeze(t, a)
            }
            "fence" => Inst::Fence,
            "br" => {
                if self.is_w("label") {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.tyop()?;
                    self.exp(',')?;
                    let a = self.label()?;
                    self.exp(',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop()?;
                self.exp(',')?;
                let d = self.label()?;
                self.exp('[')?;
                let mut cs = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(']') {
                        break;
                    }
                    let (_, c) = self.tcst()?;
                    self.exp(',')?;
                    let l = self.label()?;
                    if let Const::Int(_, v) = c {
                        cs.push((v, l));
                    }
                }
                Inst::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.eat_w("void") {
                    Inst::Ret(None)
                } else {
                    let x = self.tyop()?;
                    Inst::Ret(Some(x))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" | "landingpad" | "cleanup" | "cleanupret" => Inst::Unsupported(w),
            _ => Inst::Unsupported(w),
        })
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "asm" | "bitcast" | "trunc" | "zext"
    ) 
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

fn is_term(i: &Inst) -> bool {
    matches!(i, Inst::Br(_) | Inst::CondBr(..) | Inst::Switch(..) | Inst::Ret(_) | Inst::Unreachable)
        || matches!(i, Inst::Call(c) if c.normal.is_some())
}

impl Module {
    pub fn parse(src: &str) -> R<Module> {
        let mut m = Module::default();
        // types may be used before definition: collect lines first
        let mut type_lines: HashMap<String, Vec<Tok>> = HashMap::new();
        let mut order = vec![];
        let mut lines = src.split_inclusive('\n').peekable();
        let mut defs: Vec<String> = vec![];
        let mut globs: Vec<&str> = vec![];
        let mut decls: Vec<&str> = vec![];
        while let Some(l) = lines.next() {
            if l.starts_with('%') {
                let t = lex(l);
                if let Tok::Local(n) = &t[0] {
                    order.push(n.clone());
                    type_lines.insert(n.clone(), t);
                }
            } else if l.starts_with('@') {
                globs.push(l);
            } else if l.starts_with("declare") {
                decls.push(l);
            } else if l.starts_with("define") {
                let mut s = l.to_string();
                for l in lines.by_ref() {
                    s.push_str(l);
                    if l.starts_with('}') {
                        break;
                    }
                }
                defs.push(s);
            }
        }
        // resolve types recursively
        fn resolve(n: &str, tl: &HashMap<String, Vec<Tok>>, types: &mut HashMap<String, Ty>) -> R<()> {
            if types.contains_key(n) {
                return Ok(());
            }
            let t = tl.get(n).ok_or("type")?;
            for x in &t[1..] {
                if let Tok::Local(d) = x {
                    resolve(d, tl, types)?;
                }
            }
            let ty = {
                let mut p = Ps { t, i: 3, types, slots: HashMap::new(), blocks: HashMap::new() };
                p.ty()?
            };
            types.insert(n.to_string(), ty);
            Ok(())
        }
        for n in &order {
            resolve(n, &type_lines, &mut m.types)?;
        }
        for l in globs {
            let t = lex(l);
            let name = match &t[0] {
                Tok::Glob(g) => g.clone(),
                _ => return Err("glob".into()),
            };
            let mut p = Ps { t: &t, i: 2, types: &m.types, slots: HashMap::new(), blocks: HashMap::new() };
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.peek().clone() {
                    Tok::Word(w) => {
                        if w == "constant" {
                            constant = true;
                            p.i += 1;
                            break;
                        }
                        if w == "global" {
                            p.i += 1;
                            break;
                        }
                        if w == "alias" {
                            alias = true;
                            p.i += 1;
                            break;
                        }
                        if w == "external" || w == "extern_weak" {
                            external = true;
                        }
                        p.i += 1;
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                    t => return Err(format!("global {name}: {t:?}")),
                }
            }
            if alias {
                // ty, ptr @target
                for x in &t[p.i..] {
                    if let Tok::Glob(g) = x {
                        m.aliases.insert(name.clone(), g.clone());
                    }
                }
                continue;
            }
            let ty = p.ty()?;
            let init = if external { None } else { Some(p.cst(&ty).map_err(|e| format!("global {name}: {e}"))?) };
            let mut align = ty.align();
            while p.eat_p(',') {
                if p.eat_w("align") {
                    align = p.num()? as u64;
                } else {
                    break;
                }
            }
            m.globals.insert(name.clone(), Global { name, ty, init, align, constant });
        }
        for l in decls {
            let t = lex(l);
            for x in &t {
                if let Tok::Glob(g) = x {
                    m.declares.insert(g.clone(), Ty::Void);
                    break;
                }
            }
        }
        for d in defs {
            let f = parse_func(&d, &m.types).map_err(|e| format!("{}: {e}", d.lines().next().unwrap().chars().take(200).collect::<String>()))?;
            m.funcs.insert(f.name.clone(), std::rc::Rc::new(f));
        }
        // alias resolution to functions
        for (a, t) in m.aliases.clone() {
            if let Some(f) = m.funcs.get(&t).cloned() {
                m.funcs.insert(a, f);
            }
        }
        Ok(m)
    }
}

fn parse_func(src: &str, types: &HashMap<String, Ty>) -> R<Func> {
    let t = lex(src);
    let mut p = Ps { t: &t, i: 1, types, slots: HashMap::new(), blocks: HashMap::new() };
    p.skip_attrs();
    let ret = p.ty()?;
    let name = match p.next() {
        Tok::Glob(g) => g,
        t => return Err(format!("func name {t:?}")),
    };
    p.exp('(')?;
    let mut params = vec![];
    let mut byval = vec![];
    while !p.eat_p(')') {
        if let Tok::Dots = p.peek() {
            p.i += 1;
            continue;
        }
        let ty = p.ty()?;
        // byval detection
        let mut bv = None;
        let save = p.i;
        let mut j = p.i;
        while let Some(Tok::Word(w)) = p.t.get(j) {
            if w == "byval" {
                p.i = j + 2;
                bv = Some(p.ty()?);
            }
            j += 1;
            if let Some(Tok::P('(')) = p.t.get(j) {
                let s2 = p.i;
                p.i = j;
                p.skip_parens();
                j = p.i;
                p.i = s2;
            } else if w == "align" {
                j += 1;
            }
        }
        p.i = save;
        p.skip_attrs();
        let slot = match p.peek().clone() {
            Tok::Local(n) => {
                p.i += 1;
                let k = p.slots.len();
                *p.slots.entry(n).or_insert(k)
            }
            _ => {
                let k = p.slots.len();
                p.slots.insert(format!("{k}"), k);
                k
            }
        };
        params.push((ty, slot));
        byval.push(bv);
        p.eat_p(',');
    }
    // rest of the header line
    while !p.is_p('{') {
        p.i += 1;
    }
    p.i += 1;
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<usize> = None;
    let mut unnamed_entry = false;
    loop {
        p.skip_nl();
        if p.eat_p('}') {
            break;
        }
        // label?
        let is_label = matches!(p.t.get(p.i + 1), Some(Tok::P(':'))) && matches!(p.peek(), Tok::Word(_) | Tok::Num(_) | Tok::Str(_));
        if is_label {
            let n = match p.next() {
                Tok::Word(w) => w,
                Tok::Num(n) => n,
                Tok::Str(s) => String::from_utf8_lossy(&s).to_string(),
                _ => unreachable!(),
            };
            p.i += 1;
            let k = p.blocks.len();
            let id = *p.blocks.entry(n.clone()).or_insert(k);
            while blocks.len() <= id {
                blocks.push(None);
            }
            blocks[id] = Some(Block { insts: vec![], name: n, is_panic: false, succ: vec![] });
            cur = Some(id);
            continue;
        }
        if cur.is_none() {
            // implicit entry block label
            let k = p.blocks.len();
            p.blocks.insert(format!("{}", params.len()), k);
            while blocks.len() <= k {
                blocks.push(None);
            }
            blocks[k] = Some(Block { insts: vec![], name: "entry".into(), is_panic: false, succ: vec![] });
            cur = Some(k);
            unnamed_entry = true;
        }
        let st = p.i;
        let dst = if let Tok::Local(n) = p.peek().clone() {
            p.i += 1;
            p.exp('=')?;
            let k = p.slots.len();
            Some(*p.slots.entry(n).or_insert(k))
        } else {
            None
        };
        let ins = match p.inst() {
            Ok(i) => i,
            Err(e) => {
                let a = &t[st..(st + 30).min(t.len())];
                return Err(format!("{e} at {a:?}"));
            }
        };
        // skip to end of line
        while !matches!(p.peek(), Tok::Nl) {
            if p.is_p('{') || p.is_p('}') {
                break;
            }
            p.i += 1;
        }
        if let Inst::Unsupported(w) = &ins {
            if w == "landingpad" || w == "cleanup" || w == "filter" || w == "catch" {
                // multi-line landingpad; the following clause lines parse as Unsupported too
            }
        }
        let c = cur.unwrap();
        blocks[c].as_mut().unwrap().insts.push((dst, ins));
    }
    let _ = unnamed_entry;
    let mut bl: Vec<Block> = vec![];
    for b in blocks {
        bl.push(b.ok_or("missing block")?);
    }
    let n = bl.len();
    for b in bl.iter_mut() {
        let s = match b.insts.last().map(|x| &x.1) {
            Some(Inst::Br(a)) => vec![*a],
            Some(Inst::CondBr(_, a, c)) => vec![*a, *c],
            Some(Inst::Switch(_, _, d, cs)) => {
                let mut v: Vec<usize> = cs.iter().map(|x| x.1).collect();
                v.push(*d);
                v
            }
            Some(Inst::Call(c)) if c.normal.is_some() => vec![c.normal.unwrap()],
            _ => vec![],
        };
        b.succ = s;
        if let Some((_, l)) = b.insts.last() {
            if !is_term(l) && !matches!(l, Inst::Unsupported(_)) {
                return Err(format!("block {} not terminated", b.name));
            }
        }
    }
    // panic blocks: all paths end in unreachable
    let mut panic = vec![false; n];
    loop {
        let mut ch = false;
        for i in 0..n {
            if panic[i] {
                continue;
            }
            let b = &bl[i];
            let end = matches!(b.insts.last().map(|x| &x.1), Some(Inst::Unreachable) | Some(Inst::Unsupported(_)) | None);
            let p = end || (!b.succ.is_empty() && b.succ.iter().all(|&s| panic[s]));
            if p {
                panic[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        bl[i].is_panic = panic[i];
    }
    // entry must be block 0
    let ipdom = postdom(&bl);
    Ok(Func { name, ret, params, byval, nslots: p.slots.len(), blocks: bl, ipdom })
}

/// immediate post-dominators, ignoring panic blocks; None = function exit
fn postdom(bl: &[Block]) -> Vec<Option<usize>> {
    let n = bl.len();
    // virtual exit = n
    let succ: Vec<Vec<usize>> = bl
        .iter()
        .map(|b| {
            let mut s: Vec<usize> = b.succ.iter().copied().filter(|&x| !bl[x].is_panic).collect();
            if s.is_empty() {
                s.push(n);
            }
            s
        })
        .collect();
    // iterative sets with bitvecs (functions are small)
    let words = (n + 64) / 64;
    let mut pd = vec![vec![!0u64; words]; n + 1];
    pd[n] = vec![0; words];
    pd[n][n / 64] |= 1 << (n % 64);
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            let mut a = vec![!0u64; words];
            for &s in &succ[i] {
                for w in 0..words {
                    a[w] &= pd[s][w];
                }
            }
            a[i / 64] |= 1 << (i % 64);
            if a != pd[i] {
                pd[i] = a;
                ch = true;
            }
        }
    }
    let cnt = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
    (0..n)
        .map(|i| {
            // ipdom = element of pd[i]\{i} with the largest pd set
            let mut best = None;
            let mut bc = 0;
            for j in 0..=n {
                if j != i && pd[i][j / 64] >> (j % 64) & 1 == 1 {
                    let c = cnt(&pd[j]);
                    if c > bc {
                        bc = c;
                        best = Some(j);
                    }
                }
            }
            best.filter(|&b| b != n)
        })
        .collect()
}

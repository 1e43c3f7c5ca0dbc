//! Discharging bit-vector queries with cvc5 / z3.
use crate::term::*;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Proved,
    /// counterexample: index of a simulation vector, if one refutes it directly
    RefutedBySim(usize),
    /// solver model over the cut (values for the cut terms); `exact` if the cut is made of leaves
    Refuted(Vec<(T, u128)>, bool),
    Unknown(String),
}

pub struct Smt {
    pub memo: HashMap<String, Answer>,
    pub term_memo: FxMap<T, Res>,
    pub queries: u64,
    pub solver_calls: u64,
    pub memo_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub by_solver: HashMap<String, u64>,
    pub dir: String,
    pub samples: Vec<String>,
    pub slowest: (f64, String),
    pub leaf_timeout: u64,
    pub cut_timeout: u64,
    pub verbose: bool,
    pub dump: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Unsat,
    Sat(Vec<u128>),
    Unknown(String),
}

impl Smt {
    pub fn new() -> Smt {
        let base = std::env::var("KEMSYM_TMP").unwrap_or_else(|_| "/tmp".into());
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let dir = format!("{base}/kemsym.{}.{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        std::fs::create_dir_all(&dir).ok();
        Smt {
            memo: HashMap::new(),
            term_memo: Default::default(),
            queries: 0,
            solver_calls: 0,
            memo_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            solver_s: 0.0,
            by_solver: HashMap::new(),
            dir,
            samples: vec![],
            slowest: (0.0, String::new()),
            leaf_timeout: 60,
            cut_timeout: 10,
            dump: std::env::var("KEMSYM_DUMP").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
            verbose: std::env::var("KEMSYM_VERBOSE").is_ok(),
        }
    }
    fn ask(&mut self, q: &str, nvars: usize, timeout: u64) -> Answer {
        self.queries += 1;
        if let Some(a) = self.memo.get(q) {
            if !matches!(a, Answer::Unknown(_)) {
                self.memo_hits += 1;
                return a.clone();
            }
            self.memo_hits += 1;
            return a.clone();
        }
        let t0 = Instant::now();
        let a = self.run(q, nvars, timeout);
        let dt = t0.elapsed().as_secs_f64();
        self.solver_calls += 1;
        self.solver_s += dt;
        match &a {
            Answer::Unsat => self.unsat += 1,
            Answer::Sat(_) => self.sat += 1,
            Answer::Unknown(_) => self.unknown += 1,
        }
        if dt > self.slowest.0 {
            self.slowest = (dt, q.chars().take(1500).collect());
        }
        if self.samples.len() < 3 || (self.samples.len() < 6 && a != Answer::Unsat) {
            self.samples.push(format!("{:?} in {:.3}s: {}", kind(&a), dt, q.chars().take(900).collect::<String>()));
        }
        if self.verbose {
            eprintln!("[smt] {:?} {:.2}s len {} vars {}", kind(&a), dt, q.len(), nvars);
            if self.dump == self.solver_calls || (dt > 3.0 && self.dump != u64::MAX) {
                eprintln!("{q}");
            } else if matches!(a, Answer::Unknown(_)) {
                eprintln!("{}", q.chars().take(3000).collect::<String>());
            }
        }
        self.memo.insert(q.to_string(), a.clone());
        a
    }
    fn run(&mut self, q: &str, nvars: usize, timeout: u64) -> Answer {
        let f = format!("{}/q{}.smt2", self.dir, self.solver_calls);
        let mut txt = String::from(if q.contains("(declare-fun f_") { "(set-logic QF_UFBV)\n" } else { "(set-logic QF_BV)\n" });
        txt.push_str("(set-option :produce-models true)\n");
        txt.push_str(q);
        txt.push_str("(check-sat)\n");
        if nvars > 0 && nvars <= 4000 {
            txt.push_str("(get-value (");
            for i in 0..nvars {
                let _ = write!(txt, "v{i} ");
            }
            txt.push_str("))\n");
        }
        if std::fs::write(&f, &txt).is_err() {
            return Answer::Unknown("cannot write query".into());
        }
        let ms = (timeout * 1000).to_string();
        let cmds: Vec<(&str, Vec<String>)> = vec![
            ("cvc5-int", vec!["cvc5".into(), "--lang=smt2".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={ms}"), f.clone()]),
            ("cvc5-bv", vec!["cvc5".into(), "--lang=smt2".into(), format!("--tlimit={ms}"), f.clone()]),
            ("z3", vec!["z3-new".into(), format!("-T:{timeout}"), f.clone()]),
        ];
        struct Kid(String, Child, std::thread::JoinHandle<String>, bool);
        let mut kids: Vec<Kid> = vec![];
        let mut pending = cmds.into_iter();
        let mut start = |kids: &mut Vec<Kid>| {
            if let Some((n, c)) = pending.next() {
                if let Ok(mut ch) = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                    let mut so = ch.stdout.take().unwrap();
                    let h = std::thread::spawn(move || {
                        let mut s = String::new();
                        so.read_to_string(&mut s).ok();
                        s
                    });
                    kids.push(Kid(n.into(), ch, h, false));
                }
                true
            } else {
                false
            }
        };
        start(&mut kids);
        let mut started = 1;
        let t0 = Instant::now();
        let mut result = Answer::Unknown("no solver answered".into());
        let mut why = vec![];
        let mut spin = 0u32;
        'out: loop {
            let mut alive = false;
            let mut i = 0;
            while i < kids.len() {
                if kids[i].3 {
                    i += 1;
                    continue;
                }
                match kids[i].1.try_wait() {
                    Ok(None) => alive = true,
                    _ => {
                        kids[i].3 = true;
                        let h = std::mem::replace(&mut kids[i].2, std::thread::spawn(String::new));
                        let s = h.join().unwrap_or_default();
                        let first = s.lines().next().unwrap_or("").trim().to_string();
                        let n = kids[i].0.clone();
                        if first == "unsat" {
                            *self.by_solver.entry(n).or_insert(0) += 1;
                            result = Answer::Unsat;
                            break 'out;
                        } else if first == "sat" {
                            if let Some(m) = parse_model(&s, nvars) {
                                *self.by_solver.entry(n).or_insert(0) += 1;
                                result = Answer::Sat(m);
                                break 'out;
                            }
                            why.push(format!("{n}: unparsed model"));
                        } else {
                            why.push(format!("{n}: {}", if first.is_empty() { "timeout" } else { &first }));
                        }
                    }
                }
                i += 1;
            }
            if started < 3 && (!alive || t0.elapsed() > Duration::from_millis(40 * started)) {
                start(&mut kids);
                started += 1;
                continue;
            }
            if !alive || t0.elapsed() > Duration::from_secs(timeout + 2) {
                result = Answer::Unknown(why.join("; "));
                break;
            }
            spin += 1;
            std::thread::sleep(Duration::from_micros(if spin < 200 { 300 } else { 3000 }));
        }
        for mut k in kids {
            k.1.kill().ok();
            k.1.wait().ok();
        }
        std::fs::remove_file(&f).ok();
        result
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.dir).ok();
    }
}

fn kind(a: &Answer) -> &'static str {
    match a {
        Answer::Unsat => "unsat",
        Answer::Sat(_) => "sat",
        Answer::Unknown(_) => "unknown",
    }
}

fn parse_model(s: &str, nvars: usize) -> Option<Vec<u128>> {
    if nvars == 0 || nvars > 4000 {
        return Some(vec![]);
    }
    let mut v = vec![0u128; nvars];
    let body: String = s.lines().skip(1).collect::<Vec<_>>().join(" ");
    let toks: Vec<&str> = body.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    let mut got = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
            let t = toks[i + 1];
            let val = if let Some(b) = t.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()?
            } else if let Some(h) = t.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()?
            } else if t == "_" {
                i += 1;
                toks.get(i + 1)?.strip_prefix("bv")?.parse().ok()?
            } else {
                return None;
            };
            if n < nvars {
                v[n] = val;
                got += 1;
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    if got >= nvars {
        Some(v)
    } else {
        None
    }
}

impl Ctx {
    pub fn is_leaf(&self, t: T) -> bool {
        matches!(self.node(t), Node::Var(_) | Node::Uf(..) | Node::Fq(_)) || self.refined.contains(&t)
    }
    /// SMT text of the boolean `c` negated, over the cut set; returns (text, cut variables in order)
    pub fn emit(&self, c: T, cut: &BTreeSet<T>) -> (String, Vec<T>) {
        self.emit_b(c, cut, false)
    }
    fn expr(&self, t: T, names: &FxMap<T, String>) -> String {
        let w = self.width(t);
        let n = |x: &T| names[x].clone();
        match self.node(t) {
            Node::Slices(_) if self.trim.get(&t).map_or(false, |x| self.refined.contains(x)) => {
                let x = self.trim[&t];
                format!("(concat {} {})", lit(w - self.width(x), 0), n(&x))
            }
            Node::Slices(ps) => {
                let mut parts: Vec<String> = vec![];
                for p in ps.iter().rev() {
                    if let Some(v) = self.cval(p.t) {
                        parts.push(lit(p.len as u32, v >> p.lo));
                    } else if p.lo == 0 && p.len as u32 == self.width(p.t) {
                        parts.push(n(&p.t));
                    } else {
                        parts.push(format!("((_ extract {} {}) {})", p.lo as u32 + p.len as u32 - 1, p.lo, n(&p.t)));
                    }
                }
                let mut it = parts.into_iter();
                let mut acc = it.next().unwrap();
                for x in it {
                    acc = format!("(concat {acc} {x})");
                }
                acc
            }
            Node::Bin(op, a, b) => {
                let o = match op {
                    B::Add => "bvadd",
                    B::Sub => "bvsub",
                    B::Mul => "bvmul",
                    B::UDiv => "bvudiv",
                    B::URem => "bvurem",
                    B::And => "bvand",
                    B::Or => "bvor",
                    B::Xor => "bvxor",
                    B::Shl => "bvshl",
                    B::LShr => "bvlshr",
                    B::AShr => "bvashr",
                };
                if *op == B::Xor && self.cval(*b) == Some(ones(w)) {
                    format!("(bvnot {})", n(a))
                } else {
                    format!("({o} {} {})", n(a), n(b))
                }
            }
            Node::Eq(a, b) => format!("(ite (= {} {}) #b1 #b0)", n(a), n(b)),
            Node::Ult(a, b) => format!("(ite (bvult {} {}) #b1 #b0)", n(a), n(b)),
            Node::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", n(c), n(a), n(b)),
            Node::Ctpop(a) => {
                let k = self.width(*a);
                let mut acc = lit(w, 0);
                for i in 0..k {
                    let b = format!("((_ extract {i} {i}) {})", n(a));
                    let e = if w > 1 { format!("((_ zero_extend {}) {b})", w - 1) } else { b };
                    acc = format!("(bvadd {acc} {e})");
                }
                acc
            }
            Node::Table(v, i) => {
                let iw = self.width(*i);
                let mut acc = lit(w, *v.last().unwrap() as u128);
                for (k, x) in v.iter().enumerate().rev().skip(1) {
                    acc = format!("(ite (= {} {}) {} {acc})", n(i), lit(iw, k as u128), lit(w, *x as u128));
                }
                acc
            }
            _ => unreachable!(),
        }
    }
    /// one side of a claim with uninterpreted functions written as functions of their arguments;
    /// None when it is too large
    fn emit_side(&self, roots: &[T], side: &str, uf: bool, own: &dyn Fn(T) -> bool, leaves: &mut FxMap<(T, bool), String>, decl: &mut String, fns: &mut BTreeSet<String>, body: &mut String) -> Option<Vec<String>> {
        let mut names: FxMap<T, String> = Default::default();
        let mut nd = 0usize;
        let mut st: Vec<(T, bool)> = roots.iter().rev().map(|&t| (t, false)).collect();
        while let Some((t, done)) = st.pop() {
            if names.contains_key(&t) {
                continue;
            }
            let w = self.width(t);
            if let Some(v) = self.cval(t) {
                names.insert(t, lit(w, v));
                continue;
            }
            let app = match self.node(t) {
                Node::Uf(a, i) if uf && self.apps.apps[*a as usize].xof.is_none() => Some((*a, *i)),
                _ => None,
            };
            if self.is_leaf(t) && app.is_none() {
                let k = leaves.len();
                let name = leaves.entry((t, side == "b" && own(t))).or_insert_with(|| {
                    let n = format!("v{k}");
                    let _ = writeln!(decl, "(declare-fun {n} () (_ BitVec {w}))");
                    n
                });
                names.insert(t, name.clone());
                continue;
            }
            if !done {
                st.push((t, true));
                let mut ch = match app {
                    Some((a, _)) => self.apps.apps[a as usize].args.clone(),
                    None => self.children(t),
                };
                ch.reverse();
                for x in ch {
                    if !names.contains_key(&x) {
                        st.push((x, false));
                    }
                }
                if st.len() > 40_000 {
                    return None;
                }
                continue;
            }
            let e = match app {
                Some((a, i)) => {
                    let ap = &self.apps.apps[a as usize];
                    let mut f: String = ap.name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
                    let ws: Vec<u32> = ap.args.iter().map(|&x| self.width(x)).collect();
                    let sig: Vec<String> = ws.iter().map(|w| format!("(_ BitVec {w})")).collect();
                    f = format!("f_{f}_{i}_{}_{}", ws.len(), ws.iter().sum::<u32>());
                    if ws.is_empty() {
                        return None;
                    }
                    if fns.insert(f.clone()) {
                        let _ = writeln!(decl, "(declare-fun {f} ({}) (_ BitVec {w}))", sig.join(" "));
                    }
                    let mut s = format!("({f}");
                    for x in &ap.args {
                        s.push(' ');
                        s.push_str(&names[x]);
                    }
                    s.push(')');
                    s
                }
                None => self.expr(t, &names),
            };
            let name = format!("{side}{nd}");
            nd += 1;
            if nd > 20_000 || body.len() > 4_000_000 {
                return None;
            }
            let _ = writeln!(body, "(define-fun {name} () (_ BitVec {w}) {e})");
            names.insert(t, name);
        }
        Some(roots.iter().map(|t| names[t].clone()).collect())
    }
    /// ask the solver once more for claims the rewriting already made identical, with both sides
    /// written out separately down to inputs (and, if small enough, through the uninterpreted
    /// functions)
    pub fn certify(&mut self, pairs: &[(T, T)]) -> Option<bool> {
        self.certify_copies(pairs, &|_| false)
    }
    /// as `certify`; leaves selected by `own` are different variables on the two sides
    pub fn certify_copies(&mut self, pairs: &[(T, T)], own: &dyn Fn(T) -> bool) -> Option<bool> {
        let xs: Vec<T> = pairs.iter().map(|p| p.0).collect();
        let ys: Vec<T> = pairs.iter().map(|p| p.1).collect();
        for uf in [true, false] {
            let (mut leaves, mut decl, mut fns, mut body) = (Default::default(), String::new(), BTreeSet::new(), String::new());
            let Some(a) = self.emit_side(&xs, "a", uf, own, &mut leaves, &mut decl, &mut fns, &mut body) else { continue };
            let Some(b) = self.emit_side(&ys, "b", uf, own, &mut leaves, &mut decl, &mut fns, &mut body) else { continue };
            let d: Vec<String> = a.iter().zip(&b).map(|(x, y)| format!("(distinct {x} {y})")).collect();
            let q = format!("{decl}{body}(assert (or false {}))\n", d.join(" "));
            return match self.smt.ask(&q, 0, 20) {
                Answer::Unsat => Some(true),
                Answer::Sat(_) => Some(false),
                Answer::Unknown(_) => None,
            };
        }
        None
    }
    /// with `weak`, interval bounds of cut terms are relaxed to few standard values, so that
    /// alpha-equivalent queries coincide
    pub fn emit_b(&self, c: T, cut: &BTreeSet<T>, weak: bool) -> (String, Vec<T>) {
        let mut order: Vec<T> = vec![];
        let mut names: FxMap<T, String> = Default::default();
        let mut decl = String::new();
        let mut body = String::new();
        let mut nd = 0usize;
        // iterative post-order
        let mut st: Vec<(T, bool)> = vec![(c, false)];
        while let Some((t, done)) = st.pop() {
            if names.contains_key(&t) {
                continue;
            }
            let w = self.width(t);
            if let Some(v) = self.cval(t) {
                names.insert(t, lit(w, v));
                continue;
            }
            if (cut.contains(&t) && t != c) || self.is_leaf(t) {
                let n = format!("v{}", order.len());
                let _ = writeln!(decl, "(declare-fun {n} () (_ BitVec {w}))");
                let mut hi = self.hi(t);
                if weak {
                    let q = Q;
                    hi = [1, q - 1, 2 * q - 1, (1 << 24) - 1, 2 * q * q].into_iter().find(|&b| hi <= b).unwrap_or(ones(bits(hi)));
                }
                if hi < ones(w) {
                    let _ = writeln!(decl, "(assert (bvule {n} {}))", lit(w, hi));
                }
                if self.lo(t) > 0 && !weak {
                    let _ = writeln!(decl, "(assert (bvuge {n} {}))", lit(w, self.lo(t)));
                }
                order.push(t);
                names.insert(t, n);
                continue;
            }
            if !done {
                st.push((t, true));
                let mut ch = self.children(t);
                ch.reverse();
                for x in ch {
                    if !names.contains_key(&x) {
                        st.push((x, false));
                    }
                }
                continue;
            }
            let e = self.expr(t, &names);
            let name = format!("n{nd}");
            nd += 1;
            let _ = writeln!(body, "(define-fun {name} () (_ BitVec {w}) {e})");
            names.insert(t, name);
        }
        let root = &names[&c];
        let txt = format!("{decl}{body}(assert (= {root} #b0))\n");
        (txt, order)
    }
    pub fn prove(&mut self, c: T) -> bool {
        matches!(self.check(c), Res::Proved)
    }
    /// is the boolean term valid?
    pub fn check(&mut self, c: T) -> Res {
        match self.cval(c) {
            Some(1) => return Res::Proved,
            Some(_) => return Res::RefutedBySim(self.active.trailing_zeros() as usize),
            None => {}
        }
        if self.facts.get(&c) == Some(&true) {
            return Res::Proved;
        }
        for k in 0..NS {
            if self.is_active(k) && self.sims[c as usize][k] == 0 {
                return Res::RefutedBySim(k);
            }
        }
        if let Some(r) = self.smt.term_memo.get(&c) {
            return r.clone();
        }
        let r = self.check_uncached(c);
        self.smt.term_memo.insert(c, r.clone());
        r
    }
    fn try_cut(&mut self, c: T, fr: &BTreeSet<T>) -> Option<bool> {
        let n = fr.len();
        let to = self.smt.cut_timeout;
        let (qw, _) = self.emit_b(c, fr, true);
        if let Answer::Unsat = self.smt.ask(&qw, n, to) {
            return Some(true);
        }
        let (q, _) = self.emit(c, fr);
        if q == qw {
            return Some(false);
        }
        match self.smt.ask(&q, n, to) {
            Answer::Unsat => Some(true),
            Answer::Sat(_) => Some(false),
            Answer::Unknown(_) => None,
        }
    }
    fn check_uncached(&mut self, c: T) -> Res {
        if self.leaves(c, 60).is_none() {
            let r = self.sweep_big(c, 4);
            if self.check_big(r, 4) == Some(true) {
                return Res::Proved;
            }
        }
        let mut fr: BTreeSet<T> = BTreeSet::new();
        fr.insert(c);
        let mut steps = 0;
        let mut tried = 0;
        let mut late: Vec<BTreeSet<T>> = vec![];
        let mut hard = false;
        loop {
            let top = fr.iter().rev().copied().find(|&t| !self.is_leaf(t));
            let t = match top {
                Some(t) => t,
                None => break,
            };
            fr.remove(&t);
            for x in self.children(t) {
                if !self.is_const(x) {
                    fr.insert(x);
                }
            }
            steps += 1;
            if steps > 20000 {
                hard = true;
                break;
            }
            let all_leaf = fr.iter().all(|&x| self.is_leaf(x));
            if all_leaf || steps < 2 {
                continue;
            }
            if fr.len() == 1 && tried < 5 && self.cut_ok(&fr) {
                tried += 1;
                if self.try_cut(c, &fr) == Some(true) {
                    return Res::Proved;
                }
            }
            if fr.len() == 2 && late.len() < 3 && self.cut_ok(&fr) {
                late.push(fr.clone());
            }
            if steps == 150 {
                for l in std::mem::take(&mut late) {
                    if self.try_cut(c, &l) == Some(true) {
                        return Res::Proved;
                    }
                }
            }
        }
        for l in std::mem::take(&mut late) {
            if self.try_cut(c, &l) == Some(true) {
                return Res::Proved;
            }
        }
        if hard {
            return Res::Unknown("cone too large".into());
        }
        let (q, order) = self.emit(c, &fr);
        let to = self.smt.leaf_timeout;
        match self.smt.ask(&q, order.len(), to) {
            Answer::Unsat => Res::Proved,
            Answer::Sat(m) => Res::Refuted(order.into_iter().zip(m).collect(), true),
            Answer::Unknown(e) => Res::Unknown(e),
        }
    }
    /// rebuild a large term bottom-up, replacing every sub-term over at most `limit` leaves by its
    /// proven-equal representative
    pub fn sweep_big(&mut self, t: T, limit: usize) -> T {
        let mut st: Vec<(T, bool)> = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.big.contains_key(&x) {
                continue;
            }
            if self.is_leaf(x) || self.is_const(x) {
                self.big.insert(x, x);
                continue;
            }
            if !done {
                if self.leaves(x, limit).is_some() {
                    let r = self.rep(x);
                    self.big.insert(x, r);
                    continue;
                }
                st.push((x, true));
                for y in self.children(x) {
                    if !self.big.contains_key(&y) {
                        st.push((y, false));
                    }
                }
                continue;
            }
            let g = |s: &Self, y: T| *s.big.get(&y).unwrap_or(&y);
            let r = match self.node(x).clone() {
                Node::Slices(ps) => {
                    let v: Vec<Piece> = ps.iter().map(|p| Piece { t: g(self, p.t), ..*p }).collect();
                    self.mk_slices(&v)
                }
                Node::Bin(op, a, b) => {
                    let (a, b) = (g(self, a), g(self, b));
                    self.bin(op, a, b)
                }
                Node::Eq(a, b) => {
                    let (a, b) = (g(self, a), g(self, b));
                    self.eq(a, b)
                }
                Node::Ult(a, b) => {
                    let (a, b) = (g(self, a), g(self, b));
                    self.ult(a, b)
                }
                Node::Ite(c, a, b) => {
                    let (c, a, b) = (g(self, c), g(self, a), g(self, b));
                    self.ite(c, a, b)
                }
                _ => x,
            };
            self.big.insert(x, r);
        }
        self.big[&t]
    }
    /// decide a condition over a large cone with a cut at the maximal sub-terms over few leaves
    pub fn check_big(&mut self, c: T, limit: usize) -> Option<bool> {
        if let Some(v) = self.cval(c) {
            return Some(v == 1);
        }
        let mut cut: BTreeSet<T> = BTreeSet::new();
        let mut seen: FxSet<T> = Default::default();
        let mut st = vec![c];
        while let Some(x) = st.pop() {
            if !seen.insert(x) || self.is_const(x) {
                continue;
            }
            if x != c && (self.is_leaf(x) || (!matches!(self.node(x), Node::Slices(_)) && self.leaves(x, limit).is_some())) {
                cut.insert(x);
                continue;
            }
            st.extend(self.children(x));
        }
        let (q, _) = self.emit(c, &cut);
        let to = self.smt.leaf_timeout;
        match self.smt.ask(&q, cut.len(), to) {
            Answer::Unsat => Some(true),
            Answer::Sat(_) => Some(false),
            Answer::Unknown(_) => None,
        }
    }
    /// a cut is promising if its terms carry enough information (not single bits)
    fn cut_ok(&self, fr: &BTreeSet<T>) -> bool {
        // a cut whose upper term is computed from the lower one loses their relation
        if fr.len() == 2 {
            let a = *fr.iter().next().unwrap();
            let b = *fr.iter().next_back().unwrap();
            let mut st = vec![b];
            let mut n = 0;
            while let Some(x) = st.pop() {
                n += 1;
                if n > 400 {
                    break;
                }
                for y in self.children(x) {
                    if y == a {
                        return false;
                    }
                    if y > a {
                        st.push(y);
                    }
                }
            }
        }
        fr.iter().all(|&t| self.width(t) > 1)
    }
    /// representative of a term among previously registered ones, by simulation signature,
    /// equal leaf support and a solver proof of equality
    pub fn rep(&mut self, t: T) -> T {
        let r = self.rep_plain(t);
        if !self.same_as.is_empty() {
            if let Some(&x) = self.same_as.get(&r) {
                return x;
            }
        }
        r
    }
    fn rep_plain(&mut self, t: T) -> T {
        if self.is_const(t) || self.width(t) > 64 {
            return t;
        }
        if self.is_leaf(t) {
            return t;
        }
        let p = self.strip(t);
        if p.t != t {
            if self.is_leaf(p.t) || self.is_const(p.t) {
                return t;
            }
            let v = self.extract(p.t, p.lo as u32, p.len as u32);
            if v != t {
                let r = self.rep(v);
                return if r == v { t } else { self.zext(r, self.width(t)) };
            }
        } else if matches!(self.node(t), Node::Slices(_)) {
            return t;
        }
        if let Some(&r) = self.repl.get(&t) {
            if r != t {
                return r;
            }
        }
        if self.sweep_seen.contains(&t) {
            return t;
        }
        let ls = match self.leaves(t, 12) {
            Some(l) => l,
            None => return t,
        };
        let mut h = 0xabcdefu64;
        for l in &ls {
            h = (h.rotate_left(7) ^ *l as u64).wrapping_mul(0x9E3779B97F4A7C15);
        }
        let key = (self.sims[t as usize], h);
        let cands = self.sweep.get(&key).cloned().unwrap_or_default();
        for c in cands.into_iter().take(4) {
            let w = self.width(c).max(self.width(t));
            let x = self.zext(c, w);
            let y = self.zext(t, w);
            let e = self.eq(x, y);
            if self.cval(e) == Some(1) || self.prove(e) {
                let r = self.fit(c, self.width(t));
                self.repl.insert(t, r);
                self.stats.merges += 1;
                return r;
            }
        }
        self.sweep_seen.insert(t);
        self.sweep.entry(key).or_default().push(t);
        t
    }
}

fn lit(w: u32, v: u128) -> String {
    let v = crate::ir::mask(v, w);
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

impl Smt {
    pub fn stats_json(&self) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = vec![
            ("queries".into(), self.queries.to_string()),
            ("solver_calls".into(), self.solver_calls.to_string()),
            ("memo_hits".into(), self.memo_hits.to_string()),
            ("sat".into(), self.sat.to_string()),
            ("unsat".into(), self.unsat.to_string()),
            ("unknown".into(), self.unknown.to_string()),
            ("solver_seconds".into(), format!("{:.3}", self.solver_s)),
            ("slowest_seconds".into(), format!("{:.3}", self.slowest.0)),
        ];
        let mut b: Vec<_> = self.by_solver.iter().collect();
        b.sort();
        for (k, n) in b {
            v.push((format!("by_{k}"), n.to_string()));
        }
        v
    }
}

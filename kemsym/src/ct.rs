//! Two-copy (self-composition) check: branch conditions, divisors and addresses of an operation
//! must not depend on its secrets.
//!
//! All simulations agree on the public inputs and differ in the secret ones. Every condition on
//! which the symbolic execution had to explore both directions, every operand of a division by a
//! variable, every symbolic address and every memcmp result is examined: it must be a function of
//! public data, i.e. of public inputs, of functions of public data and of the output of the
//! matrix XOF (whose seed is part of the public key).
use crate::checks::*;
use crate::exec::*;
use crate::smt::Res;
use crate::term::*;

pub struct Split {
    public: FxSet<T>,
    memo: FxMap<T, bool>,
    copy: FxMap<T, T>,
    seen: FxSet<(T, &'static str)>,
    /// conditions found to be functions of public data
    conds: Vec<T>,
    pub n_xof: u64,
    pub n_pub: u64,
    pub n_table: u64,
    pub n_solver: u64,
    /// message, simulations, solver model
    pub leaks: Vec<(String, Vec<usize>, Vec<(T, u128)>)>,
}

impl Exec {
    /// a condition with two outcomes, a divisor, an address or a comparison result
    pub fn log_sym(&mut self, c: T, kind: &'static str, table: Option<u64>) {
        if self.leak || self.cx.is_const(c) {
            return;
        }
        let Some(mut sp) = self.ct.take() else { return };
        self.judge(c, kind, table, &mut sp);
        self.ct = Some(sp);
    }
    fn judge(&mut self, c: T, kind: &'static str, table: Option<u64>, sp: &mut Split) {
        let small = matches!(table, Some(n) if n <= TABLE_MAX);
        if !sp.seen.insert((c, if small { "table" } else { kind })) {
            return;
        }
        if self.cx.only_xof(c) {
            sp.n_xof += 1;
            sp.conds.push(c);
            return;
        }
        if small {
            sp.n_table += 1;
            return;
        }
        if self.is_public(c, sp) {
            sp.n_pub += 1;
            sp.conds.push(c);
            return;
        }
        let at = Exec::pretty(self.stack.last().map(|s| s.as_str()).unwrap_or(""));
        // simulations on the path
        let act = self.cx.active;
        let on: Vec<usize> = (0..NS).filter(|&k| act >> k & 1 == 1 && self.pc.iter().all(|&c| self.cx.sims[c as usize][k] == 1)).collect();
        let v0 = on.first().map(|&k| self.cx.sims[c as usize][k]);
        if let Some(&k) = on.iter().find(|&&k| Some(self.cx.sims[c as usize][k]) != v0) {
            self.leak = true;
            sp.leaks.push((format!("{kind} in {at} depends on secret data (assignments {} and {k} agree in all public inputs)", on[0]), vec![on[0], k], vec![]));
            return;
        }
        // the same condition over other secrets
        let c2 = self.rename(c, sp);
        let mut q = self.cx.eq(c, c2);
        for c in self.pc.clone() {
            let n = self.cx.not(c);
            q = self.cx.or(q, n);
        }
        match self.cx.check(q) {
            Res::Proved => sp.n_solver += 1,
            Res::Refuted(m, _) => {
                self.leak = true;
                sp.leaks.push((format!("{kind} in {at} depends on secret data (solver: two assignments that differ in secrets only)"), vec![0], m));
            }
            Res::RefutedBySim(_) => {
                self.leak = true;
                sp.leaks.push((format!("{kind} in {at} depends on secret data"), vec![0], vec![]));
            }
            Res::Unknown(m) => {
                // only reported if executions of the compiled code differ
                self.leak = true;
                sp.leaks.push((format!("{kind} in {at} contains secret data, dependence on it undecided ({m})"), vec![0], vec![]));
            }
        }
    }
    fn is_public(&mut self, t: T, sp: &mut Split) -> bool {
        if let Some(&v) = sp.memo.get(&t) {
            return v;
        }
        let v = match self.cx.node(t).clone() {
            Node::Const(_) => true,
            Node::Var(_) => sp.public.contains(&t),
            Node::Uf(a, _) => {
                let ap = &self.cx.apps.apps[a as usize];
                let args = ap.args.clone();
                ap.xof.is_some() || args.iter().all(|&x| self.is_public(x, sp))
            }
            Node::Fq(f) => {
                let ms: Vec<u32> = self.cx.poly.get(f).iter().map(|x| x.0).collect();
                let atoms: FxSet<T> = ms.iter().flat_map(|&m| self.cx.poly.monos[m as usize].to_vec()).collect();
                atoms.iter().all(|&x| self.is_public(x, sp))
            }
            _ => {
                let cs = self.cx.children(t);
                cs.iter().all(|&x| self.is_public(x, sp))
            }
        };
        sp.memo.insert(t, v);
        v
    }
    /// the same term over a second copy of everything secret
    fn rename(&mut self, t: T, sp: &mut Split) -> T {
        if self.is_public(t, sp) {
            return t;
        }
        if let Some(&v) = sp.copy.get(&t) {
            return v;
        }
        let n = self.cx.node(t).clone();
        let refined = self.cx.refined.contains(&t);
        let v = match n {
            _ if refined => self.fresh(t),
            Node::Var(_) | Node::Uf(..) | Node::Fq(_) => self.fresh(t),
            Node::Const(_) => t,
            Node::Slices(ps) => {
                let mut o = vec![];
                for p in ps.iter() {
                    o.push(Piece { t: self.rename(p.t, sp), ..*p });
                }
                self.cx.mk_slices(&o)
            }
            Node::Bin(op, a, b) => {
                let (a, b) = (self.rename(a, sp), self.rename(b, sp));
                self.cx.bin(op, a, b)
            }
            Node::Eq(a, b) => {
                let (a, b) = (self.rename(a, sp), self.rename(b, sp));
                self.cx.eq(a, b)
            }
            Node::Ult(a, b) => {
                let (a, b) = (self.rename(a, sp), self.rename(b, sp));
                self.cx.ult(a, b)
            }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (self.rename(c, sp), self.rename(a, sp), self.rename(b, sp));
                self.cx.ite(c, a, b)
            }
            Node::Ctpop(a) => {
                let a = self.rename(a, sp);
                self.cx.ctpop(a)
            }
            Node::Table(v, i) => {
                let w = self.cx.width(t);
                let i = self.rename(i, sp);
                self.cx.table(w, v.to_vec(), i)
            }
        };
        sp.copy.insert(t, v);
        v
    }
    /// an unconstrained value within the bounds of t
    fn fresh(&mut self, t: T) -> T {
        let (w, lo, hi) = (self.cx.width(t), self.cx.lo[t as usize], self.cx.hi(t));
        let s0 = self.cx.sims[t as usize];
        let mut s = s0;
        // another simulation's value
        for k in 0..NS {
            s[k] = s0[(k + 1) % NS];
        }
        let n = format!("copy_{t}");
        let v = self.cx.var(w, &n, s);
        self.cx.lo[v as usize] = lo;
        self.cx.hi[v as usize] = hi;
        v
    }
}

impl Run {
    /// 32 bytes: zero, all ones, arbitrary
    fn structured(&mut self, name: &str) -> Vec<T> {
        let mut v = vec![[0u64; NS]; 32];
        for x in v.iter_mut() {
            for k in 0..NS {
                let r = self.rnd() & 0xff;
                x[k] = match k {
                    2 => 0,
                    3 => 0xff,
                    _ => r,
                };
            }
        }
        self.vars_sims(name, &v)
    }
    /// inputs of the operation; bytes of `public` are equal in all simulations
    fn ct_inputs(&mut self, what: &str) -> (Vec<(String, Vec<T>)>, FxSet<T>, Vec<usize>) {
        let p = self.p;
        let mut public: FxSet<T> = Default::default();
        match what {
            "ctgen" => {
                let d = self.structured("d");
                let z = self.structured("z");
                (vec![("d".into(), d), ("z".into(), z)], public, vec![p.dk_len(), p.ek_len(), p.ek_len()])
            }
            "ctxgen" => (vec![("sk".into(), self.structured("sk"))], public, vec![1216, 32]),
            "ctxenc" => {
                let (_, hek, _) = self.xhonest();
                let ek: Vec<Sims> = hek.iter().map(|s| [s[0]; NS]).collect();
                let ek = self.vars_sims("ek", &ek);
                let mut buf = self.structured("buf");
                buf.extend(self.structured("buf_x"));
                public.extend(ek.iter());
                (vec![("ek".into(), ek), ("rng".into(), buf)], public, vec![1120, 32])
            }
            "ctxdec" => {
                let (_, _, hct) = self.xhonest();
                let ct: Vec<Sims> = hct.iter().map(|s| [s[0]; NS]).collect();
                let sk = self.structured("sk");
                let ct = self.vars_sims("ct", &ct);
                public.extend(ct.iter());
                (vec![("sk".into(), sk), ("ct".into(), ct)], public, vec![32])
            }
            "ctenc" => {
                let (_, _, hek) = self.honest();
                let ek: Vec<Sims> = hek.iter().map(|s| [s[0]; NS]).collect();
                let ek = self.vars_sims("ek", &ek);
                let m = self.structured("m");
                public.extend(ek.iter());
                (vec![("ek".into(), ek), ("m".into(), m)], public, vec![p.ct_len(), 32])
            }
            _ => {
                let (hdk, hct, _) = self.honest();
                let n = hdk.len();
                let secret = |i: usize| i < 384 * p.k || i >= n - 32;
                let mut dk: Vec<Sims> = hdk.iter().map(|s| [s[0]; NS]).collect();
                for i in 0..n {
                    if secret(i) {
                        for k in 1..NS {
                            let r = self.rnd() & 0xff;
                            // 1: other z; 2: one byte of s changed; 3: zero; 4: mostly honest with
                            // zeros; the others are arbitrary
                            match k {
                                1 if i < 384 * p.k => {}
                                2 if i != 7 => {}
                                2 => dk[i][k] ^= 1 << (r % 4),
                                3 => dk[i][k] = 0,
                                4 if i % 96 > 8 => {}
                                4 => dk[i][k] = 0,
                                _ => dk[i][k] = r,
                            }
                        }
                    }
                }
                let ct: Vec<Sims> = hct.iter().map(|s| [s[0]; NS]).collect();
                let dk = self.vars_sims("dk", &dk);
                let ct = self.vars_sims("ct", &ct);
                public.extend(ct.iter());
                for i in 0..n {
                    if !secret(i) {
                        public.insert(dk[i]);
                    }
                }
                (vec![("dk".into(), dk), ("ct".into(), ct)], public, vec![32])
            }
        }
    }
    fn ct_run(&mut self, what: &str, ins: &[(String, Vec<T>)], outs: &[usize]) -> X<()> {
        let mut args: Vec<u32> = ins.iter().map(|(n, v)| self.buf(v, n)).collect();
        for &n in outs {
            args.push(self.out(n, "out"));
        }
        if let Some(op) = what.strip_prefix("ctx") {
            let mut a: Vec<Val> = args.iter().map(|&o| self.ex.p(o)).collect();
            if op == "enc" {
                let n = Val::I(self.ex.cx.konst(64, 64));
                a.insert(2, n);
            }
            let f = match op {
                "gen" => "h_xkeygen",
                "enc" => "h_xencaps",
                _ => "h_xdecaps",
            };
            return self.ex.call_name(f, a).map(|_| ());
        }
        let f = match what {
            "ctgen" => "h_keygen",
            "ctenc" => "h_encaps",
            _ => "h_decaps",
        };
        self.call(f, &args).map(|_| ())
    }
    pub fn ct(&mut self, what: &str) -> X<()> {
        if let Some(k) = self.conc {
            return self.ct_concrete(what, k);
        }
        self.ex.trace_secrets = true;
        self.ex.cx.no_canon = true;
        self.ex.cx.smt.leaf_timeout = 5;
        self.ex.cx.smt.cut_timeout = 3;
        let (ins, public, outs) = self.ct_inputs(what);
        self.ex.ct = Some(Split {
            public,
            memo: Default::default(),
            copy: Default::default(),
            seen: Default::default(),
            conds: vec![],
            n_xof: 0,
            n_pub: 0,
            n_table: 0,
            n_solver: 0,
            leaks: vec![],
        });
        let r = self.ct_run(what, &ins, &outs);
        let sp = self.ex.ct.take().unwrap();
        self.rep.compared += sp.seen.len() as u64;
        self.rep.by_solver += sp.n_solver;
        self.rep.same_term += sp.n_pub + sp.n_xof + sp.n_table;
        // decisions of the rejection sampler, followed along the given path
        let xs = self.ex.xof_assumptions.clone();
        self.rep.compared += xs.len() as u64;
        for (c, _) in xs {
            if self.ex.cx.only_xof(c) {
                self.rep.same_term += 1;
            } else {
                self.rep.mismatched += 1;
                self.rep.details.push("sampler decision not a function of the matrix XOF".into());
            }
        }
        self.rep.extra.push(("conditions_on_public_inputs".into(), sp.n_pub.to_string()));
        self.rep.extra.push(("addresses_in_small_constant_tables".into(), sp.n_table.to_string()));
        self.rep.extra.push(("two_copy_queries_proved".into(), sp.n_solver.to_string()));
        // the same by the solver: two copies that share public data only
        let mut all: Vec<T> = sp.conds.clone();
        all.extend(self.ex.xof_assumptions.iter().map(|x| x.0));
        let public = sp.public.clone();
        let mut n2 = 0;
        for ch in all.chunks(400) {
            let pairs: Vec<(T, T)> = ch.iter().map(|&t| (t, t)).collect();
            let mut xof: FxSet<T> = self.ex.cx.apps.apps.iter().filter(|a| a.xof.is_some()).flat_map(|a| a.outs.clone()).collect();
            let refined: Vec<T> = self.ex.cx.refined.iter().copied().collect();
            xof.extend(refined.into_iter().filter(|&t| self.ex.cx.only_xof(t)));
            match self.ex.cx.certify_copies(&pairs, &|t| !public.contains(&t) && !xof.contains(&t)) {
                Some(true) => n2 += ch.len() as u64,
                Some(false) => {
                    self.rep.undecided += 1;
                    self.rep.details.push("internal: the solver finds a dependence on secrets that the executor excludes".into());
                }
                None => {}
            }
        }
        self.rep.certified += n2;
        self.rep.extra.push(("conditions_proved_on_two_copies".into(), n2.to_string()));
        for (d, sims, m) in sp.leaks {
            self.rep.mismatched += 1;
            self.rep.bad_sims.extend(sims);
            if self.rep.details.len() < 8 {
                self.rep.details.push(d);
            }
            // secret inputs of the model, if it is about inputs
            let mv: FxMap<T, u128> = m.iter().copied().collect();
            for (n, ts) in &ins {
                if ts.iter().any(|t| mv.contains_key(t)) {
                    let h: String = ts.iter().map(|t| format!("{:02x}", mv.get(t).map(|&v| v as u64).unwrap_or(self.ex.cx.sims[*t as usize][0]) as u8)).collect();
                    self.rep.extra.push(("overlay".into(), format!("{n}={h}")));
                }
            }
        }
        if self.rep.mismatched > 0 {
            return Ok(());
        }
        r
    }
    /// execute the compiled code on assignment k and on the others; control flow, divisors and
    /// addresses must be the same
    fn ct_concrete(&mut self, what: &str, k: usize) -> X<()> {
        // with an overlay: the assignment itself against the overlaid one
        let over = std::mem::take(&mut self.overlay);
        self.ex.trace = Some(vec![]);
        let (ins, _, outs) = self.ct_inputs(what);
        self.ct_run(what, &ins, &outs)?;
        let a = self.ex.trace.take().unwrap();
        let others: Vec<usize> = if over.is_empty() { (0..NS).filter(|&x| x != k).collect() } else { vec![k] };
        for k2 in others {
            let mut o = Run::new(self.ex.m.clone(), &self.set, &self.pat, self.seed);
            o.conc = Some(k2);
            o.overlay = over.clone();
            o.ex.concrete_only = true;
            o.ex.cx.apps.conc_k = Some(k);
            o.ex.trace = Some(vec![]);
            let (ins, _, outs) = o.ct_inputs(what);
            o.ct_run(what, &ins, &outs)?;
            let b = o.ex.trace.take().unwrap();
            self.rep.compared += 1;
            let d = a.iter().zip(&b).position(|(x, y)| x != y).or(if a.len() != b.len() { Some(a.len().min(b.len())) } else { None });
            if let Some(d) = d {
                let i = self.ex.trace_pos.partition_point(|&x| x <= d as u64);
                let f = if i > 0 { self.ex.trace_at[i - 1].clone() } else { "?".into() };
                self.rep.mismatched += 1;
                self.rep.details.push(format!("equal public inputs, secrets {k} and {k2}{}: executions part at event {d} of {} / {} in {}", if over.is_empty() { "" } else { " (overlaid)" }, a.len(), b.len(), Exec::pretty(&f)));
                return Ok(());
            }
        }
        Ok(())
    }
}

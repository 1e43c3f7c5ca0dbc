//! The checks: run the compiled entry point symbolically, run the specification, compare.
use crate::exec::*;
use crate::smt::Res;
use crate::spec::{self, Params, P1024, P512, P768};
use crate::sym::Sym;
use crate::term::*;
use crate::uf::mix;

#[derive(Default)]
pub struct Report {
    pub status: String, // ok | violated | undecided | unsupported
    pub details: Vec<String>,
    pub compared: u64,
    pub certified: u64,
    pub same_term: u64,
    pub by_solver: u64,
    pub mismatched: u64,
    pub undecided: u64,
    pub extra: Vec<(String, String)>,
    /// simulation assignments that refute something
    pub bad_sims: Vec<usize>,
    /// solver models (values of terms)
    pub models: Vec<Vec<(T, u128)>>,
}

pub struct Run {
    pub ex: Exec,
    pub rep: Report,
    pub p: Params,
    pub pat: String,
    pub seed: u64,
    pub ctr: u64,
    /// input variables by group name: (term or constant, simulation values)
    pub inputs: Vec<(String, Vec<(T, Sims)>)>,
    /// concrete mode: use simulation assignment k for every input
    pub conc: Option<usize>,
    /// concrete mode: replaced input bytes
    pub overlay: FxMap<String, u64>,
    app_eq: FxMap<(u32, u32), bool>,
    /// terms that differ from the specification
    pub roots: Vec<T>,
    /// judge panics and memory only
    pub safety: bool,
    /// name of the check that runs
    pub check: String,
    /// parameter set or group, as given
    pub set: String,
}

pub fn params(set: &str) -> Params {
    match set {
        "512" => P512,
        "1024" => P1024,
        _ => P768,
    }
}

/// accept/reject shape of the 12-bit candidates of stream s
fn decide_pattern(pat: &str, seed: u64, s: u32, c: u32) -> Option<bool> {
    let rnd = |salt: u64| mix(seed ^ salt ^ ((s as u64) << 32) ^ c as u64 ^ 0x5bd1e995);
    if pat == "real" {
        return None;
    }
    let style = match pat {
        "accept" => 0,
        "natural" => 1,
        "half" => 2,
        _ => (mix(seed ^ ((s as u64) << 20)) % 10) as u32,
    };
    Some(match style {
        0 => true,
        1 => rnd(1) % 4096 < 3329,
        2 => rnd(2) % 2 == 0,
        3 => c % 2 == 0,
        4 => c % 2 == 1,
        5 => !matches!(c % 64, 0 | 1 | 62 | 63) || rnd(3) % 4 == 0,
        6 => c >= 112,
        7 => c != (mix(seed ^ s as u64) % 256) as u32,
        8 => c < 254 || c >= 290,
        _ => !(100..230).contains(&c),
    })
}

impl Run {
    pub fn new(m: std::rc::Rc<crate::ir::Module>, set: &str, pat: &str, seed: u64) -> Run {
        let mut ex = Exec::new(m);
        let (p2, s2) = (pat.to_string(), seed);
        ex.cx.apps.pattern = Some(Box::new(move |s, c| decide_pattern(&p2, s2, s, c)));
        ex.cx.apps.seed = seed;
        crate::xw::install_x25519(&mut ex);
        Run { ex, rep: Report::default(), p: params(set), pat: pat.into(), seed, ctr: 0, inputs: vec![], conc: None, overlay: Default::default(), app_eq: Default::default(), roots: vec![], safety: false, check: "?".into(), set: set.into() }
    }
    pub fn rnd(&mut self) -> u64 {
        self.ctr += 1;
        mix(self.seed.wrapping_mul(0x1000193) ^ (self.ctr << 20) ^ 0x77)
    }
    /// fresh symbolic bytes
    pub fn vars(&mut self, name: &str, n: usize) -> Vec<T> {
        let mut sims = vec![];
        for _ in 0..n {
            let mut s: Sims = [0; NS];
            for k in 0..NS {
                s[k] = self.rnd() & 0xff;
            }
            sims.push(s);
        }
        self.vars_sims(name, &sims)
    }
    pub fn vars_sims(&mut self, name: &str, sims: &[Sims]) -> Vec<T> {
        let mut v = vec![];
        let mut rec = vec![];
        for (i, s) in sims.iter().enumerate() {
            let n = format!("{name}[{i}]");
            let mut s = *s;
            if let Some(&o) = self.overlay.get(&n) {
                s = [o; NS];
            }
            let t = match self.conc {
                Some(k) => self.ex.cx.konst(8, s[k] as u128),
                None => self.ex.cx.var(8, &n, s),
            };
            v.push(t);
            rec.push((t, s));
        }
        self.inputs.push((name.to_string(), rec));
        v
    }
    /// concrete cases worth trying natively, in the format the replay program reads
    pub fn hints(&self) -> String {
        let mut o = String::new();
        let mut case = |k: usize, ov: &FxMap<T, u128>| {
            o += &format!("property={}\nset={}\n", self.check, self.set);
            for (n, v) in &self.inputs {
                o += &format!("in.{n}=");
                for (t, s) in v {
                    o += &format!("{:02x}", ov.get(t).map(|x| *x as u64).unwrap_or(s[k]) & 0xff);
                }
                o += "\n";
            }
            o += "\n";
        };
        for ov in self.guided() {
            for k in [0, NS / 2, NS - 1] {
                case(k, &ov.iter().map(|(t, v)| (*t, v[k] as u128)).collect());
            }
        }
        let none = Default::default();
        let mut ks = self.rep.bad_sims.clone();
        ks.sort();
        ks.dedup();
        for k in ks {
            case(k, &none);
        }
        for m in self.rep.models.iter().take(12) {
            let mut ov: FxMap<T, u128> = Default::default();
            for (t, v) in m {
                match self.ex.cx.node(*t) {
                    Node::Var(_) => {
                        ov.insert(*t, *v);
                    }
                    Node::Slices(ps) => {
                        // bits of input bytes
                        let mut o = 0;
                        for p in ps.iter() {
                            if matches!(self.ex.cx.node(p.t), Node::Var(_)) && self.ex.cx.width(p.t) == 8 {
                                let e = ov.entry(p.t).or_insert(self.ex.cx.sims[p.t as usize][0] as u128);
                                let mask = ((1u128 << p.len) - 1) << p.lo;
                                *e = (*e & !mask) | (((v >> o) << p.lo) & mask);
                            }
                            o += p.len as u32;
                        }
                    }
                    _ => {}
                }
            }
            if !ov.is_empty() {
                for k in [0, NS / 2, NS - 1] {
                    case(k, &ov);
                }
            }
        }
        o
    }
    /// the refuted terms test input bytes against computed values: inputs that pass those tests,
    /// per run of adjacent bytes and together
    fn guided(&self) -> Vec<Vec<(T, Sims)>> {
        let cx = &self.ex.cx;
        let is_in = |t: T| matches!(cx.node(t), Node::Var(_)) && cx.width(t) == 8;
        let mut st: Vec<T> = self.roots.iter().chain(&self.ex.bad_conds).copied().collect();
        let mut seen: FxSet<T> = Default::default();
        let mut tests: FxMap<T, Sims> = Default::default();
        while let Some(x) = st.pop() {
            if !seen.insert(x) || seen.len() > 3_000_000 {
                continue;
            }
            match cx.node(x) {
                Node::Uf(a, _) => st.extend(cx.apps.apps[*a as usize].args.iter()),
                Node::Eq(a, b) | Node::Bin(B::Xor, a, b) => {
                    for (a, b) in [(*a, *b), (*b, *a)] {
                        if cx.width(a) > 64 || cx.width(a) < 5 {
                            continue;
                        }
                        let mut o = 0;
                        for p in cx.pieces(a) {
                            if is_in(p.t) && p.len > 4 {
                                let mut v = cx.sims[p.t as usize];
                                for k in 0..NS {
                                    let m = (((1u128 << p.len) - 1) as u64) << p.lo;
                                    v[k] = v[k] & !m | ((cx.sim(b, k) >> o) as u64) << p.lo & m;
                                }
                                tests.entry(p.t).or_insert(v);
                            }
                            o += p.len as u32;
                        }
                    }
                    st.extend([*a, *b]);
                }
                _ => st.extend(cx.children(x)),
            }
        }
        let mut out = vec![];
        let mut all = vec![];
        for (_, v) in &self.inputs {
            let mut run = vec![];
            for (t, _) in v {
                match tests.get(t) {
                    Some(s) => run.push((*t, *s)),
                    None if !run.is_empty() => {
                        out.push(std::mem::take(&mut run));
                        out.last().map(|r| all.extend(r.iter().copied()));
                    }
                    None => {}
                }
            }
            if !run.is_empty() {
                all.extend(run.iter().copied());
                out.push(run);
            }
        }
        out.truncate(40);
        if out.len() > 1 {
            out.push(all);
        }
        out
    }
    pub fn buf(&mut self, bytes: &[T], name: &str) -> u32 {
        let o = self.ex.alloc(bytes.len() as u64, 1, name);
        self.ex.set_bytes(o, 0, bytes);
        o
    }
    pub fn out(&mut self, n: usize, name: &str) -> u32 {
        self.ex.alloc(n as u64, 1, name)
    }
    pub fn read(&mut self, o: u32, n: usize) -> X<Vec<T>> {
        self.ex.get_bytes(o, 0, n as u64)
    }
    pub fn call(&mut self, name: &str, args: &[u32]) -> X<Val> {
        let n = format!("{name}{}", self.p.name);
        self.call_raw(&n, args)
    }
    pub fn call_raw(&mut self, name: &str, args: &[u32]) -> X<Val> {
        let a: Vec<Val> = args.iter().map(|&o| self.ex.p(o)).collect();
        self.ex.call_name(name, a)
    }
    pub fn spec<R>(&mut self, f: impl FnOnce(&mut Sym) -> R) -> R {
        let mut s = Sym::new(&mut self.ex.cx);
        s.on_x25519 = Some(crate::xw::x25519_uf);
        s.raw = s.cx.no_canon;
        let r = f(&mut s);
        let u = s.undecided;
        if u > 0 {
            self.rep.details.push(format!("{u} candidate conditions used by the specification are not decided on the implementation's path"));
        }
        r
    }
    fn note_sims(&mut self, x: T, y: T) {
        for k in 0..NS {
            if self.ex.cx.is_active(k) && self.ex.cx.sim(x, k) != self.ex.cx.sim(y, k) {
                self.rep.bad_sims.push(k);
            }
        }
    }
    /// assert a == b byte by byte
    pub fn same(&mut self, what: &str, a: &[T], b: &[T]) {
        if self.safety {
            return;
        }
        if a.len() != b.len() {
            self.rep.mismatched += 1;
            self.rep.details.push(format!("{what}: length {} vs {}", a.len(), b.len()));
            return;
        }
        let mut shown = 0;
        let mut ident = vec![];
        for i in 0..a.len() {
            self.rep.compared += 1;
            if a[i] == b[i] {
                self.rep.same_term += 1;
                ident.push((a[i], b[i]));
                continue;
            }
            let (w1, w2) = (self.ex.cx.width(a[i]), self.ex.cx.width(b[i]));
            let w = w1.max(w2);
            let x = self.ex.cx.zext(a[i], w);
            let y = self.ex.cx.zext(b[i], w);
            let e = self.ex.cx.eq(x, y);
            // after a few failures the verdict is settled; do not spend solver time on the rest
            let settled = self.rep.mismatched >= 4 || self.rep.undecided >= 4;
            match if settled { Res::Unknown("skipped".into()) } else { self.ex.cx.check(e) } {
                Res::Proved => self.rep.by_solver += 1,
                Res::RefutedBySim(k) => {
                    self.rep.mismatched += 1;
                    self.roots.push(e);
                    self.note_sims(x, y);
                    if shown < 3 {
                        shown += 1;
                        let d = format!("{what}[{i}] differs: {:#x} vs specification {:#x} (assignment {k})", self.ex.cx.sim(x, k), self.ex.cx.sim(y, k));
                        self.rep.details.push(d);
                    }
                }
                Res::Refuted(m, _) => {
                    self.rep.mismatched += 1;
                    self.roots.push(e);
                    self.rep.models.push(m);
                    if shown < 3 {
                        shown += 1;
                        let d = format!("{what}[{i}] differs (solver model): {} vs {}", self.ex.cx.show(x, 5), self.ex.cx.show(y, 5));
                        self.rep.details.push(d);
                    }
                }
                Res::Unknown(m) => {
                    self.rep.undecided += 1;
                    self.roots.push(e);
                    if shown < 3 {
                        shown += 1;
                        let d = format!("{what}[{i}] undecided ({m}): {} vs {}", self.ex.cx.show(x, 5), self.ex.cx.show(y, 5));
                        self.rep.details.push(d);
                    }
                }
            }
        }
        if !ident.is_empty() && self.conc.is_none() {
            match self.ex.cx.certify(&ident) {
                Some(true) => self.rep.certified += ident.len() as u64,
                Some(false) => {
                    self.rep.undecided += 1;
                    self.rep.details.push(format!("{what}: internal: the solver refutes an equality of identical terms"));
                }
                None => {}
            }
        }
    }
    /// assert that a boolean term always holds
    pub fn holds(&mut self, what: &str, c: T) -> bool {
        if self.safety {
            return true;
        }
        self.rep.compared += 1;
        match self.ex.cx.check(c) {
            Res::Proved => {
                if self.ex.cx.is_const(c) {
                    self.rep.same_term += 1
                } else {
                    self.rep.by_solver += 1
                }
                true
            }
            r @ (Res::RefutedBySim(_) | Res::Refuted(..)) => {
                self.rep.mismatched += 1;
                self.roots.push(c);
                match r {
                    Res::Refuted(m, _) => self.rep.models.push(m),
                    _ => {
                        let one = self.ex.cx.tt();
                        self.note_sims(c, one)
                    }
                }
                if self.rep.details.len() < 12 {
                    self.rep.details.push(format!("{what} fails"));
                }
                false
            }
            Res::Unknown(m) => {
                self.rep.undecided += 1;
                self.roots.push(c);
                if self.rep.details.len() < 12 {
                    self.rep.details.push(format!("{what} undecided ({m})"));
                }
                false
            }
        }
    }
    pub fn finish(&mut self, r: X<()>) {
        for f in &self.ex.findings {
            if let Some(k) = f.sim {
                self.rep.bad_sims.push(k);
            }
            if !f.model.is_empty() {
                self.rep.models.push(f.model.clone());
            }
            let d = format!("{}{}: {}", if f.inconclusive { "(undecided) " } else { "" }, f.kind, f.msg);
            if self.rep.details.len() < 8 && !self.rep.details.contains(&d) {
                self.rep.details.push(d);
            }
        }
        let bad = self.ex.findings.iter().any(|f| !f.inconclusive) || self.rep.mismatched > 0;
        let und = self.ex.findings.iter().any(|f| f.inconclusive) || self.rep.undecided > 0;
        self.rep.status = match (&r, bad, und) {
            (_, true, _) => "violated",
            (Err(Stop::Panic(_)), _, _) => "violated",
            (Err(_), _, _) => "unsupported",
            (_, _, true) => "undecided",
            _ => "ok",
        }
        .into();
        match r {
            Err(Stop::Unsupported(m)) => self.rep.details.push(format!("unsupported: {m} [{}]", self.ex.log.join("; "))),
            Err(Stop::Panic(m)) => self.rep.details.push(format!("stopped: {m}")),
            _ => {}
        }
    }
    pub fn sims_of(&self, v: &[T]) -> Vec<Sims> {
        v.iter().map(|&t| self.ex.cx.sims[t as usize]).collect()
    }
    /// simulation values of an honest (dk, ct, ek) triple, computed in a separate context
    pub fn honest(&mut self) -> (Vec<Sims>, Vec<Sims>, Vec<Sims>) {
        let mut r = Run::new(self.ex.m.clone(), self.p.name, &self.pat, self.seed);
        r.ctr = 1 << 30;
        let p = r.p;
        let d = r.vars("d", 32);
        let z = r.vars("z", 32);
        let m = r.vars("m", 32);
        let (ek, dk, ct) = r.spec(|s| {
            let (ek, dk) = spec::keygen(s, &p, &d, &z);
            let (_, ct) = spec::encaps(s, &p, &ek, &m);
            (ek, dk, ct)
        });
        (r.sims_of(&dk), r.sims_of(&ct), r.sims_of(&ek))
    }
    /// ek bytes: arbitrary; half of the simulations honest
    pub fn ek_vars(&mut self, honest: &[Sims]) -> Vec<T> {
        let n = honest.len();
        let mut sims = vec![[0u64; NS]; n];
        for i in 0..n {
            for k in 0..NS {
                sims[i][k] = if k < NS / 2 { self.rnd() & 0xff } else { honest[i][k] };
            }
        }
        self.vars_sims("ek", &sims)
    }
    pub fn dk_ct_vars(&mut self) -> (Vec<T>, Vec<T>) {
        let (hdk, hct, _) = self.honest();
        let mut dk = vec![[0u64; NS]; hdk.len()];
        let mut ct = vec![[0u64; NS]; hct.len()];
        for i in 0..hdk.len() {
            for k in 0..NS {
                dk[i][k] = if k < 3 { self.rnd() & 0xff } else { hdk[i][k] };
            }
        }
        for i in 0..hct.len() {
            for k in 0..NS {
                ct[i][k] = if k < 4 { self.rnd() & 0xff } else { hct[i][k] };
            }
        }
        let n = ct.len();
        let pos = (self.rnd() % n as u64) as usize;
        ct[pos][4] ^= 1 << (self.rnd() % 8);
        // honest ciphertext under a decapsulation key with one byte changed: hash, embedded key
        let nd = dk.len();
        let b = self.rnd();
        dk[nd - 64 + (b % 32) as usize][5] ^= 1 << (b >> 8 & 7);
        let b = self.rnd();
        dk[nd / 2 + (b % 64) as usize][6] ^= 1 << (b >> 8 & 7);
        let dk = self.vars_sims("dk", &dk);
        let ct = self.vars_sims("ct", &ct);
        (dk, ct)
    }

    // ---------------------------------------------------------------- checks
    pub fn keygen(&mut self) -> X<()> {
        let p = self.p;
        let d = self.vars("d", 32);
        let z = self.vars("z", 32);
        let (bd, bz) = (self.buf(&d, "d"), self.buf(&z, "z"));
        let (dk, ek, ek2) = (self.out(p.dk_len(), "dk"), self.out(p.ek_len(), "ek"), self.out(p.ek_len(), "ek2"));
        self.call("h_keygen", &[bd, bz, dk, ek, ek2])?;
        let (dk, ek, ek2) = (self.read(dk, p.dk_len())?, self.read(ek, p.ek_len())?, self.read(ek2, p.ek_len())?);
        let (sek, sdk) = self.spec(|s| spec::keygen(s, &p, &d, &z));
        self.same("dk", &dk, &sdk);
        self.same("ek", &ek, &sek);
        self.same("dk.encapsulation_key()", &ek2, &sek);
        Ok(())
    }
    pub fn encaps(&mut self) -> X<()> {
        let p = self.p;
        let (_, _, hek) = self.honest();
        let ek = self.ek_vars(&hek);
        let m = self.vars("m", 32);
        let (bek, bm) = (self.buf(&ek, "ek"), self.buf(&m, "m"));
        let (ct, ss) = (self.out(p.ct_len(), "ct"), self.out(32, "ss"));
        self.call("h_encaps", &[bek, bm, ct, ss])?;
        let (ct, ss) = (self.read(ct, p.ct_len())?, self.read(ss, 32)?);
        let (sss, sct) = self.spec(|s| {
            let r = spec::reduce_ek(s, &p, &ek);
            spec::encaps(s, &p, &r, &m)
        });
        self.same("ss", &ss, &sss);
        self.same("ct", &ct, &sct);
        Ok(())
    }
    pub fn decaps(&mut self) -> X<()> {
        let p = self.p;
        let (dk, ct) = self.dk_ct_vars();
        let (bdk, bct) = (self.buf(&dk, "dk"), self.buf(&ct, "ct"));
        let ss = self.out(32, "ss");
        self.ex.sweep_stores = true;
        self.call("h_decaps", &[bdk, bct, ss])?;
        self.ex.sweep_stores = false;
        let ss = self.read(ss, 32)?;
        let (sss, eq, kp, kbar) = self.spec(|s| {
            let r = spec::reduce_dk(s, &p, &dk);
            let (k, eq, kp, kbar, _) = spec::decaps_full(s, &p, &r, &ct);
            (k, eq, kp, kbar)
        });
        let acc: Vec<String> = (0..NS).map(|k| self.ex.cx.sim(eq, k).to_string()).collect();
        self.rep.extra.push(("accepted_in_assignments".into(), acc.join(",")));
        self.same("ss", &ss, &sss);
        let _ = (kp, kbar);
        Ok(())
    }
    /// C26: one key, used for ct, ct2 and (a clone of it) ct again, then encoded
    pub fn seqdk(&mut self) -> X<()> {
        let p = self.p;
        let (dk, ct) = self.dk_ct_vars();
        let ct2 = self.other(&ct, "ct2");
        let (bdk, b1, b2) = (self.buf(&dk, "dk"), self.buf(&ct, "ct"), self.buf(&ct2, "ct2"));
        let n = p.dk_len();
        let o: Vec<u32> = (0..3).map(|i| self.out(32, &format!("ss{i}"))).collect();
        let (out, ek) = (self.out(n, "out"), self.out(p.ek_len(), "ek"));
        self.ex.sweep_stores = true;
        self.call("h_seqdk", &[bdk, b1, b2, o[0], o[1], o[2], out, ek])?;
        self.ex.sweep_stores = false;
        let (r, s1, s2) = self.spec(|s| {
            let r = spec::reduce_dk(s, &p, &dk);
            let a = spec::decaps(s, &p, &r, &ct);
            let b = spec::decaps(s, &p, &r, &ct2);
            (r, a, b)
        });
        for (i, w) in [&s1, &s2, &s1].into_iter().enumerate() {
            let x = self.read(o[i], 32)?;
            self.same(&format!("ss of decapsulation {}", i + 1), &x, w);
        }
        let x = self.read(out, n)?;
        self.same("dk after use", &x, &r);
        let x = self.read(ek, p.ek_len())?;
        self.same("embedded ek after use", &x, &r[384 * p.k..768 * p.k + 32]);
        Ok(())
    }
    pub fn seqek(&mut self) -> X<()> {
        let p = self.p;
        let (_, _, hek) = self.honest();
        let ek = self.ek_vars(&hek);
        let (m, m2) = (self.vars("m", 32), self.vars("m2", 32));
        let (bek, b1, b2) = (self.buf(&ek, "ek"), self.buf(&m, "m"), self.buf(&m2, "m2"));
        let mut o = vec![];
        for i in 0..3 {
            o.push(self.out(p.ct_len(), &format!("ct{i}")));
            o.push(self.out(32, &format!("ss{i}")));
        }
        let out = self.out(p.ek_len(), "out");
        self.call("h_seqek", &[bek, b1, b2, o[0], o[1], o[2], o[3], o[4], o[5], out])?;
        let (r, w) = self.spec(|s| {
            let r = spec::reduce_ek(s, &p, &ek);
            let a = spec::encaps(s, &p, &r, &m);
            let b = spec::encaps(s, &p, &r, &m2);
            (r, [a, b])
        });
        for i in 0..3 {
            let x = self.read(o[2 * i], p.ct_len())?;
            self.same(&format!("ct of encapsulation {}", i + 1), &x, &w[i % 2].1);
            let x = self.read(o[2 * i + 1], 32)?;
            self.same(&format!("ss of encapsulation {}", i + 1), &x, &w[i % 2].0);
        }
        let x = self.read(out, p.ek_len())?;
        self.same("ek after use", &x, &r);
        Ok(())
    }
    /// variables whose simulation values are those of another value of the same kind, shifted
    pub fn other(&mut self, v: &[T], name: &str) -> Vec<T> {
        let mut s = self.sims_of(v);
        for x in s.iter_mut() {
            for k in 0..NS {
                if k >= 4 {
                    x[k] = self.rnd() & 0xff;
                }
            }
        }
        self.vars_sims(name, &s)
    }
    pub fn ekrt(&mut self) -> X<()> {
        let p = self.p;
        let n = p.ek_len();
        self.ex.cx.no_canon = true;
        let ek = self.vars("ek", n);
        let (a, b) = (self.buf(&ek, "ek"), self.out(n, "out"));
        self.call("h_ekrt", &[a, b])?;
        let o = self.read(b, n)?;
        let s = self.spec(|s| spec::reduce_ek(s, &p, &ek));
        self.same("ek", &o, &s);
        Ok(())
    }
    pub fn dkrt(&mut self) -> X<()> {
        let p = self.p;
        let n = p.dk_len();
        self.ex.cx.no_canon = true;
        let dk = self.vars("dk", n);
        let (a, b, c) = (self.buf(&dk, "dk"), self.out(n, "out"), self.out(p.ek_len(), "ek"));
        self.call("h_dkrt", &[a, b, c])?;
        let o = self.read(b, n)?;
        let e = self.read(c, p.ek_len())?;
        let s = self.spec(|s| spec::reduce_dk(s, &p, &dk));
        self.same("dk", &o, &s);
        let k = p.k;
        self.same("embedded ek", &e, &s[384 * k..768 * k + 32]);
        Ok(())
    }

    // ---- implicit rejection
    /// the output is the accepted key exactly when every ciphertext byte equals the re-encryption,
    /// and SHAKE256(z || c) otherwise
    pub fn reject(&mut self, each: bool) -> X<()> {
        let p = self.p;
        let (dk, ct) = self.dk_ct_vars();
        let (bdk, bct) = (self.buf(&dk, "dk"), self.buf(&ct, "ct"));
        let ss = self.out(32, "ss");
        self.ex.sweep_stores = true;
        self.call("h_decaps", &[bdk, bct, ss])?;
        self.ex.sweep_stores = false;
        let ss = self.read(ss, 32)?;
        let (kp, kbar, c2) = self.spec(|s| {
            let r = spec::reduce_dk(s, &p, &dk);
            let (_, _, kp, kbar, c2) = spec::decaps_full(s, &p, &r, &ct);
            (kp, kbar, c2)
        });
        if !each && self.conc.is_none() && self.reject_by_parts(&ss, &kp, &kbar, &ct, &c2) {
            return Ok(());
        }
        let cx = &mut self.ex.cx;
        let mut all = cx.tt();
        let mut eqs = vec![];
        for i in 0..ct.len() {
            let e = cx.eq(ct[i], c2[i]);
            eqs.push(e);
            all = cx.and(all, e);
        }
        let nall = cx.not(all);
        for j in 0..32 {
            let cx = &mut self.ex.cx;
            let (a, b) = (cx.eq(ss[j], kp[j]), cx.eq(ss[j], kbar[j]));
            let (acc, rej) = (cx.or(nall, a), cx.or(all, b));
            self.holds(&format!("ss[{j}] is the accepted key when the whole ciphertext matches"), acc);
            self.holds(&format!("ss[{j}] is SHAKE256(z || c) when any byte differs"), rej);
        }
        // every single position on its own decides
        let n = ct.len();
        let pos: Vec<usize> = if each {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = vec![0, 1, 31, 32, n / 2, n - 33, n - 32, n - 2, n - 1];
            for _ in 0..7 {
                v.push((self.rnd() % n as u64) as usize);
            }
            v
        };
        for i in pos {
            let cx = &mut self.ex.cx;
            let b = cx.eq(ss[0], kbar[0]);
            let f = cx.or(eqs[i], b);
            self.holds(&format!("a difference in ciphertext byte {i} alone leads to SHAKE256(z || c)"), f);
        }
        Ok(())
    }

    /// every byte of the result is (if C then accepted key else rejection key) for one condition
    /// C, and C is equivalent to equality of the ciphertexts
    fn reject_by_parts(&mut self, ss: &[T], kp: &[T], kbar: &[T], ct: &[T], c2: &[T]) -> bool {
        let mut conds: Vec<T> = vec![];
        for j in 0..32 {
            let Node::Ite(c, x, y) = *self.ex.cx.node(ss[j]) else { return false };
            let (e, f) = (self.ex.cx.eq(x, kp[j]), self.ex.cx.eq(y, kbar[j]));
            if self.ex.cx.check(e) != Res::Proved || self.ex.cx.check(f) != Res::Proved {
                return false;
            }
            self.rep.compared += 2;
            self.rep.same_term += 2;
            if !conds.contains(&c) {
                conds.push(c);
            }
        }
        for c in conds {
            self.iff_all_equal("acceptance condition", c, ct, c2);
        }
        true
    }

    // ---- agreement
    /// replace the compressed decryption noise by the message bit: the decryption-failure event
    /// does not occur
    pub fn no_failure(&mut self, w: &[u32], m: &[T]) {
        for (i, &f) in w.iter().enumerate() {
            let cx = &mut self.ex.cx;
            let x = cx.fq(f);
            let c = crate::sym::compress_term(cx, x, 1);
            let b = cx.extract(m[i / 8], (i % 8) as u32, 1);
            if c == b {
                continue;
            }
            let e = cx.eq(c, b);
            cx.assume(e, true);
            cx.same_as.insert(c, b);
            for wd in [8u32, 16, 32, 64] {
                let (x, y) = (cx.zext(c, wd), cx.zext(b, wd));
                cx.same_as.insert(x, y);
            }
            // comparisons of the noise with constants are decided by the message bit too
        }
    }
    /// keys parsed from encodings with a correct embedded hash: encapsulate, then decapsulate
    pub fn agree_parsed(&mut self) -> X<()> {
        let p = self.p;
        let k = p.k;
        let (hdk, _, _) = self.honest();
        let dk0 = self.vars_sims("dk", &hdk);
        let m = self.vars("m", 32);
        let ek = dk0[384 * k..768 * k + 32].to_vec();
        // H(ek) of the key the encoding stands for
        let (h, w) = self.spec(|s| {
            let r = spec::reduce_dk(s, &p, &dk0);
            let ekr = r[384 * k..768 * k + 32].to_vec();
            let h = spec::sha3_256(s, &ekr);
            let (_, ct) = spec::encaps(s, &p, &ekr, &m);
            let w = spec::pke_decrypt_w(s, &p, &r[..384 * k], &ct);
            (h, w)
        });
        self.no_failure(&w, &m);
        let mut dk = dk0.clone();
        dk[768 * k + 32..768 * k + 64].copy_from_slice(&h);
        let (bek, bm, ct, s1) = (self.buf(&ek, "ek"), self.buf(&m, "m"), self.out(p.ct_len(), "ct"), self.out(32, "ss1"));
        self.ex.sweep_stores = true;
        self.call("h_encaps", &[bek, bm, ct, s1])?;
        let (bdk, s2) = (self.buf(&dk, "dk"), self.out(32, "ss2"));
        self.call("h_decaps", &[bdk, ct, s2])?;
        self.ex.sweep_stores = false;
        let (a, b) = (self.read(s1, 32)?, self.read(s2, 32)?);
        self.same("receiver's key", &b, &a);
        Ok(())
    }
    /// keys straight from generation (h_agree) or through their encodings (h_agree2_)
    pub fn agree(&mut self, f: &str) -> X<()> {
        let p = self.p;
        let (d, z, m) = (self.vars("d", 32), self.vars("z", 32), self.vars("m", 32));
        let w = self.spec(|s| {
            let (ek, dk) = spec::keygen(s, &p, &d, &z);
            let (_, ct) = spec::encaps(s, &p, &ek, &m);
            spec::pke_decrypt_w(s, &p, &dk[..384 * p.k], &ct)
        });
        self.no_failure(&w, &m);
        let (bd, bz, bm) = (self.buf(&d, "d"), self.buf(&z, "z"), self.buf(&m, "m"));
        let (ct, s1, s2) = (self.out(p.ct_len(), "ct"), self.out(32, "ss1"), self.out(32, "ss2"));
        self.ex.sweep_stores = true;
        self.call(f, &[bd, bz, bm, ct, s1, s2])?;
        self.ex.sweep_stores = false;
        let (a, b) = (self.read(s1, 32)?, self.read(s2, 32)?);
        self.same("receiver's key", &b, &a);
        Ok(())
    }

    // ---- randomness
    pub fn genrng(&mut self) -> X<()> {
        let p = self.p;
        let buf = self.vars("buf", 128);
        let b = self.buf(&buf, "rng");
        let (dk, ek) = (self.out(p.dk_len(), "dk"), self.out(p.ek_len(), "ek"));
        let n = format!("h_genrng{}", p.name);
        let len = self.ex.cx.konst(64, 128);
        let args = vec![self.ex.p(b), Val::I(len), self.ex.p(dk), self.ex.p(ek)];
        let r = self.ex.call_name(&n, args)?;
        self.drawn(r, 64)?;
        let (dk, ek) = (self.read(dk, p.dk_len())?, self.read(ek, p.ek_len())?);
        let (sek, sdk) = self.spec(|s| spec::keygen(s, &p, &buf[..32], &buf[32..64]));
        self.same("dk", &dk, &sdk);
        self.same("ek", &ek, &sek);
        Ok(())
    }
    pub fn drawn(&mut self, r: Val, want: u64) -> X<()> {
        let t = self.ex.as_int(&r)?;
        let k = self.ex.cx.konst(64, want as u128);
        let e = self.ex.cx.eq(t, k);
        self.holds(&format!("exactly {want} random bytes are drawn"), e);
        Ok(())
    }
    pub fn encrng(&mut self) -> X<()> {
        let p = self.p;
        let (_, _, hek) = self.honest();
        let ek = self.ek_vars(&hek);
        let buf = self.vars("buf", 64);
        let (bek, b) = (self.buf(&ek, "ek"), self.buf(&buf, "rng"));
        let (ct, ss) = (self.out(p.ct_len(), "ct"), self.out(32, "ss"));
        let n = format!("h_encrng{}", p.name);
        let len = self.ex.cx.konst(64, 64);
        let args = vec![self.ex.p(bek), self.ex.p(b), Val::I(len), self.ex.p(ct), self.ex.p(ss)];
        let r = self.ex.call_name(&n, args)?;
        self.drawn(r, 32)?;
        let (ct, ss) = (self.read(ct, p.ct_len())?, self.read(ss, 32)?);
        let (sss, sct) = self.spec(|s| {
            let r = spec::reduce_ek(s, &p, &ek);
            spec::encaps(s, &p, &r, &buf[..32])
        });
        self.same("ss", &ss, &sss);
        self.same("ct", &ct, &sct);
        Ok(())
    }

    // ---- wiping
    pub fn cells_same(&mut self, what: &str, a: u32, b: u32) -> X<()> {
        let n = self.ex.mem[a as usize].cells.len();
        let (mut x, mut y) = (vec![], vec![]);
        for i in 0..n {
            let (ca, cb) = (self.ex.mem[a as usize].cells[i], self.ex.mem[b as usize].cells[i]);
            match (self.ex.cell_byte(ca), self.ex.cell_byte(cb)) {
                (Some(p), Some(q)) => {
                    x.push(p);
                    y.push(q);
                }
                (None, None) => {}
                _ => return Err(Stop::Unsupported(format!("{what}: byte {i} is initialised in one copy only"))),
            }
        }
        self.same(what, &x, &y);
        Ok(())
    }
    pub fn size_of(&mut self, f: &str) -> X<u64> {
        let v = self.ex.call_name(f, vec![])?;
        let t = self.ex.as_int(&v)?;
        self.ex.cx.cval(t).map(|x| x as u64).ok_or(Stop::Unsupported("size".into()))
    }
    /// two keys with the same public part: after drop the memory is the same
    pub fn wipe(&mut self) -> X<()> {
        let p = self.p;
        let k = p.k;
        self.ex.cx.no_canon = true;
        let dk = self.vars("dk", p.dk_len());
        let sec = self.vars("dk2", p.dk_len());
        let mut dk2 = sec.clone();
        dk2[384 * k..768 * k + 64].copy_from_slice(&dk[384 * k..768 * k + 64]);
        let n = self.size_of(&format!("h_dksize{}", p.name))?;
        let mut slots = vec![];
        for v in [&dk, &dk2] {
            let b = self.buf(v, "dk");
            let o = self.ex.alloc(n, 16, "key");
            let fill: Vec<T> = vec![self.ex.cx.konst(8, 0x33); n as usize];
            self.ex.set_bytes(o, 0, &fill);
            self.call("h_mkdk", &[b, o])?;
            slots.push(o);
        }
        // the two keys really differ before the drop
        let differ = (0..n as usize).any(|i| self.ex.mem[slots[0] as usize].cells[i] != self.ex.mem[slots[1] as usize].cells[i]);
        if !differ && self.conc.is_none() {
            return Err(Stop::Unsupported("key memory does not hold the secrets".into()));
        }
        for &o in &slots {
            self.call("h_dropdk", &[o])?;
        }
        self.rep.extra.push(("key_bytes".into(), n.to_string()));
        self.cells_same("key memory after drop", slots[0], slots[1])
    }

    // ---- equality
    pub fn eq(&mut self, which: &str) -> X<()> {
        let p = self.p;
        let n = if which == "ek" { p.ek_len() } else { p.dk_len() };
        self.ex.cx.no_canon = true;
        let a = self.vars(which, n);
        let mut sims = vec![[0u64; NS]; n];
        for i in 0..n {
            sims[i] = self.inputs[0].1[i].1;
        }
        // single-position differences in the later assignments
        for k in 2..NS {
            let i = (self.rnd() % n as u64) as usize;
            sims[i][k] ^= 1 << (self.rnd() % 8);
        }
        for s in sims.iter_mut() {
            s[0] = self.rnd() & 0xff;
        }
        let b = self.vars_sims(&format!("{which}2"), &sims);
        let (ba, bb) = (self.buf(&a, "a"), self.buf(&b, "b"));
        let r = self.call(if which == "ek" { "h_eqek" } else { "h_eqdk" }, &[ba, bb])?;
        let r = self.ex.as_int(&r)?;
        let r = self.ex.cx.extract(r, 0, 1);
        let (x, y) = self.spec(|s| {
            if which == "ek" {
                (spec::reduce_ek(s, &p, &a), spec::reduce_ek(s, &p, &b))
            } else {
                (spec::reduce_dk(s, &p, &a), spec::reduce_dk(s, &p, &b))
            }
        });
        self.iff_all_equal(which, r, &x, &y);
        Ok(())
    }
    /// r holds exactly when x and y agree everywhere
    pub fn iff_all_equal(&mut self, what: &str, r: T, x: &[T], y: &[T]) {
        if self.safety {
            return;
        }
        let es: Vec<T> = x.iter().zip(y).map(|(&a, &b)| self.ex.cx.eq(a, b)).collect();
        let rs = conjuncts(&mut self.ex.cx, r);
        self.rep.extra.push(("conjuncts".into(), rs.len().to_string()));
        if std::env::var("KEMSYM_VERBOSE").is_ok() {
            for &c in rs.iter().take(3).chain(rs.iter().rev().take(3)) {
                eprintln!("conj {}", self.ex.cx.show(c, 4).chars().take(300).collect::<String>());
            }
        }
        for (i, &e) in es.iter().enumerate() {
            if self.rep.mismatched + self.rep.undecided >= 4 {
                return;
            }
            self.implied(&format!("{what}: values comparing equal agree in byte {i}"), &rs, e);
        }
        for &c in &rs {
            if self.rep.mismatched + self.rep.undecided >= 4 {
                return;
            }
            self.implied(&format!("{what}: equal encodings compare equal"), &es, c);
        }
    }
    /// equalities between outputs of uninterpreted functions in c whose arguments are equal
    /// under the hypotheses
    fn congruence(&mut self, hyp: &[T], c: T) -> Vec<T> {
        let mut ufs: Vec<(u32, u16)> = vec![];
        for &t in self.ex.support(c).map(|v| v.to_vec()).unwrap_or_default().iter() {
            if let Node::Uf(a, i) = *self.ex.cx.node(t) {
                ufs.push((a, i));
            }
        }
        let mut out = vec![];
        for x in 0..ufs.len() {
            for y in 0..ufs.len() {
                let ((a, i), (b, j)) = (ufs[x], ufs[y]);
                if a < b && i == j && self.apps_equal(hyp, a, b) {
                    let ap = &self.ex.cx.apps.apps;
                    let (p, q) = (ap[a as usize].outs[i as usize], ap[b as usize].outs[i as usize]);
                    out.push(self.ex.cx.eq(p, q));
                }
            }
        }
        out
    }
    fn apps_equal(&mut self, hyp: &[T], a: u32, b: u32) -> bool {
        if let Some(&r) = self.app_eq.get(&(a, b)) {
            return r;
        }
        let (x, y) = (self.ex.cx.apps.apps[a as usize].clone(), self.ex.cx.apps.apps[b as usize].clone());
        let mut ok = x.name == y.name && x.args.len() == y.args.len();
        if ok {
            for (&p, &q) in x.args.iter().zip(&y.args) {
                let e = self.ex.cx.eq(p, q);
                if self.ex.cx.cval(e) == Some(1) {
                    continue;
                }
                let saved = (self.rep.mismatched, self.rep.undecided, self.rep.details.len(), self.rep.bad_sims.len(), self.rep.models.len());
                ok = self.implied("argument of the hash", hyp, e);
                self.rep.mismatched = saved.0;
                self.rep.undecided = saved.1;
                self.rep.details.truncate(saved.2);
                self.rep.bad_sims.truncate(saved.3);
                self.rep.models.truncate(saved.4);
                if !ok {
                    break;
                }
            }
        }
        self.app_eq.insert((a, b), ok);
        ok
    }
    /// the conjunction of `hyp` implies c; hypotheses without common inputs are tried last
    pub fn implied(&mut self, what: &str, hyp: &[T], c: T) -> bool {
        let key: Vec<T> = self.ex.support(c).map(|v| v.to_vec()).unwrap_or_default();
        let set: FxSet<T> = key.into_iter().collect();
        let mut near = vec![];
        for &h in hyp {
            let hit = match self.ex.support(h) {
                None => true,
                Some(v) => v.iter().any(|t| set.contains(t)),
            };
            if hit {
                near.push(h);
            }
        }
        let form = |cx: &mut Ctx, hs: &[T]| {
            let mut all = cx.tt();
            for &h in hs {
                all = cx.and(all, h);
            }
            let n = cx.not(all);
            cx.or(n, c)
        };
        let f = form(&mut self.ex.cx, &near);
        if near.len() < hyp.len() {
            if self.ex.cx.check(f) == Res::Proved {
                self.rep.compared += 1;
                if self.ex.cx.is_const(f) {
                    self.rep.same_term += 1
                } else {
                    self.rep.by_solver += 1
                }
                return true;
            }
            let extra = self.congruence(hyp, c);
            let mut hs = if extra.is_empty() { hyp.to_vec() } else { near };
            hs.extend(extra);
            let f = form(&mut self.ex.cx, &hs);
            return self.holds(what, f);
        }
        self.holds(what, f)
    }
}

/// the conjunction t = c1 & c2 & ... flattened, wide equalities split into bytes
pub fn conjuncts(cx: &mut Ctx, t: T) -> Vec<T> {
    let mut out = vec![];
    let mut st = vec![t];
    let mut seen: FxSet<T> = Default::default();
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match *cx.node(x) {
            Node::Bin(B::And, a, b) if cx.width(x) == 1 => {
                st.push(b);
                st.push(a);
            }
            Node::Eq(a, b) if cx.width(a) > 16 => {
                let w = cx.width(a);
                let mut o = 0;
                while o < w {
                    let n = 8.min(w - o);
                    let (p, q) = (cx.extract(a, o, n), cx.extract(b, o, n));
                    let e = cx.eq(p, q);
                    if e == x {
                        out.push(x);
                    } else {
                        st.push(e);
                    }
                    o += n;
                }
            }
            _ => out.push(x),
        }
    }
    out.retain(|&x| cx.cval(x) != Some(1));
    out
}

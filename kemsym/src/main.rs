mod checks;
mod ct;
mod dh;
mod exec;
mod ir;
mod poly;
mod smt;
mod spec;
mod sym;
mod term;
mod uf;
mod xw;
use std::rc::Rc;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep recursion over terms
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let ok = h.join().unwrap_or(2);
    std::process::exit(ok);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let ll = get("--ll", "");
    let check = get("--check", "keygen");
    let set = get("--set", "768");
    let pat = get("--pattern", "accept");
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let t0 = std::time::Instant::now();
    let src = match std::fs::read_to_string(&ll) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let m = match ir::Module::parse(&src) {
        Ok(m) => Rc::new(m),
        Err(e) => {
            println!("{{\"status\":\"unsupported\",\"details\":[{}]}}", esc(&format!("IR parse: {e}")));
            return 0;
        }
    };
    let tparse = t0.elapsed().as_secs_f64();
    let mut r = checks::Run::new(m, &set, &pat, seed);
    if let Ok(k) = get("--concrete", "-").parse::<usize>() {
        r.conc = Some(k % term::NS);
        r.ex.concrete_only = true;
        r.ex.cx.apps.conc_k = Some(k % term::NS);
    }
    for o in get("--overlay", "").split(',') {
        // name=hex: replaces the whole group
        if let Some((n, h)) = o.split_once('=') {
            for i in 0..h.len() / 2 {
                r.overlay.insert(format!("{n}[{i}]"), u64::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0));
            }
        }
    }
    r.check = check.clone();
    r.ex.havoc = get("--havoc", "0") == "1";
    r.safety = get("--safety", "0") == "1";
    let res = match check.as_str() {
        "keygen" => r.keygen(),
        "encaps" => r.encaps(),
        "decaps" => r.decaps(),
        "reject" => r.reject(false),
        "rejectall" => r.reject(true),
        "agreep" => r.agree_parsed(),
        "agree" => r.agree("h_agree"),
        "agree2" => r.agree("h_agree2_"),
        "genrng" => r.genrng(),
        "encrng" => r.encrng(),
        "seqdk" => r.seqdk(),
        "seqek" => r.seqek(),
        "xseqdk" => r.xseqdk(),
        "xseqek" => r.xseqek(),
        "wipe" => r.wipe(),
        "eqek" => r.eq("ek"),
        "eqdk" => r.eq("dk"),
        "ekrt" => r.ekrt(),
        "dkrt" => r.dkrt(),
        "xkeygen" => r.xkeygen(),
        "xgenrng" => r.xgenrng(),
        "xencaps" => r.xencaps(),
        "xdecaps" => r.xdecaps(),
        "xrt" => r.xrt(),
        "xeqek" => r.xeq("ek"),
        "xeqct" => r.xeq("ct"),
        "xagree" => r.xagree("h_xagree"),
        "xagree2" => r.xagree("h_xagree2_"),
        "dagree" => r.dagree(&set, false),
        "dfull" => r.dagree(&set, true),
        "dpair" => r.dpair(&set),
        "dpoint" => r.dpoint(&set),
        "dwrap" => r.dwrap(),
        "xwipe" => r.xwipe(),
        "ctgen" | "ctenc" | "ctdec" | "ctxgen" | "ctxenc" | "ctxdec" => r.ct(&check),
        _ => {
            eprintln!("unknown check {check}");
            return 2;
        }
    };
    r.finish(res);
    let hints = get("--hints", "");
    if !hints.is_empty() && r.rep.status != "ok" {
        std::fs::write(&hints, r.hints()).ok();
    }
    let secs = t0.elapsed().as_secs_f64();
    let e = &r.ex;
    let mut fields: Vec<(String, String)> = vec![];
    let mut num = |k: &str, v: String| fields.push((k.into(), v));
    num("check", esc(&check));
    num("set", esc(&set));
    num("pattern", esc(&pat));
    num("seed", seed.to_string());
    num("status", esc(&r.rep.status));
    num("compared", r.rep.compared.to_string());
    num("same_term", r.rep.same_term.to_string());
    num("certified", r.rep.certified.to_string());
    num("by_solver", r.rep.by_solver.to_string());
    num("mismatched", r.rep.mismatched.to_string());
    num("undecided", r.rep.undecided.to_string());
    num("panic_obligations", e.obligations.to_string());
    num("panic_obligations_by_interval", e.obl_const.to_string());
    num("instructions", e.steps.to_string());
    num("terms", e.cx.nodes.len().to_string());
    num("apps", e.cx.apps.apps.len().to_string());
    num("apps_unified", e.cx.apps.unified.to_string());
    num("xof_streams", e.cx.apps.n_xof.to_string());
    num("xof_path_conditions", e.xof_assumptions.len().to_string());
    num("if_conversions", e.ifconv.to_string());
    num("canonicalised", e.cx.stats.canon.to_string());
    num("range_by_interval", e.cx.stats.range_by_interval.to_string());
    num("range_by_solver", e.cx.stats.range_by_smt.to_string());
    num("merges", e.cx.stats.merges.to_string());
    for (k, v) in e.cx.smt.stats_json() {
        num(&k, v);
    }
    num("seconds_parse", format!("{tparse:.2}"));
    num("seconds", format!("{secs:.2}"));
    num("writable_statics", e.statics.len().to_string());
    num("functions_run", e.funcs_run.len().to_string());
    let fs: Vec<String> = e.funcs_run.iter().map(|(k, v)| esc(&format!("{} x{v}", exec::Exec::pretty(k)))).collect();
    num("functions", format!("[{}]", fs.join(",")));
    let ds: Vec<String> = r.rep.details.iter().map(|d| esc(d)).collect();
    num("details", format!("[{}]", ds.join(",")));
    let un: Vec<String> = e.cx.stats.unproved.iter().take(8).map(|d| esc(d)).collect();
    num("unproved", format!("[{}]", un.join(",")));
    let ex: Vec<String> = r.rep.extra.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect();
    num("extra", format!("{{{}}}", ex.join(",")));
    let mut bs = r.rep.bad_sims.clone();
    bs.sort();
    bs.dedup();
    num("bad_sims", format!("{bs:?}"));
    let body: Vec<String> = fields.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    println!("{{{}}}", body.join(","));
    0
}

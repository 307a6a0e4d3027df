//! extract: turns functions of /repo (parsed with syn on every run) plus the contract sidecars in
//! /verif/spec/*.vs into one Verus file.  The rewriting rules are listed in DESIGN.md ("Extraction").
mod source;
mod tx;

use serde_json::json;
use source::Repo;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::process::{Command, Stdio};

/// Options of one `//% fn`.
#[derive(Default, Clone, Debug)]
pub struct FnOpts {
    pub world: bool,
    pub mutself: bool,
    pub nolock: bool,
    pub rwlock: Vec<String>,
    pub mayfail: Vec<String>,
    pub ret: Option<String>,
    pub params: Vec<String>,
    pub option_map: bool,
    /// thread scopes are run sequentially
    pub seqscope: bool,
    /// the function is verified once per arm of the first `match` on something named so
    pub split: Option<String>,
    pub optiter: bool,
    pub iter_opaque: bool,
    pub contract_only: bool,
    pub decl: bool,
    pub assumed: bool,
    pub guards: bool,
    pub boolops: bool,
    pub mutiter: bool,
    pub maypanic: bool,
    pub refuses: bool,
    pub locals: Vec<(String, usize)>,
    pub sig: Option<String>,
    pub emit_as: Option<String>,
    pub noworld: Vec<String>,
    /// `&x.f` of these fields (which have interior mutability) is an exclusive reference
    pub mutref: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub name: String,
    pub opts: FnOpts,
    pub attrs: String,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_attrs: BTreeMap<usize, String>,
    pub proofs: BTreeMap<String, String>,
}

#[derive(Clone, Debug)]
enum Dir {
    Raw(String),
    File(String),
    Ty(String, String, Vec<String>),
    /// name, contract
    Static(String, String), // kind, name, opts
    Impl(String, String, Vec<String>),
    End,
    Fn(Box<FnSpec>),
}

pub struct Cfg {
    pub effects: BTreeSet<String>,
    pub typemap: Vec<(String, String)>,
    pub pathmap: Vec<(String, String)>,
    /// associated constants that are verified as functions: `A::SIZE` becomes `A::size()`
    pub constfn: BTreeSet<String>,
    pub erase: BTreeSet<String>,
    /// fields that wrap a context (Deref): the fields, the wrapper's own methods, the methods by exclusive reference
    pub proxies: Vec<BTreeSet<String>>,
    pub enums_dispatch: Vec<(String, String, bool)>,
    pub contracts: BTreeSet<String>,
    pub shims: BTreeSet<String>,
    pub features: BTreeSet<String>,
}

fn parse_opts(words: &[&str]) -> FnOpts {
    let mut o = FnOpts::default();
    for w in words {
        let (k, v) = match w.find('=') {
            Some(i) => (&w[..i], Some(&w[i + 1..])),
            None => (*w, None),
        };
        match (k, v) {
            ("world", None) => o.world = true,
            ("mutself", None) => o.mutself = true,
            ("boolops", None) => o.boolops = true,
            // elements iterated by shared reference have interior mutability: iterate by exclusive reference
            ("mutiter", None) => o.mutiter = true,
            ("maypanic", None) => o.maypanic = true,
            // panic! and assert! may refuse (vx_abort, vx_check); unwrap must still succeed
            ("refuses", None) => o.refuses = true,
            ("guards", None) => o.guards = true,
            ("optmap", None) => o.option_map = true,
            ("seqscope", None) => o.seqscope = true,
            ("split", Some(v)) => o.split = Some(v.to_string()),
            // `.iter()` may be that of an Option: elements by vx_len/vx_at
            ("optiter", None) => o.optiter = true,
            ("nolock", None) => o.nolock = true,
            // an array of locked cells in these fields: a function takes one lock once, which is erased
            // `x.m(..).unwrap()` may refuse for these methods
            ("mayfail", Some(r)) => o.mayfail = r.split(',').map(String::from).collect(),
            ("rwlock", Some(r)) => o.rwlock = r.split(',').map(String::from).collect(),
            ("decl", None) => o.decl = true,
            ("contract_only", None) => o.contract_only = true,
            ("ret", Some(r)) => o.ret = Some(r.into()),
            ("as", Some(r)) => o.emit_as = Some(r.into()),
            ("noworld", Some(r)) => o.noworld = r.split(',').map(String::from).collect(),
            ("params", Some(p)) => o.params = p.split(',').map(String::from).collect(),
            ("mutref", Some(r)) => o.mutref = r.split(',').map(String::from).collect(),
            ("local", Some(p)) => {
                let (n, k) = p.split_once(':').expect("local=name:k");
                o.locals.push((n.into(), k.parse().unwrap()));
            }
            _ => panic!("bad fn option {w}"),
        }
    }
    o
}

fn parse_spec(text: &str, cfg: &mut Cfg, dirs: &mut Vec<Dir>) {
    enum Tgt {
        Raw,
        Contract,
        Loop(usize),
        LoopAttr(usize),
        Proof(String),
        Attr,
        Sig,
    }
    let mut tgt = Tgt::Raw;
    let mut raw = String::new();
    let mut cur: Option<Box<FnSpec>> = None;
    macro_rules! flush {
        () => {
            if !raw.trim().is_empty() {
                dirs.push(Dir::Raw(std::mem::take(&mut raw)));
            }
            raw.clear();
            if let Some(f) = cur.take() {
                dirs.push(Dir::Fn(f));
            }
        };
    }
    for line in text.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//%") {
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "raw" => {
                    flush!();
                    tgt = Tgt::Raw;
                }
                "file" => {
                    flush!();
                    dirs.push(Dir::File(rest.into()));
                    tgt = Tgt::Raw;
                }
                "struct" | "enum" => {
                    flush!();
                    let mut it = rest.split_whitespace();
                    let n = it.next().unwrap().to_string();
                    dirs.push(Dir::Ty(cmd.into(), n, it.map(String::from).collect()));
                    tgt = Tgt::Raw;
                }
                "static" => {
                    flush!();
                    let (n, c) = rest.split_once(' ').unwrap_or((rest, ""));
                    dirs.push(Dir::Static(n.into(), c.into()));
                    tgt = Tgt::Raw;
                }
                "impl" | "trait" => {
                    flush!();
                    let (sel, hdr) = rest.split_once("=>").unwrap_or((rest, ""));
                    let (sel, opts) = match sel.split_once('[') {
                        Some((s, o)) => (
                            s.trim().to_string(),
                            o.trim().trim_end_matches(']').split_whitespace().map(String::from).collect(),
                        ),
                        None => (sel.trim().to_string(), vec![]),
                    };
                    let mut opts: Vec<String> = opts;
                    let sel = if cmd == "trait" {
                        opts.push("trait".into());
                        format!("trait {sel}")
                    } else {
                        sel
                    };
                    dirs.push(Dir::Impl(sel, hdr.trim().into(), opts));
                    tgt = Tgt::Raw;
                }
                "end" => {
                    flush!();
                    dirs.push(Dir::End);
                    tgt = Tgt::Raw;
                }
                "fn" => {
                    flush!();
                    let mut it = rest.split_whitespace();
                    let name = it.next().unwrap().to_string();
                    let words: Vec<&str> = it.collect();
                    let opts = parse_opts(&words);
                    cfg.contracts.insert(name.clone());
                    if opts.world {
                        cfg.effects.insert(opts.emit_as.clone().unwrap_or(name.clone()));
                    }
                    cur = Some(Box::new(FnSpec { name, opts, ..Default::default() }));
                    tgt = Tgt::Contract;
                }
                "attr" => tgt = Tgt::Attr,
                "sig" => tgt = Tgt::Sig,
                "loop" => {
                    let k: usize = rest.parse().unwrap();
                    cur.as_mut().unwrap().loops.entry(k).or_default();
                    tgt = Tgt::Loop(k);
                }
                "loopattr" => tgt = Tgt::LoopAttr(rest.parse().unwrap()),
                "proof" => tgt = Tgt::Proof(rest.split_whitespace().collect::<Vec<_>>().join(" ")),
                "effects" => cfg.effects.extend(rest.split_whitespace().map(String::from)),
                "shims" => cfg.shims.extend(rest.split_whitespace().map(String::from)),
                "proxy" => cfg.proxies = rest.split_whitespace().map(|w| w.split(',').map(String::from).collect()).collect(),
                "erase" => cfg.erase.extend(rest.split_whitespace().map(String::from)),
                "typemap" => {
                    let (a, b) = rest.split_once("=>").unwrap();
                    cfg.typemap.push((a.trim().into(), b.trim().into()));
                }
                "pathmap" => {
                    let (a, b) = rest.split_once("=>").unwrap();
                    cfg.pathmap.push((a.trim().into(), b.trim().into()));
                }
                "constfn" => cfg.constfn.extend(rest.split_whitespace().map(String::from)),
                "dispatch" => {
                    let mut it = rest.split_whitespace();
                    cfg.enums_dispatch.push((it.next().unwrap().into(), it.next().unwrap().into(), it.next() == Some("ufcs")));
                }
                _ => panic!("unknown directive {cmd}"),
            }
            continue;
        }
        let dst: &mut String = match &tgt {
            Tgt::Raw => &mut raw,
            Tgt::Contract => &mut cur.as_mut().unwrap().contract,
            Tgt::Attr => &mut cur.as_mut().unwrap().attrs,
            Tgt::Sig => cur.as_mut().unwrap().opts.sig.get_or_insert_with(String::new),
            Tgt::Loop(k) => cur.as_mut().unwrap().loops.entry(*k).or_default(),
            Tgt::LoopAttr(k) => cur.as_mut().unwrap().loop_attrs.entry(*k).or_default(),
            Tgt::Proof(p) => cur.as_mut().unwrap().proofs.entry(p.clone()).or_default(),
        };
        dst.push_str(line);
        dst.push('\n');
    }
    flush!();
}

pub fn rustfmt(src: &str) -> String {
    let mut ch = Command::new("rustfmt")
        .args(["--edition", "2021", "--emit", "stdout"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    let mut si = ch.stdin.take().unwrap();
    let s = src.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(s.as_bytes());
    });
    let out = ch.wait_with_output().unwrap();
    let _ = h.join();
    if !out.status.success() {
        return src.to_string();
    }
    String::from_utf8_lossy(&out.stdout).into_owned()
}

struct Pending {
    key: String,
    text: String,
}

fn main() {
    let mut repo_path = "/repo".to_string();
    let mut specs: Vec<(String, bool)> = vec![];
    let mut out = String::new();
    let mut map = String::new();
    let mut feats: BTreeSet<String> = BTreeSet::new();
    let mut only: Option<BTreeSet<String>> = None;
    let mut stub: BTreeSet<String> = BTreeSet::new();
    let mut smoke = false;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--repo" => repo_path = a.next().unwrap(),
            "--spec" => specs.push((a.next().unwrap(), false)),
            // a sidecar whose functions are verified in another unit: contracts only
            "--assume" => specs.push((a.next().unwrap(), true)),
            "--out" => out = a.next().unwrap(),
            "--map" => map = a.next().unwrap(),
            "--feature" => {
                feats.insert(a.next().unwrap());
            }
            "--only" => only = Some(a.next().unwrap().split(',').map(String::from).collect()),
            "--stub" => stub = a.next().unwrap().split(',').map(String::from).collect(),
            "--smoke" => smoke = true,
            _ => panic!("arg {x}"),
        }
    }
    let mut cfg = Cfg {
        effects: Default::default(),
        proxies: Default::default(),
        typemap: vec![],
        pathmap: vec![],
        constfn: Default::default(),
        erase: Default::default(),
        enums_dispatch: vec![],
        contracts: Default::default(),
        shims: Default::default(),
        features: feats,
    };
    let mut dirs = vec![];
    for (s, assumed) in &specs {
        let t = fs::read_to_string(s).unwrap_or_else(|e| panic!("{s}: {e}"));
        let n = dirs.len();
        parse_spec(&t, &mut cfg, &mut dirs);
        if *assumed {
            for d in &mut dirs[n..] {
                if let Dir::Fn(f) = d {
                    f.opts.contract_only = true;
                    f.opts.assumed = true;
                }
            }
        }
    }
    let mut repo = Repo::new(&repo_path, cfg.features.clone());
    repo.load_all();
    for (tr, en, ufcs) in cfg.enums_dispatch.clone() {
        repo.synth_dispatch(&tr, &en, ufcs);
    }

    let mut file = String::new();
    let mut cur_impl: Option<(String, Vec<String>)> = None;
    // pass 1: produce chunks; function bodies are collected for a single rustfmt call
    enum Chunk {
        Text(String),
        Fn(usize),
    }
    let mut chunks: Vec<Chunk> = vec![];
    let mut bodies: Vec<Pending> = vec![];
    let mut recs: Vec<serde_json::Value> = vec![];
    struct FnOut {
        header: String,
        spec: FnSpec,
        key: String,
        nobody: bool,
        rec: usize,
    }
    let mut fns: Vec<FnOut> = vec![];

    for d in dirs {
        match d {
            Dir::Raw(t) => chunks.push(Chunk::Text(t)),
            Dir::File(f) => file = f,
            Dir::Ty(kind, name, opts) => match repo.find_type(&file, &kind, &name) {
                Some(it) => match tx::emit_type(&it, &cfg, &opts) {
                    Ok(t) => chunks.push(Chunk::Text(rustfmt(&t))),
                    Err(e) => {
                        recs.push(json!({"kind":"type","name":name,"file":file,"error":e}));
                    }
                },
                None => recs.push(json!({"kind":"type","name":name,"file":file,"error":"not found"})),
            },
            Dir::Static(name, contract) => match repo.find_static(&file, &name) {
                Some((t, e)) => chunks.push(Chunk::Text(format!(
                    "pub exec static {name}: {t} ensures {contract} {{ let vx_s = {e}; proof {{ assume({}); }} vx_s }}\n",
                    contract.replace(name.as_str(), "vx_s")
                ))),
                None => recs.push(json!({"kind":"static","name":name,"file":file,"error":"not found"})),
            },
            Dir::Impl(sel, hdr, opts) => {
                chunks.push(Chunk::Text(format!("{hdr} {{\n")));
                cur_impl = Some((sel, opts));
            }
            Dir::End => {
                chunks.push(Chunk::Text("}\n".into()));
                cur_impl = None;
            }
            Dir::Fn(spec) => {
                let (sel, iopts) = cur_impl.clone().unwrap_or_default();
                let key = if sel.is_empty() {
                    format!("{}::{}", file, spec.name)
                } else {
                    format!("{}::<{}>::{}", file, sel, spec.name)
                };
                let found = repo.find_fn(&file, &sel, &spec.name);
                let rec = recs.len();
                match found {
                    None => {
                        recs.push(json!({"kind":"fn","key":key,"error":"not found in the source"}));
                        continue;
                    }
                    Some(ff) => {
                        let excluded = only.as_ref().is_some_and(|o| !o.contains(&key)) || stub.contains(&key);
                        let res = tx::emit_fn(&ff, &spec, &cfg, &repo, &iopts);
                        match res {
                            Ok(mut e) => {
                                if spec.opts.decl {
                                    e.body = None;
                                }
                                let nobody = e.body.is_none();
                                if let Some(b) = &e.body {
                                    bodies.push(Pending { key: key.clone(), text: b.clone() });
                                }
                                let missing: Vec<usize> =
                                    spec.loops.keys().copied().filter(|k| *k >= e.nloops).collect();
                                recs.push(json!({
                                    "kind":"fn","key":key,"source_line":ff.line,"source_end":ff.end_line,"nloops":e.nloops,
                                    "spec_loops":spec.loops.len(),
                                    "loops_unmatched": missing,
                                    "extra_loops": e.nloops.saturating_sub(spec.loops.len()),
                                    "unknown_callees":e.unknown,"inlined":e.inlined,"dropped":e.dropped,
                                    "unsupported":e.unsupported,
                                    "contract_only": spec.opts.contract_only || excluded,
                                    "assumed": spec.opts.assumed,
                                    "body_hash": e.hash,
                                    "nobody": nobody,
                                }));
                                let mut sp = (*spec).clone();
                                if excluded {
                                    sp.opts.contract_only = true;
                                }
                                fns.push(FnOut { header: e.header, spec: sp, key: key.clone(), nobody, rec });
                                chunks.push(Chunk::Fn(fns.len() - 1));
                            }
                            Err(m) => recs.push(json!({"kind":"fn","key":key,"error":m})),
                        }
                    }
                }
            }
        }
    }
    // format every body in one go
    let mut joined = String::new();
    for (i, p) in bodies.iter().enumerate() {
        joined.push_str(&format!("fn vxbody_{i}() {}\n//@@END {i}\n", p.text));
    }
    let formatted = rustfmt(&joined);
    let mut fmt_bodies: BTreeMap<String, String> = BTreeMap::new();
    {
        let mut rest = formatted.as_str();
        for (i, p) in bodies.iter().enumerate() {
            let end = format!("//@@END {i}");
            let pos = rest.find(&end).unwrap_or_else(|| panic!("rustfmt lost body {i}"));
            let part = &rest[..pos];
            let start = part.find(&format!("vxbody_{i}()")).unwrap();
            let b = part[start..].find('{').unwrap() + start;
            fmt_bodies.insert(p.key.clone(), part[b..].trim_end().to_string());
            rest = &rest[pos + end.len()..];
        }
    }
    let mut o = String::new();
    o.push_str("#![allow(unused, non_snake_case, dead_code, unused_imports)]\n#![verifier::exec_allows_no_decreases_clause]\nuse vstd::prelude::*;\nverus! {\n");
    for c in chunks {
        match c {
            Chunk::Text(t) => {
                o.push_str(&t);
                if !t.ends_with('\n') {
                    o.push('\n');
                }
            }
            Chunk::Fn(i) => {
                let f = &fns[i];
                let start = o.matches('\n').count() + 1;
                if f.spec.opts.contract_only && !f.nobody {
                    o.push_str("#[verifier::external_body]\n");
                }
                // the case analysis: one copy per arm, the other arms cut off
                let body = fmt_bodies.get(&f.key);
                let arms = body.map(|b| b.matches("vx_arm!(").count()).unwrap_or(0).max(1);
                let arms = if f.nobody || f.spec.opts.contract_only { 1 } else { arms };
                for arm in 0..arms {
                    for a in f.spec.attrs.trim_end().lines() {
                        if !(smoke && a.contains("rlimit")) {
                            o.push_str(a);
                            o.push('\n');
                        }
                    }
                    let name = f.spec.opts.emit_as.clone().unwrap_or(f.spec.name.clone());
                    if arm == 0 {
                        o.push_str(&f.header);
                    } else {
                        o.push_str(&f.header.replacen(&format!("fn {name}"), &format!("fn {name}_case{arm}"), 1));
                    }
                    o.push('\n');
                    o.push_str(&f.spec.contract);
                    if f.nobody {
                        o.push_str(";\n");
                    } else if f.spec.opts.contract_only {
                        o.push_str("{ unimplemented!() }\n");
                    } else {
                        o.push_str(&finish_body(body.unwrap(), &f.spec, smoke, arm));
                        o.push('\n');
                    }
                }
                let end = o.matches('\n').count();
                recs[f.rec]["out_start"] = json!(start);
                recs[f.rec]["out_end"] = json!(end);
            }
        }
    }
    o.push_str("} // verus!\nfn main() {}\n");
    fs::write(&out, o).unwrap();
    fs::write(&map, serde_json::to_string_pretty(&json!({"items": recs})).unwrap()).unwrap();
}

/// Puts the loop contracts and proof blocks where the placeholders are.
fn finish_body(b: &str, spec: &FnSpec, smoke: bool, arm: usize) -> String {
    let mut out = String::new();
    let mut s = b.to_string();
    // loop placeholders: `{ vx_loop!(k);`
    loop {
        let Some(p) = s.find("vx_loop!(") else { break };
        let close = s[p..].find(");").unwrap() + p + 2;
        let k: usize = s[p + "vx_loop!(".len()..close - 2].trim().parse().unwrap();
        let brace = s[..p].rfind('{').unwrap();
        let inv = spec.loops.get(&k).cloned().unwrap_or_default();
        let mut start = String::new();
        if let Some(t) = spec.proofs.get(&format!("loop {k} start")) {
            start.push_str(t);
        }
        if smoke && spec.loops.contains_key(&k) {
            start.push_str(" proof { assert(false); } // smoke\n");
        }
        s = format!("{}\n{}{{\n{}{}", &s[..brace], inv, start, &s[close..]);
    }
    loop {
        let Some(p) = s.find("vx_loop_end!(") else { break };
        let close = s[p..].find(");").unwrap() + p + 2;
        let k: usize = s[p + "vx_loop_end!(".len()..close - 2].trim().parse().unwrap();
        let t = spec.proofs.get(&format!("loop {k} end")).cloned().unwrap_or_default();
        s = format!("{}{}{}", &s[..p], t, &s[close..]);
    }
    loop {
        let Some(p) = s.find("vx_pre!(") else { break };
        let close = s[p..].find(");").unwrap() + p + 2;
        let k: usize = s[p + "vx_pre!(".len()..close - 2].trim().parse().unwrap();
        let mut t = spec.proofs.get(&format!("loop {k} before")).cloned().unwrap_or_default();
        t.push_str(spec.loop_attrs.get(&k).map(|x| x.as_str()).unwrap_or_default());
        s = format!("{}{}{}", &s[..p], t, &s[close..]);
    }
    loop {
        let Some(p) = s.find("vx_after!(") else { break };
        let close = s[p..].find(");").unwrap() + p + 2;
        let k = s[p + "vx_after!(".len()..close - 2].trim().trim_matches('"').to_string();
        let t = spec.proofs.get(&k).cloned().unwrap_or_default();
        s = format!("{}{}{}", &s[..p], t, &s[close..]);
    }
    loop {
        let Some(p) = s.find("vx_arm!(") else { break };
        let close = s[p..].find(");").unwrap() + p + 2;
        let k: usize = s[p + "vx_arm!(".len()..close - 2].trim().parse().unwrap();
        let t = if k == arm { "" } else { "proof { assume(false); } // case split\n" };
        s = format!("{}{}{}", &s[..p], t, &s[close..]);
    }
    // what must hold where the function deliberately panics
    if let Some(t) = spec.proofs.get("panic") {
        s = s.replace("vx_abort()", &format!("{{ {} vx_abort() }}", t));
    }
    let first = s.find('{').unwrap();
    out.push_str("{\n");
    if let Some(t) = spec.proofs.get("start") {
        out.push_str(t);
    }
    if smoke {
        out.push_str(" proof { assert(false); } // smoke\n");
    }
    out.push_str(&s[first + 1..]);
    out
}

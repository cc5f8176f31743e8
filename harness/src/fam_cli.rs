//! C25: the command-line program, and its benchmarks (C26).
use crate::carc::{self, guard, Opts, Verdict};
use crate::g::{hash_str, G};
use crate::prf::{self, Cmd};
use crate::runner::{Case, Viol};
use crate::{fam_elab, fam_rare, fam_whole, whole, wild};
use carcara::ast::{self, ProofCommand};
use carcara::elaborator::{Config as ElabConfig, ElaborationStep};
use carcara::{parser, Error};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()))
}
fn bin() -> PathBuf {
    std::env::var("VERIF_CLI").map_or_else(|_| root().join("harness/target/cli/debug/carcara"), PathBuf::from)
}
/// A scratch directory, removed at the end of the case.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vharness-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Dir(p)
    }
    fn put(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).expect("scratch file");
    }
    fn get(&self, name: &str) -> Option<String> {
        std::fs::read_to_string(self.0.join(name)).ok()
    }
    fn list(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Out {
    code: Option<i32>,
    out: String,
    err: String,
}
fn run(d: &Dir, args: &[String], stdin: Option<&str>) -> Out {
    let mut c = Command::new(bin());
    c.args(args).current_dir(&d.0).env_remove("RUST_BACKTRACE");
    match stdin {
        Some(name) => c.stdin(Stdio::from(std::fs::File::open(d.0.join(name)).unwrap())),
        None => c.stdin(Stdio::null()),
    };
    let o = c.output().unwrap_or_else(|e| panic!("cannot run {}: {e}", bin().display()));
    Out { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}
fn s(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| x.to_string()).collect()
}
fn flags(o: &Opts) -> Vec<String> {
    let mut v = parse_flags(o);
    if o.ignore_unknown {
        v.push("--ignore-unknown-rules".into());
    }
    if o.elaborated {
        v.extend(s(&["--check-granularity", "elaborated"]));
    }
    if !o.allowed.is_empty() {
        v.push("--allowed-rules".into());
        v.extend(o.allowed.iter().cloned());
    }
    v
}
fn parse_flags(o: &Opts) -> Vec<String> {
    let mut v = vec![];
    for (b, f) in [
        (o.apply_defs, "--apply-function-defs"),
        (o.expand_lets, "--expand-let-bindings"),
        (o.subtyping, "--allow-int-real-subtyping"),
        (o.strict, "--strict-parsing"),
        (o.hole_args, "--parse-hole-args"),
    ] {
        if b {
            v.push(f.to_string());
        }
    }
    v
}
fn options(g: &mut G) -> Opts {
    let mut o = fam_whole::opts(g);
    o.apply_defs = g.chance(1, 3);
    o.expand_lets = g.chance(1, 3);
    o.subtyping = g.chance(1, 5);
    o.strict = g.chance(1, 5);
    o.hole_args = g.chance(1, 4);
    o
}
struct Inst {
    problem: String,
    proof: String,
    rules: Option<String>,
}
/// Mostly accepted instances, some rejected, some not parsed.
fn instance(g: &mut G) -> Inst {
    match g.weighted(&[10, 3, 2]) {
        0 => {
            let mut p = whole::any(g);
            for _ in 0..g.weighted(&[4, 3, 1]) {
                prf::mutate_prf(g, &mut p);
            }
            if g.chance(1, 8) {
                let k = g.u(whole::count(&p.cmds));
                let mut i = 0;
                prf::for_each_mut(&mut p.cmds, &mut |c| {
                    if let Cmd::Step { rule, .. } = c {
                        if i == k {
                            *rule = "foo".into();
                        }
                    }
                    i += 1;
                });
            }
            let mut proof = p.proof();
            if g.chance(1, 8) {
                let n = g.u(proof.len().max(1));
                proof = proof.chars().take(n).collect();
            }
            Inst { problem: p.problem(), proof, rules: None }
        }
        1 => {
            let (problem, proof) = wild::texts(g);
            Inst { problem, proof, rules: None }
        }
        _ => {
            let (problem, proof, rules) = fam_rare::texts(g);
            Inst { problem, proof, rules: Some(rules) }
        }
    }
}
impl Inst {
    fn files(&self, extra: Vec<(&str, String)>) -> Vec<(String, String)> {
        let mut v = vec![("problem.smt2".to_string(), self.problem.clone()), ("proof.alethe".to_string(), self.proof.clone())];
        if let Some(r) = &self.rules {
            v.push(("rules.rare".into(), r.clone()));
        }
        v.extend(extra.into_iter().map(|x| (x.0.to_string(), x.1)));
        v
    }
    fn case(&self, o: &Opts, more: &str) -> Case {
        Case { key: hash_str(&format!("{}{}{:?}{o:?}{more}", self.problem, self.proof, self.rules)), sample: format!("{o:?} {more}\n{}", self.proof.chars().take(400).collect::<String>()), ..Case::default() }
    }
}
/// The library's answer and the text of its error.
fn library(i: &Inst, o: &Opts) -> Result<Result<bool, Error>, carc::PanicInfo> {
    guard(|| carcara::check(i.problem.as_bytes(), i.proof.as_bytes(), i.rules.as_deref().map(str::as_bytes), o.parser(), o.checker(), false))
}
fn word(r: &Result<bool, Error>) -> &'static str {
    match r {
        Ok(false) => "valid",
        Ok(true) => "holey",
        Err(_) => "invalid",
    }
}

/// `check` against the library, over all routes of input.
pub fn verdicts(g: &mut G) -> Case {
    let i = instance(g);
    let o = options(g);
    let d = Dir::new();
    let stem = g.pick_s(&["p.smt2", "a.b.smt2", "x.smt", "in.smt_in", "p q.smt2", "é.smt2", "dir.d/p.smt2"]);
    let ext = g.pick_s(&["alethe", "proof", "x.alethe", "cvc5.proof"]);
    let (pb, pf) = (stem.to_string(), format!("{stem}.{ext}"));
    let mut c = i.case(&o, &pf);
    let lib = match library(&i, &o) {
        Err(_) => {
            c.label("panic");
            return c;
        }
        Ok(r) => r,
    };
    d.put(&pb, &i.problem);
    d.put(&pf, &i.proof);
    let mut base = flags(&o);
    if let Some(r) = &i.rules {
        d.put("r.rare", r);
        base.splice(0..0, s(&["--rare-file", "r.rare"]));
    }
    let want = word(&lib);
    c.label(want);
    c.nontrivial = true;
    let mut runs = vec![];
    let n = g.ur(2, 3);
    for _ in 0..n {
        runs.push((g.u(5), g.chance(1, 4), g.chance(1, 4), g.chance(1, 5), if g.chance(1, 4) { g.ur(2, 5) } else { 1 }, g.chance(1, 2), g.u(3)));
    }
    for (route, buffer, stats, quiet, threads, plain, order) in runs {
        let (pos, stdin): (Vec<String>, Option<&str>) = match route {
            0 | 1 => (vec![pf.clone(), pb.clone()], None),
            2 => (vec![pf.clone()], None),
            3 => (vec![pf.clone(), "-".into()], Some(&pb)),
            _ => (vec!["-".into(), pb.clone()], Some(&pf)),
        };
        let mut opts = vec![];
        if buffer {
            opts.push("--buffer-entire-file".to_string());
        }
        if stats {
            opts.push("--stats".into());
        }
        if quiet {
            opts.extend(s(&["--log", "off"]));
        }
        if threads > 1 {
            opts.extend([g_threads(order), threads.to_string()]);
        }
        if plain {
            opts.push(if order == 0 { "-v".into() } else { "--no-print-with-sharing".into() });
        }
        let mut args = vec!["check".to_string()];
        if order == 0 {
            args.extend(pos);
            args.extend(opts);
            args.extend(base.clone());
        } else {
            args.extend(opts);
            args.extend(base.clone());
            args.push("--".into());
            args.extend(pos);
        }
        let r = run(&d, &args, stdin);
        let show = format!("carcara {}", args.iter().map(|x| format!("'{x}'")).collect::<Vec<_>>().join(" "));
        let bad = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg: format!("{show} (input {stdin:?}): {msg}"), files: i.files(vec![("stdout", r.out.clone()), ("stderr", r.err.clone())]) });
        let code = if lib.is_ok() { 0 } else { 1 };
        if r.err.contains("os error 11") || r.err.contains("failed to join thread") {
            c.label("no thread");
            continue;
        }
        if r.code != Some(code) {
            c.viol = bad("exit status", format!("exit status {:?} instead of {code} ({want})", r.code));
            return c;
        }
        let last = r.out.lines().last().unwrap_or("");
        if last != want || !r.out.ends_with('\n') || (!stats && r.out.lines().count() != 1) {
            c.viol = bad("verdict printed", format!("standard output ends in {last:?}, the verdict is {want}"));
            return c;
        }
        if stats && lib.is_ok() && !(r.out.contains("by rule:") && r.out.contains("number of assumes:")) {
            c.viol = bad("statistics", "no statistics are printed".into());
            return c;
        }
        if quiet {
            if !r.err.is_empty() {
                c.viol = bad("log", "there is error output with --log off".into());
                return c;
            }
        } else if let Err(e) = &lib {
            let t = format!("[ERROR] {e}\n");
            let ok = if threads > 1 {
                r.err.contains("[ERROR] ")
            } else if plain {
                r.err.ends_with(&t)
            } else {
                match e {
                    Error::Checker { rule, step, .. } => r.err.contains(&format!("[ERROR] checking failed on step '{step}' with rule '{rule}': ")),
                    _ => r.err.contains("[ERROR] "),
                }
            };
            if !ok {
                c.viol = bad("error message", format!("the message should be {t:?}"));
                return c;
            }
        } else if r.err.contains("[ERROR]") {
            c.viol = bad("error message", "there is an error message for an accepted proof".into());
            return c;
        }
    }
    c
}
fn g_threads(order: usize) -> String {
    ["-u", "--num-threads"][order % 2].into()
}

fn text_of(pool: &mut ast::PrimitivePool, pb: &ast::Problem, pf: &ast::Proof, sharing: bool) -> String {
    let mut b = vec![];
    ast::write_proof_to_dest(pool, &pb.prelude, pf, &mut b, sharing).unwrap();
    String::from_utf8(b).unwrap()
}
fn simple_id(x: &str) -> bool {
    !x.is_empty() && x.len() < 40 && x.chars().all(|c| c.is_ascii_alphanumeric() || "._".contains(c)) && !x.starts_with('.')
}

/// The other commands: their output is the library's result, and reads back.
pub fn commands(g: &mut G) -> Case {
    let i = instance(g);
    let o = Opts { elaborated: false, ..options(g) };
    let which = g.u(4);
    let sharing = g.bool();
    let d = Dir::new();
    d.put("p.smt2", &i.problem);
    d.put("p.smt2.alethe", &i.proof);
    let mut rare = vec![];
    if let Some(r) = &i.rules {
        d.put("r.rare", r);
        rare = s(&["--rare-file", "r.rare"]);
    }
    let mut pos = vec!["p.smt2.alethe".to_string()];
    if g.bool() {
        pos.push("p.smt2".into());
    }
    let rules = i.rules.as_deref().map(str::as_bytes);
    let instance = || parser::parse_instance(i.problem.as_bytes(), i.proof.as_bytes(), rules, o.parser());
    let mut args: Vec<String> = vec![];
    let mut c = i.case(&o, &format!("{which} {sharing}"));
    // (standard output, files) or the error
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    type R = Result<Result<String, String>, carc::PanicInfo>;
    let want: R = match which {
        0 => {
            args.push("parse".into());
            args.extend(pos);
            args.extend(rare.clone());
            args.extend(parse_flags(&o));
            guard(|| instance().map(|(pb, pf, _, mut pool)| text_of(&mut pool, &pb, &pf, sharing)).map_err(|e| e.to_string()))
        }
        1 => {
            use ElaborationStep::*;
            let (pipe, full) = fam_elab::pipeline(g);
            let rotate = g.bool();
            args.push("elaborate".into());
            args.extend(pos);
            args.extend(rare.clone());
            args.extend(flags(&o));
            if !full {
                args.push("--pipeline".into());
                args.extend(pipe.iter().map(|p| {
                    match p {
                        Polyeq => "polyeq",
                        LiaGeneric => "lia-generic",
                        Local => "local",
                        Uncrowd => "uncrowd",
                        Reordering => "reordering",
                        Hole => "hole",
                    }
                    .to_string()
                }));
            }
            if rotate {
                args.push("--uncrowd-rotate".into());
            }
            if g.chance(1, 4) {
                args.push("--buffer-entire-file".into());
            }
            guard(|| {
                let cfg = ElabConfig { lia_options: None, uncrowd_rotation: rotate, hole_options: None };
                carcara::check_and_elaborate(i.problem.as_bytes(), i.proof.as_bytes(), rules, o.parser(), o.checker(), cfg, pipe.clone(), false)
                    .map(|(h, pb, pf, mut pool)| format!("{}\n{}", if h { "holey" } else { "valid" }, text_of(&mut pool, &pb, &pf, sharing)))
                    .map_err(|e| e.to_string())
            })
        }
        2 => {
            let dist = *g.pick(&[None, Some(0), Some(1), Some(2), Some(5), Some(usize::MAX)]);
            let pick = g.seed() as usize;
            let miss = g.chance(1, 12);
            let named = g.bool();
            args.push("slice".into());
            args.extend(pos);
            args.extend(rare.clone());
            args.extend(parse_flags(&o));
            let mut id = "\u{1}".to_string();
            let (files, id_) = (&mut files, &mut id);
            let r = guard(|| {
                let (pb, pf, _, mut pool) = instance().map_err(|e| e.to_string())?;
                let mut ids = vec![];
                let mut it = pf.iter();
                while let Some(c) = it.next() {
                    if !matches!(c, ProofCommand::Subproof(_)) {
                        ids.push(c.id().to_string());
                    }
                }
                *id_ = if miss || ids.is_empty() { "nothing".into() } else { ids[pick % ids.len()].clone() };
                let Some((sliced, asserts)) = carcara::slice::slice(&pf, id_, &mut pool, dist.unwrap_or(0)) else { return Err(format!("invalid id for slice: {id_}")) };
                let mut p = format!("{}", pb.prelude).into_bytes();
                ast::write_asserts(&mut pool, &pb.prelude, &mut p, &asserts, false).unwrap();
                let t = text_of(&mut pool, &pb, &sliced, sharing);
                let (fp, ft) = if named { ("out1.smt2".to_string(), "out2.alethe".to_string()) } else { (format!("p.smt2-{id_}.smt2"), format!("p.smt2-{id_}.alethe")) };
                files.insert(fp, format!("{}(check-sat)\n(exit)\n", String::from_utf8(p).unwrap()));
                files.insert(ft, format!("{t}\n"));
                Ok(t)
            });
            if id == "\u{1}" {
                id = "t1".into();
            }
            if !simple_id(&id) && !named {
                c.label("odd id");
                return c;
            }
            args.push(format!("--from={id}"));
            if let Some(n) = dist {
                args.extend(["-d".into(), n.to_string()]);
            }
            if named {
                args.extend(s(&["--sliced-output", "out1.smt2", "out2.alethe"]));
            }
            r
        }
        _ => {
            args.push("generate-lia-problems".into());
            args.extend(pos);
            args.extend(rare.clone());
            args.extend(parse_flags(&o));
            let files = &mut files;
            guard(|| {
                for (id, t) in carcara::generate_lia_smt_instances(i.problem.as_bytes(), i.proof.as_bytes(), rules, o.parser(), sharing).map_err(|e| e.to_string())? {
                    files.insert(format!("p.smt2.alethe-{id}.lia_smt2"), t);
                }
                Ok(String::new())
            })
        }
    };
    c.label(["parse", "elaborate", "slice", "lia problems"][which]);
    let Ok(want) = want else {
        c.label("panic");
        return c;
    };
    if files.keys().any(|f| f.contains('/') || f.contains('|')) {
        c.label("odd id");
        return c;
    }
    if !sharing {
        args.insert(0, "-v".into());
    }
    c.nontrivial = true;
    c.label(if want.is_ok() { "accepted" } else { "error" });
    let show = format!("carcara {}", args.iter().map(|x| format!("'{x}'")).collect::<Vec<_>>().join(" "));
    let before = d.list();
    let r = run(&d, &args, None);
    let bad = |sig: &str, msg: String, more: Vec<(&str, String)>| {
        let mut f = vec![("stdout", r.out.clone()), ("stderr", r.err.clone())];
        f.extend(more);
        Some(Viol { sig: format!("{}: {sig}", args.iter().find(|x| *x != "-v").unwrap()), msg: format!("{show}: {msg}"), files: i.files(f) })
    };
    let (code, out) = match &want {
        Ok(t) => (0, t.clone()),
        Err(_) => (1, String::new()),
    };
    if r.code != Some(code) {
        c.viol = bad("exit status", format!("exit status {:?} instead of {code} ({:?})", r.code, want.as_ref().err()), vec![]);
        return c;
    }
    if r.out != out {
        c.viol = bad("output", "standard output is not the library's result".into(), vec![("expected", out)]);
        return c;
    }
    match &want {
        Err(e) if !sharing && !r.err.ends_with(&format!("[ERROR] {e}\n")) => {
            c.viol = bad("error message", format!("the message should be {e}"), vec![]);
            return c;
        }
        Err(_) if !r.err.contains("[ERROR]") => {
            c.viol = bad("error message", "no error message".into(), vec![]);
            return c;
        }
        _ => (),
    }
    let new: Vec<String> = d.list().into_iter().filter(|f| !before.contains(f)).collect();
    let exp: Vec<String> = files.keys().cloned().collect();
    if new != exp {
        c.viol = bad("files", format!("the files {new:?} are written instead of {exp:?}"), vec![]);
        return c;
    }
    for (f, t) in &files {
        if d.get(f).as_ref() != Some(t) {
            c.viol = bad("file content", format!("the file {f} is not the library's result"), vec![("written", d.get(f).unwrap_or_default()), ("expected", t.clone())]);
            return c;
        }
    }
    // what is printed reads back to the same verdict
    if which == 0 && want.is_ok() && i.rules.is_none() {
        let mut a = vec!["check".to_string(), "again.alethe".into(), "p.smt2".into()];
        a.extend(rare);
        a.extend(flags(&o));
        d.put("again.alethe", &r.out);
        let q = run(&d, &a, None);
        if let Ok(l) = library(&i, &o) {
            if q.out.trim() != word(&l) {
                c.viol = bad("printed proof", format!("the printed proof is {}, the original {} ({})", q.out.trim(), word(&l), q.err), vec![]);
                return c;
            }
        }
    }
    c
}

/// The name of the problem file.
pub fn paths(g: &mut G) -> Case {
    let mut c = Case::default();
    let k = g.ur(1, 4);
    let parts: Vec<&str> = (0..k).map(|_| g.pick_s(&["p", "q.r", "smt", "smt2", "smt_in", "alethe", "proof", "txt", "a b", "SMT2", ""])).collect();
    let name = parts.join(".");
    let dir = g.pick_s(&["", "", "d/", "d.smt2/", "./"]);
    c.key = hash_str(&format!("{dir}{name}"));
    c.sample = format!("{dir}{name}");
    if name.starts_with('-') || name.is_empty() || name == "." || name == ".." || name.contains("..") || name.ends_with('.') || name.starts_with('.') {
        return c;
    }
    // strip extensions until one of the problem extensions is left
    let mut cur = name.clone();
    let want = loop {
        let Some((st, e)) = cur.rsplit_once('.') else { break None };
        if ["smt", "smt2", "smt_in"].contains(&e) {
            break Some(cur);
        }
        cur = st.to_string();
    };
    if want.as_ref() == Some(&name) {
        c.label("the problem itself");
        return c;
    }
    let d = Dir::new();
    d.put("d/x", "");
    d.put("d.smt2/x", "");
    // proofs of different content in every directory; only the right problem makes it valid
    let n = g.u(1000);
    d.put(&format!("{dir}{name}"), &format!("(assume h0 (= {n} {}))\n(assume h1 (not (= {n} {})))\n(step t (cl) :rule resolution :premises (h0 h1))\n", n + 1, n + 1));
    if let Some(w) = &want {
        d.put(&format!("{dir}{w}"), &format!("(assert (= {n} {}))\n(assert (not (= {n} {})))\n", n + 1, n + 1));
    }
    // decoys
    for x in ["p.smt2", "smt2", "p", "d.smt2.smt2"] {
        for y in ["", "d/"] {
            let f = format!("{y}{x}");
            if !d.0.join(&f).exists() {
                d.put(&f, "(assert true)\n");
            }
        }
    }
    c.nontrivial = true;
    c.label(if want.is_some() { "inferred" } else { "not inferred" });
    let args = s(&["check", &format!("{dir}{name}")]);
    let r = run(&d, &args, None);
    let ok = match &want {
        Some(_) => r.code == Some(0) && r.out == "valid\n",
        None => r.code == Some(1) && r.err.contains("can't infer problem file"),
    };
    if !ok {
        c.viol = Some(Viol { sig: "inferred problem file".into(), msg: format!("for the proof {dir}{name} the problem is {want:?}, but: {r:?}"), files: vec![] });
    }
    c
}

/// The message of a rejected proof names the step that is wrong: without this step the proof is
/// not rejected there.
pub fn blame(g: &mut G) -> Case {
    let mut p = whole::any(g);
    for _ in 0..g.weighted(&[0, 3, 2, 1]) {
        prf::mutate_prf(g, &mut p);
    }
    let o = fam_whole::opts(g);
    let (pb, pf) = (p.problem(), p.proof());
    let mut c = Case { key: hash_str(&format!("{pf}{o:?}")), sample: pf.clone(), ..Case::default() };
    let Verdict::Rejected(step, rule, msg) = carc::check(&pb, &pf, &o) else {
        c.label("not rejected");
        return c;
    };
    c.nontrivial = true;
    // all commands with this id and rule
    let mut hits = 0;
    let mut q = p.clone();
    fn is(id: &str, step: &str) -> bool {
        crate::eval::unquote_sym(id) == step
    }
    fn go(cmds: &mut Vec<Cmd>, step: &str, rule: &str, hits: &mut usize) {
        for c in cmds {
            match c {
                Cmd::Assume { id, .. } if is(id, step) && rule == "assume" => *hits += 1,
                Cmd::Step { id, rule: r, .. } if is(id, step) && is(r, rule) => {
                    *hits += 1;
                    *r = "trusted".into();
                }
                Cmd::Sub { body, .. } => go(body, step, rule, hits),
                _ => (),
            }
        }
    }
    go(&mut q.cmds, &step, &rule, &mut hits);
    let bad = |sig: &str, m: String| Some(Viol { sig: sig.into(), msg: format!("checking failed on step '{step}' with rule '{rule}': {msg}; {m}"), files: p.files() });
    if hits == 0 {
        c.viol = bad("blamed step", "there is no such step".into());
        return c;
    }
    if hits > 1 {
        c.label("repeated id");
        return c;
    }
    if rule == "assume" {
        // the term is the reason: as an assertion it is accepted
        c.label("assume");
        let mut t = None;
        for x in &q.cmds {
            if let Cmd::Assume { id, t: u } = x {
                if is(id, &step) {
                    t = Some(u.clone());
                }
            }
        }
        match t {
            None => c.viol = bad("blamed step", "the assumption is not at top level".into()),
            Some(t) => q.asserts.push(t),
        }
    }
    let mut o2 = o.clone();
    o2.allowed.push("trusted".into());
    match carc::check(&q.problem(), &q.proof(), &o2) {
        Verdict::Rejected(s2, r2, m) if s2 == step => c.viol = bad("blamed step", format!("still rejected there when the step is trusted: {r2} {m}")),
        Verdict::Rejected(s2, ..) => {
            // the error moved on: it has to be later
            let order = |cmds: &[Cmd]| {
                let mut v = vec![];
                fn ids(cmds: &[Cmd], v: &mut Vec<String>) {
                    for c in cmds {
                        if let Cmd::Sub { body, .. } = c {
                            ids(body, v);
                        } else {
                            v.push(c.id().to_string());
                        }
                    }
                }
                ids(cmds, &mut v);
                v
            };
            let v = order(&q.cmds);
            if let (Some(i), Some(j)) = (v.iter().position(|x| *x == step), v.iter().rposition(|x| *x == s2)) {
                if j < i {
                    c.viol = bad("order of errors", format!("with that step trusted, the earlier step {s2} is rejected"));
                }
            }
        }
        Verdict::ParseErr(m) => c.viol = bad("blamed step", format!("with that step trusted, the proof does not parse: {m}")),
        _ => c.label("only error"),
    }
    c
}

#[derive(Default)]
struct Rules(Vec<String>);
impl carcara::benchmarking::CollectResults for Rules {
    fn add_step_measurement(&mut self, _: &str, _: &str, rule: &str, _: std::time::Duration) {
        self.0.push(rule.into());
    }
    fn add_assume_measurement(&mut self, _: &str, _: &str, _: bool, _: std::time::Duration) {
        self.0.push("assume".into());
    }
    fn add_polyeq_depth(&mut self, _: usize) {}
    fn add_run_measurement(&mut self, _: &(String, usize), _: carcara::benchmarking::RunMeasurement) {}
    fn register_holey(&mut self) {}
    fn register_error(&mut self, _: &Error) {}
    fn combine(mut a: Self, b: Self) -> Self {
        a.0.extend(b.0);
        a
    }
}
/// C26: `bench` over several proofs, some bad.
pub fn bench(g: &mut G) -> Case {
    let n = g.ur(1, 4);
    let o = fam_whole::opts(g);
    let elaborate = g.chance(1, 3);
    let (runs, jobs) = (g.ur(1, 3), g.ur(1, 4));
    let csv = g.chance(2, 3);
    let d = Dir::new();
    let mut c = Case::default();
    let mut rows: Vec<(String, Option<Vec<String>>)> = vec![];
    let (mut errors, mut holey) = (0, false);
    let mut text = String::new();
    let mut panics = false;
    for k in 0..n {
        let dir = g.pick_s(&["in/", "in/sub/", "in/sub/deep.d/"]);
        let name = format!("{dir}f{k}.smt2.{}", g.pick_s(&["alethe", "proof"]));
        let mut p = whole::any(g);
        let (mut pb, mut pf) = (p.problem(), p.proof());
        match g.weighted(&[5, 2, 1, 1]) {
            0 => (),
            1 => {
                prf::mutate_prf(g, &mut p);
                pb = p.problem();
                pf = p.proof();
            }
            2 => pf.push_str("(step)"),
            _ => pb.push_str("(assert 1)"),
        }
        let problem_missing = g.chance(1, 25);
        d.put(&name, &pf);
        if !problem_missing {
            d.put(&format!("{dir}f{k}.smt2"), &pb);
        }
        text.push_str(&format!("--- {name}{}\n{pb}{pf}", if problem_missing { " (no problem file)" } else { "" }));
        let lib = if problem_missing { Verdict::ParseErr("missing".into()) } else { carc::check(&pb, &pf, &o) };
        match lib {
            Verdict::Valid => (),
            Verdict::Holey => holey = true,
            Verdict::Panic(_) => panics = true,
            _ => errors += 1,
        }
        if let Verdict::ParseErr(_) = lib {
            rows.push((name, None));
            continue;
        }
        if elaborate && lib.steps_accepted() {
            // proofs that cannot be elaborated are judged by C16
            use ElaborationStep::*;
            let cfg = ElabConfig { lia_options: None, uncrowd_rotation: false, hole_options: None };
            panics |= guard(|| {
                let (pr, proof, _, mut pool) = parser::parse_instance(pb.as_bytes(), pf.as_bytes(), None, o.parser()).unwrap();
                let node = ast::ProofNodeForest::from_commands(proof.commands);
                let el = carcara::elaborator::Elaborator::new(&mut pool, &pr, cfg).with_unchecked_rules(o.checker().allowed_rules).elaborate(node, vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering, Hole]);
                el.into_commands();
            })
            .is_err();
        }
        let r = guard(|| {
            let (pr, proof, rules, mut pool) = parser::parse_instance(pb.as_bytes(), pf.as_bytes(), None, o.parser()).unwrap();
            let mut st = carcara::checker::CheckerStatistics { file_name: "x", polyeq_time: Default::default(), assume_time: Default::default(), assume_core_time: Default::default(), results: Rules::default() };
            let _ = carcara::checker::ProofChecker::new(&mut pool, &rules, o.checker()).check_with_stats(&pr, &proof, &mut st);
            st.results.0
        });
        rows.push((name, r.ok()));
    }
    if g.bool() {
        d.put("in/readme.txt", "not a proof");
        d.put("in/sub/other.smt2", "(assert false)");
    }
    let mut args = s(&["bench"]);
    args.extend(flags(&o));
    if elaborate {
        args.push("--elaborate".into());
    }
    args.extend(["-n".into(), runs.to_string(), "-j".into(), jobs.to_string(), "--log".into(), "error".into()]);
    if csv {
        args.push("--dump-to-csv".into());
    }
    args.push("--".into());
    if g.bool() {
        args.push("in".into());
    } else {
        args.extend(rows.iter().map(|r| r.0.clone()));
    }
    let show = format!("carcara {}", args.join(" "));
    c.key = hash_str(&format!("{show}{text}"));
    c.sample = format!("{show}\n{}", text.chars().take(300).collect::<String>());
    if panics {
        c.label("panic");
        return c;
    }
    c.nontrivial = true;
    let verdict = if errors > 0 { "invalid" } else if holey { "holey" } else { "valid" };
    c.label(verdict);
    c.label(if csv { "csv" } else { "online" });
    let r = run(&d, &args, None);
    let bad = |sig: &str, msg: String| Some(Viol { sig: format!("bench: {sig}"), msg: format!("{show}: {msg}"), files: vec![("files.txt".into(), text.clone()), ("stdout".into(), r.out.clone()), ("stderr".into(), r.err.clone())] });
    if r.code != Some(0) || r.err.contains("panicked") {
        c.viol = bad("exit status", format!("exit status {:?}", r.code));
        return c;
    }
    let measured: Vec<_> = rows.iter().filter_map(|x| x.1.as_ref().map(|y| (&x.0, y))).collect();
    let mut steps: BTreeMap<String, usize> = BTreeMap::new();
    for (_, rs) in &measured {
        for x in rs.iter() {
            *steps.entry(x.clone()).or_default() += runs;
        }
    }
    if csv {
        let want = format!("{} errors encountered during benchmark\n{verdict}\n", errors * runs);
        if r.out != want {
            c.viol = bad("verdict", format!("printed {:?} instead of {want:?}", r.out));
            return c;
        }
        let (Some(a), Some(b)) = (d.get("runs.csv"), d.get("steps.csv")) else {
            c.viol = bad("csv", "the files are not written".into());
            return c;
        };
        let mut got: Vec<(String, String)> = a.lines().skip(1).map(|l| l.split(',').take(2).map(String::from).collect::<Vec<_>>()).filter(|x| x.len() == 2).map(|x| (x[0].clone(), x[1].clone())).collect();
        let mut exp: Vec<(String, String)> = measured.iter().flat_map(|x| (0..runs).map(|k| (x.0.to_string(), k.to_string()))).collect();
        got.sort();
        exp.sort();
        if got != exp {
            c.viol = bad("runs", format!("rows for the runs {got:?} instead of {exp:?}"));
            return c;
        }
        let w = a.lines().next().map_or(0, |l| l.split(',').count());
        if a.lines().any(|l| l.split(',').count() != w) || w != 11 + if elaborate && !measured.is_empty() { 6 } else { 0 } {
            c.viol = bad("columns", format!("the rows have not {w} columns: {a}"));
            return c;
        }
        let mut have: BTreeMap<String, usize> = BTreeMap::new();
        for l in b.lines().skip(1) {
            let Some((rule, t)) = l.rsplit_once(',') else {
                c.viol = bad("steps", format!("a row of the steps is {l:?}"));
                return c;
            };
            if t.parse::<u128>().is_err() {
                c.viol = bad("steps", format!("a row of the steps is {l:?}"));
                return c;
            }
            *have.entry(rule.into()).or_default() += 1;
        }
        if have != steps {
            c.viol = bad("steps", format!("rows for the steps {have:?} instead of {steps:?}"));
        }
        return c;
    }
    let mut l = r.out.lines();
    let first = l.next().unwrap_or("");
    if measured.is_empty() {
        if first != "no benchmark data collected" && first != verdict {
            c.viol = bad("verdict", format!("printed {first:?}"));
        }
        return c;
    }
    if first != verdict {
        c.viol = bad("verdict", format!("printed {first:?} instead of {verdict}"));
        return c;
    }
    let na = steps.get("assume").copied().unwrap_or(0);
    if !r.out.contains(&format!("number of assumes: {na}\n")) {
        c.viol = bad("assumes", format!("there are {na} assumptions"));
        return c;
    }
    // the time may follow the name of the rule directly
    let mut have: Vec<&str> = r
        .out
        .lines()
        .skip_while(|l| *l != "by rule:")
        .skip(1)
        .take_while(|l| l.starts_with("    "))
        .filter_map(|l| l.split_whitespace().next())
        .map(|x| if steps.contains_key(x) { x } else { steps.keys().map(|k| &**k).filter(|k| x.strip_prefix(k).is_some_and(|y| y.starts_with(|c: char| c.is_ascii_digit()))).max_by_key(|k| k.len()).unwrap_or(x) })
        .collect();
    have.sort();
    let exp: Vec<&str> = steps.keys().map(|x| &**x).collect();
    if have != exp {
        c.viol = bad("by rule", format!("the rules {have:?} are listed instead of {exp:?}"));
    }
    c
}

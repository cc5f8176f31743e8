//! Thin wrappers around the library under test.
use carcara::{checker, parser, Error};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
    /// innermost function of the crate under test on the stack
    pub func: String,
}
impl PanicInfo {
    pub fn sig(&self) -> String {
        let mut m: String = self.msg.chars().take(90).collect();
        m = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
        while m.contains("##") {
            m = m.replace("##", "#");
        }
        format!("panic in {}: {}", self.func, m)
    }
}
thread_local! {
    static LAST: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
/// Name of the function of the library that contains this source line.
fn enclosing_fn(file: &str, line: u32) -> Option<String> {
    let i = file.find("carcara/src/")?;
    let text = std::fs::read_to_string(file).ok()?;
    let lines: Vec<&str> = text.lines().take(line as usize).collect();
    let name = lines.iter().rev().find_map(|l| {
        let l = l.trim_start();
        let r = l.split_once("fn ").filter(|(b, _)| b.is_empty() || b.trim_end().split(' ').all(|w| w.starts_with("pub") || matches!(w, "const" | "unsafe" | "async")))?.1;
        Some(r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>())
    })?;
    Some(format!("{}:{}", file[i + 12..].trim_end_matches(".rs"), name))
}
pub fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet && !std::thread::current().name().map_or(false, |n| n.starts_with("worker")) {
            def(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info.location().map_or(("?".to_string(), 0), |l| (l.file().to_string(), l.line()));
        let mut func = enclosing_fn(&file, line).unwrap_or_default();
        if func.is_empty() {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            func = bt
                .lines()
                .filter_map(|ln| ln.trim().split_once(": "))
                .filter(|(n, _)| n.chars().all(|c| c.is_ascii_digit()))
                .find(|(_, f)| f.starts_with("carcara::") || f.starts_with("<carcara::"))
                .map_or("?".into(), |(_, f)| f.split("::h").next().unwrap_or(f).replace("::{{closure}}", "").replace("::{closure#0}", ""));
        }
        LAST.with(|l| *l.borrow_mut() = Some(PanicInfo { msg, file, line, func }));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).unwrap_or(PanicInfo {
            msg: "panic in another thread".into(),
            file: "?".into(),
            line: 0,
            func: "?".into(),
        })
    })
}
pub fn take_last() -> Option<PanicInfo> {
    LAST.with(|l| l.borrow_mut().take())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Valid,
    Holey,
    /// every step accepted, but the empty clause is not reached
    NoEmpty,
    /// checker error: (step, rule, message)
    Rejected(String, String, String),
    ParseErr(String),
    Panic(String),
}
impl Verdict {
    pub fn steps_accepted(&self) -> bool {
        matches!(self, Verdict::Valid | Verdict::Holey | Verdict::NoEmpty)
    }
    pub fn class(&self) -> &'static str {
        match self {
            Verdict::Valid => "valid",
            Verdict::Holey => "holey",
            Verdict::NoEmpty => "noempty",
            Verdict::Rejected(..) => "rejected",
            Verdict::ParseErr(_) => "parse-error",
            Verdict::Panic(_) => "panic",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub elaborated: bool,
    pub ignore_unknown: bool,
    pub allowed: Vec<String>,
    pub apply_defs: bool,
    pub expand_lets: bool,
    pub subtyping: bool,
    pub strict: bool,
    pub hole_args: bool,
}
impl Opts {
    pub fn parser(&self) -> parser::Config {
        parser::Config {
            apply_function_defs: self.apply_defs,
            expand_lets: self.expand_lets,
            allow_int_real_subtyping: self.subtyping,
            strict: self.strict,
            parse_hole_args: self.hole_args,
        }
    }
    pub fn checker(&self) -> checker::Config {
        checker::Config {
            elaborated: self.elaborated,
            ignore_unknown_rules: self.ignore_unknown,
            allowed_rules: self.allowed.iter().cloned().collect(),
        }
    }
}

pub fn to_verdict(r: Result<Result<bool, Error>, PanicInfo>) -> Verdict {
    match r {
        Err(p) => Verdict::Panic(p.sig()),
        Ok(Ok(false)) => Verdict::Valid,
        Ok(Ok(true)) => Verdict::Holey,
        Ok(Err(Error::DoesNotReachEmptyClause)) => Verdict::NoEmpty,
        Ok(Err(Error::Checker { inner, rule, step })) => {
            Verdict::Rejected(step.to_string(), rule.to_string(), inner.to_string())
        }
        Ok(Err(e)) => Verdict::ParseErr(e.to_string()),
    }
}

pub fn check(problem: &str, proof: &str, o: &Opts) -> Verdict {
    check_r(problem, proof, None, o)
}
pub fn check_r(problem: &str, proof: &str, rules: Option<&str>, o: &Opts) -> Verdict {
    to_verdict(guard(|| {
        carcara::check(
            problem.as_bytes(),
            proof.as_bytes(),
            rules.map(|r| r.as_bytes()),
            o.parser(),
            o.checker(),
            false,
        )
    }))
}
pub fn check_par(problem: &str, proof: &str, o: &Opts, threads: usize) -> Verdict {
    // the operating system refusing to create or join a thread says nothing about the checker
    for _ in 0..20 {
        let v = check_par1(problem, proof, o, threads);
        match &v {
            Verdict::Panic(m) if m.contains("failed to join thread") || m.contains("os error") || m.contains("Os {") => {
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            _ => return v,
        }
    }
    panic!("cannot run threads in this environment")
}
fn check_par1(problem: &str, proof: &str, o: &Opts, threads: usize) -> Verdict {
    to_verdict(guard(|| {
        carcara::check_parallel(
            problem.as_bytes(),
            proof.as_bytes(),
            None,
            o.parser(),
            o.checker(),
            false,
            threads,
            2 * 1024 * 1024,
        )
    }))
}

//! C26: statistics.
use crate::carc::{guard, to_verdict, PanicInfo};
use crate::fam_panic::RULES;
use crate::g::{hash_str, G};
use crate::prf;
use crate::runner::{Case, Viol};
use crate::{fam_whole, whole, wild};
use carcara::ast::{ProofCommand, PrimitivePool};
use carcara::benchmarking::*;
use carcara::checker::{CheckerStatistics, ParallelProofChecker, ProofChecker, Scheduler};
use carcara::parser;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;
use std::time::Duration;

trait Unit: MetricsUnit + Debug + Send + 'static {
    fn gen(g: &mut G, style: usize) -> Self;
    fn x(self) -> f64;
    /// resolution of sums and means
    const RES: f64;
}
impl Unit for Duration {
    fn gen(g: &mut G, style: usize) -> Self {
        match style {
            0 => Duration::from_micros(g.below(5)),
            1 => Duration::from_micros(g.below(20_000_000)),
            2 => Duration::from_nanos(g.below(3_000)),
            _ => Duration::from_secs(1000) + Duration::from_micros(g.below(100)),
        }
    }
    fn x(self) -> f64 {
        self.as_secs_f64()
    }
    const RES: f64 = 1e-9;
}
impl Unit for f64 {
    fn gen(g: &mut G, style: usize) -> Self {
        match style {
            0 => g.below(4) as f64 / 10.0,
            1 => g.below(1_000_000) as f64 / 7.0 - 70_000.0,
            2 => g.below(1000) as f64 * 1e-9,
            _ => 1e6 + g.below(100) as f64 / 3.0,
        }
    }
    fn x(self) -> f64 {
        self
    }
    const RES: f64 = 0.0;
}
impl Unit for usize {
    fn gen(g: &mut G, style: usize) -> Self {
        match style {
            0 => g.u(3),
            1 => g.u(1_000_000),
            2 => 1 << g.u(40),
            _ => 1_000_000 + g.u(10),
        }
    }
    fn x(self) -> f64 {
        self as f64
    }
    const RES: f64 = 0.0;
}

/// The collected value against all samples.
fn compare<K: Clone + PartialEq + Debug, T: Unit>(what: &str, m: &impl Metrics<K, T>, all: &[(K, T)]) -> Result<(), (String, String)>
where
    T::MeanType: Unit,
{
    let n = all.len();
    let err = |f: &str, got: String, want: String| Err((format!("{what}: {f}"), format!("{what}: {f} of {all:?} is {got} instead of {want}")));
    if m.count() != n {
        return err("count", m.count().to_string(), n.to_string());
    }
    if m.is_empty() != (n == 0) {
        return err("is_empty", m.is_empty().to_string(), (n == 0).to_string());
    }
    let xs: Vec<f64> = all.iter().map(|s| s.1.x()).collect();
    let total: f64 = xs.iter().sum();
    let mag = xs.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let tol = T::RES * 1.01 + 1e-13 * mag * n as f64;
    if (m.total().x() - total).abs() > tol {
        return err("total", format!("{:?}", m.total()), total.to_string());
    }
    if n == 0 {
        return Ok(());
    }
    let mean = total / n as f64;
    if !((m.mean().x() - mean).abs() <= tol) {
        return err("mean", format!("{:?}", m.mean()), mean.to_string());
    }
    let (lo, hi) = (xs.iter().cloned().fold(f64::MAX, f64::min), xs.iter().cloned().fold(f64::MIN, f64::max));
    for (f, got, want) in [("max", m.max(), hi), ("min", m.min(), lo)] {
        if got.1.x() != want {
            return err(f, format!("{got:?}"), want.to_string());
        }
        if !all.iter().any(|s| s == got) {
            return err(&format!("{f} key"), format!("{got:?}"), "a sample".into());
        }
    }
    let ssd: f64 = xs.iter().map(|x| (x - mean) * (x - mean)).sum();
    let range = hi - lo;
    let d = (n.max(2) - 1) as f64;
    let got = m.standard_deviation().x();
    let tol = n as f64 * range * (1e-8f64.min(8.0 * T::RES) + 1e-12 * mag) + 1e-9 * ssd + 1e-22 * mag * mag * n as f64 + T::RES * T::RES * n as f64;
    if !((got * got * d - ssd).abs() <= tol) {
        return err("standard deviation", format!("{got:?}"), (ssd / d).sqrt().to_string());
    }
    Ok(())
}

fn history<T: Unit, M: Metrics<u32, T> + Default>(g: &mut G, what: &str, log: &mut String) -> (usize, Vec<(M, Vec<(u32, T)>)>) {
    let mut v: Vec<(M, Vec<(u32, T)>)> = vec![(M::default(), vec![])];
    let style = g.u(4);
    let mut key = 0;
    let mut merges = 0;
    *log += what;
    for _ in 0..g.ur(1, 30) {
        match g.weighted(&[6, 2, 3]) {
            0 => {
                let i = g.u(v.len());
                let s = if g.chance(1, 12) { g.u(4) } else { style };
                for _ in 0..g.weighted(&[0, 6, 2, 1, 1]) {
                    let x = T::gen(g, s);
                    *log += &format!(" {i}+{x:?}");
                    v[i].0.add_sample(&key, x);
                    v[i].1.push((key, x));
                    key += 1;
                }
            }
            1 => {
                v.push((M::default(), vec![]));
                *log += " new";
            }
            _ => {
                if v.len() > 1 {
                    let i = g.u(v.len());
                    let (a, xs) = v.remove(i);
                    let j = g.u(v.len());
                    let (b, ys) = v.remove(j);
                    *log += &format!(" merge({i},{j})");
                    v.insert(0, (a.combine(b), [xs, ys].concat()));
                    merges += 1;
                }
            }
        }
    }
    (merges, v)
}
fn viol(sig: String, msg: String, log: &str) -> Option<Viol> {
    Some(Viol { sig, msg, files: vec![("history.txt".into(), log.to_string())] })
}
pub fn metrics(g: &mut G) -> Case {
    fn go<T: Unit>(g: &mut G, name: &str) -> Case
    where
        T::MeanType: Unit,
    {
        let mut c = Case::default();
        let mut log = String::new();
        c.label(name);
        let r = if g.bool() {
            let what = format!("online {name}");
            guard(|| {
                let (k, v) = history::<T, OnlineMetrics<u32, T>>(g, &what, &mut log);
                let mut r = Ok(());
                for (m, xs) in &v {
                    r = r.and_then(|_| compare(&what, m, xs));
                    if !xs.is_empty() {
                        r = r.and_then(|_| shown(&what, m, xs.len()));
                    }
                }
                (k, r)
            })
        } else {
            let what = format!("offline {name}");
            guard(|| {
                let (k, mut v) = history::<T, OfflineMetrics<u32, T>>(g, &what, &mut log);
                let mut r = Ok(());
                for (m, xs) in &mut v {
                    r = r.and_then(|_| compare(&what, m, xs));
                    if !xs.is_empty() {
                        r = r.and_then(|_| shown(&what, m, xs.len()));
                        let mut ys: Vec<f64> = xs.iter().map(|x| x.1.x()).collect();
                        ys.sort_by(f64::total_cmp);
                        let n = ys.len();
                        let q = m.quartiles();
                        let want = [n / 20, n / 4, n / 2, n * 3 / 4, n * 19 / 20].map(|i| ys[i]);
                        if q.map(|x| x.1.x()) != want {
                            r = r.and(Err((format!("{what}: quartiles"), format!("the quartiles of {xs:?} are {q:?} instead of {want:?}"))));
                        }
                        r = r.and_then(|_| compare(&what, m, xs));
                    }
                }
                (k, r)
            })
        };
        c.key = hash_str(&log);
        c.sample = log.clone();
        match r {
            Err(p) => c.viol = viol(p.sig(), format!("{p:?}"), &log),
            Ok((k, r)) => {
                c.nontrivial = k > 0;
                if let Err((s, m)) = r {
                    c.viol = viol(s, m, &log);
                }
            }
        }
        c
    }
    match g.u(3) {
        0 => go::<Duration>(g, "duration"),
        1 => go::<f64>(g, "f64"),
        _ => go::<usize>(g, "usize"),
    }
}
fn unit_text<T: Unit>(x: T) -> String {
    struct D<T>(T);
    impl<T: Unit> std::fmt::Display for D<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.display(f)
        }
    }
    D(x).to_string()
}
/// The printed forms show the same numbers.
fn shown<T: Unit>(what: &str, m: &impl Metrics<u32, T>, n: usize) -> Result<(), (String, String)>
where
    T::MeanType: Unit,
{
    let (x, y) = (format!("{m}"), format!("{m:#}"));
    let (a, b) = (format!("{} ± {}", unit_text(m.mean()), unit_text(m.standard_deviation())), format!("{} ({} * {n})", unit_text(m.total()), unit_text(m.mean())));
    if x != a || y != b {
        return Err((format!("{what}: printed"), format!("{what}: printed as {x} and {y} instead of {a} and {b}")));
    }
    Ok(())
}

// ---- collections of results
#[derive(Clone, Default)]
struct Model {
    /// file, step, rule, time
    steps: Vec<(String, String, String, Duration)>,
    runs: Vec<((String, usize), [Duration; 8], Vec<Duration>)>,
    depths: Vec<usize>,
    easy: usize,
    hard: usize,
    holey: bool,
    errors: usize,
}
fn dur(g: &mut G) -> Duration {
    Duration::from_micros(if g.bool() { g.below(10) } else { g.below(5_000_000) })
}
fn check_online(r: &OnlineBenchmarkResults, m: &Model) -> Result<(), (String, String)> {
    let keyed = |k: &(String, usize)| k.clone();
    let col = |i: usize| -> Vec<((String, usize), Duration)> { m.runs.iter().map(|x| (keyed(&x.0), x.1[i])).collect() };
    let p = "online results";
    compare(&format!("{p} parsing"), r.parsing(), &col(0))?;
    compare(&format!("{p} checking"), r.checking(), &col(1))?;
    compare(&format!("{p} elaborating"), r.elaborating(), &col(2))?;
    compare(&format!("{p} scheduling"), r.scheduling(), &col(3))?;
    compare(&format!("{p} total"), r.total(), &col(4))?;
    compare(&format!("{p} polyeq"), &r.polyeq_time, &col(5))?;
    compare(&format!("{p} assume"), &r.assume_time, &col(6))?;
    compare(&format!("{p} assume core"), &r.assume_core_time, &col(7))?;
    let acc: Vec<_> = m.runs.iter().map(|x| (keyed(&x.0), x.1[0] + x.1[1] + x.1[2])).collect();
    compare(&format!("{p} accounted for"), r.total_accounted_for(), &acc)?;
    for (w, i, got) in [("polyeq ratio", 5, &r.polyeq_time_ratio), ("assume ratio", 6, &r.assume_time_ratio)] {
        let ratio: Vec<_> = m.runs.iter().map(|x| (keyed(&x.0), x.1[i].as_secs_f64() / x.1[1].as_secs_f64())).collect();
        compare(&format!("{p} {w}"), got, &ratio)?;
    }
    let depths: Vec<((), usize)> = m.depths.iter().map(|d| ((), *d)).collect();
    compare(&format!("{p} depths"), &r.polyeq_depths, &depths)?;
    // keys are compared by their text: the fields of the ids are private
    fn steps(what: String, got: &OnlineMetrics<StepId>, want: Vec<(String, Duration)>) -> Result<(), (String, String)> {
        struct Text<'a>(&'a OnlineMetrics<StepId>, Option<((String, Duration), (String, Duration))>);
        impl std::fmt::Display for Text<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                std::fmt::Display::fmt(self.0, f)
            }
        }
        impl Metrics<String, Duration> for Text<'_> {
            fn add_sample(&mut self, _: &String, _: Duration) {}
            fn combine(self, _: Self) -> Self {
                self
            }
            fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
            fn max(&self) -> &(String, Duration) {
                &self.1.as_ref().unwrap().0
            }
            fn min(&self) -> &(String, Duration) {
                &self.1.as_ref().unwrap().1
            }
            fn total(&self) -> Duration {
                self.0.total()
            }
            fn count(&self) -> usize {
                self.0.count()
            }
            fn mean(&self) -> Duration {
                self.0.mean()
            }
            fn standard_deviation(&self) -> Duration {
                self.0.standard_deviation()
            }
        }
        let mm = (!got.is_empty()).then(|| {
            let (a, b) = (got.max(), got.min());
            ((a.0.to_string(), a.1), (b.0.to_string(), b.1))
        });
        compare(&what, &Text(got, mm), &want)
    }
    let id = |s: &(String, String, String, Duration)| (format!("{}:{} ({})", s.0, s.1, s.2), s.3);
    steps(format!("{p} steps"), r.step_time(), m.steps.iter().map(id).collect())?;
    for (w, k, map) in [("by file", 0, r.step_time_by_file()), ("by rule", 1, r.step_time_by_rule())] {
        let mut want: BTreeMap<String, Vec<(String, Duration)>> = BTreeMap::new();
        for s in &m.steps {
            want.entry(if k == 0 { s.0.clone() } else { s.2.clone() }).or_default().push(id(s));
        }
        if map.len() != want.len() {
            return Err((format!("{p} {w}"), format!("{p} {w}: keys {:?} instead of {:?}", map.keys(), want.keys())));
        }
        for (n, xs) in want {
            match map.get(&n) {
                None => return Err((format!("{p} {w}"), format!("{p} {w}: nothing for {n}"))),
                Some(x) => steps(format!("{p} {w}"), x, xs)?,
            }
        }
    }
    let got = (r.num_assumes, r.num_easy_assumes, r.is_holey, r.had_error, r.is_empty());
    let want = (m.easy + m.hard, m.easy, m.holey, m.errors > 0, m.runs.is_empty());
    if got != want {
        return Err((format!("{p} flags"), format!("{p}: assumes, easy assumes, holey, error, empty are {got:?} instead of {want:?}")));
    }
    Ok(())
}
fn check_csv(r: CsvBenchmarkResults, m: &Model) -> Result<(), (String, String)> {
    let p = "csv results";
    let got = (r.is_holey(), r.num_errors());
    if got != (m.holey, m.errors) {
        return Err((format!("{p} flags"), format!("{p}: holey, errors are {got:?} instead of {:?}", (m.holey, m.errors))));
    }
    let (mut a, mut b) = (vec![], vec![]);
    r.write_csv(&mut a, &mut b).map_err(|e| (p.to_string(), e.to_string()))?;
    let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
    let (mut runs, mut steps): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut head = "proof_file,run_id,parsing,checking,elaboration,total_accounted_for,total,polyeq,polyeq_ratio,assume,assume_ratio".to_string();
    for i in 0..m.runs.first().map_or(0, |r| r.2.len()) {
        head += &format!(",pipeline_step_{i}");
    }
    if runs.is_empty() || runs.remove(0) != head || steps.is_empty() || steps.remove(0) != "rule,time" {
        return Err((format!("{p} header"), format!("{p}: {a}\n{b}")));
    }
    let mut want: Vec<String> = m
        .runs
        .iter()
        .map(|(id, d, pl)| {
            let n: Vec<u128> = d.iter().map(|x| x.as_nanos()).collect();
            let ratio = |i: usize| d[i].as_secs_f64() / d[1].as_secs_f64();
            let mut o = format!("{},{},{},{},{},{},{},{},{},{},{}", id.0, id.1, n[0], n[1], n[2], n[0] + n[1] + n[2], n[4], n[5], ratio(5), n[6], ratio(6));
            for x in pl {
                o += &format!(",{}", x.as_nanos());
            }
            o
        })
        .collect();
    want.sort();
    runs.sort();
    if want != runs {
        return Err((format!("{p} runs"), format!("{p}: the rows of the runs are {runs:?} instead of {want:?}")));
    }
    let mut want: Vec<String> = m.steps.iter().map(|s| format!("{},{}", s.2, s.3.as_nanos())).collect();
    want.sort();
    steps.sort();
    if want != steps {
        return Err((format!("{p} steps"), format!("{p}: the rows of the steps are {steps:?} instead of {want:?}")));
    }
    Ok(())
}
fn any_error() -> carcara::Error {
    carcara::Error::DoesNotReachEmptyClause
}
fn collect<C: CollectResults + Default>(g: &mut G, log: &mut String) -> Vec<(C, Model)> {
    let mut v: Vec<(C, Model)> = vec![(C::default(), Model::default())];
    let mut run = 0;
    let pl = g.u(3);
    for _ in 0..g.ur(2, 25) {
        let i = g.u(v.len());
        let (r, m) = &mut v[i];
        match g.weighted(&[6, 3, 2, 4, 1, 1, 2, 4]) {
            0 => {
                let (f, s, rule, t) = (g.pick_s(&["a", "b"]), format!("t{}", g.u(5)), g.pick_s(&["resolution", "cong", "anchor(bind)", "assume"]), dur(g));
                *log += &format!(" {i}:step({f} {s} {rule} {t:?})");
                r.add_step_measurement(f, &s, rule, t);
                m.steps.push((f.into(), s, rule.into(), t));
            }
            1 => {
                let (f, s, e, t) = (g.pick_s(&["a", "b"]), format!("h{}", g.u(5)), g.bool(), dur(g));
                *log += &format!(" {i}:assume({f} {s} {e} {t:?})");
                r.add_assume_measurement(f, &s, e, t);
                m.steps.push((f.into(), s, "assume".into(), t));
                if e {
                    m.easy += 1;
                } else {
                    m.hard += 1;
                }
            }
            2 => {
                let d = g.u(8);
                *log += &format!(" {i}:depth({d})");
                r.add_polyeq_depth(d);
                m.depths.push(d);
            }
            3 => {
                let id = (format!("f{}", g.u(3)), run);
                run += 1;
                let d: Vec<Duration> = (0..8).map(|k| if k == 1 { dur(g) + Duration::from_micros(1) } else { dur(g) }).collect();
                let d: [Duration; 8] = d.try_into().unwrap();
                let ps: Vec<Duration> = (0..pl).map(|_| dur(g)).collect();
                *log += &format!(" {i}:run({id:?} {d:?} {ps:?})");
                r.add_run_measurement(
                    &id,
                    RunMeasurement { parsing: d[0], checking: d[1], elaboration: d[2], scheduling: d[3], total: d[4], polyeq: d[5], assume: d[6], assume_core: d[7], elaboration_pipeline: ps.clone() },
                );
                m.runs.push((id, d, ps));
            }
            4 => {
                *log += &format!(" {i}:holey");
                r.register_holey();
                m.holey = true;
            }
            5 => {
                *log += &format!(" {i}:error");
                r.register_error(&any_error());
                m.errors += 1;
            }
            6 => {
                *log += " new";
                v.push((C::default(), Model::default()));
            }
            _ => {
                if v.len() > 1 {
                    let (a, ma) = v.remove(i);
                    let j = g.u(v.len());
                    let (b, mb) = v.remove(j);
                    *log += &format!(" merge({i},{j})");
                    let m = Model {
                        steps: [ma.steps, mb.steps].concat(),
                        runs: [ma.runs, mb.runs].concat(),
                        depths: [ma.depths, mb.depths].concat(),
                        easy: ma.easy + mb.easy,
                        hard: ma.hard + mb.hard,
                        holey: ma.holey || mb.holey,
                        errors: ma.errors + mb.errors,
                    };
                    v.insert(0, (C::combine(a, b), m));
                }
            }
        }
    }
    v
}
pub fn results(g: &mut G) -> Case {
    let mut c = Case::default();
    let mut log = String::new();
    let online = g.bool();
    let r = guard(|| {
        if online {
            log += "online";
            collect::<OnlineBenchmarkResults>(g, &mut log).iter().try_for_each(|(r, m)| check_online(r, m))
        } else {
            log += "csv";
            collect::<CsvBenchmarkResults>(g, &mut log).into_iter().try_for_each(|(r, m)| check_csv(r, &m))
        }
    });
    c.key = hash_str(&log);
    c.sample = log.clone();
    c.label(if online { "online" } else { "csv" });
    c.nontrivial = log.contains("merge");
    match r {
        Err(p) => c.viol = viol(p.sig(), format!("{p:?}"), &log),
        Ok(Err((s, m))) => c.viol = viol(s, m, &log),
        Ok(Ok(())) => {}
    }
    c
}

// ---- what the checkers record
#[derive(Default)]
struct Events {
    /// file, id, rule
    steps: Vec<(String, String, String)>,
    depths: usize,
}
impl CollectResults for Events {
    fn add_step_measurement(&mut self, file: &str, step_id: &str, rule: &str, _: Duration) {
        self.steps.push((file.into(), step_id.into(), rule.into()));
    }
    fn add_assume_measurement(&mut self, file: &str, id: &str, is_easy: bool, _: Duration) {
        self.steps.push((file.into(), id.into(), if is_easy { "easy assume" } else { "hard assume" }.into()));
    }
    fn add_polyeq_depth(&mut self, _: usize) {
        self.depths += 1;
    }
    fn add_run_measurement(&mut self, _: &(String, usize), _: RunMeasurement) {
        self.steps.push(("?".into(), "?".into(), "run".into()));
    }
    fn register_holey(&mut self) {}
    fn register_error(&mut self, _: &carcara::Error) {}
    fn combine(mut a: Self, b: Self) -> Self {
        a.steps.extend(b.steps);
        a.depths += b.depths;
        a
    }
}
fn stats<'a, C: CollectResults + Send + Default>(file: &'a str) -> CheckerStatistics<'a, C> {
    CheckerStatistics { file_name: file, polyeq_time: Duration::ZERO, assume_time: Duration::ZERO, assume_core_time: Duration::ZERO, results: C::default() }
}
pub fn checker(g: &mut G) -> Case {
    let mut c = Case::default();
    let mut p = if g.chance(1, 6) { wild::wild(g) } else { whole::any(g) };
    if g.chance(1, 3) {
        prf::mutate_prf(g, &mut p);
    }
    let o = fam_whole::opts(g);
    if g.chance(1, 6) {
        let k = g.u(whole::count(&p.cmds));
        let mut i = 0;
        prf::for_each_mut(&mut p.cmds, &mut |c| {
            if let prf::Cmd::Step { rule, .. } = c {
                if i == k {
                    *rule = "foo".into();
                }
            }
            i += 1;
        });
    }
    let (pb, pf) = (p.problem(), p.proof());
    let threads = if g.chance(1, 2) { g.ur(1, 6) } else { 0 };
    c.key = hash_str(&format!("{pb}{pf}{o:?}{threads}"));
    c.sample = pf.clone();
    let files = || {
        let mut f = p.files();
        f.push(("options.txt".into(), format!("{o:?} threads {threads}")));
        f
    };
    let v = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: files() });
    let parse = || parser::parse_instance(pb.as_bytes(), pf.as_bytes(), None, o.parser());
    let Ok(Ok((problem, proof, rules, mut pool))) = guard(parse) else {
        c.label("unparsed");
        return c;
    };
    let plain = to_verdict(guard(|| ProofChecker::new(&mut pool, &rules, o.checker()).check(&problem, &proof)));
    c.label(plain.class());
    c.nontrivial = true;
    // with statistics
    let (mut s1, mut s2) = (stats::<Events>("file"), stats::<OnlineBenchmarkResults>("file"));
    type R = Result<Result<bool, carcara::Error>, PanicInfo>;
    let runs: [(&str, R); 2] = if threads == 0 {
        c.label("sequential");
        let a = guard(|| ProofChecker::new(&mut pool, &rules, o.checker()).check_with_stats(&problem, &proof, &mut s1));
        let b = guard(|| ProofChecker::new(&mut pool, &rules, o.checker()).check_with_stats(&problem, &proof, &mut s2));
        [("events", a), ("results", b)]
    } else {
        c.label("parallel");
        let (sch, usage) = Scheduler::new(threads, &proof);
        let shared: Arc<PrimitivePool> = Arc::new(pool);
        let mk = || ParallelProofChecker::new(shared.clone(), o.checker(), &problem.prelude, &usage, 2 << 20, rules.clone());
        let a = guard(|| mk().check_with_stats(&problem, &proof, &sch, &mut s1));
        let b = guard(|| mk().check_with_stats(&problem, &proof, &sch, &mut s2));
        [("events", a), ("results", b)]
    };
    for (n, r) in runs {
        let w = to_verdict(r);
        if let crate::carc::Verdict::Panic(m) = &w {
            if threads > 0 && (m.contains("failed to join thread") || m.contains("os error") || m.contains("Os {")) {
                c.label("no thread");
                c.nontrivial = false;
                return c;
            }
        }
        let same = if threads == 0 { w == plain } else { w.class() == plain.class() };
        if !same {
            c.viol = v("statistics change the verdict", format!("without statistics {plain:?}, with statistics ({n}) {w:?}"));
            return c;
        }
    }
    // expected samples; an optional one may be missing
    let mut must: BTreeMap<(String, String, String), usize> = BTreeMap::new();
    let mut may: BTreeMap<(String, String, String), usize> = BTreeMap::new();
    let fail = match &plain {
        crate::carc::Verdict::Rejected(..) => true,
        crate::carc::Verdict::Panic(_) => return c,
        _ => false,
    };
    if fail && threads > 0 {
        return c;
    }
    let mut it = proof.iter();
    let mut n = 0;
    let mut seen = vec![];
    while let Some(cmd) = it.next() {
        let (id, rule, opt) = match cmd {
            ProofCommand::Assume { id, term } => {
                if it.is_in_subproof() {
                    continue;
                }
                (id.clone(), if problem.premises.contains(term) { "easy assume" } else { "hard assume" }.to_string(), false)
            }
            ProofCommand::Step(s) => {
                let unchecked = o.allowed.contains(&s.rule) || (o.ignore_unknown && !RULES[..RULES.len() - 1].contains(&&*s.rule));
                (s.id.clone(), s.rule.clone(), unchecked)
            }
            ProofCommand::Subproof(s) => {
                let Some(ProofCommand::Step(l)) = s.commands.last() else { continue };
                (cmd.id().to_string(), format!("anchor({})", l.rule), false)
            }
        };
        seen.push((n, id, rule, opt));
        n += 1;
    }
    if fail {
        // everything before the failing command; ids may repeat, so every command with its id could be it
        let crate::carc::Verdict::Rejected(step, ..) = &plain else { unreachable!() };
        let Some(first) = seen.iter().position(|s| s.1 == *step && !s.2.starts_with("anchor(")) else { return c };
        let last = seen.iter().rposition(|s| s.1 == *step && !s.2.starts_with("anchor(")).unwrap();
        for (i, s) in seen.iter_mut().enumerate() {
            if i >= first {
                s.3 = true;
            }
        }
        seen.truncate(last + 1);
    }
    for (_, id, rule, opt) in seen {
        let k = ("file".to_string(), id, rule);
        *may.entry(k.clone()).or_default() += 1;
        if !opt {
            *must.entry(k).or_default() += 1;
        }
    }
    let mut got: BTreeMap<(String, String, String), usize> = BTreeMap::new();
    for s in &s1.results.steps {
        *got.entry(s.clone()).or_default() += 1;
    }
    for (k, n) in &got {
        let hi = may.get(k).copied().unwrap_or(0) * if k.2.starts_with("anchor(") { threads.max(1) } else { 1 };
        if *n > hi {
            c.viol = v("too many samples", format!("{n} samples for {k:?}, expected at most {hi}"));
            return c;
        }
    }
    for (k, n) in &must {
        let g = got.get(k).copied().unwrap_or(0);
        if g < *n {
            c.viol = v("missing samples", format!("{g} samples for {k:?}, expected {n}"));
            return c;
        }
    }
    // the library's own collector, on the same run again
    let r = &s2.results;
    let mut by_rule: BTreeMap<&str, usize> = BTreeMap::new();
    let (mut easy, mut hard) = (0, 0);
    for s in &s1.results.steps {
        let name = match &*s.2 {
            "easy assume" => {
                easy += 1;
                "assume"
            }
            "hard assume" => {
                hard += 1;
                "assume"
            }
            x => x,
        };
        *by_rule.entry(name).or_default() += 1;
    }
    let lib: BTreeMap<&str, usize> = r.step_time_by_rule().iter().map(|(k, v)| (&**k, v.count())).collect();
    let files_: Vec<&String> = r.step_time_by_file().keys().collect();
    let total: Duration = r.step_time_by_rule().values().map(|m| m.total()).sum();
    if lib != by_rule || r.num_assumes != easy + hard || r.num_easy_assumes != easy || r.polyeq_depths.count() != s1.results.depths || r.step_time().count() != s1.results.steps.len() || r.step_time().total() != total {
        c.viol = v("collector", format!("the collected counts {lib:?}, {} assumes ({} easy), {} depths, {} steps do not agree with the samples {by_rule:?}, {easy} + {hard}, {} depths", r.num_assumes, r.num_easy_assumes, r.polyeq_depths.count(), r.step_time().count(), s1.results.depths));
        return c;
    }
    if !s1.results.steps.is_empty() && files_ != ["file"] {
        c.viol = v("file", format!("samples for the files {files_:?}"));
    }
    c
}

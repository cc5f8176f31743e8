//! Runs the streams of a property, in parallel, deterministically; shrinks and reports failures.
use crate::carc;
use crate::g::{hash_str, mix, G};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Viol {
    /// root-cause signature, matched against known_findings.txt
    pub sig: String,
    pub msg: String,
    /// (file name, contents) of the concrete inputs
    pub files: Vec<(String, String)>,
}
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
    pub labels: Vec<String>,
    pub viol: Option<Viol>,
}
impl Case {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
}
pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut G) -> Case,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub streams: Vec<Stream>,
    /// pinned inputs of the known findings: signature -> re-run, returns true if it still fails
    pub pins: Vec<(&'static str, fn() -> bool)>,
    /// limit worker threads (0: default)
    pub threads: usize,
    /// labels that must be reached at least once on a healthy generator (not enforced, reported)
    pub extra: fn(&mut BTreeMap<String, String>),
}
impl Prop {
    pub fn new(id: &'static str, rule: &'static str) -> Prop {
        Prop { id, rule, assumptions: vec![], streams: vec![], pins: vec![], threads: 0, extra: |_| {} }
    }
    pub fn stream(mut self, name: &'static str, quick: u64, thorough: u64, f: fn(&mut G) -> Case) -> Prop {
        self.streams.push(Stream { name, quick, thorough, f });
        self
    }
    pub fn pin(mut self, sig: &'static str, f: fn() -> bool) -> Prop {
        self.pins.push((sig, f));
        self
    }
    pub fn assume(mut self, s: &'static str) -> Prop {
        self.assumptions.push(s);
        self
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// known findings: lines `property=<id> sig=<signature> :: <text>`; `fixed:` lines suppress nothing
pub fn known(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix(&format!("property={id} sig="))?;
            let (s, w) = r.split_once(" :: ")?;
            Some((s.trim().to_string(), w.trim().to_string()))
        })
        .collect()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    evals: AtomicU64,
    keys: Mutex<HashSet<u64>>,
    labels: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<BTreeMap<(usize, u64), String>>,
    viols: Mutex<HashMap<String, (usize, u64, Vec<u64>, Viol, u64)>>,
    stop: AtomicBool,
    harness_panic: Mutex<Option<String>>,
    /// per worker: number of the case it is working on (counted over all its cases), 0 when idle
    beat: Vec<AtomicU64>,
    cur: Vec<(AtomicU64, AtomicU64)>,
    crumbs: Option<std::fs::File>,
}
/// Where the supervising process reads which cases were running when this process died.
pub const CRUMBS: &str = "VERIF_CRUMBS";
/// Seconds one case may take; ordinary cases take milliseconds.
const LIMIT_S: u64 = 150;

/// Replay file of a case that kills or hangs the process; it is named by its number, as its tape is lost.
fn dead_case(prop: &Prop, seed: u64, si: usize, i: u64, msg: &str, kind: &str) -> String {
    let st = &prop.streams[si];
    let dir = format!("{}/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{kind}-{i}.txt", prop.id, st.name);
    let _ = std::fs::write(&path, format!("property {}\nstream {}\nseed {seed} index {i}\nsignature {kind}\nmessage {msg}\n", prop.id, st.name));
    println!("signature: {kind}\n  {msg} (stream {}, case {i}, seed {seed})", st.name);
    path
}
fn case_seed(prop: &Prop, st: &Stream, seed: u64, i: u64) -> u64 {
    mix(mix(seed, hash_str(prop.id)), mix(hash_str(st.name), i))
}
/// One case on a thread of its own.
pub fn run_one(prop: &Prop, stream: &str, seed: u64, i: u64) -> i32 {
    let Some(st) = prop.streams.iter().find(|s| s.name == stream) else { return 2 };
    let (f, s) = (st.f, case_seed(prop, st, seed, i));
    let r = std::thread::Builder::new().name("worker-one".into()).stack_size(512 << 20).spawn(move || run_case(f, &mut G::new(s))).unwrap().join().unwrap();
    match r {
        Err(e) => {
            println!("ERROR {e}");
            2
        }
        Ok(c) => match c.viol {
            Some(v) => {
                println!("signature: {}\n{}", v.sig, v.msg);
                for (n, c) in &v.files {
                    println!("--- {n}\n{c}");
                }
                1
            }
            None => 0,
        },
    }
}
/// Runs the property in a child process, so that a crash of the process (a stack overflow, an
/// abort) is a result of the check and not the end of it.
pub fn supervise(prop: &Prop, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let Ok(exe) = std::env::current_exe() else { return run(prop, tier, seed) };
    let crumbs = std::env::temp_dir().join(format!("vharness-{}-{}", prop.id, std::process::id()));
    if std::fs::write(&crumbs, [0u8; 24 * 64]).is_err() {
        return run(prop, tier, seed);
    }
    let st = Command::new(&exe).args(["run", prop.id, tier]).env("VERIF_SEED", seed.to_string()).env(CRUMBS, &crumbs).status();
    let data = std::fs::read(&crumbs).unwrap_or_default();
    let _ = std::fs::remove_file(&crumbs);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR property={} cannot start: {e}", prop.id);
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("the check's process was ended by signal {sig}");
    // the one that ends when its memory runs out says nothing about the property
    if sig == 9 || sig == 15 || sig == 2 {
        return 2;
    }
    for w in data.chunks_exact(24) {
        let n = |k: usize| u64::from_le_bytes(w[k..k + 8].try_into().unwrap());
        if n(0) == 0 || n(8) as usize >= prop.streams.len() {
            continue;
        }
        let st = &prop.streams[n(8) as usize];
        let r = Command::new(&exe).args(["case", prop.id, st.name, &n(16).to_string()]).env("VERIF_SEED", seed.to_string()).output();
        if let Ok(o) = r {
            if matches!(o.status.signal(), Some(4 | 6 | 7 | 8 | 11)) {
                let e = String::from_utf8_lossy(&o.stderr);
                let p = dead_case(prop, seed, n(8) as usize, n(16), &format!("the process is killed by signal {}: {}", o.status.signal().unwrap(), e.trim()), "crash");
                println!("VIOLATION property={} replay={p}", prop.id);
                return 1;
            }
        }
    }
    println!("ERROR property={} the crash does not come from a single case", prop.id);
    2
}

pub fn run_case(f: fn(&mut G) -> Case, g: &mut G) -> Result<Case, String> {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(c) => Ok(c),
        Err(_) => Err(carc::take_last().map_or("?".into(), |p| format!("{} at {}:{}", p.msg, p.file, p.line))),
    }
}

pub fn run(prop: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let nthreads = if prop.threads > 0 { prop.threads } else { std::thread::available_parallelism().map_or(8, |n| n.get()).min(8) };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let sh = Shared {
        evals: AtomicU64::new(0),
        keys: Mutex::new(HashSet::new()),
        labels: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(BTreeMap::new()),
        viols: Mutex::new(HashMap::new()),
        stop: AtomicBool::new(false),
        harness_panic: Mutex::new(None),
        beat: (0..nthreads).map(|_| AtomicU64::new(0)).collect(),
        cur: (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(),
        crumbs: std::env::var(CRUMBS).ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()),
    };
    let known_sigs = known(prop.id);
    let kset: HashSet<String> = known_sigs.iter().map(|k| k.0.clone()).collect();
    let only = std::env::var("VERIF_STREAM").ok();
    // work items: (stream, start, end)
    let mut items: Vec<(usize, u64, u64)> = Vec::new();
    for (si, s) in prop.streams.iter().enumerate() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        let n = ((n as f64) * scale).ceil() as u64;
        let chunk = (n / 200).clamp(1, 256);
        let mut i = 0;
        while i < n {
            items.push((si, i, (i + chunk).min(n)));
            i += chunk;
        }
    }
    // interleave streams so that an early stop has seen all of them
    items.sort_by_key(|x| {
        let s = &prop.streams[x.0];
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        (x.1 * 1000 / n.max(1), x.0)
    });
    let next = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for w in 0..nthreads {
            let sh = &sh;
            let items = &items;
            let next = &next;
            let kset = &kset;
            let h = std::thread::Builder::new()
                .name(format!("worker{w}"))
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let mut keys = HashSet::new();
                    let mut labels: HashMap<String, u64> = HashMap::new();
                    let mut new_unlisted = 0;
                    let mut seq = 0;
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                        if k >= items.len() || sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let (si, from, to) = items[k];
                        let st = &prop.streams[si];
                        for i in from..to {
                            seq += 1;
                            sh.cur[w].0.store(si as u64, Ordering::Relaxed);
                            sh.cur[w].1.store(i, Ordering::Relaxed);
                            sh.beat[w].store(seq, Ordering::Relaxed);
                            if let Some(f) = &sh.crumbs {
                                use std::os::unix::fs::FileExt;
                                let mut b = [0u8; 24];
                                b[..8].copy_from_slice(&1u64.to_le_bytes());
                                b[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                                b[16..].copy_from_slice(&i.to_le_bytes());
                                let _ = f.write_all_at(&b, w as u64 * 24);
                            }
                            let mut g = G::new(case_seed(prop, st, seed, i));
                            let c = match run_case(st.f, &mut g) {
                                Ok(c) => c,
                                Err(m) => {
                                    *sh.harness_panic.lock().unwrap() =
                                        Some(format!("stream {} case {}: {}", st.name, i, m));
                                    sh.stop.store(true, Ordering::Relaxed);
                                    return;
                                }
                            };
                            sh.evals.fetch_add(1, Ordering::Relaxed);
                            if c.nontrivial {
                                keys.insert(mix(c.key, si as u64));
                            }
                            for l in c.labels {
                                *labels.entry(format!("{}:{}", st.name, l)).or_default() += 1;
                            }
                            if c.nontrivial && !c.sample.is_empty() && (i < 6 || i % 997 == 0) {
                                let mut s = sh.samples.lock().unwrap();
                                if s.len() < 4000 {
                                    s.insert((si, i), format!("{}#{}: {}", st.name, i, c.sample));
                                }
                            }
                            if let Some(v) = c.viol {
                                let mut m = sh.viols.lock().unwrap();
                                let new = !m.contains_key(&v.sig);
                                let e = m.entry(v.sig.clone()).or_insert((si, i, g.tape.clone(), v.clone(), 0));
                                e.4 += 1;
                                if (i, si) < (e.1, e.0) {
                                    *e = (si, i, g.tape.clone(), v.clone(), e.4);
                                }
                                if new && !kset.contains(&v.sig) {
                                    new_unlisted += 1;
                                    let lim: usize = std::env::var("VERIF_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(3);
                                    if new_unlisted >= lim || m.keys().filter(|k| !kset.contains(*k)).count() >= lim {
                                        sh.stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    sh.beat[w].store(0, Ordering::Relaxed);
                    if let Some(f) = &sh.crumbs {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(&[0; 24], w as u64 * 24);
                    }
                    sh.keys.lock().unwrap().extend(keys);
                    let mut l = sh.labels.lock().unwrap();
                    for (k, v) in labels {
                        *l.entry(k).or_default() += v;
                    }
                })
                .unwrap();
            hs.push(h);
        }
        // watchdog: a case that does not end is reported; only time in which this process runs counts
        let sh2 = &sh;
        let done2 = &done;
        sc.spawn(move || {
            let mut ticks = vec![(0u64, 0u64); nthreads];
            while !done2.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for (w, b) in sh2.beat.iter().enumerate() {
                    let v = b.load(Ordering::Relaxed);
                    if v > 0 && v == ticks[w].0 {
                        ticks[w].1 += 1;
                    } else {
                        ticks[w] = (v, 0);
                    }
                    if ticks[w].1 > LIMIT_S * 5 {
                        let (si, i) = (sh2.cur[w].0.load(Ordering::Relaxed) as usize, sh2.cur[w].1.load(Ordering::Relaxed));
                        let p = dead_case(prop, seed, si, i, &format!("the case does not end within {LIMIT_S} s"), "hang");
                        println!("VIOLATION property={} replay={p}", prop.id);
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    if let Some(m) = sh.harness_panic.lock().unwrap().take() {
        println!("ERROR property={} harness failure: {}", prop.id, m);
        return 2;
    }
    // known findings
    for (sig, what) in &known_sigs {
        let pinned = prop.pins.iter().find(|p| p.0 == sig);
        let still = match pinned {
            Some((_, f)) => f(),
            None => sh.viols.lock().unwrap().contains_key(sig),
        };
        if still {
            println!("KNOWN-FINDING: property={} {}", prop.id, what);
        } else {
            println!("note: known finding no longer reproduces: {}", what);
        }
    }
    let viols = sh.viols.into_inner().unwrap();
    let mut unlisted: Vec<_> = viols.iter().filter(|(s, _)| !kset.contains(*s)).collect();
    unlisted.sort_by_key(|(s, v)| (v.0, v.1, s.to_string()));
    let nviol = unlisted.len();
    for (_, (si, idx, tape, v, count)) in &unlisted {
        let st = &prop.streams[*si];
        let (tape, v) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .name("worker-shrink".into())
                .stack_size(512 << 20)
                .spawn_scoped(sc, || shrink(st.f, tape.clone(), v.clone()))
                .unwrap()
                .join()
                .unwrap_or_else(|_| (tape.clone(), v.clone()))
        });
        let dir = format!("{}/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{:08x}.txt", prop.id, st.name, hash_str(&v.sig) as u32);
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = writeln!(f, "property {}\nstream {}\nseed {} index {}\nsignature {}\noccurrences {}", prop.id, st.name, seed, idx, v.sig, count);
        let _ = writeln!(f, "tape {}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(f, "message {}", v.msg);
        for (n, c) in &v.files {
            let _ = writeln!(f, "--- {n}\n{c}");
        }
        println!("signature: {} (x{})\n  {}", v.sig, count, v.msg.replace('\n', "\n  "));
        for (n, c) in &v.files {
            println!("  --- {n}\n{}", c.lines().map(|l| format!("  | {l}")).collect::<Vec<_>>().join("\n"));
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let keys = sh.keys.into_inner().unwrap();
    let labels = sh.labels.into_inner().unwrap();
    let samples = sh.samples.into_inner().unwrap();
    let mut chosen: Vec<String> = Vec::new();
    for si in 0..prop.streams.len() {
        chosen.extend(samples.range((si, 0)..(si + 1, 0)).take(4).map(|x| x.1.chars().take(1500).collect::<String>()));
    }
    let evals = sh.evals.load(Ordering::Relaxed);
    let mut extra = BTreeMap::new();
    (prop.extra)(&mut extra);
    let mut o = String::new();
    o.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json_str(prop.id), json_str(tier), seed, evals, keys.len(), json_str(prop.rule)
    ));
    o.push_str("  \"samples\": [\n");
    o.push_str(&chosen.iter().map(|s| format!("   {}", json_str(s))).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n  ],\n  \"streams\": {");
    o.push_str(&prop.streams.iter().map(|s| format!("{}: {}", json_str(s.name), if tier == "thorough" { s.thorough } else { s.quick })).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"distribution\": {\n");
    o.push_str(&labels.iter().map(|(k, v)| format!("   {}: {}", json_str(k), v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n  }");
    for (k, v) in &extra {
        o.push_str(&format!(",\n  {}: {}", json_str(k), json_str(v)));
    }
    o.push_str(&format!(
        "\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall, nviol
    ));
    let ed = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(format!("{ed}/{}.json", prop.id), o) {
        println!("ERROR property={} cannot write evidence: {e}", prop.id);
        return 2;
    }
    println!("{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s", prop.id, evals, keys.len(), nviol, wall);
    if nviol > 0 { 1 } else { 0 }
}

/// Tape shrinking: keep the signature, make the tape shorter/smaller.
pub fn shrink(f: fn(&mut G) -> Case, tape: Vec<u64>, v: Viol) -> (Vec<u64>, Viol) {
    let start = Instant::now();
    let mut best = tape;
    let mut bv = v;
    let mut tries = 0;
    let try_it = |t: &Vec<u64>, tries: &mut u32, sig: &str| -> Option<(Vec<u64>, Viol)> {
        *tries += 1;
        let mut g = G::from_tape(t.clone());
        let c = run_case(f, &mut g).ok()?;
        let v = c.viol?;
        if v.sig == sig { Some((g.tape, v)) } else { None }
    };
    let mut improved = true;
    while improved && tries < 3000 && start.elapsed().as_secs() < 20 {
        improved = false;
        // delete chunks
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if tries >= 3000 || start.elapsed().as_secs() >= 20 {
                    break;
                }
                let mut t = best.clone();
                t.drain(i..i + size);
                match try_it(&t, &mut tries, &bv.sig) {
                    Some((t2, v2)) if t2.len() < best.len() => {
                        best = t2;
                        bv = v2;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if tries >= 3000 || start.elapsed().as_secs() >= 20 {
                break;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for cand in [0, best[i] / 2, best[i] - 1] {
                if i >= best.len() || cand >= best[i] {
                    continue;
                }
                let mut t = best.clone();
                t[i] = cand;
                if let Some((t2, v2)) = try_it(&t, &mut tries, &bv.sig) {
                    if t2.len() < best.len() || (t2.len() == best.len() && t2 < best) {
                        best = t2;
                        bv = v2;
                        improved = true;
                        break;
                    }
                }
            }
        }
    }
    (best, bv)
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {path}: {e}");
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (pid, stream) = (get("property "), get("stream "));
    let tape: Vec<u64> = get("tape ").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let Some(p) = props.iter().find(|p| p.id == pid) else {
        println!("unknown property {pid}");
        return 2;
    };
    let Some(s) = p.streams.iter().find(|s| s.name == stream) else {
        println!("unknown stream {stream}");
        return 2;
    };
    if tape.is_empty() {
        let w: Vec<String> = get("seed ").split_whitespace().map(String::from).collect();
        let (Some(seed), Some(i)) = (w.first().and_then(|x| x.parse().ok()), w.get(2).and_then(|x| x.parse().ok())) else { return 2 };
        return run_one(p, s.name, seed, i);
    }
    let f = s.f;
    let r = std::thread::Builder::new()
        .name("worker-replay".into())
        .stack_size(512 << 20)
        .spawn(move || run_case(f, &mut G::from_tape(tape)))
        .unwrap()
        .join()
        .unwrap();
    match r {
        Err(e) => {
            println!("ERROR {e}");
            2
        }
        Ok(c) => match c.viol {
            Some(v) => {
                println!("signature: {}\n{}", v.sig, v.msg);
                for (n, c) in &v.files {
                    println!("--- {n}\n{c}");
                }
                println!("VIOLATION property={} replay={}", pid, path);
                1
            }
            None => {
                println!("not reproduced; sample: {}", c.sample);
                0
            }
        },
    }
}

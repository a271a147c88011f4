//! Choice-sequence based property engine: generation, shrinking, replay,
//! panic capture, parallel fixed-work execution, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type R = Result<(), String>;

/// splitmix/xoshiro style rng, fully deterministic.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Source of all choices of a case.
pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    pub log: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), input: vec![], log: vec![] }
    }
    pub fn replay(input: Vec<u64>) -> Self {
        Src { rng: None, input, log: vec![] }
    }
    /// 0..n ; n==0 means the full u64 range. 0 is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next();
                if n == 0 { v } else { ((v as u128 * n as u128) >> 64) as u64 }
            }
            None => {
                let v = self.input.get(self.log.len()).copied().unwrap_or(0);
                if n == 0 { v } else { v.min(n - 1) }
            }
        };
        self.log.push(v);
        v
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.draw(n.max(1) as u64) as usize
    }
    /// 0..n, now and then up to n + big.
    pub fn many(&mut self, n: usize, big: usize) -> usize {
        if self.draw(150) == 149 { n + self.u(big) } else { self.u(n) }
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn r32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as i64, hi as i64) as u32
    }
    /// true with p percent; shrinks to false
    pub fn pct(&mut self, p: u64) -> bool {
        self.draw(100) >= 100 - p.min(100)
    }
    pub fn coin(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.u(v.len())]
    }
    pub fn pickc<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.u(v.len())].clone()
    }
    /// weighted index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let sum: u64 = w.iter().sum();
        let mut x = self.draw(sum);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        w.len() - 1
    }
    /// "more?" driven loop: good for shrinking by deletion.
    pub fn more(&mut self, count: usize, min: usize, avg: usize, max: usize) -> bool {
        if count < min {
            return true;
        }
        if count >= max {
            return false;
        }
        let p = 100 * avg as u64 / (avg as u64 + 1);
        self.pct(p)
    }
    pub fn vec<T>(&mut self, min: usize, avg: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut v = Vec::new();
        while self.more(v.len(), min, avg, max) {
            v.push(f(self));
        }
        v
    }
    pub fn opt<T>(&mut self, p: u64, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.pct(p) { Some(f(self)) } else { None }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub repr: String,
    pub labels: Vec<&'static str>,
    pub want_repr: bool,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> R,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub probes: Vec<Probe>,
}

/// A known finding: probe returns Some(description) while the defect is present.
pub struct Probe {
    pub key: &'static str,
    pub run: fn() -> Option<String>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run f, panics become Err.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{}: panic: {}", what, m))
        }
    }
}

fn exec(run: fn(&mut Src, &mut Ctx) -> R, src: &mut Src, ctx: &mut Ctx) -> R {
    match guard("case", || run(src, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn case_seed(seed: u64, id: &str, part: &str, idx: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in id.bytes().chain(b"/".iter().copied()).chain(part.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(seed ^ h.rotate_left(17));
    r.next();
    let a = r.next();
    Rng::new(a ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

fn shrink(run: fn(&mut Src, &mut Ctx) -> R, start: Vec<u64>, msg: String, limit: u64) -> (Vec<u64>, String) {
    let mut best = start;
    let mut best_msg = msg;
    let mut n = 0u64;
    let t0 = Instant::now();
    // returns true if still failing and simpler
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, n: &mut u64| -> bool {
        if *n >= limit || t0.elapsed().as_secs() > 90 {
            return false;
        }
        *n += 1;
        let mut src = Src::replay(cand);
        let mut ctx = Ctx::default();
        match exec(run, &mut src, &mut ctx) {
            Ok(()) => false,
            Err(m) => {
                let mut log = src.log;
                while log.last() == Some(&0) {
                    log.pop();
                }
                if log.len() < best.len() || (log.len() == best.len() && log < *best) {
                    *best = log;
                    *best_msg = m;
                    true
                } else {
                    false
                }
            }
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        for k in [64usize, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i = i.min(best.len());
                if i < k {
                    break;
                }
                let mut c = best.clone();
                c.drain(i - k..i);
                if !attempt(c, &mut best, &mut best_msg, &mut n) {
                    i -= 1.max(k / 2);
                }
            }
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + k] {
                        *v = 0;
                    }
                    attempt(c, &mut best, &mut best_msg, &mut n);
                }
                i += k;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut guard = 0;
            while lo < hi && guard < 70 && i < best.len() {
                guard += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut best_msg, &mut n) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || n >= limit || t0.elapsed().as_secs() > 90 {
            break;
        }
    }
    (best, best_msg)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

struct PartResult {
    evals: u64,
    distinct: HashSet<u64>,
    nontrivial_samples: BTreeMap<u64, String>,
    labels: BTreeMap<&'static str, u64>,
    fail: Option<(u64, Vec<u64>, String)>,
}

fn run_part(id: &'static str, part: &Part, n: u64, seed: u64, curdir: &str) -> PartResult {
    let next = Arc::new(AtomicU64::new(0));
    let fail_at = Arc::new(AtomicU64::new(u64::MAX));
    let res = Arc::new(Mutex::new(PartResult {
        evals: 0,
        distinct: HashSet::new(),
        nontrivial_samples: BTreeMap::new(),
        labels: BTreeMap::new(),
        fail: None,
    }));
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let starts: Arc<Vec<Mutex<Option<(Instant, u64)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        let starts = starts.clone();
        let done = done.clone();
        let pname = part.name;
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            if done.load(Ordering::Relaxed) {
                return;
            }
            for s in starts.iter() {
                let v = *s.lock().unwrap();
                if let Some((t, idx)) = v {
                    if t.elapsed().as_secs() > 120 {
                        let m = format!("case {} did not finish within 120 s", idx);
                        let path = write_replay(id, pname, &[], &m, &format!("mode=index\nseed={}\nindex={}", seed, idx));
                        println!("{}", m);
                        println!("VIOLATION property={} replay={}", id, path);
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    let mut hs = vec![];
    for w in 0..threads {
        let next = next.clone();
        let fail_at = fail_at.clone();
        let res = res.clone();
        let starts = starts.clone();
        let run = part.run;
        let pname = part.name;
        let curfile = format!("{}/cur.{}", curdir, w);
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    use std::io::{Seek, Write};
                    let mut cf = std::fs::File::create(&curfile).ok();
                    let mut evals = 0;
                    let mut distinct = HashSet::new();
                    let mut samples: BTreeMap<u64, String> = BTreeMap::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= n || idx > fail_at.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(f) = &mut cf {
                            let _ = f.rewind();
                            let _ = f.write_all(format!("{} {:020}", pname, idx).as_bytes());
                        }
                        *starts[w].lock().unwrap() = Some((Instant::now(), idx));
                        let mut src = Src::random(case_seed(seed, id, pname, idx));
                        let mut ctx = Ctx { want_repr: true, ..Default::default() };
                        let r = exec(run, &mut src, &mut ctx);
                        *starts[w].lock().unwrap() = None;
                        evals += 1;
                        if ctx.nontrivial {
                            let h = if ctx.repr.is_empty() { hash_str(&format!("{:?}", src.log)) } else { hash_str(&ctx.repr) };
                            if distinct.insert(h) && samples.len() < 3 {
                                samples.insert(idx, format!("[{}] {}", pname, trunc(&ctx.repr, 700)));
                            }
                        }
                        for l in ctx.labels {
                            *labels.entry(l).or_default() += 1;
                        }
                        if let Err(m) = r {
                            fail_at.fetch_min(idx, Ordering::Relaxed);
                            let mut g = res.lock().unwrap();
                            if g.fail.as_ref().map(|f| idx < f.0).unwrap_or(true) {
                                g.fail = Some((idx, src.log, m));
                            }
                        }
                    }
                    let mut g = res.lock().unwrap();
                    g.evals += evals;
                    g.distinct.extend(distinct);
                    g.nontrivial_samples.extend(samples);
                    for (k, v) in labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    done.store(true, Ordering::Relaxed);
    Arc::try_unwrap(res).ok().unwrap().into_inner().unwrap()
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn write_replay(id: &str, part: &str, choices: &[u64], msg: &str, extra: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.replay", dir, id, part);
    let body = format!(
        "property={}\npart={}\nchoices={}\n{}\n--- message ---\n{}\n",
        id,
        part,
        choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
        extra,
        msg
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Runs a check. Returns the exit code.
pub fn run_check(chk: &Check, tier: &str, seed: u64, curdir: &str) -> i32 {
    let t0 = Instant::now();
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples: Vec<String> = vec![];
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations = 0;
    let known = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif_dir())).unwrap_or_default();
    for p in &chk.probes {
        let listed = known.lines().any(|l| l.starts_with("finding: ") && l.split_whitespace().any(|w| w == format!("property={}", chk.id)) && l.split_whitespace().any(|w| w == format!("key={}", p.key)));
        let r = match guard("probe", p.run) {
            Ok(r) => r,
            Err(e) => Some(e),
        };
        evals += 1;
        if let Some(m) = r {
            if listed {
                println!("KNOWN-FINDING: property={} key={} {}", chk.id, p.key, trunc(&m.replace('\n', " "), 300));
            } else {
                let path = write_replay(chk.id, &format!("probe-{}", p.key), &[], &m, "probe");
                println!("{}", trunc(&m, 2000));
                println!("VIOLATION property={} replay={}", chk.id, path);
                violations += 1;
            }
        }
    }
    for part in &chk.parts {
        if let Ok(only) = std::env::var("VERIF_PART") {
            if only != part.name {
                continue;
            }
        }
        // the cheap checks can afford more cases in the quick tier
        let more = match chk.id {
            "C05" | "C06" | "C07" | "C09" | "C10" | "C11" | "C12" | "C19" | "C20" | "C21" | "C22" | "C23" => 4,
            "C01" | "C02" | "C03" | "C08" | "C14" | "C18" | "C25" | "C26" | "C27" => 2,
            _ => 1,
        };
        let n = if tier == "thorough" { part.thorough.max(part.quick * more) } else { part.quick * more };
        // for experiments only: fewer cases
        let n = match std::env::var("VERIF_PERMILLE").ok().and_then(|v| v.parse::<u64>().ok()) {
            Some(m) => (n * m / 1000).max(20),
            None => n,
        };
        let tp = Instant::now();
        let r = run_part(chk.id, part, n, seed, curdir);
        evals += r.evals;
        distinct += r.distinct.len() as u64;
        for (_, s) in r.nontrivial_samples.into_iter().take(2) {
            samples.push(s);
        }
        for (k, v) in r.labels {
            *labels.entry(format!("{}:{}", part.name, k)).or_default() += v;
        }
        eprintln!("{} {}: {} cases, {} distinct non-trivial, {:.1}s", chk.id, part.name, r.evals, r.distinct.len(), tp.elapsed().as_secs_f64());
        if let Some((idx, log, msg)) = r.fail {
            let (best, bmsg) = shrink_big(part.run, log, msg);
            let mut ctx = Ctx { want_repr: true, ..Default::default() };
            let mut src = Src::replay(best.clone());
            let _ = exec(part.run, &mut src, &mut ctx);
            let path = write_replay(chk.id, part.name, &best, &bmsg, &format!("seed={}\nindex={}\n--- case ---\n{}", seed, idx, ctx.repr));
            println!("{}", trunc(&bmsg, 3000));
            println!("case: {}", trunc(&ctx.repr, 2000));
            println!("VIOLATION property={} replay={}", chk.id, path);
            violations += 1;
        }
    }
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(chk.id), jstr(tier), seed));
    j.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"classes\": {{{}}}\n }},\n",
        evals, distinct, jstr(chk.rule),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "),
        labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations));
    let ed = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&ed);
    if std::fs::write(format!("{}/{}.json", ed, chk.id), j).is_err() {
        println!("ERROR: cannot write evidence");
        return 3;
    }
    if violations > 0 { 1 } else { 0 }
}

fn shrink_big(run: fn(&mut Src, &mut Ctx) -> R, log: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    // run on a big stack, as the workers do
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || shrink(run, log, msg, if std::env::var("VERIF_NOSHRINK").is_ok() { 0 } else { 6000 }))
        .unwrap()
        .join()
        .unwrap_or_else(|_| (vec![], "shrink failed".into()))
}

pub fn replay_one(chk: &Check, part: &str, choices: Vec<u64>) -> i32 {
    if let Some(k) = part.strip_prefix("probe-") {
        for p in &chk.probes {
            if p.key == k {
                let r = guard("probe", p.run).unwrap_or_else(Some);
                println!("{:?}", r);
                return if r.is_some() { 1 } else { 0 };
            }
        }
    }
    for p in &chk.parts {
        if p.name == part {
            let run = p.run;
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let mut src = Src::replay(choices);
                let mut ctx = Ctx { want_repr: true, ..Default::default() };
                let r = exec(run, &mut src, &mut ctx);
                (r, ctx.repr)
            });
            let (r, repr) = h.unwrap().join().unwrap();
            println!("case: {}", repr);
            return match r {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(m) => {
                    println!("{}", m);
                    1
                }
            };
        }
    }
    println!("no such part");
    2
}

pub fn one_index(chk: &Check, part: &str, idx: u64, seed: u64) -> i32 {
    for p in &chk.parts {
        if p.name == part {
            let run = p.run;
            let id = chk.id;
            let pn = p.name;
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let mut src = Src::random(case_seed(seed, id, pn, idx));
                let mut ctx = Ctx { want_repr: true, ..Default::default() };
                exec(run, &mut src, &mut ctx)
            });
            return match h.unwrap().join().unwrap() {
                Ok(()) => 0,
                Err(m) => {
                    println!("{}", m);
                    1
                }
            };
        }
    }
    2
}

//! Search, shrinking, crash isolation, evidence.
use crate::src::{Dict, Rng, Src, MAX_CHOICES};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: Option<String>,
    /// additional elementary evaluations inside this case (cut points, chunkings, ...)
    pub sub: u64,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        if let Some(x) = self.labels.get_mut(s) {
            *x += 1;
        } else {
            self.labels.insert(s.to_string(), 1);
        }
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.desc = Some(s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub stack: usize,
    /// percentage of cases that mutate an interesting earlier case
    pub mutate: u64,
    pub case: fn(&mut Src, &mut Ctx) -> Res,
    /// Fixed enumerations and regression cases, each run once.  A name starting with "known:" is a
    /// probe of a recorded finding and runs isolated.
    pub sweeps: &'static [(&'static str, fn(&mut Ctx) -> Res)],
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, m));
    }));
}

pub fn guarded<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn run(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = false;
    match guarded(|| (p.case)(src, ctx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in c {
        h = (h ^ x).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

pub fn repo_root() -> PathBuf {
    PathBuf::from(std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into()))
}

pub fn load_dict() -> Rc<Dict> {
    let mut d = Dict::default();
    let mut ints = HashSet::new();
    let mut texts = HashSet::new();
    fn walk(p: &Path, out: &mut Vec<PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, out)
                } else if e.extension().map_or(false, |x| x == "rs") {
                    out.push(e)
                }
            }
        }
    }
    let mut files = vec![];
    walk(&repo_root().join("src"), &mut files);
    for f in files {
        let t = match std::fs::read_to_string(&f) {
            Ok(t) => t,
            _ => continue,
        };
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'"' {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && b[j] != b'"' && b[j] != b'\n' {
                    if b[j] == b'\\' {
                        j += 1;
                    }
                    j += 1;
                }
                if j < b.len() && b[j] == b'"' && j - st <= 60 && !t[st..j].contains('\\') && texts.insert(t[st..j].to_string()) {
                    d.texts.push(t[st..j].to_string());
                }
                i = j + 1;
            } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let s: String = t[i..j].replace('_', "");
                let strip = |s: &str| -> String {
                    for suf in ["usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] {
                        if let Some(x) = s.strip_suffix(suf) {
                            return x.to_string();
                        }
                    }
                    s.to_string()
                };
                let v = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else {
                    strip(&s).parse::<u64>().ok()
                };
                if let Some(v) = v {
                    if ints.insert(v) {
                        d.ints.push(v);
                    }
                }
                i = j;
            } else {
                i += 1;
            }
        }
    }
    Rc::new(d)
}

// ---------- shared page ----------
// [0] cases done  [1] mode: 0 = case, k+1 = sweep k   [2..] choice count, choices
const SHM_WORDS: usize = MAX_CHOICES + 8;
unsafe fn map_shared(path: &Path) -> *mut u64 {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len((SHM_WORDS * 8) as u64).unwrap();
    use std::os::unix::io::AsRawFd;
    let p = libc::mmap(std::ptr::null_mut(), SHM_WORDS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

fn limit(res: libc::__rlimit_resource_t, v: u64) {
    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
    unsafe {
        libc::setrlimit(res, &l);
    }
}

// ---------- shrinking ----------
/// Minimise `cur` while `fails` holds; `fails` returns the recorded choices of the run.
fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(mut cur: Vec<u64>, max_execs: usize, mut fails: F) -> Vec<u64> {
    let mut execs = 0;
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    let mut progress = true;
    while progress && execs < max_execs {
        progress = false;
        // drop the tail
        for frac in [2, 4, 8] {
            let keep = cur.len() - cur.len() / frac;
            if keep < cur.len() && execs < max_execs {
                execs += 1;
                if let Some(r) = fails(&cur[..keep]) {
                    if better(&r, &cur) {
                        cur = r;
                        progress = true;
                    }
                }
            }
        }
        // delete chunks
        let mut size = (cur.len() / 2).max(1).min(256);
        loop {
            let mut i = cur.len();
            while i > 0 && execs < max_execs {
                i = i.saturating_sub(size);
                if i + size > cur.len() {
                    continue;
                }
                let mut c = cur.clone();
                c.drain(i..i + size);
                execs += 1;
                if let Some(r) = fails(&c) {
                    if better(&r, &cur) {
                        cur = r;
                        progress = true;
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < cur.len() && execs < max_execs {
            if cur[i] != 0 {
                let mut lo = 0u64; // known (assumed) not failing below
                let orig = cur[i];
                let mut try_v = |cur: &mut Vec<u64>, v: u64, execs: &mut usize| -> bool {
                    let mut c = cur.clone();
                    c[i] = v;
                    *execs += 1;
                    if let Some(r) = fails(&c) {
                        if better(&r, cur) {
                            *cur = r;
                            return true;
                        }
                    }
                    false
                };
                if try_v(&mut cur, 0, &mut execs) {
                    progress = true;
                } else {
                    let mut hi = orig;
                    while hi - lo > 1 && execs < max_execs && i < cur.len() {
                        let mid = lo + (hi - lo) / 2;
                        if try_v(&mut cur, mid, &mut execs) {
                            hi = mid;
                            progress = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    cur
}

fn mutate(base: &[u64], other: &[u64], r: &mut Rng) -> Vec<u64> {
    let mut v = base.to_vec();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if v.is_empty() {
            v.push(r.next());
            continue;
        }
        let i = r.below(v.len() as u64) as usize;
        match r.below(9) {
            0 | 1 => v[i] = r.next() >> r.below(64),
            2 => v[i] = v[i].wrapping_add(1),
            3 => v[i] = v[i].wrapping_sub(1),
            4 => {
                let k = (1 + r.below(8) as usize).min(v.len() - i);
                v.drain(i..i + k);
            }
            5 => {
                let k = 1 + r.below(4) as usize;
                for _ in 0..k {
                    v.insert(i, r.next() >> r.below(64));
                }
            }
            6 => {
                let k = (1 + r.below(16) as usize).min(v.len() - i);
                let c: Vec<u64> = v[i..i + k].to_vec();
                let at = r.below(v.len() as u64 + 1) as usize;
                for (j, x) in c.into_iter().enumerate() {
                    v.insert(at + j, x);
                }
            }
            7 => {
                if !other.is_empty() {
                    let a = r.below(other.len() as u64) as usize;
                    v.truncate(i);
                    v.extend_from_slice(&other[a..]);
                }
            }
            _ => v.truncate(i),
        }
    }
    v.truncate(MAX_CHOICES);
    v
}

// ---------- worker ----------
pub fn worker(p: &'static Prop, idx: u64, nw: u64, cases: u64, seed: u64, dir: &Path) -> i32 {
    limit(libc::RLIMIT_AS, 3 << 30);
    limit(libc::RLIMIT_CORE, 0);
    let shm = unsafe { map_shared(&dir.join(format!("w{}.cur", idx))) } as usize;
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new().stack_size(p.stack).spawn(move || worker_body(p, idx, nw, cases, seed, &dir, shm as *mut u64)).unwrap();
    h.join().unwrap_or(3)
}

fn worker_body(p: &'static Prop, idx: u64, nw: u64, cases: u64, seed: u64, dir: &Path, shm: *mut u64) -> i32 {
    let dict = load_dict();
    let mut ctx = Ctx::default();
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx * 7919 + 17));
    let mut out = std::fs::File::create(dir.join(format!("w{}.res", idx))).unwrap();
    let start = Instant::now();
    let mut swept = 0u64;
    for (k, (name, f)) in p.sweeps.iter().enumerate() {
        if name.starts_with("known:") || (k as u64) % nw != idx {
            continue;
        }
        unsafe { *shm.add(1) = k as u64 + 1 };
        let r = match guarded(|| f(&mut ctx)) {
            Ok(r) => r,
            Err(m) => Err(m),
        };
        swept += 1;
        if let Err(m) = r {
            writeln!(out, "X {}\nM {}", name, m.replace('\n', "\\n")).unwrap();
            return 1;
        }
    }
    unsafe { *shm.add(1) = 0 };
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut seen: Vec<u8> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let sample_every = (cases / 5).max(1);
    let mut want = true;
    for i in 0..cases {
        if start.elapsed() > Duration::from_secs(600) {
            writeln!(out, "T 1").unwrap();
            break;
        }
        let cseed = rng.next();
        let (replay, _) = if !corpus.is_empty() && rng.below(100) < p.mutate {
            let a = rng.below(corpus.len() as u64) as usize;
            let b = rng.below(corpus.len() as u64) as usize;
            (mutate(&corpus[a], &corpus[b], &mut rng), true)
        } else {
            (vec![], false)
        };
        covrt::reset();
        let mut src = Src::new(replay, true, cseed, dict.clone(), unsafe { shm.add(2) });
        if i % sample_every == sample_every / 2 {
            want = true;
        }
        ctx.want_desc = want;
        ctx.desc = None;
        let r = run(p, &mut src, &mut ctx);
        evals += 1;
        unsafe { *shm = evals };
        if let Err(m) = r {
            let rec = src.rec.clone();
            // shrink in process; the message may change, the failure may not vanish
            let dict2 = dict.clone();
            let mut last = m.clone();
            let mut c2 = Ctx::default();
            let min = shrink(rec, 4000, |c| {
                let mut s = Src::new(c.to_vec(), false, 0, dict2.clone(), unsafe { shm.add(2) });
                match run(p, &mut s, &mut c2) {
                    Err(e) => {
                        last = e;
                        Some(s.rec)
                    }
                    Ok(()) => None,
                }
            });
            let mut s = Src::new(min.clone(), false, 0, dict.clone(), unsafe { shm.add(2) });
            c2.want_desc = true;
            let m = match run(p, &mut s, &mut c2) {
                Err(e) => e,
                Ok(()) => m,
            };
            let cs: Vec<String> = min.iter().map(|x| x.to_string()).collect();
            let d = c2.desc.unwrap_or_default();
            writeln!(out, "F {}\nM {} [{}]", cs.join(" "), m.replace('\n', "\\n"), d.replace('\n', "\\n")).unwrap();
            return 1;
        }
        if ctx.nontrivial {
            nontriv += 1;
            hashes.insert(hash_choices(&src.rec));
            if want {
                if let Some(d) = ctx.desc.take() {
                    if samples.len() < 6 {
                        samples.push(d);
                        want = false;
                    }
                }
            }
        }
        if p.mutate > 0 && covrt::merge(&mut seen) > 0 && src.rec.len() < 3000 {
            if corpus.len() < 3000 {
                corpus.push(std::mem::take(&mut src.rec));
            } else {
                let k = rng.below(corpus.len() as u64) as usize;
                corpus[k] = std::mem::take(&mut src.rec);
            }
        }
    }
    writeln!(out, "E {} {} {} {}", evals, nontriv, swept, ctx.sub).unwrap();
    let cov = seen.iter().filter(|&&x| x != 0).count();
    writeln!(out, "C {} {} {}", cov, covrt::edges(), corpus.len()).unwrap();
    for (k, v) in &ctx.labels {
        writeln!(out, "L {} {}", v, k).unwrap();
    }
    for s in &samples {
        writeln!(out, "S {}", s.replace('\n', "\\n")).unwrap();
    }
    let mut hb: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("w{}.hash", idx)), hb).unwrap();
    if std::env::var("VH_CORPUS").is_ok() {
        let mut c = std::fs::File::create(dir.join(format!("w{}.corpus", idx))).unwrap();
        for x in &corpus {
            writeln!(c, "{}", x.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        }
    }
    writeln!(out, "Z").unwrap();
    0
}

// ---------- replay ----------
/// A failure that needs the cases before it in the same process: the worker's whole run again.
fn history(p: &'static Prop, h: &str, file: &Path) -> i32 {
    let v: Vec<u64> = h.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let dir = file.with_extension(format!("{}.dir", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = worker(p, v[0], v[1], v[2], v[3], &dir);
    let t = std::fs::read_to_string(dir.join(format!("w{}.res", v[0]))).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    match t.lines().find_map(|l| l.strip_prefix("M ")) {
        Some(m) => {
            println!("fails: {}", m);
            1
        }
        None if r == 0 => {
            println!("holds");
            0
        }
        None => {
            println!("the worker ended with {}", r);
            1
        }
    }
}

pub fn isolate(p: &'static Prop, file: &Path) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    if let Some(h) = t.lines().find_map(|l| l.strip_prefix("history ")) {
        return history(p, h, file);
    }
    limit(libc::RLIMIT_AS, 3 << 30);
    limit(libc::RLIMIT_CORE, 0);
    limit(libc::RLIMIT_CPU, 45);
    let mut choices: Option<Vec<u64>> = None;
    let mut sweep: Option<String> = None;
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("choices ") {
            choices = Some(r.split_whitespace().map(|x| x.parse().unwrap()).collect());
        } else if l == "choices" {
            choices = Some(vec![]);
        } else if let Some(r) = l.strip_prefix("sweep ") {
            sweep = Some(r.trim().to_string());
        }
    }
    let h = std::thread::Builder::new()
        .stack_size(p.stack)
        .spawn(move || {
            let mut ctx = Ctx::default();
            ctx.want_desc = true;
            let r = if let Some(name) = sweep {
                match p.sweeps.iter().find(|(n, _)| *n == name) {
                    None => {
                        println!("no such sweep");
                        return 2;
                    }
                    Some((_, f)) => match guarded(|| f(&mut ctx)) {
                        Ok(r) => r,
                        Err(m) => Err(m),
                    },
                }
            } else {
                let mut s = Src::new(choices.expect("choices"), false, 0, load_dict(), std::ptr::null_mut());
                run(p, &mut s, &mut ctx)
            };
            if let Some(d) = &ctx.desc {
                println!("case: {}", d);
            }
            match r {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(m) => {
                    println!("fails: {}", m);
                    1
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(1)
}

/// Outcome of an isolated run: None = holds; Some(what) = fails (including crash).
fn isolated(p: &Prop, file: &Path) -> Result<Option<String>, String> {
    let exe = std::env::current_exe().unwrap();
    let o = Command::new("timeout").arg("-s").arg("KILL").arg("150").arg(exe).arg("isolate").arg(p.id).arg(file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
    let txt = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => Ok(None),
        Some(1) => Ok(Some(txt.lines().filter(|l| !l.is_empty()).collect::<Vec<_>>().join(" | "))),
        Some(c) => Err(format!("isolated run exited {}: {}", c, txt)),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let sig = o.status.signal().unwrap_or(0);
            let err = String::from_utf8_lossy(&o.stderr);
            let e: String = err.lines().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
            let what = match sig {
                libc::SIGXCPU | libc::SIGKILL => "did not terminate within 45 s of CPU time".to_string(),
                _ => format!("process killed by signal {} ({})", sig, e),
            };
            Ok(Some(what))
        }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    property: String,
    key: String,
    text: String,
}
fn known_findings(verif: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut property = String::new();
                let mut key = String::new();
                let mut rest = vec![];
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        property = x.into();
                    } else if let Some(x) = w.strip_prefix("key=") {
                        key = x.into();
                    } else {
                        rest.push(w);
                    }
                }
                v.push(Known { property, key, text: rest.join(" ") });
            }
        }
    }
    v
}

pub fn check(p: &'static Prop, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let nw: u64 = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let suffix = std::env::var("VH_VARIANT").unwrap_or_default();
    let id = std::env::var("VH_REPORT_AS").unwrap_or_else(|_| p.id.to_string());
    let dir = verif.join("out").join(format!("{}{}", p.id, suffix));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, std::process::Child, *mut u64, u64, Instant, bool)> = vec![];
    for i in 0..nw {
        let shm = unsafe { map_shared(&dir.join(format!("w{}.cur", i))) };
        let k = Command::new(&exe)
            .arg("worker").arg(p.id).arg(i.to_string()).arg(nw.to_string())
            .arg(((total + nw - 1) / nw).to_string()).arg(seed.to_string()).arg(&dir)
            .stdin(Stdio::null()).stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("w{}.err", i))).unwrap())
            .spawn().expect("spawn worker");
        kids.push((i, k, shm, u64::MAX, Instant::now(), false));
    }
    // supervise: a worker without progress for 90 s is stopped and its case examined alone
    let mut done: BTreeMap<u64, Option<i32>> = BTreeMap::new();
    let mut failed_seen: Option<Instant> = None;
    while done.len() < nw as usize {
        for (i, k, shm, last, since, _) in kids.iter_mut() {
            if done.contains_key(i) {
                continue;
            }
            if let Ok(Some(st)) = k.try_wait() {
                done.insert(*i, st.code());
                if st.code() != Some(0) && failed_seen.is_none() {
                    failed_seen = Some(Instant::now());
                }
                continue;
            }
            let now = unsafe { std::ptr::read_volatile(*shm) }.wrapping_add(unsafe { std::ptr::read_volatile(shm.add(2)) } << 32);
            if now != *last {
                *last = now;
                *since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(90) {
                let _ = k.kill();
            }
            // once one worker failed, the others get a little longer and are then stopped
            if let Some(t) = failed_seen {
                if t.elapsed() > Duration::from_secs(20) {
                    let _ = k.kill();
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut swept = 0u64;
    let mut sub = 0u64;
    let mut cov = 0u64;
    let mut edges = 0u64;
    let mut corpus = 0u64;
    let mut timed = false;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut violation: Option<(String, String)> = None; // replay text, message
    let mut errors: Vec<String> = vec![];
    for i in 0..nw {
        let mut t = String::new();
        if let Ok(mut f) = std::fs::File::open(dir.join(format!("w{}.res", i))) {
            let _ = f.read_to_string(&mut t);
        }
        let mut complete = false;
        let mut fail: Option<String> = None;
        let history = format!("history {} {} {} {}", i, nw, (total + nw - 1) / nw, seed);
        for l in t.lines() {
            let (k, r) = if l.len() > 2 { (&l[..1], &l[2..]) } else { (l, "") };
            match k {
                "E" => {
                    let v: Vec<u64> = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
                    evals += v[0];
                    nontriv += v[1];
                    swept += v[2];
                    sub += v[3];
                }
                "C" => {
                    let v: Vec<u64> = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
                    cov = cov.max(v[0]);
                    edges = v[1];
                    corpus += v[2];
                }
                "T" => timed = true,
                "L" => {
                    let mut w = r.splitn(2, ' ');
                    let n: u64 = w.next().unwrap().parse().unwrap();
                    *labels.entry(w.next().unwrap_or("").to_string()).or_insert(0) += n;
                }
                "S" => samples.push(r.to_string()),
                "F" => fail = Some(format!("choices {}", r)),
                "X" => fail = Some(format!("sweep {}", r)),
                "M" => {
                    if violation.is_none() {
                        let mut f = fail.clone().unwrap_or_default();
                        let mut m = r.to_string();
                        if f.starts_with("choices") {
                            let tf = dir.join(format!("confirm{}.replay", i));
                            std::fs::write(&tf, format!("property {}\n{}\n", p.id, f)).unwrap();
                            if let Ok(None) = isolated(p, &tf) {
                                f = history.clone();
                                m = format!("{} (only after earlier cases in the same process)", m);
                            }
                        }
                        violation = Some((f, m));
                    }
                    complete = true;
                }
                "Z" => complete = true,
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{}.hash", i))) {
            for c in b.chunks_exact(8) {
                let mut a = [0u8; 8];
                a.copy_from_slice(c);
                hashes.insert(u64::from_le_bytes(a));
            }
        }
        if !complete && violation.is_none() {
            if failed_seen.is_some() && done[&i].is_none() && kids[i as usize].4.elapsed() < Duration::from_secs(89) && done.values().any(|c| *c == Some(1)) {
                continue; // stopped because another worker had failed
            }
            // died: look at the case it was running, alone
            let shm = kids[i as usize].2;
            let txt = unsafe {
                let mode = *shm.add(1);
                if mode > 0 {
                    format!("sweep {}", p.sweeps[mode as usize - 1].0)
                } else {
                    let n = (*shm.add(2) as usize).min(MAX_CHOICES);
                    let v: Vec<String> = (0..n).map(|k| (*shm.add(3 + k)).to_string()).collect();
                    format!("choices {}", v.join(" "))
                }
            };
            let f = dir.join(format!("crash{}.replay", i));
            std::fs::write(&f, format!("property {}\n{}\n", p.id, txt)).unwrap();
            match isolated(p, &f) {
                Ok(Some(m)) => {
                    let mut best = txt.clone();
                    let hang = m.contains("did not terminate");
                    if let (Some(c), false) = (txt.strip_prefix("choices "), hang) {
                        let c0: Vec<u64> = c.split_whitespace().map(|x| x.parse().unwrap()).collect();
                        let tf = dir.join("shrink.replay");
                        let min = shrink(c0, 300, |c| {
                            let v: Vec<String> = c.iter().map(|x| x.to_string()).collect();
                            std::fs::write(&tf, format!("choices {}\n", v.join(" "))).unwrap();
                            match isolated(p, &tf) {
                                Ok(Some(_)) => Some(c.to_vec()),
                                _ => None,
                            }
                        });
                        best = format!("choices {}", min.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                    }
                    violation = Some((best, m));
                }
                Ok(None) => {
                    // perhaps it takes the cases before it as well
                    std::fs::write(&f, format!("property {}\n{}\n", p.id, history)).unwrap();
                    match isolated(p, &f) {
                        Ok(Some(m)) if !m.contains("did not terminate") => violation = Some((history, m)),
                        _ => errors.push(format!("worker {} ended with {:?} but its case passes alone", i, done[&i])),
                    }
                }
                Err(e) => errors.push(e),
            }
        }
    }
    // recorded findings
    let known = known_findings(verif);
    for (name, _) in p.sweeps.iter().filter(|(n, _)| n.starts_with("known:")) {
        let key = &name[6..];
        let f = dir.join(format!("known-{}.replay", key));
        std::fs::write(&f, format!("property {}\nsweep {}\n", p.id, name)).unwrap();
        swept += 1;
        match isolated(p, &f) {
            Ok(None) => {}
            Ok(Some(m)) => match known.iter().find(|k| k.property == id && k.key == key) {
                Some(k) => println!("KNOWN-FINDING: property={} {} ({})", id, k.text, key),
                None => {
                    if violation.is_none() {
                        violation = Some((format!("sweep {}", name), m));
                    }
                }
            },
            Err(e) => errors.push(e),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    samples.truncate(8);
    let mut ev = String::new();
    ev.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", json(&id), json(tier), seed));
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {},\n", evals, hashes.len(), nontriv));
    ev.push_str(&format!("  \"rule\": {},\n  \"fixed_sweeps\": {},\n  \"sub_evaluations\": {},\n", json(p.rule), swept, sub));
    ev.push_str(&format!("  \"edges_covered\": {},\n  \"edges_instrumented\": {},\n  \"interesting_cases_kept\": {},\n", cov, edges, corpus));
    ev.push_str("  \"classes\": {");
    let ls: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    ev.push_str(&ls.join(", "));
    ev.push_str("},\n  \"samples\": [");
    let ss: Vec<String> = samples.iter().map(|s| json(s)).collect();
    ev.push_str(&ss.join(",\n   "));
    ev.push_str(&format!("],\n  \"stopped_early\": {}\n }},\n", timed));
    ev.push_str(" \"assumptions\": [\"crate built with overflow checks and debug assertions\", \"reference parser, encoder and schema tables in /verif/harness are a correct reading of AMQP 1.0\"],\n");
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violation.is_some() as u32));
    std::fs::create_dir_all(verif.join("evidence")).unwrap();
    std::fs::write(verif.join("evidence").join(format!("{}.json", id)), ev).unwrap();
    for (_, _, shm, _, _, _) in &kids {
        unsafe {
            libc::munmap(*shm as *mut libc::c_void, SHM_WORDS * 8);
        }
    }
    for i in 0..nw {
        for e in ["cur", "hash", "err"] {
            let _ = std::fs::remove_file(dir.join(format!("w{}.{}", i, e)));
        }
    }
    if let Some((replay, msg)) = violation {
        let f = verif.join("out").join(format!("{}{}.replay", id, suffix));
        std::fs::write(&f, format!("property {}\n{}\nmessage {}\n", p.id, replay, msg)).unwrap();
        println!("{}: {}", p.id, msg);
        println!("VIOLATION property={} replay={}", id, f.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {}", e);
        }
        return 2;
    }
    println!("{}: ok, {} cases ({} non-trivial, {} distinct), {} sweeps, {}/{} edges, {:.1} s", p.id, evals, nontriv, hashes.len(), swept, cov, edges, wall);
    0
}

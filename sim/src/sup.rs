//! The supervisor: one forked child per simulated run, search, minimisation, replay, evidence.
use crate::json::J;
use crate::obj;
use crate::rng::{mix, Rng};
use crate::rt::{self, FaultRec, SimShared, Stats, Switch, FAULT_NAMES, NFAULT};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

/// A violation: `class` stays the same while a run is being minimised, `msg` is for people.
#[derive(Clone, Debug)]
pub struct V { pub class: String, pub msg: String }
pub type Res = Result<(), V>;
pub fn v<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, V> { Err(V { class: class.into(), msg: msg.into() }) }

#[derive(Clone)]
pub struct Plan { pub seed: u64, pub case: J, pub log: Option<(Vec<Switch>, Vec<FaultRec>)> }

pub trait Check {
    fn id(&self) -> &'static str;
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> J;
    fn valid(&self, _case: &J) -> bool { true }
    fn exec(&self, plan: &Plan) -> Res;
    /// (number of runs, wall-clock cap in seconds)
    fn budget(&self, tier: Tier) -> (u64, f64);
    fn rule(&self) -> &'static str;
    fn real(&self) -> Vec<&'static str>;
    fn stubs(&self) -> Vec<&'static str>;
    fn probes(&self) -> &'static [&'static str];
    fn cpu_limit(&self) -> u64 { 120 }
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    /// keys of the case that minimisation must leave alone
    fn keep(&self) -> &'static [&'static str] { &[] }
}

pub const NPROBE: usize = 48;
#[repr(C)]
pub struct Slot {
    done: u32,          // 0 running, 1 held, 2 violation, 3 not applicable to this case
    nontrivial: u32,
    digest: u64,
    probes: [u64; NPROBE],
    class: [u8; 160], msg: [u8; 4000], panic: [u8; 600],
    pub sim: SimShared,
}

static mut SLOT: *mut Slot = std::ptr::null_mut();
static mut PROBES: &[&str] = &[];
pub fn slot() -> &'static mut Slot { unsafe { &mut *SLOT } }

fn put(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&c| c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

/// Count a rare condition or an amount of checked work.
pub fn probe(name: &str, n: u64) {
    let ps = unsafe { PROBES };
    let i = ps.iter().position(|p| *p == name).unwrap_or_else(|| panic!("unknown probe {}", name));
    slot().probes[i] += n;
}
/// for a process that answers questions of a run: what happens there is not the run's
pub fn private_slot() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Slot>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        SLOT = p as *mut Slot;
    }
    rt::set_private();
}
pub fn nontrivial() { slot().nontrivial = 1; }
pub fn digest(x: u64) { slot().digest = mix(slot().digest ^ x); }
pub fn last_panic() -> String { get(&slot().panic) }

/// for signal handlers: the run ends here and held
pub fn mark_held() { slot().done = 1; }
fn finish(code: u32) -> ! {
    slot().done = code;
    unsafe { libc::_exit(0) }
}
pub fn fail_now(class: &str, msg: &str) -> ! {
    put(&mut slot().class, class);
    put(&mut slot().msg, msg);
    finish(2)
}
extern "C" fn fatal_cb(kind: i32, msg: *const libc::c_char) {
    let m = unsafe { std::ffi::CStr::from_ptr(msg) }.to_string_lossy().into_owned();
    match kind {
        1 => fail_now("deadlock", &m),
        2 => fail_now("no-progress", &m),
        _ => { put(&mut slot().msg, &m); unsafe { libc::_exit(70) } }
    }
}

/// Run `f`, turning a panic into a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, V> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => v("panic", format!("{}: {}", what, last_panic())),
    }
}

static mut BEGUN: bool = false;
pub fn begin(plan: &Plan, cfg: &rt::Cfg) {
    unsafe { BEGUN = true; }
    match &plan.log {
        None => rt::begin(cfg, None),
        Some((s, f)) => {
            let s = Box::leak(s.clone().into_boxed_slice());
            let f = Box::leak(f.clone().into_boxed_slice());
            rt::begin(cfg, Some((s, f)));
        }
    }
}

fn child(check: &dyn Check, plan: &Plan, cpu: usize) -> ! {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        let lim = libc::rlimit { rlim_cur: check.cpu_limit(), rlim_max: check.cpu_limit() + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if std::env::var_os("BBSIM_TRACE").is_none() {
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if fd >= 0 { libc::dup2(fd, 2); libc::close(fd); }
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        put(&mut slot().panic, &format!("panic at {}: {}", l, m));
        if std::env::var_os("BBSIM_TRACE").is_some() { eprintln!("panic at {}: {}", l, m); }
    }));
    rt::set_shared(&mut slot().sim);
    rt::set_fatal(fatal_cb);
    rt::heap_on(plan.seed);
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check.exec(plan))) {
        Ok(r) => r,
        Err(_) => { put(&mut slot().msg, &format!("harness panic: {}", last_panic())); unsafe { libc::_exit(71) } }
    };
    if unsafe { BEGUN } { rt::pause(); let _ = rt::stats(); }
    let r = r.and_then(|_| match rt::heap_check() { Some(e) => v("heap", e), None => Ok(()) });
    match r {
        Ok(()) => finish(1),
        Err(e) if e.class == "skip" => finish(3),
        Err(e) => fail_now(&e.class, &e.msg),
    }
}

#[derive(Clone)]
pub struct Outcome {
    pub status: u32,               // 1 held, 2 violation, 3 skip, 9 harness error
    pub v: Option<V>,
    pub stats: Stats, pub probes: [u64; NPROBE], pub nontrivial: bool, pub digest: u64,
    pub sw: Vec<Switch>, pub flt: Vec<FaultRec>,
}

struct Pool { slots: Vec<*mut Slot>, pids: Vec<i32>, started: Vec<Instant>, tag: Vec<u64> }

impl Pool {
    fn new(n: usize) -> Pool {
        let sz = std::mem::size_of::<Slot>();
        let slots = (0..n).map(|_| unsafe {
            let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE,
                               libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            p as *mut Slot
        }).collect();
        Pool { slots, pids: vec![0; n], started: vec![Instant::now(); n], tag: vec![0; n] }
    }
    fn n(&self) -> usize { self.slots.len() }
    fn free(&self) -> Option<usize> { self.pids.iter().position(|&p| p == 0) }
    fn busy(&self) -> usize { self.pids.iter().filter(|&&p| p != 0).count() }
    fn launch(&mut self, k: usize, check: &dyn Check, plan: &Plan, tag: u64) {
        unsafe {
            let s = self.slots[k] as *mut u8;
            // only the used head of the log area needs clearing: lengths are in the head
            let head = std::mem::size_of::<Slot>() - std::mem::size_of::<SimShared>() + std::mem::size_of::<Stats>() + 16;
            std::ptr::write_bytes(s, 0, head);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                SLOT = self.slots[k];
                PROBES = check.probes();
                child(check, plan, k);
            }
            self.pids[k] = pid;
            self.started[k] = Instant::now();
            self.tag[k] = tag;
        }
    }
    /// wait for one child to end
    fn reap(&mut self, wall: f64) -> (usize, Outcome) {
        loop {
            let mut st = 0;
            let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
            if pid > 0 {
                if let Some(k) = self.pids.iter().position(|&p| p == pid) {
                    self.pids[k] = 0;
                    return (k, self.outcome(k, st));
                }
                continue;
            }
            for k in 0..self.n() {
                if self.pids[k] != 0 && self.started[k].elapsed().as_secs_f64() > wall {
                    unsafe { libc::kill(self.pids[k], libc::SIGKILL); libc::waitpid(self.pids[k], &mut st, 0); }
                    self.pids[k] = 0;
                    let mut o = self.outcome(k, 0);
                    o.status = 2;
                    o.v = Some(V { class: "hang".into(), msg: format!("the run did not end within {} s", wall) });
                    return (k, o);
                }
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    fn outcome(&self, k: usize, st: i32) -> Outcome {
        let s = unsafe { &*self.slots[k] };
        let nsw = (s.sim.nsw.max(0) as usize).min(rt::MAXLOG);
        let nflt = (s.sim.nflt.max(0) as usize).min(rt::MAXFLT);
        let mut o = Outcome { status: s.done, v: None, stats: s.sim.stats, probes: s.probes, nontrivial: s.nontrivial != 0,
                              digest: s.digest, sw: s.sim.sw[..nsw].to_vec(), flt: s.sim.flt[..nflt].to_vec() };
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            o.status = 2;
            if sig == libc::SIGXCPU {
                o.v = Some(V { class: "hang".into(), msg: "the run used up its processor time without finishing".into() });
            } else if sig == libc::SIGKILL {
                o.status = 9;
                o.v = Some(V { class: "killed".into(), msg: "the run was killed from outside".into() });
            } else {
                let name = match sig { libc::SIGSEGV => "SIGSEGV", libc::SIGBUS => "SIGBUS", libc::SIGABRT => "SIGABRT",
                                       libc::SIGILL => "SIGILL", libc::SIGFPE => "SIGFPE", _ => "signal" };
                o.v = Some(V { class: format!("crash-{}", name), msg: format!("the process died of {} ({})", name, get(&s.panic)) });
            }
        } else if s.done == 2 {
            o.v = Some(V { class: get(&s.class), msg: get(&s.msg) });
        } else if s.done == 0 {
            o.status = 9;
            o.v = Some(V { class: "harness".into(), msg: format!("exit {} {} {}", libc::WEXITSTATUS(st), get(&s.msg), get(&s.panic)) });
        }
        o
    }
}

fn run_one(pool: &mut Pool, check: &dyn Check, plan: &Plan) -> Outcome {
    pool.launch(0, check, plan, 0);
    pool.reap(300.0).1
}

/// Try several plans at once; the lowest-numbered one that fails with `class` wins.
fn first_failing(pool: &mut Pool, check: &dyn Check, plans: &[Plan], class: &str) -> Option<(usize, Outcome)> {
    let mut best: Option<(usize, Outcome)> = None;
    let mut next = 0;
    loop {
        while next < plans.len() && best.is_none() {
            if let Some(k) = pool.free() { pool.launch(k, check, &plans[next], next as u64); next += 1; } else { break; }
        }
        if pool.busy() == 0 { return best; }
        let (k, o) = pool.reap(60.0);
        let i = pool.tag[k] as usize;
        if o.v.as_ref().map_or(false, |x| x.class == class) && best.as_ref().map_or(true, |b| i < b.0) { best = Some((i, o)); }
    }
}

// ---- minimisation -----------------------------------------------------------------------------

fn walk<'a>(j: &'a J, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'a J)>) {
    out.push((path.clone(), j));
    match j {
        J::Obj(m) => for (k, x) in m { path.push(k.clone()); walk(x, path, out); path.pop(); },
        J::Arr(a) => for (i, x) in a.iter().enumerate() { path.push(i.to_string()); walk(x, path, out); path.pop(); },
        _ => {}
    }
}
fn at<'a>(j: &'a mut J, path: &[String]) -> &'a mut J {
    let mut cur = j;
    for p in path {
        cur = match cur {
            J::Obj(m) => m.get_mut(p).unwrap(),
            J::Arr(a) => &mut a[p.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    cur
}
fn smaller(check: &dyn Check, case: &J) -> Vec<J> {
    let mut nodes = Vec::new();
    walk(case, &mut Vec::new(), &mut nodes);
    let keep = check.keep();
    let mut out = Vec::new();
    // array chunks first, biggest first
    for (path, x) in &nodes {
        if path.iter().any(|p| keep.contains(&p.as_str())) { continue; }
        if let J::Arr(a) = x {
            let mut sz = a.len();
            while sz >= 1 {
                let mut s = 0;
                while s < a.len() && a.len() > 0 {
                    let e = (s + sz).min(a.len());
                    let mut c = case.clone();
                    at(&mut c, path).arr_mut().unwrap().drain(s..e);
                    out.push((3, usize::MAX - (e - s), c));
                    s = e;
                }
                if sz == 1 { break; }
                sz /= 2;
            }
        }
    }
    for (path, x) in &nodes {
        let key = path.iter().rev().find(|p| p.parse::<usize>().is_err()).cloned().unwrap_or_default();
        if path.iter().any(|p| keep.contains(&p.as_str())) || key.contains("seed") { continue; }
        let mut push = |v: J| { let mut c = case.clone(); *at(&mut c, path) = v; out.push((4, 0, c)); };
        match x {
            J::Int(i) if *i > 1 => { push(J::Int(1)); push(J::Int(0)); push(J::Int(i / 2)); push(J::Int(i - 1)); }
            J::Int(1) => push(J::Int(0)),
            J::Num(f) if *f != 0.0 && key.starts_with("p_") => push(J::Num(0.0)),
            J::Bool(true) => push(J::Bool(false)),
            _ => {}
        }
    }
    out.sort_by_key(|x| (x.0, x.1));
    out.into_iter().map(|x| x.2).filter(|c| check.valid(c)).collect()
}

fn minimise(pool: &mut Pool, check: &dyn Check, plan: Plan, o: Outcome, cap: f64) -> (Plan, Outcome, J) {
    let t0 = Instant::now();
    let class = o.v.as_ref().unwrap().class.clone();
    let mut best = (plan.clone(), o.clone());
    let size0 = plan.case.dump().len();
    let (sw0, fl0) = (o.sw.len(), o.flt.len());
    let mut tries = 0usize;
    // 1. the workload, under the live scheduler
    'outer: while t0.elapsed().as_secs_f64() < cap * 0.6 {
        let cands = smaller(check, &best.0.case);
        for group in cands.chunks(pool.n()) {
            if t0.elapsed().as_secs_f64() > cap * 0.6 { break 'outer; }
            let plans: Vec<Plan> = group.iter().map(|c| Plan { seed: best.0.seed, case: c.clone(), log: None }).collect();
            tries += plans.len();
            if let Some((i, o)) = first_failing(pool, check, &plans, &class) {
                best = (plans[i].clone(), o);
                continue 'outer;
            }
        }
        break;
    }
    // 2. the schedule and the faults, played back from the log
    let mut sw = best.1.sw.clone();
    let mut fl = best.1.flt.clone();
    let mk = |p: &Plan, s: &[Switch], f: &[FaultRec]| Plan { seed: p.seed, case: p.case.clone(), log: Some((s.to_vec(), f.to_vec())) };
    let full = mk(&best.0, &sw, &fl);
    if let Some((_, o)) = first_failing(pool, check, &[full.clone()], &class) {
        best = (full, o);
        for which in 0..2 {
            let mut chunk = if which == 0 { sw.len() } else { fl.len() };
            while chunk >= 1 && t0.elapsed().as_secs_f64() < cap {
                let len = if which == 0 { sw.len() } else { fl.len() };
                let mut removed = false;
                let mut cands = Vec::new();
                let mut s = 0;
                while s < len {
                    let e = (s + chunk).min(len);
                    let (mut a, mut b) = (sw.clone(), fl.clone());
                    if which == 0 { a.drain(s..e); } else { b.drain(s..e); }
                    cands.push((a, b));
                    s = e;
                }
                for g in cands.chunks(pool.n()) {
                    if t0.elapsed().as_secs_f64() > cap { break; }
                    let plans: Vec<Plan> = g.iter().map(|(a, b)| mk(&best.0, a, b)).collect();
                    tries += plans.len();
                    if let Some((i, o)) = first_failing(pool, check, &plans, &class) {
                        sw = g[i].0.clone();
                        fl = g[i].1.clone();
                        best = (plans[i].clone(), o);
                        removed = true;
                        break;
                    }
                }
                if !removed { if chunk == 1 { break; } chunk = (chunk / 2).max(1); }
                else { chunk = chunk.min(if which == 0 { sw.len() } else { fl.len() }); if chunk == 0 { break; } }
            }
        }
    } else {
        best.0.log = None;
    }
    let info = obj! { "tries" => tries, "seconds" => t0.elapsed().as_secs_f64(),
        "case_bytes_before" => size0, "case_bytes_after" => best.0.case.dump().len(),
        "switches_before" => sw0, "switches_after" => best.0.log.as_ref().map_or(best.1.sw.len(), |l| l.0.len()),
        "faults_before" => fl0, "faults_after" => best.0.log.as_ref().map_or(best.1.flt.len(), |l| l.1.len()) };
    (best.0, best.1, info)
}

// ---- replay files -----------------------------------------------------------------------------

fn replay_json(check: &dyn Check, plan: &Plan, vv: &V, info: J) -> J {
    let mut j = obj! { "property" => check.id(), "seed" => plan.seed, "case" => plan.case.clone(),
        "violation" => obj! { "class" => &vv.class, "message" => &vv.msg },
        "minimised" => info,
        "replay_with" => "bash /verif/replay.sh <this file>" };
    if let Some((s, f)) = &plan.log {
        j.set("schedule", J::Arr(s.iter().map(|x| J::Arr(vec![J::Int(x.step as i64), J::Int(x.to)])).collect()));
        j.set("faults", J::Arr(f.iter().map(|x| J::Arr(vec![J::Str(FAULT_NAMES[x.kind as usize].into()), J::Int(x.idx as i64), J::Int(x.arg as i64)])).collect()));
    }
    j
}
pub fn plan_of(j: &J) -> Plan {
    let log = if j.has("schedule") {
        Some((j.a("schedule").iter().map(|x| Switch { step: x.arr()[0].int() as u64, to: x.arr()[1].int() }).collect(),
              j.a("faults").iter().map(|x| FaultRec { kind: FAULT_NAMES.iter().position(|n| *n == x.arr()[0].str()).unwrap() as i64,
                                                     idx: x.arr()[1].int() as u64, arg: x.arr()[2].int() as u64 }).collect()))
    } else { None };
    Plan { seed: j.i("seed") as u64, case: j.get("case").clone(), log }
}

pub fn replay(check: &dyn Check, file: &str) -> i32 {
    let j = J::parse(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let plan = plan_of(&j);
    let mut pool = Pool::new(1);
    let o = run_one(&mut pool, check, &plan);
    match o.v {
        Some(x) if o.status == 2 => {
            println!("{}: {}", x.class, x.msg);
            println!("expected: {}: {}", j.get("violation").s("class"), j.get("violation").s("message"));
            println!("VIOLATION property={} replay={}", check.id(), file);
            1
        }
        Some(x) => { println!("harness error: {} {}", x.class, x.msg); 2 }
        None => { println!("held (status {}, steps {}, switches {})", o.status, o.stats.steps, o.stats.switches); 0 }
    }
}

pub fn one(check: &dyn Check, seed: u64, i: u64, tier: Tier) -> i32 {
    let plan = make_plan(check, seed, i, tier);
    let mut pool = Pool::new(1);
    let t = Instant::now();
    let o = run_one(&mut pool, check, &plan);
    println!("case {}", plan.case.dump());
    println!("status {} v {:?} {:.3}s digest {:x} nontrivial {}\n{:?}", o.status, o.v, t.elapsed().as_secs_f64(), o.digest, o.nontrivial, o.stats);
    for (n, c) in check.probes().iter().zip(o.probes.iter()) { println!("  {:30} {}", n, c); }
    if o.status == 2 { 1 } else { 0 }
}

fn make_plan(check: &dyn Check, seed: u64, i: u64, tier: Tier) -> Plan {
    let s = mix(mix(seed ^ 0xb175) ^ mix(i + 1) ^ mix(check.id().bytes().fold(7, |a, b| mix(a ^ b as u64))));
    let mut rng = Rng::new(s);
    Plan { seed: s, case: check.gen(&mut rng, i, tier), log: None }
}

struct Known { prop: String, class: String, contains: String, what: String }
fn known(dir: &str) -> Vec<Known> {
    let mut out = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", dir)) {
        for l in t.lines() {
            // known: property=<id> class=<class> contains="<text>" <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(2, " class=");
                let prop = it.next().unwrap_or("").to_string();
                let mut it = it.next().unwrap_or("").splitn(2, " contains=\"");
                let class = it.next().unwrap_or("").to_string();
                let mut it = it.next().unwrap_or("").splitn(2, "\" ");
                let contains = it.next().unwrap_or("").to_string();
                out.push(Known { prop, class, contains, what: it.next().unwrap_or("").to_string() });
            }
        }
    }
    out
}

pub fn search(check: &dyn Check, tier: Tier, seed: u64, verif: &str, runs_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let (mut runs, wall) = check.budget(tier);
    if let Some(r) = runs_override { runs = r; }
    let ncpu = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize;
    let mut pool = Pool::new(ncpu.min(8));
    let known = known(verif);

    let mut launched = 0u64;
    let mut dup: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    let mut bad: Option<(u64, Outcome)> = None;
    let mut hit_known: BTreeSet<usize> = BTreeSet::new();
    let (mut held, mut skipped, mut done) = (0u64, 0u64, 0u64);
    let mut fired = [0u64; NFAULT];
    let mut opps = [0u64; NFAULT];
    let mut probes = [0u64; NPROBE];
    let mut traces: HashSet<u64> = HashSet::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<J> = Vec::new();
    let mut sim_ns = 0i64;
    let mut tot = Stats::default();
    let mut runs_with_fault = 0u64;
    let mut max_threads = 0u64;
    let (mut rerun, mut rerun_diff) = (0u64, 0u64);
    let mut rerun_bad: Option<u64> = None;
    const RERUN: u64 = 1 << 40;
    let mut queue: Vec<u64> = Vec::new();
    let mut errors = 0;
    // A run that fails once and then, executed again from the same plan, never does was disturbed from
    // outside (a machine out of processes or memory): it is counted, and reported only when it keeps happening.
    let mut once: Vec<(u64, Outcome)> = Vec::new();
    const ONCE: usize = 3;
    let mut strays = 0;

    loop {
        while bad.is_none() && (launched < runs || !queue.is_empty()) && t0.elapsed().as_secs_f64() < wall {
            let k = match pool.free() { Some(k) => k, None => break };
            let tag = if let Some(t) = queue.pop() { t } else { launched += 1; if (launched - 1) % 25 == 3 { queue.push((launched - 1) | RERUN); } launched - 1 };
            let plan = make_plan(check, seed, tag & !RERUN, tier);
            pool.launch(k, check, &plan, tag);
        }
        if pool.busy() == 0 {
            if let Some((i, o)) = bad.take() {
                let again = o.v.as_ref().map_or(false, |v| v.class == "hang") || (0..4).any(|_| { let k = pool.free().unwrap(); pool.launch(k, check, &make_plan(check, seed, i, tier), i); pool.reap(300.0).1.status == 2 });
                if again { bad = Some((i, o)); break; }
                let vv = o.v.clone().unwrap();
                eprintln!("run {} failed once ({}: {}) and not again", i, vv.class, vv.msg);
                once.push((i, o));
                if once.len() >= ONCE { bad = Some(once[0].clone()); break; }
                continue;
            }
            if check.id() == "C01" {
                if let Some(i) = rerun_bad {
                    // the difference has to show again
                    let keys: Vec<(u64, u64)> = (0..6).map(|_| { let k = pool.free().unwrap(); pool.launch(k, check, &make_plan(check, seed, i, tier), i); let o = pool.reap(300.0).1; (o.stats.trace_hash, o.digest) }).collect();
                    if keys.iter().all(|x| x.1 == keys[0].1) { strays += 1; eprintln!("run {} gave another result once and not again", i); if strays < ONCE { rerun_bad = None; continue; } }
                }
            }
            break;
        }
        let (k, o) = pool.reap(300.0);
        let tag = pool.tag[k];
        let i = tag & !RERUN;
        if o.status == 9 {
            errors += 1;
            eprintln!("run {}: harness error: {:?}", i, o.v);
            if errors >= 3 { eprintln!("giving up after {} harness errors", errors); return 2; }
            continue;
        }
        if i % 25 == 3 {
            let key = (o.stats.trace_hash, o.digest);
            match dup.get(&i) {
                None => { dup.insert(i, key); }
                Some(first) => { rerun += 1; if *first != key { rerun_diff += 1; if first.1 != key.1 { rerun_bad = Some(i); }
                    if std::env::var_os("BBSIM_TRACE").is_some() { eprintln!("run {} differs on re-run {:x?} {:x?}", i, first, key); } } }
            }
        }
        if tag & RERUN != 0 && o.status != 2 { continue; }
        done += 1;
        match o.status { 1 => held += 1, 3 => skipped += 1, _ => {} }
        if o.status == 2 {
            let vv = o.v.as_ref().unwrap();
            if let Some(kn) = known.iter().position(|x| x.prop == check.id() && x.class == vv.class && vv.msg.contains(&x.contains)) {
                if hit_known.insert(kn) {}
            } else if bad.as_ref().map_or(true, |b| i < b.0) {
                bad = Some((i, o.clone()));
            }
        }
        for f in 0..NFAULT { fired[f] += o.stats.fault_fired[f]; opps[f] += o.stats.fault_opps[f]; }
        if o.stats.fault_fired.iter().any(|&x| x > 0) { runs_with_fault += 1; }
        for p in 0..NPROBE { probes[p] += o.probes[p]; }
        traces.insert(o.stats.trace_hash);
        if o.nontrivial { distinct.insert(mix(o.stats.trace_hash) ^ mix(o.digest ^ i.wrapping_mul(0))); }
        sim_ns += (o.stats.t1 - o.stats.t0).max(0);
        tot.steps += o.stats.steps; tot.switches += o.stats.switches; tot.preemptions += o.stats.preemptions;
        tot.sync_ops += o.stats.sync_ops; tot.futex_waits += o.stats.futex_waits; tot.yields += o.stats.yields;
        tot.io_calls += o.stats.io_calls; tot.clock_reads += o.stats.clock_reads; tot.entropy_reads += o.stats.entropy_reads;
        tot.allocs += o.stats.allocs; tot.moves += o.stats.moves; tot.threads_started += o.stats.threads_started;
        max_threads = max_threads.max(o.stats.nthreads);
        if samples.len() < 3 && o.nontrivial {
            let plan = make_plan(check, seed, i, tier);
            samples.push(obj! { "run" => i, "seed" => plan.seed, "case" => plan.case, "steps" => o.stats.steps,
                "context_switches" => o.stats.switches, "trace_hash" => format!("{:016x}", o.stats.trace_hash) });
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    for kn in &hit_known { println!("KNOWN-FINDING: property={} {}", check.id(), known[*kn].what); }

    let mut rc = 0;
    let mut violation = J::Null;
    if bad.is_none() && check.id() == "C01" {
        if let Some(i) = rerun_bad {
            // the same run, twice, with different results: something escapes the simulator's choices
            let plan = make_plan(check, seed, i, tier);
            let path = format!("{}/replays/C01-{}.json", verif, i);
            let _ = std::fs::create_dir_all(format!("{}/replays", verif));
            let vv = V { class: "not-repeatable".into(), msg: "one run, executed twice with every source of nondeterminism held fixed, gave two results".into() };
            std::fs::write(&path, replay_json(check, &plan, &vv, J::Null).dump()).unwrap();
            println!("VIOLATION property=C01 replay={}", path);
            rc = 1;
        }
    }
    if let Some((i, o)) = bad {
        let plan = make_plan(check, seed, i, tier);
        let first = o.v.clone().unwrap();
        eprintln!("run {} violates: {}: {}", i, first.class, first.msg);
        let cap = if tier == Tier::Quick { 30.0 } else { 120.0 };
        let (mp, mo, info) = minimise(&mut pool, check, plan.clone(), o, cap);
        let vv = mo.v.clone().unwrap();
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, check.id(), i);
        std::fs::write(&path, replay_json(check, &mp, &vv, info.clone()).dump()).unwrap();
        // a fresh process must fail the same way
        let exe = std::env::current_exe().unwrap();
        let out = std::process::Command::new(exe).args(["replay", &path]).output();
        let confirmed = out.map_or(false, |o| o.status.code() == Some(1));
        if !confirmed {
            // fall back to the unreduced run
            std::fs::write(&path, replay_json(check, &plan, &first, J::Null).dump()).unwrap();
        }
        println!("{}: {}", vv.class, vv.msg);
        println!("case: {}", mp.case.dump());
        if let Some((s, f)) = &mp.log { println!("schedule: {} context switches, {} faults {:?}", s.len(), f.len(), f.iter().take(8).map(|x| FAULT_NAMES[x.kind as usize]).collect::<Vec<_>>()); }
        println!("minimisation: {}; replay in a fresh process {}", info.dump(), if confirmed { "fails the same way" } else { "did not fail: file holds the original run" });
        println!("VIOLATION property={} replay={}", check.id(), path);
        violation = obj! { "class" => vv.class, "message" => vv.msg, "replay" => path, "confirmed" => confirmed };
        rc = 1;
    }

    let mut pj = BTreeMap::new();
    for (n, c) in check.probes().iter().zip(probes.iter()) { pj.insert(n.to_string(), J::Int(*c as i64)); }
    let mut fj = BTreeMap::new();
    for f in 0..NFAULT { if opps[f] > 0 { fj.insert(FAULT_NAMES[f].to_string(), obj! { "opportunities" => opps[f], "fired" => fired[f] }); } }
    let cov = obj! {
        "evaluations" => done, "distinct_nontrivial" => distinct.len(),
        "rule" => check.rule(), "samples" => J::Arr(samples),
        "runs_held" => held, "runs_skipped" => skipped,
        "seed_range" => format!("VERIF_SEED={} runs 0..{}", seed, launched),
        "runs_per_hour" => (done as f64 / search_s * 3600.0).round(),
        "simulated_time_s" => sim_ns as f64 / 1e9,
        "distinct_interleavings" => traces.len(),
        "interleaving_measure" => "distinct hashes of the sequence of (thread chosen, position) decisions and fault decisions of a run",
        "faults" => J::Obj(fj), "runs_with_a_fault" => runs_with_fault,
        "totals" => obj! { "scheduling_points" => tot.steps, "context_switches" => tot.switches, "forced_preemptions" => tot.preemptions,
            "synchronisation_points" => tot.sync_ops, "futex_waits" => tot.futex_waits, "yields" => tot.yields, "io_calls" => tot.io_calls,
            "clock_reads" => tot.clock_reads, "entropy_reads" => tot.entropy_reads, "engine_and_harness_allocations" => tot.allocs,
            "moved_reallocations" => tot.moves, "threads_started" => tot.threads_started, "most_threads_in_a_run" => max_threads },
        "reached" => J::Obj(pj),
        "determinism_reruns" => rerun, "determinism_mismatches" => rerun_diff,
        "real_components" => J::Arr(check.real().into_iter().map(J::from).collect()),
        "simulated_components" => J::Arr(check.stubs().into_iter().map(J::from).collect()),
        "failed_once_and_not_again" => once.len() + strays,
        "violation" => violation,
        "harness_errors" => errors,
    };
    let ev = obj! { "property" => check.id(), "tier" => if tier == Tier::Quick { "quick" } else { "thorough" }, "seed" => seed,
        "level" => "exploration", "coverage" => cov, "wall_s" => t0.elapsed().as_secs_f64(), "violations" => if rc == 1 { 1 } else { 0 },
        "assumptions" => J::Arr(check.assumptions().into_iter().map(J::from).collect()) };
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    std::fs::write(format!("{}/evidence/{}.json", verif, check.id()), ev.dump()).unwrap();
    println!("{} {}: {} runs ({} skipped), {} distinct interleavings, {} faults fired, {:.1} s search, {}",
        check.id(), if rc == 0 { "held" } else { "VIOLATED" }, done, skipped, traces.len(), fired.iter().sum::<u64>(), search_s,
        if rerun_diff > 0 { format!("{} of {} re-runs differed", rerun_diff, rerun) } else { format!("{} re-runs identical", rerun) });
    if done == 0 { eprintln!("no run finished"); return 2; }
    rc
}

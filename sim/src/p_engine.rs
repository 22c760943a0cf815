//! C06 to C09: histories of calls on the C interface, valid and not, with faults, alone and together.
use crate::cli::{self, Job};
use crate::json::J;
use crate::obj;
use crate::rng::{mix, Rng};
use crate::rt::{self, Cfg, F_OOM, F_SO_EINTR, F_SO_ERR, F_SO_SHORT};
use crate::sup::{begin, digest, guard, nontrivial, probe, v, Check, Plan, Res, Tier, V};
use crate::work;
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use bitboost::tree::AdditiveTree;
use libc::{c_char, c_int, c_void};
use std::collections::HashMap;
use std::ffi::CString;
use std::rc::Rc;

// ---- caller's buffers ---------------------------------------------------------------------------

/// f32 values in memory of the caller: right behind them lies an inaccessible page, before them a pattern.
struct Buf { map: *mut u8, len: usize, p: *mut f32, n: usize }
impl Buf {
    fn new(n: usize) -> Buf {
        unsafe {
            let bytes = n * 4;
            let len = (bytes + 64 + 4095) / 4096 * 4096 + 4096;
            let map = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(map as isize != -1);
            std::ptr::write_bytes(map, 0xA7, len);
            libc::mprotect(map.add(len - 4096) as *mut c_void, 4096, libc::PROT_NONE);
            Buf { map, len, p: map.add(len - 4096 - bytes) as *mut f32, n }
        }
    }
    fn from(x: &[f32]) -> Buf { let b = Buf::new(x.len()); unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), b.p, x.len()); } b }
    fn data(&self) -> &[f32] { unsafe { std::slice::from_raw_parts(self.p, self.n) } }
    fn front_ok(&self) -> bool { let mut q = self.map; while (q as usize) < self.p as usize { unsafe { if *q != 0xA7 { return false; } q = q.add(1); } } true }
}
impl Drop for Buf { fn drop(&mut self) { unsafe { libc::munmap(self.map as *mut c_void, self.len); } } }

// ---- histories ----------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct HistOpts { pub nctx: i64, pub extra: (i64, i64), pub invalid: f64, pub faults: f64, pub nmax: i64, pub sane: bool }

fn gen_col(r: &mut Rng) -> J {
    if r.chance(0.5) { obj! { "k" => "cat", "card" => if r.chance(0.15) { r.range(17, 60) } else { r.range(1, 9) }, "dist" => *r.pick(&[0i64, 1, 2, 4, 6]), "fseed" => r.next() & 0xffff } }
    else { obj! { "k" => "num", "card" => r.range(2, 30), "dist" => *r.pick(&[0i64, 1, 2, 4, 5, 6, 8]), "fseed" => r.next() & 0xffff } }
}
fn gen_target(r: &mut Rng, class: bool) -> J { obj! { "k" => if class { "class" } else { "reg" }, "card" => 2, "dist" => 1, "fseed" => r.next() & 0xffff } }

fn op(c: i64, name: &str) -> J { obj! { "op" => name, "c" => c } }

/// One context's life, as a list of calls.
fn life(r: &mut Rng, c: i64, o: &HistOpts) -> Vec<J> {
    let mut ops = Vec::new();
    // now and then a life unlike the others: many columns, many examples, or one call very often
    let odd = r.below(40);
    let nf = if odd == 0 { r.range(5, 140) } else { r.range(1, 4) };
    let nmax = match odd { 0 => o.nmax.min(60), 1 => o.nmax * 10, _ => o.nmax };
    let mut a = op(c, "alloc"); a.set("nf", nf); ops.push(a);
    let objective = *r.pick(&work::OBJS);
    let class = matches!(objective, "binary" | "hinge");
    let mut conf = work::gen_conf(r, &work::ConfOpts { iters: (1, 4), depth: (1, 4), sampling: 0.4 }, objective);
    conf.del("example_fraction"); // bag sizes are C15's; the number of examples varies here
    if r.chance(0.3) { conf.set("example_fraction", J::Num(*r.pick(&[0.7, 0.9]))); }
    if r.chance(0.3) { conf.set("metrics", *r.pick(&["l2", "rmse,l2", "binary_error"])); }
    let mut keys: Vec<(String, String)> = work::conf_pairs(&conf);
    for i in (1..keys.len()).rev() { let j = r.below(i + 1); keys.swap(i, j); }
    let mut confs: Vec<J> = keys.into_iter().map(|(k, x)| { let mut q = op(c, "conf"); q.set("k", k); q.set("v", x); q }).collect();
    if r.chance(0.3) { let i = r.below(confs.len()); let mut q = confs[i].clone(); // set twice: the last one counts
        match q.s("k").to_string().as_str() { "random_seed" => q.set("v", "77"), "max_tree_depth" => q.set("v", "2"), "max_nbins" => q.set("v", "5"), "min_examples_leaf" => q.set("v", "4"), "reg_lambda" => q.set("v", "0.5"), _ => {} }
        confs.push(q); }
    ops.extend(confs);
    let rounds = r.range(1, 3);
    let mut before = 0;
    for _ in 0..rounds {
        let n = if before > 0 && r.chance(0.25) { before } else if odd == 1 { r.range(nmax / 4, nmax) } else { r.logrange(if class { 3 } else { 2 }, nmax) };
        before = n;
        if ops.last().map_or(true, |x| x.s("op") != "refresh") { let mut q = op(c, "refresh"); q.set("n", n); ops.push(q); }
        let mut order: Vec<i64> = (0..=nf).collect();
        for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
        let unset = if r.chance(0.05) { 0.5 } else if o.sane { 0.03 } else { 0.07 };
        for f in order {
            if f < nf && r.chance(unset) { continue; } // a column that is not set is all zeroes
            let mut q = op(c, "set"); q.set("f", f);
            let odd = !o.sane && r.chance(0.03);
            q.set("col", if f == nf { gen_target(r, class != odd) } else { gen_col(r) });
            if !o.sane && r.chance(if f == nf { 0.05 } else { 0.02 }) { q.set("wild", r.range(1, 6)); }
            ops.push(q);
            if f < nf && r.chance(0.12) { let mut q = op(c, "set"); q.set("f", f); q.set("col", gen_col(r)); ops.push(q); }
        }
        let mut trained = false;
        for _ in 0..r.range(1, 4) {
            match r.range(0, 5) {
                0 | 1 => { ops.push(op(c, "train")); trained = true; }
                2 => { let f = r.range(0, nf - 1); let mut q = op(c, "set"); q.set("f", f); q.set("col", gen_col(r)); if r.chance(0.5) { q.set("again", r.range(1, 7)); } ops.push(q); }
                _ => ops.push(op(c, "predict")),
            }
        }
        if !trained { ops.push(op(c, "train")); }
        ops.push(op(c, "predict"));
        if r.chance(0.2) { // nothing but the order of some values changes
            if trained { ops.push(op(c, "train")); }
            for _ in 0..r.range(1, 2) { let f = r.range(0, nf); let mut q = op(c, "set"); q.set("f", f); q.set("col", obj! { "k" => "num", "card" => 2, "dist" => 0, "fseed" => r.next() & 0xffffff }); q.set("again", r.range(1, 7)); ops.push(q); }
            ops.push(op(c, "train"));
            ops.push(op(c, "predict"));
        }
        if odd == 2 && n <= 60 {
            let (name, times) = if r.chance(0.6) { ("predict", r.range(200, 300)) } else { ("train", r.range(10, 30)) };
            for _ in 0..times { ops.push(op(c, name)); }
            ops.push(op(c, "predict"));
        }
    }
    if r.chance(0.7) { ops.push(op(c, "dealloc")); }
    ops
}

pub fn gen_hist(r: &mut Rng, o: &HistOpts) -> J {
    // the contexts' lives, interleaved
    let nctx = if r.chance(0.02) { r.range(4, 12) } else { r.range(1, o.nctx) };
    let mut lives: Vec<Vec<J>> = (0..nctx).map(|c| { let mut l = life(r, c, o); if r.chance(0.25) { l.push(op(c, "dealloc")); l.extend(life(r, c, o)); } l.reverse(); l }).collect();
    let mut ops = Vec::new();
    let mut cur = 0;
    while lives.iter().any(|l| !l.is_empty()) {
        if r.chance(0.3) || lives[cur].is_empty() { cur = r.below(lives.len()); }
        if let Some(x) = lives[cur].pop() { ops.push(x); }
    }
    for _ in 0..r.range(o.extra.0, o.extra.1) {
        if !r.chance(o.invalid) { continue; }
        let c = r.range(0, nctx - 1);
        let q = match r.range(0, 11) {
            0 => { let mut q = op(c, "badconf"); q.set("kind", r.range(0, 7)); q }
            1 => { let mut q = op(c, "badconf"); q.set("kind", r.range(0, 7)); q }
            2 => { let mut q = op(c, "refresh"); q.set("n", *r.pick(&[0i64, -1, -2147483648])); q }
            3 | 4 | 5 => { let mut q = op(c, "set"); q.set("f", r.range(0, 4)); q.set("col", gen_col(r)); q.set("bad", r.range(1, 12)); q }
            6 => { let mut q = op(c, "conf"); let kv = *r.pick(&[("objective", "nothing"), ("metrics", "nothing"), ("max_nbins", "3"), ("learning_rate", "0.25"), ("random_seed", "9"), ("max_tree_depth", "3")]); q.set("k", kv.0); q.set("v", kv.1); q }
            7 => { let mut q = op(c, "predict"); q.set("bad", 1); q }
            8 => { let mut q = op(c, "alloc"); q.set("nf", *r.pick(&[0i64, -1, -2147483648])); q }
            9 => op(c, "train"),
            10 => op(c, "dealloc"),
            _ => op(c, "predict"),
        };
        let at = r.below(ops.len() + 1);
        ops.insert(at, q);
    }
    if o.faults > 0.0 {
        for q in ops.iter_mut() {
            if !r.chance(o.faults) { continue; }
            if r.chance(0.5) { q.set("so", r.range(1, 6)); q.set("so_n", *r.pick(&[1i64, 1, 2, 100])); }
            else { q.set("oom", r.range(1, if q.s("op") == "train" { 9 } else { 1 })); q.set("oom_n", *r.pick(&[1i64, 1, 2])); }
            q.set("errno", r.range(0, 3));
        }
    }
    J::Arr(ops)
}

// ---- the interpreter with its reference model -----------------------------------------------------

type Table = (usize, Vec<Option<(Vec<f32>, bool)>>);
struct Slot { ptr: *mut c_void, nf: usize, conf: Vec<(String, String)>, data: Option<Table>, model: Option<Rc<AdditiveTree>>, trained_on: Option<(Vec<(String, String)>, Table)> }

/// what one call gave
#[derive(Clone, PartialEq, Debug)]
pub struct Seen { rc: i64, out: Option<Vec<u32>> }

#[derive(Default)]
pub struct Twins { models: HashMap<u64, Option<Rc<AdditiveTree>>> }

fn config(conf: &[(String, String)]) -> Config {
    let mut c = Config::new();
    for (k, x) in conf { c.parse_record(k, x).expect("harness configuration"); }
    c
}
fn dataset(cfg: &Config, t: &Table) -> Data {
    let mut d = Data::empty(cfg, t.1.len() - 1, t.0);
    for (f, c) in t.1.iter().enumerate() { if let Some((x, cat)) = c { d.set_feature_data(f, x, *cat).expect("harness data"); } }
    d
}
fn key(conf: &[(String, String)], t: &Table) -> u64 {
    let mut last: std::collections::BTreeMap<&str, &str> = Default::default();
    for (k, x) in conf { last.insert(k, x); }
    let mut h = 7u64;
    for (k, x) in last { for b in k.bytes().chain(x.bytes()) { h = mix(h ^ b as u64); } h = mix(h ^ 0xff00); }
    for c in &t.1 { match c { None => h = mix(h ^ 0xabc), Some((x, cat)) => h = mix(work::hash_f32s(h, x) ^ *cat as u64) } }
    mix(h ^ t.0 as u64)
}
impl Twins {
    /// the same configuration and values, with no history at all; None when training them fails
    fn train(&mut self, conf: &[(String, String)], t: &Table) -> Option<Rc<AdditiveTree>> {
        let k = key(conf, t);
        if let Some(m) = self.models.get(&k) { return m.clone(); }
        let m = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let cfg = config(conf);
            let d = dataset(&cfg, t);
            let mut o = objective_from_name(&cfg.objective).expect("objective");
            let ms = metrics_from_names(&cfg.metrics).expect("metric");
            Rc::new(Booster::new(&cfg, &d, o.as_mut(), &ms).train())
        })).ok();
        self.models.insert(k, m.clone());
        m
    }
}
/// The reference in processes that have never done anything else: whatever the engine keeps in its own
/// process cannot have got there. The answer is the same as that of `Twins`, or the engine remembers.
pub struct Pristine { rq: c_int, rs: c_int, known: std::cell::RefCell<HashMap<(u64, u64), (bool, Option<Vec<u32>>)>> }
unsafe fn put_all(fd: c_int, b: &[u8]) -> bool { let mut at = 0; while at < b.len() { let r = libc::write(fd, b.as_ptr().add(at) as *const c_void, b.len() - at); if r <= 0 { return false; } at += r as usize; } true }
unsafe fn get_all(fd: c_int, b: &mut [u8]) -> bool { let mut at = 0; while at < b.len() { let r = libc::read(fd, b.as_mut_ptr().add(at) as *mut c_void, b.len() - at); if r <= 0 { return false; } at += r as usize; } true }
struct Words<'a>(&'a [u32]);
impl<'a> Words<'a> {
    fn one(&mut self) -> u32 { let x = self.0[0]; self.0 = &self.0[1..]; x }
    fn text(&mut self) -> String { let n = self.one() as usize; let (a, b) = self.0.split_at(n); self.0 = b; a.iter().map(|&c| std::char::from_u32(c).unwrap()).collect() }
    fn table(&mut self) -> Table {
        let (n, nc) = (self.one() as usize, self.one());
        (n, (0..nc).map(|_| match self.one() { 0 => None, k => { let (a, b) = self.0.split_at(n); self.0 = b; Some((a.iter().map(|&x| f32::from_bits(x)).collect(), k == 2)) } }).collect())
    }
}
fn put_table(w: &mut Vec<u32>, t: &Table) {
    w.push(t.0 as u32); w.push(t.1.len() as u32);
    for c in &t.1 { match c { None => w.push(0), Some((x, cat)) => { w.push(1 + *cat as u32); w.extend(x.iter().map(|f| f.to_bits())); } } }
}
impl Pristine {
    /// must be called before the run does anything
    pub fn start() -> Pristine {
        unsafe {
            let (mut a, mut b) = ([0; 2], [0; 2]);
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 { libc::close(a[1]); libc::close(b[0]); Pristine::serve(a[0], b[1]); }
            libc::close(a[0]); libc::close(b[1]);
            Pristine { rq: a[1], rs: b[0], known: Default::default() }
        }
    }
    unsafe fn serve(rq: c_int, rs: c_int) -> ! {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
        crate::sup::private_slot();
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 { libc::dup2(fd, 1); libc::close(fd); }
        std::env::set_var("RAYON_NUM_THREADS", "1");
        loop {
            let mut n = [0u8; 4];
            if !get_all(rq, &mut n) { libc::_exit(0); }
            let mut b = vec![0u8; 4 * u32::from_le_bytes(n) as usize];
            if !get_all(rq, &mut b) { libc::_exit(0); }
            // no answer may come of a machine short of processes: asked again before that counts
            let answered = (0..3).any(|_| {
                let pid = libc::fork();
                if pid == 0 { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::alarm(60); Pristine::answer(&b, rs); }
                let mut st = 0;
                if pid > 0 { libc::waitpid(pid, &mut st, 0); } else { libc::usleep(100_000); }
                pid > 0 && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0
            });
            if !answered { put_all(rs, &[0u8; 8]); }
        }
    }
    unsafe fn answer(b: &[u8], rs: c_int) -> ! {
        let words: Vec<u32> = b.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
        let mut w = Words(&words);
        let conf: Vec<(String, String)> = (0..w.one()).map(|_| { let k = w.text(); (k, w.text()) }).collect();
        let t = w.table();
        let other = if w.one() == 1 { Some(w.table()) } else { None };
        let model = Twins::default().train(&conf, &t);
        let pred = match (&model, &other) {
            (Some(m), Some(o)) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let cfg = config(&conf); bits(&m.predict(&dataset(&cfg, o))) })).ok(),
            _ => None,
        };
        let mut out: Vec<u32> = vec![model.is_some() as u32, pred.as_ref().map_or(0, |p| p.len() as u32)];
        if let Some(p) = pred { out.extend(p); }
        let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
        put_all(rs, &bytes);
        libc::_exit(0)
    }
    /// does training succeed, and what does the model say about the other table
    pub fn ask(&self, conf: &[(String, String)], t: &Table, other: Option<&Table>) -> (bool, Option<Vec<u32>>) {
        let k = (key(conf, t), other.map_or(0, |o| key(&[], o) | 1));
        if let Some(x) = self.known.borrow().get(&k) { return x.clone(); }
        let x = self.ask_anew(conf, t, other);
        self.known.borrow_mut().insert(k, x.clone());
        x
    }
    fn ask_anew(&self, conf: &[(String, String)], t: &Table, other: Option<&Table>) -> (bool, Option<Vec<u32>>) {
        let mut w: Vec<u32> = vec![0, conf.len() as u32];
        for (k, x) in conf { for s in [k, x] { w.push(s.chars().count() as u32); w.extend(s.chars().map(|c| c as u32)); } }
        put_table(&mut w, t);
        w.push(other.is_some() as u32);
        if let Some(o) = other { put_table(&mut w, o); }
        w[0] = w.len() as u32 - 1;
        let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
        unsafe {
            let mut head = [0u8; 8];
            assert!(put_all(self.rq, &bytes) && get_all(self.rs, &mut head), "the pristine process is gone");
            let n = u32::from_le_bytes([head[4], head[5], head[6], head[7]]) as usize;
            let mut body = vec![0u8; 4 * n];
            assert!(get_all(self.rs, &mut body), "the pristine process is gone");
            (head[0] == 1, if n > 0 { Some(body.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect()) } else { None })
        }
    }
}
fn bits(x: &[f32]) -> Vec<u32> { x.iter().map(|f| if f.is_nan() { 0x7fc00000 } else { f.to_bits() }).collect() }

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Model, Record }

pub struct Machine { slots: Vec<Slot>, twins: Twins, pristine: Option<Pristine>, pub seen: Vec<Seen>, mode: Mode, calls: u64, pub last: Option<(Vec<(String, String)>, Table, Vec<u32>)> }

static mut OOM_CTX_PENDING: bool = false;
/// Giving up on a failed allocation of the context itself the way the standard library does is not judged.
extern "C" fn on_abort(_s: c_int) {
    unsafe {
        if OOM_CTX_PENDING { libc::_exit(rt_finish_held()); }
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
        libc::raise(libc::SIGABRT);
    }
}
fn rt_finish_held() -> c_int { crate::sup::mark_held(); 0 }

impl Machine {
    pub fn new(mode: Mode) -> Machine {
        let slots = (0..12).map(|_| Slot { ptr: std::ptr::null_mut(), nf: 0, conf: vec![], data: None, model: None, trained_on: None }).collect();
        Machine { slots, twins: Twins::default(), pristine: None, seen: vec![], mode, calls: 0, last: None }
    }

    /// Run one call; the model says what may happen.
    pub fn step(&mut self, k: usize, q: &J) -> Res {
        let c = q.us("c") % self.slots.len();
        let name = q.s("op");
        let w = |m: String| format!("call {} ({} on context {}): {}", k, name, c, m);
        self.calls += 1;
        // alloc replaces nothing: a context in use is left alone
        if name == "alloc" && !self.slots[c].ptr.is_null() && q.i("nf") > 0 { return Ok(()); }

        // faults of this call
        let before = rt::stats().fault_fired;
        if q.i("so") > 0 { rt::arm(F_SO_ERR, q.i("so") as u64 - 1, q.i("so_n").max(1) as u64, (q.i("errno") as u64) << 1); }
        if q.i("oom") > 0 { rt::arm(F_OOM, q.i("oom") as u64 - 1, q.i("oom_n").max(1) as u64, 2); }
        let table = self.slots[c].data.as_ref().map(|d| (d.0, d.1.len()));
        let p = self.slots[c].ptr;
        let mut done: Option<Box<dyn FnOnce(&mut Slot)>> = None;  // effect on the model when the call succeeds
        let mut want_ok = false;                                    // without faults
        let mut out: Option<Buf> = None;
        let mut want: Option<Vec<u32>> = None;
        let rc: i64;
        match name {
            "alloc" => {
                let nf = q.i("nf");
                want_ok = nf > 0;
                rt::oom_ctx(true);
                unsafe { OOM_CTX_PENDING = q.i("oom") > 0; }
                let np = rt::engine(|| bb_alloc(nf as c_int));
                unsafe { OOM_CTX_PENDING = false; }
                rt::oom_ctx(false);
                rc = if np.is_null() { -1 } else { 0 };
                if !np.is_null() {
                    done = Some(Box::new(move |s: &mut Slot| *s = Slot { ptr: np, nf: nf as usize, conf: vec![], data: None, model: None, trained_on: None }));
                }
            }
            "dealloc" => {
                want_ok = !p.is_null();
                rc = rt::engine(|| bb_dealloc(p)) as i64;
                done = Some(Box::new(|s: &mut Slot| *s = Slot { ptr: std::ptr::null_mut(), nf: 0, conf: vec![], data: None, model: None, trained_on: None }));
            }
            "refresh" => {
                let n = q.i("n");
                want_ok = !p.is_null() && n > 0;
                rc = rt::engine(|| bb_refresh_data(p, n as c_int)) as i64;
                done = Some(Box::new(move |s: &mut Slot| s.data = Some((n as usize, vec![None; s.nf + 1]))));
            }
            "set" => {
                let (n, nc) = table.unwrap_or((5, 2));
                let bad = q.i("bad");
                let f: i64 = match bad { 1 => -1, 2 => nc as i64, 3 => nc as i64 + 6, 4 => i32::MIN as i64, _ => q.i("f").min(nc as i64 - 1) };
                let (mut x, mut cat) = match q.get("col").s("k") {
                    "class" => { let mut x = work::column(&obj! { "k" => "cat", "card" => 2, "dist" => 0, "fseed" => q.get("col").i("fseed") }, n, 0).values; if n >= 2 { x[0] = 0.0; x[n - 1] = 1.0; } (x, false) }
                    "reg" => { let x = work::column(&obj! { "k" => "num", "card" => 9, "dist" => q.get("col").i("dist"), "fseed" => q.get("col").i("fseed") }, n, 0).values; (x, false) }
                    _ => { let col = work::column(q.get("col"), n, 0); (col.values, col.cat) }
                };
                if (5..=7).contains(&bad) || bad >= 9 { cat = true; let at = (mix(q.get("col").i("fseed") as u64) as usize) % n; for y in x.iter_mut() { *y = y.abs().floor().min(40.0); } x[at] = match bad { 5 => 1.5, 6 => -1.0, 7 => f32::NAN, 10 => f32::INFINITY, 11 => 4294967296.0, 12 => 1e10, _ => -0.5 }; }
                if q.i("wild") > 0 {
                    let at = (mix(q.get("col").i("fseed") as u64 ^ 5) as usize) % n;
                    let y = match q.i("wild") { 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, 3 => f32::NAN, 4 => f32::MAX, 5 => 1e30, _ => -f32::MAX };
                    if cat { x[at] = 0.0; } else { x[at] = y; if q.get("col").i("fseed") & 1 == 1 { for z in x.iter_mut() { *z = y; } } }
                }
                // the column's own values again, in another order or as another type
                if q.i("again") > 0 && bad == 0 {
                    if let Some(Some((y, was))) = self.slots[c].data.as_ref().and_then(|d| d.1.get(f as usize)) {
                        x = y.clone();
                        cat = *was;
                        let z = mix(q.get("col").i("fseed") as u64) as usize;
                        match q.i("again") {
                            1 => x.reverse(),
                            2 if n > 3 => x[1..n - 1].reverse(),
                            3 if n > 3 => x[1..n - 1].rotate_left(1 + z % (n - 3)),
                            4 if n > 3 => x[1..n - 1].sort_by(|a, b| a.total_cmp(b)),
                            5 if n > 3 => { let i = 1 + z % (n - 2); let j = 1 + (z >> 20) % (n - 2); x.swap(i, j); }
                            6 => cat = false,
                            _ => {}
                        }
                        probe("columns_set_again", 1);
                    }
                }
                let valid = bad == 0;
                want_ok = !p.is_null() && table.is_some() && valid;
                let b = Buf::from(&x);
                let ptr = if bad == 8 { std::ptr::null() } else { b.p as *const f32 };
                rc = rt::engine(|| bb_set_feature_data(p, f as c_int, ptr, cat as c_int)) as i64;
                if bits(b.data()) != bits(&x) || !b.front_ok() { return v("caller-memory", w("the caller's column was written to".into())); }
                done = Some(Box::new(move |s: &mut Slot| if let Some(d) = &mut s.data { d.1[f as usize] = Some((x, cat)); }));
            }
            "conf" | "badconf" => {
                let kind = if name == "badconf" { q.i("kind") } else { -1 };
                let (kb, vb): (Vec<u8>, Vec<u8>) = match kind {
                    -1 => (q.s("k").into(), q.s("v").into()),
                    0 => ("no_such_field".into(), "1".into()), 1 => ("niterations".into(), "x".into()), 2 => (b"niter\xff".to_vec(), "3".into()), 3 => ("learning_rate".into(), b"0.\xfe".to_vec()),
                    4 => ("max_nbins".into(), "-3".into()), 5 => ("".into(), "1".into()), 6 => ("metrics".into(), "l2".into()), _ => ("niterations".into(), "2".into()),
                };
                let (ks, vs) = (CString::new(kb.clone()).unwrap(), CString::new(vb.clone()).unwrap());
                let kp: *const c_char = if kind == 6 { std::ptr::null() } else { ks.as_ptr() };
                let vp: *const c_char = if kind == 7 { std::ptr::null() } else { vs.as_ptr() };
                let text = match (std::str::from_utf8(&kb), std::str::from_utf8(&vb)) { (Ok(a), Ok(b)) if kind < 6 => Some((a.to_string(), b.to_string())), _ => None };
                let parses = text.as_ref().map_or(false, |(a, b)| Config::new().parse_record(a, b).is_ok());
                want_ok = !p.is_null() && table.is_none() && parses;
                rc = rt::engine(|| bb_set_config_field(p, kp, vp)) as i64;
                done = Some(Box::new(move |s: &mut Slot| if let Some(t) = text { s.conf.push(t); }));
            }
            "train" => {
                let mut fine = false;
                let twin = match (&self.slots[c].data, self.mode) {
                    (Some(t), Mode::Model) if self.pristine.is_some() => {
                        let (conf, t, o) = (&self.slots[c].conf, t, self.pristine.as_ref().unwrap());
                        fine = rt::harness(|| o.ask(conf, t, None).0);
                        probe("pristine_answers", 1);
                        None
                    }
                    (Some(t), Mode::Model) => { let (conf, t) = (self.slots[c].conf.clone(), t.clone()); let tw = &mut self.twins; rt::harness(|| tw.train(&conf, &t)) }
                    _ => None,
                };
                want_ok = !p.is_null() && table.is_some() && (fine || twin.is_some());
                rc = rt::engine(|| bb_train(p)) as i64;
                done = Some(Box::new(move |s: &mut Slot| { s.model = twin; s.trained_on = s.data.clone().map(|d| (s.conf.clone(), d)); }));
            }
            _ => {
                let n = table.map_or(5, |t| t.0);
                let b = Buf::new(n);
                if let (Mode::Model, Some(t), Some(m)) = (self.mode, &self.slots[c].data, &self.slots[c].model) {
                    // a model that does not fit the values any more (a category test on fractions) cannot predict
                    let conf = &self.slots[c].conf;
                    want = rt::harness(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let cfg = config(conf); bits(&m.predict(&dataset(&cfg, t))) })).ok());
                }
                if let (Mode::Model, Some(t), Some((cc, tt)), Some(o)) = (self.mode, &self.slots[c].data, &self.slots[c].trained_on, &self.pristine) {
                    want = rt::harness(|| o.ask(cc, tt, Some(t)).1);
                    probe("pristine_answers", 1);
                }
                want_ok = !p.is_null() && table.is_some() && want.is_some() && q.i("bad") == 0;
                let ptr = if q.i("bad") != 0 { std::ptr::null_mut() } else { b.p };
                rc = rt::engine(|| bb_predict(p, ptr)) as i64;
                if !b.front_ok() { return v("caller-memory", w("memory before the result buffer was written to".into())); }
                out = Some(b);
            }
        }
        rt::arm(F_SO_ERR, 0, 0, 0);
        rt::arm(F_OOM, 0, 0, 0);
        let after = rt::stats().fault_fired;
        let hit = after[F_SO_ERR] > before[F_SO_ERR] || after[F_OOM] > before[F_OOM];
        if rc != 0 && rc != -1 { return v("status", w(format!("returned {}", rc))); }
        if self.mode == Mode::Record {
            let o = if name == "predict" && rc == 0 { out.as_ref().map(|b| bits(b.data())) } else { None };
            self.seen.push(Seen { rc, out: o });
        } else {
            match (rc, want_ok) {
                (0, false) => return v("false-success", w("reports success although the call cannot be carried out".into())),
                (-1, true) if name == "dealloc" => return v("no-release", w(format!("releasing a context failed{}", if hit { " when standard output could not be written" } else { "" }))),
                (-1, true) if !hit => return v("false-failure", w(format!("fails for no reason ({})", crate::sup::last_panic()))),
                (-1, true) => { probe("faults_reported", 1); nontrivial(); }
                (-1, false) => { probe("bad_calls_rejected", 1); }
                _ => if hit { probe("faults_survived", 1); },
            }
            if name == "predict" && rc == 0 {
                let (conf, t) = (self.slots[c].conf.clone(), self.slots[c].data.clone().unwrap());
                let want = want.unwrap();
                let got = bits(out.as_ref().unwrap().data());
                if let Some(i) = (0..want.len()).find(|&i| got[i] != want[i]) {
                    return v("wrong-prediction", w(format!("example {} of {}: {} instead of {}", i, want.len(), f32::from_bits(got[i]), f32::from_bits(want[i]))));
                }
                probe("predictions_compared", want.len() as u64);
                digest(got.iter().fold(0, |h, &b| mix(h ^ b as u64)));
                nontrivial();
                if let Some((cc, tt)) = &self.slots[c].trained_on { if key(cc, tt) == key(&conf, &t) { self.last = Some((conf, t, got)); } }
            }
        }
        if rc == 0 {
            if let Some(f) = done { f(&mut self.slots[c]); }
            if self.mode == Mode::Record && name == "train" { }
        }
        Ok(())
    }

    /// Use every context that is left, then release it.
    pub fn finish(&mut self, k0: usize, verify: bool) -> Res {
        let mut k = k0;
        for c in 0..self.slots.len() {
            if self.slots[c].ptr.is_null() { continue; }
            if verify {
                for name in ["predict", "train", "predict"] { self.step(k, &op(c as i64, name))?; k += 1; }
            }
            self.step(k, &op(c as i64, "dealloc"))?;
            k += 1;
            self.slots[c].ptr = std::ptr::null_mut();
        }
        Ok(())
    }
    fn run(&mut self, ops: &[J], verify: bool) -> Res {
        for (k, q) in ops.iter().enumerate() { self.step(k, q)?; }
        self.finish(ops.len(), verify)
    }
}

fn setup(plan: &Plan) -> Cfg {
    let c = &plan.case;
    std::env::set_var("RAYON_NUM_THREADS", format!("{}", c.i("workers").max(1)));
    let mut cfg = work::sched_cfg(c.get("sched"), 0);
    cfg.fault_rate[F_SO_SHORT] = c.f("p_short");
    cfg.fault_rate[F_SO_EINTR] = c.f("p_eintr");
    cfg.fault_cap[F_SO_EINTR] = 300;
    cfg.max_steps = 2_000_000_000;
    cfg
}
/// The thread pool's own allocations are not the engine's: it is started before any allocation fails.
fn start_pool(ops: &[J]) {
    if !ops.iter().any(|q| q.i("oom") > 0) { return; }
    rt::harness(|| {
        let conf = vec![("niterations".to_string(), "1".to_string())];
        let t: Table = (8, vec![Some(((0..8).map(|i| (i % 3) as f32).collect(), true)), Some(((0..8).map(|i| i as f32).collect(), false))]);
        Twins::default().train(&conf, &t);
    });
}
fn common(r: &mut Rng) -> J {
    obj! { "workers" => *r.pick(&[1i64, 2, 2, 3, 4]), "sched" => work::gen_sched(r), "p_short" => *r.pick(&[0.0, 0.0, 0.3]), "p_eintr" => *r.pick(&[0.0, 0.0, 0.2]) }
}
fn hist_valid(ops: &[J]) -> bool {
    // a conf value below what the engine documents as valid must not be reached by minimisation: conf values are strings
    ops.iter().all(|q| match q.s("op") {
        "set" => q.get("col").us("card") >= 1,
        _ => true,
    })
}
fn c_interface() -> Vec<&'static str> { vec!["the C interface (bb_*), Data, Dataset, stores, learner, objectives, Booster", "rayon's global pool"] }
fn sim_parts() -> Vec<&'static str> { vec!["thread scheduling", "futex", "clock", "entropy", "heap (moving, poisoned, checked)", "stdout"] }

// ---- C07 ----------------------------------------------------------------------------------------

pub struct C07;
impl Check for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> J {
        let faults = *r.pick(&[0.0, 0.05, 0.15, 0.4]);
        let mut c = common(r);
        c.set("ops", gen_hist(r, &HistOpts { nctx: 2, extra: (4, 25), invalid: 0.8, faults, nmax: 150, sane: false }));
        c.set("pristine", r.chance(0.4));
        c
    }
    fn valid(&self, c: &J) -> bool { hist_valid(c.a("ops")) }
    fn exec(&self, plan: &Plan) -> Res {
        unsafe { libc::signal(libc::SIGABRT, on_abort as extern "C" fn(c_int) as usize); }
        let cfg = setup(plan);
        let pristine = if plan.case.b("pristine") { Some(Pristine::start()) } else { None };
        begin(plan, &cfg);
        rt::stdout_mode(1);
        start_pool(plan.case.a("ops"));
        let mut m = Machine::new(Mode::Model);
        m.pristine = pristine;
        let r = guard("a call", || m.run(plan.case.a("ops"), true))?;
        probe("calls", m.calls);
        r
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (20000, 60.0) } else { (1000000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when a fault was reported or survived, or predictions were compared; distinct by schedule and fault trace and predictions" }
    fn real(&self) -> Vec<&'static str> { c_interface() }
    fn stubs(&self) -> Vec<&'static str> { sim_parts() }
    fn probes(&self) -> &'static [&'static str] { &["calls", "columns_set_again", "faults_reported", "faults_survived", "bad_calls_rejected", "predictions_compared", "pristine_answers"] }
    fn keep(&self) -> &'static [&'static str] { &["op", "k", "v", "c"] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["only allocations of the block and histogram stores and of the context itself fail", "pointers that are not NULL are valid"] }
}

// ---- C08 ----------------------------------------------------------------------------------------

pub struct C08;
impl Check for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> J {
        let mut c = common(r);
        let faults = *r.pick(&[0.0, 0.0, 0.1]);
        c.set("ops", gen_hist(r, &HistOpts { nctx: 3, extra: (0, 8), invalid: 0.5, faults, nmax: 250, sane: true }));
        c.set("cli", i % 3 == 0);
        c.set("pristine", r.chance(0.3));
        c
    }
    fn valid(&self, c: &J) -> bool { hist_valid(c.a("ops")) }
    fn exec(&self, plan: &Plan) -> Res {
        unsafe { libc::signal(libc::SIGABRT, on_abort as extern "C" fn(c_int) as usize); }
        let cfg = setup(plan);
        let pristine = if plan.case.b("pristine") { Some(Pristine::start()) } else { None };
        begin(plan, &cfg);
        rt::stdout_mode(1);
        start_pool(plan.case.a("ops"));
        let mut m = Machine::new(Mode::Model);
        m.pristine = pristine;
        guard("a call", || m.run(plan.case.a("ops"), true))??;
        let (conf, t, want) = match m.last.take() { Some(x) => x, None => return Ok(()) };
        // the same values and configuration on a new context, in another order
        let twin = guard("a fresh context", || fresh(&conf, &t))??;
        if twin != want { return v("history", first_diff("a fresh context", &twin, &want)); }
        // through a CSV file
        let header = plan.seed & 1 == 0;
        let csv = csv_text(&t, header);
        let mut cc = config(&conf);
        cc.csv_has_header = header;
        cc.categorical_features = t.1.iter().enumerate().filter(|x| matches!(x.1, Some((_, true)))).map(|x| x.0).collect();
        rt::file("/sim/route.csv", csv.as_bytes());
        let got = guard("training from CSV", || rt::engine(|| {
            let d = match Data::from_csv_path(&cc, "/sim/route.csv") { Ok(d) => d, Err(e) => return Err(V { class: "csv".into(), msg: e }) };
            let mut o = objective_from_name(&cc.objective).unwrap();
            let ms = metrics_from_names(&cc.metrics).unwrap();
            Ok(bits(&Booster::new(&cc, &d, o.as_mut(), &ms).train().predict(&d)))
        }))??;
        if got != want { return v("route-csv", first_diff("through CSV", &got, &want)); }
        probe("csv_routes", 1);
        if plan.case.b("cli") {
            rt::end(); // what follows takes real time
            let mut args = vec!["boost_and_predict_raw".to_string(), "train=/sim/route.csv".into(), format!("csv_has_header={}", header),
                format!("categorical_features={}", cc.categorical_features.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))];
            for (k, x) in &conf { args.push(format!("{}={}", k, x)); }
            let exe = cli::bin("run_bitboost");
            let r = cli::run(&Job { bin: &exe, args: &args, workers: 1 + (plan.seed % 3) as usize, files: &[("/sim/route.csv".into(), csv.into_bytes())], rd: "", wr: "" }, &Cfg { max_steps: 400_000_000, ..cfg.clone() }, None);
            if r.exit != 0 { return v("route-cli", format!("the program fails: {}", r.end())); }
            let text = String::from_utf8_lossy(&r.stdout).into_owned();
            let line = text.lines().find(|l| l.starts_with("__PREDICTIONS_TRAIN__")).unwrap_or("");
            let got: Vec<u32> = line.trim_start_matches("__PREDICTIONS_TRAIN__").split(',').map(|x| x.parse::<f32>().map_or(1, |f| bits(&[f])[0])).collect();
            if got != want { return v("route-cli", first_diff("through the command line", &got, &want)); }
            probe("cli_routes", 1);
        }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (14000, 60.0) } else { (1000000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when predictions after a history were compared with the history-free reference; distinct by schedule and fault trace and predictions" }
    fn real(&self) -> Vec<&'static str> { let mut x = c_interface(); x.push("CSV ingestion"); x.push("run_bitboost (1 run in 3)"); x }
    fn stubs(&self) -> Vec<&'static str> { sim_parts() }
    fn probes(&self) -> &'static [&'static str] { &["calls", "columns_set_again", "faults_reported", "faults_survived", "bad_calls_rejected", "predictions_compared", "pristine_answers", "csv_routes", "cli_routes"] }
    fn keep(&self) -> &'static [&'static str] { &["op", "k", "v", "c"] }
}
fn first_diff(what: &str, got: &[u32], want: &[u32]) -> String {
    if got.len() != want.len() { return format!("{}: {} predictions instead of {}", what, got.len(), want.len()); }
    let i = (0..want.len()).find(|&i| got[i] != want[i]).unwrap();
    format!("{}: example {} of {}: {} instead of {}", what, i, want.len(), f32::from_bits(got[i]), f32::from_bits(want[i]))
}
fn csv_text(t: &Table, header: bool) -> String {
    let mut s = String::new();
    if header { s.push_str(&(0..t.1.len()).map(|i| format!("c{}", i)).collect::<Vec<_>>().join(",")); s.push('\n'); }
    for i in 0..t.0 {
        s.push_str(&t.1.iter().map(|c| c.as_ref().map_or("0".to_string(), |x| format!("{}", x.0[i]))).collect::<Vec<_>>().join(","));
        s.push('\n');
    }
    s
}
/// config and data in table order on a new context, trained once
fn fresh(conf: &[(String, String)], t: &Table) -> Result<Vec<u32>, V> {
    let need = |what: &str, rc: c_int| -> Res { if rc == 0 { Ok(()) } else { v("history", format!("{} fails on a fresh context", what)) } };
    let p = rt::engine(|| bb_alloc(t.1.len() as c_int - 1));
    if p.is_null() { return v("history", "a fresh context cannot be allocated"); }
    let mut last: std::collections::BTreeMap<&str, &str> = Default::default();
    for (k, x) in conf { last.insert(k, x); }
    for (k, x) in last.iter().rev() { let (a, b) = (CString::new(*k).unwrap(), CString::new(*x).unwrap()); need("bb_set_config_field", rt::engine(|| bb_set_config_field(p, a.as_ptr(), b.as_ptr())))?; }
    need("bb_refresh_data", rt::engine(|| bb_refresh_data(p, t.0 as c_int)))?;
    for (f, c) in t.1.iter().enumerate() { if let Some((x, cat)) = c { let b = Buf::from(x); need("bb_set_feature_data", rt::engine(|| bb_set_feature_data(p, f as c_int, b.p, *cat as c_int)))?; } }
    need("bb_train", rt::engine(|| bb_train(p)))?;
    let b = Buf::new(t.0);
    need("bb_predict", rt::engine(|| bb_predict(p, b.p)))?;
    need("bb_dealloc", rt::engine(|| bb_dealloc(p)))?;
    Ok(bits(b.data()))
}

// ---- C09 ----------------------------------------------------------------------------------------

pub struct C09;
impl Check for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> J {
        let mut c = common(r);
        let (faults, nmax) = (*r.pick(&[0.0, 0.1, 0.3, 0.6]), *r.pick(&[40i64, 150, 400]));
        c.set("ops", gen_hist(r, &HistOpts { nctx: 3, extra: (0, 15), invalid: 0.7, faults, nmax, sane: false }));
        c.set("sched", { let mut s = work::gen_sched(r); if r.chance(0.6) { s.set("mode", 0); s.set("p_spurious", J::Num(0.0)); } s });
        c
    }
    fn valid(&self, c: &J) -> bool { hist_valid(c.a("ops")) }
    fn exec(&self, plan: &Plan) -> Res {
        unsafe { libc::signal(libc::SIGABRT, on_abort as extern "C" fn(c_int) as usize); }
        let cfg = setup(plan);
        begin(plan, &cfg);
        rt::stdout_mode(1);
        let ops = plan.case.a("ops");
        start_pool(ops);
        let mut live = Vec::new();
        let mut once = |live: &mut Vec<u64>| -> Res {
            let mut m = Machine::new(Mode::Record);
            guard("a call", || m.run(ops, false))??;
            probe("calls", m.calls);
            digest(m.seen.iter().fold(0, |h, s| mix(h ^ s.rc as u64 ^ s.out.as_ref().map_or(0, |o| o.iter().fold(1, |a, &b| mix(a ^ b as u64))))));
            drop(m);
            if let Some(e) = rt::heap_check() { return v("heap", e); }
            live.push(rt::tag_bytes(1));
            Ok(())
        };
        for _ in 0..4 { once(&mut live)?; }
        let f = rt::stats().fault_fired;
        if f[F_OOM] > 0 { probe("runs_with_allocation_failures", 1); }
        if f[F_SO_ERR] > 0 { probe("runs_with_stdout_failures", 1); }
        nontrivial();
        // memory that grows with every repetition
        if live[3] > live[2] && live[2] > live[1] {
            for _ in 0..12 { once(&mut live)?; }
            let l = live.len();
            if (4..l).all(|i| live[i] > live[i - 1]) {
                return v("leak", format!("the same history, repeated {} times, with every context released each time: engine memory grows by {} bytes each time ({} to {})", l, (live[l - 1] - live[3]) / (l as u64 - 4), live[3], live[l - 1]));
            }
        }
        probe("leak_checks", 1);
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (12000, 60.0) } else { (400000, 900.0) } }
    fn rule(&self) -> &'static str { "a run is one history repeated at least 4 times with heap checks and a leak check; distinct by schedule and fault trace, statuses and predictions" }
    fn real(&self) -> Vec<&'static str> { c_interface() }
    fn stubs(&self) -> Vec<&'static str> { sim_parts() }
    fn probes(&self) -> &'static [&'static str] { &["calls", "columns_set_again", "leak_checks", "runs_with_allocation_failures", "runs_with_stdout_failures"] }
    fn keep(&self) -> &'static [&'static str] { &["op", "k", "v", "c"] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["reads outside owned memory are seen when they hit an inaccessible page (large blocks, callers' buffers) or change a result", "memory allocated on the pool's own threads is not counted"] }
}

// ---- C06 ----------------------------------------------------------------------------------------

pub struct C06;
struct SendJ(J);
unsafe impl Send for SendJ {}
impl Check for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> J {
        let mut c = common(r);
        let nt = if r.chance(0.04) { r.range(5, 8) } else { r.range(2, 4) };
        let hs: Vec<J> = (0..nt).map(|_| gen_hist(r, &HistOpts { nctx: 2, extra: (0, 6), invalid: 0.4, faults: 0.0, nmax: 120, sane: true })).collect();
        c.set("threads", J::Arr(if r.chance(0.15) { vec![hs[0].clone(); hs.len()] } else { hs }));
        let mut s = work::gen_sched(r);
        if s.f("p_sync") == 0.0 && s.f("p_mem") < 1e-4 { s.set("p_sync", J::Num(0.1)); }
        c.set("sched", s);
        if r.chance(0.5) { c.set("first", 1i64); }
        c
    }
    fn valid(&self, c: &J) -> bool { !c.a("threads").is_empty() && c.a("threads").iter().all(|t| hist_valid(t.arr())) }
    fn exec(&self, plan: &Plan) -> Res {
        let cfg = setup(plan);
        let hs = plan.case.a("threads");
        // together first: what the process sets up on first use is set up by calls that race
        let first = plan.case.has("first");
        let quiet = Cfg { mode: rt::NOPREEMPT, ..Cfg::quiet(plan.seed) };
        begin(plan, if first { &cfg } else { &quiet });
        rt::max_steps(2_000_000_000);
        rt::stdout_mode(1);
        let solo = |h: &[J]| -> Result<Vec<Seen>, V> {
            let mut m = Machine::new(Mode::Record);
            m.run(h, false)?;
            Ok(std::mem::take(&mut m.seen))
        };
        let mut alone = Vec::new();
        if !first {
            for h in hs { alone.push(rt::harness(|| guard("a call", || solo(h.arr())))??); }
            rt::phase(&cfg);
            rt::max_steps(2_000_000_000);
        }
        let ths: Vec<_> = hs.iter().map(|h| {
            let j = SendJ(h.clone());
            std::thread::spawn(move || { let j = j; std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut m = Machine::new(Mode::Record);
                let r = m.run(j.0.arr(), false);
                (r.map_err(|e| (e.class, e.msg)), std::mem::take(&mut m.seen), m.calls)
            })) })
        }).collect();
        let mut res = Vec::new();
        for t in ths { res.push(t.join()); }
        if first {
            probe("together_first", 1);
            rt::phase(&quiet);
            rt::max_steps(2_000_000_000);
            for h in hs { alone.push(rt::harness(|| guard("a call", || solo(h.arr())))??); }
        }
        rt::pause();
        for (i, r) in res.into_iter().enumerate() {
            let (r, seen, calls) = match r { Ok(Ok(x)) => x, _ => return v("panic", format!("thread {}: {}", i, crate::sup::last_panic())) };
            if let Err((c, m)) = r { return v(c, format!("thread {}: {}", i, m)); }
            probe("calls", calls);
            let want = &alone[i];
            if seen.len() != want.len() { return v("interference", format!("thread {}: {} calls instead of {}", i, seen.len(), want.len())); }
            for (k, (a, b)) in seen.iter().zip(want).enumerate() {
                let what = hs[i].arr().get(k).map_or("the final release", |q| q.s("op"));
                if a.rc != b.rc { return v("interference", format!("thread {} recorded call {} ({}): status {} together, {} alone", i, k, what, a.rc, b.rc)); }
                if let (Some(x), Some(y)) = (&a.out, &b.out) {
                    if x != y { return v("interference", format!("thread {} recorded call {} ({}): {}", i, k, what, first_diff("together", x, y))); }
                    probe("predictions_compared", x.len() as u64);
                    digest(x.iter().fold(i as u64, |h, &b| mix(h ^ b as u64)));
                    nontrivial();
                }
            }
        }
        rt::resume();
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (8000, 60.0) } else { (400000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when predictions made by concurrent threads were compared with the same calls made alone; distinct by schedule trace and predictions" }
    fn real(&self) -> Vec<&'static str> { c_interface() }
    fn stubs(&self) -> Vec<&'static str> { sim_parts() }
    fn probes(&self) -> &'static [&'static str] { &["calls", "columns_set_again", "predictions_compared", "together_first"] }
    fn keep(&self) -> &'static [&'static str] { &["op", "k", "v", "c"] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a context is used by one thread at a time"] }
}

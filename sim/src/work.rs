//! Workloads: generated datasets and configurations, and training them.
use crate::json::J;
use crate::obj;
use crate::rng::{mix, Rng};
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::Metric;
use bitboost::objective::objective_from_name;
use bitboost::tree::AdditiveTree;
use std::cell::RefCell;
use std::rc::Rc;

// ---- datasets -----------------------------------------------------------------------------------

pub struct Column { pub values: Vec<f32>, pub cat: bool }
pub struct Table { pub n: usize, pub cols: Vec<Column>, pub target: Vec<f32> }

fn h(seed: u64, row: usize) -> u64 { mix(seed ^ mix(row as u64 ^ 0x51ed)) }
fn unit(x: u64) -> f64 { (x >> 11) as f64 / 9007199254740992.0 }

pub fn column(f: &J, n: usize, salt: u64) -> Column {
    let seed = mix(f.i("fseed") as u64 ^ salt.wrapping_mul(0x9e37));
    let card = f.us("card").max(1);
    let dist = f.i("dist");
    if f.s("k") == "cat" {
        let values = (0..n).map(|i| {
            let u = unit(h(seed, i));
            let c = match dist {
                0 => (u * card as f64) as usize,
                1 => (u * u * u * card as f64) as usize,
                2 => i * card / n.max(1),                                   // sorted in blocks
                3 => 0,
                4 => if u < 0.02 { card - 1 } else { 0 },
                5 => if u < 0.5 { 0 } else { (unit(mix(h(seed, i))) * card as f64) as usize },
                6 => if card > 2 { 1 + (u * (card - 1) as f64) as usize } else { (u * card as f64) as usize }, // category 0 unused
                _ => if (i / 37) % 2 == 0 { 0 } else { (u * card as f64) as usize },
            };
            (c.min(card - 1) * f.i("mul").max(1) as usize) as f32
        }).collect();
        Column { values, cat: true }
    } else {
        let values = (0..n).map(|i| {
            let u = unit(h(seed, i));
            let x = match dist {
                0 => 2.0 * u - 1.0,
                1 => { let mut s = 0.0; let mut z = h(seed, i); for _ in 0..6 { z = mix(z); s += unit(z); } s - 3.0 }
                2 => (u * card as f64).floor(),
                3 => 1.0 / (0.02 + u),
                4 => 2.5,
                5 => 1000.0 + u,
                6 => (u * 4.0).floor() * 10.0 + unit(mix(h(seed, i))),
                7 => if u < 0.5 { 3.0 } else { 4.0 },
                8 => -(5.0 + u),
                9 => i as f64 / n.max(1) as f64,
                10 => ((u * 512.0).floor() / 512.0) * 4.0 - 2.0,            // on bin boundaries
                11 => if u < 0.03 { 100.0 } else { u },
                12 => 1.0 - i as f64 / n.max(1) as f64,
                13 => { // equal to thresholds, zeros of either sign
                    let z = mix(h(seed, i));
                    let x = if i < 2 { if i == 0 { -256.0 } else { 256.0 } } else if z % 3 == 0 { 0.0 } else { (u * 9.0).floor() - 4.0 };
                    if x == 0.0 && z & 8 == 0 { -0.0 } else { x * (card as f64) / 8.0 }
                }
                _ => u,
            };
            x as f32
        }).collect();
        Column { values, cat: false }
    }
}

/// `salt` 0 is the training table; other salts give held-out rows from the same description.
pub fn table(d: &J, salt: u64) -> Table {
    let n = if salt == 0 { d.us("n") } else if d.has("test_n") { d.us("test_n").max(1) } else { d.us("n").min(200).max(20) };
    let cols: Vec<Column> = d.a("feats").iter().map(|f| column(f, n, salt)).collect();
    let t = d.get("target");
    let seed = mix(t.i("tseed") as u64 ^ salt.wrapping_mul(77));
    let wseed = t.i("tseed") as u64;
    let noise = t.f("noise");
    let raw: Vec<f64> = (0..n).map(|i| {
        let mut y = 0.0;
        for (j, c) in cols.iter().enumerate() {
            let v = c.values[i] as f64;
            let w = unit(mix(wseed ^ (j as u64 + 1))) * 2.0 - 1.0;
            let z = if c.cat { unit(mix(wseed ^ mix(v as u64 * 31 + j as u64))) * 2.0 - 1.0 }
                    else { let a = v.abs().min(50.0); if v > unit(mix(wseed ^ (99 + j as u64))) * 2.0 - 1.0 { 0.3 * a } else { -0.2 * a } };
            y += w * z;
        }
        if t.has("tail") { // what the first column does not tell, the end of the last one does
            let (a, b) = (&cols[0].values, &cols[cols.len() - 1].values);
            let top = b.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
            y = 0.01 * y + if a[i] == a[0] { 9.0 } else if b[i] == top { 4.0 } else { 0.0 };
        }
        y + noise * (unit(h(seed, i)) * 2.0 - 1.0)
    }).collect();
    let target: Vec<f32> = match t.s("k") {
        "class" => {
            let mut s = raw.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let q = t.f("q");
            let thr = if n > 0 { s[((n as f64 * q) as usize).min(n - 1)] } else { 0.0 };
            let mut y: Vec<f32> = raw.iter().enumerate().map(|(i, &r)| {
                let flip = unit(h(seed ^ 5, i)) < 0.05;
                if (r > thr) != flip { 1.0 } else { 0.0 }
            }).collect();
            if t.has("only") { let v = t.i("only") as f32; y.iter_mut().for_each(|x| *x = v); }
            else if n >= 2 && y.iter().all(|&v| v == y[0]) { y[n - 1] = 1.0 - y[0]; }
            y
        }
        "const" => vec![1.5; n],
        "zero" => vec![0.0; n],
        "step" => raw.iter().map(|&r| if r > 0.0 { 2.0 } else { -1.0 }).collect(),
        "offset" => raw.iter().map(|&r| (r + 40.0) as f32).collect(),
        "outlier" => raw.iter().enumerate().map(|(i, &r)| if i % 53 == 7 { r as f32 * 20.0 + 30.0 } else { r as f32 }).collect(),
        _ => raw.iter().map(|&r| r as f32).collect(),
    };
    Table { n, cols, target }
}

pub fn data_of(t: &Table, cfg: &Config) -> Result<Data, String> {
    let mut d = Data::empty(cfg, t.cols.len(), t.n);
    for (i, c) in t.cols.iter().enumerate() { d.set_feature_data(i, &c.values, c.cat)?; }
    d.set_feature_data(t.cols.len(), &t.target, false)?;
    Ok(d)
}

pub fn csv_of(t: &Table, header: bool, delim: char) -> String {
    let mut s = String::new();
    if header {
        for j in 0..t.cols.len() { s.push_str(&format!("f{}{}", j, delim)); }
        s.push_str("target\n");
    }
    for i in 0..t.n {
        for c in &t.cols { s.push_str(&format!("{}{}", c.values[i], delim)); }
        s.push_str(&format!("{}\n", t.target[i]));
    }
    s
}

#[derive(Clone, Copy)]
pub struct DataOpts { pub n: (i64, i64), pub nf: (i64, i64), pub class: bool, pub degenerate: bool, pub maxcard: i64 }

pub fn gen_data(r: &mut Rng, o: DataOpts) -> J {
    let mut n = r.logrange(o.n.0, o.n.1);
    let mut nf = r.range(o.nf.0, o.nf.1);
    if o.nf.1 >= 5 && r.chance(0.015) { // more columns than bits in a word
        nf = r.logrange(20, 280);
        n = n.min(60).max(o.n.0.min(60));
    }
    let mut feats = Vec::new();
    for _ in 0..nf {
        let fs = r.next() & 0xffffff;
        let f = if r.chance(0.55) {
            let card = if r.chance(0.3) { 2 } else if r.chance(0.5) { r.range(3, 12) } else { r.logrange(2, o.maxcard) };
            let dist = if o.degenerate && r.chance(0.25) { *r.pick(&[3i64, 4]) } else { *r.pick(&[0i64, 0, 1, 2, 4, 5, 6, 7]) };
            let mut f = obj! { "k" => "cat", "card" => card, "dist" => dist, "fseed" => fs };
            if o.maxcard >= 30 && r.chance(0.03) { f.set("mul", *r.pick(&[7i64, 50, 300, 2500])); } // most category numbers unused
            f
        } else {
            let dist = if o.degenerate && r.chance(0.25) { 4 } else { *r.pick(&[0i64, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13]) };
            obj! { "k" => "num", "card" => r.range(2, 40), "dist" => dist, "fseed" => fs }
        };
        feats.push(f);
    }
    let noise = *r.pick(&[0.0, 0.1, 0.5, 1.0]);
    let only = if o.class && o.degenerate && r.chance(0.3) { r.range(0, 1) } else { -1 };
    let k = if o.class { "class" } else if o.degenerate && r.chance(0.3) { *r.pick(&["const", "zero", "step"]) }
            else { *r.pick(&["reg", "reg", "reg", "offset", "step", "outlier"]) };
    let mut target = obj! { "k" => k, "tseed" => r.next() & 0xffffff, "noise" => noise, "q" => *r.pick(&[0.3, 0.5, 0.7, 0.9]) };
    if only >= 0 { target.set("only", only); } // a single class
    obj! { "n" => n, "feats" => J::Arr(feats), "target" => target }
}

// ---- configurations -----------------------------------------------------------------------------

pub struct ConfOpts { pub iters: (i64, i64), pub depth: (i64, i64), pub sampling: f64 }

pub fn gen_conf(r: &mut Rng, o: &ConfOpts, objective: &str) -> J {
    let mut c = obj! { "objective" => objective };
    c.set("niterations", r.range(o.iters.0, o.iters.1));
    c.set("max_tree_depth", r.range(o.depth.0, o.depth.1));
    c.set("learning_rate", J::Num(*r.pick(&[0.1, 0.3, 0.5, 1.0])));
    c.set("reg_lambda", J::Num(*r.pick(&[0.0, 0.0, 0.1, 1.0, 10.0])));
    c.set("min_examples_leaf", *r.pick(&[0i64, 1, 1, 1, 2, 3, 5, 20]));
    c.set("min_gain", J::Num(*r.pick(&[1e-6, 1e-6, 0.0, 1e-3, 0.1])));
    c.set("max_nbins", *r.pick(&[1i64, 2, 3, 4, 8, 16, 16, 32, 64, 64, 200, 300]));
    c.set("discr_nbits", if objective == "hinge" { 2 } else { *r.pick(&[1i64, 2, 4, 4, 8, 8]) });
    c.set("compression_threshold", J::Num(*r.pick(&[0.0, 0.05, 0.2, 0.5, 0.5, 0.9, 1.0])));
    if o.depth.1 >= 6 && r.chance(0.02) { // node numbers beyond 8 and 16 bits, when the data allow
        c.set("max_tree_depth", r.range(8, 16));
        c.set("min_examples_leaf", 1i64);
        c.set("min_gain", J::Num(0.0));
    }
    if objective == "hinge" { c.set("learning_rate", J::Num(0.1)); } // its quadratic steps diverge otherwise
    if objective == "huber" { c.set("huber_alpha", J::Num(*r.pick(&[0.5, 0.8, 0.95]))); }
    if objective == "binary" { c.set("binary_gradient_bound", J::Num(*r.pick(&[0.75, 1.25, 2.0]))); }
    c.set("random_seed", if r.chance(0.9) { r.range(0, 1000) } else { (r.next() >> 1) as i64 >> *r.pick(&[0, 20, 31]) });
    if r.chance(o.sampling) {
        if r.chance(0.7) { c.set("example_fraction", J::Num(*r.pick(&[0.2, 0.5, 0.7, 0.9]))); }
        if r.chance(0.6) { c.set("feature_fraction", J::Num(*r.pick(&[0.3, 0.5, 0.8]))); }
        c.set("sample_freq", r.range(1, 3));
    }
    c
}

pub fn text(v: &J) -> String {
    match v { J::Str(s) => s.clone(), J::Int(i) => i.to_string(), J::Num(f) => format!("{}", f), J::Bool(b) => b.to_string(), _ => String::new() }
}
pub fn conf_pairs(c: &J) -> Vec<(String, String)> {
    if let J::Obj(m) = c { m.iter().map(|(k, v)| (k.clone(), text(v))).collect() } else { vec![] }
}
pub fn conf_of(c: &J) -> Config {
    let mut cfg = Config::new();
    for (k, v) in conf_pairs(c) { cfg.parse_record(&k, &v).unwrap_or_else(|e| panic!("harness configuration: {}", e)); }
    cfg
}
/// the number of training examples in a bag, as the configuration asks for
pub fn bag_size(c: &J, n: usize) -> usize {
    let f = if c.has("example_fraction") { c.f("example_fraction") as f32 } else { 1.0 };
    (n as f32 * f).round() as usize
}
/// an empty bag is not a valid request
pub fn fix_bag(conf: &mut J, data: &J) { if bag_size(conf, data.us("n")) == 0 { conf.del("example_fraction"); } }
/// keep minimised cases inside the valid inputs
pub fn conf_valid(c: &J, d: &J) -> bool {
    let n = d.us("n");
    let class = matches!(c.s("objective"), "binary" | "hinge");
    n >= 1
        && !d.a("feats").is_empty()
        && d.a("feats").iter().all(|f| f.us("card") >= 1)
        && c.has("objective") && bag_size(c, n) >= 1
        && [1, 2, 4, 8].contains(&c.i("discr_nbits")) && (c.s("objective") != "hinge" || c.i("discr_nbits") == 2)
        && c.i("max_tree_depth") >= 1 && c.i("min_examples_leaf") >= 0 && c.i("max_nbins") >= 0
        && (!c.has("sample_freq") || c.i("sample_freq") >= 0) && c.f("learning_rate") > 0.0
        && (!c.has("niterations") || c.i("niterations") >= 0)
        && (c.s("objective") != "hinge" || c.f("learning_rate") <= 0.1)
        && class == (d.get("target").s("k") == "class")
}
pub const OBJS: [&str; 7] = ["L2", "L2", "L2", "l1", "huber", "binary", "hinge"];

// ---- training -----------------------------------------------------------------------------------

pub type Rounds = Rc<RefCell<Vec<(&'static str, Vec<f32>)>>>;
pub struct SpyMetric { pub rounds: Rounds, pub targets: Rc<RefCell<Vec<u64>>>, pub label: &'static str }
/// what the k-th evaluation of a training returns
pub fn spy_value(k: usize) -> f32 { 0.5 + k as f32 }
impl Metric for SpyMetric {
    fn name(&self) -> &'static str { self.label }
    fn eval(&self, targets: &[f32], predictions: &[f32]) -> f32 {
        crate::rt::harness(|| {
            assert_eq!(targets.len(), predictions.len());
            self.rounds.borrow_mut().push((self.label, predictions.to_vec()));
            self.targets.borrow_mut().push(hash_f32s(1, targets));
            spy_value(self.rounds.borrow().len() - 1)
        })
    }
}

pub struct Trained { pub rounds: Vec<(&'static str, Vec<f32>)>, pub targets: Vec<u64>, pub model: AdditiveTree }

/// Run the real booster on this thread (and the rayon pool current on it).
pub fn train(cfg: &Config, data: &Data, labels: &[&'static str]) -> Trained {
    let rounds: Rounds = Rc::new(RefCell::new(Vec::new()));
    let targets = Rc::new(RefCell::new(Vec::new()));
    let metrics: Vec<Box<dyn Metric>> = labels.iter().map(|l| Box::new(SpyMetric { rounds: rounds.clone(), targets: targets.clone(), label: l }) as Box<dyn Metric>).collect();
    let model = crate::rt::engine(|| {
        let mut objective = objective_from_name(&cfg.objective).expect("objective");
        Booster::new(cfg, data, objective.as_mut(), &metrics).train()
    });
    drop(metrics);
    let rounds = Rc::try_unwrap(rounds).ok().unwrap().into_inner();
    let targets = Rc::try_unwrap(targets).ok().unwrap().into_inner();
    Trained { rounds, targets, model }
}

pub fn hash_f32s(mut hh: u64, xs: &[f32]) -> u64 { for x in xs { hh = mix(hh ^ x.to_bits() as u64); } mix(hh ^ xs.len() as u64) }

// ---- schedules ----------------------------------------------------------------------------------

use crate::rt::{Cfg, F_CLOCK, F_SPURIOUS};

/// A schedule policy as part of a case.
pub fn gen_sched(r: &mut Rng) -> J {
    let mode = *r.pick(&[1i64, 1, 1, 2, 2, 3]);
    obj! { "sseed" => r.next() & 0xffffffff, "mode" => mode, "victim" => r.range(0, 5), "stall" => *r.pick(&[2000i64, 50000, 1000000]),
           "p_mem" => *r.pick(&[0.0, 1e-5, 1e-4, 1e-3, 1e-2]), "p_sync" => *r.pick(&[0.0, 0.02, 0.2, 0.5]),
           "p_spurious" => *r.pick(&[0.0, 0.0, 0.1]), "p_clock" => *r.pick(&[0.0, 0.0, 0.2, 0.5]) }
}
pub fn sched_cfg(j: &J, salt: u64) -> Cfg {
    let mut c = Cfg::quiet(mix(j.i("sseed") as u64 ^ salt));
    c.mode = j.i("mode") as i32;
    c.victim = j.i("victim") as i32;
    c.stall_until = j.i("stall") as u64;
    c.p_mem = j.f("p_mem");
    c.p_sync = j.f("p_sync");
    c.fault_rate[F_SPURIOUS] = j.f("p_spurious");
    c.fault_rate[F_CLOCK] = j.f("p_clock");
    c
}

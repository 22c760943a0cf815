//! C01, C04, C05: whole trainings under the simulator.
use crate::json::J;
use crate::obj;
use crate::p_learn::HUGE_EVERY;
use crate::rng::{mix, Rng};
use crate::rt;
use crate::sup::{begin, digest, guard, nontrivial, probe, v, Check, Plan, Res, Tier, V};
use crate::work::*;
use bitboost::config::Config;

pub const REAL: &[&str] = &["bitboost library: Config, Data, Dataset, TreeLearner, Booster, objectives, stores, SIMD kernels (built from /repo, instrumented)",
    "rayon thread pool and its sleep/steal protocol", "std threads, mutexes, condvars, allocator users"];
pub const STUBS: &[&str] = &["thread scheduler (simrt baton)", "futex, sched_yield, nanosleep", "clock_gettime", "getrandom", "heap", "stdout"];

pub struct Out { pub rounds: Vec<Vec<f32>>, pub train: Vec<f32>, pub held: Vec<f32> }
impl Out {
    pub fn hash(&self) -> u64 {
        let mut h = 1;
        for r in &self.rounds { h = hash_f32s(h, r); }
        h = hash_f32s(h, &self.train);
        hash_f32s(h, &self.held)
    }
    pub fn diff(&self, o: &Out) -> Option<String> {
        let bits = |a: &[f32], b: &[f32]| a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.to_bits() != y.to_bits());
        let first = |a: &[f32], b: &[f32]| a.iter().zip(b).position(|(x, y)| x.to_bits() != y.to_bits()).map(|i| format!("example {}: {:e} instead of {:e}", i, b[i], a[i])).unwrap_or_default();
        if self.rounds.len() != o.rounds.len() { return Some(format!("{} evaluated rounds instead of {}", o.rounds.len(), self.rounds.len())); }
        for (i, (a, b)) in self.rounds.iter().zip(&o.rounds).enumerate() {
            if bits(a, b) { return Some(format!("running predictions after round {}: {}", i + 1, first(a, b))); }
        }
        if bits(&self.train, &o.train) { return Some(format!("model on the training data: {}", first(&self.train, &o.train))); }
        if bits(&self.held, &o.held) { return Some(format!("model on held-out data: {}", first(&self.held, &o.held))); }
        None
    }
}

/// data + training + prediction, on the calling thread
fn train_out(cfg: &Config, t: &Table, held: &Table) -> Out {
    let (d, dh) = rt::engine(|| (data_of(t, cfg).expect("data"), data_of(held, cfg).expect("held-out data")));
    let tr = train(cfg, &d, &["spy"]);
    let (train, held) = rt::engine(|| (tr.model.predict(&d), tr.model.predict(&dh)));
    Out { rounds: tr.rounds.into_iter().map(|x| x.1).collect(), train, held }
}

/// Run `jobs` trainings at once on a pool of `threads` workers; 0 means the global pool.
fn train_on(threads: usize, jobs: usize, cfg: &Config, t: &Table, held: &Table) -> Result<Vec<Out>, V> {
    let pool = if threads > 0 { Some(rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool")) } else { None };
    let r: Vec<Result<Out, V>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..jobs).map(|_| {
            let pool = &pool;
            s.spawn(move || guard("training", || match pool {
                Some(p) => p.install(|| train_out(cfg, t, held)),
                None => train_out(cfg, t, held),
            }))
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    r.into_iter().collect()
}

pub struct C01;
impl Check for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> J {
        let objective = *r.pick(&OBJS);
        let class = matches!(objective, "binary" | "hinge");
        let big = i % 8 == 7;
        let huge = i % HUGE_EVERY == HUGE_EVERY / 3;
        let n = if huge { (8000, 70000) } else if i % LONG_EVERY == 7 { (30, 60) } else if big { (600, if tier == Tier::Quick { 2500 } else { 6000 }) } else { (30, 500) };
        let data = gen_data(r, DataOpts { n, nf: (1, 6), class, degenerate: r.clone().chance(0.1), maxcard: 60 });
        let conf = gen_conf(r, &ConfOpts { iters: (1, if huge { 2 } else { 4 }), depth: (1, if huge { 4 } else { 6 }), sampling: 0.4 }, objective);
        let mut conf = conf; fix_bag(&mut conf, &data);
        if i % LONG_EVERY == 7 { make_long(r, &mut conf); }
        let nv = r.range(1, if huge { 1 } else { 3 });
        let mut vs = Vec::new();
        for _ in 0..nv {
            let mut s = gen_sched(r);
            s.set("threads", *r.pick(&[0i64, 2, 2, 3, 4, 7, 7, 16]));
            s.set("jobs", *r.pick(&[1i64, 1, 1, 2]));
            if huge { s.set("p_mem", J::Num(s.f("p_mem").min(1e-5))); }
            s.set("memory", r.chance(0.7));
            s.set("entropy", r.chance(0.7));
            vs.push(s);
        }
        obj! { "data" => data, "conf" => conf, "variants" => J::Arr(vs), "gthreads" => r.range(1, 4) }
    }
    fn valid(&self, c: &J) -> bool {
        conf_valid(c.get("conf"), c.get("data")) && c.i("gthreads") >= 1
            && c.a("variants").iter().all(|x| (1..=3).contains(&x.i("jobs")) && x.i("threads") >= 0)
    }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let (t, held) = (table(c.get("data"), 0), table(c.get("data"), 1));
        let cfg = conf_of(c.get("conf"));
        std::env::set_var("RAYON_NUM_THREADS", c.i("gthreads").to_string());
        begin(plan, &rt::Cfg::quiet(plan.seed));
        rt::stdout_mode(1);
        let base = train_on(1, 1, &cfg, &t, &held)?.pop().unwrap();
        digest(base.hash());
        probe("rounds_compared", 0);
        for (k, x) in c.a("variants").iter().enumerate() {
            let mut sc = sched_cfg(x, plan.seed ^ k as u64);
            sc.max_steps = 4_000_000_000;
            rt::phase(&sc);
            if x.b("memory") { rt::heap_reseed(mix(plan.seed ^ (k as u64 + 1))); probe("memory_variants", 1); }
            if x.b("entropy") { rt::reseed_entropy(mix(plan.seed ^ (k as u64 + 7))); probe("entropy_variants", 1); }
            let outs = train_on(x.us("threads"), x.us("jobs"), &cfg, &t, &held)?;
            if x.us("jobs") > 1 { probe("concurrent_trainings", 1); }
            if x.us("threads") > 1 { probe("several_workers", 1); }
            rt::pause();
            for (j, o) in outs.iter().enumerate() {
                if let Some(d) = base.diff(o) {
                    return v("differs", format!("variant {} training {}: {}", k, j, d));
                }
                probe("rounds_compared", o.rounds.len() as u64);
            }
            rt::resume();
        }
        let st = rt::stats();
        if st.preemptions > 0 { nontrivial(); }
        if st.preemptions > 100 { probe("hundreds_of_preemptions", 1); }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (12000, 45.0) } else { (400000, 1500.0) } }
    fn rule(&self) -> &'static str { "a run counts when at least one preemption was forced while a variant was training; distinct by schedule trace and baseline result" }
    fn real(&self) -> Vec<&'static str> { REAL.to_vec() }
    fn stubs(&self) -> Vec<&'static str> { STUBS.to_vec() }
    fn probes(&self) -> &'static [&'static str] { &["rounds_compared", "memory_variants", "entropy_variants", "concurrent_trainings", "several_workers", "hundreds_of_preemptions"] }
    fn keep(&self) -> &'static [&'static str] { &["discr_nbits", "mode"] }
}

// ---- C04 ----------------------------------------------------------------------------------------

/// now and then a training of more rounds than a byte counts
const LONG_EVERY: u64 = 151;
fn make_long(r: &mut Rng, conf: &mut J) {
    conf.set("niterations", r.range(257, 300));
    conf.set("max_tree_depth", r.range(1, 3));
    if conf.s("objective") != "hinge" { conf.set("learning_rate", J::Num(0.1)); }
}

const LABELS: [&str; 3] = ["m0", "m1", "m2"];

pub struct C04;
impl Check for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> J {
        let objective = *r.pick(&OBJS);
        let class = matches!(objective, "binary" | "hinge");
        let big = i % 6 == 5;
        let huge = i % HUGE_EVERY == HUGE_EVERY / 3;
        let n = if huge { (8000, 90000) } else if i % LONG_EVERY == 7 { (4, 80) } else if big { (600, if tier == Tier::Quick { 3000 } else { 8000 }) } else { (4, 600) };
        let data = gen_data(r, DataOpts { n, nf: (1, if huge { 3 } else { 6 }), class, degenerate: r.clone().chance(0.1), maxcard: 80 });
        let mut conf = gen_conf(r, &ConfOpts { iters: if huge { (1, 2) } else { (0, 6) }, depth: (1, if huge { 4 } else { 6 }), sampling: 0.65 }, objective);
        fix_bag(&mut conf, &data);
        conf.set("metric_frequency", *r.pick(&[0i64, 1, 1, 2, 2, 3, 4]));
        let long = i % LONG_EVERY == 7;
        if long { conf.set("metric_frequency", *r.pick(&[1i64, 7, 10, 100, 257])); make_long(r, &mut conf); }
        let mut s = gen_sched(r);
        s.set("threads", *r.pick(&[1i64, 1, 2, 3]));
        if huge { s.set("p_mem", 0.0); }
        obj! { "data" => data, "conf" => conf, "sched" => s, "metrics" => r.range(if huge { 1 } else { 0 }, if huge { 1 } else { 3 }) }
    }
    fn valid(&self, c: &J) -> bool { conf_valid(c.get("conf"), c.get("data")) && (0..=3).contains(&c.i("metrics")) && c.get("sched").i("threads") >= 1 }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let conf = c.get("conf");
        let t = table(c.get("data"), 0);
        let cfg = conf_of(conf);
        let rounds_total = conf.us("niterations");
        let freq = conf.us("metric_frequency");
        let nm = c.us("metrics");
        begin(plan, &sched_cfg(c.get("sched"), plan.seed));
        rt::stdout_mode(2);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.get("sched").us("threads")).build().expect("pool");

        // the run under observation
        rt::stdout_reset();
        let (rounds, fin, targets) = guard("training", || pool.install(|| {
            let d = rt::engine(|| data_of(&t, &cfg)).expect("data");
            let tr = train(&cfg, &d, &LABELS[..nm]);
            let fin = rt::engine(|| tr.model.predict(&d));
            (tr.rounds, fin, tr.targets)
        }))?;
        let printed = rt::harness(|| String::from_utf8_lossy(rt::stdout_data()).into_owned());
        rt::stdout_mode(1);
        rt::phase(&rt::Cfg::quiet(plan.seed));

        // cadence: every metric once, in order, at the rounds that are multiples of the frequency
        let due: Vec<usize> = if freq == 0 { vec![] } else { (1..=rounds_total).filter(|r| r % freq == 0).collect() };
        if rounds.len() != due.len() * nm {
            return v("cadence", format!("{} metric evaluations instead of {} ({} rounds, frequency {}, {} metrics)", rounds.len(), due.len() * nm, rounds_total, freq, nm));
        }
        for (k, (label, _)) in rounds.iter().enumerate() {
            if *label != LABELS[k % nm] { return v("cadence", format!("evaluation {} was of {} instead of {}", k, label, LABELS[k % nm])); }
        }
        // on the targets, and what it returned is what is printed
        if let Some(k) = targets.iter().position(|&h| h != hash_f32s(1, &t.target)) { return v("targets", format!("evaluation {} was not given the training targets", k)); }
        let shown: Vec<Vec<&str>> = printed.lines().filter(|l| l.starts_with("[   ] eval ")).map(|l| l.split_whitespace().collect()).collect();
        if shown.len() != rounds.len() { return v("printed", format!("{} metric values printed instead of {}", shown.len(), rounds.len())); }
        for (k, w) in shown.iter().enumerate() {
            let x: Option<f32> = w.last().and_then(|x| x.parse().ok());
            let ok = x.map_or(false, |x| (x - spy_value(k)).abs() <= 2e-4 * spy_value(k));
            if !ok || !w.contains(&LABELS[k % nm]) { return v("printed", format!("evaluation {} of {} gave {}, printed: {}", k, LABELS[k % nm], spy_value(k), w.join(" "))); }
            probe("printed_values", 1);
        }

        // models of exactly r rounds
        let of_rounds = |r: usize| -> Result<Vec<f32>, V> {
            let mut cj = conf.clone();
            cj.set("niterations", r);
            let cfg = conf_of(&cj);
            guard("training", || pool.install(|| {
                let d = rt::engine(|| data_of(&t, &cfg)).expect("data");
                let tr = train(&cfg, &d, &[]);
                rt::engine(|| tr.model.predict(&d))
            }))
        };
        let close = |a: &[f32], b: &[f32], what: String| -> Res {
            let scale = a.iter().chain(b).fold(1e-3f64, |m, x| m.max(x.abs() as f64));
            for i in 0..a.len() {
                let d = (a[i] as f64 - b[i] as f64).abs();
                if !(d <= 1e-5 * scale * (rounds_total as f64 + 1.0)) {
                    return v("prediction", format!("{}: example {}: tracked {:e}, model {:e}", what, i, a[i], b[i]));
                }
            }
            Ok(())
        };
        for (k, (_, p)) in rounds.iter().enumerate() {
            if p.len() != t.n { return v("prediction", format!("{} running predictions for {} examples", p.len(), t.n)); }
            let r = due[k / nm];
            if k % nm == 0 {
                // of a long training, some rounds
                if due.len() > 12 && k / nm != due.len() / 2 && r % 61 != 0 && ![1, 255, 256, 257, rounds_total].contains(&r) { continue; }
                let m = if r == rounds_total { fin.clone() } else { of_rounds(r)? };
                close(p, &m, format!("after round {}", r))?;
                probe("rounds_compared", 1);
                if conf.has("example_fraction") { probe("rounds_with_bags", 1); }
            } else {
                close(p, &rounds[k - 1].1, format!("second metric of round {}", r))?;
            }
        }
        // the finished ensemble has one tree per round: running predictions of the last round
        let mut cj = conf.clone();
        cj.set("metric_frequency", 1i64);
        let cfg1 = conf_of(&cj);
        let (all, fin1) = guard("training", || pool.install(|| {
            let d = rt::engine(|| data_of(&t, &cfg1)).expect("data");
            let tr = train(&cfg1, &d, &["m0"]);
            let f = rt::engine(|| tr.model.predict(&d));
            (tr.rounds, f)
        }))?;
        if all.len() != rounds_total { return v("trees", format!("{} rounds ran instead of {}", all.len(), rounds_total)); }
        if let Some((_, last)) = all.last() { close(last, &fin, "final model".into())?; }
        close(&fin1, &fin, "model trained with another metric frequency".into())?;
        if rounds_total == 0 {
            // nothing but the objective's bias: one value for everybody
            if fin.iter().any(|x| x.to_bits() != fin[0].to_bits()) { return v("trees", "a model of no rounds is not constant"); }
            probe("no_rounds", 1);
        }
        let moved = all.windows(2).filter(|w| w[0].1 != w[1].1).count();
        if moved > 0 || rounds_total == 1 { nontrivial(); }
        digest(hash_f32s(3, &fin));
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (25000, 45.0) } else { (800000, 1200.0) } }
    fn rule(&self) -> &'static str { "a run counts when a later round changed the running predictions; distinct by schedule trace and final predictions" }
    fn real(&self) -> Vec<&'static str> { REAL.to_vec() }
    fn stubs(&self) -> Vec<&'static str> { let mut s = STUBS.to_vec(); s.push("metrics (spies that record what they are given)"); s }
    fn probes(&self) -> &'static [&'static str] { &["rounds_compared", "rounds_with_bags", "no_rounds", "printed_values"] }
    fn keep(&self) -> &'static [&'static str] { &["discr_nbits", "mode"] }
}

// ---- C05 ----------------------------------------------------------------------------------------

pub struct C05;
impl Check for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> J {
        let objective = *r.pick(&OBJS);
        let class = matches!(objective, "binary" | "hinge");
        let n = match i % 8 { 0 => (1, 3), 1 | 2 => (1, 20), 3 => (700, if tier == Tier::Quick { 2500 } else { 8000 }), _ => (1, 400) };
        let mut data = gen_data(r, DataOpts { n, nf: (1, 6), class, degenerate: r.clone().chance(0.7), maxcard: 300 });
        if r.chance(0.1) { if let J::Obj(m) = &mut data { if let Some(J::Arr(f)) = m.get_mut("feats") { for x in f.iter_mut() { x.set("dist", if x.s("k") == "cat" { 3i64 } else { 4 }); } } } }
        let mut conf = gen_conf(r, &ConfOpts { iters: (0, 6), depth: (1, 7), sampling: 0.5 }, objective);
        if r.chance(0.2) && conf.has("example_fraction") { // a bag of one
            conf.set("example_fraction", J::Num(1.0 / data.us("n") as f64));
        }
        fix_bag(&mut conf, &data);
        if r.chance(0.2) { if objective != "hinge" { conf.set("learning_rate", J::Num(1.0)); } conf.set("min_gain", J::Num(0.0)); conf.set("niterations", 8i64); } // fit exactly
        if i % LONG_EVERY == 7 && data.us("n") <= 100 { make_long(r, &mut conf); }
        // limits that do not limit
        if r.chance(0.05) { conf.set("sample_freq", 0i64); }
        if r.chance(0.05) { conf.set("max_nbins", 0i64); }
        let mut s = gen_sched(r);
        s.set("p_spurious", J::Num(*r.pick(&[0.0, 0.1, 0.5])));
        s.set("threads", if r.chance(0.04) { *r.pick(&[12i64, 13, 16, 24, 33]) } else { *r.pick(&[0i64, 1, 2, 4, 8]) });
        s.set("jobs", *r.pick(&[1i64, 1, 2, 4]));
        obj! { "data" => data, "conf" => conf, "sched" => s, "gthreads" => r.range(1, 4) }
    }
    fn valid(&self, c: &J) -> bool { conf_valid(c.get("conf"), c.get("data")) && (1..=4).contains(&c.get("sched").i("jobs")) && c.get("sched").i("threads") >= 0 && c.i("gthreads") >= 1 }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let (t, held) = (table(c.get("data"), 0), table(c.get("data"), 1));
        let cfg = conf_of(c.get("conf"));
        std::env::set_var("RAYON_NUM_THREADS", c.i("gthreads").to_string());
        let s = c.get("sched");
        let mut sc = sched_cfg(s, plan.seed);
        sc.max_steps = 1_000_000_000;
        begin(plan, &sc);
        rt::stdout_mode(1);
        let outs = train_on(s.us("threads"), s.us("jobs"), &cfg, &t, &held)?;
        rt::pause();
        for o in &outs {
            if let Some(i) = o.train.iter().position(|x| !x.is_finite()) { return v("not-finite", format!("prediction of training example {} is {}", i, o.train[i])); }
            if let Some(i) = o.held.iter().position(|x| !x.is_finite()) { return v("not-finite", format!("prediction of held-out example {} is {}", i, o.held[i])); }
            for (r, p) in o.rounds.iter().enumerate() {
                if let Some(i) = p.iter().position(|x| !x.is_finite()) { return v("not-finite", format!("running prediction of example {} after round {} is {}", i, r + 1, p[i])); }
            }
            if o.train.len() != t.n || o.held.len() != held.n { return v("length", "wrong number of predictions"); }
            digest(o.hash());
        }
        rt::resume();
        if t.n == 1 { probe("one_example", 1); }
        if bag_size(c.get("conf"), t.n) == 1 { probe("bag_of_one", 1); }
        if t.target.iter().all(|x| *x == t.target[0]) { probe("constant_target", 1); if cfg.objective == "binary" { probe("single_class", 1); } }
        if cfg.min_examples_leaf == 0 { probe("no_minimum_leaf", 1); }
        if t.cols.iter().all(|c| c.values.iter().all(|x| *x == c.values[0])) { probe("all_columns_constant", 1); }
        if t.cols.iter().any(|c| c.cat && c.values.iter().cloned().fold(0.0, f32::max) as usize >= cfg.max_nbins) { probe("high_cardinality", 1); }
        if s.us("jobs") > 1 { probe("concurrent_callers", 1); }
        let st = rt::stats();
        probe("spurious_wakeups", st.fault_fired[rt::F_SPURIOUS]);
        if st.threads_started > 0 { nontrivial(); }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (20000, 45.0) } else { (800000, 1200.0) } }
    fn rule(&self) -> &'static str { "every finished run counts (completion is the property); distinct by schedule trace and predictions" }
    fn real(&self) -> Vec<&'static str> { REAL.to_vec() }
    fn stubs(&self) -> Vec<&'static str> { STUBS.to_vec() }
    fn probes(&self) -> &'static [&'static str] { &["one_example", "bag_of_one", "constant_target", "single_class", "no_minimum_leaf", "all_columns_constant", "high_cardinality", "concurrent_callers", "spurious_wakeups"] }
    fn keep(&self) -> &'static [&'static str] { &["discr_nbits", "mode"] }
}

//! C02, C03: the tree learner, observed through a spy objective. C15, C16: dataset histories.
use crate::json::J;
use crate::obj;
use crate::p_train::{REAL, STUBS};
use crate::rng::{mix, Rng};
use crate::rt;
use crate::sup::{begin, digest, guard, nontrivial, probe, v, Check, Plan, Res, Tier};
use crate::work::*;
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::{Tree, TreeLearner, TreeLearnerContext};

// ---- the spy ------------------------------------------------------------------------------------

struct Leaf { examples: Vec<usize>, before: Vec<f32>, value: f32 }
/// Forwards to a real objective, but labels every leaf with a number of its own, so that the finished
/// tree tells which leaf is where.
struct Spy { inner: Box<dyn Objective>, leaves: Vec<Leaf>, oob: Vec<(usize, f32)> }
impl Objective for Spy {
    fn name(&self) -> &'static str { self.inner.name() }
    fn gradients(&self) -> &[f32] { self.inner.gradients() }
    fn predictions(&self) -> &[f32] { self.inner.predictions() }
    fn bounds(&self) -> (f32, f32) { self.inner.bounds() }
    fn bias(&self) -> f32 { self.inner.bias() }
    fn initialize(&mut self, c: &Config, t: &[f32]) { self.inner.initialize(c, t) }
    fn update(&mut self, t: &[f32]) { self.inner.update(t) }
    fn predict_leaf_value(&mut self, targets: &[f32], examples: &[usize]) -> f32 {
        let before = rt::harness(|| examples.iter().map(|&i| self.inner.predictions().get(i).cloned().unwrap_or(f32::NAN)).collect());
        let value = self.inner.predict_leaf_value(targets, examples);
        rt::harness(|| self.leaves.push(Leaf { examples: examples.to_vec(), before, value }));
        self.leaves.len() as f32
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, id: f32) {
        let k = id as usize;
        let x = if k >= 1 && k <= self.leaves.len() { self.leaves[k - 1].value } else { 0.0 };
        rt::harness(|| self.oob.push((i, id)));
        self.inner.update_out_of_bag_prediction(i, x);
    }
}

type Bits = Vec<u64>;
fn bits(n: usize) -> Bits { vec![0; n / 64 + 1] }
fn on(b: &Bits, i: usize) -> bool { b[i / 64] >> (i % 64) & 1 == 1 }
fn put(b: &mut Bits, i: usize) { b[i / 64] |= 1 << (i % 64); }

struct Cand { feat: usize, split: usize, set: Bits }

/// what one round looked like to an outside observer
struct Round<'a> {
    cfg: &'a Config, conf: &'a J, t: &'a Table, held: &'a Table, data: &'a Data, hdata: &'a Data,
    ds: &'a Dataset<'a>, supercats: &'a Vec<Vec<u32>>, grads: &'a [f32], bounds: (f32, f32),
    preds: &'a [f32], bag: Vec<usize>, tree: &'a Tree, leaves: &'a [Leaf], oob: &'a [(usize, f32)], no: usize,
}

// ---- the objectives, recomputed -----------------------------------------------------------------

/// What the predictions a tree starts from say about gradients and leaf values.
struct Loss<'a> { objective: &'a str, cfg: &'a Config, target: &'a [f32], preds: &'a [f32], limits: (f64, f64) }
impl<'a> Loss<'a> {
    fn new(objective: &'a str, cfg: &'a Config, target: &'a [f32], preds: &'a [f32]) -> Loss<'a> {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for (t, p) in target.iter().zip(preds) { let r = (*t - *p) as f64; lo = lo.min(r); hi = hi.max(r); }
        Loss { objective, cfg, target, preds, limits: (lo, hi) }
    }
    /// width of a bin of the quantile sketch over the residuals, and a little more
    fn width(lim: (f64, f64)) -> f64 { (lim.1 - lim.0) / 1024.0 * 1.02 + 1e-5 * (lim.0.abs() + lim.1.abs()) }
    fn ranked(mut xs: Vec<f64>, q: f32) -> f64 {
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        xs[(((xs.len() as f32) * q).floor() as usize).min(xs.len() - 1)]
    }
    /// the value every example starts from
    fn bias_range(&self) -> (f64, f64) {
        let n = self.target.len() as f64;
        let t: Vec<f64> = self.target.iter().map(|&x| x as f64).collect();
        let big = t.iter().fold(0f64, |m, x| m.max(x.abs()));
        let pos = t.iter().filter(|x| **x >= 0.5).count() as f64;
        let (b, e) = match self.objective {
            "L2" => (t.iter().sum::<f64>() / n, (2e-7 * n + 1e-6) * big),
            "l1" | "huber" => {
                let lim = t.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |l, &x| (l.0.min(x), l.1.max(x)));
                (Self::ranked(t, 0.5), Self::width(lim))
            }
            "binary" => {
                let avg = ((2.0 * pos - n) / n).max(1.1920929e-7 - 1.0).min(1.0 - 1.1920929e-7);
                let b = 0.5 * ((1.0 + avg) / (1.0 - avg)).ln();
                (b, 1e-6 + 1e-6 * b.abs() + 2e-7 / (1.0 - avg.abs()))
            }
            _ => ((2.0 * pos - n) / n, 1e-6),
        };
        (b - e, b + e)
    }
    /// gradients and range reported by the objective
    fn check_gradients(&self, grads: &[f32], bounds: (f32, f32)) -> Result<(), String> {
        let n = self.target.len();
        if grads.len() != n { return Err(format!("{} gradients for {} examples", grads.len(), n)); }
        let (lo, hi) = (bounds.0 as f64, bounds.1 as f64);
        let (want, e) = match self.objective {
            "L2" => (self.limits.0.abs().min(self.limits.1.abs()), 1e-5 * (self.limits.0.abs() + self.limits.1.abs())),
            "huber" => {
                let q = Self::ranked(self.target.iter().zip(self.preds).map(|(t, p)| (*t - *p) as f64).collect(), self.cfg.huber_alpha);
                (q.abs(), Self::width(self.limits))
            }
            "binary" => (self.cfg.binary_gradient_bound as f64, 0.0),
            _ => (1.0, 0.0),
        };
        let top = if self.objective == "hinge" { 2.0 } else { hi };
        if !((-lo - want).abs() <= e && (if self.objective == "hinge" { hi == top } else { hi == -lo })) {
            return Err(format!("the range of the gradients is [{:e}, {:e}] instead of about {:e}", lo, hi, want));
        }
        let mut flipped = 0.0;
        for i in 0..n {
            let (t, p, g) = (self.target[i], self.preds[i], grads[i] as f64);
            let err = (t - p) as f64;
            let (want, e) = match self.objective {
                "L2" => (-err, 1e-6 * err.abs()),
                "l1" => { if err == 0.0 { continue; } (-err.signum(), 0.0) }
                "huber" => { // either sign: the splits are the same
                    let x = -err.signum() * err.abs().min(hi);
                    if flipped == 0.0 && x != 0.0 { flipped = if (g - x).abs() <= 1e-6 * x.abs() { 1.0 } else { -1.0 }; }
                    (if flipped < 0.0 { -x } else { x }, 1e-6 * x.abs() + 1e-12)
                }
                "binary" => {
                    let y = 2.0 * t as f64 - 1.0;
                    (-2.0 * y / (1.0 + (2.0 * y * p as f64).exp()), 4e-6 * (1.0 + 2.0 * p.abs() as f64))
                }
                _ => (if t < 0.5 { if p > -1.0 { 1.0 } else { 0.0 } } else if p < 1.0 { -1.0 } else { 0.0 }, 0.0),
            };
            if !((g - want).abs() <= e) {
                return Err(format!("the gradient of example {} is {:e} instead of {:e} (target {}, prediction {:e})", i, g, want, t, p));
            }
        }
        probe("gradients_recomputed", n as u64);
        Ok(())
    }
    /// Where the value of a leaf of these examples, without the learning rate, has to lie.
    /// `delta` is the clipping bound of the Huber loss, already checked.
    fn leaf_range(&self, examples: &[usize], delta: f64) -> (f64, f64) {
        let n = examples.len();
        let mut res: Vec<f64> = examples.iter().map(|&j| self.target[j] as f64 - self.preds[j] as f64).collect();
        let maxabs = res.iter().fold(0f64, |m, x| m.max(x.abs()));
        let eps = 1e-6 * (n as f64).sqrt() + 2e-7 * n as f64 + 4e-6;
        match self.objective {
            "L2" => { let m = res.iter().sum::<f64>() / n as f64; (m - eps * maxabs, m + eps * maxabs) }
            "l1" | "huber" => {
                res.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let rank = (((n as f32) * 0.5).floor() as usize).min(n - 1);
                let w = Self::width(self.limits);
                let m = res[rank];
                if self.objective == "l1" { (m - w, m + w) } else {
                    let f = |rm: f64| rm + res.iter().map(|e| { let d = e - rm; d.signum() * d.abs().min(delta) }).sum::<f64>() / n as f64;
                    let e = eps * (maxabs + delta) + 1e-6;
                    (f(m - w) - e, f(m + w) + e)
                }
            }
            "binary" => {
                let (mut num, mut den, mut abs) = (0.0f64, 1.1920929e-7, 0.0);
                let mut ge = 0.0; // error of the gradients themselves
                for &j in examples {
                    let (y, p) = (2.0 * self.target[j] as f64 - 1.0, self.preds[j] as f64);
                    let g = 2.0 * y / (1.0 + (2.0 * y * p).exp());
                    // relative error of exp is about its argument times half an ulp
                    ge += (g.abs() * (2.0 - g.abs()) / 2.0) * (2.0 * p.abs() * 1.2e-7 + 4e-7) + g.abs() * 4e-7;
                    num += g; abs += g.abs(); den += g.abs() * (2.0 - g.abs());
                }
                let r = (num / den).abs();
                let e = ((2e-7 * n as f64 * abs + 4e-6) + ge) / den + (2e-5 + 2e-7 * n as f64) * r + 2.0 * r * ge / den;
                (num / den - e, num / den + e)
            }
            _ => {
                let (mut s, mut a) = (0.0, 0.0);
                for &j in examples {
                    let (t, p) = (self.target[j], self.preds[j] as f64);
                    let x = if t < 0.5 { (2.0 + p).max(0.0) } else { (2.0 - p).max(0.0) };
                    a += x * x;
                    if t < 0.5 { s -= x * x } else { s += x * x }
                }
                let e = (eps + 1e-5) * a / n as f64 + 1e-6;
                (s / n as f64 - e, s / n as f64 + e)
            }
        }
    }
}

impl<'a> Round<'a> {
    fn goes_left(&self, c: &Cand, t: &Table, i: usize) -> bool {
        let x = t.cols[c.feat].values[i];
        match self.data.feat_type(c.feat) {
            FeatType::LoCardCat => x == c.split as f32,
            FeatType::HiCardCat => { let s = &self.supercats[c.feat]; (x as usize) < s.len() && s[x as usize] as usize <= c.split }
            FeatType::Numerical => x < self.ds.get_split_value(c.feat, c.split),
        }
    }
    fn candidates(&self) -> Vec<Cand> {
        let mut out = Vec::new();
        for &f in self.ds.active_features() {
            for k in 0..self.ds.get_nbins(f) {
                let bv = self.ds.get_bitvec(f, k);
                let mut set = bits(self.bag.len());
                for i in 0..self.bag.len() { if bv.get_bit(i) { put(&mut set, i); } }
                out.push(Cand { feat: f, split: k, set });
            }
        }
        out
    }
    /// discretised gradient of each bag position
    fn discr(&self) -> Vec<f64> {
        let (lo, hi) = self.bounds;
        let maxval = ((1u32 << self.cfg.discr_nbits) - 1) as f32;
        self.bag.iter().map(|&j| {
            if !(hi > lo) { return lo as f64; }
            let v = f32::min(hi, f32::max(lo, self.grads[j]));
            let q = (((v - lo) / (hi - lo)) * maxval).round() as u8;
            (q as f64) / (maxval as f64) * (hi as f64 - lo as f64) + lo as f64
        }).collect()
    }
    /// (leaf number by node, node sets) by walking the finished tree; None if it is not a tree of leaves
    fn shape(&self) -> Result<Vec<(usize, usize, usize)>, String> {
        // (node, depth, leaf label or 0)
        let md = self.tree.max_depth();
        let mut out = Vec::new();
        let mut stack = vec![(0usize, 0usize)];
        while let Some((node, depth)) = stack.pop() {
            let val = self.tree.node_value(node);
            let id = val as usize;
            if val != 0.0 {
                if val != id as f32 || id > self.leaves.len() { return Err(format!("node {} holds {} which no leaf call returned", node, val)); }
                out.push((node, depth, id));
            } else {
                if depth >= md { return Err(format!("node {} at the maximum depth has no value", node)); }
                out.push((node, depth, 0));
                stack.push((2 * node + 2, depth + 1));
                stack.push((2 * node + 1, depth + 1));
            }
        }
        Ok(out)
    }

    /// C03
    fn check_leaves(&self) -> Res {
        let tag = |s: String| format!("round {}: {}", self.no, s);
        let pos: std::collections::HashMap<usize, usize> = self.bag.iter().enumerate().map(|(i, &j)| (j, i)).collect();
        let mut owner = vec![0usize; self.bag.len()];
        for (l, leaf) in self.leaves.iter().enumerate() {
            for &j in &leaf.examples {
                match pos.get(&j) {
                    None => return v("leaf-sets", tag(format!("leaf {} contains example {} which is not in the bag", l, j))),
                    Some(&i) => {
                        if owner[i] != 0 { return v("leaf-sets", tag(format!("example {} is in two leaves", j))); }
                        owner[i] = l + 1;
                    }
                }
            }
        }
        if let Some(i) = owner.iter().position(|&o| o == 0) { return v("leaf-sets", tag(format!("example {} is in no leaf", self.bag[i]))); }
        let shape = match self.shape() { Ok(s) => s, Err(e) => return v("tree-shape", tag(e)) };
        let mut seen = vec![0; self.leaves.len() + 1];
        for s in &shape { seen[s.2] += 1; }
        if let Some(l) = (1..seen.len()).find(|&l| seen[l] != 1) { return v("tree-shape", tag(format!("leaf {} occurs {} times in the tree", l - 1, seen[l]))); }
        if self.tree.nleafs() != self.leaves.len() { return v("tree-shape", tag(format!("the tree reports {} leaves, {} were valued", self.tree.nleafs(), self.leaves.len()))); }
        for (i, &j) in self.bag.iter().enumerate() {
            let id = self.tree.predict_single(self.data, j);
            if id != owner[i] as f32 { return v("routing", tag(format!("example {} was valued in leaf {} but the tree sends it to leaf {}", j, owner[i] - 1, id - 1.0))); }
        }
        for &(j, id) in self.oob { // an out-of-bag example is updated with the leaf the tree gives it
            if pos.contains_key(&j) || id != self.tree.predict_single(self.data, j) { return v("routing", tag(format!("out-of-bag update of example {} with leaf {}", j, id))); }
        }
        let lr = self.cfg.learning_rate as f64;
        let loss = Loss::new(self.conf.s("objective"), self.cfg, &self.t.target, self.preds);
        if self.no == 1 {
            let (lo, hi) = loss.bias_range();
            if let Some(i) = self.preds.iter().position(|&p| p != self.preds[0] || !(p as f64 >= lo && p as f64 <= hi)) {
                return v("bias", tag(format!("example {} starts from {:e}, outside [{:e}, {:e}]", i, self.preds[i], lo, hi)));
            }
        }
        if let Err(e) = loss.check_gradients(self.grads, self.bounds) { return v("gradients", tag(e)); }
        for (l, leaf) in self.leaves.iter().enumerate() {
            let n = leaf.examples.len();
            if n == 0 { return v("leaf-sets", tag(format!("leaf {} is empty", l))); }
            if let Some(k) = (0..n).find(|&k| leaf.before[k].to_bits() != self.preds[leaf.examples[k]].to_bits()) {
                return v("leaf-value", tag(format!("the prediction of example {} was {:e} before the tree and {:e} when leaf {} was valued", leaf.examples[k], self.preds[leaf.examples[k]], leaf.before[k], l)));
            }
            let (lo, hi) = loss.leaf_range(&leaf.examples, self.bounds.1 as f64);
            let val = leaf.value as f64 / lr;
            let slack = 1e-6 * val.abs() + 1e-9;
            if !(val >= lo - slack && val <= hi + slack) {
                return v("leaf-value", tag(format!("leaf {} of {} examples has value {:e} / {}, outside [{:e}, {:e}]", l, n, leaf.value, lr, lo, hi)));
            }
            probe("leaf_values", 1);
        }
        Ok(())
    }

    /// C02
    fn check_splits(&self) -> Res {
        let tag = |s: String| format!("round {}: {}", self.no, s);
        let pos: std::collections::HashMap<usize, usize> = self.bag.iter().enumerate().map(|(i, &j)| (j, i)).collect();
        let shape = match self.shape() { Ok(s) => s, Err(e) => return v("tree-shape", tag(e)) };
        let nb = self.bag.len();
        let mut sets: std::collections::HashMap<usize, Bits> = Default::default();
        for &(node, depth, id) in &shape {
            if depth > self.cfg.max_tree_depth { return v("depth", tag(format!("leaf at depth {}", depth))); }
            if id == 0 { continue; }
            let mut s = bits(nb);
            for j in &self.leaves[id - 1].examples { if let Some(&i) = pos.get(j) { put(&mut s, i); } }
            let mut m = node;
            loop {
                let e = sets.entry(m).or_insert_with(|| bits(nb));
                for (a, b) in e.iter_mut().zip(&s) { *a |= *b; }
                if m == 0 { break; }
                m = (m - 1) / 2;
            }
        }
        let cands = self.candidates();
        let g = self.discr();
        let lambda = self.cfg.reg_lambda as f64;
        let minc = self.cfg.min_examples_leaf.max(1) as usize;
        let range = (self.bounds.1 as f64 - self.bounds.0 as f64).abs().max(self.bounds.0.abs() as f64).max(self.bounds.1.abs() as f64);
        let maxval = ((1u32 << self.cfg.discr_nbits) - 1) as f32;
        let (lo, hi) = self.bounds;
        // sums of whole numbers are exact in any order
        let whole = nb < 100_000 && lo.fract() == 0.0 && hi.fract() == 0.0 && lo.abs() < 4.0 && hi.abs() < 4.0 && (lo == hi || (hi - lo) % maxval == 0.0);
        let err_g = if whole { 0.0 } else { 1.5e-6 * nb as f64 * range };
        let sums = |s: &Bits| { let (mut gs, mut c) = (0.0, 0usize); for i in 0..nb { if on(s, i) { gs += g[i]; c += 1; } } (gs, c) };
        let loss = |gs: f64, c: usize| -0.5 * gs * gs / (c as f64 + lambda);
        let lerr = |gs: f64, c: usize| { let w = c as f64 + lambda; (gs.abs() * err_g + 0.5 * err_g * err_g) / w + 2e-6 * (0.5 * gs * gs / w) };
        // every node's own sums, and per node the matching candidates
        let mut matching: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        for &(node, depth, id) in &shape {
            let s = &sets[&node];
            let (pg, pc) = sums(s);
            let ploss = loss(pg, pc);
            let mut best: Option<(f64, f64, usize)> = None; // gain, tolerance, candidate
            let mut used: Option<(f64, f64, usize, usize)> = None;
            let mut nothing = false; // the split used gains exactly nothing
            let left = sets.get(&(2 * node + 1));
            for (ci, c) in cands.iter().enumerate() {
                let (mut lg, mut lc) = (0.0, 0usize);
                for w in 0..s.len() {
                    let mut x = s[w] & c.set[w];
                    while x != 0 { let i = w * 64 + x.trailing_zeros() as usize; x &= x - 1; lg += g[i]; lc += 1; }
                }
                let (rg, rc) = (pg - lg, pc - lc);
                let same = id == 0 && left.map_or(false, |l| (0..s.len()).all(|w| l[w] == s[w] & c.set[w]));
                if same { matching.entry(node).or_default().push(ci); }
                if lc == 0 || rc == 0 || lc < minc || rc < minc {
                    if same && used.is_none() { used = Some((f64::NEG_INFINITY, 0.0, ci, lc.min(rc))); }
                    continue;
                }
                let gain = ploss - loss(lg, lc) - loss(rg, rc);
                let tol = lerr(pg, pc) + lerr(lg, lc) + lerr(rg, rc) + 1e-9;
                if same { used = Some((gain, tol, ci, lc.min(rc))); nothing = whole && pg == 0.0 && lg == 0.0 && rg == 0.0; }
                if best.map_or(true, |b| gain > b.0) { best = Some((gain, tol, ci)); }
            }
            let name = |ci: usize| format!("feature {} split {}", cands[ci].feat, cands[ci].split);
            if id == 0 {
                match used {
                    None => return v("not-a-candidate", tag(format!("node {} ({} examples) is split in a way no active candidate does", node, pc))),
                    Some((ga, tol, ci, small)) => {
                        if small < minc || small == 0 { return v("inadmissible", tag(format!("node {} is split by {} leaving {} examples on a side (minimum {})", node, name(ci), small, minc))); }
                        if ga < self.cfg.min_gain as f64 - tol { return v("below-min-gain", tag(format!("node {} is split by {} with gain {:e}, minimum {:e}", node, name(ci), ga, self.cfg.min_gain))); }
                        if nothing && self.cfg.min_gain >= 0.0 { return v("below-min-gain", tag(format!("node {} is split by {} although all gradient sums are zero, minimum gain {:e}", node, name(ci), self.cfg.min_gain))); }
                        let b = best.unwrap();
                        if b.0 - b.1 > ga + tol { return v("not-best", tag(format!("node {} is split by {} with gain {:e}; {} has {:e} (tolerances {:e} {:e})", node, name(ci), ga, name(b.2), b.0, tol, b.1))); }
                        probe("splits_checked", 1);
                        if b.0 > ga + 1e-9 { probe("ties_within_tolerance", 1); }
                    }
                }
            } else if depth < self.cfg.max_tree_depth {
                if whole && pg == 0.0 && self.cfg.min_gain == 0.0 && best.map_or(false, |b| b.0 == 0.0) { probe("worthless_splits_refused", 1); }
                if let Some((ga, tol, ci)) = best {
                    if ga - tol > self.cfg.min_gain as f64 { return v("missed", tag(format!("node {} at depth {} stays a leaf although {} has gain {:e} (tolerance {:e})", node, depth, name(ci), ga, tol))); }
                }
                probe("early_leaves_checked", 1);
            }
        }
        // examples outside the bag follow a candidate that matches the node
        let inbag: std::collections::HashSet<usize> = self.bag.iter().cloned().collect();
        let node_of: std::collections::HashMap<usize, usize> = shape.iter().filter(|s| s.2 != 0).map(|s| (s.2, s.0)).collect();
        for (t, d, own) in [(self.t, self.data, true), (self.held, self.hdata, false)] {
            for i in 0..t.n {
                if own && inbag.contains(&i) { continue; }
                let id = self.tree.predict_single(d, i) as usize;
                let mut node = match node_of.get(&id) { Some(n) => *n, None => return v("routing", tag(format!("outside example {} reaches no leaf", i))) };
                while node != 0 {
                    let parent = (node - 1) / 2;
                    let went_left = node == 2 * parent + 1;
                    let ok = matching.get(&parent).map_or(false, |cs| cs.iter().any(|&c| self.goes_left(&cands[c], t, i) == went_left));
                    if !ok { return v("routing", tag(format!("{} example {} goes {} at node {}, which no candidate matching the split does", if own { "out-of-bag" } else { "held-out" }, i, if went_left { "left" } else { "right" }, parent))); }
                    node = parent;
                }
                probe("outside_examples_routed", 1);
            }
        }
        Ok(())
    }
}

fn boosting(plan: &Plan, f: &(dyn Fn(&Round) -> Res + Sync)) -> Res {
    let c = &plan.case;
    let conf = c.get("conf");
    let (t, held) = (table(c.get("data"), 0), table(c.get("data"), 1));
    let cfg = conf_of(conf);
    let s = c.get("sched");
    begin(plan, &sched_cfg(s, plan.seed));
    rt::stdout_mode(1);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(s.us("threads").max(1)).build().expect("pool");
    guard("training", || pool.install(|| -> Res {
        let (data, hdata) = rt::engine(|| (data_of(&t, &cfg).expect("data"), data_of(&held, &cfg).expect("data")));
        let target: &[f32] = &t.target;
        let mut spy = Spy { inner: objective_from_name(&cfg.objective).unwrap(), leaves: vec![], oob: vec![] };
        let (mut ctx, mut ds) = rt::engine(|| { spy.initialize(&cfg, target); (TreeLearnerContext::new(&cfg, &data), Dataset::new(&cfg, &data)) });
        let mut h = 0;
        for no in 1..=conf.us("niterations").max(1) {
            spy.leaves.clear();
            spy.oob.clear();
            rt::engine(|| { spy.update(target); ds.update(&cfg, spy.inner.gradients(), spy.inner.bounds()); });
            let (grads, bounds, preds) = rt::harness(|| (spy.inner.gradients().to_vec(), spy.inner.bounds(), spy.inner.predictions().to_vec()));
            let supercats = ds.get_supercats().clone();
            let tree = rt::engine(|| TreeLearner::new(&mut ctx, &ds, supercats.clone(), &mut spy).train());
            rt::harness(|| -> Res {
                let mut bag = Vec::new();
                ds.active_examples_iter(|_, j| bag.push(j));
                let r = Round { cfg: &cfg, conf, t: &t, held: &held, data: &data, hdata: &hdata, ds: &ds, supercats: &supercats, grads: &grads,
                    bounds, preds: &preds, bag, tree: &tree, leaves: &spy.leaves, oob: &spy.oob, no };
                if spy.leaves.len() > 1 { nontrivial(); }
                if spy.leaves.len() > 20 { probe("trees_of_20_leaves", 1); }
                if conf.has("example_fraction") { probe("trees_on_bags", 1); }
                for l in &spy.leaves { h = hash_f32s(h, &[l.value]); }
                f(&r)
            })?;
        }
        digest(h);
        Ok(())
    }))?
}

/// An objective on its own, through rounds whose leaves are any sets of examples: states that few trees
/// lead to, such as a round that leaves the largest residuals as they are.
fn objective_history(plan: &Plan) -> Res {
    let c = &plan.case;
    let conf = c.get("conf");
    let t = table(c.get("data"), 0);
    let cfg = conf_of(conf);
    begin(plan, &sched_cfg(c.get("sched"), plan.seed));
    rt::stdout_mode(1);
    guard("training", || -> Res {
        let n = t.n;
        let target: &[f32] = &t.target;
        let mut o = objective_from_name(&cfg.objective).unwrap();
        rt::engine(|| o.initialize(&cfg, target));
        let lr = cfg.learning_rate as f64;
        let mut h = 0;
        for (no, part) in c.a("parts").iter().enumerate() {
            rt::engine(|| o.update(target));
            let (grads, bounds, before) = rt::harness(|| (o.gradients().to_vec(), o.bounds(), o.predictions().to_vec()));
            if before.iter().any(|p| p.abs() > 1e5) { break; }
            let tag = |s: String| format!("round {} (no trees): {}", no + 1, s);
            let loss = Loss::new(conf.s("objective"), &cfg, target, &before);
            if no == 0 {
                let (lo, hi) = loss.bias_range();
                if let Some(i) = before.iter().position(|&p| !(p as f64 >= lo && p as f64 <= hi)) {
                    return v("bias", tag(format!("example {} starts from {:e}, outside [{:e}, {:e}]", i, before[i], lo, hi)));
                }
            }
            if let Err(e) = loss.check_gradients(&grads, bounds) { return v("gradients", tag(e)); }
            // leaf 0 is out of the bag
            let (k, seed) = (part.us("leaves").max(1), part.i("seed") as u64);
            let u = |i: usize| mix(seed ^ mix(i as u64 + 1));
            let mut leaf_of: Vec<usize> = (0..n).map(|i| match part.i("kind") {
                0 => 1 + u(i) as usize % k,
                1 => u(i) as usize % (k + 1),
                2 => 1 + i * k / n,
                3 => if u(i) % 64 == 0 { 1 + u(i) as usize / 64 % k } else { 0 },
                _ => 1,
            }).collect();
            if part.i("kind") >= 4 { // the extreme residuals stay as they are
                for i in 0..n {
                    let r = (target[i] - before[i]) as f64;
                    leaf_of[i] = if r <= loss.limits.0 || r >= loss.limits.1 || (part.i("kind") == 5 && u(i) % 8 == 0) { 0 } else { 1 + u(i) as usize % k };
                }
                probe("extremes_kept", 1);
            }
            let mut want = before.clone();
            for l in 1..=k {
                let ex: Vec<usize> = (0..n).filter(|&i| leaf_of[i] == l).collect();
                if ex.is_empty() { continue; }
                let value = rt::engine(|| o.predict_leaf_value(target, &ex));
                let (lo, hi) = loss.leaf_range(&ex, bounds.1 as f64);
                let val = value as f64 / lr;
                let slack = 1e-6 * val.abs() + 1e-9;
                if !(val >= lo - slack && val <= hi + slack) {
                    return v("leaf-value", tag(format!("a leaf of {} examples has value {:e} / {}, outside [{:e}, {:e}]", ex.len(), value, lr, lo, hi)));
                }
                probe("leaf_values", 1);
                for &i in &ex { want[i] += value; }
                h = hash_f32s(h, &[value]);
            }
            let away = if part.i("kind") >= 4 { 0.0 } else { (u(n + 7) % 200) as f32 / 100.0 - 1.0 };
            for i in (0..n).filter(|&i| leaf_of[i] == 0) {
                let x = if u(i) % 3 == 0 { 0.0 } else { away };
                rt::engine(|| o.update_out_of_bag_prediction(i, x));
                want[i] += x;
            }
            if let Some(i) = (0..n).find(|&i| (o.predictions()[i] - want[i]).abs() > 1e-6 * want[i].abs() + 1e-9) {
                return v("predictions", tag(format!("example {} went from {:e} to {:e} instead of {:e}", i, before[i], o.predictions()[i], want[i])));
            }
            if n > 1 { nontrivial(); }
            probe("objective_rounds", 1);
        }
        digest(h);
        Ok(())
    })?
}

/// now and then a table of more examples than 16 bits count
pub const HUGE: (i64, i64) = (60000, 150000);
pub const HUGE_EVERY: u64 = 200;

fn gen_learn(r: &mut Rng, i: u64, tier: Tier, objs: &[&str]) -> J {
    let objective = *r.pick(objs);
    let class = matches!(objective, "binary" | "hinge");
    let big = i % 6 == 5;
    let huge = i % HUGE_EVERY == HUGE_EVERY / 2;
    let n = if huge { HUGE } else if big { (500, if tier == Tier::Quick { 3000 } else { 8000 }) } else { (2, 500) };
    let mut data = gen_data(r, DataOpts { n, nf: (1, if huge { 2 } else { 6 }), class, degenerate: r.clone().chance(0.1), maxcard: 60 });
    let mut conf = gen_conf(r, &ConfOpts { iters: (1, if huge { 2 } else { 4 }), depth: (1, if huge { 3 } else { 6 }), sampling: 0.5 }, objective);
    if !huge && r.chance(0.02) { // histograms of a round number of groups altogether
        let nf = 1i64 << r.range(0, 4);
        let total = *r.pick(&[256i64, 512, 1024, 1024, 1024, 2048]);
        if r.chance(0.5) {
            let nf = 8i64 << r.range(1, 4);
            let card = (total / nf).max(2);
            let feats: Vec<J> = (0..nf).map(|_| obj! { "k" => "cat", "card" => card, "dist" => 0, "fseed" => r.next() & 0xffffff }).collect();
            data.set("feats", J::Arr(feats));
            data.set("n", data.i("n").max(card * 8));
            let mut t = data.get("target").clone();
            t.set("tail", 1i64);
            data.set("target", t);
            conf.set("max_nbins", card.max(conf.i("max_nbins")));
            conf.del("feature_fraction");
        } else {
        let feats: Vec<J> = (0..nf).map(|_| obj! { "k" => "num", "card" => r.range(2, 40), "dist" => *r.pick(&[0i64, 0, 1, 3, 5, 8, 9]), "fseed" => r.next() & 0xffffff }).collect();
        data.set("feats", J::Arr(feats));
        conf.set("max_nbins", (total / nf).min(512));
        }
    }
    fix_bag(&mut conf, &data);
    let mut s = gen_sched(r);
    s.set("threads", *r.pick(&[1i64, 1, 2, 3, 4]));
    if huge { s.set("p_mem", 0.0); }
    obj! { "data" => data, "conf" => conf, "sched" => s }
}

macro_rules! learn_check {
    ($name:ident, $id:expr, $method:ident, $rule:expr, $objs:expr, $probes:expr) => {
        pub struct $name;
        impl Check for $name {
            fn id(&self) -> &'static str { $id }
            fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> J {
                let mut c = gen_learn(r, i, tier, $objs);
                if $id == "C03" && i % HUGE_EVERY != HUGE_EVERY / 2 && r.chance(0.12) { // no trees: leaves of any examples
                    let parts: Vec<J> = (0..r.range(1, 8)).map(|_| obj! { "kind" => r.range(0, 5), "leaves" => r.range(1, 12), "seed" => r.next() & 0xffffff }).collect();
                    c.set("parts", J::Arr(parts));
                }
                c
            }
            fn valid(&self, c: &J) -> bool { conf_valid(c.get("conf"), c.get("data")) }
            fn exec(&self, plan: &Plan) -> Res { if plan.case.has("parts") { objective_history(plan) } else { boosting(plan, &|r: &Round| r.$method()) } }
            fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (30000, 40.0) } else { (600000, 1200.0) } }
            fn rule(&self) -> &'static str { $rule }
            fn real(&self) -> Vec<&'static str> { REAL.to_vec() }
            fn stubs(&self) -> Vec<&'static str> { let mut s = STUBS.to_vec(); s.push("objective wrapped by a spy that forwards to the real one"); s }
            fn probes(&self) -> &'static [&'static str] { $probes }
            fn keep(&self) -> &'static [&'static str] { &["discr_nbits", "mode"] }
        }
    };
}
learn_check!(C02, "C02", check_splits, "a run counts when some tree has at least two leaves; distinct by schedule trace and leaf values", &OBJS,
    &["splits_checked", "early_leaves_checked", "worthless_splits_refused", "ties_within_tolerance", "outside_examples_routed", "trees_of_20_leaves", "trees_on_bags", "leaf_values"]);
learn_check!(C03, "C03", check_leaves, "a run counts when some tree has at least two leaves; distinct by schedule trace and leaf values", &["L2", "l1", "huber", "binary", "hinge"],
    &["leaf_values", "trees_of_20_leaves", "trees_on_bags", "gradients_recomputed", "objective_rounds", "extremes_kept"]);

// ---- C15 / C16: histories of dataset updates ----------------------------------------------------

fn gradients(seed: u64, kind: i64, n: usize) -> (Vec<f32>, (f32, f32)) {
    let u = |i: usize| (mix(seed ^ mix(i as u64)) >> 11) as f64 / 9007199254740992.0;
    match kind {
        0 => ((0..n).map(|i| (u(i) * 2.0 - 1.0) as f32).collect(), (-1.0, 1.0)),
        1 => ((0..n).map(|i| if u(i) < 0.5 { -1.0 } else { 1.0 }).collect(), (-1.0, 1.0)),
        2 => ((0..n).map(|i| ((u(i) * 5.0).floor() - 2.0) as f32).collect(), (-1.5, 1.5)),
        3 => (vec![0.0; n], (0.0, 0.0)),
        4 => ((0..n).map(|i| (u(i) * u(i) * 40.0 - 3.0) as f32).collect(), (-3.0, 3.0)),
        _ => ((0..n).map(|i| (u(i) * 1e-3) as f32).collect(), (-1e-3, 1e-3)),
    }
}

pub struct C15;
impl C15 {
    /// (features, examples) after each update
    fn samples(&self, cfg: &Config, t: &Table, gseed: u64, rounds: usize) -> Result<Vec<(Vec<usize>, Vec<usize>, Vec<usize>, bool)>, crate::sup::V> {
        guard("dataset", || {
            let d = rt::engine(|| data_of(t, cfg)).expect("data");
            let mut ds = rt::engine(|| Dataset::new(cfg, &d));
            (0..rounds).map(|r| {
                let (g, b) = rt::harness(|| gradients(mix(gseed ^ r as u64), (gseed % 6) as i64, t.n));
                rt::engine(|| ds.update(cfg, &g, b));
                rt::harness(|| {
                    let mut ex = Vec::new();
                    let mut order = true;
                    ds.active_examples_iter(|i, j| { if i != ex.len() { order = false; } ex.push(j); });
                    if !order { ex.clear(); }
                    if ds.nactive_examples() != ex.len() || ds.nactive_features() != ds.active_features().len() { ex.clear(); }
                    let on = ds.example_sampling_enabled();
                    if on { for (i, &j) in ex.iter().enumerate() { if ds.map_index(i) != j { ex.clear(); break; } } }
                    let out = if on { ds.inactive_examples_iter().collect() } else { vec![] };
                    (ds.active_features().to_vec(), ex, out, on)
                })
            }).collect()
        })
    }
}
impl Check for C15 {
    fn id(&self) -> &'static str { "C15" }
    fn gen(&self, r: &mut Rng, i: u64, _tier: Tier) -> J {
        let long = i % 8 == 7;
        let huge = i % HUGE_EVERY == HUGE_EVERY / 2;
        let n = if long { (64, 200) } else if huge { HUGE } else { (1, 400) };
        let mut data = gen_data(r, DataOpts { n, nf: (1, if long { 9 } else if huge { 2 } else { 12 }), class: false, degenerate: r.clone().chance(0.4), maxcard: 40 });
        data.get("feats");
        let mut conf = gen_conf(r, &ConfOpts { iters: (1, 1), depth: (1, 1), sampling: 0.0 }, "L2");
        if long || r.chance(0.8) { conf.set("example_fraction", J::Num(*r.pick(&[0.2, 0.25, 0.5, 0.5, 0.7, 0.75, 0.8]))); }
        else if r.chance(0.3) { conf.set("example_fraction", J::Num(*r.pick(&[0.01, 0.99, 1.0, 0.999]))); }
        if long || r.chance(0.7) { conf.set("feature_fraction", J::Num(*r.pick(&[0.2, 0.3, 0.5, 0.5, 0.75, 0.8]))); }
        conf.set("sample_freq", if long { 1i64 } else { r.range(1, 5) });
        // any seed; another one differs by one or in a single bit
        conf.set("random_seed", (r.next() >> 1) >> *r.pick(&[0, 0, 20, 31, 55]));
        let flip = if r.chance(0.3) { -1 } else { r.range(0, 62) };
        fix_bag(&mut conf, &data);
        obj! { "data" => data, "conf" => conf, "rounds" => if long { 240 } else { r.range(1, 14) }, "gseed" => r.next() & 0xffff, "flip" => flip, "sched" => gen_sched(r) }
    }
    fn valid(&self, c: &J) -> bool { conf_valid(c.get("conf"), c.get("data")) && c.i("rounds") >= 1 && c.get("conf").i("sample_freq") >= 1 }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let conf = c.get("conf");
        let t = table(c.get("data"), 0);
        let cfg = conf_of(conf);
        let (n, rounds, freq) = (t.n, c.us("rounds"), conf.us("sample_freq"));
        begin(plan, &sched_cfg(c.get("sched"), plan.seed));
        rt::stdout_mode(1);
        let a = self.samples(&cfg, &t, c.i("gseed") as u64, rounds)?;
        let useful: Vec<usize> = (0..t.cols.len()).filter(|&j| t.cols[j].values.iter().any(|x| *x != t.cols[j].values[0])).collect();
        let ef = if conf.has("example_fraction") { conf.f("example_fraction") } else { 1.0 };
        let ff = if conf.has("feature_fraction") { conf.f("feature_fraction") } else { 1.0 };
        // a fraction that an f32 holds exactly leaves no doubt about halves: they round up
        let near = |k: usize, count: usize, frac: f64| {
            let x = count as f64 * frac;
            if (frac as f32) as f64 == frac && count < 1 << 12 { k as f64 == x.round() } else { (k as f64 - x).abs() <= 0.5 + 1e-4 }
        };
        if (useful.len() as f64 * ff).fract() == 0.5 { probe("half_a_feature", 1); }
        if (n as f64 * ef).fract() == 0.5 { probe("half_an_example", 1); }
        let increasing = |x: &[usize]| x.windows(2).all(|w| w[0] < w[1]);
        for (r, (fs, ex, out, on)) in a.iter().enumerate() {
            let w = |s: String| format!("update {}: {}", r + 1, s);
            if !near(ex.len(), n, ef) { return v("bag-size", w(format!("{} examples in the bag for {} * {}", ex.len(), n, ef))); }
            if !increasing(ex) || ex.last().map_or(false, |&x| x >= n) { return v("bag-members", w("the bag is not an increasing list of examples".into())); }
            if !near(fs.len(), useful.len(), ff) { return v("feature-count", w(format!("{} active features for {} * {}", fs.len(), useful.len(), ff))); }
            if !increasing(fs) || fs.iter().any(|f| !useful.contains(f)) { return v("feature-members", w(format!("active features {:?} of the useful {:?}", fs, useful))); }
            if *on != (ef < 1.0) { return v("sampling", w(format!("example sampling enabled: {} with fraction {}", on, ef))); }
            if *on {
                let mut b = vec![0; n];
                for &e in ex.iter().chain(out) { if e >= n { return v("bag-members", w(format!("out-of-bag example {}", e))); } b[e] += 1; }
                if let Some(e) = b.iter().position(|&x| x != 1) { return v("complement", w(format!("example {} is reported {} times", e, b[e]))); }
                if !increasing(out) { return v("complement", w("out-of-bag examples not increasing".into())); }
            } else if ex.len() != n { return v("bag-size", w("not all examples are used".into())); }
            let no = r + 1;
            if r > 0 && no % freq != 0 && (*fs != a[r - 1].0 || *ex != a[r - 1].1) { return v("cadence", w(format!("the sample changed although {} is no multiple of {}", no, freq))); }
            if r > 0 && no % freq == 0 && n >= 64 && (0.19..=0.81).contains(&ef) {
                if *ex == a[r - 1].1 { return v("cadence", w("the bag was not redrawn".into())); }
                probe("redraws", 1);
            }
        }
        // only the seed matters: other gradients, memory, entropy, clock
        rt::heap_reseed(mix(plan.seed ^ 3));
        rt::reseed_entropy(mix(plan.seed ^ 4));
        let b = self.samples(&cfg, &t, mix(c.i("gseed") as u64) & 0xffff, rounds)?;
        if let Some(r) = (0..rounds).find(|&r| a[r] != b[r]) { return v("seed", format!("update {}: the same seed gave another sample", r + 1)); }
        let sampled = (0.19..=0.81).contains(&ef) && n >= 64;
        if sampled {
            let mut cj = conf.clone();
            let (s0, flip) = (conf.i("random_seed"), c.i("flip"));
            let s1 = if (0..=62).contains(&flip) { s0 ^ (1 << flip) } else { s0.saturating_add(1) };
            cj.set("random_seed", s1);
            let b = self.samples(&conf_of(&cj), &t, c.i("gseed") as u64, 1)?;
            if s0 != s1 && a[0].1 == b[0].1 { return v("seed", format!("seeds {} and {} gave the same bag", s0, s1)); }
        }
        if rounds >= 200 && freq == 1 {
            // every example and useful feature at about the frequency asked for (8 sigma)
            let even = |what: &str, ids: &[usize], p: f64, f: &dyn Fn(usize) -> usize| -> Res {
                let sd = (rounds as f64 * p * (1.0 - p)).sqrt();
                for &e in ids {
                    let k = f(e);
                    if k == 0 || k == rounds || (k as f64 - rounds as f64 * p).abs() > 8.0 * sd + 1.0 {
                        return v("coverage", format!("{} {} was used in {} of {} rounds, expected about {:.0}", what, e, k, rounds, rounds as f64 * p));
                    }
                }
                Ok(())
            };
            if sampled {
                let p = a[0].1.len() as f64 / n as f64;
                let mut cnt = vec![0usize; n];
                for x in &a { for &e in &x.1 { cnt[e] += 1; } }
                even("example", &(0..n).collect::<Vec<_>>(), p, &|e| cnt[e])?;
                probe("coverage_checks", 1);
            }
            let k = a[0].0.len();
            let p = k as f64 / useful.len().max(1) as f64;
            if k > 0 && k < useful.len() && p >= 0.1 && p <= 0.9 {
                even("feature", &useful, p, &|f| a.iter().filter(|x| x.0.contains(&f)).count())?;
                probe("coverage_checks", 1);
            }
        }
        if ef < 1.0 || ff < 1.0 { nontrivial(); }
        let mut h = 5;
        for x in &a { for e in x.0.iter().chain(&x.1) { h = mix(h ^ *e as u64); } }
        digest(h);
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (20000, 30.0) } else { (600000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when examples or features are sampled; distinct by trace and by the sequence of samples" }
    fn real(&self) -> Vec<&'static str> { vec!["Data", "Dataset (sampling, split candidates)", "Binner", "BitBlockStore"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["gradients (generated histories)", "clock", "getrandom", "heap", "stdout"] }
    fn probes(&self) -> &'static [&'static str] { &["redraws", "coverage_checks", "half_a_feature", "half_an_example"] }
    fn keep(&self) -> &'static [&'static str] { &["discr_nbits", "mode"] }
    fn cpu_limit(&self) -> u64 { 60 }
}

/// Candidates divide weighted values into `parts` + 1 parts of about the same weight, as exactly as a sketch
/// with bins of width `bin` can: at every multiple of a part's weight there is a candidate, and there is none
/// elsewhere. Candidate k lies between below[k] and above[k]. `count`: the weights are counts, ranks whole.
fn even_parts(below: &[f64], above: &[f64], mut xs: Vec<(f64, f64)>, parts: usize, bin: f64, fuzz: f64, count: bool) -> Result<(), String> {
    xs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut cum = vec![0.0];
    for x in &xs { cum.push(cum[cum.len() - 1] + x.1); }
    let total = cum[xs.len()];
    let slack = if count { 1.01 } else { total * (2e-5 + 1.3e-7 * xs.len() as f64) };
    // the last bin has no upper end of its own: its candidate is its lower end
    let up = 2.02 * bin + fuzz;
    let most = |k: usize| cum[xs.partition_point(|x| x.0 <= above[k] + up)] + slack;
    let least = |k: usize| cum[xs.partition_point(|x| x.0 < below[k] - up)] - slack;
    let range: Vec<(f64, f64)> = (0..below.len()).map(|k| (least(k), most(k))).collect();
    let step = total / (parts + 1) as f64;
    let mut hit = vec![false; below.len()];
    let mut k = 0;
    for i in 1..=parts {
        let t = i as f64 * step;
        while k < range.len() && range[k].1 < t { k += 1; }
        let mut j = k;
        let mut found = false;
        while j < range.len() && range[j].0 <= t { found = true; hit[j] = true; j += 1; }
        if !found { return Err(format!("no candidate at {}/{} of the weight {:e} ({} candidates)", i, parts + 1, total, below.len())); }
    }
    if let Some(k) = hit.iter().position(|h| !h) { return Err(format!("candidate {} is at {:e} to {:e} of the weight {:e}, no multiple of 1/{}", k, range[k].0, range[k].1, total, parts + 1)); }
    probe("candidates_at_even_parts", below.len() as u64);
    Ok(())
}

pub struct C16;
impl Check for C16 {
    fn id(&self) -> &'static str { "C16" }
    fn gen(&self, r: &mut Rng, i: u64, _tier: Tier) -> J {
        let huge = i % HUGE_EVERY == HUGE_EVERY / 2;
        let n = if huge { HUGE } else if i % 6 == 5 { (400, 3000) } else { (1, 400) };
        let mut data = gen_data(r, DataOpts { n, nf: (1, if huge { 2 } else { 6 }), class: false, degenerate: r.clone().chance(0.2), maxcard: 200 });
        let mut conf = gen_conf(r, &ConfOpts { iters: (1, 1), depth: (1, 1), sampling: 0.7 }, "L2");
        if i % 40 == 7 { // more groups of categories than fit a byte
            data.set("n", r.range(400, 2500));
            data.set("feats", J::Arr(vec![obj! { "k" => "cat", "card" => r.range(400, 3000), "dist" => *r.pick(&[0i64, 0, 1, 2]), "fseed" => r.next() & 0xffffff }]));
            conf.set("max_nbins", r.range(257, 399));
        }
        fix_bag(&mut conf, &data);
        let rounds = r.range(1, if huge { 3 } else { 7 });
        let grads: Vec<J> = (0..rounds).map(|_| obj! { "gseed" => r.next() & 0xffffff, "kind" => r.range(0, 5) }).collect();
        obj! { "data" => data, "conf" => conf, "grads" => J::Arr(grads), "sched" => gen_sched(r) }
    }
    fn valid(&self, c: &J) -> bool { conf_valid(c.get("conf"), c.get("data")) }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let conf = c.get("conf");
        let t = table(c.get("data"), 0);
        let cfg = conf_of(conf);
        let n = t.n;
        let freq = if conf.has("sample_freq") { conf.us("sample_freq") } else { 1 };
        begin(plan, &sched_cfg(c.get("sched"), plan.seed));
        rt::stdout_mode(1);
        guard("dataset", || -> Res {
            let d = rt::engine(|| data_of(&t, &cfg)).expect("data");
            let mut ds = rt::engine(|| Dataset::new(&cfg, &d));
            let mut dig = 9;
            for (r, gj) in c.a("grads").iter().enumerate() {
                let (g, b) = rt::harness(|| gradients(gj.i("gseed") as u64, gj.i("kind"), n));
                rt::engine(|| ds.update(&cfg, &g, b));
                rt::harness(|| -> Res {
                    let no = r + 1;
                    let w = |s: String| format!("update {}: {}", no, s);
                    let redrawn = no == 1 || no % freq == 0;
                    let mut bag = Vec::new();
                    ds.active_examples_iter(|_, j| bag.push(j));
                    let supercats = ds.get_supercats().clone();
                    for &f in ds.active_features() {
                        let nb = ds.get_nbins(f);
                        let col = &t.cols[f].values;
                        let ft = d.feat_type(f);
                        if ft != FeatType::LoCardCat || nb > cfg.max_nbins { if nb > cfg.max_nbins { return v("too-many", w(format!("feature {} offers {} candidates, maximum {}", f, nb, cfg.max_nbins))); } }
                        let (lo, hi) = col.iter().fold((f32::INFINITY, f32::NEG_INFINITY), |a, &x| (a.0.min(x), a.1.max(x)));
                        let want_ft = if !t.cols[f].cat { FeatType::Numerical } else if hi as usize + 1 > cfg.max_nbins { FeatType::HiCardCat } else { FeatType::LoCardCat };
                        if ft != want_ft { return v("type", w(format!("feature {} is {:?}, should be {:?}", f, ft, want_ft))); }
                        let mut last = f32::NEG_INFINITY;
                        for k in 0..nb {
                            let bv = ds.get_bitvec(f, k);
                            let total = bv.block_len::<u32>() * 32;
                            if total < bag.len() { return v("set", w(format!("feature {} split {}: the set has room for {} of {} examples", f, k, total, bag.len()))); }
                            let sv = ds.get_split_value(f, k);
                            for i in 0..total {
                                let want = if i >= bag.len() { false } else {
                                    let x = col[bag[i]];
                                    match ft {
                                        FeatType::LoCardCat => x == sv,
                                        FeatType::HiCardCat => supercats[f][x as usize] as usize <= k,
                                        FeatType::Numerical => x < sv,
                                    }
                                };
                                if bv.get_bit(i) != want {
                                    return v("set", w(format!("{:?} feature {} split {} (value {}): bit {} of a bag of {} is {}{}", ft, f, k, sv, i, bag.len(), !want,
                                        if i < bag.len() { format!(", raw value {}", col[bag[i]]) } else { String::new() })));
                                }
                            }
                            dig = mix(dig ^ sv.to_bits() as u64);
                            if ft == FeatType::Numerical {
                                if sv < last { return v("thresholds", w(format!("feature {}: threshold {} after {}", f, sv, last))); }
                                if sv < lo || sv > hi { return v("thresholds", w(format!("feature {}: threshold {} outside [{}, {}]", f, sv, lo, hi))); }
                                last = sv;
                            }
                            probe("sets_checked", 1);
                        }
                        if ft == FeatType::LoCardCat {
                            // every category has its set (two categories share one)
                            let card = hi as usize + 1;
                            if nb < if card == 2 { 1 } else { card } { return v("set", w(format!("feature {} of {} categories offers {} candidates", f, card, nb))); }
                        }
                        if ft == FeatType::Numerical && redrawn {
                            let cand: Vec<f64> = (0..nb).map(|k| ds.get_split_value(f, k) as f64).collect();
                            let xs: Vec<(f64, f64)> = bag.iter().map(|&j| (col[j] as f64, g[j].abs() as f64 + 1.1920929e-7)).collect();
                            if (hi - lo).is_finite() {
                                let fuzz = 3e-7 * (lo.abs().max(hi.abs()) as f64);
                                if let Err(e) = even_parts(&cand, &cand, xs, cfg.max_nbins, (hi - lo) as f64 / 1024.0, fuzz, false) { return v("parts", w(format!("feature {}: {}", f, e))); }
                            }
                        }
                        if ft == FeatType::HiCardCat {
                            probe("high_cardinality", 1);
                            if redrawn {
                                let sc = &supercats[f];
                                let mut m: Vec<(f64, usize)> = vec![(0.0, 0); sc.len()];
                                for &j in &bag { let e = &mut m[col[j] as usize]; e.0 += g[j] as f64; e.1 += 1; }
                                let scale = bag.iter().fold(0f64, |a, &j| a.max(g[j].abs() as f64));
                                let mut o: Vec<(f64, u32, usize)> = m.iter().enumerate().filter(|x| x.1 .1 > 0).map(|(k, x)| (x.0 / x.1 as f64, sc[k], k)).collect();
                                o.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                                let tol = 2e-5 * scale;
                                // highest group among categories whose mean is smaller by more than the tolerance
                                let (mut top, mut at) = (0u32, 0usize);
                                let mut j = 0;
                                for i in 0..o.len() {
                                    while j < i && o[j].0 < o[i].0 - tol { if o[j].1 >= top { top = o[j].1; at = o[j].2; } j += 1; }
                                    if o[i].1 < top { return v("grouping", w(format!("feature {}: category {} with mean gradient {:e} is in group {}, category {} with a smaller mean in group {}", f, o[i].2, o[i].0, o[i].1, at, top))); }
                                }
                                if o.iter().any(|x| x.1 != o[0].1) { probe("several_groups", 1); }
                                // group k ends somewhere between the largest mean up to it and the smallest one after it
                                let clamp = |x: f64| x.max(b.0 as f64).min(b.1 as f64);
                                let ends: Vec<(f64, f64)> = (0..nb).map(|k| {
                                    let le = o.iter().filter(|x| x.1 as usize <= k).fold(f64::NEG_INFINITY, |a, x| a.max(clamp(x.0)));
                                    let gt = o.iter().filter(|x| x.1 as usize > k).fold(f64::INFINITY, |a, x| a.min(clamp(x.0)));
                                    (le, gt)
                                }).collect();
                                let (below, above): (Vec<f64>, Vec<f64>) = ends.into_iter().unzip();
                                let xs: Vec<(f64, f64)> = m.iter().filter(|x| x.1 > 0).map(|x| (clamp(x.0 / x.1 as f64), x.1 as f64)).collect();
                                if let Err(e) = even_parts(&below, &above, xs, cfg.max_nbins, (b.1 - b.0) as f64 / 1024.0, tol, true) { return v("parts", w(format!("groups of feature {}: {}", f, e))); }
                            }
                        }
                    }
                    Ok(())
                })?;
                if ds.nactive_features() > 0 { nontrivial(); }
            }
            digest(dig);
            Ok(())
        })?
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (40000, 40.0) } else { (600000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when a feature was active; distinct by trace and by the candidate values" }
    fn real(&self) -> Vec<&'static str> { vec!["Data", "Dataset (sampling, split candidates)", "Binner", "BitBlockStore"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["gradients (generated histories)", "clock", "getrandom", "heap", "stdout"] }
    fn probes(&self) -> &'static [&'static str] { &["sets_checked", "high_cardinality", "several_groups", "candidates_at_even_parts"] }
    fn keep(&self) -> &'static [&'static str] { &["discr_nbits", "mode"] }
    fn cpu_limit(&self) -> u64 { 60 }
}

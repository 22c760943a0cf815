//! C10: operation histories on the slice, bit-block and histogram stores against a map model.
use crate::json::J;
use crate::obj;
use crate::rng::{mix, Rng};
use crate::rt::{self, Cfg, F_OOM};
use crate::sup::{begin, digest, guard, nontrivial, probe, v, Check, Plan, Res, Tier};
use bitboost::slice_store::{BitBlockStore, BitSliceLayout1, BitSliceLayout2, BitSliceLayout4, BitSliceLayout8, HistStore, SliceRange, SliceStore};
use std::fmt::Debug;
use std::ops::Sub;

pub struct C10;

trait Elem: Clone + PartialEq + Debug + Default + 'static { fn of(x: u64) -> Self; }
impl Elem for u8 { fn of(x: u64) -> u8 { x as u8 } }
impl Elem for u32 { fn of(x: u64) -> u32 { x as u32 } }
impl Elem for u64 { fn of(x: u64) -> u64 { mix(x) } }
#[derive(Clone, PartialEq, Debug, Default)] struct Odd { a: u32, b: u32, c: u32 }
impl Elem for Odd { fn of(x: u64) -> Odd { Odd { a: x as u32, b: mix(x) as u32, c: !x as u32 } } }
#[derive(Clone, PartialEq, Debug, Default)] struct Three([u8; 3]);
impl Elem for Three { fn of(x: u64) -> Three { Three([x as u8, mix(x) as u8, !x as u8]) } }
#[derive(Clone, PartialEq, Debug, Default)] struct Hv { s: u32, n: u32 }
impl Sub for Hv { type Output = Hv; fn sub(self, o: Hv) -> Hv { Hv { s: self.s.wrapping_sub(o.s), n: self.n.wrapping_sub(o.n) } } }
impl Elem for Hv { fn of(x: u64) -> Hv { Hv { s: x as u32, n: mix(x) as u32 } } }

/// `f` may fail only because an injected allocation failure hit it.
fn op<R>(what: &str, f: impl FnOnce() -> R) -> Result<Option<R>, crate::sup::V> {
    let before = rt::stats().fault_fired[F_OOM];
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::engine(f))) {
        Ok(r) => Ok(Some(r)),
        Err(_) if rt::stats().fault_fired[F_OOM] > before => { probe("failed_growths", 1); nontrivial(); Ok(None) }
        Err(_) => v("panic", format!("{}: {}", what, crate::sup::last_panic())),
    }
}

struct Slot<T> { r: SliceRange, want: Vec<T>, at: usize }

fn disjoint<T>(slots: &[Slot<T>], at: impl Fn(&Slot<T>) -> (usize, usize)) -> Res {
    let mut x: Vec<(usize, usize)> = slots.iter().map(|s| at(s)).collect();
    x.sort();
    for w in x.windows(2) { if w[0].1 > w[1].0 { return v("overlap", format!("two live slices overlap by {} bytes", w[0].1 - w[1].0)); } }
    Ok(())
}

impl C10 {
    fn slices<T: Elem>(&self, c: &J) -> Res {
        let align = c.us("align").max(std::mem::align_of::<T>());
        let cap = c.us("cap").max(1);
        let mut store: SliceStore<T> = loop {
            if let Some(s) = op("creating the store", || SliceStore::aligned(cap, align))? { break s; }
        };
        let mut slots: Vec<Slot<T>> = Vec::new();
        let mut starts: std::collections::HashSet<u32> = Default::default();
        for (k, o) in c.a("ops").iter().enumerate() {
            let (x, y) = (o.us("x"), o.us("y"));
            let seed = mix(k as u64 * 7919 + x as u64);
            let w = |s: &str| format!("operation {} ({}): {}", k, o.dump(), s);
            match o.s("op") {
                "alloc" => {
                    let len = x.max(1) as u32;
                    let val = if y == 0 { T::default() } else { T::of(seed) };
                    let val2 = val.clone();
                    let got = if y == 0 { op(&w("alloc"), || store.alloc_slice_default(len))? } else { op(&w("alloc"), || store.alloc_slice(len, val2))? };
                    if let Some(r) = got {
                        if r.1 < r.0 || r.1 - r.0 != len { return v("length", w(&format!("got range {:?} for {} elements", r, len))); }
                        let s = store.get_slice(r);
                        if s.as_ptr() as usize % align != 0 { return v("alignment", w(&format!("slice {:?} is not aligned to {}", r, align))); }
                        if let Some(i) = s.iter().position(|e| *e != val) { return v("initial", w(&format!("element {} of {:?} is {:?}, not {:?}", i, r, s[i], val))); }
                        let at = s.as_ptr() as usize;
                        if !starts.insert(r.0) { probe("reused", 1); }
                        slots.push(Slot { r, want: vec![val; len as usize], at });
                        probe("allocated", 1);
                    }
                }
                "write" if !slots.is_empty() => {
                    let i = x % slots.len();
                    let s = &mut slots[i];
                    let m = store.get_slice_mut(s.r);
                    if m.len() != s.want.len() { return v("length", w("the mutable slice has another length")); }
                    if y == 0 { for j in 0..m.len() { m[j] = T::of(seed ^ j as u64); s.want[j] = m[j].clone(); } }
                    else { let j = y % m.len(); m[j] = T::of(seed); s.want[j] = m[j].clone(); }
                }
                "two" if slots.len() > 1 => {
                    let i = x % slots.len();
                    let j = (i + 1 + y % (slots.len() - 1)) % slots.len();
                    let (a, b) = store.get_two_slices_mut(slots[i].r, slots[j].r);
                    if a[..] != slots[i].want[..] || b[..] != slots[j].want[..] { return v("two", w("the two slices do not hold what was written to them")); }
                    let p = a.len() - 1;
                    a[p] = T::of(seed); b[0] = T::of(seed ^ 1);
                    let (e, f) = (a[p].clone(), b[0].clone());
                    slots[i].want[p] = e; slots[j].want[0] = f;
                    probe("pairs", 1);
                }
                "shorten" if !slots.is_empty() => { // what the learner does after compressing
                    let i = x % slots.len();
                    let s = &mut slots[i];
                    let n = 1 + y % s.want.len();
                    s.r.1 = s.r.0 + n as u32;
                    s.want.truncate(n);
                    probe("shortened", 1);
                }
                "free" if !slots.is_empty() => {
                    let s = slots.swap_remove(x % slots.len());
                    op(&w("free"), || store.free_slice(s.r))?;
                    probe("freed", 1);
                }
                "reset" => { op(&w("reset"), || store.reset())?; slots.clear(); starts.clear(); probe("resets", 1); }
                _ => {}
            }
            for s in slots.iter_mut() {
                let m = store.get_slice(s.r);
                if let Some(i) = (0..s.want.len()).find(|&i| m[i] != s.want[i]) { return v("lost", w(&format!("element {} of live slice {:?} is {:?} instead of {:?}", i, s.r, m[i], s.want[i]))); }
                if m.as_ptr() as usize % align != 0 { return v("alignment", w("a live slice is no longer aligned")); }
                if s.at != m.as_ptr() as usize { s.at = m.as_ptr() as usize; probe("moved_slices", 1); nontrivial(); }
            }
            let sz = std::mem::size_of::<T>();
            disjoint(&slots, |s| (s.at, s.at + s.want.len() * sz)).map_err(|e| crate::sup::V { class: e.class, msg: w(&e.msg) })?;
        }
        digest(slots.iter().fold(slots.len() as u64, |h, s| mix(h ^ s.r.0 as u64 ^ (s.r.1 as u64) << 32)));
        op("dropping the store", || drop(store))?;
        Ok(())
    }

    fn blocks(&self, c: &J) -> Res {
        let cap = c.us("cap").max(1);
        let mut store = loop { if let Some(s) = op("creating the store", || BitBlockStore::new(cap))? { break s; } };
        let mut slots: Vec<Slot<u8>> = Vec::new();
        let bytes_of = |x: &[u32]| -> Vec<u8> { x.iter().flat_map(|v| v.to_le_bytes().to_vec()).collect() };
        for (k, o) in c.a("ops").iter().enumerate() {
            let (x, y) = (o.us("x"), o.us("y"));
            let seed = mix(k as u64 * 7919 + x as u64);
            let w = |s: &str| format!("operation {} ({}): {}", k, o.dump(), s);
            match o.s("op") {
                "alloc" => {
                    let n = x.max(1);
                    let pat = |i: usize| mix(seed ^ i as u64);
                    let bitn = |n: usize, f: &dyn Fn(usize) -> bool| -> Vec<u8> {
                        let mut b = vec![0u8; (n + 255) / 256 * 32];
                        for i in 0..n { if f(i) { b[i / 8] |= 1 << (i % 8); } }
                        b
                    };
                    let (got, want) = match y % 11 {
                        0 => (op(&w("alloc"), || store.alloc_zero_blocks(n))?, vec![0u8; n * 32]),
                        1 => (op(&w("alloc"), || store.alloc_zero_bits(n))?, bitn(n, &|_| false)),
                        2 => (op(&w("alloc"), || store.alloc_one_blocks(n))?, vec![255u8; n * 32]),
                        3 => (op(&w("alloc"), || store.alloc_one_bits(n))?, bitn(n, &|_| true)),
                        4 => (op(&w("alloc"), || store.alloc_from_iter(n, (0..n).map(|i| pat(i) as u32)))?, { let mut b = bytes_of(&(0..n).map(|i| pat(i) as u32).collect::<Vec<_>>()); b.resize((n * 4 + 31) / 32 * 32, 0); b }),
                        5 => (op(&w("alloc"), || store.alloc_from_iter(n, (0..n).map(|i| pat(i) as u8)))?, { let mut b: Vec<u8> = (0..n).map(|i| pat(i) as u8).collect(); b.resize((n + 31) / 32 * 32, 0); b }),
                        6 => (op(&w("alloc"), || store.alloc_from_bits_iter(n, (0..n).map(|i| pat(i) & 1 == 1)))?, bitn(n, &|i| pat(i) & 1 == 1)),
                        7 => (op(&w("alloc"), || store.alloc_zero_bitslice::<BitSliceLayout1>(n))?, vec![0u8; (n + 255) / 256 * 32]),
                        8 => (op(&w("alloc"), || store.alloc_zero_bitslice::<BitSliceLayout2>(n))?, vec![0u8; (n + 255) / 256 * 64]),
                        9 => (op(&w("alloc"), || store.alloc_zero_bitslice::<BitSliceLayout4>(n))?, vec![0u8; (n + 255) / 256 * 128]),
                        _ => (op(&w("alloc"), || store.alloc_zero_bitslice::<BitSliceLayout8>(n))?, vec![0u8; (n + 255) / 256 * 256]),
                    };
                    if let Some(r) = got {
                        let b = store.get_bitvec(r);
                        if b.block_len::<u8>() != want.len() { return v("length", w(&format!("{} bytes instead of {}", b.block_len::<u8>(), want.len()))); }
                        let at = b.cast::<u8>().as_ptr() as usize;
                        if at % 64 != 0 { return v("alignment", w("the slice is not aligned to a cache line")); }
                        if let Some(i) = (0..want.len()).find(|&i| b.cast::<u8>()[i] != want[i]) { return v("initial", w(&format!("byte {} is {:#x} instead of {:#x}", i, b.cast::<u8>()[i], want[i]))); }
                        slots.push(Slot { r, want, at });
                        probe("allocated", 1);
                    }
                }
                "write" if !slots.is_empty() => {
                    let i = x % slots.len();
                    let s = &mut slots[i];
                    let mut b = store.get_bitvec_mut(s.r);
                    let nbits = s.want.len() * 8;
                    match y % 5 {
                        0 => { let p = seed as usize % nbits; b.enable_bit(p); s.want[p / 8] |= 1 << (p % 8); }
                        1 => { let p = seed as usize % nbits; b.set_bit(p, false); s.want[p / 8] &= !(1 << (p % 8)); }
                        2 => { let p = seed as usize % (nbits / 32); let val = mix(seed) as u32; b.set::<u32>(p, val); s.want[p * 4..p * 4 + 4].copy_from_slice(&val.to_le_bytes()); }
                        3 => { for (j, e) in b.cast_mut::<u8>().iter_mut().enumerate() { *e = mix(seed ^ j as u64) as u8; s.want[j] = *e; } }
                        _ => { // through the bit slice view: every value survives the writing of the others
                            macro_rules! layout { ($l:ident, $w:expr) => { if s.want.len() % (32 * $w) == 0 {
                                let mut g = store.get_bitslice_mut::<$l>(s.r);
                                let n = s.want.len() * 8 / $w;
                                let m = (1u64 << $w) - 1;
                                for q in 0..n { g.set_value(q, (mix(seed ^ q as u64) & m) as u8); }
                                for q in 0..n { if g.get_value(q) as u64 != mix(seed ^ q as u64) & m { return v("lost", w(&format!("value {} of width {} changed", q, $w))); } }
                                s.want = store.get_bitvec(s.r).cast::<u8>().to_vec();
                            } } }
                            match (seed >> 40) % 4 { 0 => layout!(BitSliceLayout1, 1), 1 => layout!(BitSliceLayout2, 2), 2 => layout!(BitSliceLayout4, 4), _ => layout!(BitSliceLayout8, 8) }
                        }
                    }
                }
                "two" if slots.len() > 1 => {
                    let i = x % slots.len();
                    let j = (i + 1 + y % (slots.len() - 1)) % slots.len();
                    let (mut a, mut b) = store.get_two_bitvecs_mut(slots[i].r, slots[j].r);
                    if a.cast::<u8>() != &slots[i].want[..] || b.cast::<u8>() != &slots[j].want[..] { return v("two", w("the two slices do not hold what was written to them")); }
                    let p = seed as usize % (slots[i].want.len() * 8);
                    a.enable_bit(p); b.set_bit(0, true);
                    slots[i].want[p / 8] |= 1 << (p % 8);
                    slots[j].want[0] |= 1;
                    probe("pairs", 1);
                }
                "shorten" if !slots.is_empty() => {
                    let i = x % slots.len();
                    let s = &mut slots[i];
                    let n = 1 + y % (s.want.len() / 32);
                    s.r.1 = s.r.0 + n as u32;
                    s.want.truncate(n * 32);
                    probe("shortened", 1);
                }
                "free" if !slots.is_empty() => {
                    let s = slots.swap_remove(x % slots.len());
                    op(&w("free"), || store.free_blocks(s.r))?;
                    probe("freed", 1);
                }
                "reset" => { op(&w("reset"), || store.reset())?; slots.clear(); probe("resets", 1); }
                _ => {}
            }
            for s in slots.iter_mut() {
                let b = store.get_bitvec(s.r);
                let m = b.cast::<u8>();
                if let Some(i) = (0..s.want.len()).find(|&i| m[i] != s.want[i]) { return v("lost", w(&format!("byte {} of live slice {:?} is {:#x} instead of {:#x}", i, s.r, m[i], s.want[i]))); }
                if m.as_ptr() as usize % 64 != 0 { return v("alignment", w("a live slice is no longer aligned")); }
                if s.at != m.as_ptr() as usize { s.at = m.as_ptr() as usize; probe("moved_slices", 1); nontrivial(); }
            }
            disjoint(&slots, |s| (s.at, s.at + s.want.len())).map_err(|e| crate::sup::V { class: e.class, msg: w(&e.msg) })?;
        }
        digest(slots.iter().fold(slots.len() as u64, |h, s| mix(h ^ s.r.0 as u64 ^ (s.r.1 as u64) << 32)));
        op("dropping the store", || drop(store))?;
        Ok(())
    }

    fn hists(&self, c: &J) -> Res {
        let layout: Vec<u32> = c.a("layout").iter().map(|x| x.int().max(0) as u32).collect();
        let mut store: HistStore<Hv> = loop { let l = layout.clone(); if let Some(s) = op("creating the store", move || HistStore::new(l.into_iter()))? { break s; } };
        let nf = layout.len();
        let mut slots: Vec<Slot<Vec<Hv>>> = Vec::new(); // want: one vector per feature
        for (k, o) in c.a("ops").iter().enumerate() {
            let (x, y) = (o.us("x"), o.us("y"));
            let seed = mix(k as u64 * 7919 + x as u64);
            let w = |s: &str| format!("operation {} ({}): {}", k, o.dump(), s);
            match o.s("op") {
                "alloc" => if let Some(r) = op(&w("alloc"), || store.alloc_hists())? {
                    slots.push(Slot { r, want: layout.iter().map(|&n| vec![Hv::default(); n as usize]).collect(), at: 0 });
                    probe("allocated", 1);
                },
                "write" if !slots.is_empty() && nf > 0 => {
                    let i = x % slots.len();
                    let f = y % nf;
                    let s = &mut slots[i];
                    let h = store.get_hist_mut(s.r, f);
                    if h.len() != s.want[f].len() { return v("length", w(&format!("histogram of feature {} has {} bins instead of {}", f, h.len(), s.want[f].len()))); }
                    for j in 0..h.len() { h[j] = Hv::of(seed ^ j as u64); s.want[f][j] = h[j].clone(); }
                }
                "two" if slots.len() > 2 => { // right = parent - left
                    let n = slots.len();
                    let p = x % n;
                    let l = (p + 1 + y % (n - 1)) % n;
                    let r = (0..n).find(|&q| q != p && q != l).unwrap();
                    let (rp, rl, rr) = (slots[p].r, slots[l].r, slots[r].r);
                    op(&w("subtract"), || store.hists_subtract(rp, rl, rr))?;
                    for f in 0..nf { for j in 0..layout[f] as usize { slots[r].want[f][j] = slots[p].want[f][j].clone() - slots[l].want[f][j].clone(); } }
                    probe("pairs", 1);
                }
                "free" if !slots.is_empty() => { let s = slots.swap_remove(x % slots.len()); op(&w("free"), || store.free_hists(s.r))?; probe("freed", 1); }
                "reset" => { op(&w("reset"), || store.reset())?; slots.clear(); probe("resets", 1); }
                _ => {}
            }
            for s in slots.iter_mut() {
                for f in 0..nf {
                    let h = store.get_hist(s.r, f);
                    if h.len() != s.want[f].len() { return v("length", w(&format!("histogram of feature {} has {} bins instead of {}", f, h.len(), s.want[f].len()))); }
                    if let Some(j) = (0..h.len()).find(|&j| h[j] != s.want[f][j]) { return v("lost", w(&format!("bin {} of feature {} of {:?} is {:?} instead of {:?}", j, f, s.r, h[j], s.want[f][j]))); }
                    if f == 0 && h.len() > 0 && s.at != h.as_ptr() as usize { if s.at != 0 { probe("moved_slices", 1); nontrivial(); } s.at = h.as_ptr() as usize; }
                }
            }
        }
        digest(slots.iter().fold(slots.len() as u64, |h, s| mix(h ^ s.r.0 as u64 ^ (s.r.1 as u64) << 32)));
        op("dropping the store", || drop(store))?;
        Ok(())
    }
}

impl Check for C10 {
    fn id(&self) -> &'static str { "C10" }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> J {
        let kind = *r.pick(&["u8", "u32", "u64", "odd", "three", "blocks", "blocks", "blocks", "hist", "hist"]);
        let nops = if tier == Tier::Quick { r.logrange(3, 80) } else { r.logrange(3, 300) };
        let big = r.chance(0.3);
        let layout: Vec<J> = (0..r.range(0, 8)).map(|_| J::Int(if r.chance(0.2) { 0 } else { r.logrange(1, if big { 900 } else { 40 }) })).collect();
        let cap = r.logrange(1, 600);
        let pf = *r.pick(&[0.15, 0.3, 0.45]);
        let preset = *r.pick(&[0.0, 0.03, 0.1]);
        let typical = r.logrange(1, 300); // sizes repeat, so freed space fits again
        // now and then slices beyond 65536 elements, very many small ones, or histograms of very many features
        let shape = r.below(240);
        let nops = match shape { 0 => r.range(4, 10), 1 | 2 => r.range(200, 500), _ => nops };
        let top = match shape { 0 => 90000, 1 | 2 => 8, _ => if kind == "blocks" { 700 } else { 1500 } };
        let typical = if shape == 0 { r.range(40000, 80000) } else { typical.min(top) };
        let layout = if (3..7).contains(&shape) { (0..r.range(40, 300)).map(|_| J::Int(if r.chance(0.1) { 0 } else { r.range(1, 40) })).collect() } else if shape == 7 || shape == 8 { (0..r.range(2, 6)).map(|_| J::Int(r.range(9000, 40000))).collect() } else { layout };
        let nops = if kind == "hist" && (shape == 7 || shape == 8) { nops.min(8) } else { nops };
        let ops = (0..nops).map(|_| {
            let op = if r.chance(preset) { "reset" } else if r.chance(pf) { "free" } else { *r.pick(&["alloc", "alloc", "alloc", "write", "write", "two", "shorten"]) };
            let op = if op == "shorten" && r.chance(0.5) { "alloc" } else { op };
            let x = match op { "alloc" => match r.below(4) { 0 => typical, 1 => (typical - r.range(0, 8)).max(1), 2 => r.logrange(1, 20).min(top), _ => if shape == 0 { r.range(1000, top) } else { r.logrange(1, top) } }, _ => r.range(0, 40) };
            obj! { "op" => op, "x" => x, "y" => r.range(0, 60) }
        }).collect();
        let p_oom = *r.pick(&[0.0, 0.05, 0.2, 0.5]);
        obj! { "kind" => kind, "ops" => J::Arr(ops), "cap" => cap, "align" => *r.pick(&[1i64, 8, 32, 32, 64, 64, 128]), "layout" => J::Arr(layout), "p_oom" => p_oom }
    }
    fn valid(&self, c: &J) -> bool { let a = c.us("align"); a.is_power_of_two() && c.us("cap") >= 1 && c.f("p_oom") <= 0.5 }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        begin(plan, &Cfg::quiet(plan.seed).fault(F_OOM, c.f("p_oom")));
        rt::stdout_mode(1);
        let live = rt::tag_live(1);
        guard("a store operation", || match c.s("kind") {
            "u8" => self.slices::<u8>(c),
            "u32" => self.slices::<u32>(c),
            "u64" => self.slices::<u64>(c),
            "odd" => self.slices::<Odd>(c),
            "three" => self.slices::<Three>(c),
            "blocks" => self.blocks(c),
            _ => self.hists(c),
        })??;
        let left = rt::tag_live(1) as i64 - live as i64;
        if left > 0 { return v("leak", format!("{} allocations of the store are left after it was dropped", left)); }
        if c.a("ops").len() >= 3 { nontrivial(); }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (90000, 40.0) } else { (1500000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when it performed operations; distinct by fault trace and final slice layout" }
    fn real(&self) -> Vec<&'static str> { vec!["SliceStore", "BitBlockStore", "HistStore", "BitVec", "BitSlice"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["heap (poisoned, moving, failing)", "stdout"] }
    fn probes(&self) -> &'static [&'static str] { &["allocated", "reused", "moved_slices", "failed_growths", "pairs", "shortened", "freed", "resets"] }
    fn keep(&self) -> &'static [&'static str] { &["kind", "align"] }
    fn cpu_limit(&self) -> u64 { 30 }
}

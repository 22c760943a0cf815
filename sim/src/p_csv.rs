//! C11: CSV sources delivered by a faulty file or reader, against a reference reader.
use crate::json::J;
use crate::obj;
use crate::rng::{mix, Rng};
use crate::rt::{self, Cfg, F_OPEN_EINTR, F_OPEN_ERR, F_RD_EINTR, F_RD_ERR, F_RD_SHORT, F_SO_EINTR, F_SO_ERR, F_SO_SHORT, F_USER};
use crate::sup::{begin, digest, guard, nontrivial, probe, v, Check, Plan, Res, Tier};
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use std::io::{Error, ErrorKind, Read};

/// what the bytes say
#[derive(Debug)]
pub struct Parsed { pub names: Vec<String>, pub cols: Vec<Vec<f32>>, pub unsure: bool }

/// The records of a CSV text: blank lines are no records; a field that starts with a quote runs to the next
/// single quote, two quotes in it stand for one, and what follows the closing quote is taken as it is.
pub fn records(text: &str, delim: char) -> Vec<Vec<String>> {
    let mut all = Vec::new();
    let mut rec: Vec<String> = Vec::new();
    let mut it = text.chars().peekable();
    loop {
        if rec.is_empty() { while it.peek().map_or(false, |&c| c == '\n' || c == '\r') { it.next(); } if it.peek().is_none() { return all; } }
        let mut f = String::new();
        if it.peek() == Some(&'"') {
            it.next();
            while let Some(c) = it.next() { if c != '"' { f.push(c); } else if it.peek() == Some(&'"') { it.next(); f.push('"'); } else { break; } }
        }
        while it.peek().map_or(false, |&c| c != delim && c != '\n' && c != '\r') { f.push(it.next().unwrap()); }
        rec.push(f);
        if it.next() != Some(delim) { all.push(std::mem::replace(&mut rec, Vec::new())); }
    }
}

/// Reference reader.
pub fn reference(bytes: &[u8], header: bool, delim: u8, cats: &[usize]) -> Result<Parsed, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let mut records = records(text, delim as char);
    let mut names = Vec::new();
    let first = records.first().map(|r| r.len()).unwrap_or(0);
    if let Some(r) = records.iter().position(|r| r.len() != first) { return Err(format!("record {} has {} fields, not {}", r, records[r].len(), first)); }
    if header && !records.is_empty() { names = records.remove(0); }
    if records.is_empty() { return Err("no records".into()); }
    if names.is_empty() { names = vec![String::new(); first]; }
    let mut cols = vec![Vec::new(); first];
    let mut unsure = false;
    for (k, r) in records.iter().enumerate() {
        for (i, f) in r.iter().enumerate() {
            let x: f32 = f.parse().map_err(|_| format!("record {} field {}: '{}'", k, i, f))?;
            if cats.contains(&i) {
                if x.round() != x || x < 0.0 || x >= 4294967296.0 { return Err(format!("record {} field {}: category {}", k, i, x)); }
                if x > 1e9 { unsure = true; } // whether so many categories make sense is not ours to say
            }
            cols[i].push(x);
        }
    }
    Ok(Parsed { names, cols, unsure })
}

/// the dataset must be exactly what was delivered
pub fn compare(d: &Data, p: &Parsed, cfg: &Config) -> Res {
    let n = p.cols[0].len();
    if d.nfeatures() != p.cols.len() - 1 { return v("shape", format!("{} features for {} columns", d.nfeatures(), p.cols.len())); }
    if d.nexamples() != n { return v("shape", format!("{} examples for {} records", d.nexamples(), n)); }
    if d.target_id() != p.cols.len() - 1 { return v("shape", format!("target column {}", d.target_id())); }
    for (i, c) in p.cols.iter().enumerate() {
        let f = d.get_feature(i);
        if f.len() != n { return v("values", format!("column {} has {} values for {} records", i, f.len(), n)); }
        if let Some(k) = (0..n).find(|&k| f[k].to_bits() != c[k].to_bits()) { return v("values", format!("column {} record {}: {} instead of {}", i, k, f[k], c[k])); }
        let lo = c.iter().cloned().fold(f32::INFINITY, f32::min);
        let hi = c.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
        if d.feat_limits(i) != (lo, hi) { return v("limits", format!("column {}: limits {:?} instead of {:?}", i, d.feat_limits(i), (lo, hi))); }
        if d.feat_name(i) != p.names[i] { return v("names", format!("column {} is called '{}' instead of '{}'", i, d.feat_name(i), p.names[i])); }
        let cat = cfg.categorical_features.contains(&i);
        let card = if cat { hi as usize + 1 } else { 0 };
        if cat && d.feat_card(i) != card { return v("cardinality", format!("column {}: {} categories instead of {}", i, d.feat_card(i), card)); }
        let ft = if !cat { FeatType::Numerical } else if card > cfg.max_nbins { FeatType::HiCardCat } else { FeatType::LoCardCat };
        if d.feat_type(i) != ft { return v("type", format!("column {} is {:?} instead of {:?}", i, d.feat_type(i), ft)); }
        probe("columns_compared", 1);
    }
    if d.get_target().len() != n { return v("values", "the target has another length"); }
    Ok(())
}

/// A reader that short-reads, is interrupted, fails, or loses the rest of the source.
struct Faulty<'a> { data: &'a [u8], pos: usize, delivered: &'a mut Vec<u8>, failed: &'a mut bool, cut: bool }
impl<'a> Read for Faulty<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if rt::fault(F_RD_EINTR) != 0 { return Err(Error::from(ErrorKind::Interrupted)); }
        let a = rt::fault(F_RD_ERR);
        if a != 0 {
            *self.failed = true;
            let kinds = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::InvalidData];
            return Err(Error::new(kinds[(a >> 1) as usize % kinds.len()], "simulated"));
        }
        if rt::fault(F_USER) != 0 { self.cut = true; } // the writer of the file crashed here
        if self.cut { return Ok(0); }
        let mut n = buf.len().min(self.data.len() - self.pos);
        let s = rt::fault(F_RD_SHORT);
        if s != 0 && n > 1 { n = 1 + (s >> 1) as usize % n.min(40); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        rt::harness(|| self.delivered.extend_from_slice(&buf[..n]));
        Ok(n)
    }
}

/// a decimal just above the middle of two neighbouring values: rounding twice goes the wrong way
fn near_tie(x: f32) -> String {
    let b = f32::from_bits(x.to_bits() + 1);
    if !x.is_normal() || !b.is_normal() { return "0".into(); }
    format!("{:.70}1", (x as f64 + b as f64) / 2.0)
}

/// a generated table as text, a few formatting variants mixed in
pub fn render(c: &J) -> Vec<u8> {
    let (rows, ncols) = (c.us("rows"), c.us("cols").max(1));
    let seed = c.i("tseed") as u64;
    let delim = c.us("delim") as u8 as char;
    let cats: Vec<usize> = c.a("cats").iter().map(|x| x.int().max(0) as usize).collect();
    let eol = match c.i("eol") { 1 => "\r\n", 2 => "\r", _ => "\n" };
    let quotes = c.i("quotes");
    let mut s = String::new();
    if c.b("header") {
        for j in 0..ncols { if j > 0 { s.push(delim); } s.push_str(&match (seed >> 3) as usize % 3 {
            _ if quotes & 1 == 1 => match mix(seed ^ j as u64) % 6 { 0 => format!("\"a{}b {}\"", delim, j), 1 => format!("\"say \"\"{}\"\"\"", j), 2 => format!("\"two\nlines {}\"", j), 3 => format!("\"\"{}", j), 4 => format!("x\"{}\"", j), _ => format!("\"f{}\"", j) },
            0 => format!("f{}", j), 1 => format!("größe {}", j), _ => format!("{}", j) }); }
        s.push_str(eol);
    }
    for i in 0..rows {
        for j in 0..ncols {
            if j > 0 { s.push(delim); }
            let z = mix(seed ^ mix((i * ncols + j) as u64));
            let f = if c.has("odd") && z % (rows * ncols) as u64 == 0 {
                // a single unusual value, now and then
                ["0.5", "-1", "-0", "5000000000", "1e10", "inf", "4294967295", "1e-46", "3e0", "", " 1", "1 ", "0x1", "1_0", "-", "1e", "NaN1", "１", "#1", "'1'", "1%", "$1", "(1)", "1/2", "1#2", "?", "NA"][c.us("odd") % 27].to_string()
            } else if cats.contains(&j) {
                let k = z % c.us("card").max(1) as u64;
                match z >> 60 { 0 => format!("{}.0", k), 1 => format!("+{}", k), _ => format!("{}", k) }
            } else {
                let x = ((z >> 20) as f64 / (1u64 << 44) as f64 - 0.5) * 10f64.powi((z % 9) as i32 - 3);
                match (z >> 16) % 9 { 8 => near_tie(x as f32), 0 => format!("{:e}", x as f32), 1 => format!("{}", x.round()), 2 => format!("{:.3}", x), 3 => format!("{}", x), 4 => "-0".into(), 5 => format!("{:.0}.", x), 6 => format!("{:.7}", x), _ => format!("{}", x as f32) }
            };
            if quotes & 2 == 2 && (z >> 30) % 4 == 0 { s.push('"'); s.push_str(&f); s.push('"'); } else { s.push_str(&f); }
        }
        if i + 1 < rows || c.i("tail") != 1 { s.push_str(eol); }
        if c.i("tail") == 2 && i % 5 == 2 { s.push_str(eol); } // blank lines
    }
    let mut b = s.into_bytes();
    apply_edits(&mut b, c.get("edits"));
    b
}
/// damage of the file itself
pub fn apply_edits(b: &mut Vec<u8>, edits: &J) {
    for e in edits.arr() {
        let p = if b.is_empty() { 0 } else { e.us("at") % b.len() };
        let ch = e.us("ch") as u8;
        match e.i("kind") {
            0 => if !b.is_empty() { b[p] = ch },
            1 => { b.insert(p, ch) }
            2 => if !b.is_empty() { b.remove(p); },
            3 => b.truncate(p),
            6 => { let q = b[..p].iter().rposition(|&c| c == b'\n').map_or(0, |k| k + 1); b.insert(q, ch); } // at the start of a record
            4 => { let q = (p + 1 + ch as usize).min(b.len()); b.drain(p.min(q)..q); }       // a lost run of bytes
            _ => { let q = (p + 1 + ch as usize).min(b.len()); let x: Vec<u8> = b[p.min(q)..q].to_vec(); for (k, y) in x.into_iter().enumerate() { b.insert(p + k, y); } } // a repeated run
        }
    }
}
pub fn gen_edits(r: &mut Rng) -> J { J::Arr((0..r.range(1, 3)).map(|_| gen_edit(r)).collect()) }
fn gen_edit(r: &mut Rng) -> J {
        let kind = if r.chance(0.12) { 6 } else { r.range(0, 5) };
        let ch = *r.pick(b"0123456789.,;-+ e\n\r\t\xff\xc3x\"#\\\0");
        obj! { "kind" => kind, "at" => r.range(0, 4000), "ch" => if kind == 4 || kind == 5 { r.range(0, 40) } else { ch as i64 } }
}
pub fn gen_table(r: &mut Rng) -> J {
    let (wide, tall) = (r.chance(0.02), r.chance(0.002));
    let cols = if wide { r.range(9, 300) } else if tall { r.range(1, 2) } else { r.range(1, 8) };
    let cats: Vec<J> = (0..cols).filter(|_| r.clone().next() % 2 == 0 && r.chance(0.4)).map(J::Int).collect();
    let edits: Vec<J> = (0..if r.chance(0.5) { 0 } else { r.range(1, 3) }).map(|_| gen_edit(r)).collect();
    let odd = if r.chance(0.15) { r.range(0, 26) } else { -1 };
    let mut t = obj! { "rows" => if r.chance(0.06) { 0 } else if r.chance(0.04) { r.logrange(300, 4000) } else { r.logrange(1, if wide { 30 } else { 120 }) }, "cols" => cols, "tseed" => r.next() & 0xffffffff,
        "header" => r.chance(0.5), "delim" => *r.pick(&[44i64, 44, 59, 9, 32]), "cats" => J::Arr(cats), "card" => r.logrange(1, 60), "eol" => *r.pick(&[0i64, 0, 0, 1, 2]),
        "tail" => *r.pick(&[0i64, 0, 1, 2]), "edits" => J::Arr(edits), "max_nbins" => *r.pick(&[1i64, 4, 16, 16]) };
    if odd >= 0 { t.set("odd", odd); }
    if wide && t.us("rows") > 30 { t.set("rows", 30); }
    if tall && !wide { t.set("rows", r.range(65530, 66000)); }
    if r.chance(0.2) { t.set("quotes", r.range(1, 3)); }
    t
}
pub fn table_conf(c: &J) -> Config {
    let mut cfg = Config::new();
    let cats: Vec<String> = c.a("cats").iter().map(|x| x.int().to_string()).collect();
    for (k, x) in [("csv_has_header", c.b("header").to_string()), ("csv_delimiter", c.us("delim").to_string()), ("categorical_features", cats.join(",")), ("max_nbins", c.us("max_nbins").max(1).to_string())] {
        cfg.parse_record(k, &x).unwrap();
    }
    cfg
}

pub struct C11;
impl Check for C11 {
    fn id(&self) -> &'static str { "C11" }
    fn gen(&self, r: &mut Rng, _i: u64, _tier: Tier) -> J {
        let calm = r.chance(0.3);
        obj! { "table" => gen_table(r), "route" => *r.pick(&["path", "path", "reader", "reader", "text"]),
            "p_short" => *r.pick(&[0.0, 0.3, 0.9]), "p_eintr" => *r.pick(&[0.0, 0.1, 0.4]),
            "p_err" => if calm { 0.0 } else { *r.pick(&[0.0, 0.02, 0.2]) }, "p_cut" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.1]) },
            "p_open" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.3]) }, "again" => r.chance(0.3),
            "p_out" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.0, 0.3]) } }
    }
    fn valid(&self, c: &J) -> bool { c.get("table").us("cols") >= 1 && [44, 59, 9, 32].contains(&c.get("table").i("delim")) }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let t = c.get("table");
        let bytes = render(t);
        let cfg = table_conf(t);
        begin(plan, &Cfg::quiet(plan.seed).fault(F_RD_SHORT, c.f("p_short")).capped(F_RD_EINTR, c.f("p_eintr"), 200).fault(F_RD_ERR, c.f("p_err"))
            .fault(F_OPEN_ERR, c.f("p_open")).capped(F_OPEN_EINTR, c.f("p_eintr"), 50).fault(F_USER, c.f("p_cut")).fault(F_SO_ERR, c.f("p_out")).capped(F_SO_EINTR, c.f("p_eintr"), 50).fault(F_SO_SHORT, c.f("p_short")));
        rt::stdout_mode(1);
        for round in 0..if c.b("again") { 2 } else { 1 } {
            let mut delivered = Vec::new();
            let mut failed = false;
            let mute = rt::stats().fault_fired[F_SO_ERR];
            let got: Result<Result<Data, String>, crate::sup::V> = guard("loading CSV", || match c.s("route") {
                "path" => {
                    rt::file("/sim/data.csv", &bytes);
                    let before = rt::stats();
                    let r = rt::engine(|| Data::from_csv_path(&cfg, "/sim/data.csv"));
                    let after = rt::stats();
                    failed = after.fault_fired[F_RD_ERR] > before.fault_fired[F_RD_ERR] || after.fault_fired[F_OPEN_ERR] > before.fault_fired[F_OPEN_ERR];
                    delivered = bytes.clone();
                    r
                }
                "reader" => {
                    let rd = Faulty { data: &bytes, pos: 0, delivered: &mut delivered, failed: &mut failed, cut: false };
                    rt::engine(|| Data::from_csv_reader(&cfg, rd))
                }
                _ => match std::str::from_utf8(&bytes) {
                    Ok(s) => { delivered = bytes.clone(); rt::engine(|| Data::from_csv(&cfg, s)) }
                    Err(e) => { delivered = bytes.clone(); Err(e.to_string()) }
                },
            });
            let got = match got {
                // std's println! panics when standard output fails (the C interface and the CLI answer for that: C07, C13)
                Err(_) if crate::sup::last_panic().contains("failed printing to stdout") && rt::stats().fault_fired[F_SO_ERR] > mute => { probe("silenced_loads", 1); nontrivial(); continue; }
                g => g?,
            };
            let want = reference(&delivered, t.b("header"), t.us("delim") as u8, &cfg.categorical_features);
            let mute = rt::stats().fault_fired[F_SO_ERR] > mute;
            match (&got, failed, &want) {
                (Ok(_), true, _) => return v("hidden-error", format!("round {}: the source reported an error, loading it did not", round)),
                (Err(_), true, _) => { probe("source_errors_reported", 1); nontrivial(); }
                (Ok(d), false, Ok(p)) => { if !p.unsure { compare(d, p, &cfg)?; } probe("tables_loaded", 1); nontrivial(); }
                (Err(_), false, Err(_)) => { probe("bad_tables_rejected", 1); nontrivial(); }
                (Ok(d), false, Err(e)) => return v("accepted-bad", format!("round {}: a table was loaded ({} x {}) although: {}", round, d.nexamples(), d.nfeatures(), e)),
                (Err(_), false, Ok(_)) if mute => { probe("silenced_loads", 1); nontrivial(); } // what it prints could not be written
                (Err(e), false, Ok(p)) => if !p.unsure { return v("rejected-good", format!("round {}: '{}' for a good table of {} records", round, e, p.cols[0].len())) },
            }
            digest(match &got { Ok(d) => mix(d.nexamples() as u64 ^ (d.nfeatures() as u64) << 32) , Err(_) => 1 } ^ delivered.len() as u64);
        }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (60000, 30.0) } else { (2000000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when a table was loaded and compared, or rejected as it should; distinct by fault trace and bytes delivered" }
    fn real(&self) -> Vec<&'static str> { vec!["Data::from_csv_path / from_csv_reader / from_csv", "csv crate", "std file and string reading"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["file system calls for the data file", "reader", "heap", "stdout"] }
    fn probes(&self) -> &'static [&'static str] { &["columns_compared", "tables_loaded", "bad_tables_rejected", "source_errors_reported", "silenced_loads"] }
    fn keep(&self) -> &'static [&'static str] { &["route", "delim", "kind", "ch"] }
    fn cpu_limit(&self) -> u64 { 30 }
    fn assumptions(&self) -> Vec<&'static str> { vec!["generated text spells no NaN or infinity in numerical columns; a category of 1e9 to 2^32 may be accepted or rejected; a load whose report cannot be printed may fail, or panic the way println! does"] }
}

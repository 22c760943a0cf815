//! C12 and C13: the command line tools, run as whole programs under the simulator.
use crate::cli::{self, CliRun, Job};
use crate::json::J;
use crate::obj;
use crate::p_csv::{gen_edits, apply_edits, reference};
use crate::rng::{mix, Rng};
use crate::rt::{self, Cfg, F_CLOCK, F_FW_EINTR, F_FW_ERR, F_FW_SHORT, F_OPEN_EINTR, F_OPEN_ERR, F_RD_EINTR, F_RD_ERR, F_RD_SHORT, F_SO_EINTR, F_SO_ERR, F_SO_SHORT, F_USER};
use crate::sup::{begin, digest, guard, nontrivial, probe, v, Check, Plan, Res, Tier};
use crate::work;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use bitboost::boost::Booster;
use bitboost::tree::{TreeLearner, TreeLearnerContext};
use std::io::{Error, ErrorKind, Write};

// ---- C12 ----------------------------------------------------------------------------------------

/// A writer that writes short, is interrupted, fails, or takes nothing.
struct Sink { got: Vec<u8>, failed: bool, refused: bool }
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if rt::fault(F_FW_EINTR) != 0 { return Err(Error::from(ErrorKind::Interrupted)); }
        let a = rt::fault(F_FW_ERR);
        if a != 0 {
            self.failed = true;
            let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::WriteZero];
            return Err(Error::new(kinds[(a >> 1) as usize % kinds.len()], "simulated"));
        }
        if !buf.is_empty() && rt::fault(F_USER) != 0 { self.refused = true; return Ok(0); }
        let mut n = buf.len();
        let s = rt::fault(F_FW_SHORT);
        if s != 0 && n > 1 { n = 1 + (s >> 1) as usize % (n - 1); }
        rt::harness(|| self.got.extend_from_slice(&buf[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// CSV with quoted fields
fn csv_rows(text: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = Vec::new();
    let (mut row, mut f) = (Vec::new(), String::new());
    let mut it = text.chars().peekable();
    let mut quoted = false;
    while let Some(c) = it.next() {
        match (quoted, c) {
            (true, '"') => if it.peek() == Some(&'"') { it.next(); f.push('"'); } else { quoted = false; },
            (true, c) => f.push(c),
            (false, '"') => quoted = true,
            (false, ',') => row.push(std::mem::take(&mut f)),
            (false, '\n') => { row.push(std::mem::take(&mut f)); rows.push(std::mem::take(&mut row)); }
            (false, c) => f.push(c),
        }
    }
    if quoted { return Err("a quoted field is not closed".into()); }
    if !f.is_empty() || !row.is_empty() { return Err("the last line is not complete".into()); }
    Ok(rows)
}

fn fields_of(c: &Config) -> Vec<(String, String)> {
    // `Config { a: 1, .. }` printed over lines: fields are indented by exactly four blanks
    let text = format!("{:#?}", c);
    let mut out: Vec<(String, String)> = Vec::new();
    for l in text.lines().skip(1) {
        if l.starts_with("    ") && !l.starts_with("     ") && l.contains(": ") {
            let (k, x) = l.trim().split_once(": ").unwrap();
            out.push((k.into(), x.into()));
        }
        else if let Some(last) = out.last_mut() { last.1.push_str(l.trim()); }
    }
    out
}

/// The exported table against the configuration in force.
fn check_table(bytes: &[u8]) -> Res {
    let text = match std::str::from_utf8(bytes) { Ok(t) => t, Err(_) => return v("table-text", "the table is not UTF-8") };
    let rows = match csv_rows(text) { Ok(r) => r, Err(e) => return v("table-text", e) };
    let base = Config::new();
    let fields = fields_of(&base);
    if rows.is_empty() || rows[0].len() < 3 || rows[0][..3] != ["name", "default", "type"] { return v("table-head", format!("the first line is {:?}", rows.first())); }
    for r in &rows[1..] {
        if r.len() != rows[0].len() { return v("table-shape", format!("line {:?} has {} fields, the head {}", r, r.len(), rows[0].len())); }
        if r[2].trim().is_empty() { return v("table-type", format!("{} has no type", r[0])); }
        if !fields.iter().any(|f| f.0 == r[0]) { return v("table-unknown", format!("{} is not a configuration field", r[0])); }
        // the default is written in Python notation
        let d = r[1].as_str();
        let d = match d { "True" => "true", "False" => "false", _ => d };
        let d = if r[2].replace(' ', "").starts_with("Vec<") {
            match d.strip_prefix('[').and_then(|x| x.strip_suffix(']')) { Some(x) => x.replace('"', ""), None => return v("table-default", format!("{}: default {} is not a list", r[0], d)) }
        } else { d.to_string() };
        let mut c = Config::new();
        if let Err(e) = guard("parsing a default", || c.parse_record(&r[0], &d))? { return v("table-default", format!("default {} of {} is rejected: {}", r[1], r[0], e)); }
        if format!("{:?}", c) != format!("{:?}", base) { return v("table-default", format!("{}: default {} is not the value in force", r[0], r[1])); }
        probe("defaults_checked", 1);
    }
    for (k, _) in &fields {
        let n = rows[1..].iter().filter(|r| &r[0] == k).count();
        if n != 1 { return v("table-missing", format!("field {} is in the table {} times", k, n)); }
    }
    if fields.len() < 10 { return v("table-missing", format!("only {} configuration fields found", fields.len())); }
    Ok(())
}

pub struct C12;
impl Check for C12 {
    fn id(&self) -> &'static str { "C12" }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> J {
        let calm = r.chance(0.3);
        obj! { "route" => if i % 8 == 7 { "program" } else { "writer" },
            "p_short" => *r.pick(&[0.0, 0.1, 0.9]), "p_eintr" => *r.pick(&[0.0, 0.1, 0.5]),
            "p_err" => if calm { 0.0 } else { *r.pick(&[0.0, 0.002, 0.005, 0.02, 0.2]) }, "p_zero" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.003, 0.02]) },
            "p_open" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.3]) },
            "old" => *r.pick(&[-1i64, -1, 0, 13, 3000, 70000]) }
    }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let cfg = Cfg::quiet(plan.seed).fault(F_FW_SHORT, c.f("p_short")).capped(F_FW_EINTR, c.f("p_eintr"), 500).fault(F_FW_ERR, c.f("p_err"))
            .fault(F_OPEN_ERR, c.f("p_open")).capped(F_OPEN_EINTR, c.f("p_eintr"), 20).fault(F_USER, c.f("p_zero"));
        let mut whole = Vec::new();
        if let Err(e) = guard("exporting to memory", || Config::write_doc_csv(&mut whole))? { return v("export-failed", format!("writing to memory: {}", e)); }
        check_table(&whole)?;
        if c.s("route") == "writer" {
            begin(plan, &cfg);
            for round in 0..2 {
                let mut s = Sink { got: Vec::new(), failed: false, refused: false };
                let r = guard("exporting", || Config::write_doc_csv(&mut s))?;
                match r {
                    Ok(()) if s.failed || s.refused => return v("hidden-error", format!("round {}: the writer failed, the export did not ({} of {} bytes arrived)", round, s.got.len(), whole.len())),
                    Ok(()) if s.got != whole => return v("incomplete", format!("round {}: success with {} of {} bytes written correctly", round, s.got.iter().zip(&whole).take_while(|x| x.0 == x.1).count(), whole.len())),
                    Ok(()) => { probe("complete_exports", 1); }
                    Err(_) if s.failed || s.refused => { probe("write_errors_reported", 1); nontrivial(); }
                    Err(e) => return v("false-error", format!("round {}: nothing failed, but: {}", round, e)),
                }
                digest(s.got.len() as u64);
            }
            if rt::stats().fault_fired[F_FW_SHORT] > 0 { nontrivial(); }
        } else {
            let dir = format!("/tmp/bbsim-{}", std::process::id());
            std::fs::create_dir_all(&dir).unwrap();
            let path = format!("{}/settings.csv", dir);
            // what an earlier export may have left there
            if c.i("old") >= 0 { std::fs::write(&path, b"an,older,export\n".iter().cycle().take(c.us("old")).cloned().collect::<Vec<u8>>()).unwrap(); }
            let exe = cli::bin("bitboost_gen_config_csv");
            let r = cli::run(&Job { bin: &exe, args: &[path.clone()], workers: 1, files: &[], rd: "", wr: &dir }, &cfg, Some(plan));
            let got = std::fs::read(&path).unwrap_or_default();
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_dir(&dir);
            if let Some(f) = &r.fatal { return v("stuck", format!("export program: {}", f.1)); }
            let failed = r.stats.fault_fired[F_FW_ERR] + r.stats.fault_fired[F_OPEN_ERR] > 0;
            if r.signal != 0 || r.timed_out { return v("program-died", format!("export program: {}", r.end())); }
            match r.exit {
                0 if failed => return v("hidden-error", format!("a write failed, the program exits with 0 ({} of {} bytes in the file)", got.len(), whole.len())),
                0 if got != whole => return v("incomplete", format!("exit 0 with {} of {} bytes in the file", got.len(), whole.len())),
                0 => { probe("complete_files", 1); if c.i("old") > whole.len() as i64 { probe("longer_files_replaced", 1); } if r.stats.fault_fired.iter().any(|&x| x > 0) { nontrivial(); } }
                _ if failed => { probe("program_errors_reported", 1); nontrivial(); }
                _ => return v("false-error", format!("nothing failed, but: {}", r.end())),
            }
            digest(mix(r.exit as u64) ^ got.len() as u64);
        }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (80000, 40.0) } else { (1000000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when a write fault of some kind fired and the outcome was checked; distinct by fault trace and bytes that arrived" }
    fn real(&self) -> Vec<&'static str> { vec!["Config::write_doc_csv", "Config::parse_record", "the bitboost_gen_config_csv program (1 run in 8)", "std formatting and file writing"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["writer", "open, write and close of the program's file"] }
    fn probes(&self) -> &'static [&'static str] { &["defaults_checked", "complete_exports", "write_errors_reported", "complete_files", "longer_files_replaced", "program_errors_reported"] }
    fn keep(&self) -> &'static [&'static str] { &["route"] }
    fn cpu_limit(&self) -> u64 { 30 }
    fn assumptions(&self) -> Vec<&'static str> { vec!["an error reported only by close or by the disk after the write call returned is not simulated"] }
}

// ---- C13 ----------------------------------------------------------------------------------------

/// names of the training and the test file, and of files that are none of the program's business
const NAMES: [(&str, &str, &[&str]); 4] = [("/sim/train.csv", "/sim/test.csv", &[]), ("/sim/fold=1/train.csv", "/sim/fold=1/test.csv", &["/sim/fold"]),
    ("/sim/a b,c/d\u{e9}but.csv", "/sim/#1;?.csv", &["/sim/a", "/sim/a b"]), ("/sim/x.csv=", "/sim/test=test.csv", &["/sim/x.csv", "/sim/test"])];

/// the lines that carry timings are blanked out
fn stable(out: &[u8]) -> Vec<u8> {
    let text = String::from_utf8_lossy(out);
    let mut s = String::new();
    for l in text.split_inclusive('\n') {
        if l.contains("] timings:") { s.push_str(&l[..l.find("timings:").unwrap()]); s.push('\n'); }
        else if l.starts_with("__TRAIN_TIME__") { s.push_str("__TRAIN_TIME__\n"); }
        else { s.push_str(l); }
    }
    s.into_bytes()
}

fn raw_line(out: &[u8], key: &str) -> Option<Vec<String>> {
    let text = String::from_utf8_lossy(out).into_owned();
    let l: Vec<&str> = text.lines().filter(|l| l.starts_with(key)).collect();
    if l.len() != 1 { return None; }
    let rest = &l[0][key.len()..];
    Some(if rest.is_empty() { vec![] } else { rest.split(',').map(|s| s.to_string()).collect() })
}

fn same_numbers(what: &str, got: &[String], want: &[f32]) -> Res {
    if got.len() != want.len() { return v("count", format!("{}: {} numbers for {} examples", what, got.len(), want.len())); }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let x: f32 = match g.parse() { Ok(x) => x, Err(_) => return v("number", format!("{}: '{}' is not a number", what, g)) };
        if x.to_bits() != w.to_bits() && !(x.is_nan() && w.is_nan()) { return v("wrong-prediction", format!("{} example {}: {} printed, the library says {}", what, i, x, w)); }
    }
    Ok(())
}

/// The textbook value of a metric, and how far f32 arithmetic and five printed digits may be off.
fn textbook(name: &str, t: &[f32], p: &[f32]) -> Option<(f64, f64)> {
    let n = t.len() as f64;
    let wrong = |thr: f32| t.iter().zip(p).filter(|(t, p)| (**t < 0.5) != (**p < thr)).count() as f64 / n;
    let l2 = t.iter().zip(p).map(|(t, p)| { let d = *t as f64 - *p as f64; d * d }).sum::<f64>() / n;
    let big = t.iter().chain(p).fold(0f64, |m, x| m.max(x.abs() as f64));
    let r = 1e-4 + 2e-7 * n; // five digits, and a sum of n terms
    Some(match name {
        "l2" => (l2, l2 * r + 1e-6 * big * l2.sqrt() + 1e-12 * big * big),
        "rmse" => (l2.sqrt(), l2.sqrt() * r + 1e-6 * big),
        "binary_error" => { let w = wrong(0.0); (w, w * r) }
        "binary_error01" => { let w = wrong(0.5); (w, w * r) }
        "binary_loss" => {
            // no class labels, or beyond what the exponential in f32 can tell
            if big > 35.0 || t.iter().any(|&t| t != 0.0 && t != 1.0) { return None; }
            let x = t.iter().zip(p).map(|(t, p)| (-2.0 * (2.0 * *t as f64 - 1.0) * *p as f64).exp().ln_1p()).sum::<f64>() / n;
            (x, x * r + 1e-6 * (1.0 + big))
        }
        _ => return None,
    })
}

pub struct C13;
impl Check for C13 {
    fn id(&self) -> &'static str { "C13" }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> J {
        let objective = *r.pick(&work::OBJS);
        let data = work::gen_data(r, work::DataOpts { n: (2, 250), nf: (1, 5), class: matches!(objective, "binary" | "hinge"), degenerate: r.clone().chance(0.2), maxcard: 40 });
        let mut conf = work::gen_conf(r, &work::ConfOpts { iters: (1, 5), depth: (1, 5), sampling: 0.3 }, objective);
        let data = if r.chance(0.02) { // so much to print that no buffer holds it
            conf.set("niterations", r.range(1, 2));
            work::gen_data(r, work::DataOpts { n: (2000, 7000), nf: (1, 2), class: matches!(objective, "binary" | "hinge"), degenerate: false, maxcard: 40 })
        } else { data };
        let mut data = data;
        if r.chance(0.06) { data.set("test_n", r.logrange(1, 5000)); } // a test file of any size
        work::fix_bag(&mut conf, &data);
        let calm = r.chance(0.35);
        let e = |r: &mut Rng| if r.chance(0.12) { gen_edits(r) } else { J::Arr(vec![]) };
        let mets = match r.range(0, 5) { 0 => "", 1 => "l2", 2 => "rmse,l2", 3 => "binary_error", 4 => "binary_loss,rmse", _ => "binary_error01" };
        obj! { "mode" => *r.pick(&["tree", "boost", "boost", "boost_and_predict_raw", "boost_and_predict_raw", "boost_and_predict_raw"]),
            "data" => data, "conf" => conf, "metrics" => mets, "with_test" => r.chance(0.6), "header" => r.chance(0.6), "delim" => *r.pick(&[44i64, 44, 59]),
            "train_edits" => e(r), "test_edits" => e(r), "names" => if r.chance(0.7) { 0 } else { r.range(1, 3) }, "lost" => *r.pick(&["", "", "", "", "", "", "", "", "train", "test"]),
            "badarg" => *r.pick(&["", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "objective=nothing", "metrics=nothing", "niterations=x", "nofield=1", "novalue"]),
            "workers" => *r.pick(&[1i64, 2, 3, 4]), "sched" => work::gen_sched(r),
            "p_short" => *r.pick(&[0.0, 0.3, 0.9]), "p_eintr" => *r.pick(&[0.0, 0.1, 0.4]),
            "p_so_err" => if calm { 0.0 } else { *r.pick(&[0.0, 0.02, 0.1]) }, "p_rd_err" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.05, 0.3]) },
            "p_open" => if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.2]) } }
    }
    fn valid(&self, c: &J) -> bool { work::conf_valid(c.get("conf"), c.get("data")) && c.i("workers") >= 1 && [44, 59].contains(&c.i("delim")) }
    fn exec(&self, plan: &Plan) -> Res {
        let c = &plan.case;
        let (d, conf) = (c.get("data"), c.get("conf"));
        let delim = c.us("delim") as u8;
        let (ftrain, ftest, others) = NAMES[c.us("names").min(3)];
        let t_train = work::table(d, 0);
        let t_test = work::table(d, 1);
        let mut train = work::csv_of(&t_train, c.b("header"), delim as char).into_bytes();
        let mut test = work::csv_of(&t_test, c.b("header"), delim as char).into_bytes();
        apply_edits(&mut train, c.get("train_edits"));
        apply_edits(&mut test, c.get("test_edits"));
        let with_test = c.b("with_test");
        let cats: Vec<usize> = t_train.cols.iter().enumerate().filter(|x| x.1.cat).map(|x| x.0).collect();
        let mut args = vec![c.s("mode").to_string(), format!("train={}", ftrain)];
        if with_test { args.push(format!("test={}", ftest)); }
        args.push(format!("csv_has_header={}", c.b("header")));
        args.push(format!("csv_delimiter={}", delim));
        args.push(format!("categorical_features={}", cats.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        if !c.s("metrics").is_empty() { args.push(format!("metrics={}", c.s("metrics"))); }
        for (k, x) in work::conf_pairs(conf) { args.push(format!("{}={}", k, x)); }
        let mut bad: Option<String> = None;
        if !c.s("badarg").is_empty() { args.push(c.s("badarg").to_string()); bad = Some(format!("argument {}", c.s("badarg"))); }
        let mut files = Vec::new();
        for (path, bytes, on, tag) in [(ftrain, &train, true, "train"), (ftest, &test, with_test, "test")] {
            if !on { continue; }
            if c.s("lost") == tag { bad = Some(format!("{} does not exist", path)); }
            else {
                files.push((path.to_string(), bytes.clone()));
                if let Err(e) = reference(bytes, c.b("header"), delim, &cats) { bad = Some(format!("{}: {}", path, e)); }
            }
        }
        for o in others { files.push((o.to_string(), work::csv_of(&work::table(d, 2), c.b("header"), delim as char).into_bytes())); }
        let edited = !c.a("train_edits").is_empty() || (with_test && !c.a("test_edits").is_empty());
        let exe = cli::bin("run_bitboost");
        let job = Job { bin: &exe, args: &args, workers: c.us("workers"), files: &files, rd: "", wr: "" };
        let calm = cli::run(&Job { workers: 1, ..job }, &Cfg::quiet(1), None);
        let ended = |r: &CliRun, who: &str| -> Res {
            if let Some(f) = &r.fatal { return v("stuck", format!("{}: {}", who, f.1)); }
            if r.timed_out { return v("stuck", format!("{}: did not end", who)); }
            Ok(())
        };
        ended(&calm, "undisturbed run")?;
        let died = |r: &CliRun| r.signal != 0;
        if died(&calm) && !edited { return v("program-died", format!("undisturbed run: {}", calm.end())); }
        match (&bad, calm.exit) {
            (Some(b), 0) => return v("accepted-bad", format!("exit 0 although: {}", b)),
            (None, e) if e != 0 && !edited => return v("rejected-good", format!("undisturbed run of a good command: {}", calm.end())),
            _ => {}
        }

        let mut cfg = work::sched_cfg(c.get("sched"), 0);
        for (k, p) in [(F_SO_SHORT, "p_short"), (F_RD_SHORT, "p_short"), (F_SO_ERR, "p_so_err"), (F_RD_ERR, "p_rd_err"), (F_OPEN_ERR, "p_open")] { cfg.fault_rate[k] = c.f(p); }
        for k in [F_SO_EINTR, F_RD_EINTR, F_OPEN_EINTR] { cfg.fault_rate[k] = c.f("p_eintr"); cfg.fault_cap[k] = 200; }
        cfg.max_steps = 400_000_000;
        let r = cli::run(&job, &cfg, Some(plan));
        ended(&r, "disturbed run")?;
        if died(&r) && !died(&calm) { return v("program-died", format!("disturbed run: {}", r.end())); }
        let ff = &r.stats.fault_fired;
        let hard = ff[F_SO_ERR] + ff[F_RD_ERR] + ff[F_OPEN_ERR] > 0;
        let soft = ff[F_SO_SHORT] + ff[F_RD_SHORT] + ff[F_SO_EINTR] + ff[F_RD_EINTR] + ff[F_OPEN_EINTR] + ff[F_CLOCK] > 0;
        if r.exit == 0 {
            if hard { return v("hidden-error", format!("exit 0 although {} write, {} read and {} open errors were reported to the program", ff[F_SO_ERR], ff[F_RD_ERR], ff[F_OPEN_ERR])); }
            if calm.exit != 0 { return v("accepted-bad", format!("exit 0 only when disturbed; undisturbed: {}", calm.end())); }
            let (a, b) = (stable(&calm.stdout), stable(&r.stdout));
            if a != b {
                let k = a.iter().zip(&b).take_while(|x| x.0 == x.1).count();
                let cut = |x: &[u8]| String::from_utf8_lossy(&x[k.saturating_sub(20).min(x.len())..(k + 60).min(x.len())]).into_owned();
                return v("other-output", format!("exit 0, output differs from the undisturbed run at byte {}: {:?} instead of {:?}", k, cut(&b), cut(&a)));
            }
            probe("clean_exits", 1);
            if soft { probe("clean_exits_despite_faults", 1); }
            nontrivial();
        } else {
            if !hard && calm.exit == 0 { return v("false-error", format!("only benign faults, but: {}", r.end())); }
            if hard { probe("errors_reported", 1); nontrivial(); }
            if bad.is_some() { probe("bad_input_rejected", 1); nontrivial(); }
        }
        digest(mix(r.exit as u64) ^ r.stdout.iter().fold(0u64, |h, &b| h.wrapping_mul(31).wrapping_add(b as u64)));

        // what an undisturbed run prints must be what the library computes
        if calm.exit == 0 && !edited {
            rt::set_private();
            rt::begin(&Cfg::quiet(3), None);
            rt::stdout_mode(1);
            let mut all = conf.clone();
            all.set("metrics", c.s("metrics"));
            let mut cf = work::conf_of(&all);
            cf.categorical_features = cats.clone();
            let dtr = work::data_of(&t_train, &cf).unwrap();
            let dte = work::data_of(&t_test, &cf).unwrap();
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
            let (ptr, pte) = pool.install(|| {
                let mut o = objective_from_name(&cf.objective).unwrap();
                if c.s("mode") == "tree" {
                    let target = dtr.get_target();
                    o.initialize(&cf, target);
                    o.update(target);
                    let mut ds = Dataset::new(&cf, &dtr);
                    ds.update(&cf, o.gradients(), o.bounds());
                    let mut ctx = TreeLearnerContext::new(&cf, &dtr);
                    let sc = ds.get_supercats().clone();
                    let mut t = TreeLearner::new(&mut ctx, &ds, sc, o.as_mut()).train();
                    t.set_bias(o.bias());
                    (t.predict(&dtr), t.predict(&dte))
                } else {
                    let ms = vec![];
                    let m = Booster::new(&cf, &dtr, o.as_mut(), &ms).train();
                    (m.predict(&dtr), m.predict(&dte))
                }
            });
            rt::end();
            rt::set_shared_slot();
            if c.s("mode") == "boost_and_predict_raw" {
                for (key, want, on) in [("__PREDICTIONS_TRAIN__", &ptr, true), ("__PREDICTIONS_TEST__", &pte, with_test)] {
                    match raw_line(&calm.stdout, key) {
                        Some(g) if on => { same_numbers(key, &g, want)?; probe("raw_predictions_checked", g.len() as u64); }
                        None if on => return v("no-predictions", format!("there is not exactly one {} line", key)),
                        Some(_) => return v("no-predictions", format!("{} printed without a test file", key)),
                        None => {}
                    }
                }
            } else {
                let text = String::from_utf8_lossy(&calm.stdout).into_owned();
                let ms = metrics_from_names(&cf.metrics).unwrap();
                for m in &ms {
                    let a = m.eval(dtr.get_target(), &ptr);
                    let mut want = format!("[   ] eval {:13} train {:10.4e}", m.name(), a);
                    if with_test { want.push_str(&format!(",   test {:10.4e}", m.eval(dte.get_target(), &pte))); }
                    if text.lines().filter(|l| *l == want).count() != 1 { return v("wrong-summary", format!("no line '{}' in: {}", want, text.lines().filter(|l| l.contains("train ")).collect::<Vec<_>>().join(" | "))); }
                    probe("summary_lines_checked", 1);
                }
                for (m, name) in ms.iter().zip(c.s("metrics").split(',')) {
                    for (what, d, p, on) in [("train", &dtr, &ptr, true), ("test", &dte, &pte, with_test)] {
                        if !on { continue; }
                        let x = m.eval(d.get_target(), p) as f64;
                        if let Some((w, e)) = textbook(name, d.get_target(), p) {
                            if !((x - w).abs() <= e) && w.is_finite() && w < 1e30 { return v("wrong-metric", format!("{} on the {} data is {:e} instead of {:e}", name, what, x, w)); }
                            probe("metrics_recomputed", 1);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn budget(&self, t: Tier) -> (u64, f64) { if t == Tier::Quick { (25000, 60.0) } else { (400000, 900.0) } }
    fn rule(&self) -> &'static str { "a run counts when the program ended with 0 and its output was compared, or reported an injected error or a bad input; distinct by schedule and fault trace, exit status and output" }
    fn real(&self) -> Vec<&'static str> { vec!["the whole run_bitboost program (release build, scheduling points inserted by the compiler)", "rayon", "csv crate", "std I/O"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["thread scheduling", "futex", "clock", "entropy", "file system calls for the input files", "stdout faults"] }
    fn probes(&self) -> &'static [&'static str] { &["clean_exits", "clean_exits_despite_faults", "errors_reported", "bad_input_rejected", "raw_predictions_checked", "summary_lines_checked", "metrics_recomputed"] }
    fn keep(&self) -> &'static [&'static str] { &["delim", "kind", "ch", "k", "objective", "mode"] }
    fn cpu_limit(&self) -> u64 { 120 }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a closed standard output (EBADF) is not simulated: the standard library ignores it by design"] }
}

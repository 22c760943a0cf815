//! Runs a command line tool of the repository under the simulator, in a process of its own.
use crate::rt::{Cfg, FaultRec, SimShared, Stats, Switch, MAXFLT, MAXLOG};
use crate::sup::{slot, Plan};
use std::ffi::CString;
use std::time::Instant;

#[repr(C)] struct FileEnt { path: [u8; 256], off: u64, len: u64 }
#[repr(C)] struct CliPlan {
    magic: u32, replay: i32, nsw: i32, nf: i32, fatal_kind: i32, begun: i32, ended: i32, nfiles: i32,
    fatal_msg: [u8; 256], rd: [u8; 256], wr: [u8; 256], files: [FileEnt; 8],
    cfg: Cfg, out: SimShared, sw: [Switch; MAXLOG], flt: [FaultRec; MAXFLT],
}

pub struct CliRun { pub exit: i32, pub signal: i32, pub fatal: Option<(i32, String)>, pub timed_out: bool, pub stdout: Vec<u8>, pub stderr: Vec<u8>, pub stats: Stats }
impl CliRun {
    pub fn end(&self) -> String {
        let e = String::from_utf8_lossy(&self.stderr);
        let e: String = e.trim().chars().take(300).collect();
        if self.signal != 0 { format!("signal {} ({})", self.signal, e) } else { format!("exit {} ({})", self.exit, e) }
    }
}

pub fn bin(name: &str) -> String {
    let exe = std::env::current_exe().unwrap();
    // <verif>/target/sim/<triple>/release/bbsim -> <verif>/target/cli/<triple>/release/<name>
    let t = exe.ancestors().nth(4).unwrap();
    format!("{}/cli/x86_64-unknown-linux-gnu/release/{}", t.display(), name)
}

fn cstr(dst: &mut [u8], s: &str) { assert!(s.len() < dst.len()); dst[..s.len()].copy_from_slice(s.as_bytes()); dst[s.len()] = 0; }

unsafe fn memfd(name: &std::ffi::CStr) -> i32 { let fd = libc::memfd_create(name.as_ptr(), 0); assert!(fd >= 0); fd }
unsafe fn slurp(fd: i32) -> Vec<u8> {
    let n = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
    let mut b = vec![0u8; n];
    let mut at = 0;
    while at < n { let r = libc::pread(fd, b.as_mut_ptr().add(at) as *mut _, n - at, at as i64); if r <= 0 { break; } at += r as usize; }
    libc::close(fd);
    b
}

pub struct Job<'a> { pub bin: &'a str, pub args: &'a [String], pub workers: usize, pub files: &'a [(String, Vec<u8>)], pub rd: &'a str, pub wr: &'a str }

/// `log`: follow this plan's log (if any) and leave the run's own log in the shared slot.
pub fn run(job: &Job, cfg: &Cfg, log: Option<&Plan>) -> CliRun {
    unsafe {
        let sz = std::mem::size_of::<CliPlan>();
        let total: usize = sz + job.files.iter().map(|f| f.1.len()).sum::<usize>();
        let fd = memfd(c"plan");
        assert_eq!(libc::ftruncate(fd, total as i64), 0);
        let m = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(m != libc::MAP_FAILED);
        let p = &mut *(m as *mut CliPlan);
        p.magic = 0xB0057C11;
        p.cfg = cfg.clone();
        if let Some(Plan { log: Some((s, f)), .. }) = log {
            p.replay = 1; p.nsw = s.len() as i32; p.nf = f.len() as i32;
            p.sw[..s.len()].copy_from_slice(s);
            p.flt[..f.len()].copy_from_slice(f);
        }
        cstr(&mut p.rd, job.rd); cstr(&mut p.wr, job.wr);
        assert!(job.files.len() <= 8);
        p.nfiles = job.files.len() as i32;
        let mut off = sz;
        for (i, (path, data)) in job.files.iter().enumerate() {
            cstr(&mut p.files[i].path, path);
            p.files[i].off = off as u64; p.files[i].len = data.len() as u64;
            std::ptr::copy_nonoverlapping(data.as_ptr(), (m as *mut u8).add(off), data.len());
            off += data.len();
        }
        let (so, se) = (memfd(c"out"), memfd(c"err"));
        let path = CString::new(job.bin).unwrap();
        let mut argv: Vec<CString> = vec![path.clone()];
        argv.extend(job.args.iter().map(|a| CString::new(a.as_str()).unwrap()));
        let mut av: Vec<*const libc::c_char> = argv.iter().map(|a| a.as_ptr()).collect(); av.push(std::ptr::null());
        let envs: Vec<CString> = vec![CString::new(format!("BBSIM_FD={}", fd)).unwrap(), CString::new(format!("RAYON_NUM_THREADS={}", job.workers)).unwrap()];
        let mut ev: Vec<*const libc::c_char> = envs.iter().map(|a| a.as_ptr()).collect(); ev.push(std::ptr::null());
        let t0 = Instant::now();
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::dup2(so, 1); libc::dup2(se, 2);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::execve(path.as_ptr(), av.as_ptr(), ev.as_ptr());
            libc::_exit(127);
        }
        let mut st = 0;
        let mut timed_out = false;
        let mut nap = 200u64;
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid { break; }
            if t0.elapsed().as_secs() > 60 { timed_out = true; libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); break; }
            std::thread::sleep(std::time::Duration::from_micros(nap));
            nap = (nap * 5 / 4).min(5000);
        }
        let fatal = if p.fatal_kind != 0 {
            let n = p.fatal_msg.iter().position(|&c| c == 0).unwrap_or(0);
            Some((p.fatal_kind, String::from_utf8_lossy(&p.fatal_msg[..n]).into_owned()))
        } else { None };
        assert!(p.begun == 1 || libc::WIFSIGNALED(st), "{} was not built with the simulator (status {})", job.bin, st);
        if log.is_some() {
            let s = &mut slot().sim;
            s.stats = p.out.stats; s.nsw = p.out.nsw; s.nflt = p.out.nflt;
            let (a, b) = ((p.out.nsw.max(0) as usize).min(MAXLOG), (p.out.nflt.max(0) as usize).min(MAXFLT));
            s.sw[..a].copy_from_slice(&p.out.sw[..a]);
            s.flt[..b].copy_from_slice(&p.out.flt[..b]);
        }
        let stats = p.out.stats;
        libc::munmap(m, total);
        libc::close(fd);
        CliRun { exit: if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -1 }, signal: if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 },
                 fatal, timed_out, stdout: slurp(so), stderr: slurp(se), stats }
    }
}

//! The installed `cpuid` program on the real CPU, for C13 and C14.
use crate::machine::*;
use crate::native::{allowed, own, pin, unpin, Own};
use crate::report::*;
use crate::reportref::reference;
use raw_cpuid::CpuId;
use std::process::{Command, Output, Stdio};

/// Runs that had to be ended: too much output, or no end.
static ENDED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Like `Command::output`, for a program that may never stop or never stop
/// writing: 20 s of CPU time, 3 minutes, 64 MB.
fn bounded(mut c: Command) -> std::io::Result<(Output, Option<&'static str>)> {
    use std::io::Read;
    use std::os::unix::process::CommandExt;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 21 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut child = c.spawn()?;
    let pid = child.id() as i32;
    let (much, over) = (AtomicBool::new(false), AtomicBool::new(false));
    let (done, wait) = std::sync::mpsc::channel::<()>();
    let end = |why: &AtomicBool| {
        why.store(true, SeqCst);
        // not yet waited for, so the number is still its own
        unsafe { libc::kill(pid, libc::SIGKILL) };
    };
    let (out, err) = (child.stdout.take(), child.stderr.take());
    let (stdout, stderr) = std::thread::scope(|s| {
        let (end, much, over) = (&end, &much, &over);
        let e = s.spawn(move || {
            let mut v = Vec::new();
            if let Some(mut f) = err {
                let _ = f.by_ref().take(1 << 20).read_to_end(&mut v);
                let _ = std::io::copy(&mut f, &mut std::io::sink());
            }
            v
        });
        let o = s.spawn(move || {
            let mut v = Vec::new();
            if let Some(f) = out {
                let _ = f.take(64 << 20).read_to_end(&mut v);
                if v.len() == 64 << 20 {
                    end(much);
                }
            }
            v
        });
        s.spawn(move || {
            if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = wait.recv_timeout(std::time::Duration::from_secs(180)) {
                end(over);
            }
        });
        let r = (o.join().unwrap(), e.join().unwrap());
        // its output may go elsewhere; wait for it without taking its number away
        unsafe {
            let mut i: libc::siginfo_t = std::mem::zeroed();
            libc::waitid(libc::P_PID, pid as u32, &mut i, libc::WEXITED | libc::WNOWAIT);
        }
        drop(done);
        r
    });
    let status = child.wait()?;
    use std::os::unix::process::ExitStatusExt;
    let why = if much.load(SeqCst) {
        Some("ended after 64 MB of output")
    } else if over.load(SeqCst) {
        Some("ended after 3 minutes")
    } else if matches!(status.signal(), Some(libc::SIGXCPU)) {
        Some("ended after 20 s of CPU time")
    } else {
        None
    };
    if why.is_some() {
        ENDED.fetch_add(1, SeqCst);
    }
    Ok((Output { status, stdout, stderr }, why))
}

fn cpuid(args: &[&str]) -> Option<Result<String, String>> {
    let bin = crate::arg("--bin", "");
    if bin.is_empty() {
        return None;
    }
    let mut c = Command::new(bin);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    Some(match bounded(c) {
        Err(e) => {
            eprintln!("cannot run the program: {}", e);
            std::process::exit(3);
        }
        Ok((_, Some(why))) => Err(why.into()),
        Ok((o, _)) if !o.status.success() => Err(format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr))),
        Ok((o, _)) => Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
    })
}

/// The executing core as a synthetic CPU.
fn snapshot() -> Option<Machine> {
    let mut m = Machine::new(Dflt::Zero);
    for start in [0u32, 0x4000_0000, 0x8000_0000] {
        let max = own(start, 0).a;
        if max < start {
            let x = own(start, 0);
            m.put(start, 0, Regs::new(x.a, x.b, x.c, x.d));
            continue;
        }
        if max - start > 100_000 {
            return None;
        }
        for l in start..=max {
            m.put(l, 0, own(l, 0));
        }
    }
    Some(m)
}

fn each(thorough: bool, r: &mut Report, mut f: impl FnMut(usize, &mut Report) -> bool) {
    if crate::arg("--bin", "").is_empty() {
        return;
    }
    let cores = allowed();
    for &c in cores.iter().take(if thorough { 64 } else { 3 }) {
        if !pin(c) {
            continue;
        }
        let mut steady = false;
        for _ in 0..6 {
            if f(c, r) {
                steady = true;
                break;
            }
        }
        r.count(if steady { "cores on which the program was compared with the real CPU" } else { "cores too volatile to compare" }, 1);
        tick();
    }
    unpin(&cores);
}

pub fn raw(thorough: bool, r: &mut Report) {
    each(thorough, r, |core, r| {
        let Some(a) = snapshot() else { return false };
        let args: &[&str] = [&["-f", "raw"][..], &["--format", "raw"], &["--format=raw"]][core % 3];
        let out = cpuid(args).unwrap();
        if snapshot().map(|b| b.fingerprint()) != Some(a.fingerprint()) {
            return false;
        }
        r.eval(Some(a.fingerprint()));
        match out {
            Err(e) => r.viol("program:failed", || format!("cpuid {:?}: {}", args, e), &a),
            Ok(t) => crate::rawdump::compare(&t, &a, "program:", r),
        }
        true
    });
}

pub fn report(thorough: bool, r: &mut Report) {
    each(thorough, r, |core, r| {
        let refer = || reference(&CpuId::with_cpuid_reader(Own));
        let want = refer();
        let args: &[&str] = [&[][..], &["-f", "cli"], &["--format", "cli"]][core % 3];
        let out = cpuid(args).unwrap();
        if refer() != want {
            return false;
        }
        let m = snapshot().unwrap_or_else(|| Machine::new(Dflt::Zero));
        r.eval(Some(m.fingerprint() ^ 1));
        match out {
            Err(e) => r.viol("program:failed", || format!("cpuid {:?}: {}", args, e), &m),
            Ok(t) => {
                r.count("rows and titles of the program compared", want.len() as u64);
                crate::textrep::compare(&crate::textrep::tokens(&t), &want, r, &m)
            }
        }
        true
    });
}

/// Runs the program with every CPUID instruction of its own answered for `m`
/// (see emu/emu.c). None: this machine cannot (no CPUID faulting).
fn emulated(args: &[&str], m: &Machine, r: &mut Report) -> Option<Result<String, String>> {
    emulated_to(args, m, Stdio::piped(), r)
}
fn emulated_to(args: &[&str], m: &Machine, to: Stdio, r: &mut Report) -> Option<Result<String, String>> {
    use std::os::unix::process::ExitStatusExt;
    let (bin, emu) = (crate::arg("--bin", ""), crate::arg("--emu", ""));
    if bin.is_empty() || emu.is_empty() || ENDED.load(std::sync::atomic::Ordering::SeqCst) >= 3 {
        return None;
    }
    let out = crate::arg("--out", "/tmp/mon");
    let (file, log) = (format!("{}.machine", out), format!("{}.log", out));
    let (kind, seed) = match m.dflt {
        Dflt::Zero => (0u64, 0),
        Dflt::Ones => (1, 0),
        Dflt::Noise(s) => (2, s),
    };
    let mut cells: Vec<_> = m.map.iter().collect();
    cells.sort();
    let mut b = Vec::new();
    for x in [kind, seed, cells.len() as u64] {
        b.extend_from_slice(&x.to_le_bytes());
    }
    for (k, x) in cells {
        for w in [(*k >> 32) as u32, *k as u32, x.a, x.b, x.c, x.d] {
            b.extend_from_slice(&w.to_le_bytes());
        }
    }
    std::fs::write(&file, b).unwrap();
    let mut c = Command::new(bin);
    c.args(args).env("LD_PRELOAD", emu).env("EMU_MACHINE", &file).env("EMU_LOG", &log).stdin(Stdio::null()).stdout(to).stderr(Stdio::piped());
    let o = bounded(c);
    let seen = std::fs::read(&log).unwrap_or_default();
    std::fs::remove_file(&file).ok();
    std::fs::remove_file(&log).ok();
    let o = match o {
        Err(e) => {
            eprintln!("cannot run the program: {}", e);
            std::process::exit(3);
        }
        Ok((_, Some(why))) => return Some(Err(why.into())),
        Ok((o, _)) => o,
    };
    // 77: no CPUID faulting; an illegal instruction: the synthetic CPU has
    // what the program's runtime wants to use and the real one has not
    if o.status.code() == Some(77) || o.status.signal() == Some(libc::SIGILL) {
        r.count("runs of the program on an emulated CPU that this machine cannot do", 1);
        return None;
    }
    if o.status.success() && seen.is_empty() {
        r.count("runs of the program that executed no CPUID instruction", 1);
    }
    r.count("CPUID instructions of the program answered for a synthetic CPU", seen.len() as u64 / 8);
    r.count("runs of the program on a synthetic CPU", 1);
    Some(if o.status.success() { Ok(String::from_utf8_lossy(&o.stdout).into_owned()) } else { Err(format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr))) })
}

pub fn raw_on(m: &Machine, k: usize, r: &mut Report) {
    let args: &[&str] = [&["-f", "raw"][..], &["--format", "raw"], &["--format=raw"], &["-fraw"]][k % 4];
    current(|| format!("the program, raw\n{}", m.describe()));
    match emulated(args, m, r) {
        None => return,
        Some(Err(e)) => r.viol("program:failed", || format!("cpuid {:?}: {}", args, e), m),
        Some(Ok(t)) => crate::rawdump::compare(&t, m, "program:", r),
    }
    r.eval(Some(m.fingerprint()));
    tick();
}

pub fn report_on(m: &Machine, k: usize, r: &mut Report) {
    let args: &[&str] = [&[][..], &["-f", "cli"], &["--format", "cli"], &["--format=cli"]][k % 4];
    current(|| format!("the program, report\n{}", m.describe()));
    let Ok(want) = crate::model::guard(|| reference(&CpuId::with_cpuid_reader(Rd::new(m.clone())))) else { return };
    match emulated(args, m, r) {
        None => return,
        Some(Err(e)) => r.viol("program:failed", || format!("cpuid {:?}: {}", args, e), m),
        Some(Ok(t)) => {
            r.count("rows and titles of the program compared", want.len() as u64);
            crate::textrep::compare(&crate::textrep::tokens(&t), &want, r, m)
        }
    }
    r.eval(Some(m.fingerprint()));
    tick();
}

/// The program's output goes where there is not room for all of it.
pub fn cut_short(m: &Machine, rng: &mut Rng, rooms: usize, r: &mut Report) {
    use std::io::{Read, Write};
    use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
    for args in [&["-f", "raw"][..], &[]] {
        current(|| format!("the program, output cut short\n{}", m.describe()));
        let Some(Ok(all)) = emulated(args, m, r) else { return };
        if all.is_empty() {
            continue;
        }
        let full = std::fs::OpenOptions::new().write(true).open("/dev/full");
        if let Ok(f) = full {
            if let Some(o) = emulated_to(args, m, f.into(), r) {
                r.eval(Some(m.fingerprint() ^ args.len() as u64));
                r.count("runs of the program whose output had no room", 1);
                if o.is_ok() {
                    r.viol("program:unreported", || format!("cpuid {:?} reports success though its output could not be written (no space)", args), m);
                }
            }
        }
        for _ in 0..rooms {
            // a pipe that nobody empties, partly filled; a write that does not fit fails
            let mut fds = [0; 2];
            if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK) } != 0 {
                return;
            }
            let (rx, tx) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
            let want = 4096 << rng.below(5);
            let size = unsafe { libc::fcntl(tx.as_raw_fd(), libc::F_SETPIPE_SZ, want) };
            if size <= 0 {
                return;
            }
            // room for between one and all but one of the bytes
            let room = (1 + rng.below(all.len() as u32 - 1) as usize).min(size as usize);
            let fill = vec![b'#'; size as usize - room];
            let mut tx = std::fs::File::from(tx);
            if tx.write(&fill).ok() != Some(fill.len()) || size as usize - fill.len() >= all.len() {
                continue;
            }
            let Some(o) = emulated_to(args, m, tx.into(), r) else { return };
            let (mut got, mut rx) = (Vec::new(), std::fs::File::from(rx));
            let _ = rx.read_to_end(&mut got);
            let got = String::from_utf8_lossy(&got[fill.len().min(got.len())..]).into_owned();
            r.eval(Some(mix(m.fingerprint()) ^ fill.len() as u64));
            r.count("runs of the program whose output had little room", 1);
            if o.is_ok() {
                r.viol("program:unreported", || format!("cpuid {:?} reports success though only {} of {} bytes could be written", args, got.len(), all.len()), m);
            }
            if !all.starts_with(got.trim_end_matches('\u{fffd}')) {
                r.viol("program:mangled", || format!("cpuid {:?}: what was written before the output was full ({} bytes) is not the beginning of the whole", args, got.len()), m);
            }
        }
        tick();
    }
}

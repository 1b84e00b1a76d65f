//! A controlling terminal wide enough for the report.
/// Continues in a child process whose controlling terminal is a wide
/// pseudo-terminal, so that the report is laid out without line breaks.
/// Returns in the child; the parent waits and passes the child's status on.
pub fn on_terminal() {
    unsafe {
        let mut master = 0;
        let ws = libc::winsize { ws_row: 500, ws_col: 1000, ws_xpixel: 0, ws_ypixel: 0 };
        let pid = libc::forkpty(&mut master, std::ptr::null_mut(), std::ptr::null_mut(), &ws as *const _ as *mut _);
        if pid < 0 {
            eprintln!("no pseudo-terminal");
            std::process::exit(3);
        }
        if pid == 0 {
            std::env::set_var("TERM", "xterm-256color");
            return;
        }
        let mut buf = [0u8; 65536];
        let mut err = std::io::stderr();
        loop {
            let n = libc::read(master, buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            use std::io::Write;
            err.write_all(&buf[..n as usize]).ok();
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
            libc::raise(libc::WTERMSIG(st));
        }
        std::process::exit(libc::WEXITSTATUS(st));
    }
}

//! Captures what the library prints: file descriptor 1 is replaced by an
//! anonymous memory file for the time of the capture.
use std::io::Write;

pub struct Capture {
    saved: i32,
    mem: i32,
}

impl Capture {
    pub fn new() -> Capture {
        std::io::stdout().flush().ok();
        unsafe {
            let mem = libc::memfd_create(c"capture".as_ptr(), 0);
            assert!(mem >= 0);
            Capture { saved: libc::dup(1), mem }
        }
    }
    /// Runs `f` and returns what it printed.
    pub fn run(&self, f: impl FnOnce()) -> String {
        unsafe {
            std::io::stdout().flush().ok();
            libc::ftruncate(self.mem, 0);
            libc::lseek(self.mem, 0, libc::SEEK_SET);
            libc::dup2(self.mem, 1);
        }
        f();
        std::io::stdout().flush().ok();
        unsafe {
            libc::dup2(self.saved, 1);
            let len = libc::lseek(self.mem, 0, libc::SEEK_END) as usize;
            let mut buf = vec![0u8; len];
            let mut off = 0;
            while off < len {
                let n = libc::pread(self.mem, buf[off..].as_mut_ptr() as *mut libc::c_void, len - off, off as libc::off_t);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            String::from_utf8_lossy(&buf).into_owned()
        }
    }
}

impl Drop for Capture {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.saved);
            libc::close(self.mem);
        }
    }
}

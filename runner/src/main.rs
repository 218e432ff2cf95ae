//! Fork server around the ruruby VM.
//!
//! stdin : frames  { u32 len | u32 cpu_seconds | u32 flags | payload }
//! stdout: frames  { u32 len | status byte | u32 stdout_len | stdout | detail }
//!
//! Every request runs in a forked child, so a panic, a crash or corrupted
//! interpreter state in one case cannot leak into the next one.
//!
//! status: 'o' finished, 'e' Ruby error reached the top level (detail = error),
//!         'p' Rust panic (detail = message and place), 's' killed by a signal
//!         (detail = number), 't' CPU or wall limit (inconclusive).
//! flags bit 0: read whole program, run with VM; bit 1: parse only.
use ruruby::*;
use std::io::{Read, Write};
use std::os::raw::c_int;

fn memfd(name: &str) -> c_int {
    let n = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), 0) };
    assert!(fd >= 0, "memfd_create");
    fd
}

fn read_fd_all(fd: c_int, cap: usize) -> Vec<u8> {
    let mut out = vec![];
    unsafe { libc::lseek(fd, 0, libc::SEEK_SET) };
    let mut buf = vec![0u8; 65536];
    loop {
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
        if out.len() > cap {
            out.truncate(cap);
            break;
        }
    }
    out
}

fn write_fd(fd: c_int, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

static mut DETAIL_FD: c_int = -1;

fn child(vm: &mut VMRef, src: String, flags: u32, cpu: u32, out_fd: c_int, det_fd: c_int, err_fd: c_int) -> ! {
    unsafe {
        libc::dup2(out_fd, 1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 0);
        if std::env::var_os("RR_STDERR").is_none() {
            libc::dup2(err_fd, 2);
        }
        let lim = libc::rlimit {
            rlim_cur: cpu as u64,
            rlim_max: cpu as u64 + 2,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit {
            rlim_cur: 64 << 20,
            rlim_max: 64 << 20,
        };
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
        let lim = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::alarm(cpu * 12 + 60);
        DETAIL_FD = det_fd;
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = std::io::stdout().flush();
        unsafe {
            write_fd(DETAIL_FD, format!("{}\n{}", loc, msg).as_bytes());
            libc::_exit(101);
        }
    }));
    let code = if flags & 2 != 0 {
        match parse(src) {
            Ok(s) => {
                write_fd(det_fd, s.as_bytes());
                0
            }
            Err(s) => {
                write_fd(det_fd, s.as_bytes());
                1
            }
        }
    } else {
        match vm.run("(verif)", src) {
            Ok(_) => 0,
            Err(err) => {
                write_fd(det_fd, format!("{:?}", err).as_bytes());
                1
            }
        }
    };
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}

fn parse(src: String) -> Result<String, String> {
    match Parser::<DummyFrame>::parse_program(src, "(verif)", "top", None::<DummyFrame>) {
        Ok(r) => Ok(format!("{:?}", r.node)),
        Err(e) => Err(format!("{:?}", e)),
    }
}

#[derive(Debug, Clone, Copy)]
pub struct DummyFrame;
impl LocalsContext for DummyFrame {
    fn outer(&self) -> Option<Self> {
        None
    }
    fn get_lvarid(&self, _: IdentId) -> Option<LvarId> {
        None
    }
    fn lvar_collector(&self) -> LvarCollector {
        LvarCollector::new()
    }
}

fn main() {
    let mut vm = VM::new();
    let mut stdin = std::io::stdin();
    let proto = unsafe { libc::dup(1) };
    loop {
        let mut h = [0u8; 12];
        if stdin.read_exact(&mut h).is_err() {
            return;
        }
        let len = u32::from_le_bytes([h[0], h[1], h[2], h[3]]) as usize;
        let cpu = u32::from_le_bytes([h[4], h[5], h[6], h[7]]);
        let flags = u32::from_le_bytes([h[8], h[9], h[10], h[11]]);
        let mut payload = vec![0u8; len];
        stdin.read_exact(&mut payload).unwrap();
        let src = String::from_utf8_lossy(&payload).to_string();
        let out_fd = memfd("out");
        let det_fd = memfd("det");
        let err_fd = memfd("err");
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            child(&mut vm, src, flags, cpu, out_fd, det_fd, err_fd);
        }
        assert!(pid > 0, "fork");
        let mut st: c_int = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let out = read_fd_all(out_fd, 16 << 20);
        let mut det = read_fd_all(det_fd, 1 << 20);
        let errtxt = read_fd_all(err_fd, 2000);
        unsafe {
            libc::close(err_fd);
            libc::close(out_fd);
            libc::close(det_fd);
        }
        let status = if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGXCPU | libc::SIGALRM | libc::SIGKILL | libc::SIGXFSZ => b't',
                _ => {
                    det.extend_from_slice(format!("\nsignal {} ", sig).as_bytes());
                    det.extend_from_slice(&errtxt);
                    b's'
                }
            }
        } else {
            match libc::WEXITSTATUS(st) {
                0 => b'o',
                1 => b'e',
                101 => b'p',
                c => {
                    det.extend_from_slice(format!("exit {}", c).as_bytes());
                    b'x'
                }
            }
        };
        let mut frame = vec![];
        let total = 1 + 4 + out.len() + det.len();
        frame.extend_from_slice(&(total as u32).to_le_bytes());
        frame.push(status);
        frame.extend_from_slice(&(out.len() as u32).to_le_bytes());
        frame.extend_from_slice(&out);
        frame.extend_from_slice(&det);
        write_fd(proto, &frame);
    }
}

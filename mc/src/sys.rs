//! The few libc calls the explorer needs (no libc crate, so nothing extra to build).
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn memfd_create(name: *const c_char, flags: c_uint) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn close(fd: c_int) -> c_int;
    fn ftruncate(fd: c_int, len: c_long) -> c_int;
    fn lseek(fd: c_int, off: c_long, whence: c_int) -> c_long;
    fn pread(fd: c_int, buf: *mut c_void, n: usize, off: c_long) -> isize;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn setrlimit(which: c_int, lim: *const [u64; 2]) -> c_int;
    fn sysconf(name: c_int) -> c_long;
    fn prctl(op: c_int, ...) -> c_int;
    fn mkfifo(path: *const c_char, mode: c_uint) -> c_int;
    fn ioctl(fd: c_int, op: std::os::raw::c_ulong, ...) -> c_int;
    fn signal(sig: c_int, handler: usize) -> usize;
}

pub const WNOHANG: c_int = 1;
pub const SIGKILL: c_int = 9;

pub fn shared_zeroed(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

pub fn memfd() -> c_int {
    let fd = unsafe { memfd_create(b"mc\0".as_ptr() as *const c_char, 0) };
    assert!(fd >= 0, "memfd_create failed");
    fd
}

pub fn redirect(fd: c_int, onto: c_int) {
    assert!(unsafe { dup2(fd, onto) } >= 0, "dup2 failed");
}

pub fn reset_fd(fd: c_int) {
    unsafe {
        assert!(ftruncate(fd, 0) == 0);
        assert!(lseek(fd, 0, 0) == 0);
    }
}

pub fn read_fd(fd: c_int) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { pread(fd, buf.as_mut_ptr() as *mut c_void, buf.len(), out.len() as c_long) };
        assert!(n >= 0, "pread failed");
        if n == 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

pub fn write_fd(fd: c_int, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr() as *const c_void, b.len()) };
        if n <= 0 {
            unsafe { _exit(71) };
        }
        b = &b[n as usize..];
    }
}

pub fn open_dev_null() -> c_int {
    let fd = unsafe { open(b"/dev/null\0".as_ptr() as *const c_char, 2) };
    assert!(fd >= 0, "open /dev/null failed");
    fd
}

/// Cap the address space, so a runaway allocation in the code under test ends that process only.
pub fn limit_address_space(bytes: u64) {
    unsafe { setrlimit(9, &[bytes, bytes]) };
}

/// CPU time consumed so far by a process, in clock ticks scaled to milliseconds.
pub fn cpu_ms(pid: c_int) -> u64 {
    let hz = unsafe { sysconf(2) }.max(1) as u64;
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (get(11) + get(12)) * 1000 / hz
}

pub fn die_with_parent() {
    unsafe { prctl(1, SIGKILL as c_long) };
}

pub fn exited(status: c_int) -> Option<c_int> {
    if status & 0x7f == 0 { Some((status >> 8) & 0xff) } else { None }
}
pub fn signal_of(status: c_int) -> c_int {
    status & 0x7f
}

/// Limits for a program under test that is about to be executed: 20 s of CPU, 4 GB, and
/// optionally the size of files it may write (with or without the signal).
pub fn limit_exec(fsize: Option<(u64, bool)>) {
    unsafe {
        setrlimit(0, &[20, 20]);
        setrlimit(9, &[4 << 30, 4 << 30]);
        setrlimit(4, &[0, 0]);
        if let Some((n, ignore)) = fsize {
            setrlimit(1, &[n, n]);
            if ignore {
                signal(25, 1);
            }
        }
    }
}

pub fn make_fifo(path: &std::path::Path) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let mut p = path.as_os_str().as_bytes().to_vec();
    p.push(0);
    unsafe { mkfifo(p.as_ptr() as *const c_char, 0o644) == 0 }
}

/// Bytes in a pipe that nobody has read yet.
pub fn unread(fd: c_int) -> i32 {
    let mut n: c_int = 0;
    assert!(unsafe { ioctl(fd, 0x541b, &mut n as *mut c_int) } == 0, "FIONREAD failed");
    n
}

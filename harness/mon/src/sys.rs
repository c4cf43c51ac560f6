//! The few libc pieces the monitors need.
use std::ffi::c_void;
unsafe extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, l: usize) -> i32;
    pub fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
    pub fn fork() -> i32;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn kill(p: i32, s: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn getpid() -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn open(p: *const i8, f: i32, ...) -> i32;
    pub fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    pub fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
}
pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    if p as isize == -1 {
        eprintln!("mmap failed");
        std::process::exit(2);
    }
    p as *mut u8
}
/// stop core files and noisy output of crashing children; die with the parent
pub fn child_setup(quiet: bool) {
    unsafe {
        setrlimit(4, &[0, 0]);
        prctl(1, 9, 0, 0, 0);
        if quiet {
            let fd = open(c"/dev/null".as_ptr(), 1);
            if fd >= 0 {
                dup2(fd, 2);
            }
        }
    }
}
pub fn cpu_ticks(pid: i32) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0 };
    let Some(i) = s.rfind(')') else { return 0 };
    let w: Vec<&str> = s[i + 2..].split(' ').collect();
    w[11].parse::<u64>().unwrap_or(0) + w[12].parse::<u64>().unwrap_or(0)
}

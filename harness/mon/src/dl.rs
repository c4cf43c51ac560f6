//! Dynamic loading without any crate.
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::OnceLock;
unsafe extern "C" {
    fn dlopen(n: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
pub struct Lib(*mut c_void);
unsafe impl Send for Lib {}
unsafe impl Sync for Lib {}
impl Lib {
    pub fn open(p: &str) -> Lib {
        let c = CString::new(p).unwrap();
        // RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND
        let h = unsafe { dlopen(c.as_ptr(), 2 | 8) };
        if h.is_null() {
            let e = unsafe { CStr::from_ptr(dlerror()) };
            eprintln!("dlopen {p}: {}", e.to_string_lossy());
            std::process::exit(2);
        }
        Lib(h)
    }
    pub fn try_sym(&self, n: &str) -> usize {
        let c = CString::new(n).unwrap();
        unsafe { dlsym(self.0, c.as_ptr()) as usize }
    }
    pub fn sym(&self, n: &str) -> usize {
        let p = self.try_sym(n);
        if p == 0 {
            eprintln!("missing symbol {n}");
            std::process::exit(2);
        }
        p
    }
}
static LIBM: OnceLock<Lib> = OnceLock::new();
fn libm() -> &'static Lib {
    LIBM.get_or_init(|| Lib::open("libm.so.6"))
}
pub fn f64fn(n: &str) -> usize {
    libm().sym(n)
}
pub fn f128fn(n: &str) -> usize {
    libm().sym(&format!("{n}f128"))
}

use crate::dl::Lib;
use std::ffi::{c_char, CStr};
#[repr(C)]
struct Entry {
    route: *const c_char,
    name: *const c_char,
    op: *const c_char,
    sig: *const c_char,
    f: unsafe extern "C" fn(*const u128, *mut u128),
}
pub struct Rout {
    pub cfg: String,
    pub route: String,
    pub name: String,
    pub op: String,
    pub sig: String,
    pub f: unsafe extern "C" fn(*const u128, *mut u128),
}
pub struct Sut {
    pub cfg: String,
    pub lib: Lib,
    pub r: Vec<Rout>,
}
pub fn load(spec: &str) -> Sut {
    let (cfg, path) = spec.split_once('=').expect("sut spec");
    let lib = Lib::open(path);
    let mut r = vec![];
    unsafe {
        let t: extern "C" fn() -> *const Entry = std::mem::transmute(lib.sym("sut_table"));
        let n: extern "C" fn() -> usize = std::mem::transmute(lib.sym("sut_table_len"));
        for i in 0..n() {
            let e = &*t().add(i);
            let s = |p| CStr::from_ptr(p).to_str().unwrap().to_string();
            r.push(Rout { cfg: cfg.into(), route: s(e.route), name: s(e.name), op: s(e.op), sig: s(e.sig), f: e.f });
        }
    }
    Sut { cfg: cfg.into(), lib, r }
}

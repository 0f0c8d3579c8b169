//! The measuring tool as it is, for the interpreter, which can not do its system call: that is stood in for here.
mod tool {
    include!("/repo/src/bin/foliabenchmarkr.rs");
    pub fn go() { main() }
}

#[no_mangle]
pub unsafe extern "C" fn getrusage(_who: libc::c_int, data: *mut libc::rusage) -> libc::c_int {
    if std::env::var_os("FAIL_GETRUSAGE").is_some() { return -1; } //nothing written, as when it fails
    let mut r: libc::rusage = std::mem::zeroed();
    r.ru_maxrss = 1234;
    std::ptr::write(data, r);
    0
}

fn main() { tool::go() }

//! Stand-ins of the system calls that change files: they count the calls made by the current
//! thread, make chosen ones fail, and record and refuse the ones outside of a folder.
use libc::{c_char, c_int, c_void, mode_t, size_t, ssize_t};
use std::cell::RefCell;
use std::ffi::CStr;
use std::path::{Component, Path, PathBuf};

#[derive(Default, Clone, Debug)]
struct State {
    on: bool,
    /// number of calls so far
    count: usize,
    /// the call of this number fails
    fail_at: Option<usize>,
    /// so do all the following ones that need room
    full: bool,
    errno: c_int,
    failed: usize,
    /// changes are allowed in this folder only
    jail: Option<PathBuf>,
    /// changes refused because of that
    outside: Vec<String>,
    /// files and folders created
    made: Vec<PathBuf>,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

#[derive(Clone, Debug)]
pub enum Fault {
    /// counts only
    None,
    /// the call of this number fails with this error
    At(usize, c_int),
    /// from the call of this number on, no room
    Full(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub count: usize,
    pub failed: usize,
    pub outside: Vec<String>,
    pub made: Vec<PathBuf>,
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        let _ = STATE.try_with(|s| s.borrow_mut().on = false);
    }
}

fn run<T>(state: State, f: impl FnOnce() -> T) -> (T, Report) {
    STATE.with(|s| *s.borrow_mut() = state);
    let off = Off;
    let r = f();
    drop(off);
    let s = STATE.with(|s| std::mem::replace(&mut *s.borrow_mut(), State::default()));
    (r, Report { count: s.count, failed: s.failed, outside: s.outside, made: s.made })
}

pub fn with_fault<T>(fault: &Fault, f: impl FnOnce() -> T) -> (T, Report) {
    let mut s = State { on: true, ..State::default() };
    match fault {
        Fault::None => {}
        Fault::At(k, errno) => {
            s.fail_at = Some(*k);
            s.errno = *errno;
        }
        Fault::Full(k) => {
            s.fail_at = Some(*k);
            s.full = true;
            s.errno = libc::ENOSPC;
        }
    }
    run(s, f)
}

pub fn with_jail<T>(jail: &Path, f: impl FnOnce() -> T) -> (T, Report) {
    run(State { on: true, jail: Some(jail.to_path_buf()), ..State::default() }, f)
}

/// The path without its `.` and `..`
pub fn plain(path: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in path.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::CurDir => {}
            c => out.push(c.as_os_str()),
        }
    }
    out
}

unsafe fn path_of(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let p = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes())).to_path_buf();
    if p.is_absolute() {
        p
    } else {
        std::env::current_dir().unwrap_or_default().join(p)
    }
}

enum What {
    /// needs room
    Grow,
    Change,
}

/// The error of the call, if it must not be made
unsafe fn step(name: &str, what: What, paths: &[*const c_char]) -> Option<c_int> {
    let r = STATE.try_with(|s| {
        let mut s = match s.try_borrow_mut() {
            Ok(s) => s,
            Err(_) => return None,
        };
        if !s.on {
            return None;
        }
        s.count += 1;
        if let Some(jail) = s.jail.clone() {
            for p in paths {
                let p = plain(&path_of(*p));
                if !p.starts_with(&jail) {
                    s.outside.push(format!("{} {:?}", name, p));
                    return Some(libc::EACCES);
                }
                if name != "unlink" && name != "rmdir" {
                    s.made.push(p);
                }
            }
        }
        if let Some(k) = s.fail_at {
            let fails = if s.full {
                s.count >= k && (match what { What::Grow => true, _ => false })
            } else {
                s.count == k
            };
            if fails {
                s.failed += 1;
                return Some(s.errno);
            }
        }
        None
    });
    r.unwrap_or(None)
}

unsafe fn refuse(errno: c_int) -> c_int {
    *libc::__errno_location() = errno;
    -1
}

macro_rules! syscall {
    ($($arg:expr),*) => { libc::syscall($($arg),*) as c_int };
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        let what = if flags & libc::O_CREAT != 0 { What::Grow } else { What::Change };
        let paths: &[*const c_char] = if dir == libc::AT_FDCWD { &[path] } else { &[] };
        if let Some(e) = step("open", what, paths) {
            return refuse(e);
        }
    }
    syscall!(libc::SYS_openat, dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if let Some(e) = step("mkdir", What::Grow, &[path]) {
        return refuse(e);
    }
    syscall!(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(e) = step("rename", What::Change, &[a, b]) {
        return refuse(e);
    }
    syscall!(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(e) = step("symlink", What::Grow, &[b]) {
        return refuse(e);
    }
    syscall!(libc::SYS_symlinkat, a, libc::AT_FDCWD, b)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(e) = step("link", What::Grow, &[a, b]) {
        return refuse(e);
    }
    syscall!(libc::SYS_linkat, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(e) = step("unlink", What::Change, &[path]) {
        return refuse(e);
    }
    syscall!(libc::SYS_unlinkat, libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if let Some(e) = step("rmdir", What::Change, &[path]) {
        return refuse(e);
    }
    syscall!(libc::SYS_unlinkat, libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    let paths: &[*const c_char] = if dir == libc::AT_FDCWD { &[path] } else { &[] };
    if let Some(e) = step("unlink", What::Change, paths) {
        return refuse(e);
    }
    syscall!(libc::SYS_unlinkat, dir, path, flags)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if let Some(e) = step("chmod", What::Change, &[path]) {
        return refuse(e);
    }
    syscall!(libc::SYS_fchmodat, libc::AT_FDCWD, path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, data: *const c_void, n: size_t) -> ssize_t {
    if fd > 2 {
        if let Some(e) = step("write", What::Grow, &[]) {
            return refuse(e) as ssize_t;
        }
    }
    libc::syscall(libc::SYS_write, fd, data, n) as ssize_t
}

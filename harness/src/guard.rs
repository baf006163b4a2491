//! Fatal signals and memory of the process
use std::time::Duration;

extern "C" fn handler(signal: i32) {
    crate::core::crashed(signal);
    // the monitor ends the process
    std::thread::sleep(Duration::from_secs(100));
    unsafe { libc::_exit(128 + signal) }
}

/// The cases of workers that receive a fatal signal are reported as violations
pub fn catch_signals() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT].iter() {
            let mut action: libc::sigaction = std::mem::zeroed();
            action.sa_sigaction = handler as usize;
            action.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(*s, &action, std::ptr::null_mut());
        }
    }
}

/// An allocation that exceeds the limit aborts
pub fn limit_memory(bytes: u64) {
    unsafe {
        let limit = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
}

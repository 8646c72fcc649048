//! The operating system seam: the libc entry points through which std reaches clocks, randomness
//! and the file system are defined here, so that inside a simulated run the simulator answers.
//! Outside a run (or inside a `HostGuard`) they pass through to the kernel.
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t, timespec};
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::path::{Component, Path, PathBuf};

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static FS: RefCell<Option<FsWorld>> = const { RefCell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// From now on this thread's randomness (hash seeds included) is a function of `seed`.
pub fn set_thread_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed | 1));
}

fn in_sim() -> bool {
    simcore::active() && !simcore::in_host()
}
fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if in_sim() {
        let ns = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => simcore::wall_ns() as u64,
            _ => simcore::MONO_EPOCH_NS + simcore::now_ns(),
        };
        (*ts).tv_sec = (ns / 1_000_000_000) as _;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let state = ENTROPY.try_with(|e| e.get()).unwrap_or(0);
    if state != 0 {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        let mut s = state;
        for b in out.iter_mut() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *b = (s >> 33) as u8;
        }
        let _ = ENTROPY.try_with(|e| e.set(s | 1));
        return len as ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags as c_long) as ssize_t
}

/// The locks of std end here when they are contended. Inside a run everything happens on one
/// thread, so the holder is a suspended poll, and waiting in the kernel would be for ever.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && in_sim() {
        match b as c_int & 0x7f {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET if d == 0 => {
                if *(a as *const u32) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                simcore::co::blocked_on(a as usize);
                return 0;
            }
            libc::FUTEX_WAKE => {
                simcore::co::unlocked(a as usize);
                return 1;
            }
            _ => {}
        }
    }
    let mut ret = n;
    std::arch::asm!(
        "syscall",
        inlateout("rax") ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&ret) {
        set_errno(-ret as c_int);
        return -1;
    }
    ret
}

// ---- file system --------------------------------------------------------------------------------

/// The files the code under test may touch in this run.
pub struct FsWorld {
    /// everything the run owns
    pub scratch: PathBuf,
    /// the runner's configured working directory
    pub work: PathBuf,
    /// probability of an injected error, in 1/1000, per operation
    pub fault_p: u32,
    /// mutations outside `work` that were attempted (and refused)
    pub escapes: Vec<String>,
    /// injected errors: operation and path
    pub injected: Vec<(String, PathBuf)>,
    /// mutations performed
    pub ops: u64,
    /// mutations, in order
    pub log: Vec<(&'static str, PathBuf)>,
}
pub fn fs_install(w: Option<FsWorld>) -> Option<FsWorld> {
    FS.with(|f| std::mem::replace(&mut *f.borrow_mut(), w))
}
pub fn fs_with<R>(f: impl FnOnce(&mut FsWorld) -> R) -> Option<R> {
    FS.with(|w| w.borrow_mut().as_mut().map(f))
}

fn normalise(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::CurDir => {}
            c => out.push(c.as_os_str()),
        }
    }
    out
}
unsafe fn cpath(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
}
fn fd_path(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{}", fd)).ok()
}
unsafe fn at_path(dirfd: c_int, p: *const c_char) -> PathBuf {
    let path = cpath(p);
    if path.is_absolute() {
        return path;
    }
    if dirfd == libc::AT_FDCWD {
        return std::env::current_dir().unwrap_or_default().join(path);
    }
    fd_path(dirfd).unwrap_or_default().join(path)
}

/// The parent directory with symbolic links resolved, plus the last component.
fn resolved(p: &Path) -> PathBuf {
    let p = normalise(p);
    let (Some(dir), Some(name)) = (p.parent(), p.file_name()) else { return p };
    let mut d = dir.to_path_buf();
    let mut rest = vec![name.to_owned()];
    loop {
        if let Ok(c) = d.canonicalize() {
            let mut out = c;
            for r in rest.iter().rev() {
                out.push(r);
            }
            return out;
        }
        match (d.parent(), d.file_name()) {
            (Some(up), Some(n)) => {
                rest.push(n.to_owned());
                d = up.to_path_buf();
            }
            _ => return p,
        }
    }
}

enum Verdict {
    Pass,
    Errno(c_int),
}

fn mutation(op: &'static str, path: impl FnOnce() -> PathBuf, exists_is_harmless: bool) -> Verdict {
    if !in_sim() || BUSY.with(|b| b.get()) {
        return Verdict::Pass;
    }
    BUSY.with(|b| b.set(true));
    let _h = simcore::HostGuard::new();
    struct Unbusy;
    impl Drop for Unbusy {
        fn drop(&mut self) {
            BUSY.with(|b| b.set(false));
        }
    }
    let _u = Unbusy;
    let path = resolved(&path());
    let verdict = FS.with(|f| {
        let mut f = f.borrow_mut();
        let Some(w) = f.as_mut() else {
            return Verdict::Errno(libc::EROFS);
        };
        let inside = path.starts_with(&w.work) && path != w.work || (op == "mkdir" && path == w.work);
        if !inside {
            // creating a directory that is already there changes nothing
            if exists_is_harmless && path.is_dir() {
                return Verdict::Errno(libc::EEXIST);
            }
            w.escapes.push(format!("{} {}", op, path.display()));
            return Verdict::Errno(libc::EACCES);
        }
        if w.fault_p > 0 {
            let k = simcore::choose_p("fs", 4, w.fault_p);
            if k > 0 {
                let (e, n) = [(libc::EIO, "EIO"), (libc::ENOSPC, "ENOSPC"), (libc::EACCES, "EACCES")][k - 1];
                w.injected.push((op.to_string(), path.clone()));
                simcore::fault(&format!("fs-{}-{}", op, n));
                return Verdict::Errno(e);
            }
        }
        w.ops += 1;
        w.log.push((op, path.clone()));
        Verdict::Pass
    });
    verdict
}
macro_rules! guard {
    ($op:expr, $path:expr) => {
        guard!($op, $path, false)
    };
    ($op:expr, $path:expr, $h:expr) => {
        if let Verdict::Errno(e) = mutation($op, || $path, $h) {
            set_errno(e);
            return -1;
        }
    };
}
fn writes(flags: c_int) -> bool {
    flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if writes(flags) {
        guard!("open", at_path(dir, path));
    }
    libc::syscall(libc::SYS_openat, dir as c_long, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    guard!("mkdir", at_path(libc::AT_FDCWD, path), true);
    libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD as c_long, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(dir: c_int, path: *const c_char, mode: mode_t) -> c_int {
    guard!("mkdir", at_path(dir, path), true);
    libc::syscall(libc::SYS_mkdirat, dir as c_long, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    guard!("rmdir", at_path(libc::AT_FDCWD, path));
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD as c_long, path, libc::AT_REMOVEDIR as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    guard!("unlink", at_path(libc::AT_FDCWD, path));
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD as c_long, path, 0 as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    guard!(if flags & libc::AT_REMOVEDIR != 0 { "rmdir" } else { "unlink" }, at_path(dir, path));
    libc::syscall(libc::SYS_unlinkat, dir as c_long, path, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    guard!("rename", at_path(libc::AT_FDCWD, from));
    guard!("rename", at_path(libc::AT_FDCWD, to));
    libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD as c_long, from, libc::AT_FDCWD as c_long, to, 0 as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(target: *const c_char, link: *const c_char) -> c_int {
    guard!("symlink", at_path(libc::AT_FDCWD, link));
    libc::syscall(libc::SYS_symlinkat, target, libc::AT_FDCWD as c_long, link) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    guard!("link", at_path(libc::AT_FDCWD, to));
    libc::syscall(libc::SYS_linkat, libc::AT_FDCWD as c_long, from, libc::AT_FDCWD as c_long, to, 0 as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    guard!("chmod", at_path(libc::AT_FDCWD, path));
    libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD as c_long, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off_t) -> c_int {
    guard!("truncate", at_path(libc::AT_FDCWD, path));
    libc::syscall(libc::SYS_truncate, path, len as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let mut len = len;
    if fd > 2 && in_sim() && !BUSY.with(|b| b.get()) {
        let target = {
            let _h = simcore::HostGuard::new();
            fd_path(fd)
        };
        if let Some(t) = target.filter(|t| t.is_absolute()) {
            let full = t.clone();
            guard!("write", full);
            // a short write
            if len > 1 && simcore::choose_p("fswr", 4, simcore::strategy().net) == 3 {
                len = (len / 2).max(1);
                simcore::fault("fs-short-write");
            }
        }
    }
    libc::syscall(libc::SYS_write, fd as c_long, buf, len) as ssize_t
}

// ---- what a simulated run must never do ---------------------------------------------------------

macro_rules! refuse {
    ($name:ident ( $($a:ident : $t:ty),* ) $sys:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if in_sim() {
                simcore::fatal(concat!("harness: real ", stringify!($name), " inside a simulated run"));
                set_errno(libc::EPERM);
                return -1;
            }
            libc::syscall($sys $(, $a as c_long)*) as c_int
        }
    };
}
refuse!(socket(domain: c_int, ty: c_int, proto: c_int) libc::SYS_socket);
refuse!(execve(path: *const c_char, argv: *const *const c_char, env: *const *const c_char) libc::SYS_execve);
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if in_sim() {
        set_errno(libc::EPERM);
        return -1;
    }
    libc::syscall(libc::SYS_kill, pid as c_long, sig as c_long) as c_int
}

//! Stand-ins for the system calls that write, so that a chosen one of them fails, or so that the
//! files are copied just before (and half way through) each of them, as a kill would leave them.
use libc::{SYS_ftruncate, SYS_open, SYS_pwrite64, SYS_rename, SYS_write, c_char, c_int, c_void, off_t, size_t, ssize_t, syscall};
use std::cell::{Cell, RefCell};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Off,
    Once,
    Sticky,
    Short,
    Crash,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static AT: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static ERRNO: Cell<c_int> = const { Cell::new(0) };
    static SNAP: RefCell<Option<(PathBuf, PathBuf, Vec<PathBuf>)>> = const { RefCell::new(None) };
}

enum Fate {
    Go,
    Fail,
    Half,
    Snap,
}

fn fate() -> Fate {
    let mode = MODE.get();
    if mode == Mode::Off {
        return Fate::Go;
    }
    if mode == Mode::Crash {
        return Fate::Snap;
    }
    let n = COUNT.get() + 1;
    COUNT.set(n);
    let (at, short) = (AT.get(), mode == Mode::Short);
    if short && n == at {
        return Fate::Half;
    }
    let hit = if short { n == at + 1 } else if mode == Mode::Sticky { n >= at } else { n == at };
    if hit {
        FIRED.set(true);
        unsafe { *libc::__errno_location() = ERRNO.get() };
        return Fate::Fail;
    }
    Fate::Go
}

/// Makes a write of the current thread fail: the n-th one, all from the n-th on, or the one after
/// the n-th, which writes only a part.
pub fn arm(mode: &str, n: u32, errno: c_int) {
    COUNT.set(0);
    AT.set(n);
    FIRED.set(false);
    ERRNO.set(errno);
    MODE.set(match mode {
        "once" => Mode::Once,
        "sticky" => Mode::Sticky,
        _ => Mode::Short,
    });
}
/// Ends it. Returns whether a write failed.
pub fn disarm() -> bool {
    MODE.set(Mode::Off);
    FIRED.get()
}

pub fn copy_dir(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let dst = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &dst)?;
        } else {
            std::fs::copy(e.path(), dst)?;
        }
    }
    Ok(())
}

/// Copies the directory at every write of the current thread from now on.
pub fn watch(from: &Path, to: &Path) {
    SNAP.set(Some((from.into(), to.into(), vec![])));
    MODE.set(Mode::Crash);
}
/// Ends it. Returns the copies.
pub fn unwatch() -> Vec<PathBuf> {
    MODE.set(Mode::Off);
    SNAP.take().map_or_else(Vec::new, |s| s.2)
}
fn snap() {
    MODE.set(Mode::Off);
    SNAP.with_borrow_mut(|s| {
        if let Some((from, to, list)) = s.as_mut() {
            let dst = to.join(list.len().to_string());
            copy_dir(from, &dst).expect("cannot copy");
            list.push(dst);
        }
    });
    MODE.set(Mode::Crash);
}

unsafe fn raw_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    unsafe { syscall(SYS_write, fd, buf, n) as ssize_t }
}
unsafe fn raw_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    unsafe { syscall(SYS_pwrite64, fd, buf, n, off) as ssize_t }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    unsafe {
        match fate() {
            Fate::Go => raw_write(fd, buf, n),
            Fate::Fail => -1,
            Fate::Half => raw_write(fd, buf, n.div_ceil(2)),
            Fate::Snap => {
                snap();
                let k = raw_write(fd, buf, n / 2);
                if k < 0 || n < 2 {
                    return raw_write(fd, buf, n);
                }
                snap();
                k + raw_write(fd, buf.add(k as usize), n - k as usize)
            }
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    unsafe {
        match fate() {
            Fate::Go => raw_pwrite(fd, buf, n, off),
            Fate::Fail => -1,
            Fate::Half => raw_pwrite(fd, buf, n.div_ceil(2), off),
            Fate::Snap => {
                snap();
                if n > 1 {
                    raw_pwrite(fd, buf, n / 2, off);
                    snap();
                }
                raw_pwrite(fd, buf, n, off)
            }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    unsafe { pwrite(fd, buf, n, off) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    match fate() {
        Fate::Fail | Fate::Half => return -1,
        Fate::Snap => snap(),
        Fate::Go => {}
    }
    unsafe { syscall(SYS_ftruncate, fd, len) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    unsafe { ftruncate(fd, len) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match fate() {
        Fate::Fail | Fate::Half => return -1,
        Fate::Snap => snap(),
        Fate::Go => {}
    }
    unsafe { syscall(SYS_rename, a, b) as c_int }
}

/// Only opening for writing with creation counts: that is what a full disk prevents.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if flags & libc::O_CREAT != 0 {
        match fate() {
            Fate::Fail | Fate::Half => return -1,
            Fate::Snap => snap(),
            Fate::Go => {}
        }
    }
    unsafe { syscall(SYS_open, path, flags, mode as libc::c_uint) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    unsafe { open(path, flags, mode) }
}

//! Seams over ambient nondeterminism: the hash keys of `std` maps (drawn by
//! libstd from getrandom(2) once per thread) and the file system calls libstd
//! makes on behalf of `FsLoader`.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) };
    static DISK: RefCell<Option<Disk>> = const { RefCell::new(None) };
}

/// Must be called first on a fresh thread.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|h| h.set(s ^ 0xa5a5_5a5a_1234_4321));
}

/// # Safety
/// Same contract as getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < n {
        let v = HASH_SEED.with(|h| {
            let mut r = crate::rng::Rng::new(h.get());
            let v = r.next();
            h.set(v);
            v
        });
        for b in v.to_le_bytes() {
            if i < n {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    n as isize
}

// ---------------------------------------------------------------------------
// Simulated disk.

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum DiskFault {
    /// open(2) fails with this errno.
    Open(i32),
    /// read(2) fails with this errno after that many bytes.
    ReadErr(i32, usize),
    /// The file ends after that many bytes (lost/torn write).
    Torn(usize),
    /// Every read returns at most that many bytes.
    Short(usize),
    /// The first reads are interrupted (EINTR) that many times, in a row.
    Eintr(usize),
    /// open(2) is interrupted (EINTR) that many times.
    OpenEintr(usize),
    /// A stored byte was flipped: (offset, mask).
    Flip(usize, u8),
}

#[derive(Default)]
pub struct Disk {
    pub files: BTreeMap<String, Vec<u8>>,
    pub faults: BTreeMap<String, Vec<DiskFault>>,
    pub log: Vec<String>,
    pub opened: Vec<String>,
    pub fired: BTreeMap<String, u64>,
    open_eintr: BTreeMap<String, usize>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
}
impl Disk {
    pub fn is_dir(&self, norm: &str) -> bool {
        let p = if norm == "/" { norm.to_string() } else { format!("{norm}/") };
        norm == ROOT || self.files.keys().any(|f| f.starts_with(&p))
    }
}
struct Fd {
    path: String,
    data: Vec<u8>,
    pos: usize,
    dir: bool,
    eintr: usize,
    short: Option<usize>,
    read_err: Option<(i32, usize)>,
}

pub const ROOT: &str = "/simdisk";
const FD_BASE: i32 = 1_000_000;

pub fn disk_install(mut d: Disk) {
    d.next_fd = FD_BASE;
    DISK.with(|x| *x.borrow_mut() = Some(d));
}
pub fn disk_take() -> Option<Disk> {
    DISK.with(|x| x.borrow_mut().take())
}
pub fn with_disk<T>(f: impl FnOnce(&mut Disk) -> T) -> T {
    DISK.with(|x| f(x.borrow_mut().as_mut().expect("disk")))
}
pub fn disk_open_fds(d: &Disk) -> usize {
    d.fds.len()
}

/// Lexical normalisation of a path under the simulated root.
pub fn normalize(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            s => out.push(s),
        }
    }
    format!("/{}", out.join("/"))
}

fn errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn sim_open(path: &str) -> Option<i32> {
    DISK.with(|d| {
        let mut d = d.try_borrow_mut().ok()?;
        let d = d.as_mut()?;
        d.opened.push(path.to_string());
        let norm = normalize(path);
        let faults = d.faults.get(&norm).cloned().unwrap_or_default();
        for f in &faults {
            match f {
                DiskFault::Open(e) => {
                    d.log.push(format!("open {path} -> errno {e}"));
                    *d.fired.entry("open_error".into()).or_default() += 1;
                    errno(*e);
                    return Some(-1);
                }
                DiskFault::OpenEintr(n) => {
                    let c = d.open_eintr.entry(norm.clone()).or_default();
                    if *c < *n {
                        *c += 1;
                        *d.fired.entry("open_eintr".into()).or_default() += 1;
                        errno(libc::EINTR);
                        return Some(-1);
                    }
                }
                _ => {}
            }
        }
        let is_dir = d.is_dir(&norm);
        if path.ends_with('/') && !is_dir && d.files.contains_key(&norm) {
            d.log.push(format!("open {path} -> ENOTDIR"));
            errno(libc::ENOTDIR);
            return Some(-1);
        }
        let mut data = match d.files.get(&norm) {
            Some(x) => x.clone(),
            None if is_dir => vec![],
            None => {
                d.log.push(format!("open {path} -> ENOENT"));
                errno(libc::ENOENT);
                return Some(-1);
            }
        };
        let mut fd = Fd { path: norm.clone(), data: vec![], pos: 0, dir: is_dir, eintr: 0, short: None, read_err: None };
        for f in &faults {
            match f {
                DiskFault::Torn(n) => {
                    if *n < data.len() {
                        data.truncate(*n);
                        *d.fired.entry("torn_file".into()).or_default() += 1;
                    }
                }
                DiskFault::Flip(o, m) => {
                    if *o < data.len() {
                        data[*o] ^= m;
                        *d.fired.entry("flipped_byte".into()).or_default() += 1;
                    }
                }
                DiskFault::Short(n) => fd.short = Some((*n).max(1)),
                DiskFault::Eintr(n) => fd.eintr = *n,
                DiskFault::ReadErr(e, n) => fd.read_err = Some((*e, *n)),
                _ => {}
            }
        }
        fd.data = data;
        let n = d.next_fd;
        d.next_fd += 1;
        d.fds.insert(n, fd);
        d.log.push(format!("open {path} -> fd{}", n - FD_BASE));
        Some(n)
    })
}

unsafe fn cpath(path: *const libc::c_char) -> Option<String> {
    if path.is_null() {
        return None;
    }
    let s = std::ffi::CStr::from_ptr(path).to_bytes();
    if s.starts_with(ROOT.as_bytes()) {
        Some(String::from_utf8_lossy(s).into_owned())
    } else {
        None
    }
}

/// # Safety
/// Same contract as open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if let Some(p) = cpath(path) {
        if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            errno(libc::EROFS);
            return -1;
        }
        if let Some(r) = sim_open(&p) {
            return r;
        }
        errno(libc::ENOENT);
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode as libc::c_uint) as i32
}
/// # Safety
/// Same contract as open(2).
#[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    open64(path, flags, mode)
}
/// # Safety
/// Same contract as read(2).
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if fd < FD_BASE {
        return libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    }
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let d = match d.as_mut() {
            Some(d) => d,
            None => {
                errno(libc::EBADF);
                return -1;
            }
        };
        let fired = &mut d.fired;
        let f = match d.fds.get_mut(&fd) {
            Some(f) => f,
            None => {
                errno(libc::EBADF);
                return -1;
            }
        };
        if f.dir {
            d.log.push(format!("read {} -> EISDIR", f.path));
            errno(libc::EISDIR);
            return -1;
        }
        if f.eintr > 0 {
            f.eintr -= 1;
            *fired.entry("eintr".into()).or_default() += 1;
            errno(libc::EINTR);
            return -1;
        }
        let mut n = n;
        if let Some((e, at)) = f.read_err {
            if f.pos >= at {
                *fired.entry("read_error".into()).or_default() += 1;
                d.log.push(format!("read {} -> errno {e}", f.path));
                errno(e);
                return -1;
            }
            n = n.min(at - f.pos);
        }
        if let Some(s) = f.short {
            if s < n && f.pos < f.data.len() {
                n = s;
                *fired.entry("short_read".into()).or_default() += 1;
            }
        }
        let k = n.min(f.data.len() - f.pos);
        unsafe { std::ptr::copy_nonoverlapping(f.data.as_ptr().add(f.pos), buf as *mut u8, k) };
        f.pos += k;
        k as isize
    })
}
/// # Safety
/// Same contract as close(2).
#[no_mangle]
pub unsafe extern "C" fn close(fd: libc::c_int) -> libc::c_int {
    if fd < FD_BASE {
        return libc::syscall(libc::SYS_close, fd) as i32;
    }
    let _ = DISK.try_with(|d| {
        if let Ok(mut d) = d.try_borrow_mut() {
            if let Some(d) = d.as_mut() {
                d.fds.remove(&fd);
            }
        }
    });
    0
}
unsafe fn fill_statx(b: *mut libc::statx, size: u64, dir: bool) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*b).stx_mask = libc::STATX_BASIC_STATS;
    (*b).stx_size = size;
    (*b).stx_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 } as u16;
}
/// # Safety
/// Same contract as statx(2).
#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mask: libc::c_uint, buf: *mut libc::statx,
) -> libc::c_int {
    if dirfd >= FD_BASE {
        return DISK.with(|d| {
            let d = d.borrow();
            match d.as_ref().and_then(|d| d.fds.get(&dirfd)) {
                Some(f) => {
                    fill_statx(buf, f.data.len() as u64, f.dir);
                    0
                }
                None => {
                    errno(libc::EBADF);
                    -1
                }
            }
        });
    }
    if let Some(p) = cpath(path) {
        let norm = normalize(&p);
        return DISK.with(|d| {
            let d = d.borrow();
            match d.as_ref() {
                Some(d) if d.files.contains_key(&norm) => fill_statx(buf, d.files[&norm].len() as u64, false),
                Some(d) if d.is_dir(&norm) => fill_statx(buf, 0, true),
                _ => {
                    errno(libc::ENOENT);
                    return -1;
                }
            }
            0
        });
    }
    libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, buf) as i32
}
/// # Safety
/// Same contract as lseek(2).
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: libc::c_int, off: i64, whence: libc::c_int) -> i64 {
    if fd >= FD_BASE {
        return DISK.with(|d| {
            let mut d = d.borrow_mut();
            let Some(f) = d.as_mut().and_then(|d| d.fds.get_mut(&fd)) else {
                errno(libc::EBADF);
                return -1;
            };
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => f.pos as i64,
                _ => f.data.len() as i64,
            };
            if base + off < 0 {
                errno(libc::EINVAL);
                return -1;
            }
            f.pos = ((base + off) as usize).min(f.data.len());
            f.pos as i64
        });
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence)
}

// Other ways to look at files, for implementations which would use them.

fn exists(p: &str) -> bool {
    let norm = normalize(p);
    DISK.with(|d| d.borrow().as_ref().map(|d| d.files.contains_key(&norm) || d.is_dir(&norm)).unwrap_or(false))
}
/// # Safety
/// Same contract as realpath(3).
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const libc::c_char, out: *mut libc::c_char) -> *mut libc::c_char {
    let p = match cpath(path) {
        Some(p) => {
            if !exists(&p) {
                errno(libc::ENOENT);
                return std::ptr::null_mut();
            }
            normalize(&p)
        }
        // Nothing is canonicalised by the harness itself.
        None => String::from_utf8_lossy(std::ffi::CStr::from_ptr(path).to_bytes()).into_owned(),
    };
    let c = std::ffi::CString::new(p).unwrap();
    if out.is_null() {
        libc::strdup(c.as_ptr())
    } else {
        libc::strcpy(out, c.as_ptr())
    }
}
/// # Safety
/// Same contract as access(2).
#[no_mangle]
pub unsafe extern "C" fn access(path: *const libc::c_char, mode: libc::c_int) -> libc::c_int {
    if let Some(p) = cpath(path) {
        if exists(&p) {
            return 0;
        }
        errno(libc::ENOENT);
        return -1;
    }
    libc::syscall(libc::SYS_access, path, mode) as i32
}
/// # Safety
/// Same contract as faccessat(2).
#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: libc::c_int, path: *const libc::c_char, mode: libc::c_int, flags: libc::c_int) -> libc::c_int {
    if cpath(path).is_some() {
        return access(path, mode);
    }
    libc::syscall(libc::SYS_faccessat, dir, path, mode, flags) as i32
}
/// # Safety
/// Same contract as fcntl(2).
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: libc::c_int, cmd: libc::c_int, arg: libc::c_long) -> libc::c_int {
    if fd >= FD_BASE {
        let open = DISK.try_with(|d| d.try_borrow().map(|d| d.as_ref().is_some_and(|d| d.fds.contains_key(&fd))).unwrap_or(true));
        if open.unwrap_or(true) {
            return 0;
        }
        errno(libc::EBADF);
        return -1;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as i32
}
/// # Safety
/// Same contract as fcntl(2).
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: libc::c_int, cmd: libc::c_int, arg: libc::c_long) -> libc::c_int {
    fcntl(fd, cmd, arg)
}

//! The library's system calls, which checks may interrupt, fail or answer.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Open, Write, Rename, Unlink, Other, Read }
pub enum Act { Go, Fail(i32), Short(usize) }
type Decide = Box<dyn FnMut(Kind) -> Act>;
thread_local! { static DECIDE: RefCell<Option<Decide>> = const { RefCell::new(None) }; }
/// While f runs, every file operation of this thread is put to `d` first.
pub fn with<T>(d: Decide, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { DECIDE.with(|x| { *x.borrow_mut() = None }) } }
    DECIDE.with(|x| *x.borrow_mut() = Some(d));
    let _off = Off;
    f()
}
fn ask(k: Kind) -> Act {
    DECIDE.try_with(|x| match x.try_borrow_mut() { Ok(mut x) => match x.as_mut() { Some(d) => d(k), None => Act::Go }, Err(_) => Act::Go }).unwrap_or(Act::Go)
}
fn err(e: i32) -> i64 { unsafe { *libc::__errno_location() = e }; -1 }
macro_rules! sc { ($($x:expr),*) => { unsafe { libc::syscall($($x as libc::c_long),*) } as i64 } }
macro_rules! guard { ($k:expr) => { match ask($k) { Act::Go => (), Act::Fail(e) => return err(e) as _, Act::Short(_) => () } } }
type P = *const libc::c_char;
#[no_mangle] pub extern "C" fn rename(a: P, b: P) -> i32 { guard!(Kind::Rename); sc!(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as i32 }
#[no_mangle] pub extern "C" fn renameat(d: i32, a: P, e: i32, b: P) -> i32 { guard!(Kind::Rename); sc!(libc::SYS_renameat2, d, a, e, b, 0) as i32 }
#[no_mangle] pub extern "C" fn renameat2(d: i32, a: P, e: i32, b: P, f: u32) -> i32 { guard!(Kind::Rename); sc!(libc::SYS_renameat2, d, a, e, b, f) as i32 }
#[no_mangle] pub extern "C" fn unlink(a: P) -> i32 { guard!(Kind::Unlink); sc!(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0) as i32 }
#[no_mangle] pub extern "C" fn unlinkat(d: i32, a: P, f: i32) -> i32 { guard!(Kind::Unlink); sc!(libc::SYS_unlinkat, d, a, f) as i32 }
#[no_mangle] pub extern "C" fn link(a: P, b: P) -> i32 { guard!(Kind::Other); sc!(libc::SYS_linkat, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as i32 }
#[no_mangle] pub extern "C" fn linkat(d: i32, a: P, e: i32, b: P, f: i32) -> i32 { guard!(Kind::Other); sc!(libc::SYS_linkat, d, a, e, b, f) as i32 }
#[no_mangle] pub extern "C" fn open64(a: P, f: i32, m: u32) -> i32 { guard!(Kind::Open); sc!(libc::SYS_openat, libc::AT_FDCWD, a, f, m) as i32 }
#[no_mangle] pub extern "C" fn ftruncate64(fd: i32, l: i64) -> i32 { guard!(Kind::Other); sc!(libc::SYS_ftruncate, fd, l) as i32 }
#[no_mangle] pub extern "C" fn fsync(fd: i32) -> i32 { guard!(Kind::Other); sc!(libc::SYS_fsync, fd) as i32 }
#[no_mangle] pub extern "C" fn fdatasync(fd: i32) -> i32 { guard!(Kind::Other); sc!(libc::SYS_fdatasync, fd) as i32 }
#[no_mangle] pub extern "C" fn copy_file_range(a: i32, b: *mut i64, c: i32, d: *mut i64, n: usize, f: u32) -> isize { guard!(Kind::Write); sc!(libc::SYS_copy_file_range, a, b, c, d, n, f) as isize }
#[no_mangle] pub extern "C" fn sendfile64(a: i32, b: i32, o: *mut i64, n: usize) -> isize { guard!(Kind::Write); sc!(libc::SYS_sendfile, a, b, o, n) as isize }
#[no_mangle] pub extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    let mut n = n;
    match ask(Kind::Write) { Act::Go => (), Act::Fail(e) => return err(e) as isize, Act::Short(k) => n = n.min(k.max(1)) }
    sc!(libc::SYS_write, fd, b, n) as isize
}
#[repr(C)] pub struct Iov { base: *const u8, len: usize }
#[no_mangle] pub extern "C" fn writev(fd: i32, v: *const Iov, n: i32) -> isize {
    match ask(Kind::Write) { Act::Go => (), Act::Fail(e) => return err(e) as isize,
        Act::Short(k) => { let f = unsafe { &*v }; return sc!(libc::SYS_write, fd, f.base, f.len.min(k.max(1))) as isize } }
    sc!(libc::SYS_writev, fd, v, n) as isize
}
/// The reads of the stderr capture thread.
pub enum Feed { Bytes(Vec<u8>), Fail(i32), Call(Box<dyn FnOnce() + Send>) }
pub static FEED_ON: AtomicBool = AtomicBool::new(false);
pub static EOFS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub static FEED: Mutex<Vec<Feed>> = Mutex::new(Vec::new());
thread_local! { static MINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn this_thread_is_not_fed() { MINE.with(|x| x.set(true)) }
#[no_mangle] pub extern "C" fn read(fd: i32, b: *mut libc::c_void, n: usize) -> isize {
    if FEED_ON.load(Ordering::SeqCst) && fd > 2 && !MINE.try_with(|x| x.get()).unwrap_or(true) {
        loop {
            let mut f = FEED.lock().unwrap_or_else(|e| e.into_inner());
            if f.is_empty() { EOFS.fetch_add(1, Ordering::SeqCst); return 0 }
            match f.remove(0) {
                Feed::Call(c) => { drop(f); c() }
                Feed::Fail(e) => return err(e) as isize,
                Feed::Bytes(mut v) => {
                    let k = v.len().min(n);
                    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, k) }
                    v.drain(..k);
                    if !v.is_empty() { f.insert(0, Feed::Bytes(v)) }
                    return k as isize
                }
            }
        }
    }
    guard!(Kind::Read);
    sc!(libc::SYS_read, fd, b, n) as isize
}

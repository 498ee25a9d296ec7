//! The few system calls the harness needs, without going through libc::syscall
//! (which this crate overrides, see `syscall` below).

use std::arch::asm;

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

const SYS_FUTEX: i64 = 202;

pub fn futex_wait(w: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        raw(SYS_FUTEX, w as *const _ as i64, 128, v as i64, 0, 0, 0);
    }
}
pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw(SYS_FUTEX, w as *const _ as i64, 128 | 1, 1, 0, 0, 0);
    }
}

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn alarm(s: u32) -> u32;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn __errno_location() -> *mut i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    fn personality(p: u64) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn shared<T>() -> &'static mut T {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        assert!(!p.is_null() && p as isize != -1);
        &mut *(p as *mut T)
    }
}

pub fn no_core_dumps() {
    unsafe {
        setrlimit(4, &[0, 0]);
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

/// Fixed address-space layout, so that even address-dependent behaviour repeats.
pub fn fix_addresses() {
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur != -1 && cur & 0x4_0000 == 0 && personality(cur as u64 | 0x4_0000) != -1 {
            use std::os::unix::process::CommandExt;
            let mut a = std::env::args_os();
            let me = std::env::current_exe().unwrap();
            a.next();
            let e = std::process::Command::new(me).args(a).exec();
            eprintln!("re-exec failed: {e}");
        }
    }
}

pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

/// Overrides libc's `syscall` for this executable. std's Mutex, RwLock, Condvar,
/// Once and thread parking wait on futexes through it: when a simulated thread
/// would block inside the code under test, control goes to the scheduler
/// instead, and the wait returns spuriously. Everything else passes through.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 && crate::rt::sim_random(a as *mut u8, b as usize) {
        return b;
    }
    if n == SYS_FUTEX {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            if let Some(r) = crate::rt::futex_wait(a, c, d, op == 9) {
                if r < 0 {
                    *__errno_location() = -r as i32;
                    return -1;
                }
                return r;
            }
        } else if op == 1 || op == 10 {
            crate::rt::futex_wake(a, c);
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// Time, randomness and yielding, should the code under test ever ask for them.

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if let Some(us) = crate::rt::sim_clock(clk == 0 || clk == 5) {
        *ts = [crate::rt::EPOCH + (us / 1_000_000) as i64, (us % 1_000_000) as i64 * 1000];
        return 0;
    }
    syscall(228, clk as i64, ts as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if crate::rt::sim_random(p, n) {
        return n as isize;
    }
    syscall(318, p as i64, n as i64, fl as i64, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !crate::rt::sim_yield() {
        raw(24, 0, 0, 0, 0, 0, 0);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], b: *mut [i64; 2]) -> i32 {
    if crate::rt::sim_yield() {
        return 0;
    }
    syscall(35, a as i64, b as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const [i64; 2], b: *mut [i64; 2]) -> i32 {
    if crate::rt::sim_yield() {
        return 0;
    }
    -raw(230, c as i64, f as i64, a as i64, b as i64, 0, 0) as i32
}

/// memset without the counting below.
#[inline(always)]
pub unsafe fn fill(p: *mut u8, v: u8, n: usize) {
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") p => _, in("al") v, options(nostack, preserves_flags));
}

// Block operations on memory, counted while inside a call.

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    crate::rt::moved(n);
    copy_up(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    crate::rt::moved(n);
    if (d as usize).wrapping_sub(s as usize) >= n {
        copy_up(d, s, n);
    } else {
        // overlapping, from the top: bytes first, then words
        let (words, rest) = (n / 8, n % 8);
        asm!("std", "rep movsb", "sub rsi, 7", "sub rdi, 7", "mov rcx, {w}", "rep movsq", "cld", w = in(reg) words,
            inout("rcx") rest => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    crate::rt::moved(n);
    fill(d, v as u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() {
        i += 8;
    }
    while i < n && *a.add(i) == *b.add(i) {
        i += 1;
    }
    // a comparison stops at the first difference, and takes that long: a step for a byte
    crate::rt::moved(8 * i);
    if i < n {
        *a.add(i) as i32 - *b.add(i) as i32
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
#[inline(always)]
unsafe fn copy_up(d: *mut u8, s: *const u8, n: usize) {
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
}

// Whatever else reaches outside the process. Inside a call, output is dropped
// and reported; input is answered adversely in a hostile environment. The
// harness's own use passes through.

unsafe fn pass(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r = raw(n, a, b, c, d, 0, 0);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
use crate::rt::{effect, env_draw, env_here, inside};

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if inside() {
        effect(format_args!("writes {n} bytes to file descriptor {fd}"));
        return n as isize;
    }
    pass(1, fd as i64, p as i64, n as i64, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if inside() {
        effect(format_args!("writes to file descriptor {fd}"));
        return (0..n as usize).map(|i| (*v.add(i))[1] as isize).sum();
    }
    pass(20, fd as i64, v as i64, n as i64, 0) as isize
}
unsafe fn opening(path: *const std::ffi::c_char, flags: i32) -> Option<i32> {
    if !inside() {
        return None;
    }
    let name = std::ffi::CStr::from_ptr(path).to_string_lossy();
    if flags & 0o1103 != 0 {
        effect(format_args!("opens {name} for writing"));
        // a file of nobody's
        return Some(raw(319, b"sim\0".as_ptr() as i64, 0, 0, 0, 0, 0) as i32);
    }
    if env_here() {
        crate::rt::count(crate::rt::K::EnvFile);
        let x = env_draw();
        if x % 3 == 0 {
            *__errno_location() = if x & 8 == 0 { 2 } else { 13 };
            return Some(-1);
        }
        let fd = raw(319, b"sim\0".as_ptr() as i64, 0, 0, 0, 0, 0);
        let junk = [x.to_le_bytes(), env_draw().to_le_bytes(), env_draw().to_le_bytes()].concat();
        raw(18, fd, junk.as_ptr() as i64, junk.len() as i64, 0, 0, 0);
        return Some(fd as i32);
    }
    None
}
macro_rules! openers { ($($f:ident $fat:ident)*) => { $(
    #[no_mangle]
    pub unsafe extern "C" fn $f(p: *const std::ffi::c_char, fl: i32, m: u32) -> i32 {
        opening(p, fl).unwrap_or_else(|| pass(2, p as i64, fl as i64, m as i64, 0) as i32)
    }
    #[no_mangle]
    pub unsafe extern "C" fn $fat(d: i32, p: *const std::ffi::c_char, fl: i32, m: u32) -> i32 {
        opening(p, fl).unwrap_or_else(|| pass(257, d as i64, p as i64, fl as i64, m as i64) as i32)
    }
)* } }
openers!(open openat open64 openat64);

// What would change something outside is reported, and does not happen.
mod outward {
    use super::{effect, inside, pass, __errno_location};
    macro_rules! outward { ($($f:ident $n:literal $what:literal;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: i64, b: i64, c: i64, d: i64) -> i32 {
            if inside() {
                effect(format_args!($what));
                *__errno_location() = 1;
                return -1;
            }
            pass($n, a, b, c, d) as i32
        }
    )* } }
    outward! {
        socket 41 "opens a socket";
        connect 42 "connects to a network";
        bind 49 "listens to a network";
        unlink 87 "deletes a file";
        unlinkat 263 "deletes a file";
        rename 82 "renames a file";
        link 86 "makes a link";
        linkat 265 "makes a link";
        symlink 88 "makes a link";
        truncate 76 "cuts a file";
        truncate64 76 "cuts a file";
        ftruncate 77 "cuts a file";
        ftruncate64 77 "cuts a file";
        mkdir 83 "creates a directory";
        rmdir 84 "deletes a directory";
        chmod 90 "changes a file's mode";
        fchmod 91 "changes a file's mode";
        chdir 80 "changes the working directory";
        fchdir 81 "changes the working directory";
        chroot 161 "changes the root directory";
        umask 95 "changes the file mode mask";
        setrlimit 160 "changes a resource limit";
        setrlimit64 160 "changes a resource limit";
        setpriority 141 "changes its priority";
        setuid 105 "changes its user";
        setgid 106 "changes its group";
        mlock 149 "locks memory";
        mlockall 151 "locks memory";
        kill 62 "sends a signal";
    }
    macro_rules! libc_outward { ($($f:ident $what:literal;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: i64, b: i64, c: i64, d: i64, e: i64, x: i64) -> i64 {
            if inside() {
                effect(format_args!($what));
                *__errno_location() = 1;
                return -1;
            }
            let name = concat!(stringify!($f), "\0");
            let real: unsafe extern "C" fn(i64, i64, i64, i64, i64, i64) -> i64 =
                std::mem::transmute(super::dlsym(usize::MAX as *const u8, name.as_ptr() as *const std::ffi::c_char));
            real(a, b, c, d, e, x)
        }
    )* } }
    libc_outward! {
        setenv "sets an environment variable";
        putenv "sets an environment variable";
        unsetenv "removes an environment variable";
        clearenv "removes all environment variables";
        posix_spawn "starts a process";
        posix_spawnp "starts a process";
        execve "becomes another program";
        execvp "becomes another program";
        system "runs a command";
        signal "changes how a signal is handled";
        sigaction "changes how a signal is handled";
        setlocale "changes the locale";
        openlog "opens the system log";
        syslog "writes to the system log";
        atexit "registers an exit handler";
    }
}

// Threads started by the code under test itself run free: the scheduler does
// not see them, and what they do to the allocator is not held against it.
extern "C" {
    fn dlsym(h: *const u8, n: *const std::ffi::c_char) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: i64, a: i64, f: i64, x: i64) -> i32 {
    if inside() {
        crate::rt::spawned();
    }
    let real: unsafe extern "C" fn(i64, i64, i64, i64) -> i32 = std::mem::transmute(dlsym(usize::MAX as *const u8, c"pthread_create".as_ptr()));
    real(t, a, f, x)
}

// Who and where the process is.

macro_rules! identity { ($($f:ident $n:literal;)*) => { $(
    #[no_mangle]
    pub unsafe extern "C" fn $f() -> i32 {
        if env_here() {
            crate::rt::count(crate::rt::K::EnvWho);
            return (env_draw() % 40_000) as i32;
        }
        raw($n, 0, 0, 0, 0, 0, 0) as i32
    }
)* } }
identity! { getpid 39; getppid 110; getuid 102; geteuid 107; getgid 104; getegid 108; gettid 186; }

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if env_here() {
        crate::rt::count(crate::rt::K::EnvWho);
        fill(set, 0, n);
        for i in 0..env_draw() as usize % 70 {
            if i / 8 < n {
                *set.add(i / 8) |= 1 << (i % 8);
            }
        }
        return 0;
    }
    let r = pass(204, pid as i64, n as i64, set as i64, 0);
    if r < 0 {
        return -1;
    }
    fill(set.add(r as usize), 0, n - r as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if env_here() {
        crate::rt::count(crate::rt::K::EnvWho);
        return (env_draw() & 1) as i32;
    }
    let mut t = [0u8; 64];
    (pass(16, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0) == 0) as i32
}
/// Whether a path exists, and how large it is.
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const std::ffi::c_char, fl: i32, mask: u32, buf: *mut u8) -> i32 {
    if env_here() {
        crate::rt::count(crate::rt::K::EnvFile);
        let x = env_draw();
        if x & 1 == 0 {
            *__errno_location() = 2;
            return -1;
        }
        fill(buf, 0, 256);
        *(buf as *mut u32) = 0x7ff;
        *(buf.add(28) as *mut u16) = 0o100644;
        *(buf.add(40) as *mut u64) = x >> 40;
        return 0;
    }
    let r = raw(332, d as i64, p as i64, fl as i64, mask as i64, buf as i64, 0);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    0
}

extern "C" {
    static environ: *const *const std::ffi::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    if env_here() {
        crate::rt::count(crate::rt::K::EnvVar);
        let v: [&std::ffi::CStr; 8] = [c"1", c"0", c"", c"true", c"full", c"16", c"debug", c"/nowhere"];
        return v[env_draw() as usize % 8].as_ptr();
    }
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let b = std::ffi::CStr::from_ptr(*p).to_bytes();
        if b.len() > name.len() && b[name.len()] == b'=' && &b[..name.len()] == name {
            return (*p).add(name.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

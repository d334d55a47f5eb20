//! Owns the environment's nondeterminism: the clock and the seeds of hash maps.
//!
//! The executable's own definitions of these symbols take precedence over libc's, so both the standard
//! library and the code under test see the virtual clock and the chosen hash seeds.

use std::sync::atomic::{ AtomicBool, AtomicU64, Ordering::Relaxed };

static VIRTUAL:   AtomicBool = AtomicBool::new(false);
static MONO_NS:   AtomicU64  = AtomicU64::new(1_000_000_000_000);
static WALL_NS:   AtomicU64  = AtomicU64::new(1_700_000_000_000_000_000);
static HASH_SEED: AtomicU64  = AtomicU64::new(0x9E37_79B9_7F4A_7C15);

pub fn use_virtual_clock()   { VIRTUAL.store(true, Relaxed); }
pub fn advance_clock(ns: u64) { MONO_NS.fetch_add(ns, Relaxed); }
/// The time of day, in nanoseconds from 1970; stands still otherwise.
pub fn set_wall(ns: u64)      { WALL_NS.store(ns, Relaxed); }
pub fn set_clock(ns: u64)     { MONO_NS.store(ns, Relaxed); }

/// Takes effect for every thread started from now on.
pub fn set_hash_seed(seed: u64) { HASH_SEED.store(seed, Relaxed); }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL.load(Relaxed) {
        let ns: u64 = if clk == libc::CLOCK_MONOTONIC { MONO_NS.load(Relaxed) } else { WALL_NS.load(Relaxed) };
        unsafe {
            (*ts).tv_sec  = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut x: u64 = HASH_SEED.load(Relaxed);
    for i in 0..len {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        unsafe { *(buf as *mut u8).add(i) = (x >> 24) as u8; }
    }
    len as libc::ssize_t
}

/// The real monotonic time in nanoseconds, never virtual.
pub fn real_ns() -> u64 {
    let mut ts: libc::timespec = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut _); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// A process that has done nothing yet, and from which others can be started that compute what they are asked for,
/// each as if nothing had ever happened before.
#[cfg(feature = "more")]
pub struct Fresh { ask: libc::c_int, told: libc::c_int, room: *mut u8 }

#[cfg(feature = "more")]
const ROOM: usize = 8 << 20;

#[cfg(feature = "more")]
impl Fresh {
    pub fn new(f: fn(&[u8]) -> Vec<u8>) -> Fresh {
        unsafe {
            let (mut a, mut t): ([libc::c_int; 2], [libc::c_int; 2]) = ([0; 2], [0; 2]);
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(t.as_mut_ptr()) == 0, "pipe");
            let room: *mut u8 = libc::mmap(std::ptr::null_mut(), ROOM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(room as isize != -1, "mmap");
            match libc::fork() {
                -1 => panic!("fork"),
                0  => {
                    libc::close(a[1]); libc::close(t[0]);
                    loop {
                        let mut len: u64 = 0;
                        if libc::read(a[0], &mut len as *mut u64 as *mut libc::c_void, 8) != 8 { libc::_exit(0); }
                        let kid: libc::pid_t = libc::fork();
                        if kid == 0 {
                            libc::alarm(120);
                            let out: Vec<u8> = f(std::slice::from_raw_parts(room, len as usize));
                            if out.len() + 8 > ROOM { libc::_exit(1); }
                            (room as *mut u64).write(out.len() as u64);
                            std::ptr::copy_nonoverlapping(out.as_ptr(), room.add(8), out.len());
                            libc::_exit(0);
                        }
                        let mut st: libc::c_int = 1;
                        if kid > 0 { libc::waitpid(kid, &mut st, 0); }
                        let ok: u8 = (kid > 0 && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) as u8;
                        if libc::write(t[1], &ok as *const u8 as *const libc::c_void, 1) != 1 { libc::_exit(0); }
                    }
                },
                _  => { libc::close(a[0]); libc::close(t[1]); }
            }
            Fresh { ask: a[1], told: t[0], room }
        }
    }

    /// `None` if the process that was to find out crashed or did not end.
    pub fn find(&self, question: &[u8]) -> Option<Vec<u8>> {
        unsafe {
            std::ptr::copy_nonoverlapping(question.as_ptr(), self.room, question.len());
            let (len, mut ok): (u64, u8) = (question.len() as u64, 0);
            if libc::write(self.ask, &len as *const u64 as *const libc::c_void, 8) != 8 { return None; }
            if libc::read(self.told, &mut ok as *mut u8 as *mut libc::c_void, 1) != 1 || ok == 0 { return None; }
            Some(std::slice::from_raw_parts(self.room.add(8), (self.room as *const u64).read() as usize).to_vec())
        }
    }
}

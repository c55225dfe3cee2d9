//! Mirror of simrt.h and the process plumbing (shared regions, fork, wait).
use std::ffi::CString;

pub const MAX_TRACE: usize = 1 << 19;
pub const MAX_IOLOG: usize = 4096;
pub const OUT_CAP: usize = 1 << 21;

pub const POL_SEQ: u32 = 0;
pub const POL_RANDOM: u32 = 1;
pub const POL_PCT: u32 = 2;
pub const POL_REPLAY: u32 = 3;

pub const K_PREEMPT: u8 = 1;
pub const K_SPUR: u8 = 6;
pub const K_IOFAULT: u8 = 7;

pub const V_NONE: u32 = 0;
pub const V_DEADLOCK: u32 = 1;
pub const V_STEPS: u32 = 2;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub kind: u8,
    pub tid: u8,
    pub to: u16,
    pub pc: u32,
    pub key: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Io {
    pub op: u8,
    pub fault: u8,
    pub fd: u16,
    pub path: i32,
    pub ret: i64,
}
#[repr(C)]
pub struct Shared {
    pub seed: u64,
    pub policy: u32,
    pub ncpu: u32,
    pub sync_den: u32,
    pub mem_mean: u32,
    pub pct_depth: u32,
    pub spur_den: u32,
    pub stall_den: u32,
    pub stall_len: u32,
    pub pct_len: u64,
    pub max_steps: u64,
    pub starve_limit: u64,
    pub io_eintr: u32,
    pub io_short: u32,
    pub io_eio: u32,
    pub io_trunc: u32,
    pub io_open: u32,
    pub w_eintr: u32,
    pub w_short: u32,
    pub w_err: u32,
    pub alloc_fail_at: u64,
    pub thread_fail_at: u64,
    pub clock_jump: u32,
    pub capture_stdout: u32,
    pub ns_per_step: u64,
    pub scratch: [u8; 256],
    pub n_replay: u32,
    pub alloc_fail_n: u32,
    pub verdict: u32,
    pub ntrace: u32,
    pub trace_overflow: u32,
    pub nthreads: u32,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub yields: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub allocs: u64,
    pub spawns: u64,
    pub io_ops: u64,
    pub clock_jumps: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub ev_hash: u64,
    pub fired: [u64; 16],
    pub alloc_fired: u64,
    pub thread_fired: u64,
    pub niolog: u32,
    pub npaths: u32,
    pub paths: [[u8; 160]; 32],
    pub outlen: u64,
    pub diag: [u8; 256],
    pub iolog: [Io; MAX_IOLOG],
    pub trace: [Ev; MAX_TRACE],
    pub replay: [Ev; MAX_TRACE],
    pub out: [u8; OUT_CAP],
}

extern "C" {
    pub fn sim_start(s: *mut Shared);
    pub fn sim_stop();
    pub fn sim_seq() -> u64;
    pub fn sim_exempt(on: i32);
    pub fn sim_raw_write(path: *const libc::c_char, b: *const u8, n: usize) -> i32;
    pub fn sim_sizeof() -> u64;
    pub fn sim_live_bytes() -> i64;
    pub fn sim_live_threads() -> i32;
    pub fn sim_open_files() -> i32;
}

pub fn check_layout() {
    unsafe { assert_eq!(sim_sizeof() as usize, std::mem::size_of::<Shared>(), "simrt.h and rt.rs disagree") };
}

pub fn raw_write(path: &str, b: &[u8]) {
    let c = CString::new(path).unwrap();
    let r = unsafe { sim_raw_write(c.as_ptr(), b.as_ptr(), b.len()) };
    assert_eq!(r, 0, "cannot write {}", path);
}

pub const MAX_OPS: usize = 64;
pub const MAX_REPS: usize = 64;
pub const BLOB_CAP: usize = 96 << 20;

/// Results of one simulated process, written while it runs so that they survive its death.
#[repr(C)]
pub struct Blob {
    pub cursor: std::sync::atomic::AtomicU64,
    pub overflow: u32,
    pub nsamples: u32,
    /// call whose result in a later pass was not that of the first pass (+1), and that pass
    pub changed: [u32; 2],
    /// per repetition: open files, live threads, live heap bytes
    pub samples: [[i64; 3]; MAX_REPS],
    pub ops: [OpSlot; MAX_OPS],
    pub data: [u8; BLOB_CAP],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct OpSlot {
    pub status: u32, // 0 not started, 1 running, 2 ok, 3 panicked, 4 panicked with an injected payload
    pub fault_fired: u32,
    pub start: u64,
    pub end: u64,
    pub off: u64,
    pub len: u64,
    pub io_start: u64,
    pub io_end: u64,
    pub out_start: u64,
    pub out_end: u64,
}

pub struct Arena {
    pub sh: *mut Shared,
    pub blob: *mut Blob,
    pub fd: i32,
}

unsafe fn map(len: usize, fd: i32) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE,
        if fd < 0 { libc::MAP_SHARED | libc::MAP_ANONYMOUS } else { libc::MAP_SHARED } | libc::MAP_NORESERVE, fd, 0);
    assert!(p != libc::MAP_FAILED, "mmap failed");
    p as *mut u8
}

impl Arena {
    pub fn new() -> Arena {
        check_layout();
        unsafe {
            let name = CString::new("simshared").unwrap();
            let fd = libc::memfd_create(name.as_ptr(), 0);
            assert!(fd >= 0);
            let l = std::mem::size_of::<Shared>();
            assert_eq!(libc::ftruncate(fd, l as libc::off_t), 0);
            Arena { sh: map(l, fd) as *mut Shared, blob: map(std::mem::size_of::<Blob>(), -1) as *mut Blob, fd }
        }
    }
    pub fn sh(&self) -> &'static mut Shared {
        unsafe { &mut *self.sh }
    }
    pub fn blob(&self) -> &'static mut Blob {
        unsafe { &mut *self.blob }
    }
    pub fn reset(&self) {
        let sh = self.sh();
        unsafe {
            // header up to iolog
            let head = (&sh.iolog as *const _ as usize) - (sh as *const _ as usize);
            std::ptr::write_bytes(self.sh as *mut u8, 0, head);
            let b = self.blob();
            b.cursor.store(0, std::sync::atomic::Ordering::SeqCst);
            b.overflow = 0;
            b.changed = [0; 2];
            b.nsamples = 0;
            std::ptr::write_bytes(b.ops.as_mut_ptr(), 0, MAX_OPS);
        }
    }
    pub fn payload(&self, op: usize) -> &'static [u8] {
        let b = self.blob();
        let s = b.ops[op];
        &b.data[s.off as usize..(s.off + s.len) as usize]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

pub fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

/// Largest resident set and processor time of any child so far (for the evidence file).
pub static PEAK_KB: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Fork a child that runs `f` and never returns; wait for it. `cpu_s` limits its processor time
/// (`Exit::Signal(SIGXCPU)`); a child that sits in a real blocking call without using the
/// processor ends with `Exit::Signal(SIGALRM)`, and one that was merely kept off the processor by
/// a busy machine with `Exit::Signal(SIGKILL)`: no verdict.
pub fn fork_run(cpu_s: u32, f: impl FnOnce()) -> Exit {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(5 * cpu_s / 2);
            let lim = libc::rlimit { rlim_cur: cpu_s as u64, rlim_max: cpu_s as u64 + 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let dn = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if std::env::var_os("SIM_STDERR").is_none() {
                libc::dup2(dn, 2);
            }
            let zero = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &zero);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        loop {
            let r = libc::wait4(pid, &mut st, 0, &mut ru);
            if r == pid {
                break;
            }
        }
        PEAK_KB.fetch_max(ru.ru_maxrss as u64, std::sync::atomic::Ordering::SeqCst);
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec > 2 {
                return Exit::Signal(libc::SIGKILL);
            }
            Exit::Signal(sig)
        } else {
            Exit::Code(libc::WEXITSTATUS(st))
        }
    }
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

//! FFI to the simulator core (csim/sim.c) and the per-run process isolation.
#![allow(dead_code)]
pub const MAX_DEV: usize = 60000;
pub const MAX_FILES: usize = 24;
pub const FILE_CAP: usize = 1 << 19;
pub const MSG_CAP: usize = 1 << 19;
pub const OUT_CAP: usize = 1 << 20;
pub const STDIN_CAP: usize = 1 << 17;
pub const JOUR_CAP: usize = 1 << 17;
pub const NKIND: usize = 32;

pub const D_SWITCH: usize = 1;
pub const D_WAKEPICK: usize = 2;
pub const D_STALL: usize = 3;
pub const F_R_EINTR: usize = 10;
pub const F_R_SHORT: usize = 11;
pub const F_R_EIO: usize = 12;
pub const F_W_EINTR: usize = 13;
pub const F_W_SHORT: usize = 14;
pub const F_W_EIO: usize = 15;
pub const F_W_ENOSPC: usize = 16;
pub const F_OPEN_FAIL: usize = 17;
pub const F_CRASH: usize = 18;
pub const F_SPURIOUS: usize = 19;
pub const F_SPAWN_FAIL: usize = 20;
pub const F_SLEEP_EINTR: usize = 21;
pub const F_CLOCKJUMP: usize = 22;
pub const F_CLOSE_EIO: usize = 23;
pub const F_HOST: usize = 24;
pub const F_CORRUPT: usize = 25;
pub const F_NET: usize = 26;

pub fn kind_name(k: usize) -> &'static str {
    match k {
        1 => "context_switch", 2 => "wake_order", 3 => "thread_stall",
        10 => "read_eintr", 11 => "short_read", 12 => "read_eio", 13 => "write_eintr", 14 => "short_write",
        15 => "write_eio", 16 => "disk_full", 17 => "open_failure", 18 => "process_crash", 19 => "spurious_wakeup",
        20 => "thread_spawn_failure", 21 => "sleep_eintr", 22 => "wall_clock_jump", 23 => "close_eio",
        24 => "script_error_or_panic", 25 => "content_corruption", 26 => "network_failure", _ => "other",
    }
}

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dev { pub tid: u32, pub kind: u32, pub lstep: u64, pub arg: u64 }

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg {
    pub seed: u64,
    pub replay: u32,
    pub strategy: u32,
    pub mean: u64,
    pub p_sync: u32,
    pub pct_depth: u32,
    pub max_steps: u64,
    pub slice: u64,
    pub step_ns: u64,
    pub epoch_ns: i64,
    pub max_faults: u32,
    pub max_switches: u32,
    pub pf: [u32; NKIND],
    pub disk_cap: u64,
    pub rng_seed: u64,
    pub crash_io: u64,
    pub stdin_len: u32,
    pub pad: u32,
}

#[repr(C)]
pub struct SFile { pub used: u32, pub exists: u32, pub name: [u8; 120], pub len: u32, pub is_dir: u32, pub data: [u8; FILE_CAP] }

pub const ST_DONE: u32 = 1;
pub const ST_DEADLOCK: u32 = 2;
pub const ST_STEPS: u32 = 3;
pub const ST_CRASHED: u32 = 4;
pub const ST_SIMERR: u32 = 5;

#[repr(C)]
pub struct Shm {
    pub cfg: Cfg,
    pub ndev_in: u32,
    pub dev_in: [Dev; MAX_DEV],
    pub status: u32,
    pub ndev: u32,
    pub dev: [Dev; MAX_DEV],
    pub steps: u64, pub switches: u64, pub sync_ops: u64, pub sim_ns: u64, pub io_ops: u64,
    pub trace_hash: u64,
    pub shape_hash: u64,
    pub nthreads: u32,
    pub fault_count: [u32; NKIND],
    pub msg_len: u32, pub msg: [u8; MSG_CAP],
    pub out_len: u32, pub out: [u8; OUT_CAP],
    pub err_len: u32, pub err: [u8; OUT_CAP],
    pub stdin_pos: u32, pub stdin_buf: [u8; STDIN_CAP],
    pub disk_used: u64,
    pub live_allocs: u64, pub full_hits: u64,
    pub dead_n: u32, pub dead: [u8; 4096],
    pub harness_done: u32,
    pub ctr: [u64; 32],
    pub jour_len: u32, pub jour: [u8; JOUR_CAP],
    pub files: [SFile; MAX_FILES],
}

extern "C" {
    fn sim_alloc_shared(n: usize) -> *mut u8;
    fn sim_shm_size() -> usize;
    fn sim_init();
    fn sim_set_cov(p: *mut u8);
    fn sim_cov_n() -> u32;
    fn sim_clear(s: *mut Shm, keep_files: i32);
    fn sim_start(s: *mut Shm);
    fn sim_stop();
    fn sim_exit(code: i32) -> !;
    fn sim_now() -> u64;
    fn sim_realtime_ns() -> i64;
    fn sim_tid() -> u32;
    fn sim_host_fault(kind: u32, arg: *mut u64, range: u64) -> i32;
    fn sim_yield_point();
    fn sim_last_clock() -> i64;
    fn sim_live_threads() -> u32;
    fn sim_explore(on: i32);
    fn sim_active() -> i32;
}

pub fn init() { unsafe { assert_eq!(sim_shm_size(), std::mem::size_of::<Shm>(), "Shm layout mismatch"); sim_init() } }
pub fn alloc_shm() -> &'static mut Shm { unsafe { &mut *(sim_alloc_shared(std::mem::size_of::<Shm>()) as *mut Shm) } }
pub fn alloc_bytes(n: usize) -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(sim_alloc_shared(n), n) } }
pub fn set_cov(p: &mut [u8]) { unsafe { sim_set_cov(p.as_mut_ptr()) } }
pub fn cov_n() -> usize { unsafe { sim_cov_n() as usize } }
pub fn clear(s: &mut Shm, keep_files: bool) { unsafe { sim_clear(s, keep_files as i32) } }
pub fn now() -> u64 { unsafe { sim_now() } }
pub fn realtime_ns() -> i64 { unsafe { sim_realtime_ns() } }
pub fn tid() -> u32 { unsafe { sim_tid() } }
pub fn host_fault(kind: usize, range: u64) -> Option<u64> { let mut a = 0; unsafe { if sim_host_fault(kind as u32, &mut a, range) != 0 { Some(a) } else { None } } }
/// The wall clock time last given to the calling thread, in ns.
pub fn last_clock() -> i64 { unsafe { sim_last_clock() } }
pub fn yield_point() { unsafe { sim_yield_point() } }
pub fn live_threads() -> u32 { unsafe { sim_live_threads() } }
pub fn explore(on: bool) { unsafe { sim_explore(on as i32) } }
pub fn active() -> bool { unsafe { sim_active() != 0 } }
static mut CUR: *mut Shm = std::ptr::null_mut();
/// The block of the run in progress.
pub fn shm() -> &'static mut Shm { unsafe { &mut *CUR } }
pub fn start(s: &mut Shm) { unsafe { CUR = s; sim_start(s) } }
pub fn stop() { unsafe { sim_stop() } }
pub fn exit(code: i32) -> ! { unsafe { sim_exit(code) } }

impl Shm {
    pub fn msg_str(&self) -> String { String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned() }
    pub fn out_bytes(&self) -> &[u8] { &self.out[..self.out_len as usize] }
    pub fn err_str(&self) -> String { String::from_utf8_lossy(&self.err[..self.err_len as usize]).into_owned() }
    pub fn dead_str(&self) -> String { String::from_utf8_lossy(&self.dead[..self.dead_n as usize]).into_owned() }
    pub fn push_msg(&mut self, s: &str) {
        let n = self.msg_len as usize; let b = s.as_bytes(); let k = b.len().min(MSG_CAP - n);
        self.msg[n..n + k].copy_from_slice(&b[..k]); self.msg_len += k as u32;
    }
    pub fn jour_str(&self) -> String { String::from_utf8_lossy(&self.jour[..self.jour_len as usize]).into_owned() }
    pub fn journal(&mut self, s: &str) {
        let n = self.jour_len as usize; let b = s.as_bytes(); let k = b.len().min(JOUR_CAP - n);
        self.jour[n..n + k].copy_from_slice(&b[..k]); self.jour_len += k as u32;
    }
    pub fn file(&self, name: &str) -> Option<&[u8]> {
        for f in self.files.iter() {
            if f.used != 0 && f.exists != 0 { let l = f.name.iter().position(|&c| c == 0).unwrap_or(120); if &f.name[..l] == name.as_bytes() { return Some(&f.data[..f.len as usize]); } }
        }
        None
    }
    pub fn put_file(&mut self, name: &str, data: &[u8]) {
        assert!(data.len() <= FILE_CAP && name.len() < 119);
        for f in self.files.iter_mut() {
            if f.used == 0 {
                f.used = 1; f.exists = 1; f.is_dir = 0; f.len = data.len() as u32; f.name = [0; 120]; f.name[..name.len()].copy_from_slice(name.as_bytes());
                f.data[..data.len()].copy_from_slice(data); self.disk_used += data.len() as u64; return;
            }
        }
        panic!("simulated file table full");
    }
    pub fn put_dir(&mut self, name: &str) {
        for f in self.files.iter_mut() { if f.used == 0 { f.used = 1; f.exists = 1; f.is_dir = 1; f.len = 0; f.name = [0; 120]; f.name[..name.len()].copy_from_slice(name.as_bytes()); return; } }
    }
    pub fn set_stdin(&mut self, d: &[u8]) { assert!(d.len() <= STDIN_CAP); self.stdin_buf[..d.len()].copy_from_slice(d); self.cfg.stdin_len = d.len() as u32; }
}

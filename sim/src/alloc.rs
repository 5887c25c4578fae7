//! Allocation ledger (used by C15): every block carries a header; freed blocks are poisoned and quarantined, so
//! that a double release, a write after release, a wrong-size release and a leak are all observable.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Ledger;
static mut ON: bool = false;
const HDR: usize = 32;
const LIVE: u64 = 0x11a110c8_c0ffee01;
const DEAD: u64 = 0xdead_dead_dead_dead;
/// The ledger's counters are plain statics: simulated threads hold one token, so there are no races.
pub static mut LIVE_N: i64 = 0;
pub static mut LIVE_BYTES: i64 = 0;
pub static mut DOUBLE: u64 = 0;
pub static mut WRONG: u64 = 0;
pub static mut TOTAL: u64 = 0;
static mut HARNESS: i32 = 0;
static mut Q: [(usize, usize); 1 << 16] = [(0, 0); 1 << 16];
static mut QN: usize = 0;
static mut QBYTES: usize = 0;
pub static mut UAF: u64 = 0;
/// Must be called before any thread exists and before anything that is to be checked is allocated.
pub fn enable() { unsafe { ON = true } }
/// Makes the calling thread create what the standard library creates once per thread or process, on first use: the
/// context for blocking on a channel, the buffers of standard input and output.
pub fn warm() {
    let (_t, r) = std::sync::mpsc::channel::<u8>();
    let _ = r.recv_timeout(std::time::Duration::from_micros(10));
    let _ = (std::io::stdin(), std::io::stdout(), std::io::stderr(), std::thread::current());
}
/// Allocations made while in harness code are not counted.
pub fn harness(on: bool) { unsafe { HARNESS += if on { 1 } else { -1 } } }
pub fn live() -> (i64, i64) { unsafe { (LIVE_N, LIVE_BYTES) } }
unsafe fn check_dead(p: usize, n: usize) { for i in 0..n { if *((p + HDR + i) as *const u8) != 0xdb { UAF += 1; return; } } }
/// Checks that no quarantined block was written to since its release.
pub fn scan() { unsafe { for i in 0..QN { check_dead(Q[i].0, Q[i].1); } } }
unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON || l.align() > 16 { return System.alloc(l); }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + HDR, 16));
        if p.is_null() { return p; }
        let h = p as *mut u64;
        *h = LIVE; *h.add(1) = l.size() as u64; *h.add(2) = if HARNESS > 0 { 1 } else { 0 };
        if HARNESS <= 0 { LIVE_N += 1; LIVE_BYTES += l.size() as i64; TOTAL += 1; }
        std::ptr::write_bytes(p.add(HDR), 0xaa, l.size());
        p.add(HDR)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if !ON || l.align() > 16 { return System.dealloc(q, l); }
        let p = q.sub(HDR); let h = p as *mut u64;
        if *h == DEAD { DOUBLE += 1; return; }
        if *h != LIVE { return; } // allocated before the ledger was switched on: leak it
        if *h.add(1) != l.size() as u64 { WRONG += 1; }
        if *h.add(2) == 0 { LIVE_N -= 1; LIVE_BYTES -= l.size() as i64; }
        *h = DEAD;
        std::ptr::write_bytes(q, 0xdb, *h.add(1) as usize);
        if QN < (1 << 16) && QBYTES < (256 << 20) { Q[QN] = (p as usize, *h.add(1) as usize); QN += 1; QBYTES += l.size(); }
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ON || l.align() > 16 { return System.realloc(q, l, n); }
        let p = q.sub(HDR); let h = p as *mut u64;
        if *h != LIVE && *h != DEAD { // block from before the ledger
            let r = self.alloc(Layout::from_size_align_unchecked(n, l.align())); if !r.is_null() { std::ptr::copy_nonoverlapping(q, r, l.size().min(n)); } return r;
        }
        let r = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !r.is_null() { if *h.add(2) == 1 && HARNESS <= 0 { /* ownership stays with the harness */ LIVE_N -= 1; LIVE_BYTES -= n as i64; *((r.sub(HDR)) as *mut u64).add(2) = 1; }
            std::ptr::copy_nonoverlapping(q, r, l.size().min(n)); self.dealloc(q, l); }
        r
    }
}

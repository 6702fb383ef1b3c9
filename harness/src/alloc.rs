//! Allocator used by the whole harness. Always counts bytes per thread; in guarded mode it also
//! surrounds every block with canaries, fills fresh memory with a pattern, and scribbles over
//! memory that is released.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, AtomicU64, Ordering::Relaxed};

pub struct Monitor;

#[global_allocator]
static A: Monitor = Monitor;

thread_local!
{
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static FRESH: Cell<u8> = const { Cell::new(0xa5) };
}
/// Decided by the very first allocation of the process (0: not yet, 1: plain, 2: guarded), from
/// the environment variable BABS_GUARD; so that every block is laid out in the same way.
static GUARD: AtomicU8 = AtomicU8::new(0);
fn guarded() -> bool
{
    match GUARD.load(Relaxed)
    {
        1 => false,
        2 => true,
        _ => {
            #[cfg(miri)]
            let on = false;
            #[cfg(not(miri))]
            let on = unsafe { !libc::getenv(b"BABS_GUARD\0".as_ptr() as *const _).is_null() };
            GUARD.store(1 + on as u8, Relaxed);
            on
        }
    }
}
pub static CANARY_HITS: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS_CHECKED: AtomicU64 = AtomicU64::new(0);

const ZONE: usize = 64;
const MAGIC: u64 = 0x5ca1_ab1e_0ddb_a115;

#[derive(Clone, Copy)]
pub struct Usage { pub live: isize, pub blocks: isize, pub peak: isize }
pub fn usage() -> Usage { Usage { live: LIVE.with(|x| x.get()), blocks: BLOCKS.with(|x| x.get()), peak: PEAK.with(|x| x.get()) } }
pub fn reset_peak() { PEAK.with(|p| p.set(LIVE.with(|l| l.get()))); }
pub fn set_fresh(b: u8) { FRESH.with(|f| f.set(b)); }
pub fn is_guarded() -> bool { guarded() }

fn note(n: isize, blocks: isize)
{
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| if l.get() > p.get() { p.set(l.get()) });
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

// Guarded blocks: [ pad, size, magic | user | ZONE bytes ]
fn front(l: &Layout) -> usize { if l.align() > ZONE { l.align() } else { ZONE } }

unsafe impl GlobalAlloc for Monitor
{
    unsafe fn alloc(&self, l: Layout) -> *mut u8
    {
        note(l.size() as isize, 1);
        if !guarded()
        {
            return System.alloc(l);
        }
        let f = front(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + f + ZONE, l.align().max(16)));
        if p.is_null() { return p; }
        let u = p.add(f);
        std::ptr::write_bytes(p, 0xc3, f);
        (u.sub(16) as *mut u64).write_unaligned(l.size() as u64);
        (u.sub(8) as *mut u64).write_unaligned(MAGIC);
        std::ptr::write_bytes(u, FRESH.try_with(|x| x.get()).unwrap_or(0xa5), l.size());
        std::ptr::write_bytes(u.add(l.size()), 0x3c, ZONE);
        u
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8
    {
        if !guarded()
        {
            note(l.size() as isize, 1);
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout)
    {
        note(-(l.size() as isize), -1);
        if !guarded()
        {
            System.dealloc(u, l);
            return;
        }
        let f = front(&l);
        let p = u.sub(f);
        let size = (u.sub(16) as *const u64).read_unaligned();
        let magic = (u.sub(8) as *const u64).read_unaligned();
        let mut bad = size != l.size() as u64 || magic != MAGIC;
        for i in 0..f - 16 { if *p.add(i) != 0xc3 { bad = true; } }
        for i in 0..ZONE { if *u.add(l.size() + i) != 0x3c { bad = true; } }
        BLOCKS_CHECKED.fetch_add(1, Relaxed);
        if bad
        {
            CANARY_HITS.fetch_add(1, Relaxed);
            // continuing with a damaged heap is pointless; the block is deliberately not freed
            return;
        }
        std::ptr::write_bytes(u.sub(8), 0xdd, l.size() + 8);
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + f + ZONE, l.align().max(16)));
    }
    unsafe fn realloc(&self, u: *mut u8, l: Layout, n: usize) -> *mut u8
    {
        if !guarded()
        {
            // report the peak as an ordinary in-place growth
            let p = System.realloc(u, l, n);
            if !p.is_null() { note(n as isize - l.size() as isize, 0); }
            return p;
        }
        let p = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !p.is_null()
        {
            std::ptr::copy_nonoverlapping(u, p, n.min(l.size()));
            self.dealloc(u, l);
        }
        p
    }
}

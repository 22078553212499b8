//! A checking global allocator: canaries after every block, fill patterns, layout check on free.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checked;

const MAGIC: u64 = 0x51d3_c0de_ba5e_ba11;
const TAIL: usize = 32;

thread_local! {
    static ERR: Cell<u32> = const { Cell::new(0) };
}

/// Takes the heap errors seen by this thread: bit 0 overrun, bit 1 free with another size, bit 2 with another align,
/// bit 3 underrun.
pub fn take_err() -> u32 {
    ERR.try_with(|e| e.replace(0)).unwrap_or(0)
}

fn set(b: u32) {
    let _ = ERR.try_with(|e| e.set(e.get() | b));
}

fn head(align: usize) -> usize {
    align.max(32)
}

unsafe fn init(base: *mut u8, l: Layout) -> *mut u8 {
    let p = base.add(head(l.align()));
    let h = p.sub(32) as *mut u64;
    h.write_unaligned(MAGIC);
    h.add(1).write_unaligned(l.size() as u64);
    h.add(2).write_unaligned(l.align() as u64);
    h.add(3).write_unaligned(MAGIC ^ l.size() as u64);
    std::ptr::write_bytes(p.add(l.size()), 0xC7, TAIL);
    p
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let full = Layout::from_size_align_unchecked(head(l.align()) + l.size() + TAIL, l.align());
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = init(base, l);
        std::ptr::write_bytes(p, 0xA5, l.size());
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let full = Layout::from_size_align_unchecked(head(l.align()) + l.size() + TAIL, l.align());
        let base = System.alloc_zeroed(full);
        if base.is_null() {
            return base;
        }
        init(base, l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut u64;
        let size = h.add(1).read_unaligned() as usize;
        let align = h.add(2).read_unaligned() as usize;
        if h.read_unaligned() != MAGIC || h.add(3).read_unaligned() != MAGIC ^ size as u64 {
            set(8);
            return; // leak: the real base is not known
        }
        if size != l.size() {
            set(2);
        }
        if align != l.align() {
            set(4);
        }
        for i in 0..TAIL {
            if p.add(size + i).read() != 0xC7 {
                set(1);
            }
        }
        std::ptr::write_bytes(p, 0xDD, size);
        let full = Layout::from_size_align_unchecked(head(align) + size + TAIL, align);
        System.dealloc(p.sub(head(align)), full);
    }
}

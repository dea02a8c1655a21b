//! The allocator the harness runs the library under: it counts, fills fresh and freed memory with
//! junk (so that a read of uninitialized or freed bytes shows up in results), and checks red zones
//! and layouts on every free.

#[cfg(feature = "monalloc")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU64, Ordering};

    pub struct MonAlloc;

    const MAGIC_LIVE: u64 = 0x5ca1_ab1e_0ddb_a115;
    const MAGIC_FREE: u64 = 0xdead_f4ee_dead_f4ee;
    const TAIL: usize = 16;
    const TAIL_BYTE: u8 = 0xE7;

    pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
    pub static TOTAL_FREES_CHECKED: AtomicU64 = AtomicU64::new(0);
    static FILL: AtomicU64 = AtomicU64::new(1);

    thread_local! {
        static COUNT: Cell<u64> = const { Cell::new(0) };
        static BYTES: Cell<u64> = const { Cell::new(0) };
    }

    pub fn thread_count() -> (u64, u64) {
        (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
    }

    #[repr(C)]
    struct Header {
        // The system allocator reuses the first bytes of freed memory.
        _pad: [u64; 2],
        magic: u64,
        size: usize,
        align: usize,
        _pad_end: u64,
    }

    fn front(align: usize) -> usize {
        // Keep the payload aligned and leave at least a header plus 16 bytes of front red zone.
        let need = std::mem::size_of::<Header>() + 16;
        need.div_ceil(align.max(16)) * align.max(16)
    }

    fn fault(what: &str) -> ! {
        crate::ctx::fatal(96, &format!("allocator: {}", what));
    }

    unsafe impl GlobalAlloc for MonAlloc {
        unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
            if layout.size() == 0 {
                fault("allocation of zero bytes requested");
            }
            let f = front(layout.align());
            let Some(total) = layout.size().checked_add(f + TAIL) else {
                return std::ptr::null_mut();
            };
            let Ok(outer) = Layout::from_size_align(total, layout.align().max(16)) else {
                return std::ptr::null_mut();
            };
            let base = System.alloc(outer);
            if base.is_null() {
                return base;
            }
            let payload = base.add(f);
            // Junk that differs between allocations.
            let junk = FILL.fetch_add(0x35, Ordering::Relaxed) as u8 | 0x80;
            std::ptr::write_bytes(payload, junk, layout.size());
            std::ptr::write_bytes(base, TAIL_BYTE, f);
            std::ptr::write_bytes(payload.add(layout.size()), TAIL_BYTE, TAIL);
            (base as *mut Header).write(Header {
                _pad: [0; 2],
                magic: MAGIC_LIVE,
                size: layout.size(),
                align: layout.align(),
                _pad_end: 0,
            });
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = BYTES.try_with(|c| c.set(c.get() + layout.size() as u64));
            LIVE_BYTES.fetch_add(layout.size() as u64, Ordering::Relaxed);
            payload
        }

        unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
            let f = front(layout.align());
            let base = ptr.sub(f);
            let header = (base as *const Header).read();
            if header.magic == MAGIC_FREE {
                fault("memory freed twice");
            }
            if header.magic != MAGIC_LIVE {
                fault("memory before an allocation was overwritten (or a foreign pointer was freed)");
            }
            if header.size != layout.size() || header.align != layout.align() {
                fault(&format!(
                    "memory freed with another layout (allocated {}/{}, freed {}/{})",
                    header.size,
                    header.align,
                    layout.size(),
                    layout.align()
                ));
            }
            for i in std::mem::size_of::<Header>()..f {
                if base.add(i).read() != TAIL_BYTE {
                    fault("write before the start of an allocation");
                }
            }
            for i in 0..TAIL {
                if ptr.add(layout.size() + i).read() != TAIL_BYTE {
                    fault("write past the end of an allocation");
                }
            }
            TOTAL_FREES_CHECKED.fetch_add(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_sub(layout.size() as u64, Ordering::Relaxed);
            std::ptr::write_bytes(ptr, 0xDD, layout.size());
            (*(base as *mut Header)).magic = MAGIC_FREE;
            let outer = Layout::from_size_align_unchecked(
                layout.size() + f + TAIL,
                layout.align().max(16),
            );
            System.dealloc(base, outer)
        }
    }

    pub fn live_bytes() -> u64 {
        LIVE_BYTES.load(Ordering::Relaxed)
    }

    pub fn frees_checked() -> u64 {
        TOTAL_FREES_CHECKED.load(Ordering::Relaxed)
    }
}

#[cfg(feature = "monalloc")]
#[global_allocator]
static GLOBAL: imp::MonAlloc = imp::MonAlloc;

#[cfg(feature = "monalloc")]
pub use imp::{frees_checked, live_bytes, thread_count};

#[cfg(not(feature = "monalloc"))]
pub fn thread_count() -> (u64, u64) {
    (0, 0)
}
#[cfg(not(feature = "monalloc"))]
pub fn live_bytes() -> u64 {
    0
}
#[cfg(not(feature = "monalloc"))]
pub fn frees_checked() -> u64 {
    0
}

pub const ENABLED: bool = cfg!(feature = "monalloc");

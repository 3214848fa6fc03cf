//! The process's allocator: every block remembers whether code under test asked for it, so that
//! what that code holds can be told from what the simulator holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

const OURS: u64 = 0x5eed_0000_0000_0001;
const THEIRS: u64 = 0x5eed_0000_0000_0002;

/// Restores who is accounted for when dropped.
pub struct As(bool);

impl Drop for As {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|c| c.set(self.0));
    }
}

/// From here on the code under test allocates.
pub fn inside() -> As {
    As(INSIDE.try_with(|c| c.replace(true)).unwrap_or(false))
}

/// From here on the simulator allocates.
pub fn outside() -> As {
    As(INSIDE.try_with(|c| c.replace(false)).unwrap_or(false))
}

/// Bytes and blocks held by the code under test.
pub fn held() -> (i64, i64) {
    (BYTES.load(Ordering::Relaxed), BLOCKS.load(Ordering::Relaxed))
}

fn grown(layout: Layout) -> (Layout, usize) {
    let head = layout.align().max(16);
    // a layout near isize::MAX cannot be grown; let System refuse it
    match Layout::from_size_align(layout.size().saturating_add(head), head) {
        Ok(l) => (l, head),
        Err(_) => (layout, usize::MAX),
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let (big, head) = grown(layout);
        if head == usize::MAX {
            return std::ptr::null_mut();
        }
        mark(System.alloc(big), layout.size(), head)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let (big, head) = grown(layout);
        if head == usize::MAX {
            return std::ptr::null_mut();
        }
        mark(System.alloc_zeroed(big), layout.size(), head)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let (big, head) = grown(layout);
        let base = p.sub(head);
        if base.cast::<u64>().read() == THEIRS {
            BYTES.fetch_sub(layout.size() as i64, Ordering::Relaxed);
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
        }
        System.dealloc(base, big)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let (big, head) = grown(layout);
        let Some(new) = size.checked_add(head).filter(|n| *n <= isize::MAX as usize) else {
            return std::ptr::null_mut();
        };
        let base = p.sub(head);
        let theirs = base.cast::<u64>().read() == THEIRS;
        let q = System.realloc(base, big, new);
        if q.is_null() {
            return q;
        }
        if theirs {
            BYTES.fetch_add(size as i64 - layout.size() as i64, Ordering::Relaxed);
        }
        q.add(head)
    }
}

unsafe fn mark(base: *mut u8, size: usize, head: usize) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let theirs = INSIDE.try_with(|c| c.get()).unwrap_or(false);
    base.cast::<u64>().write(if theirs { THEIRS } else { OURS });
    if theirs {
        BYTES.fetch_add(size as i64, Ordering::Relaxed);
        BLOCKS.fetch_add(1, Ordering::Relaxed);
    }
    base.add(head)
}

/// A future of the code under test.
pub async fn lib<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(|cx| {
        let _as = inside();
        f.as_mut().poll(cx)
    })
    .await
}

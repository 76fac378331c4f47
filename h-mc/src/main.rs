#[path = "../../h-codec/src/refs.rs"]
#[allow(dead_code)]
mod refs;
mod app;
mod deep;
mod e2e;
mod example;
mod explore;
mod prog_model;
mod scale;
mod scen;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what the code under test has allocated and not freed, per OS thread. Each allocation is
/// tagged with whether it counts.
struct Counting;
thread_local! {
    static IN_USE: Cell<isize> = const { Cell::new(0) };
}
pub fn in_use() -> isize {
    IN_USE.with(|n| n.get())
}
fn layout(l: Layout) -> (Layout, usize) {
    let head = l.align().max(16);
    (Layout::from_size_align(l.size() + head, head).unwrap(), head)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (full, head) = layout(l);
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let tag = tokio::mc::counting();
        if tag {
            IN_USE.with(|n| n.set(n.get() + l.size() as isize));
        }
        *(p.add(head - 8) as *mut u64) = tag as u64;
        p.add(head)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (full, head) = layout(l);
        if *(p.sub(8) as *mut u64) == 1 {
            IN_USE.with(|n| n.set(n.get() - l.size() as isize));
        }
        System.dealloc(p.sub(head), full);
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    example::init();
    engine::main(&[
        &explore::Sched("C15"),
        &explore::Sched("C16"),
        &explore::Sched("C17"),
        &explore::Sched("C18"),
        &explore::Sched("C19"),
        &explore::Sched("C23"),
        &explore::Sched("C25"),
        &explore::Sched("C26"),
    ]);
}

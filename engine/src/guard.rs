//! A buffer whose contents end right before an inaccessible page (and can also start right after
//! one), so that any access outside of it is a crash.

pub struct GuardBuf {
    base: *mut u8,
    size: usize, //accessible bytes
}

const PAGE: usize = 4096;

impl GuardBuf {
    pub fn new(min_size: usize) -> GuardBuf {
        let size = min_size.div_ceil(PAGE).max(1) * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                size + 2 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = (p as *mut u8).add(PAGE);
            assert_eq!(libc::mprotect(base as *mut _, size, libc::PROT_READ | libc::PROT_WRITE), 0);
            GuardBuf { base, size }
        }
    }
    /// A slice of `n` bytes that ends at the end of the accessible memory.
    #[allow(clippy::mut_from_ref)]
    pub fn end(&mut self, n: usize) -> &mut [u8] {
        if n > self.size {
            *self = GuardBuf::new(n);
        }
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.size - n), n) }
    }
    /// Copies `b` to the end of the accessible memory.
    pub fn load(&mut self, b: &[u8]) -> &[u8] {
        let s = self.end(b.len());
        s.copy_from_slice(b);
        s
    }
    /// A slice of `n` bytes that starts at the start of the accessible memory.
    pub fn start(&mut self, n: usize) -> &mut [u8] {
        assert!(n <= self.size);
        unsafe { std::slice::from_raw_parts_mut(self.base, n) }
    }
}

impl Drop for GuardBuf {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.sub(PAGE) as *mut _, self.size + 2 * PAGE) };
    }
}

//! `std` for the code under test: everything is the real one except locks, atomics (which get
//! scheduling points) and hash maps and sets (which get a reproducible order).

pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;

    use crate::mc;
    use ::std::cell::{Cell, UnsafeCell};
    use ::std::fmt;
    use ::std::marker::PhantomData;
    use ::std::ops::{Deref, DerefMut};

    #[derive(Default)]
    struct Raw {
        writer: Cell<bool>,
        readers: Cell<u32>,
        /// Writers that wait keep new readers out, as in std.
        writers_waiting: Cell<u32>,
        poisoned: Cell<bool>,
        /// Somebody may look at whether the lock is taken, so that releasing it is visible.
        visible: Cell<bool>,
    }
    impl Raw {
        fn write(&self, what: &'static str) {
            mc::point(what);
            self.writers_waiting.set(self.writers_waiting.get() + 1);
            mc::block_on_lock(&|| !self.writer.get() && self.readers.get() == 0, what);
            self.writers_waiting.set(self.writers_waiting.get() - 1);
            self.writer.set(true);
            mc::lock_taken(1);
        }
        fn read(&self, what: &'static str) {
            mc::point(what);
            mc::block_on_lock(&|| !self.writer.get() && self.writers_waiting.get() == 0, what);
            self.readers.set(self.readers.get() + 1);
            mc::lock_taken(1);
        }
        fn try_write(&self, what: &'static str) -> bool {
            self.visible.set(true);
            mc::point(what);
            let ok = !self.writer.get() && self.readers.get() == 0;
            if ok {
                self.writer.set(true);
                mc::lock_taken(1);
            }
            ok
        }
        fn try_read(&self, what: &'static str) -> bool {
            self.visible.set(true);
            mc::point(what);
            let ok = !self.writer.get() && self.writers_waiting.get() == 0;
            if ok {
                self.readers.set(self.readers.get() + 1);
                mc::lock_taken(1);
            }
            ok
        }
        fn unwrite(&self, was_panicking: bool) {
            if self.visible.get() {
                mc::point("release");
            }
            if !was_panicking && mc::panicking() {
                self.poisoned.set(true);
            }
            self.writer.set(false);
            mc::lock_taken(-1);
        }
        fn unread(&self) {
            if self.visible.get() {
                mc::point("release");
            }
            self.readers.set(self.readers.get() - 1);
            mc::lock_taken(-1);
        }
        fn result<G>(&self, g: G) -> LockResult<G> {
            if self.poisoned.get() {
                Err(PoisonError::new(g))
            } else {
                Ok(g)
            }
        }
        fn try_result<G>(&self, g: Option<G>) -> TryLockResult<G> {
            match g {
                None => Err(TryLockError::WouldBlock),
                Some(g) if self.poisoned.get() => Err(TryLockError::Poisoned(PoisonError::new(g))),
                Some(g) => Ok(g),
            }
        }
    }

    macro_rules! guard {
        ($name:ident, $lock:ident, $bound:ident, $release:expr) => {
            pub struct $name<'a, T: ?Sized> {
                lock: &'a $lock<T>,
                #[allow(dead_code)]
                was_panicking: bool,
                not_send: PhantomData<*const ()>,
            }
            unsafe impl<T: ?Sized + Sync> Sync for $name<'_, T> {}
            impl<'a, T: ?Sized> $name<'a, T> {
                fn new(lock: &'a $lock<T>) -> Self {
                    $name { lock, was_panicking: mc::panicking(), not_send: PhantomData }
                }
            }
            impl<T: ?Sized> Deref for $name<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    unsafe { &*self.lock.data.get() }
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized> Drop for $name<'_, T> {
                fn drop(&mut self) {
                    let f: fn(&Self) = $release;
                    f(self)
                }
            }
        };
    }
    guard!(MutexGuard, Mutex, Send, |g| g.lock.raw.unwrite(g.was_panicking));
    guard!(RwLockWriteGuard, RwLock, Send, |g| g.lock.raw.unwrite(g.was_panicking));
    guard!(RwLockReadGuard, RwLock, Send, |g| g.lock.raw.unread());
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.data.get() }
        }
    }

    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
            let lock = s.lock;
            ::std::mem::forget(s);
            mc::point("downgrade");
            lock.raw.writer.set(false);
            lock.raw.readers.set(1);
            RwLockReadGuard::new(lock)
        }
    }

    pub struct Mutex<T: ?Sized> {
        raw: Raw,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct RwLock<T: ?Sized> {
        raw: Raw,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

    const fn raw() -> Raw {
        Raw { writer: Cell::new(false), readers: Cell::new(0), writers_waiting: Cell::new(0), poisoned: Cell::new(false), visible: Cell::new(false) }
    }

    macro_rules! common {
        ($lock:ident) => {
            impl<T> $lock<T> {
                pub const fn new(t: T) -> Self {
                    $lock { raw: raw(), data: UnsafeCell::new(t) }
                }
                pub fn into_inner(self) -> LockResult<T> {
                    let p = self.raw.poisoned.get();
                    let t = self.data.into_inner();
                    if p {
                        Err(PoisonError::new(t))
                    } else {
                        Ok(t)
                    }
                }
            }
            impl<T: ?Sized> $lock<T> {
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    let p = self.raw.poisoned.get();
                    let t = self.data.get_mut();
                    if p {
                        Err(PoisonError::new(t))
                    } else {
                        Ok(t)
                    }
                }
                pub fn is_poisoned(&self) -> bool {
                    self.raw.poisoned.get()
                }
                pub fn clear_poison(&self) {
                    self.raw.poisoned.set(false)
                }
            }
            impl<T: Default> Default for $lock<T> {
                fn default() -> Self {
                    Self::new(T::default())
                }
            }
            impl<T> From<T> for $lock<T> {
                fn from(t: T) -> Self {
                    Self::new(t)
                }
            }
            impl<T: ?Sized> fmt::Debug for $lock<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($lock))
                }
            }
        };
    }
    common!(Mutex);
    common!(RwLock);
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.raw.write("mutex");
            self.raw.result(MutexGuard::new(self))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            let ok = self.raw.try_write("mutex");
            self.raw.try_result(ok.then(|| MutexGuard::new(self)))
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.raw.write("rwlock (write)");
            self.raw.result(RwLockWriteGuard::new(self))
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            self.raw.read("rwlock (read)");
            self.raw.result(RwLockReadGuard::new(self))
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            let ok = self.raw.try_write("rwlock (write)");
            self.raw.try_result(ok.then(|| RwLockWriteGuard::new(self)))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            let ok = self.raw.try_read("rwlock (read)");
            self.raw.try_result(ok.then(|| RwLockReadGuard::new(self)))
        }
    }

    /// Like std's, over the controlled mutex.
    #[derive(Debug, Default)]
    pub struct Condvar(::std::sync::atomic::AtomicU64);
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(::std::sync::atomic::AtomicU64::new(0))
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            use ::std::sync::atomic::Ordering::SeqCst;
            let (lock, seen) = (g.lock, self.0.load(SeqCst));
            drop(g);
            mc::block_on_lock(&|| self.0.load(SeqCst) != seen, "condition variable");
            lock.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            self.notify_all() //waiters have to expect spurious wakeups anyway
        }
        pub fn notify_all(&self) {
            mc::point("condvar");
            self.0.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use crate::mc;

        macro_rules! atomic {
            ($name:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(::std::sync::atomic::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        mc::point("atomic");
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        mc::point("atomic");
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_xor(v, o)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                        mc::point("atomic");
                        self.0.fetch_update(o, p, f)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
            };
        }
        macro_rules! atomic_int {
            ($name:ident, $t:ty) => {
                atomic!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_add(v, o)
                    }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_sub(v, o)
                    }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_max(v, o)
                    }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                        mc::point("atomic");
                        self.0.fetch_min(v, o)
                    }
                }
            };
        }
        atomic!(AtomicBool, bool);
        atomic_int!(AtomicUsize, usize);
        atomic_int!(AtomicIsize, isize);
        atomic_int!(AtomicU64, u64);
        atomic_int!(AtomicI64, i64);
        atomic_int!(AtomicU32, u32);
        atomic_int!(AtomicI32, i32);
        atomic_int!(AtomicU8, u8);
    }
}

pub mod collections {
    pub use ::std::collections::*;
    use ::std::borrow::Borrow;
    use ::std::hash::{BuildHasher, Hash, Hasher};
    use ::std::ops::{Deref, DerefMut, Index};

    #[derive(Clone)]
    pub struct Fixed(u64);
    impl Default for Fixed {
        fn default() -> Self {
            Fixed([0, 0x9e37_79b9_7f4a_7c15, 0xdead_beef_0bad_cafe][crate::mc::order() as usize % 3])
        }
    }
    pub struct H(u64);
    impl Hasher for H {
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
            }
        }
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x = (x ^ (x >> 31)).wrapping_mul(0x7fb5_d329_728e_a185);
            x ^ (x >> 27)
        }
    }
    impl BuildHasher for Fixed {
        type Hasher = H;
        fn build_hasher(&self) -> H {
            H(0xcbf2_9ce4_8422_2325 ^ self.0)
        }
    }

    #[derive(Clone, Debug)]
    pub struct HashMap<K, V>(::std::collections::HashMap<K, V, Fixed>);
    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self {
            HashMap(::std::collections::HashMap::with_hasher(Fixed::default()))
        }
        pub fn with_capacity(n: usize) -> Self {
            HashMap(::std::collections::HashMap::with_capacity_and_hasher(n, Fixed::default()))
        }
        pub fn into_values(self) -> hash_map::IntoValues<K, V> {
            self.0.into_values()
        }
        pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
            self.0.into_keys()
        }
    }
    impl<K, V> Default for HashMap<K, V> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K, V> Deref for HashMap<K, V> {
        type Target = ::std::collections::HashMap<K, V, Fixed>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V> DerefMut for HashMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K, V> IntoIterator for HashMap<K, V> {
        type Item = (K, V);
        type IntoIter = hash_map::IntoIter<K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = hash_map::Iter<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = hash_map::IterMut<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter_mut()
        }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
            let mut m = Self::new();
            m.0.extend(i);
            m
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> Index<&Q> for HashMap<K, V> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            &self.0[k]
        }
    }

    #[derive(Clone, Debug)]
    pub struct HashSet<K>(::std::collections::HashSet<K, Fixed>);
    impl<K> HashSet<K> {
        pub fn new() -> Self {
            HashSet(::std::collections::HashSet::with_hasher(Fixed::default()))
        }
        pub fn with_capacity(n: usize) -> Self {
            HashSet(::std::collections::HashSet::with_capacity_and_hasher(n, Fixed::default()))
        }
    }
    impl<K> Default for HashSet<K> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K> Deref for HashSet<K> {
        type Target = ::std::collections::HashSet<K, Fixed>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K> DerefMut for HashSet<K> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K> IntoIterator for HashSet<K> {
        type Item = K;
        type IntoIter = hash_set::IntoIter<K>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K> IntoIterator for &'a HashSet<K> {
        type Item = &'a K;
        type IntoIter = hash_set::Iter<'a, K>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
        fn from(a: [K; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq + Hash> PartialEq for HashSet<K> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<K: Eq + Hash> Eq for HashSet<K> {}
    impl<K: Eq + Hash> Extend<K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
        fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
            let mut m = Self::new();
            m.0.extend(i);
            m
        }
    }
}

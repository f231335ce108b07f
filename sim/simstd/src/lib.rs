//! `std` with the simulator's scheduler in its atomics and locks.
//! rustcw.sh passes this crate to rustc as `std` when it compiles /repo's crate, whose source stays as it is.

#![allow(ambiguous_glob_reexports)]

pub use std::*;

pub mod sync {
    pub use std::sync::*;

    mod lock;
    pub use lock::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};

    pub mod atomic {
        pub use std::sync::atomic::*;
        use std::sync::atomic as real;

        macro_rules! common {
            ($name:ident, $t:ty $(, $g:ident)?) => {
                #[repr(transparent)]
                pub struct $name $(<$g>)? (real::$name $(<$g>)?);
                impl $(<$g>)? $name $(<$g>)? {
                    pub const fn new(v: $t) -> Self {
                        Self(real::$name::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub const fn as_ptr(&self) -> *mut $t {
                        self.0.as_ptr()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        simcore::preempt();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        simcore::preempt();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        simcore::preempt();
                        self.0.swap(v, o)
                    }
                    #[allow(deprecated)]
                    pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                        simcore::preempt();
                        self.0.compare_and_swap(a, b, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        simcore::preempt();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        simcore::preempt();
                        self.0.compare_exchange_weak(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        s: Ordering,
                        l: Ordering,
                        mut f: F,
                    ) -> Result<$t, $t> {
                        let mut prev = self.load(l);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, s, l) {
                                x @ Ok(_) => return x,
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn try_update(
                        &self,
                        s: Ordering,
                        l: Ordering,
                        f: impl FnMut($t) -> Option<$t>,
                    ) -> Result<$t, $t> {
                        self.fetch_update(s, l, f)
                    }
                    pub fn update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                        let mut prev = self.load(l);
                        loop {
                            match self.compare_exchange_weak(prev, f(prev), s, l) {
                                Ok(x) => return x,
                                Err(p) => prev = p,
                            }
                        }
                    }
                }
                impl $(<$g>)? Default for $name $(<$g>)? {
                    fn default() -> Self {
                        Self(Default::default())
                    }
                }
                impl $(<$g>)? From<$t> for $name $(<$g>)? {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl $(<$g>)? std::fmt::Debug for $name $(<$g>)? {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        std::fmt::Debug::fmt(&self.0, f)
                    }
                }
            };
        }

        macro_rules! ops {
            ($name:ident, $t:ty, $($op:ident),*) => {
                impl $name {
                    $(
                        pub fn $op(&self, v: $t, o: Ordering) -> $t {
                            simcore::preempt();
                            self.0.$op(v, o)
                        }
                    )*
                }
            };
        }

        macro_rules! int {
            ($($name:ident $t:ty),* $(,)?) => {
                $(
                    common!($name, $t);
                    ops!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
                )*
            };
        }

        int! {
            AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
            AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,
        }
        common!(AtomicBool, bool);
        ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
        common!(AtomicPtr, *mut T, T);
    }
}

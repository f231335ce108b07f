use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync as real;
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult, WaitTimeoutResult};
use std::time::Duration;

macro_rules! guard {
    ($name:ident) => {
        pub struct $name<'a, T: ?Sized>(Option<real::$name<'a, T>>);
        impl<'a, T: ?Sized> $name<'a, T> {
            fn wrap(g: real::$name<'a, T>) -> Self {
                simcore::held(1);
                Self(Some(g))
            }
            #[allow(dead_code)]
            fn unwrap(mut self) -> real::$name<'a, T> {
                // dropping `self` then counts it as released
                self.0.take().unwrap()
            }
        }
        impl<T: ?Sized> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.0.as_ref().unwrap()
            }
        }
        impl<T: ?Sized> Drop for $name<'_, T> {
            fn drop(&mut self) {
                self.0 = None;
                simcore::held(-1);
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}

macro_rules! guard_mut {
    ($name:ident) => {
        impl<T: ?Sized> DerefMut for $name<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                self.0.as_mut().unwrap()
            }
        }
    };
}

guard!(MutexGuard);
guard_mut!(MutexGuard);
guard!(RwLockReadGuard);
guard!(RwLockWriteGuard);
guard_mut!(RwLockWriteGuard);

fn res<A, B>(r: LockResult<A>, f: impl Fn(A) -> B) -> LockResult<B> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}

fn try_res<A, B>(r: TryLockResult<A>, f: impl Fn(A) -> B) -> TryLockResult<B> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner())))),
        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
}

macro_rules! lock {
    ($name:ident) => {
        #[derive(Default)]
        pub struct $name<T: ?Sized>(real::$name<T>);
        impl<T> $name<T> {
            pub const fn new(t: T) -> Self {
                Self(real::$name::new(t))
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.0.into_inner()
            }
        }
        impl<T: ?Sized> $name<T> {
            pub fn is_poisoned(&self) -> bool {
                self.0.is_poisoned()
            }
            pub fn clear_poison(&self) {
                self.0.clear_poison()
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.0.get_mut()
            }
        }
        impl<T> From<T> for $name<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}

lock!(Mutex);
lock!(RwLock);

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        simcore::preempt();
        res(self.0.lock(), MutexGuard::wrap)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        simcore::preempt();
        try_res(self.0.try_lock(), MutexGuard::wrap)
    }
}

impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        simcore::preempt();
        res(self.0.read(), RwLockReadGuard::wrap)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        simcore::preempt();
        res(self.0.write(), RwLockWriteGuard::wrap)
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        simcore::preempt();
        try_res(self.0.try_read(), RwLockReadGuard::wrap)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        simcore::preempt();
        try_res(self.0.try_write(), RwLockWriteGuard::wrap)
    }
}

#[derive(Default, Debug)]
pub struct Condvar(real::Condvar);

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar(real::Condvar::new())
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        res(self.0.wait(g.unwrap()), MutexGuard::wrap)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        g: MutexGuard<'a, T>,
        f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        res(self.0.wait_while(g.unwrap(), f), MutexGuard::wrap)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        res(self.0.wait_timeout(g.unwrap(), d), |(g, r)| (MutexGuard::wrap(g), r))
    }
    pub fn notify_one(&self) {
        self.0.notify_one()
    }
    pub fn notify_all(&self) {
        self.0.notify_all()
    }
}

//! rustcw.sh passes this crate to rustc as `parking_lot` when it compiles bb8.

use std::ops::{Deref, DerefMut};

pub struct Mutex<T: ?Sized>(simcore::hsync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(simcore::hsync::MutexGuard<'a, T>);

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex(simcore::hsync::Mutex::new(t))
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        match self.0.lock() {
            Ok(g) => MutexGuard(g),
            Err(p) => MutexGuard(p.into_inner()),
        }
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

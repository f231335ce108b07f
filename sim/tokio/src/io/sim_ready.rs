use std::fmt;
use std::ops;

/// Readiness event interest.
#[derive(Clone, Copy, Eq, PartialEq)]
pub struct Interest(u8);

impl Interest {
    /// Interest in all readable events.
    pub const READABLE: Interest = Interest(1);
    /// Interest in all writable events.
    pub const WRITABLE: Interest = Interest(2);

    /// Returns true if the value includes readable interest.
    pub const fn is_readable(self) -> bool {
        self.0 & 1 != 0
    }

    /// Returns true if the value includes writable interest.
    pub const fn is_writable(self) -> bool {
        self.0 & 2 != 0
    }

    /// Add together two `Interest` values.
    pub const fn add(self, other: Interest) -> Interest {
        Interest(self.0 | other.0)
    }
}

impl ops::BitOr for Interest {
    type Output = Self;
    fn bitor(self, other: Self) -> Self {
        self.add(other)
    }
}

impl fmt::Debug for Interest {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(fmt, "Interest({})", self.0)
    }
}

/// Describes the readiness state of an I/O resource.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Ready(u8);

impl Ready {
    /// Returns the empty `Ready` set.
    pub const EMPTY: Ready = Ready(0);
    /// Returns a `Ready` representing readable readiness.
    pub const READABLE: Ready = Ready(1);
    /// Returns a `Ready` representing writable readiness.
    pub const WRITABLE: Ready = Ready(2);
    /// Returns a `Ready` representing readiness for all operations.
    pub const ALL: Ready = Ready(3);

    /// Returns true if `Ready` is the empty set.
    pub fn is_empty(self) -> bool {
        self == Ready::EMPTY
    }

    /// Returns `true` if the value includes `readable`.
    pub fn is_readable(self) -> bool {
        self.0 & 1 != 0
    }

    /// Returns `true` if the value includes writable `readiness`.
    pub fn is_writable(self) -> bool {
        self.0 & 2 != 0
    }

    pub(crate) fn of(r: bool, w: bool) -> Ready {
        Ready(r as u8 | (w as u8) << 1)
    }
}

impl fmt::Debug for Ready {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(fmt, "Ready({})", self.0)
    }
}

//! Floor square root (stand-in).
pub trait IntegerSquareRoot: Sized {
    fn integer_sqrt(&self) -> Self;
    fn integer_sqrt_checked(&self) -> Option<Self> {
        Some(self.integer_sqrt())
    }
}
macro_rules! i { ($($t:ty),*) => {$(
    impl IntegerSquareRoot for $t {
        fn integer_sqrt(&self) -> Self {
            let n = *self as u128;
            let (mut lo, mut hi) = (0u128, 1u128 << 33);
            while lo + 1 < hi {
                let m = (lo + hi) / 2;
                if m * m <= n { lo = m } else { hi = m }
            }
            lo as $t
        }
    }
)*} }
i!(u8, u16, u32, u64, usize);

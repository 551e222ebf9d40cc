M='src/complex.rs'
T='src/trigonometry.rs'; S='src/trigonometry/sqrt.rs'; A='src/trigonometry/atan.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'
P='src/complex/polar_impl.rs'; X='src/fixed_impl.rs'; FL='src/float_impl.rs'; N='src/complex/cartesian_impl/num_complex_impl.rs'; I='src/int_impl.rs'; F3='src/float_impl/f32_impl.rs'
DC='#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Cartesian complex number.'
DP='#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Polar complex number.'
EDITS=[
dict(id='eq-manual',props=['C21'],edits=[(M,DC,'''impl<T: PartialEq> PartialEq for Cartesian<T> {
    fn eq(&self, other: &Self) -> bool {
        if self.re != other.re { return false; }
        self.im == other.im
    }
}
#[derive(PartialOrd, Eq, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Cartesian complex number.''')]),
dict(id='eq-tuple',props=['C21'],edits=[(M,DC,'''impl<T: PartialEq> PartialEq for Cartesian<T> {
    fn eq(&self, other: &Self) -> bool {
        (&self.re, &self.im) == (&other.re, &other.im)
    }
}
#[derive(PartialOrd, Eq, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Cartesian complex number.''')]),
dict(id='ord-manual',props=['C21'],edits=[(M,DC,'''impl<T: PartialOrd> PartialOrd for Cartesian<T> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        if self.re == other.re { self.im.partial_cmp(&other.im) } else { self.re.partial_cmp(&other.re) }
    }
}
#[derive(PartialEq, Eq, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Cartesian complex number.''')]),
dict(id='ord-then',props=['C21'],edits=[(M,DC,'''impl<T: PartialOrd> PartialOrd for Cartesian<T> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        let o = self.re.partial_cmp(&other.re)?;
        if o.is_eq() { return self.im.partial_cmp(&other.im); }
        Some(o)
    }
    fn lt(&self, other: &Self) -> bool { self.re < other.re || (self.re == other.re && self.im < other.im) }
}
#[derive(PartialEq, Eq, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Cartesian complex number.''')]),
dict(id='ord-and-then',props=['C21'],edits=[(M,DP,'''impl<T: PartialOrd> PartialOrd for Polar<T> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        let first = self.mag.partial_cmp(&other.mag);
        if first == Some(core::cmp::Ordering::Equal) { self.ang.partial_cmp(&other.ang) } else { first.map(|o| o) }
    }
}
impl<T: Copy> Clone for Polar<T> { fn clone(&self) -> Self { *self } }
impl<T: Default> Default for Polar<T> { fn default() -> Self { let z = T::default; Polar { ang: z(), mag: z() } } }
#[derive(PartialEq, Eq, Copy, Debug)]
#[repr(C)]
/// Polar complex number.''')]),
]

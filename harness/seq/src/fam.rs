//! The two handle families behind one trait.
use std::ops::{Deref, DerefMut};

pub trait Fam: 'static {
    const NAME: &'static str;
    type S<T: 'static>: Deref<Target = [T]> + Clone + std::iter::FromIterator<T> + 'static;
    type W<T: 'static>: Clone + 'static;
    type M<T: 'static>: Deref<Target = [T]> + DerefMut + std::iter::FromIterator<T> + 'static;
    type I<T: 'static>: ExactSizeIterator<Item = T> + DoubleEndedIterator + 'static;
    type P<T: 'static>: ExactSizeIterator<Item = Self::S<T>> + DoubleEndedIterator + Clone + 'static;
    type Q<T: 'static>: ExactSizeIterator<Item = Self::M<T>> + DoubleEndedIterator + 'static;
    fn s_from<T: 'static>(v: Vec<T>, how: usize) -> Self::S<T>;
    fn m_from<T: 'static>(v: Vec<T>, how: usize) -> Self::M<T>;
    fn m_clone<T: Clone + 'static>(m: &Self::M<T>) -> Self::M<T>;
    fn clone_left<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn clone_right<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn s_split_left<T: 'static>(s: &mut Self::S<T>) -> Self::S<T>;
    fn s_split_right<T: 'static>(s: &mut Self::S<T>) -> Self::S<T>;
    fn m_split_left<T: 'static>(s: &mut Self::M<T>) -> Self::M<T>;
    fn m_split_right<T: 'static>(s: &mut Self::M<T>) -> Self::M<T>;
    fn s_parts<T: 'static>(s: Self::S<T>, n: usize) -> Self::P<T>;
    fn m_parts<T: 'static>(s: Self::M<T>, n: usize) -> Self::Q<T>;
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut [T]>;
    fn into_mut<T: 'static>(s: Self::S<T>, how: usize) -> Result<Self::M<T>, Self::S<T>>;
    fn into_immut<T: 'static>(s: Self::M<T>, how: usize) -> Self::S<T>;
    fn downgrade<T: 'static>(s: &Self::S<T>) -> Self::W<T>;
    fn upgrade<T: 'static>(s: &Self::W<T>) -> Option<Self::S<T>>;
    fn wnew<T: 'static>() -> Self::W<T>;
    fn into_iter<T: 'static>(m: Self::M<T>) -> Self::I<T>;
    fn i_slice<T: 'static>(m: &Self::I<T>) -> &[T];
    fn i_slice_mut<T: 'static>(m: &mut Self::I<T>) -> &mut [T];
    fn i_split_from<T: 'static>(m: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn i_split_to<T: 'static>(m: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn p_slice<T: 'static>(m: &Self::P<T>) -> &[T];
    fn q_slice<T: 'static>(m: &Self::Q<T>) -> &[T];
    fn q_slice_mut<T: 'static>(m: &mut Self::Q<T>) -> &mut [T];
}

/// An iterator that is wrong about its length, which a safe one may be.
struct Odd<I>(I, usize);
impl<I: ExactSizeIterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n + 2, Some(n + 2)),
            1 => (0, Some(0)),
            _ => (n / 2, None),
        }
    }
}

macro_rules! fam {
    ($n:ident, $name:expr, $m:ident, $S:ident, $W:ident, $M:ident, $I:ident, $P:ident, $Q:ident) => {
        pub struct $n;
        impl Fam for $n {
            const NAME: &'static str = $name;
            type S<T: 'static> = rc_slice::$m::$S<T>;
            type W<T: 'static> = rc_slice::$m::$W<T>;
            type M<T: 'static> = rc_slice::$m::$M<T>;
            type I<T: 'static> = rc_slice::$m::$I<T>;
            type P<T: 'static> = rc_slice::$m::$P<T>;
            type Q<T: 'static> = rc_slice::$m::$Q<T>;
            fn s_from<T: 'static>(v: Vec<T>, how: usize) -> Self::S<T> {
                match how % 7 {
                    0 => Self::S::from_vec(v),
                    1 => Self::S::from_boxed_slice(v.into_boxed_slice()),
                    2 => Self::S::from(v),
                    3 => Self::S::from(v.into_boxed_slice()),
                    4 => v.into_iter().filter(|_| true).collect(),
                    5 => Odd(v.into_iter(), how / 7 % 3).collect(),
                    _ => v.into_iter().collect(),
                }
            }
            fn m_from<T: 'static>(v: Vec<T>, how: usize) -> Self::M<T> {
                match how % 7 {
                    0 => Self::M::from_vec(v),
                    1 => Self::M::from_boxed_slice(v.into_boxed_slice()),
                    2 => Self::M::from(v),
                    3 => Self::M::from(v.into_boxed_slice()),
                    4 => v.into_iter().filter(|_| true).collect(),
                    5 => Odd(v.into_iter(), how / 7 % 3).collect(),
                    _ => v.into_iter().collect(),
                }
            }
            fn m_clone<T: Clone + 'static>(m: &Self::M<T>) -> Self::M<T> {
                m.clone()
            }
            fn clone_left<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
                Self::S::clone_left(s)
            }
            fn clone_right<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
                Self::S::clone_right(s)
            }
            fn s_split_left<T: 'static>(s: &mut Self::S<T>) -> Self::S<T> {
                Self::S::split_off_left(s)
            }
            fn s_split_right<T: 'static>(s: &mut Self::S<T>) -> Self::S<T> {
                Self::S::split_off_right(s)
            }
            fn m_split_left<T: 'static>(s: &mut Self::M<T>) -> Self::M<T> {
                Self::M::split_off_left(s)
            }
            fn m_split_right<T: 'static>(s: &mut Self::M<T>) -> Self::M<T> {
                Self::M::split_off_right(s)
            }
            fn s_parts<T: 'static>(s: Self::S<T>, n: usize) -> Self::P<T> {
                Self::S::split_into_parts(s, n)
            }
            fn m_parts<T: 'static>(s: Self::M<T>, n: usize) -> Self::Q<T> {
                Self::M::split_into_parts(s, n)
            }
            fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut [T]> {
                Self::S::get_mut(s)
            }
            fn into_mut<T: 'static>(s: Self::S<T>, how: usize) -> Result<Self::M<T>, Self::S<T>> {
                if how % 2 == 0 {
                    Self::S::into_mut(s)
                } else {
                    <Self::M<T> as std::convert::TryFrom<Self::S<T>>>::try_from(s)
                }
            }
            fn into_immut<T: 'static>(s: Self::M<T>, how: usize) -> Self::S<T> {
                if how % 2 == 0 {
                    Self::M::into_immut(s)
                } else {
                    Self::S::from(s)
                }
            }
            fn downgrade<T: 'static>(s: &Self::S<T>) -> Self::W<T> {
                Self::S::downgrade(s)
            }
            fn upgrade<T: 'static>(s: &Self::W<T>) -> Option<Self::S<T>> {
                s.upgrade()
            }
            fn wnew<T: 'static>() -> Self::W<T> {
                Self::W::new()
            }
            fn into_iter<T: 'static>(m: Self::M<T>) -> Self::I<T> {
                m.into_iter()
            }
            fn i_slice<T: 'static>(m: &Self::I<T>) -> &[T] {
                m.as_slice()
            }
            fn i_slice_mut<T: 'static>(m: &mut Self::I<T>) -> &mut [T] {
                m.as_mut_slice()
            }
            fn i_split_from<T: 'static>(m: &mut Self::I<T>, at: usize) -> Self::I<T> {
                m.split_off_from(at)
            }
            fn i_split_to<T: 'static>(m: &mut Self::I<T>, at: usize) -> Self::I<T> {
                m.split_off_to(at)
            }
            fn p_slice<T: 'static>(m: &Self::P<T>) -> &[T] {
                m.as_slice()
            }
            fn q_slice<T: 'static>(m: &Self::Q<T>) -> &[T] {
                m.as_slice()
            }
            fn q_slice_mut<T: 'static>(m: &mut Self::Q<T>) -> &mut [T] {
                m.as_mut_slice()
            }
        }
    };
}
fam!(RcF, "rc", rc, RcSlice, WeakSlice, RcSliceMut, RcSliceMutIter, RcSliceParts, RcSliceMutParts);
fam!(ArcF, "arc", arc, ArcSlice, WeakSlice, ArcSliceMut, ArcSliceMutIter, ArcSliceParts, ArcSliceMutParts);

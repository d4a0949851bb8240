//! Type-erased values of the types under test
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    /// integers (u128 reinterpreted), floats by bit pattern, bools
    N(i128),
    Unit,
    Str(Vec<u8>),
    List(Vec<Val>),
    Rec(Vec<Val>),
    Var(usize, Vec<Val>),
    Opt(Option<Box<Val>>),
    /// sorted
    Set(Vec<Val>),
    /// sorted by key
    Map(Vec<(Val, Val)>),
}

impl Val {
    pub fn n(&self) -> i128 {
        match self {
            Val::N(n) => *n,
            Val::Opt(Some(v)) => v.n(),
            _ => 0,
        }
    }
    pub fn items(&self) -> &[Val] {
        match self {
            Val::List(v) | Val::Rec(v) | Val::Set(v) => v,
            Val::Var(_, v) => v,
            _ => &[],
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Val::List(v) | Val::Rec(v) | Val::Set(v) => v.len(),
            Val::Map(v) => v.len(),
            Val::Str(v) => v.len(),
            _ => 0,
        }
    }
}

pub trait Conv: Sized {
    fn tv(&self) -> Val;
    fn fv(v: &Val) -> Self;
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl Conv for $t {
            fn tv(&self) -> Val { Val::N(*self as i128) }
            fn fv(v: &Val) -> Self { v.n() as $t }
        }
    )*};
}
int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! nonzero {
    ($($t:ident: $p:ty),*) => {$(
        impl Conv for std::num::$t {
            fn tv(&self) -> Val { Val::N(self.get() as i128) }
            fn fv(v: &Val) -> Self { std::num::$t::new(v.n() as $p).expect("non zero") }
        }
    )*};
}
nonzero!(NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroU128: u128, NonZeroUsize: usize,
         NonZeroI8: i8, NonZeroI16: i16, NonZeroI32: i32, NonZeroI64: i64, NonZeroI128: i128, NonZeroIsize: isize);

impl Conv for bool {
    fn tv(&self) -> Val {
        Val::N(i128::from(*self))
    }
    fn fv(v: &Val) -> Self {
        v.n() != 0
    }
}
impl Conv for f32 {
    fn tv(&self) -> Val {
        Val::N(i128::from(self.to_bits()))
    }
    fn fv(v: &Val) -> Self {
        f32::from_bits(v.n() as u32)
    }
}
impl Conv for f64 {
    fn tv(&self) -> Val {
        Val::N(i128::from(self.to_bits()))
    }
    fn fv(v: &Val) -> Self {
        f64::from_bits(v.n() as u64)
    }
}
impl Conv for () {
    fn tv(&self) -> Val {
        Val::Unit
    }
    fn fv(_: &Val) -> Self {}
}
impl Conv for std::net::Ipv4Addr {
    fn tv(&self) -> Val {
        Val::N(i128::from(u32::from_be_bytes(self.octets())))
    }
    fn fv(v: &Val) -> Self {
        std::net::Ipv4Addr::from((v.n() as u32).to_be_bytes())
    }
}
impl Conv for std::net::Ipv6Addr {
    fn tv(&self) -> Val {
        Val::N(u128::from_be_bytes(self.octets()) as i128)
    }
    fn fv(v: &Val) -> Self {
        std::net::Ipv6Addr::from((v.n() as u128).to_be_bytes())
    }
}
impl Conv for std::ffi::CString {
    fn tv(&self) -> Val {
        Val::Str(self.as_bytes().to_vec())
    }
    fn fv(v: &Val) -> Self {
        match v {
            Val::Str(b) => std::ffi::CString::new(b.clone()).expect("no nul"),
            _ => panic!("not a string"),
        }
    }
}
impl<T: Conv> Conv for Vec<T> {
    fn tv(&self) -> Val {
        Val::List(self.iter().map(T::tv).collect())
    }
    fn fv(v: &Val) -> Self {
        v.items().iter().map(T::fv).collect()
    }
}
impl<T: Conv> Conv for Box<[T]> {
    fn tv(&self) -> Val {
        Val::List(self.iter().map(T::tv).collect())
    }
    fn fv(v: &Val) -> Self {
        v.items().iter().map(T::fv).collect()
    }
}
impl<T: Conv> Conv for Arc<[T]> {
    fn tv(&self) -> Val {
        Val::List(self.iter().map(T::tv).collect())
    }
    fn fv(v: &Val) -> Self {
        v.items().iter().map(T::fv).collect()
    }
}
impl<T: Conv, const N: usize> Conv for [T; N] {
    fn tv(&self) -> Val {
        Val::List(self.iter().map(T::tv).collect())
    }
    fn fv(v: &Val) -> Self {
        let i = v.items();
        std::array::from_fn(|n| T::fv(&i[n]))
    }
}
impl<T: Conv> Conv for Option<T> {
    fn tv(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.tv())))
    }
    fn fv(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|v| T::fv(v)),
            _ => panic!("not an option"),
        }
    }
}
impl<T: Conv> Conv for Box<T> {
    fn tv(&self) -> Val {
        (**self).tv()
    }
    fn fv(v: &Val) -> Self {
        Box::new(T::fv(v))
    }
}
impl<T: Conv> Conv for Arc<T> {
    fn tv(&self) -> Val {
        (**self).tv()
    }
    fn fv(v: &Val) -> Self {
        Arc::new(T::fv(v))
    }
}
impl<T: Conv + Clone> Conv for Cow<'_, T> {
    fn tv(&self) -> Val {
        (**self).tv()
    }
    fn fv(v: &Val) -> Self {
        Cow::Owned(T::fv(v))
    }
}
impl<T: Conv + Eq + Hash, S: std::hash::BuildHasher + Default> Conv for HashSet<T, S> {
    fn tv(&self) -> Val {
        let mut v: Vec<Val> = self.iter().map(T::tv).collect();
        v.sort();
        Val::Set(v)
    }
    fn fv(v: &Val) -> Self {
        v.items().iter().map(T::fv).collect()
    }
}
impl<K: Conv + Eq + Hash, V: Conv, S: std::hash::BuildHasher + Default> Conv for HashMap<K, V, S> {
    fn tv(&self) -> Val {
        let mut v: Vec<(Val, Val)> = self.iter().map(|(k, v)| (k.tv(), v.tv())).collect();
        v.sort();
        Val::Map(v)
    }
    fn fv(v: &Val) -> Self {
        match v {
            Val::Map(m) => m.iter().map(|(k, v)| (K::fv(k), V::fv(v))).collect(),
            _ => panic!("not a map"),
        }
    }
}
macro_rules! tuple {
    ($($t:ident $n:tt),*) => {
        impl<$($t: Conv),*> Conv for ($($t,)*) {
            fn tv(&self) -> Val { Val::Rec(vec![$(self.$n.tv()),*]) }
            fn fv(v: &Val) -> Self { let i = v.items(); ($($t::fv(&i[$n]),)*) }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);

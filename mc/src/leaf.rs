//! Types with exactly the traits a generic definition may rely on.
use crate::canon::Canon;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::marker::PhantomData;
use syn::LitInt;
use syn::parse::{Parse, ParseStream};

macro_rules! leaf {
    ([$($g:tt)*] $t:ty, $i:ident, $e:expr, $v:expr) => {
        impl<$($g)*> Parse for $t { fn parse($i: ParseStream) -> syn::Result<Self> { Ok($e) } }
        impl<$($g)*> ToTokens for $t { fn to_tokens(&self, t: &mut TokenStream) { let f: fn(&Self) -> &dyn ToTokens = $v; f(self).to_tokens(t) } }
        impl<$($g)*> Canon for $t { fn canon(&self) -> String { crate::canon::flat_str(self.to_token_stream()) } }
    };
}
/// Parse and ToTokens, nothing else.
pub struct Lf(LitInt);
leaf!([] Lf, i, Lf(i.parse()?), |x| &x.0);
pub struct Lt<'a>(LitInt, PhantomData<&'a ()>);
leaf!(['a] Lt<'a>, i, Lt(i.parse()?, PhantomData), |x| &x.0);
pub struct Ar<const N: usize>(LitInt);
leaf!([const N: usize] Ar<N>, i, Ar(i.parse()?), |x| &x.0);
pub struct Fl<const B: bool, const C: char>(LitInt);
leaf!([const B: bool, const C: char] Fl<B, C>, i, Fl(i.parse()?), |x| &x.0);
/// Any T at all.
pub struct Ph<T: ?Sized>(LitInt, PhantomData<T>);
leaf!([T: ?Sized] Ph<T>, i, Ph(i.parse()?, PhantomData), |x| &x.0);
/// A T that is parsed, with a lifetime.
pub struct Rf<'a, T>(T, PhantomData<&'a ()>);
impl<T: Parse> Parse for Rf<'_, T> {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        Ok(Rf(i.parse()?, PhantomData))
    }
}
impl<T: ToTokens> ToTokens for Rf<'_, T> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<T: Canon> Canon for Rf<'_, T> {
    fn canon(&self) -> String {
        self.0.canon()
    }
}
/// Parse alone.
pub struct Lp(#[allow(dead_code)] LitInt);
impl Parse for Lp {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        Ok(Lp(i.parse()?))
    }
}
/// ToTokens alone.
pub struct Lq(LitInt);
impl ToTokens for Lq {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
/// The same three, with a lifetime; neither Send nor Unpin either.
pub struct Bf<'a>(LitInt, PhantomData<(&'a (), std::marker::PhantomPinned)>);
leaf!(['a] Bf<'a>, i, Bf(i.parse()?, PhantomData), |x| &x.0);
pub struct Bp<'a>(#[allow(dead_code)] LitInt, PhantomData<(&'a (), std::marker::PhantomPinned)>);
impl Parse for Bp<'_> {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        Ok(Bp(i.parse()?, PhantomData))
    }
}
pub struct Bq<'a>(LitInt, PhantomData<(&'a (), std::marker::PhantomPinned)>);
impl ToTokens for Bq<'_> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
/// No trait at all but Has.
pub struct Nt;
pub trait Has {
    type Leaf;
}
impl Has for Nt {
    type Leaf = Lf;
}
pub trait HasB {
    type Leaf: Parse + ToTokens;
}
impl HasB for Nt {
    type Leaf = Lf;
}
pub trait Tr<'x> {
    fn tr(&'x self) {}
}
impl<'x, T: ?Sized> Tr<'x> for T {}
pub fn need_parse<T: Parse>() {}
pub fn need_tokens<T: ToTokens>() {}

/// The types that stand for parameters, and a trait of things made of them, which cannot be proved of a parameter.
pub trait Base {}
impl Base for LitInt {}
impl Base for Lf {}
impl Base for Lp {}
impl Base for Lq {}
impl Base for Bf<'_> {}
impl Base for Bp<'_> {}
impl Base for Bq<'_> {}
pub trait Need {}
impl<T: Base> Need for &T {}
impl<T: Base> Need for &mut T {}
impl<T: Base> Need for [T] {}
impl<T: Base> Need for [T; 2] {}
impl<T: Base> Need for Vec<T> {}
impl<T: Base> Need for *const T {}
impl<T: Base, U: Base> Need for (T, U) {}
impl<T: Base, U: Base> Need for fn(T) -> U {}
impl<T: Base> Need for dyn Fn(T) {}
impl<T: Base> Need for Box<dyn Fn(T) + Send> {}
impl<T: Base> Need for PhantomData<T> {}
impl<T: Base> Need for Option<T> {}
pub trait NeedFor<T: ?Sized> {}
impl<T: Base> NeedFor<T> for () {}
impl<T: Base> NeedFor<[T]> for u8 {}
impl<'a, T: Base> NeedFor<&'a T> for T {}
impl<const N: usize> Need for [u8; N] {}

//@rewrite . map_err ( | _ | $*c ) ==> .x_else($c)
//@rewrite . ok_or_else ( || $*c ) ==> .x_or_err($c)
//@rewrite . map ( | _ | ( ) ) ==> .x_unit()
verus! {
/// map_err / ok_or_else whose closure only builds the error (evaluated eagerly here: it has no effects)
pub mod ex {
    use vstd::prelude::*;
    pub trait XElse<T>: Sized { spec fn xok(&self) -> Option<T>; fn x_else<F>(self, e: F) -> (r: Result<T, F>) ensures r == (match self.xok() { Some(v) => Ok(v), None => Err(e) }); }
    impl<T, E> XElse<T> for Result<T, E> { open spec fn xok(&self) -> Option<T> { match self { Ok(v) => Some(*v), Err(_) => None } }
        fn x_else<F>(self, e: F) -> (r: Result<T, F>) { match self { Ok(v) => Ok(v), Err(_) => Err(e) } } }
    /// expect(): the value must be there
    pub trait XMust<T>: Sized { spec fn xmv(&self) -> Option<T>; fn x_must(self) -> (r: T) requires self.xmv().is_some(), ensures Some(r) == self.xmv(); }
    impl<T, E> XMust<T> for Result<T, E> { open spec fn xmv(&self) -> Option<T> { match self { Ok(v) => Some(*v), Err(_) => None } }
        #[verifier::external_body] fn x_must(self) -> (r: T) { unimplemented!() } }
    impl<T> XMust<T> for Option<T> { open spec fn xmv(&self) -> Option<T> { *self }
        #[verifier::external_body] fn x_must(self) -> (r: T) { unimplemented!() } }
    /// map(|_| ())
    pub trait XUnit<E>: Sized { spec fn xer(&self) -> Option<E>; fn x_unit(self) -> (r: Result<(), E>) ensures r == (match self.xer() { None => Ok(()), Some(e) => Err(e) }); }
    impl<T, E> XUnit<E> for Result<T, E> { open spec fn xer(&self) -> Option<E> { match self { Ok(_) => None, Err(e) => Some(*e) } }
        fn x_unit(self) -> (r: Result<(), E>) { match self { Ok(_) => Ok(()), Err(e) => Err(e) } } }
    pub trait XOrErr<T>: Sized { spec fn xop(&self) -> Option<T>; fn x_or_err<F>(self, e: F) -> (r: Result<T, F>) ensures r == (match self.xop() { Some(v) => Ok(v), None => Err(e) }); }
    impl<T> XOrErr<T> for Option<T> { open spec fn xop(&self) -> Option<T> { *self }
        fn x_or_err<F>(self, e: F) -> (r: Result<T, F>) { match self { Some(v) => Ok(v), None => Err(e) } } }
}
use ex::*;
} // verus!

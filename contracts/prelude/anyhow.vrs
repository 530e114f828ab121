//@rewrite anyhow ! ( $*x ) ==> AErr
//@rewrite bail ! ( $*x ) ==> return Err(AErr)
//@rewrite Result < Self > ==> Result<Self, AErr>
//@rewrite Result < ( ) > ==> Result<(), AErr>
//@rewrite Result < RAck > ==> Result<RAck, AErr>
verus! {
/// anyhow::Error: carries no meaning the contracts use
pub struct AErr;
} // verus!

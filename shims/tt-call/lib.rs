#[macro_export] macro_rules! tt_call { (macro = [{ $m:ident }] ~~> $k:ident) => { $m! { { $k } } }; }
#[macro_export] macro_rules! tt_return { ({ $k:ident } $($out:tt)*) => { $k! { $($out)* } }; }

#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
//@ cfg all-features
verus! {
//@ include parse.inc
//@ include case.inc
}
use base::*;
//@ parsers case crate::response::greeting crate::command::command crate::response::response crate::auth::authenticate_data crate::extensions::idle::idle_done
//@ decoders GreetingCodec CommandCodec ResponseCodec AuthenticateDataCodec IdleDoneCodec
//@ include case_thm.inc
fn main() {}
}

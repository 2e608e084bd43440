#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@ include parse.inc
}
use base::*;
//@ parsers crate::response::greeting crate::command::command crate::response::response crate::auth::authenticate_data crate::extensions::idle::idle_done
//@ decoders GreetingCodec CommandCodec ResponseCodec AuthenticateDataCodec IdleDoneCodec
//@ include parse_thm.inc
fn main() {}
}

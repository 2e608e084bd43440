//@ cfg all-features lift debug
//@ include enc.inc
//@ literals
} // verus!
fn main() {}

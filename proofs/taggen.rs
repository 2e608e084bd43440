//@ cfg tag_generator
//@ include taggen.inc

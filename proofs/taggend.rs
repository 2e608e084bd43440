//@ cfg tag_generator debug
//@ include taggen.inc

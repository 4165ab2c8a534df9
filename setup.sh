#!/bin/bash
# nothing to install: check that the tools the verifier drives are there
set -e
test -x /usr/lib/llvm-18/bin/clang++
test -e /usr/lib/llvm-18/lib/libLLVM.so.1 -o -e /usr/lib/llvm-18/lib/libLLVM-18.so
/opt/veriftools/pyvenv/bin/python3 -c 'import z3,cvc5'
mkdir -p /verif/evidence

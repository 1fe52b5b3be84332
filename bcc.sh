#!/bin/bash
# compile a harness to bitcode: bcc.sh x.cpp x.bc [flags]
s=$1; o=$2; shift 2
exec clang++-18 -std=c++11 -I/repo -I/usr/include/eigen3 -I/verif/engine -I/verif/harness -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-math-errno -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_CPUID -w -gline-tables-only -emit-llvm -c $s -o $o "$@"

#!/bin/bash
# development aid: compile one harness against a prebuilt library directory
# dev.sh SRC LIBDIR OUT
X=; [ -e $2/shimxx.so ] && X=$2/shimxx.so
E=; grep -q sd_ /verif/checks/$1.cc && E=$2/shim_dec.so
g++ -O1 -g1 -std=gnu++17 /verif/checks/$1.cc -o $3 $2/shim.so $X $E -Wl,-rpath,$2 -L$2 -ldfp -lpthread -rdynamic -l:libmpfr.so.6

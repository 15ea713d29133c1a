#!/bin/bash
# development aid: all edit lists against a copy of the current checker
cp /verif/bin/gospncheck /tmp/gospncheck.all
export BIN=/tmp/gospncheck.all WORK=/tmp/mutall
for f in conc formulas trav cont data score stress1 stress2 stress3 stress4 stress5 stress6 stress7 stress8 stress9 stress10 stress11 proto indep numeric serial struct gens clusters "$@"; do python3 /verif/tools/mut.py /verif/tools/mut/$f.py 2>&1 | cut -c1-250 | grep -v '^ok'; done > /tmp/mutlog 2>&1
echo finished >> /tmp/mutlog

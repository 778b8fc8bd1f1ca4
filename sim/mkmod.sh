#!/bin/bash
# mkmod.sh OUTDIR REPO: the module file the simulation is built with: this module plus
# the code under test and everything it requires.
set -e
out=$1 repo=$2
{
	echo "module verifsim"
	echo
	echo "go 1.24"
	echo
	echo "require github.com/liujiangwei/xxcache v0.0.0"
	echo "replace github.com/liujiangwei/xxcache => $repo"
} >"$out/go.mod"
cat "$repo/go.sum" >"$out/go.sum"

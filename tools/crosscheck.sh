#!/bin/bash
# crosscheck.sh CXX...: run each check with --smtlog (a sample of the discharged
# queries as SMT-LIB files, all expected unsat) and let cvc5 decide the same files.
cd "$(dirname "$0")/.." || exit 2
bad=0
for p in "$@"; do
    d=$(mktemp -d /tmp/smtlog.XXXXXX)
    ./check.py "$p" --smtlog "$d" | tail -1
    n=0; u=0; un=0
    for f in "$d"/*.smt2; do
        [ -e "$f" ] || continue
        [ $n -ge 200 ] && break; n=$((n+1))
        r=$(timeout 20 cvc5 --strings-exp "$f" 2>&1 | grep -v '^(' | tail -1)
        case "$r" in
            unsat) u=$((u+1));;
            sat) echo "DISAGREEMENT $p $f"; cp "$f" /tmp/; bad=1;;
            *) un=$((un+1));;
        esac
    done
    echo "$p: $n queries, cvc5 agrees on $u, no answer on $un"
    find "$d" -name '*.smt2' -delete; rmdir "$d"
done
exit $bad

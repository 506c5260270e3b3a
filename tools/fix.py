#!/usr/bin/env python3
"""Helper: fix.py FILE <<< old\0new : replaces exactly one occurrence."""
import sys
p="/repo/include/stdex/"+sys.argv[1]; a,b=sys.stdin.read().split("\n=====\n"); b=b.rstrip("\n"); n=int(sys.argv[2]) if len(sys.argv)>2 else 1
t=open(p,newline='').read(); a=a.rstrip("\n")
assert t.count(a)==n,(t.count(a),a)
open(p,'w',newline='').write(t.replace(a,b))

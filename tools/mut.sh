#!/bin/bash
# mut.sh NAME FILE PYTHON-EXPR  : copy /repo/src to /tmp/scr/NAME and apply s=... edit to one file (development aid)
d=/tmp/scr/$1; rm -rf "/tmp/scr/${1:?}"; mkdir -p $d; cp -a /repo/src $d/
python3 - "$d/src/bijx/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:4]
s=open(p).read()
assert s.count(a)>=1,(a,"not found")
open(p,'w').write(s.replace(a,b,1))
P

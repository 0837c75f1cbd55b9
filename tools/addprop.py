#!/usr/bin/env python3
# addprop.py FILE: appends a property (a JS object literal) to tools/properties.mjs
import sys
p='/verif/tools/properties.mjs'; s=open(p).read()
i=s.rindex('];')
open(p,'w').write(s[:i]+open(sys.argv[1]).read().rstrip()+"\n];\n")

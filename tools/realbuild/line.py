import sys,re
sys.path.insert(0,'/verif/tools/demo')
import os
os.environ.setdefault('DEMO_TOOL','/verif/build/tool/debug/cargo-call-stack')
from cs import *
import glob
bad={}
for f in sys.argv[1:]:
    seen=set()
    for l in open(f):
        if re.match(r'  (%\S+ = |%".*?" = )?(tail |musttail |notail )?(call|invoke) ',l):
            k=re.sub(r'![0-9]+|#[0-9]+|%[\w.$-]+|@[\w.$-]+','N',l)
            if k in seen: continue
            seen.add(k)
            if not re.search(r'[ (]%("[^"]*"|[\w.$-]+)\(',l): continue   # indirect only
            with World() as w:
                w.fun("a",8)
                w.ll="define void @a() {\n"+l+"  ret void\n}\n"
                r=w.go()
                if r.rc and 'failed to parse' in r.stderr: print(l.strip()[:400])

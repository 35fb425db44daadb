import sys,re,subprocess,collections
B="/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
T={'LT':'<','GT':'>','SP':'@','BP':'*','RF':'&','LP':'(','RP':')','C':','}
def dem(s):
    m=re.match(r'_ZN(.*)E(\.llvm\.[0-9A-F@]+|\.\d+)?$',s)
    if not m: return s
    r=m[1]; out=[]
    while r:
        k=re.match(r'\d+',r)
        if not k: return s
        n=int(k[0]); c=r[len(k[0]):len(k[0])+n]; r=r[len(k[0])+n:]
        if c.startswith('_$'): c=c[1:]
        c=c.replace('..','::')
        c=re.sub(r'\$(\w+?)\$',lambda m:T.get(m[1]) or chr(int(m[1][1:],16)),c)
        out.append(c)
    return '::'.join(out)
def dehash(d): return re.sub(r'::h[0-9a-f]{16}$','',d)
exe,dotf=sys.argv[1:3]
thumb='thumb' in exe
syms=collections.defaultdict(list)
for l in subprocess.run([B+'llvm-readobj','--symbols','--elf-output-style=GNU',exe],capture_output=True,text=True).stdout.splitlines():
    p=l.split()
    if len(p)>=8 and p[3]=='FUNC' and p[6]!='UND': syms[int(p[1],16)&(~1 if thumb else -1)].append(p[7])
dis=subprocess.run([B+'llvm-objdump','-d','--no-show-raw-insn',exe]+(['--mattr=+thumb-mode'] if 0 else []),capture_output=True,text=True).stdout
nodes={};edges=collections.defaultdict(set)
for l in open(dotf):
    m=re.match(r'    (\d+) \[label="((?:[^"\\]|\\.)*)"',l)
    if m:
        p=m[2].split('\\n'); nodes[m[1]]=(p[0].replace('\\"','"'),[x for x in p if x.startswith('local')][0])
    m=re.match(r'    (\d+) -> (\d+)$',l)
    if m: edges[m[1]].add(m[2])
lab=collections.defaultdict(list)
for i,(n,_) in nodes.items(): lab[n].append(i)
addr2node={}
for a,ns in syms.items():
    for n in ns:
        d=dem(n)
        for c in (d,dehash(d)):
            if c in lab: addr2node[a]=lab[c]
    if a not in addr2node: print('no node',hex(a),ns)
cur=None;mach=collections.defaultdict(set);size={}
starts=sorted(syms)
import bisect
for l in dis.splitlines():
    m=re.match(r' *([0-9a-f]+):\s+(\S+)(.*)',l)
    if not m: continue
    a=int(m[1],16); i=bisect.bisect_right(starts,a)-1
    if i<0: continue
    cur=starts[i]
    op=m[2]
    t=re.search(r'0x([0-9a-f]+) <',m[3])
    if t and (re.match(r'b(l|\.w|\.n)?$|b(eq|ne|cs|hs|cc|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le)(\.w|\.n)?$',op) if thumb else re.match(r'(b|bl|b\.\w+|cbn?z|tbn?z|callq?|jmpq?)$',op)):
        t=int(t[1],16); j=bisect.bisect_right(starts,t)-1
        if op.startswith('bl') and op not in('blo','bls','blt','ble') or op.startswith('call') or starts[j]!=cur:
            mach[cur].add((t,starts[j]))
miss=0;tot=0
for c,ts in mach.items():
    for t,s in ts:
        tot+=1
        if t!=s: print('into middle',hex(c),syms[c],hex(t)); continue
        ok=any(set(addr2node.get(s,[]))&edges[x] for x in addr2node.get(c,[]))
        if not ok: miss+=1; print('MISSING',syms[c],'->',syms[s])
print(exe.split('/')[-4],'machine edges',tot,'missing',miss, 'graph edges',sum(map(len,edges.values())),'nodes',len(nodes))
# extra edges, thumb
m2=collections.defaultdict(set)
inv={}
for a,ns in addr2node.items():
    for x in ns: inv[x]=a
for x,es in edges.items():
    if x in inv:
        for e in es:
            if e in inv and (inv[e],inv[e]) not in mach[inv[x]] and '-x' in sys.argv: print('EXTRA',syms[inv[x]],'->',syms[inv[e]])

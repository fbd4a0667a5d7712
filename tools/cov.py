#!/usr/bin/env python3
# Which basic blocks of the interpreter do the checks never enter?
#   SIM_CFLAGS=-fsanitize-coverage=trace-pc bash sim/build.sh /tmp/covb
#   PSIM_COV=/tmp/cov.map /tmp/covb/psim run C01 --seconds 10 ...
#   tools/cov.py /tmp/covb/psim /tmp/cov.map [file-substring]
import sys,subprocess,re,collections
psim,mp=sys.argv[1:3]; flt=sys.argv[3] if len(sys.argv)>3 else ''
cov=open(mp,'rb').read()
sites=[]
prev=False
for l in subprocess.Popen(['objdump','-d','--no-show-raw-insn',psim],stdout=subprocess.PIPE,text=True).stdout:
    m=re.match(r'\s*([0-9a-f]+):\s',l)
    if m and prev: sites.append(int(m.group(1),16)); prev=False
    if 'call' in l and '<__sanitizer_cov_trace_pc>' in l: prev=True
p=subprocess.run(['addr2line','-f','-e',psim],input='\n'.join(hex(a-1) for a in sites),stdout=subprocess.PIPE,text=True).stdout.splitlines()
hit=collections.Counter(); tot=collections.Counter(); miss=collections.defaultdict(set); got=collections.defaultdict(set)
fn=collections.defaultdict(lambda:[0,0])
for a,f,loc in zip(sites,p[0::2],p[1::2]):
    m=re.search(r'/src/(.*?):(\d+)',loc)
    if not m: continue
    file,line=m.group(1),int(m.group(2)); tot[file]+=1; fn[(file,f)][1]+=1
    if cov[a]: hit[file]+=1; got[file].add(line); fn[(file,f)][0]+=1
    else: miss[file].add(line)
if not flt:
    for f in sorted(tot): print('%5d/%5d %3d%% %s'%(hit[f],tot[f],100*hit[f]//tot[f],f))
    print('functions never entered:'); 
    for (f,n),(h,t) in sorted(fn.items()):
        if not h: print('  ',f,n,t)
else:
    for f in sorted(tot):
        if flt in f: print(f,'uncovered lines:',' '.join(map(str,sorted(miss[f]))))

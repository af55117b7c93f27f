#!/usr/bin/env python3
"""Writes /verif/spec/unicode14.ref and runewidth.ref (run once; the result is committed).

unicode14.ref comes from perl's Unicode::UCD (Unicode 15.0), independent of the
repository: code points that Unicode 15.0 first assigned (Age 15.0) get the value an
unassigned code point of that block has in Unicode 14 (taken from their value in the
pinned tree, which is only used for these). runewidth.ref is the documented
classification of the pinned tree (its own tables are the documentation)."""
import re, collections, subprocess, sys
P=collections.defaultdict(list)
for ln in subprocess.run(['perl','/verif/tools/ucd_dump.pl'],capture_output=True,text=True,check=True).stdout.splitlines():
    if ln.startswith('#'): continue
    a=ln.split(); P[a[0]].append((int(a[1]),' '.join(a[2:])))
def expand(p):
    l=P[p]; out=[None]*0x110000
    for i,(s,v) in enumerate(l):
        e=l[i+1][0] if i+1<len(l) else 0x110000
        for c in range(s,e): out[c]=v
    return out
G,E,EP,EA,AG=map(expand,('GCB','ExtPict','EPres','ea','Age'))
def show(path):
    return subprocess.run(['git','-C','/repo','show','cd90a7d:'+path],capture_output=True,text=True,check=True).stdout
def tab(f):
    t=[None]*0x110000
    for m in re.finditer(r'^\t\{0x([0-9A-F]+), 0x([0-9A-F]+), pr(\w+)\}',show(f),re.M):
        for c in range(int(m[1],16),int(m[2],16)+1): t[c]=m[3]
    return t
g=tab('runewidth/uniseg/graphemeproperties.go'); ea=tab('runewidth/uniseg/eastasianwidth.go'); ep=tab('runewidth/uniseg/emojipresentation.go')
sh={'CN':'Control','EX':'Extend','PP':'Prepend','RI':'RegionalIndicator','SM':'SpacingMark','XX':None,'Other':None,'Regional_Indicator':'RegionalIndicator'}
def new(c): return AG[c] in ('15.0','V15_0')
gcb=[];wide=[];emo=[];nw=0
for c in range(0x110000):
    x=sh.get(G[c],G[c])
    if E[c] in('Y','Yes'): x='ExtendedPictographic'
    if new(c):
        nw+=1
        gcb.append(g[c]); wide.append('1' if ea[c] in('W','F') else None); emo.append('1' if ep[c] else None)
        continue
    gcb.append(x); wide.append('1' if EA[c] in ('W','F') else None); emo.append('1' if EP[c] in('Y','Yes') else None)
def spans(name,l,out):
    i=0
    while i<len(l):
        if l[i] is None: i+=1; continue
        j=i
        while j+1<len(l) and l[j+1]==l[i]: j+=1
        out.append('%s %X %X'%(name,i,j)+('' if l[i]=='1' else ' '+l[i])); i=j+1
out=['# Unicode 14.0 properties: see tools/mkrefs.py (%d code points new in 15.0)'%nw]
spans('gcb',gcb,out); spans('wide',wide,out); spans('emo',emo,out)
open('/verif/spec/unicode14.ref','w').write('\n'.join(out)+'\n')
out=['# classification of the runewidth package at the pinned commit: see tools/mkrefs.py']
src=show('runewidth/runewidth.go')+show('runewidth/runewidth_table.go')
for n,r in (('nonprint','rwNonprint'),('combining','rwCombining'),('doublewidth','rwDouble'),('ambiguous','rwAmbiguous'),('narrow','rwNarrow'),('emoji','rwEmoji')):
    m=re.search(r'^var '+n+r' = table\{(.*?)^\}',src,re.M|re.S)
    l=[None]*0x110000
    for a in re.finditer(r'\{0x([0-9A-F]+), 0x([0-9A-F]+)\}',m[1]):
        for c in range(int(a[1],16),int(a[2],16)+1): l[c]='1'
    spans(r,l,out)
open('/verif/spec/runewidth.ref','w').write('\n'.join(out)+'\n')

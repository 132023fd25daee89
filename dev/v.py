#!/usr/bin/env python3
"""extract + verus + per-function error summary.  v.py [-m module]... [fn-filter]"""
import json,subprocess,sys,re,time
a=sys.argv[1:]; mods=[]; filt=''; extra=[]
while a:
    x=a.pop(0)
    if x=='-m': mods.append(a.pop(0))
    elif x.startswith('-'): extra.append(x)
    else: filt=x
print(subprocess.run(['bash','/verif/dev/ex.sh'],capture_output=True,text=True).stdout.replace("player::sort dropped type fn (& Player , & Player) -> Ordering\ndropped ['impl Debug for qw::message::print::Print']\nunused_contracts []\n",""),end='')
src=open('/tmp/v/w/gen.rs').read().split('\n')
cur=''; fn={}
for i,l in enumerate(src,1):
    if l.startswith('// @FN '): cur=l[7:]
    elif l.startswith('// @ENDFN'): cur=''
    m=re.match(r'pub (?:open |broadcast |closed |uninterp )*(?:proof|spec) fn (\w+)',l)
    if m and not cur: cl=m.group(1)
    fn[i]=cur or ('~'+(cl if 'cl' in dir() else ''))
t=time.time()
cmd=['verus','/tmp/v/w/gen.rs','--multiple-errors','4','--error-format=json','--triggers-mode','silent','--rlimit','100']+extra
for m in mods: cmd+=['--verify-module',m]
p=subprocess.run(cmd,capture_output=True,text=True)
open('/tmp/v/w/err.json','w').write(p.stderr)
n=0; by={}
for l in p.stderr.split('\n'):
    if not l.startswith('{'): 
        if l.strip(): print('?',l)
        continue
    d=json.loads(l)
    if d.get('level')!='error' : continue
    sp=d.get('spans',[])
    pr=[s for s in sp if s.get('is_primary')] or sp
    f=fn.get(pr[0]['line_start'],'?') if pr else ''
    if filt and filt not in f: by[f]=by.get(f,0)+1; continue
    if d['message'].startswith('aborting'): continue
    print('##',f,':',d['message'])
    for s in sp:
        t0=s['text'][0]['text'].strip()[:200] if s['text'] else ''
        print('   ','*' if s['is_primary'] else ' ',s['line_start'],s.get('label') or '', '|',t0)
    if '-v' in extra or not sp: print(d.get('rendered','')[:1500])
print(p.stdout.strip(), 'other:',{k:v for k,v in by.items() if k}, '%.1fs'%(time.time()-t))

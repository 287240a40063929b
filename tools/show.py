import json,sys
import glob; d=json.load(open(glob.glob('/verif/.cache/facts-*/%s.json'%sys.argv[1])[0]))
def ty(t): return d['types'][t]['s']
def show(f):
    print(f['id'],f['path'],'argc',f['argc'],f.get('impl_trait'),f.get('impl_self'),'root' if f['root'] else '',f.get('pub'),f['span'])
    print(' args',[ty(a) for a in f['args']])
    for i,t in enumerate(f['locals']): print('   _%d: %s'%(i,ty(t)), [n for l,n in f['names'] if l==i] or '')
    for i,b in enumerate(f['blocks']):
        if b is None: continue
        print(' bb',i)
        for s in b[0]:
            if s[0]!='dead': print('   ',json.dumps(s)[:300])
        t=b[1]
        if t[0]=='call': print('   CALL',t[1].get('path'),'->',t[1].get('rpath'),t[1].get('kind'),t[1].get('fn'),[ty(a) for a in t[1].get('rargs',t[1].get('args',[]))],json.dumps(t[2])[:200],'dest',t[3],'->',t[4])
        else: print('   T',json.dumps(t)[:300])
for f in d['fns']:
    if sys.argv[2].isdigit() and f['id']==int(sys.argv[2]) or (not sys.argv[2].isdigit() and sys.argv[2] in f['path'] and not f.get('promoted') ): show(f)

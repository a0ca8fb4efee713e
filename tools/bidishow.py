import sys,json
for m in json.load(open(sys.argv[1])):
    if m['what']!='levels': print(m['what'],str(m['got'])[:100]); continue
    p,lv=m['exp']; g=m['got']
    n=len(p['types'])
    w=[("([{"[b-1] if b>0 else ")]}"[-b-1] if b<0 else t)+':%d'%v+('' if v==w else '!%d'%w) for t,b,v,w in zip(p['types'],p['brackets'],lv,g)]
    print(p['dir'],' '.join(w) if n<40 else '...'+' '.join(w[110:]))

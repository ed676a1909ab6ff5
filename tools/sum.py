import json,sys,collections
for f in sys.argv[1:]:
    try: j=json.load(open(f))
    except Exception as e: print(f,e); continue
    g=j['goals'] if 'goals' in j else j
    c=collections.Counter(x['r'].get('status') for x in g); t=sum(x['r'].get('secs',0) for x in g if not x.get('dup'))
    print(f,dict(c),'secs',round(t))
    for x in g:
        if x.get('dup'): continue
        s=x['r'].get('status')
        if s!='ok': print('   ',x['goal'].replace('vp_goal_',''),s,round(x['r'].get('secs',0),1),str([(y.get('label'),y.get('decided'),y.get('where','')[-60:]) for y in x['r'].get('failures',[])])[:160])
    print('  slow:',[(x['goal'].replace('vp_goal_',''),round(x['r'].get('secs',0),1)) for x in sorted(g,key=lambda x:-x['r'].get('secs',0))[:8] if not x.get('dup') and x['r'].get('secs',0)>3])

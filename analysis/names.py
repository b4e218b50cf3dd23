import sys; sys.path.insert(0,'/verif/analysis')
import rust, absint
F,names,decl=rust.load('/tmp/x.json')
c=rust.Cmd(F,sys.argv[1],rust.optname_map(names,decl))
w=int(sys.argv[3]) if len(sys.argv)>3 else 200
seen=set()
for ev in c.events:
    l=rust.loc(ev.span)
    if len(sys.argv)>2 and sys.argv[2] and not __import__('re').search(sys.argv[2], ev.name): continue
    if ev.kind=='drop' and ev.name not in('SyncSender','Receiver','MutexGuard','File'): continue
    k=(ev.thread,ev.kind,ev.name,l,len(ev.args))
    if k in seen: continue
    seen.add(k)
    print(ev.thread[0],ev.kind[0],ev.name,l.replace('/verif/models/src/','M:').split('library/')[-1],[absint.show(a,6) for a in ev.args].__repr__()[:w])

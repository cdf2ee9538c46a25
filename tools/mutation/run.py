import json,os,subprocess,sys,tempfile,shutil,time
from concurrent.futures import ThreadPoolExecutor
# run.py mutants.json out.jsonl stage jobs
ms=json.load(open(sys.argv[1])); outp=sys.argv[2]; stage=sys.argv[3]; jobs=int(sys.argv[4])
H=os.environ.get('MUTH','/tmp/dbg/harness'); R=os.environ.get('MUTREPO','/tmp/rp')
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOSUMDB='off',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=mod',GOMAXPROCS='1',GOTRACEBACK='single')
SETS={
 'core1':[('C05',30),('C11',40),('C19',40),('C24',40),('C26',30),('C28',40),('C32',48),('C23',30),('C12',20)],
 'core2':[(p,60) for p in "C01 C02 C03 C06 C07 C08 C09 C10 C13 C14 C15 C16 C17 C18 C20 C22 C25 C27 C36 C37 C05 C11 C12 C19 C23 C24 C26 C28".split()]+[('C21',64),('C04',600),('C29',64),('C32',160),('C30',8)],
 'q':[('C39',60),('C40',60)],
 'actor1':[('C33',60),('C34',60),('C35',30)],
 'actor2':[('C39',60),('C33',250),('C34',250),('C38',250),('C35',100)],
}
def byfile(m):
  f=m['File']
  if f=='manager.go': return [('C29',96)]
  if f.startswith('native'): return [('C30',24)]
  if f.startswith('blind'): return [('C21',400),('C20',40),('C19',40)]
  if f=='rank.go': return [(p,120) for p in ('C09','C10','C14','C15','C16')]
  if f in('competition.go','competition_settings.go','options.go'): return [('C40',60),('C04',300),('C05',40),('C19',40),('C13',40)]
  if f=='regulator.go': return [(p,80) for p in ('C24','C23','C25','C26','C17','C32')]+[('C36',30),('C37',30)]
  return [(p,40) for p in "C37 C36 C08 C18 C07 C13 C14 C16 C26 C02 C03 C27 C01 C06 C09 C10 C12 C15 C17 C20 C22 C25 C11 C19 C24 C28".split()]+[('C04',300),('C32',160)]
done=set()
if os.path.exists(outp):
  for l in open(outp):
    done.add(json.loads(l)['i'])
lock=__import__('threading').Lock()
def one(i,m):
  if i in done: return
  d=tempfile.mkdtemp(prefix='mt',dir='/tmp/mut')
  try:
    path=os.path.join(R,m['File']); src=open(path,'rb').read()
    new=src[:m['From']]+m['New'].encode()+src[m['To']:]
    mf=os.path.join(d,'f.go'); open(mf,'wb').write(new)
    ov=os.path.join(d,'ov.json'); json.dump({"Replace":{path:mf}},open(ov,'w'))
    b=os.path.join(d,'vh')
    p=subprocess.run(['go','test','-c','-overlay',ov,'-o',b,'.'],cwd=H,env=env,capture_output=True,text=True)
    rec=dict(i=i,m=m)
    if p.returncode!=0 or not os.path.exists(b):
      rec['res']='nobuild'
    else:
      own={};other={};crash=[]
      for prop,n in (byfile(m) if stage=='core2' else SETS[stage]):
        o=os.path.join(d,'o.json')
        if os.path.exists(o): os.remove(o)
        e=dict(env,VH_PROP=prop,VH_SEED='5',VH_FROM='0',VH_N=str(n),VH_STEP='1',VH_OUT=o,VH_TIER='quick',VH_HANG='8')
        try:
          with open(os.path.join(d,'err'),'w') as ef:
            q=subprocess.run([b,'-test.run','^TestWorker$','-test.timeout','0'],cwd=d,env=e,stdout=ef,stderr=ef,timeout=120)
        except subprocess.TimeoutExpired:
          crash.append(prop+':timeout'); break
        try: r=json.load(open(o))
        except Exception: r=None
        if not r or not r.get('done'):
          t=open(os.path.join(d,'err')).read()
          crash.append(prop+(':hang' if 'VH-HANG' in t else ':crash'))
          if len(crash)>=1: break
          continue
        for v in r.get('viol') or []:
          own[prop]=own.get(prop,0)+1
          for x in v['bad']:
            rec.setdefault('what',x['what'][:150])
            for pp in x['props'] or ['?']: other[pp]=other.get(pp,0)+1
        for k,v in (r.get('other') or {}).items(): other[k]=other.get(k,0)+v
        if own or other: break
      rec['own']=own; rec['other']=other; rec['crash']=crash
      rec['res']='killed' if own or other or crash else 'SURVIVED'
    with lock:
      open(outp,'a').write(json.dumps(rec)+'\n')
  finally:
    shutil.rmtree(d,ignore_errors=True)
with ThreadPoolExecutor(jobs) as ex:
  list(ex.map(lambda t: one(*t), enumerate(ms)))

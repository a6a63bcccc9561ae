import re,glob,os
R='/repo/'
ents=[];imps={}
for f in sorted(glob.glob(R+'pkg/trait/*/*_router.pb.go')):
    pkg=f.split('/')[-2]
    s=open(f).read()
    name=re.search(r'func New(\w+)Router\(',s).group(1)
    m=re.search(r'compile time check.*\nvar _ (?:(\w+)\.)?(\w+)Server = ',s)
    q,svc=m.group(1),m.group(2)
    w=open(f.replace('_router','_wrap')).read()
    wn=re.search(r'func Wrap(\w+)\(',w).group(1)
    ents.append((pkg,name,q or pkg,svc,wn))
out='// Code generated by tools/routers.py from the list of routers. DO NOT EDIT.\n\npackage c12\n\nimport (\n\t"github.com/smart-core-os/sc-api/go/traits"\n\t"google.golang.org/grpc"\n\n\t"github.com/smart-core-os/sc-golang/pkg/router"\n'
for p in sorted({e[0] for e in ents}): out+='\t"github.com/smart-core-os/sc-golang/pkg/trait/%s"\n'%p
out+=')\n\nvar services = []*service{\n'
for pkg,name,q,svc,wn in ents:
    out+='\t{\n\t\tlabel: "%s.%sRouter",\n\t\tdesc: &%s.%s_ServiceDesc,\n\t\trouter: func(o ...router.Option) theRouter { return %s.New%sRouter(o...) },\n\t\tclient: func(c grpc.ClientConnInterface) any { return %s.New%sClient(c) },\n\t\twrap: func(s any) theWrapper { return %s.Wrap%s(s.(%s.%sServer)) },\n\t\tfactory: func(f func(string) (any, error)) router.Option {\n\t\t\treturn %s.With%sClientFactory(func(n string) (%s.%sClient, error) { c, err := f(n); if c == nil { return nil, err }; return c.(%s.%sClient), err })\n\t\t},\n\t},\n'%(pkg,name,q,svc,pkg,name,q,svc,pkg,wn,q,svc,pkg,svc,q,svc,q,svc)
out+='}\n'
os.makedirs('/verif/harness/c12',exist_ok=True)
open('/verif/harness/c12/table.go','w').write(out)
print(len(ents))

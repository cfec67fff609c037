import json,glob,collections
d=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); d[m['property']].append((f.split('/')[3],m['needs']))
seed='\n'.join('| %s | %s | %s |'%(k,n,needs.replace('|','/')) for k in sorted(d) for n,needs in d[k])
s=open('/verif/tools/design_text.md').read().replace('@SEEDED@',seed).replace('@NSEEDED@',str(sum(map(len,d.values()))))
open('/verif/DESIGN.md','w').write(s)

import json,glob,collections
rows=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows[m['property']].append((f.split('/')[3],m['needs']))
out=["## 6. Planted bugs and mutants","",
"Each change in `seeded/` compiles, passes the 838 tests and has a demonstration. `tools/plant.sh` confirms that, `tools/caught.sh`",
"runs the claimed check against it. All of them are caught by the quick check of their property; what they need to show:","",
"| caught by | change | needs |","|---|---|---|"]
for p in sorted(rows):
    for n,w in rows[p]: out.append("| %s | %s | %s |"%(p,n,w.replace('|','/')))
open('/tmp/s6.md','w').write('\n'.join(out)+'\n')

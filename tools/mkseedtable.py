import json,glob,os
f="/verif/DESIGN.md"; s=open(f).read()
s=s[:s.index('## 6. Seeded changes')]
s+='''## 6. Seeded changes

`/verif/seeded/<id>` holds changes that compile and pass the 152 tests; `tools/plant.py` writes one after
confirming in a scratch copy that it builds, passes the tests, and that its demonstration tells it from the original.
`tools/seedrun.sh [-a] [ids]` applies each to /repo, runs the check of its property (`-a`: every check) and undoes it.
Each was written from the statement of the property and the code. The last column says what had to be added.

| change | needs | caught by | strengthening |
|--------|-------|-----------|---------------|
'''
T=json.load(open('/verif/tools/strengthened.json'))
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    c,st=T.get(i,[m['property'],''])
    s+=f"| {i} | {m['needs']} | {c} | {st} |\n"
open(f,'w').write(s)

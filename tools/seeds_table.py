import json,glob,os
rows=["Each row is one folder under `seeded/` (patch, demonstration, what it needs).  All of them pass the repository's tests; each is caught by the quick check of its property with `VERIF_SEED=1`.","","| planted bug | property | what it takes to show |","|---|---|---|"]
fs=[(json.load(open(f)),f.split('/')[-2]) for f in sorted(glob.glob('/verif/seeded/*/meta.json'))]
for m,n in sorted(fs,key=lambda x:(x[0]['property'],x[1])):
    rows.append(f"| {n} | {m['property']} | {m['needs']} |")
rows+=["",open('/verif/seeded-notes.md').read() if os.path.exists('/verif/seeded-notes.md') else '']
open('/verif/seeded-results.md','w').write('\n'.join(rows)+'\n')

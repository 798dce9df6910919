# prints the table of planted changes from seeded/*/meta.json (development only)
import json,glob,os
print('| planted change | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    print(f"| {i} | {m['property']} | {m['needs']} | {'quick check of '+m['property']} |")

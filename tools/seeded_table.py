"""prints the table of planted bugs for DESIGN.md"""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| planted bug | caught by | needs | breaks |\n|---|---|---|---|')
for d in sorted(os.listdir(S)):
    m = json.load(open(f'{S}/{d}/meta.json'))
    print(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")

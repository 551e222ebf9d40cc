"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
p = V + '/DESIGN.md'
s = open(p).read()
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), m['needs'].replace('|', '\\|').replace('\n', ' ')))
head = '| id | what it breaks | needs |\n|----|----|----|\n'
i = s.index(head) + len(head)
j = i
while s[j:j + 1] == '|':
    j = s.index('\n', j) + 1 if '\n' in s[j:] else len(s)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
print(len(rows))

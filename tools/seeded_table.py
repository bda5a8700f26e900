"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = '<!-- seeded table: written by tools/seeded_table.py -->\n'
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
rows = []
for d in glob.glob(os.path.join(here, 'seeded', '*', '')):
    meta = json.load(open(d + 'meta.json'))
    files = [l[6:].strip() for l in open(d + 'patch.diff') if l.startswith('+++ b/')]
    rows.append((meta['property'], os.path.basename(d[:-1]), ', '.join('`%s`' % f for f in files),
                 meta['what_it_breaks'].replace('|', '/'), meta['needs'].replace('|', '/')))
rows.sort()
out = ['| caught by | bug | file | what it breaks | needs |', '|----|----|----|----|----|']
out += ['| %s | %s | %s | %s | %s |' % r for r in rows]
open(path, 'w').write(text[:text.index(mark)] + mark + '\n'.join(out) + '\n')

"""Writes the table of planted bugs (seeded/) into DESIGN.md, between the CATCH markers."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
groups = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    groups.setdefault(d.split('-')[0], []).append(d.split('-', 1)[1])
text = ('Each of the %d planted bugs in `seeded/` is reported by the check of its own property:\n\n'
        '| Check | planted bugs caught (`seeded/<check>-<name>`) |\n|---|---|\n'
        % sum(map(len, groups.values())))
text += ''.join('| %s | %s |\n' % (k.upper(), ', '.join(v)) for k, v in sorted(groups.items()))
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
a = s.index('<!-- CATCH -->\n') + len('<!-- CATCH -->\n')
b = s.index('<!-- /CATCH -->')
open(path, 'w').write(s[:a] + text + s[b:])

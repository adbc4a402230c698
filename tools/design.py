#!/opt/veriftools/pyvenv/bin/python3
"""Writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md."""
import os, sys, json, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'contracts')]
from gv import spec as SP
for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
    if f.endswith('.py') and not f.startswith('_'):
        importlib.import_module(f[:-3])
NOTES, CAUGHT = {}, {}
exec(open(os.path.join(HERE, 'tools', 'design_notes.py')).read())
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]


def short(k):
    k = k.replace('gridpp::', '').replace('rec:', '').replace('enum:', '').replace('vec<vec<vec<f32>>>', 'vec3').replace('vec<vec<f32>>', 'vec2').replace('vec<f32>', 'vec').replace('f32', 'float').replace('(anonymous namespace)::', '')
    return '`%s`' % k


for p in sorted((json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))), key=lambda p: p['id']):
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s\n' % na[i])
        continue
    mine = [(k, c) for k, c in SP.CONTRACTS.items() if i in c.props]
    pr = [k for k, c in mine if not c.bounded and not c.trusted]
    bo = [k for k, c in mine if c.bounded]
    if i in NOTES:
        out.append(NOTES[i].strip() + '\n')
    out.append('Specified: ' + '; '.join(sorted({n for k, c in mine for n, t in c.ensures if isinstance(n, str)})) + '; exact exception conditions.\n')
    if pr:
        out.append('Proved for all inputs (%d): %s.\n' % (len(pr), ', '.join(map(short, pr))))
    if bo:
        out.append('Bounded (%d; contract evaluated on generated arguments, not proved): %s.\n' % (len(bo), ', '.join(map(short, bo))))
    if i in CAUGHT:
        out.append('Planted bugs: %s\n' % '; '.join(CAUGHT[i]))
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))

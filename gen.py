#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from props.py / checks.py.
import json, os, re
import checks, props
V = os.path.dirname(os.path.abspath(__file__))
out = []
for p in props.PR:
    assert len(p['title']) <= 80, p['id']
    a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
    if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
    if p['observe']: a['observe_at'] = p['observe']
    a['hook_needed'] = None
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a))
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
na = dict(props.NA)
ch = []
for p in props.PR:
    if p['id'] in na: continue
    c = checks.PROPS[p['id']]
    b = '; '.join('%s: %s' % (x['name'], x['bound']) for x in c['cases'] if x.get('bound'))
    ch.append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
      technique='symbolic execution of the real code (LLVM IR) with SMT-decided branches and assertions', level=c['level'],
      level_note=('Bounded: %s. ' % (b or 'see harness')) + (p['note'] + ' ' if p['note'] else '') + 'Exhaustive within the bounds when the evidence says exhaustive; trusts clang, z3, engine/ and the libc/OS models in rt/.'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=ch, not_applicable=[dict(property=i, reason=r) for i, r in props.NA], notes='see DESIGN.md')
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(out), 'properties', len(ch), 'checks')

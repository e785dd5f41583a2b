"""Runs a recorded counterexample on the real code, compiled from the current tree."""
import json
import sys
import build
import concrete
import native
import props

with open(sys.argv[1]) as f:
    rec = json.load(f)
so = build.build(props.PROPS[rec['property']].variant)[1]
native.PRELOAD = so
print('%s [%s] %s: %s' % (rec['property'], rec['case'], rec['claim'], rec['statement']))
same = True
for i, call in enumerate(rec['calls']):
    inp = concrete.from_json(call)
    kind, ret, post = concrete.run_native(so, inp)
    print('call %d: data %s' % (i + 1, inp['data'].hex()))
    for j, a in enumerate(inp['accounts']):
        if a.get('dup') is not None:
            print('  account %d: the same as account %d' % (j, a['dup']))
        else:
            print('  account %d: key %s owner %s lamports %d data (%d) %s' % (
                j, a['key'].hex(), a['owner'].hex(), a['lamports'], len(a['data']), a['data'].hex()))
    print('  clock %s schedule %s' % (inp['clock'], inp['schedule']))
    print('  the real code: %s %s' % (kind, ret))
    seen = rec['observed'][i]
    same = same and (kind, ret) == (seen['kind'], concrete.from_json(seen['result']))
    same = same and (post is None) == (seen['accounts'] is None) and post == concrete.from_json(seen['accounts'])
if rec.get('client'):
    c = concrete.from_json(rec['client'])
    print('client call %s %s' % (c['fn'], [a.hex() if isinstance(a, bytes) else a for a in c['args']]))
    print('  the real code: %s' % (native.client(so, c['fn'], c['args'], c['outs']),))
    print('  recorded: %s' % rec['observed'][0]['result'])
else:
    print('as recorded' if same else 'NOT as recorded')

import sys, json, time, os
sys.path.insert(0, '/verif/tools')
import po
from collections import Counter
exe = po.build_driver()
deep = int(os.environ.get('DEEP', '0'))
CH = os.environ.get('CH', '').split()
if CH == ['all']: CH = ['C%02d' % i for i in range(1, 25)]
for p in sys.argv[1].split(','):
    D, S, B = [], [], []
    def on(l):
        if l.startswith('S '): S.append(l[2:])
        elif l.startswith('D '): D.append(json.loads(l[2:]))
        else: B.append(l)
    info = po.run_tlc('MC_' + p, 'CONSTANT Deref <- DerefId\nCONSTANT Deep = %d\nCONSTANT Checked = {%s}\nINIT MCInit\nNEXT Next\nVIEW MCView\nINVARIANT PropertiesHold\nINVARIANT Emit\n' % (deep, ','.join('"%s"' % c for c in (CH or [p]))), on, extra=('-continue',), timeout=3000, heap='8g')
    t1 = time.time()
    ss, exp = [], []
    for l in S:
        s = json.loads(l)
        for o in s['ops']:
            if 'ref' in o:
                o['opts'] = D[0][o.pop('ref') - 1]
        exp.append(s.pop('o')); ss.append(s)
    rs = po.replay(exe, ss)
    t2 = time.time()
    bad = 0; hist = Counter()
    for s, e, (r, note) in zip(ss, exp, rs):
        for o, x in zip(s['ops'], e): hist[o['op'], x['r'], x['e']] += 1
        if note: print(p, 'NOTE', note[-500:])
        if r != e:
            bad += 1
            if bad <= 3:
                for o, a, b in zip(s['ops'], e, r):
                    if a != b:
                        print(' op', json.dumps(o)); print(' exp', a); print(' got', b); break
    print(p, 'tlc %.1f states %d scen %d ops %d MB %.1f ok %s broken %d driver %.1f bad %d' % (info['wall'], info['distinct'], len(ss), sum(hist.values()), sum(map(len, S)) / 1e6, info['ok'], len(B), t2 - t1, bad))
    print('   ', dict((' '.join(k), v) for k, v in hist.items() if k[0] != 'desc'))
    if not info["ok"]:
        info["log"] = [l for l in info["log"] if not l.startswith(("Parsing", "Semantic", "Linting"))]
        print('\n'.join(info['log'][-50:])[:3000] if not B else B[0][:2500])
        ii = [i for i, l in enumerate(info['log']) if 'rror' in l]
        if ii: print(p, '\n'.join(info['log'][ii[0]:ii[0]+12])[-700:])

import sys, json, time, os
sys.path.insert(0, '/verif/tools')
import po, gen
exe = po.build_driver()
n = int(sys.argv[2]) if len(sys.argv) > 2 else 500
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
CH = os.environ.get('CH', '').split()
if CH == ['all']: CH = ['C%02d' % i for i in range(1, 25)]
for p in sys.argv[1].split(','):
    t0 = time.time()
    ss = gen.scenarios(p, seed, n)
    rs = po.replay(exe, ss)
    t1 = time.time()
    f = '/tmp/tr_%s.ndjson' % p
    with open(f, 'w') as o:
        for s, (r, note) in zip(ss, rs):
            if note: print(p, 'NOTE', note[-800:], json.dumps(s)[:3000])
            o.write(json.dumps(dict(w=s['w'], ops=s['ops'], res=r), separators=(',', ':')) + '\n')
    mm = []
    info = po.run_tlc('PoTrace', 'CONSTANT Deref <- DerefTrace\nCONSTANT TraceFile = "%s"\nCONSTANT Checked = {%s}\nINIT TInit\nNEXT TNext\nVIEW TView\nINVARIANT Conforms\nINVARIANT PropertiesHold\n' % (f, ','.join('"%s"' % c for c in CH)), mm.append, extra=('-continue',), timeout=900)
    print(p, 'driver %.1f tlc %.1f' % (t1 - t0, info['wall']), info['states'], info['distinct'], info['ok'], len(mm))
    if not info['ok']:
        ii = [i for i, l in enumerate(info['log']) if 'Evaluating' in l]
        if ii: print(p, '\n'.join(info['log'][ii[0]:ii[0]+8])[:1500])
    from collections import Counter
    print('  ', Counter(m.split('"prop":"')[1][:3] for m in mm if m.startswith('BROKEN')))
    seen = set()
    for m in mm:
        if not m.startswith(('MISM', 'BROK')): print('LINE', m[:300]); continue
        k, d = m.split(' ', 1)
        d = json.loads(d)
        if (k, d.get('prop')) in seen: continue
        seen.add((k, d.get('prop')))
        s = ss[d['line'] - 1]
        print('  ', k, d.get('prop'), 'op', json.dumps(s['ops'][d['op'] - 1]))
        if k == 'MISMATCH': print('   exp', json.dumps(d['expected']))
        print('   got', json.dumps(rs[d['line'] - 1][0][d['op'] - 1]))
        if len(sys.argv) > 4:
            def short(o):
                if isinstance(o, dict): return {k: short(v) for k, v in o.items() if v not in (False, '', [], 0)}
                if isinstance(o, list): return [short(x) for x in o]
                return o
            print('     ctx', json.dumps(short(s)))

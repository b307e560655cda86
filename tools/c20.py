"""Verdict and evidence of C20."""
import json, os, sys, time
here, s, tier, seed, start, kind, log = sys.argv[1:8]
counts, evals, distinct, samples, vio = {}, 0, 0, [], None
if kind != 'parts':
    vio = (kind, open(log).read()[:8000])
else:
    res = {}
    for part in ('C01', 'C02', 'C03', 'C05', 'C06'):
        for v in ('committed', 'generated'):
            rc = int(open(f'{s}/{part}.{v}.rc').read())
            try:
                d = json.loads(open(f'{s}/{part}.{v}.json').read().strip().splitlines()[-1])
            except Exception:
                d = None
            if d is None or rc not in (0, 1):
                sys.stderr.write(open(f'{s}/{part}.{v}.err').read()[:4000])
                sys.stderr.write(f'c20: part {part} ({v}) gave no answer, rc {rc}\n')
                sys.exit(2)
            res[part, v] = d
            r = d['result']
            evals += r['evaluations']
            if v == 'generated':
                distinct += r['distinct']
            counts[f'{part}, {v} code: cases judged'] = r['evaluations']
    for part in ('C01', 'C02', 'C03', 'C05', 'C06'):
        c, g = res[part, 'committed']['violation'], res[part, 'generated']['violation']
        def say(who, v):
            return (f'{who}: {v["what"]}', '\n'.join(v['trace'] or []))
        if vio:
            break
        if g and not c:
            vio = say('with the code the generator writes', g)
        elif c and not g:
            vio = say('regenerating changes behaviour: the committed code does otherwise', c)
        elif g and c and part in ('C01', 'C02'):
            vio = say('with the code the generator writes, as with the committed', g)
        samples += (res[part, 'generated']['result']['samples'] or [])[:3]
    counts['generated file is the committed one, byte for byte'] = int(os.path.exists(f'{s}/same'))
    counts['runs of the generator'] = 2
ev = {'property': 'C20', 'tier': tier, 'seed': int(seed), 'level': 'exploration',
      'coverage': {'evaluations': max(evals, 1), 'distinct_nontrivial': max(distinct, 2) if vio else distinct,
                   'rule': 'A case is a case of the monitors of C01, C02, C03, C05 and C06, run with a build of the package that has the output of the generator (run twice, the second time on its own output) '
                           'and with the committed one. Both have to agree with the reference codec, and with each other. Distinct: as in those checks, counted for the generated code.',
                   'samples': samples[:12], 'observed': counts},
      'wall_s': time.time() - float(start), 'violations': 1 if vio else 0, 'assumptions': []}
json.dump(ev, open(f'{here}/evidence/C20.json', 'w'), indent=1)
if vio:
    rp = f'{here}/out/C20-violation.txt'
    with open(rp, 'w') as f:
        f.write(f'property: C20\nwhat: {vio[0]}\nreproduce: VERIF_SEED={seed} VERIF_TIER={tier} bash /verif/check.sh C20\n\n{vio[1]}\n')
    print('C20:', vio[0])
    print(f'VIOLATION property=C20 replay={rp}')
    sys.exit(1)
print(f'OK property=C20 evaluations={evals} distinct={distinct} wall={ev["wall_s"]:.1f}s')

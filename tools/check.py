#!/usr/bin/env python3
"""One property check: discharge the contracts of the property on /repo's current
source (govc), run the replay and bounded driver against the real code, and
report.  usage: check.py PROPERTY quick|thorough"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
GO = '/opt/veriftools/go1.27.3/bin'
T0 = time.time()


def goenv():
    e = dict(os.environ)
    if os.path.isdir(GO):
        e['PATH'] = GO + ':' + e.get('PATH', '')
    e.pop('GOROOT', None)
    e['GOTOOLCHAIN'] = 'local'
    e['GOPROXY'] = 'off'
    e['GOWORK'] = 'off'
    e['GO111MODULE'] = 'on'
    e['GOFLAGS'] = '-mod=mod -buildvcs=false'
    e.setdefault('HOME', '/root')
    return e


def run(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out.decode('utf-8', 'replace')


def known(prop):
    """known-findings file: 'known: property=ID key=KEY text' and 'fixed: ...' lines"""
    r = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tmp = tempfile.mkdtemp(prefix='verif-')
    rep = os.path.join(HERE, 'replay', prop)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep, exist_ok=True)
    try:
        rc = body(prop, tier, seed, tmp, rep)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def body(prop, tier, seed, tmp, rep):
    cfg = json.load(open(os.path.join(HERE, 'tools', 'props.json')))[prop]
    env = goenv()
    res = {}
    viol = []      # (path, concrete)
    lines = []
    quick = tier == 'quick'

    def prove():
        g = os.path.join(tmp, 'govc')
        rc, out = run(['go', 'build', '-o', g, '.'], 400, cwd=os.path.join(HERE, 'govc'), env=env)
        if rc != 0:
            res['govc_error'] = 'govc does not build: ' + out[-2000:]
            return
        js = os.path.join(tmp, 'govc.json')
        t = str(cfg.get('t', 20) if quick else cfg.get('t', 20) * 3)
        rc, out = run([g, '-repo', REPO, '-specs', os.path.join(HERE, 'contracts'), '-prop', prop, '-json', js, '-t', t, '-j', '8'],
                      500 if quick else 800, env=env)
        res['govc_out'] = out
        if os.path.exists(js):
            res['govc'] = json.load(open(js))
        else:
            res['govc_error'] = 'govc gave no result (exit %d): %s' % (rc, out[-3000:])

    def drive():
        d = os.path.join(tmp, 'drv')
        ov = os.path.join(tmp, 'ov.json')
        for inner in (['inner'], []):
            subprocess.check_call([sys.executable, os.path.join(HERE, 'tools', 'mkoverlay.py'), REPO, ov] + inner)
            tags = ['-tags', 'inner'] if inner else []
            rc, out = run(['go', 'build'] + tags + ['-overlay', ov, '-o', d, './verifdrv'], 400, cwd=REPO, env=env)
            if rc == 0:
                break
            res['inner_error'] = out[-1500:]
        if rc != 0:
            res['drv_error'] = out[-3000:]
            return
        secs = cfg.get('secs', 60) if quick else cfg.get('secs_thorough', 500)
        js = os.path.join(tmp, 'drv.json')
        scratch = os.path.join(tmp, 'scratch')
        os.makedirs(scratch)
        e = dict(env)
        e['VERIF_HOME'] = HERE
        e['GOTRACEBACK'] = 'single'
        rc, out = run([d, '-prop', prop, '-tier', tier, '-seed', str(seed), '-out', rep, '-dir', scratch,
                       '-secs', str(secs), '-json', js], secs + 300, env=e, cwd=scratch)
        res['drv_out'] = out
        if os.path.exists(js):
            res['drv'] = json.load(open(js))
        else:
            cur = ''
            try:
                cur = open(os.path.join(scratch, 'current-case')).read()
            except OSError:
                pass
            p = os.path.join(rep, 'driver-died.txt')
            why = 'ran out of time' if rc == -999 else 'ended with exit code %d' % rc
            with open(p, 'w') as f:
                f.write('property: %s\nthe program exercising the library %s\nlast case: %s\noutput:\n%s\n' % (prop, why, cur, out[-6000:]))
            res['drv_died'] = (p, cur)

    ths = []
    if cfg.get('prove', True):
        ths.append(threading.Thread(target=prove))
    if cfg.get('drive', True):
        ths.append(threading.Thread(target=drive))
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    kn = known(prop)
    seen_known = set()
    drv = res.get('drv')
    if 'drv_error' in res:
        # the library or its public API does not compile any more
        print('the driver does not build against the current tree:\n' + res['drv_error'])
        return 2
    if 'drv_died' in res:
        viol.append((res['drv_died'][0], True))
    if drv:
        for f in drv.get('failures') or []:
            if f['key'] in kn:
                seen_known.add(f['key'])
                continue
            lines.append('failing input [%s]: %s' % (f['key'], f['what'][:600]))
            viol.append((f['replay'], True))
    g = res.get('govc')
    failed = []
    if 'govc_error' in res:
        p = os.path.join(rep, 'verifier.txt')
        open(p, 'w').write(res['govc_error'])
        failed.append(('verifier', res['govc_error'][:300], p))
    if g:
        for f in g['functions']:
            if f.get('error'):
                p = os.path.join(rep, 'obligation-%d.txt' % len(failed))
                open(p, 'w').write('property: %s\nfunction: %s\nno obligations could be generated: %s\n' % (prop, f['name'], f['error']))
                failed.append((f['name'], f['error'], p))
            for o in f.get('failed') or []:
                p = os.path.join(rep, 'obligation-%d.txt' % len(failed))
                open(p, 'w').write('property: %s\nfailed obligation: %s\nclause: %s\nat: %s\nstatus: %s (%s, %.1fs)\nverifier output:\n%s\n' % (
                    prop, o['id'], o.get('clause', ''), o.get('pos', ''), o['status'], o.get('solver', ''), o.get('time', 0), res['govc_out'][-8000:]))
                failed.append((o['id'], o.get('clause', ''), p))
        if not g['functions'] or g['obligations'] == 0:
            p = os.path.join(rep, 'verifier.txt')
            open(p, 'w').write('no obligations were generated\n' + res['govc_out'])
            failed.append(('verifier', 'no obligations', p))
    for fid, cl, p in failed:
        if fid in kn:
            seen_known.add(fid)
            continue
        lines.append('failed obligation: %s %s' % (fid, cl[:300]))
        viol.append((p, False))

    wall = time.time() - T0
    cov = {}
    asm = list(cfg.get('assumptions', []))
    if g:
        fns = [f for f in g['functions'] if f['kind'] != 'lemma']
        cov.update({
            'obligations': g['obligations'], 'discharged': g['discharged'],
            'checker_cmd': 'govc -repo %s -specs /verif/contracts -prop %s (obligations to z3 4.8.12, z3-new, cvc5 1.1.2)' % (REPO, prop),
            'trusted_base': ['govc (generator of the obligations, /verif/govc)', 'golang.org/x/tools/go/ssa', 'z3, cvc5'] + (g.get('trusted') or []),
            'functions_under_contract': [{'name': f['name'], 'where': f.get('where', ''), 'obligations': f['total'], 'discharged': f['proved'], 'loops': f.get('loops', 0), 'kinds': f.get('kinds'), 'inlined': f.get('inlined') or []} for f in fns],
            'lemmas': [f['name'] for f in g['functions'] if f['kind'] == 'lemma'],
            'reachability_covers': g.get('covers', 0),
            'discharged_by': g.get('by_solver', {}),
            'solver_seconds': g.get('solver_seconds', 0),
            'failed_obligations': [f[0] for f in failed],
        })
        asm += g.get('assumptions') or []
    if drv:
        cov.update({
            'evaluations': drv['evaluations'], 'distinct_nontrivial': drv['distinct'],
            'rule': cfg.get('rule', 'replay and bounded stand-in: generated inputs run through the real public API and compared with an independent oracle; a case is distinct by its generated description'),
            'samples': drv.get('samples') or [],
            'bounded_parts': drv.get('parts'),
            'bounded_notes': (drv.get('notes') or []) + cfg.get('bounds', []),
        })
        if 'inner_error' in res:
            cov['bounded_notes'] = cov['bounded_notes'] + ['parts calling unexported functions were left out: they do not compile against this tree']
    if cfg['level'] == 'other':
        cov['explanation'] = cfg['explanation']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov or {'none': 1},
          'assumptions': sorted(set(asm)), 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kn[k]))
    for ln in lines:
        print(ln)
    if g:
        print('%s: %d obligations, %d discharged, %d functions and lemmas under contract (%s)' % (
            prop, g['obligations'], g['discharged'], len(g['functions']), ', '.join('%s %d' % kv for kv in sorted(g.get('by_solver', {}).items()))))
    if drv:
        print('%s: driver %d cases, %d distinct, failures %s' % (prop, drv['evaluations'], drv['distinct'], drv.get('fail_counts')))
    if viol:
        conc = [v for v in viol if v[1]]
        if conc:
            print('VIOLATION property=%s replay=%s' % (prop, conc[0][0]))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, viol[0][0]))
        return 1
    print('%s: held, %.1fs' % (prop, wall))
    return 0


if __name__ == '__main__':
    main()

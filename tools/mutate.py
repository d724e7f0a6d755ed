#!/usr/bin/env python3
"""Mutation campaign over /repo's non-test code (development tool; no check uses it).

mutate.py gen N SEED        write mutants to /tmp/mc/muts.json
mutate.py test [JOBS]       run the stable tests on each in copies of /repo; survivors -> /tmp/mc/surv.json
mutate.py check [JOBS]      run the checks on the survivors in private mounts, stop at the first catch
                            -> /tmp/mc/res.json
mutate.py show              what no check caught
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
MC = '/tmp/mc'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', OPENBLAS_NUM_THREADS='1', VERIF_SEED='1', VERIF_TIER='quick')
def sources():
    out = []
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            if f.endswith('.rs') and f not in ('lib.rs', 'error.rs', 'response.rs'):
                out.append(os.path.join(d, f)[len('/repo/src/'):])
    return sorted(out)
def code_lines(path):
    """(line number, text) of non-test, non-comment code"""
    ls = open('/repo/src/' + path).read().split('\n')
    for i, l in enumerate(ls):
        if re.match(r'\s*#\[cfg\(test\)\]', l): break
        if re.match(r'\s*(//|#\[|use |pub use |mod )', l): continue
        if 'verif' in l: continue
        yield i, l
SUBS = [
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' -= ', ' += '),
 (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r' < ', ' > '), (r' > ', ' < '),
 (r'F::one\(\)', 'F::zero()'), (r'F::zero\(\)', 'F::one()'), (r'F::two\(\)', 'F::one()'), (r'F::half\(\)', 'F::one()'), (r'F::one\(\)', 'F::two()'),
 (r'\bT::one\(\)', 'T::zero()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\.abs\(\)', ''), (r'\.sqrt\(\)', ''), (r'\.exp\(\)', ''), (r'\.ln\(\)', ''), (r'\.signum\(\)', ''), (r'\.recip\(\)', ''),
 (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\.t\(\)', ''), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
 (r'(?<=[\s(,=])-(?=[\w(])', ''), (r'(?<=[\s(])!(?=[\w(])', ''),
 (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'),
 (r'(?<![\w.])1\.(?!\w)', '2.'), (r'(?<![\w.])0\.(?!\w)', '1.'), (r'\b0\.5\b', '1.0'), (r'\b2\.(?!\w)', '1.'),
 (r'freq_weights', 'var_weights'), (r'var_weights', 'freq_weights'), (r'apply_total_weights', 'apply_freq_weights'),
 (r'apply_total_weights', 'apply_var_weights'), (r'apply_freq_weights', 'apply_var_weights'), (r'apply_var_weights', 'apply_freq_weights'),
 (r'apply_freq_weights', 'apply_total_weights'), (r'\bx_conj\b', 'x_ext'), (r'\bx_std\b', 'x_orig'), (r'\bn_eff\b', 'n_obs'), (r'\bn_obs\b', 'n_eff'),
 (r'freq_sum', 'sum_weights'), (r'sum_weights', 'freq_sum'), (r'result_std', 'result'), (r'adjust_errors', 'adjust_variance'), 
 (r'l1_vec', 'l2_vec'), (r'\bguess\b', 'next_guess'), (r'Some\(', 'None;('), (r'index_axis', 'index_axis'),
 (r's!\[1\.\.', 's![..'), (r'Axis\(0\)', 'Axis(1)'), (r'Axis\(1\)', 'Axis(0)'), (r'\.leverage\(\)\?', '.hat()?.diag()'),
 (r'\.take\(\w+\)', ''), (r'\.clone\(\)', '.clone()'), (r'mapv_into\(', 'mapv('), (r'last_like', 'model_like'), (r'std_', ''), (r'_std\b', '_orig'),
 (r'mean', 'sum'), (r'd_nat_param', 'nat_param'), (r'\bnat_param\b', 'd_nat_param'), (r'\.log_like_natural', '.log_like_sat'),
 (r'resid_pear_std', 'resid_pear'), (r'resid_dev_std', 'resid_dev'), (r'null_like', 'model_like'),(r'\bgamma\b', 'dual'),
 (r'inverse_transform_fisher', 'transform_fisher'), (r'inverse_transform_beta', 'transform_beta'), (r'transform_beta', 'inverse_transform_beta'),
]
def gen(n, seed):
    rnd = random.Random(seed); muts = []
    seen = {(m['file'], m['line'], m['new']) for m in (json.load(open(MC + '/old.json')) if os.path.exists(MC + '/old.json') else [])}
    for f in sources():
        for i, l in code_lines(f):
            code = l.split(' //')[0]
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    if '"' in code[:m.start()]: continue
                    new = code[:m.start()] + rep + code[m.end():]
                    if new != code: muts.append((f, i, l, new))
            st = code.strip()
            if st.endswith(';') and re.match(r'(self\.[\w.]+\s*[-+*]?=|\*?\w+\s*[-+*]?=|[\w.]+\.(assign|push|fill|map_inplace|row_mut|slice_mut)|return )', st):
                muts.append((f, i, l, re.match(r'\s*', l).group() + '/* deleted */'))
            m = re.match(r'(\s*(?:\} else )?if )(?!let)(.*)( \{)$', code)
            if m:
                muts.append((f, i, l, m[1] + 'true || ' + '(' + m[2] + ')' + m[3])); muts.append((f, i, l, m[1] + 'false && ' + '(' + m[2] + ')' + m[3]))
    u = {}
    for f, i, l, new in muts:
        if (f, i, new) not in seen: u[(f, i, new)] = dict(file=f, line=i, old=l, new=new)
    muts = list(u.values()); rnd.shuffle(muts)
    print(len(muts), 'candidates'); muts = muts[:n]
    for k, m in enumerate(muts): m['id'] = k
    json.dump(muts, open(MC + '/muts.json', 'w'), indent=0)
def apply(m, repo):
    p = f"{repo}/src/{m['file']}"; ls = open('/repo/src/' + m['file']).read().split('\n')
    assert ls[m['line']] == m['old'], m
    ls[m['line']] = m['new']; open(p, 'w').write('\n'.join(ls))
def restore(m, repo): shutil.copyfile('/repo/src/' + m['file'], f"{repo}/src/{m['file']}")
def test(jobs):
    muts = json.load(open(MC + '/muts.json')); q = queue.Queue(); [q.put(m) for m in muts]; surv = []; lock = threading.Lock(); cnt = [0]
    def work(k):
        w = f'{MC}/r{k}'
        if not os.path.isdir(w): subprocess.run(['cp', '-a', '/repo', w], check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply(m, w)
            try:
                b = subprocess.run(['cargo', 'check', '--features', 'openblas-system,stats', '--offline'], cwd=w, env=ENV, capture_output=True, timeout=300)
                ok = b.returncode == 0
                if ok:
                    t = subprocess.run(['timeout', '120', 'cargo', 'test', '--workspace', '--features', 'openblas-system,stats', '--offline'], cwd=w, env=ENV, capture_output=True, text=True)
                    ok = t.returncode == 0; m['st'] = 'survived' if ok else 'killed'
                else: m['st'] = 'nobuild'
            except subprocess.TimeoutExpired: m['st'] = 'timeout'
            restore(m, w)
            with lock:
                cnt[0] += 1
                if m['st'] == 'survived': surv.append(m)
                json.dump(surv, open(MC + '/surv.json', 'w'), indent=0)
                if cnt[0] % 20 == 0: print(cnt[0], len(surv), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]; [t.start() for t in ts]; [t.join() for t in ts]
    from collections import Counter
    print(Counter(m['st'] for m in muts))
ORDER = {
 'irls.rs': 'G03 G04 G05 G06 G15 G14 G30 G01 G07 G10 G23 G20',
 'regularization.rs': 'G14 G15 G01 G03 G30 G02 G06 G05 G04',
 'fit/options.rs': 'G29 G06 G14 G15 G20 G04',
 'model.rs': 'G29 G28 G26 G09 G10 G25 G30 G03',
 'data.rs': 'G07 G08 G09 G10 G02 G01 G03 G17 G16 G20 G25 G26 G18 G19 G29',
 'fit.rs': 'G16 G17 G18 G19 G20 G21 G22 G23 G24 G25 G32 G33 G13 G01 G02 G04 G14 G07 G08 G09 G10 G27 G06 G30 G26',
 'link.rs': 'G11 G01 G02 G12 G03', 'glm.rs': 'G04 G03 G12 G13 G06 G23 G30 G01 G02 G15 G14 G29', 'math.rs': 'G31 G13 G12', 'num.rs': 'G15 G13 G16 G14 G03',
}
def order(m):
    f = m['file']
    if f.startswith('response/'): return 'G12 G11 G13 G33 G31 G28 G03 G04 G23 G29 G30'.split()
    return ORDER.get(f, 'G01').split()
ALL = ['G%02d' % i for i in range(1, 34)]
def check(jobs):
    surv = json.load(open(MC + '/surv.json')); res = json.load(open(MC + '/res.json')) if os.path.exists(MC + '/res.json') else {}
    q = queue.Queue(); [q.put(m) for m in surv if str(m['id']) not in res]; lock = threading.Lock()
    def work(k):
        d = f'{MC}/c{k}'
        if not os.path.isdir(d + '/repo'):
            os.makedirs(d + '/verif', exist_ok=True)
            subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        subprocess.run(f'rm -rf {d}/verif/stats {d}/verif/kani {d}/verif/harness/src && mkdir -p {d}/verif/harness && cd /verif && cp -a check.sh MANIFEST.json properties.jsonl known_findings.json kani stats {d}/verif/ && cp -a harness/src harness/Cargo.toml harness/Cargo.lock {d}/verif/harness/ && cp -a harness/.cargo {d}/verif/harness/; [ -d {d}/verif/harness/target ] || cp -a /verif/harness/target {d}/verif/harness/', shell=True, check=True)
        os.makedirs(d + '/verif/evidence', exist_ok=True); os.makedirs(d + '/verif/replays', exist_ok=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply(m, d + '/repo')
            r = {}
            for p in order(m):
                t = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && GV_THREADS=4 timeout 900 ./check.sh {p} quick > {d}/log 2>&1; echo $?; grep -m1 ^VIOLATION {d}/log'], env=ENV, capture_output=True, text=True)
                o = t.stdout.split('\n'); r[p] = o[0]
                if o[0] == '1' and len(o) > 1 and o[1].startswith('VIOLATION'): r['caught'] = p; break
                if o[0] not in '01': r['log'] = subprocess.run(['tail', '-5', d + '/log'], capture_output=True, text=True).stdout
            restore(m, d + '/repo')
            with lock:
                res[str(m['id'])] = r; json.dump(res, open(MC + '/res.json', 'w'), indent=0)
                print(m['id'], m['file'], m['line'] + 1, r.get('caught', 'MISSED'), '|', m['new'].strip(), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]; [t.start() for t in ts]; [t.join() for t in ts]
def show():
    surv = {str(m['id']): m for m in json.load(open(MC + '/surv.json'))}; res = json.load(open(MC + '/res.json'))
    for k, r in res.items():
        if 'caught' not in r:
            m = surv[k]; print(k, m['file'], m['line'] + 1, {p: c for p, c in r.items() if c != '0'}); print('  -', m['old'].strip()); print('  +', m['new'].strip())
a = sys.argv[1:]
{'gen': lambda: gen(int(a[1]), int(a[2])), 'test': lambda: test(int((a + ['4'])[1])), 'check': lambda: check(int((a + ['2'])[1])), 'show': show}[a[0]]()

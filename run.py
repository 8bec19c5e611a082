#!/usr/bin/env python3
"""Decide one property of cfg-expr by symbolic execution of its compiled code.

usage: run.py <property> [--tier quick|thorough]
       run.py --replay <file>          re-run a reported counterexample natively
       run.py --setup                  build everything once
"""
import sys, os, json, subprocess, hashlib, time, shutil, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, V)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)


class Broken(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            files = sorted(os.path.join(d, f) for d, dn, fs in os.walk(p) for f in fs
                           if not {'target', '.git'} & set(os.path.relpath(d, p).split('/')))
        else:
            files = [p] if os.path.exists(p) else []
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\1')
    return h.hexdigest()[:16]


def run(cmd, cwd, timeout=800, env=ENV, what=''):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode(errors='replace')
    if p.returncode:
        raise Broken('%s failed (%d):\n%s' % (what or cmd, p.returncode, out[-4000:]))
    return out


def keep(base, name, n=3):
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, name)
    olds = sorted((x for x in os.listdir(base) if x != name), key=lambda x: os.path.getmtime(os.path.join(base, x)))
    for x in olds[:max(0, len(olds) - n + 1)]:
        shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


def build_engine():
    d = keep(V + '/build/engine', digest([V + '/engine']))
    exe = d + '/symex'
    if not os.path.exists(exe):
        run(['bash', V + '/engine/build.sh', d], V, what='engine build')
    return exe


def crate_dir(which):
    """harness sources and the code under test, by content"""
    return keep(V + '/build/' + which, digest([V + '/harness/src', V + '/harness/Cargo.toml', V + '/harness/Cargo.lock', V + '/harness/gen',
                                               REPO + '/src', REPO + '/Cargo.toml', REPO + '/update/src']))


def build_gen():
    """the generator's source with its std paths led to the harness's stand-ins"""
    src = open(REPO + '/update/src/main.rs').read()
    new = re.sub(r'(?<![\w:])(?:::)?std::', 'crate::generator::gstd::', src)
    new += '\npub fn __main() {\n    let r = main();\n    crate::generator::ended(crate::generator::Outcome::good(r));\n}\n'
    path = V + '/build/gen/update_main.rs'
    os.makedirs(V + '/build/gen', exist_ok=True)
    if not os.path.exists(path) or open(path).read() != new:
        open(path, 'w').write(new)


def features(gen):
    if gen:
        build_gen()
        return ['--features', 'gen']
    return []


def build_ir(gen=False):
    d = crate_dir('ir' + ('-gen' if gen else ''))
    out = d + '/program.ll'
    if not os.path.exists(out):
        env = dict(ENV, CARGO_TARGET_DIR=d)
        run(['cargo', 'rustc', '--offline', '--lib', '--release', *features(gen), '--crate-type', 'staticlib', '--', '--emit=llvm-ir',
             '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], V + '/harness', env=env, what='IR build')
        ll = [f for f in os.listdir(d + '/release/deps') if f.endswith('.ll') and f.startswith('hlib')]
        if len(ll) != 1:
            raise Broken('expected one IR module, found %s' % ll)
        os.rename(d + '/release/deps/' + ll[0], out)
    return out


def build_native(profile, gen=False):
    d = crate_dir('native-' + profile + ('-gen' if gen else ''))
    exe = d + '/' + ('debug' if profile == 'dev' else profile) + '/native'
    if not os.path.exists(exe):
        env = dict(ENV, CARGO_TARGET_DIR=d)
        run(['cargo', 'build', '--offline', '--bin', 'native', '--profile', profile, *features(gen)], V + '/harness', env=env, what='native build')
    return exe


def build_all(gen=False):
    if gen:
        build_gen()
    with cf.ThreadPoolExecutor(3) as ex:
        e, i, n = ex.submit(build_engine), ex.submit(build_ir, gen), ex.submit(build_native, 'dev', gen)
        return e.result(), i.result(), n.result()


# ---------------------------------------------------------------- native runs
def native_line(h, params, choices, hexs):
    return '%s P %s C %s V %s' % (h, ' '.join(map(str, params)), ' '.join(map(str, choices)), hexs)


def results(out):
    """the harness's lines, amid whatever the program prints"""
    for o in out.decode(errors='replace').split('\n'):
        if o.startswith('@@RESULT '):
            yield [x.strip() for x in o[9:].split('|')]


def native_one(exe, line, timeout=30):
    """-> (how, fails, obs, short)"""
    try:
        p = subprocess.run([exe], input=(line + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'HANG', [], [], ''
    a = next(results(p.stdout), None)
    if p.returncode != 0 or not a:
        return 'CRASH %d' % p.returncode, [], [], ''
    return a[0], [int(x) for x in a[1].split()], [int(x) for x in a[2].split()], a[3]


def native_many(exe, lines, timeout=120):
    p = subprocess.run([exe], input=('\n'.join(lines) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    r = []
    for a in results(p.stdout):
        r.append((a[0], [int(x) for x in a[1].split()], [int(x) for x in a[2].split()], a[3]))
    return r


def demangle(n):
    """identifiers of a v0-mangled name, enough to recognise the function"""
    out, i = [], 0
    while i < len(n):
        if n[i].isdigit():
            j = i
            while j < len(n) and n[j].isdigit():
                j += 1
            k = int(n[i:j])
            if j < len(n) and n[j] == '_':
                j += 1
            if 0 < k <= len(n) - j and re.match(r'[A-Za-z_]', n[j:j + 1] or ''):
                out.append(n[j:j + k])
                i = j + k
                continue
            i = j
        else:
            i += 1
    return '::'.join(out)


def shown(harness, params, choices, hexs):
    b = bytes.fromhex(hexs)
    return {'harness': harness, 'params': params, 'choices': choices, 'bytes': hexs, 'bytes_as_text': b.decode('utf-8', 'backslashreplace')}


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    path = V + '/known_findings.txt'
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) harness=(\S+) params=(\S*) choices=(\S*) bytes=(\S*) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


CPUS = os.cpu_count() or 8


def check(prop, tier):
    import jobs as J
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = J.PROPS[prop]
    pnum = int(prop[1:])
    gen = spec.get('gen', False)
    exe, ir, nat = build_all(gen)
    built = time.time() - t0
    todo = spec['quick'] + (spec.get('thorough', []) if tier == 'thorough' else [])
    budget = float(os.environ.get('VERIF_BUDGET', spec.get('budget', 780 if tier == 'quick' else 6 * 3600)))
    deadline = t0 + budget
    tot, covers, checks, funcs, jobsum, samples_all = {}, {}, {}, {}, [], []
    validated = mism = 0
    confirmed, unconfirmed, known_hit = [], [], []
    stuck, late = [], []
    known = known_findings(prop)
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/build/tmp', exist_ok=True)
    nrel = None
    cap = 240 if tier == 'quick' else 3600

    def engine(n):
        h, params = todo[n][0], [pnum] + list(todo[n][1])
        opt = todo[n][2] if len(todo[n]) > 2 else {}
        left = min(cap, deadline - time.time())
        if left < 5 or confirmed:
            return h, params, None
        out = V + '/build/tmp/out-%s-%d-%d.json' % (prop, os.getpid(), n)
        cmd = [exe, ir, '--harness', h, '--params', ','.join(map(str, params)), '--out', out, '--jobs', str(min(CPUS, 4)),
               '--time', '%.0f' % left, '--seed', str(seed), '--samples', '60', '--tmp', V + '/build/tmp',
               '--max-steps', str(opt.get('steps', 20000000))]
        p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        running.add(p)
        try:
            err = p.communicate(timeout=left + 15)[1]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return h, params, None
        finally:
            running.discard(p)
        try:
            r = json.load(open(out))
            os.unlink(out)
        except (OSError, ValueError):
            if not confirmed:
                stuck.append('engine died on %s %s: exit %s: %s' % (h, params, p.returncode, err.decode()[-2000:]))
            r = None
        return h, params, r

    running = set()
    pool = cf.ThreadPoolExecutor(max_workers=max(1, CPUS // 2))
    for done in [pool.submit(engine, n) for n in range(len(todo))]:
        h, params, r = done.result()
        if r is None:
            late.append([h, params[1:], 'not started'])
            continue
        viol = r['violations']
        for v in viol:
            if v['kind'] == 'check' and v['id'] // 100 != pnum:
                continue
            line = native_line(h, params, v['choices'], v['bytes'])
            key = (h, ','.join(map(str, params)), ','.join(map(str, v['choices'])), v['bytes'])
            how, fails, obs, short = native_one(nat, line)
            ok = (v['kind'] == 'check' and v['id'] in fails) or how.startswith(('PANIC', 'CRASH', 'HANG'))
            rel = None
            if not ok and v['kind'] in ('panic', 'memory', 'hang', 'check'):
                nrel = nrel or build_native('nrel', gen)
                rel = native_one(nrel, line)
                ok = (v['kind'] == 'check' and v['id'] in rel[1]) or rel[0].startswith(('PANIC', 'CRASH', 'HANG'))
            rec = dict(shown(h, params, v['choices'], v['bytes']), property=prop, kind=v['kind'], check=v['id'],
                       native=[how, fails], native_release=rel and [rel[0], rel[1]], stack=[demangle(x) for x in v['stack'].split('\n') if x], line=line)
            if any(k[1:5] == key for k in known):
                known_hit.append(rec)
            elif ok:
                confirmed.append(rec)
            else:
                unconfirmed.append(rec)
        if confirmed:
            pool.shutdown(wait=False, cancel_futures=True)
            for p in list(running):
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
            break
        if r['fatal']:
            stuck.append('engine could not decide %s %s: %s' % (h, params, r['fatal']))
        if r['incomplete']:
            late.append([h, params[1:], 'stopped after %d paths' % r['paths']])
        # the executor and the real binary must agree on sampled paths
        smp = r['samples']
        res = native_many(nat, [native_line(h, params, s['choices'], s['bytes']) for s in smp])
        if len(res) != len(smp):
            raise Broken('native run died on sampled paths of %s %s' % (h, params))
        for s, o in zip(smp, res):
            good = o[0] == 'DONE' and o[3] != 'SHORT' and o[2] == s['obs'] and not o[1]
            if good:
                validated += 1
            else:
                mism += 1
                if mism == 1:
                    first = (h, params, s, o)
        if mism:
            raise Broken('executor and native run disagree: %s' % (first,))
        for k, x in r.items():
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                tot[k] = tot.get(k, 0) + x
        for k, x in r['covers'].items():
            covers[int(k)] = covers.get(int(k), 0) + x
        for k, x in r['check_ids'].items():
            checks[int(k)] = checks.get(int(k), 0) + x
        for k, x in r['functions'].items():
            funcs[k] = funcs.get(k, 0) + x
        jobsum.append({'harness': h, 'params': params[1:], 'paths': r['paths'], 'checks': r['checks'], 'z3_queries': r['z3_queries'], 'wall_s': r['wall_s'], 'samples': len(smp)})
        for s in sorted(smp, key=lambda s: not s['obs'])[:max(1, 24 // max(1, len(todo)))]:
            samples_all.append(dict(shown(h, params, s['choices'], s['bytes']), observed=s['obs'][:20]))
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['bytes_as_text']))
    status = 0
    if confirmed:
        rec = confirmed[0]
        path = V + '/evidence/replay_%s.json' % prop
        json.dump(rec, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s check %s on %r choices %s -> native %s' % (rec['kind'], rec['check'], rec['bytes_as_text'], rec['choices'], rec['native']))
        status = 1
    elif unconfirmed:
        raise Broken('counterexample does not reproduce natively: %s' % json.dumps(unconfirmed[0])[:3000])
    else:
        missing = [c for c in spec.get('covers', []) if not covers.get(c)]
        missing_chk = [c for c in spec.get('checks', []) if not checks.get(pnum * 100 + c)]
        if stuck:
            raise Broken('; '.join(stuck)[:3000])
        if (missing or missing_chk) and not late:
            raise Broken('vacuous: cover points %s and assertions %s never reached' % (missing, missing_chk))
    mine = sorted(((demangle(k), x) for k, x in funcs.items() if 'cfg_expr' in k or 'generator3upd' in k), key=lambda a: -a[1])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed),
          'coverage': {
              'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('instructions', 0)),
              'traces_validated_against_impl': validated, 'samples': samples_all[:40],
              'exhaustive': status == 0 and not late, 'jobs_out_of_time': late,
              'explanation': 'states = symbolic paths run to their end; transitions = LLVM instructions executed symbolically; '
                             'every path stands for all inputs satisfying its path condition, and each assertion on it was decided for all of them',
              'bounds': spec['bounds'], 'jobs': jobsum,
              'assertions_evaluated': {str(k): x for k, x in sorted(checks.items())},
              'cover_points': {str(k): x for k, x in sorted(covers.items())},
              'solver': {k: tot.get(k, 0) for k in ('z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'z3_cache_hits', 'z3_certified_prunes', 'table_decisions', 'model_hits', 'checks_by_solver')},
              'solver_seconds': round(tot.get('z3_seconds', 0), 2), 'forks': int(tot.get('forks', 0)),
              'paths_assumed_away': int(tot.get('dropped', 0)),
              'functions_encoded': ['%s (x%d)' % m for m in mine[:60]], 'functions_encoded_total': len(funcs), 'build_s': round(built, 2)},
          'assumptions': J.ASSUME + spec.get('assume', [])}
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    for l in late:
        print('OUT-OF-TIME job=%s %s %s' % tuple(l))
    if status == 0:
        print('OK property=%s paths=%d assertions=%d z3_queries=%d validated=%d wall=%.1fs' % (prop, ev['coverage']['states'], sum(checks.values()), tot.get('z3_queries', 0), validated, ev['wall_s']))
    return status


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--setup']:
            build_all()
            build_all(True)
            print('built')
            return 0
        if a[:1] == ['--replay']:
            r = json.load(open(a[1]))
            for prof in ('dev', 'nrel'):
                print(prof, native_one(build_native(prof, r['harness'] in ('h_generate', 'h_update')), r['line']), r['bytes_as_text'])
            return 0
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return check(a[0], tier)
    except Broken as e:
        print('CHECK-ERROR', e)
        return 2
    except subprocess.TimeoutExpired as e:
        print('CHECK-ERROR timeout', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Makes harness/gen/rustc.rs: what the installed stable rustc prints with
--print cfg for each target the crate lists. Facts on which the listing of
rustc 1.86 (the version the table is for) is known to differ are left out; DRIFT
names them. Run once; the result is committed. Usage: snapshot.py OUT"""
import subprocess, re, sys, concurrent.futures as cf
# (target, field) whose value changed between rustc 1.86 and the installed rustc
DRIFT = {(t, 'env') for t in '''aarch64-apple-ios-macabi aarch64-apple-ios-sim aarch64-apple-tvos-sim aarch64-apple-visionos-sim
 aarch64-apple-watchos-sim i386-apple-ios x86_64-apple-ios x86_64-apple-ios-macabi x86_64-apple-tvos x86_64-apple-watchos-sim'''.split()}
DRIFT |= {(t, 'abi') for t in '''powerpc64-unknown-freebsd powerpc64-unknown-linux-gnu powerpc64-unknown-linux-musl powerpc64-unknown-openbsd
 powerpc64-wrs-vxworks powerpc64le-unknown-freebsd powerpc64le-unknown-linux-gnu powerpc64le-unknown-linux-musl'''.split()}
DRIFT |= {('mips64-openwrt-linux-musl', 'vendor'), ('x86_64-unknown-fuchsia', 'atomics')}
# targets of 1.86 the installed rustc no longer has: only their names are known
GONE = ['aarch64-unknown-nto-qnx800', 'avr-unknown-gnu-atmega328', 'i586-pc-nto-qnx700', 'i586-pc-windows-msvc', 'x86_64-pc-nto-qnx800']
src = open('/repo/src/targets/builtins.rs').read()
names = re.findall(r'triple: Triple::new_const\("(.*?)"\)', src)
def one(t):
    p = subprocess.run(['rustc', '+stable', '--print', 'cfg', '--target', t], capture_output=True, text=True)
    return t, (p.stdout if p.returncode == 0 else None)
with cf.ThreadPoolExecutor(8) as ex:
    got = dict(ex.map(one, names))
assert [t for t in names if got[t] is None] == GONE
q = lambda s: '"%s"' % s
out = ['// generated by tools/snapshot.py', 'use super::Fact;', 'pub const FACTS: &[Fact] = &[']
voc = {k: set() for k in 'os abi arch env vendor family panic'.split()}
for t in names:
    if got[t] is None:
        continue
    kv = {}
    for l in got[t].splitlines():
        m = re.match(r'(\w+)="(.*)"$', l)
        if m:
            kv.setdefault(m.group(1), []).append(m.group(2))
    g = lambda k: kv.get(k, [''])[0]
    f = dict(os=g('target_os'), abi=g('target_abi'), arch=g('target_arch'), env=g('target_env'), vendor=g('target_vendor'), panic=g('panic'))
    fam, at = sorted(kv.get('target_family', [])), kv.get('target_has_atomic', [])
    ints = sorted(int(a) for a in at if a not in ('ptr', ''))
    def s(k):
        if (t, k) in DRIFT:
            return 'None'
        voc[k].add(f[k])
        return 'Some(%s)' % q(f[k])
    voc['family'].update(fam)
    out.append('    Fact { triple: %s, os: %s, abi: %s, arch: %s, env: %s, vendor: %s, panic: %s, big: %s, width: %s, families: &[%s], atomics: %s },' % (
        q(t), s('os'), s('abi'), s('arch'), s('env'), s('vendor'), s('panic'), 'true' if g('target_endian') == 'big' else 'false', g('target_pointer_width'),
        ', '.join(map(q, fam)), 'None' if (t, 'atomics') in DRIFT else 'Some((&[%s], %s))' % (', '.join(map(str, ints)), 'true' if 'ptr' in at else 'false')))
out.append('];')
out.append('pub const GONE: &[&str] = &[%s];' % ', '.join(map(q, GONE)))
for k in sorted(voc):
    out.append('pub const %s: &[&str] = &[%s];' % (k.upper(), ', '.join(map(q, sorted(voc[k])))))
# constants of the crate's public interface and the value each is named after
tys = dict(os='Os', abi='Abi', arch='Arch', env='Env', vendor='Vendor', family='Family', panic='Panic')
out.append('use cfg_expr::targets as t;')
out.append('pub fn constants(f: &mut dyn FnMut(&str, &str)) {')
for k, ty in sorted(tys.items()):
    body = re.search(r'impl super::%s \{(.*?)\n\}' % ty, src, re.S).group(1)
    for ident in re.findall(r'pub const (\w+):', body):
        vals = [v for v in voc[k] if v.replace('-', '_') == ident] or [ident]
        assert len(vals) == 1
        out.append('    f(t::%s::%s.as_str(), %s);' % (ty, ident, q(vals[0])))
out.append('}')
open(sys.argv[1], 'w').write('\n'.join(out) + '\n')

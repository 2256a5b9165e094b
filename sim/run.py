#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs one check, a replay, or just the build.
usage: run.py --build [variant] | run.py --check ID [--tier quick|thorough] [--runs N] | run.py --replay FILE"""
import glob, hashlib, os, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('S2E_REPO', '/repo')
BUILD = os.environ.get('S2E_BUILD', os.path.join(VERIF, 'build'))
COMMON = ['-DUSE_C2A_COMMAND_SENDER', '-DCORE_DIR_FROM_EXE=\\"core_dir\\"', '-DEXT_LIB_DIR_FROM_EXE=\\"ext_dir\\"',
          '-DSETTINGS_DIR_FROM_EXE=\\"settings\\"', '-DSIM_SETTINGS=\\"%s/settings\\"' % HERE, '-pipe', '-w', '-fno-omit-frame-pointer']
VARIANTS = {
    'asan': ['-O1', '-g1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-DUSE_C2A', '-I%s/c2a' % HERE],
    'plain': ['-O1', '-g1'],
    'hils': ['-O1', '-g1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-DUSE_HILS', '-DHILS_SIM'],
}
# which build each property runs on (default: asan)
PLAIN = set(open(os.path.join(HERE, 'plain.txt')).read().split()) if os.path.exists(os.path.join(HERE, 'plain.txt')) else set()
HILS = set(open(os.path.join(HERE, 'hils.txt')).read().split()) if os.path.exists(os.path.join(HERE, 'hils.txt')) else set()


def mirror():
    """Content-based copy of /repo's working tree: files are rewritten only when their content differs, so that the
    incremental build follows what the code says and not file times."""
    dst = os.path.join(BUILD, 'tree')
    os.makedirs(dst, exist_ok=True)
    lock = open(os.path.join(BUILD, '.mirror.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    want = {}
    for top in ('src', 'ExtLibraries/inih'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.rsplit('.', 1)[-1] in ('cpp', 'hpp', 'h', 'c', 'cc', 'hh', 'inl', 'inc') or '.' not in f:
                    q = os.path.join(d, f)
                    want[os.path.relpath(q, REPO)] = open(q, 'rb').read()
    for d, _, fs in os.walk(dst):
        for f in fs:
            q = os.path.join(d, f)
            if os.path.relpath(q, dst) not in want:
                os.remove(q)
    for rel, data in want.items():
        q = os.path.join(dst, rel)
        if not os.path.exists(q) or open(q, 'rb').read() != data:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'wb').write(data)
    return dst


TREE = None


def sources(variant):
    global TREE
    if TREE is None:
        TREE = mirror()
    REPO = TREE
    repo = [s for s in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
            if not os.path.basename(s).startswith('test_') and os.path.basename(s) not in ('hils_uart_port.cpp', 'com_port_interface.cpp')]
    if variant != 'hils':
        repo = [s for s in repo if os.path.basename(s) != 'hils_i2c_target_port.cpp']
    repo += sorted(glob.glob(REPO + '/ExtLibraries/inih/*.c') + glob.glob(REPO + '/ExtLibraries/inih/cpp/*.cpp'))
    mine = sorted(glob.glob(HERE + '/core/*.cpp') + glob.glob(HERE + '/stubs/*.cpp') + glob.glob(HERE + '/world/*.cpp'))
    props = sorted(glob.glob(HERE + '/props/*.cpp'))
    props = [f for f in props if any(variant_of(i) == variant for i in os.path.basename(f)[:-4].split('_'))]
    return repo, mine, props


def prop_file(pid, variant):   # props/T01_T02_T03.cpp holds the properties in its name
    for f in sources(variant)[2]:
        if pid in os.path.basename(f)[:-4].split('_'):
            return f
    sys.stderr.write('no harness for %s\n' % pid)
    sys.exit(2)


def build(variant, pids=None):
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    repo, mine, props = sources(variant)
    if pids is not None:
        props = sorted({prop_file(p, variant) for p in pids})
    flags = ' '.join(COMMON + VARIANTS[variant])
    extra = ' -include %s/hils/hils_uart_port_sim.hpp' % HERE if variant == 'hils' else ''
    inc = '-I%s/src -I%s/ExtLibraries -I%s/ExtLibraries/inih -I%s/stubs -I%s -I%s/core' % (TREE, TREE, TREE, HERE, HERE, HERE)
    L = ['ninja_required_version = 1.3', 'flags = ' + flags, 'inc = ' + inc,
         'rule cxx', '  command = g++ -std=c++17 $flags%s $inc -MMD -MF $out.d -c $in -o $out' % extra, '  depfile = $out.d', '  deps = gcc',
         'rule cc', '  command = gcc $flags $inc -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule ar', '  command = rm -f %s/$out && ar rcs $out @$out.rsp' % out, '  rspfile = $out.rsp', '  rspfile_content = $in',
         'rule link', '  command = g++ $flags -rdynamic -o $out @$out.rsp -ldl', '  rspfile = $out.rsp', '  rspfile_content = $in $libs']
    def obj(s):
        return 'o/' + hashlib.sha1(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s) + '.o'
    ro, mo = [], []
    for s in props + mine + repo:
        o = obj(s)
        if s in mine: mo.append(o)
        elif s in repo: ro.append(o)
        L.append('build %s: %s %s' % (o, 'cc' if s.endswith('.c') else 'cxx', s.replace(' ', '$ ')))
    L.append('build librepo.a: ar ' + ' '.join(ro))
    exes = []
    for s in props:
        exe = 's2esim_' + os.path.basename(s)[:-4]
        exes.append(exe)
        L.append('build %s: link %s %s | librepo.a' % (exe, obj(s), ' '.join(mo)))
        L.append('  libs = librepo.a')
    L.append('default ' + ' '.join(exes))
    text = '\n'.join(L) + '\n'
    p = os.path.join(out, 'build.ninja' if pids is None else 'build_%s.ninja' % '_'.join(sorted(pids)))
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    env = dict(os.environ, CCACHE_DISABLE='1')
    r = subprocess.run(['ninja', '-C', out, '-f', os.path.basename(p), '-j', str(os.cpu_count() or 4)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        sys.stderr.write('\n'.join(l for l in r.stdout.splitlines() if not l.startswith('[') and not l.startswith('g++') and not l.startswith('gcc'))[:5000])
        sys.stderr.write('\nbuild failed\n')
        sys.exit(2)
    return [os.path.join(out, e) for e in exes]


def variant_of(pid):
    return 'plain' if pid in PLAIN else 'hils' if pid in HILS else 'asan'


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        for v in (a[1:] or sorted({"asan"} | ({"plain"} if PLAIN else set()) | ({'hils'} if HILS else set()))):
            build(v)
        return 0
    if a and a[0] == '--replay':
        pid = [l.split()[1] for l in open(a[1]) if l.startswith('property ')][0]
        exe = build(variant_of(pid), [pid])[0]
        return subprocess.run([exe, '--replay', os.path.abspath(a[1])]).returncode
    if a and a[0] == '--check':
        pid = a[1]
        tier = os.environ.get('VERIF_TIER', 'quick')
        rest = a[2:]
        if '--tier' in rest:
            i = rest.index('--tier'); tier = rest[i + 1]; del rest[i:i + 2]
        seed = os.environ.get('VERIF_SEED', '1')
        exe = build(variant_of(pid), [pid])[0]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        return subprocess.run([exe, '--check', pid, '--tier', tier, '--seed', seed, '--replay-dir', os.path.join(VERIF, 'replays'),
                               '--known', os.path.join(VERIF, 'known_findings.txt'),
                               '--evidence', os.path.join(VERIF, 'evidence', pid + '.json')] + rest).returncode
    if a and a[0] == '--exec':   # --exec ID args...: pass-through for debugging
        exe = build(variant_of(a[1]), [a[1]])[0]
        return subprocess.run([exe, '--check', a[1]] + a[2:]).returncode
    print(__doc__)
    return 2


sys.exit(main())

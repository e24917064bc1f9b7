#!/usr/bin/env python3
"""Content-hash incremental build of the simulator from /repo's working tree.

build(variant) returns the path of the executable. Objects are keyed by the
hash of the command line and of the contents of every non-system file the
compiler read, so modification times do not matter and nothing outside
/verif/build is written.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MLIO_REPO', '/repo')
BUILD = os.environ.get('MLIO_SIM_BUILD', os.path.join(VERIF, 'build'))
COMPAT = '/opt/vp/compat'
INSIGHTS = os.path.join(REPO, 'src/mlio-py/mlio/contrib/insights')
JOBS = os.cpu_count() or 4

_sha = {}
def sha(path):
    if path not in _sha:
        try:
            with open(path, 'rb') as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = None
    return _sha[path]

def write_if_changed(path, data):
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)

class Build_error(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise Build_error(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace'))
    return r.stdout

def generate():
    """natsort (copy + patch) and the protobuf sources."""
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(gen, exist_ok=True)
    nat_src = os.path.join(REPO, 'third-party/natsort')
    files = sorted(os.listdir(nat_src))
    key = hashlib.sha256(json.dumps([(f, sha(os.path.join(nat_src, f))) for f in files]).encode()).hexdigest()
    stamp = os.path.join(gen, 'natsort.key')
    nat = os.path.join(gen, 'natsort')
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        tmp = os.path.join(gen, 'natsort.tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(nat_src, tmp)
        run(['sh', '-c', 'patch -s < strnatcmp.h.patch'], cwd=tmp)
        shutil.rmtree(nat, ignore_errors=True)
        os.rename(tmp, nat)
        with open(stamp, 'w') as f:
            f.write(key)
    protos = glob.glob(os.path.join(REPO, 'src/mlio/detail/protobuf/*.proto'))
    key = hashlib.sha256(json.dumps([(p, sha(p)) for p in sorted(protos)]).encode()).hexdigest()
    stamp = os.path.join(gen, 'proto.key')
    out = os.path.join(gen, 'src/mlio/detail/protobuf')
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        os.makedirs(out, exist_ok=True)
        for p in protos:
            run(['protoc', '--proto_path=' + os.path.dirname(p), '--cpp_out=' + out, p])
        with open(stamp, 'w') as f:
            f.write(key)
    # Protobuf seeds its hash maps with their address; their order has to be
    # a function of the seed of the run alone.
    src = '/usr/include/google/protobuf/map.h'
    if os.path.exists(src):
        with open(src) as f:
            text = f.read()
        fixed = 'extern "C" unsigned long sim_map_seed;\n' + text.replace('size_type s = reinterpret_cast<uintptr_t>(this) >> 4;', 'size_type s = ::sim_map_seed;')
        write_if_changed(os.path.join(gen, 'fixed/google/protobuf/map.h'), fixed.encode())
    return gen

def lib_sources():
    s = []
    for root, _, files in os.walk(os.path.join(REPO, 'src/mlio')):
        for f in files:
            if f.endswith('.cc'):
                s.append(os.path.join(root, f))
    return sorted(s)

VARIANTS = {
    # 'py' is 'asan' with the Python bindings and an embedded interpreter.
    'asan': dict(flags=['-fsanitize=address', '-fno-omit-frame-pointer', '-O1'], link=['-fsanitize=address'], rt='norace.cc'),
    'race': dict(flags=['-O1'], link=[], rt='race.cc'),
}
# Code under test in the race variant calls the __tsan_* runtime of race.cc.
RACE_INSTR = ['-fsanitize=thread', '--param=tsan-distinguish-volatile=0']

PY_CORE = os.path.join(REPO, 'src/mlio-py/mlio/core')
PY_INCLUDE = '/usr/include/python%d.%d' % sys.version_info[:2]
PY_LIB = 'python%d.%d' % sys.version_info[:2]

def commands(variant):
    """(source, command, directory of the object) of every object."""
    if variant == 'py':
        gen = generate()
        out = [c for c in commands('asan') if not c[0].startswith(INSIGHTS) and
               (os.path.dirname(c[0]) != VERIF + '/sim/work' or os.path.basename(c[0]) in ('common.cc', 'records.cc'))]
        base = base_command('asan', gen) + ['-fvisibility=hidden', '-isystem', PY_INCLUDE, '-I' + VERIF + '/sim']
        for s in sorted(glob.glob(PY_CORE + '/*.cc')) + sorted(glob.glob(VERIF + '/sim/workpy/*.cc')):
            more = ['-DMLIO_PY_INTEG="%s/src/mlio-py/mlio/integ"' % REPO] if s.endswith('/workpy/py.cc') else []
            out.append((s, base + ['-I' + PY_CORE] + more, os.path.join(BUILD, 'py')))
        return out
    return [(s, c, os.path.join(BUILD, variant)) for s, c in commands_of(variant)]

def base_command(variant, gen):
    v = VARIANTS[variant]
    return ['g++', '-std=c++17', '-g1', '-DNDEBUG', '-DFMT_SHARED', '-DMLIO_BUILD_IMAGE_READER', '-DMLIO_BUILD_S3', '-DMLIO_COMPILE_LIB',
            '-D_GLIBCXX_ASSERTIONS', '-DMLIO_SIM', '-I' + REPO + '/include', '-I' + REPO + '/src',
            '-isystem', gen + '/fixed', '-isystem', gen + '/src', '-isystem', gen + '/natsort', '-isystem', '/usr/include/opencv4',
            '-isystem', COMPAT + '/include', '-DFMT_DEPRECATED_OSTREAM', '-DGOOGLE_PROTOBUF_NO_RDTSC', '-isystem', VERIF + '/sim/aws', '-w'] + v['flags']

def commands_of(variant):
    v = VARIANTS[variant]
    gen = generate()
    common = base_command(variant, gen)
    instr = RACE_INSTR if variant == 'race' else []
    out = []
    for s in lib_sources():
        out.append((s, common + instr + ['-fvisibility=hidden']))
    # The insights module, with a stand-in for pybind11.
    for s in sorted(glob.glob(INSIGHTS + '/*.cc') + glob.glob(INSIGHTS + '/hll/*.cc')):
        out.append((s, common + instr + ['-fvisibility=hidden', '-isystem', VERIF + '/sim/pybind', '-isystem', INSIGHTS + '/hll']))
    for s in sorted(glob.glob(gen + '/src/mlio/detail/protobuf/*.pb.cc')):
        out.append((s, common + instr + ['-fvisibility=hidden']))
    for s in sorted(glob.glob(gen + '/natsort/*.c')):
        out.append((s, ['gcc', '-g1', '-O1', '-w'] + [f for f in v['flags'] if f.startswith('-fsan')]))
    out.append((COMPAT + '/absl_string_view.cc', ['g++', '-std=c++17', '-O1', '-w'] + v['flags']))
    rt = os.path.join(VERIF, 'sim/rt')
    for f in ('sched.cc', 'fs.cc', 's3.cc', 'main.cc', v['rt']):
        out.append((os.path.join(rt, f), common + ['-fno-threadsafe-statics', '-I' + VERIF + '/sim']))
    out.append((os.path.join(rt, 'tbb_stub.cc'), common + ['-fno-threadsafe-statics', '-fvisibility=hidden', '-I' + VERIF + '/sim']))
    for s in sorted(glob.glob(os.path.join(VERIF, 'sim/work/*.cc'))):
        more = ['-isystem', VERIF + '/sim/pybind', '-isystem', INSIGHTS + '/hll', '-I' + INSIGHTS] if s.endswith('/c26.cc') else []
        out.append((s, common + instr + ['-fvisibility=hidden', '-I' + VERIF + '/sim'] + more))
    return out

def obj_name(src):
    return hashlib.sha256(src.encode()).hexdigest()[:8] + '_' + os.path.basename(src) + '.o'

def parse_dep(path):
    with open(path) as f:
        t = f.read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    deps = []
    for d in t.split():
        if d.startswith('/usr/'):
            continue
        deps.append(os.path.normpath(d))
    return deps

POST = 'objcopy 3'  # changes with what is done to the objects below

def compile_one(args):
    src, cmd, odir = args
    o = os.path.join(odir, obj_name(src))
    meta = o + '.json'
    full = cmd + ['-c', src, '-o', o, '-MD', '-MF', o + '.d']
    try:
        with open(meta) as f:
            m = json.load(f)
        if m['cmd'] == full + [POST] and os.path.exists(o) and all(sha(p) == h for p, h in m['deps'].items()):
            return o, False, m['key']
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(meta):
        os.unlink(meta)
    run(full)
    if src.startswith(REPO + '/'):
        run(['objcopy', '--redefine-sym=realloc=mlio_sim_realloc', '--redefine-sym=free=mlio_sim_free', o])
    if '-fsanitize=thread' in full:
        run(['objcopy'] + ['--redefine-sym=%s=mlio_race_%s' % (f, f) for f in ('memcpy', 'memmove', 'memset')] + [o])
    deps = {d: sha(d) for d in parse_dep(o + '.d')}
    with open(o, 'rb') as f:
        key = hashlib.sha256(f.read()).hexdigest()
    with open(meta + '.tmp', 'w') as f:
        json.dump(dict(cmd=full + [POST], deps=deps, key=key), f)
    os.rename(meta + '.tmp', meta)
    return o, True, key

def own_templates(objs, odir):
    """Join the runtime's objects and keep their instances of inline and
    template functions to themselves: they are not instrumented, and the code
    under test must not be linked to them (nor the runtime to instrumented
    ones)."""
    names = {obj_name(os.path.join(VERIF, 'sim/rt', f)) for f in ('sched.cc', 'fs.cc', 's3.cc', 'main.cc', 'race.cc', 'tbb_stub.cc')}
    mine = [o for o in objs if os.path.basename(o) in names]
    joined = os.path.join(odir, 'rt_joined.o')
    run(['ld', '-r', '--force-group-allocation', '-o', joined] + mine)
    r = subprocess.run(['nm', joined], capture_output=True, text=True, check=True)
    for ext, kinds in (('.fn', 'W'), ('.obj', 'Vu')):
        with open(joined + ext, 'w') as f:
            for l in r.stdout.split('\n'):
                w = l.split()
                if len(w) == 3 and w[1] in kinds:
                    f.write(w[2] + '\n')
    run(['objcopy', '--localize-symbols=' + joined + '.fn', '--weaken-symbols=' + joined + '.obj', joined])
    return [o for o in objs if o not in mine] + [joined]

def build(variant, log=lambda s: None):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _sha.clear()
        odir = os.path.join(BUILD, variant)
        os.makedirs(odir, exist_ok=True)
        cmds = commands(variant)
        # longest first is roughly the workloads and the readers
        cmds.sort(key=lambda c: -os.path.getsize(c[0]))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for d in {c[2] for c in cmds}:
                os.makedirs(d, exist_ok=True)
            res = list(ex.map(compile_one, cmds))
        objs = sorted(r[0] for r in res)
        if variant == 'race':
            objs = own_templates(objs, odir)
        exe = os.path.join(odir, 'sim')
        link = (['g++'] + VARIANTS['asan' if variant == 'py' else variant]['link'] + objs +
                ['-o', exe, '-lprotobuf', '-lopencv_imgcodecs', '-lopencv_imgproc', '-lopencv_core', '-lz', '-lfmt',
                 '-labsl_strings', '-lpthread', '-ldl'] + (['-l' + PY_LIB] if variant == 'py' else []))
        key = hashlib.sha256(json.dumps([link, sorted((r[0], r[2]) for r in res)]).encode()).hexdigest()
        kf = exe + '.key'
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
            if os.path.exists(kf):
                os.unlink(kf)
            run(link)
            with open(kf, 'w') as f:
                f.write(key)
        log('%s: %d of %d objects compiled' % (variant, sum(1 for r in res if r[1]), len(res)))
        return exe, key

if __name__ == '__main__':
    import time
    for v in (sys.argv[1:] or ['asan', 'race', 'py']):
        t = time.time()
        try:
            exe, _ = build(v, print)
        except Build_error as e:
            print(str(e)[-8000:])
            sys.exit(2)
        print(exe, '%.1fs' % (time.time() - t))

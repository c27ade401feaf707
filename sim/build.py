"""Builds simulator binaries from /repo's working tree plus /verif/sim."""
import concurrent.futures, glob, hashlib, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
ABSL_A = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))

SYMBOLIZE = ['util/symbolize/' + f for f in
             ['bytereader.cc', 'dwarf2reader.cc', 'dwarf3ranges.cc', 'elf_reader.cc', 'functioninfo.cc',
              'addr2line_inlinestack.cc', 'index_helper.cc']]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')


_headers = {}


def header_hash(*roots):
    key = roots
    if key in _headers:
        return _headers[key]
    parts = []
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('.git', '_build', 'testdata'))
            for f in sorted(files):
                if f.endswith(('.h', '.proto', '.inc', '.def', '.sh')):
                    p = os.path.join(d, f)
                    parts.append(os.path.relpath(p, root))
                    parts.append(read(p))
    _headers[key] = sha(*parts)
    return _headers[key]


def prepare(llvm=False):
    """The patched dependency headers and generated protobufs."""
    os.makedirs(BUILD + '/cache', exist_ok=True)
    absl = BUILD + '/absl'
    if not os.path.isdir(absl + '/absl') or not os.path.exists(absl + '/.ok'):
        run(['bash', HERE + '/make_absl_tree.sh', absl], 'absl tree')
        open(absl + '/.ok', 'w').close()
    if llvm and not os.path.isdir(BUILD + '/llvmo'):
        run(['bash', HERE + '/make_llvm_overlay.sh', BUILD + '/llvmo'], 'llvm overlay')
    protos = [(HERE + '/shim/quipper', 'perf_data.proto'), (REPO, 'llvm_propeller_cfg.proto'),
              (REPO, 'llvm_propeller_options.proto')]
    protos = [(d, f) for d, f in protos if os.path.exists(d + '/' + f)]
    pb = BUILD + '/pb-' + sha(*[read(d + '/' + f) for d, f in protos])
    if not os.path.isdir(pb):
        os.makedirs(pb + '.tmp', exist_ok=True)
        for d, f in protos:
            run(['protoc', '-I', d, '--cpp_out=' + pb + '.tmp', d + '/' + f], 'protoc')
        if not os.path.isdir(pb):
            os.rename(pb + '.tmp', pb)
    return pb


def compile_all(jobs, nproc=None):
    """jobs: list of (source path, flags, compiler). Returns the objects."""
    hh = header_hash(REPO, HERE)
    outs, todo = [], {}
    for src, flags, cxx in jobs:
        if not os.path.exists(src):
            raise BuildError('missing source ' + src)
        key = sha(hh, read(src), src, ' '.join(flags), cxx)
        o = BUILD + '/cache/' + key + '.o'
        outs.append(o)
        if not os.path.exists(o):
            todo[o] = [cxx] + flags + ['-c', src, '-o', o + '.tmp%d' % os.getpid()]

    def one(item):
        o, cmd = item
        run(cmd, 'compile')
        os.rename(o + '.tmp%d' % os.getpid(), o)
    # Biggest first.
    items = sorted(todo.items(), key=lambda kv: -os.path.getsize(kv[1][-3]))
    with concurrent.futures.ThreadPoolExecutor(nproc or os.cpu_count()) as ex:
        list(ex.map(one, items))
    return outs


def flags_for(flavour, pb):
    f = ['-std=gnu++17', '-O1', '-U_FORTIFY_SOURCE', '-include', HERE + '/shim/sim_prelude.h', '-w',
         '-I' + HERE + '/shim', '-I' + HERE + '/shim/quipper', '-I' + HERE + '/scen', '-I' + BUILD + '/absl',
         '-I' + REPO, '-I' + REPO + '/util', '-I' + pb]
    if flavour == 'L':
        f += ['-DHAVE_LLVM=1', '-I' + BUILD + '/llvmo', '-isystem', '/usr/lib/llvm-20/include']
    return f


def build_target(name, t):
    llvm = t['flavour'] == 'L'
    pb = prepare(llvm)
    fl = flags_for(t['flavour'], pb)
    jobs = []
    for s in t['repo']:
        jobs.append((REPO + '/' + s, fl + t.get('repo_flags', {}).get(s, []), t.get('repo_cxx', {}).get(s, 'g++')))
    for s, m in t.get('mains', {}).items():
        jobs.append((REPO + '/' + s, fl + ['-Dmain=' + m], 'g++'))
    for s in t['scen']:
        jobs.append((HERE + '/scen/' + s, fl + t.get('scen_flags', []), 'g++'))
    for s in ['sim.cc', 'io.cc'] + t.get('core', []):
        jobs.append((HERE + '/core/' + s, ['-std=gnu++17', '-O1', '-U_FORTIFY_SOURCE', '-w', '-fno-builtin'] + t.get('core_flags', []), 'g++'))
    if t.get('quipper'):
        jobs.append((HERE + '/shim/quipper/quipper.cc', fl, 'g++'))
        jobs.append((pb + '/perf_data.pb.cc', fl, 'g++'))
    for p in t.get('pb', []):
        jobs.append((pb + '/' + p, fl, 'g++'))
    objs = compile_all(jobs)
    key = sha(*([o for o in objs] + t.get('libs', []) + [name]))
    exe = BUILD + '/cache/' + name + '-' + key
    if not os.path.exists(exe):
        libs = ['-Wl,--start-group'] + ABSL_A + ['-Wl,--end-group']
        if t.get('quipper') or t.get('pb'):
            libs += ['-lprotobuf']
        if llvm:
            libs += ['/usr/lib/llvm-20/lib/libLLVM.so', '-Wl,-rpath,/usr/lib/llvm-20/lib']
        libs += t.get('libs', []) + ['-lelf', '-lcrypto', '-lz', '-lpthread', '-ldl']
        tmp = exe + '.tmp%d' % os.getpid()
        run(['g++', '-o', tmp, '-Wl,-O0', '-rdynamic'] + objs + libs, 'link ' + name)
        os.rename(tmp, exe)
    return exe

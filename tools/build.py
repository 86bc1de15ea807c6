"""Compiles /repo's current sources to LLVM IR in a scratch directory (nothing is run), one module per configuration."""
import os, subprocess, tempfile, shutil, re, atexit, concurrent.futures as cf
import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
LINK = '/usr/bin/llvm-link-18'
OPT = '/usr/bin/opt-18'
ENV = dict(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8', HOME='/root')

class CheckError(Exception):
    """the check cannot answer (not a violation)"""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='cryverif.')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

CURVES = ['SECP192R1', 'SECP224R1', 'SECP256R1', 'SECP384R1', 'SECP521R1', 'SECP192K1', 'SECP224K1', 'SECP256K1',
          'BP256R1', 'BP384R1', 'BP512R1']
CURVE_DEFS = ['CRY_ECP_GRP_%s_ENABLE' % c for c in CURVES]

class Config:
    def __init__(self, name, defs, digit=8, extra=()):
        self.name = name
        self.defs = list(defs)
        self.digit = digit        # digit bytes, forced through CRY_MPI_DIGIT_MAX when not 8
        self.extra = list(extra)
    def cppflags(self):
        f = []
        if self.digit != 8 and 'CRY_MPI_DEBUG_CONF' not in self.defs:
            f.append('-DCRY_MPI_DIGIT_MAX=%s' % {1: '255UL', 2: '65535UL', 4: '4294967295UL'}[self.digit])
        return f + self.extra

BASE = ['CRY_DEBUG', 'CRY_MPI_INV_EUCLID', 'CRY_MPI_MUL_COMBA', 'CRY_MPI_MUL_KARATSUBA', 'CRY_MPI_MUL_TOOM3',
        'CRY_ECP_MUL_WIN', 'CRY_ECP_MUL_SLIDING_WIN'] + CURVE_DEFS
def without(*x): return [d for d in BASE if d not in x]

def repo_config():
    """the configuration of config/config.mk as it is now in the tree"""
    defs = []
    p = os.path.join(REPO, 'config/config.mk')
    for l in open(p):
        m = re.match(r'\s*(CRY_\w+)\s*=\s*y\s*$', l)
        if m: defs.append(m.group(1))
    return defs

CONFIGS = {
    'default': Config('default', BASE),
    # the other arm of every documented algorithm switch
    'alt': Config('alt', without('CRY_MPI_INV_EUCLID', 'CRY_MPI_MUL_COMBA', 'CRY_MPI_MUL_KARATSUBA', 'CRY_MPI_MUL_TOOM3',
                                 'CRY_ECP_MUL_WIN', 'CRY_ECP_MUL_SLIDING_WIN') + ['CRY_MPI_DIV_SMALL']),
    'win': Config('win', without('CRY_ECP_MUL_SLIDING_WIN', 'CRY_MPI_MUL_TOOM3')),
}

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.c'): out.append(os.path.join(d, f))
    return sorted(out)

def include_dir(cfg):
    d = os.path.join(scratch(), 'inc-' + cfg.name)
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(REPO, 'include'), d)
        with open(os.path.join(d, 'cry', 'config.h'), 'w') as f:
            for x in cfg.defs: f.write('#define %s\n' % x)
    return d

def compile_ir(cfg, src, flags=()):
    o = os.path.join(scratch(), 'ir-' + cfg.name, os.path.relpath(src, REPO).replace('/', '_') + '.ll')
    os.makedirs(os.path.dirname(o), exist_ok=True)
    cmd = [CLANG, '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-S', '-w', '-I' + include_dir(cfg),
           '-I' + os.path.join(REPO, 'src')] + cfg.cppflags() + list(flags) + [src, '-o', o]
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
    return o, r

_mods = {}
def module(cfg_name='default', cfg=None):
    if cfg_name in _mods: return _mods[cfg_name]
    cfg = cfg or CONFIGS[cfg_name]
    include_dir(cfg)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_ir(cfg, s), sources()))
    objs = []
    for o, r in res:
        if r.returncode != 0:
            raise CheckError('configuration %s does not compile:\n%s' % (cfg.name, r.stderr[:2000]))
        objs.append(o)
    a = os.path.join(scratch(), 'all-%s.ll' % cfg.name)
    r = subprocess.run([LINK, '-S'] + objs + ['-o', a], env=ENV, capture_output=True, text=True)
    if r.returncode: raise CheckError('llvm-link: ' + r.stderr[:1000])
    b = os.path.join(scratch(), 'mem-%s.ll' % cfg.name)
    r = subprocess.run([OPT, '-S', '-passes=mem2reg', a, '-o', b], env=ENV, capture_output=True, text=True)
    if r.returncode: raise CheckError('opt: ' + r.stderr[:1000])
    m = ir.Module(open(b, encoding='latin1').read())
    m.cfg = cfg
    _mods[cfg_name] = m
    return m

def module_with(text, cfg_name='default'):
    """the library linked with a C harness (calls to the analysis hooks v_* stay declarations)"""
    m = module(cfg_name); cfg = m.cfg
    d = os.path.join(scratch(), 'harness'); os.makedirs(d, exist_ok=True)
    k = len(os.listdir(d))
    c = os.path.join(d, 'h%d.c' % k)
    with open(c, 'w') as f: f.write(text)
    for extra in ([], ['-DV_NOFIELDS']):      # parts of a harness that name context fields are left out when these are gone
        r = subprocess.run([CLANG, '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-S', '-w', '-I' + include_dir(cfg),
                            '-I' + os.path.join(REPO, 'src')] + extra + [c, '-o', c + '.ll'], env=ENV, capture_output=True, text=True)
        if r.returncode == 0: break
    if r.returncode: raise CheckError('harness does not compile against the current headers:\n' + r.stderr[:2000])
    a = os.path.join(scratch(), 'all-%s.ll' % cfg.name)
    for cmd in ([LINK, '-S', a, c + '.ll', '-o', c + '.all.ll'], [OPT, '-S', '-passes=mem2reg', c + '.all.ll', '-o', c + '.mem.ll']):
        r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
        if r.returncode: raise CheckError('harness link: ' + r.stderr[:1000])
    m2 = ir.Module(open(c + '.mem.ll', encoding='latin1').read())
    m2.cfg = cfg
    return m2

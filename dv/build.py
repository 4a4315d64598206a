"""/repo's current sources -> normalised LLVM IR, on every run.

What is dropped: nothing of the function bodies.  clang's own front end
compiles the real file; `opt` then only (1) inlines functions that have no
contract of their own, (2) promotes non-address-taken locals to SSA, (3)
simplifies the CFG and removes trivially redundant instructions."""
import hashlib, os, re, subprocess, sys, tempfile

REPO = os.environ.get('GGGGC_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
CLANGXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout

BASE = ['-D_XOPEN_SOURCE=600', '-I' + REPO]

def raw_ir(src, flags=(), cxx=False, tmp=None):
    out = os.path.join(tmp, hashlib.sha1(repr((src, tuple(flags), cxx)).encode()).hexdigest()[:12] + '.ll')
    cmd = [CLANGXX if cxx else CLANG, '-std=gnu++17' if cxx else '-std=gnu11', '-w'] + BASE + list(flags) + [
        '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-stack-protector',
        '-fno-exceptions', '-S', '-emit-llvm', src, '-o', out]
    run(cmd)
    if cxx:
        # the thread-local variables are defined in C and have no dynamic
        # initialisers, whose weak references are therefore null
        t = open(out).read()
        open(out, 'w').write(re.sub(r'br i1 icmp ne \(ptr @_ZTH\w+, ptr null\),', 'br i1 false,', t))
    return out

PASSES = 'always-inline,globaldce,function(sroa,simplifycfg,instsimplify,early-cse,simplifycfg,loop-simplify)'

def normalise(path, keep):
    """keep: names (without @) of functions that must stay out of line because
    they have a contract, or are analysed by themselves"""
    text = open(path).read()
    # per-function attributes: give functions with contracts noinline, others alwaysinline
    groups = dict(re.findall(r'^attributes #(\d+) = \{(.*)\}$', text, re.M))
    extra = {}
    mx = max([int(k) for k in groups] or [0]) + 1
    newgroups = []
    def sub(mo):
        nonlocal mx
        head, name, rest, grp, tail = mo.group(1), mo.group(2), mo.group(3), mo.group(4), mo.group(5)
        want = 'noinline' if name.strip('"') in keep else 'alwaysinline'
        key = (grp, want)
        if key not in extra:
            body = groups.get(grp, '')
            body = re.sub(r'\b(noinline|alwaysinline|inlinehint|optnone)\b', '', body)
            extra[key] = mx
            newgroups.append('attributes #%d = { %s %s}' % (mx, want, body))
            mx += 1
        return '%s@%s(%s#%d%s' % (head, name, rest, extra[key], tail)
    # linkage: keep everything
    text = re.sub(r'^(define [^@]*)@("[^"]*"|[-a-zA-Z$._0-9]+)\((.*)#(\d+)(.*)$', sub, text, flags=re.M)
    # static functions that are kept must not be removed
    text = re.sub(r'^define internal ', 'define dso_local ', text, flags=re.M)
    text += '\n' + '\n'.join(newgroups) + '\n'
    p2 = path[:-3] + '.n.ll'
    open(p2, 'w').write(text)
    return run([OPT, '-passes=' + PASSES, '-S', p2, '-o', '-'])

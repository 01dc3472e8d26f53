"""Build step: harness TU (which #includes /repo/strtk.hpp) -> simplified LLVM IR.

The only transformations are: clang's own code generation (-O1 semantics, no LLVM
passes), exceptions ignored (a throw stays a call to __cxa_throw), then LLVM's
always-inline / SROA / early-cse / simplifycfg / instsimplify.  strtk:: functions are
forced inline into the harness wrapper; the std:: members that have a trusted
contract (engine/models.py) are forced noinline.
"""
import re, subprocess, os, hashlib, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
OPT = 'opt-18'
# mangled-name prefixes kept out of line (trusted contracts by name)
NOINLINE = [
    r'_ZNS?K?t7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE',  # std::string members
    r'_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE',
    r'_ZStplIcSt11char_traitsIcESaIcEE',   # operator+(string,..)
    r'_ZSteqIc', r'_ZStneIc', r'_ZStltIc', r'_ZSt4swapIcSt11',
    r'_ZNK?St6vectorI.*(9push_back|12emplace_back|6resize|7reserve|6insert|5clear|6assign|aS|C[12]|D[12])E',
    r'_ZSt4sortI', r'_ZSt6searchI', r'_ZSt7reverseI',
    r'_ZNK?St5stackI', r'_ZN?K?St(5deque|7__cxx114list)I.*9push_backE',
]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-6000:]))
    return p.stdout

def build_ir(src, out_ll, std='c++11', extra=(), noinline=(), passes=None):
    raw = out_ll + '.raw.ll'
    run([CLANG, '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-fignore-exceptions',
         '-fno-threadsafe-statics', '-fno-discard-value-names', '-w', '-I', REPO, '-I', os.path.dirname(os.path.abspath(src)), '-S', '-emit-llvm',
         '-o', raw] + list(extra) + [src])
    txt = open(raw).read()
    pats = [re.compile(p) for p in list(NOINLINE) + list(noinline)]
    outl = []
    for line in txt.split('\n'):
        if line.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', line)
            name = m.group(1).strip('"')
            is_ni = any(p.match(name) for p in pats)
            a = '#9001' if is_ni else ('#9002' if re.match(r'(w_|oracle_)', name) else '#9000')
            line = re.sub(r' #\d+( comdat[^{]*)?(.*)\{$', lambda mm: ' ' + a + (mm.group(1) or '') + mm.group(2) + '{', line)
            if not re.search(re.escape(a), line):
                line = line[:-1] + a + ' {'
        outl.append(line)
    outl.append('attributes #9000 = { alwaysinline nounwind }')
    outl.append('attributes #9001 = { noinline nounwind }')
    outl.append('attributes #9002 = { noinline nounwind }')
    txt = '\n'.join(outl)
    # drop noinline marks left on call sites / strtk functions
    pre = out_ll + '.pre.ll'
    open(pre, 'w').write(txt)
    P = passes or ('always-inline,function(sroa,early-cse,simplifycfg,instsimplify),always-inline,function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse,lower-constant-intrinsics,'
         'simplifycfg,instsimplify,adce,simplifycfg,loop-simplify,instnamer),globaldce')
    run([OPT, '-passes=' + P, '-S', '-o', out_ll, pre])
    return out_ll

if __name__ == '__main__':
    build_ir(sys.argv[1], sys.argv[2])

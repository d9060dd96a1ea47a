"""Turn selected function definitions of a textual LLVM module into declarations.

Stripped: the harness primitives (__vp_*), the panic entry points, and the SipHash
update/finish functions -- all of these are primitives of the symbolic executor.
"""
import re, sys
PAT = re.compile(
    r'@(?:"?)(__vp_\w+'
    r'|_R\w*4core9panicking(?:9panic_fmt|18panic_nounwind_fmt)'
    r'|_R\w*3std9panicking15panic_with_hook'
    r'|_R\w*17rust_begin_unwind'
    r'|_RNvX\w*4core4hash3sip\w*6Hasher(?:5write|6finish)\w*'
    r')\(')
def main(src, dst):
    n = 0
    with open(src, 'r', errors='surrogateescape') as f, open(dst, 'w', errors='surrogateescape') as o:
        skip = False
        for line in f:
            if skip:
                if line.startswith('}'):
                    skip = False
                continue
            if line.startswith('define'):
                m = PAT.search(line)
                if m:
                    h = line.rstrip()
                    assert h.endswith('{'), h
                    h = h[:-1].rstrip()
                    h = re.sub(r' personality ptr @\w+', '', h)
                    h = re.sub(r'( ![\w.]+ !\d+)+$', '', h)
                    h = re.sub(r' comdat(\([^)]*\))?', '', h)
                    h = re.sub(r'^define (?:dso_local |internal |private |hidden |protected |linkonce_odr |weak_odr |weak |noundef )*', 'declare ', h) if True else h
                    o.write(h + '\n')
                    n += 1
                    skip = True
                    continue
            o.write(line)
    return n
if __name__ == '__main__':
    print(main(sys.argv[1], sys.argv[2]))

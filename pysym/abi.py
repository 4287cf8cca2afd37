"""The C side of the binding, from the current header: argument and return kinds of every function, layout of the structures."""
import json, os, re, subprocess, sys

INTS = {'unsigned long': 'u64', 'size_t': 'u64', 'uint64_t': 'u64', 'unsigned long long': 'u64', 'long': 'i64', 'int64_t': 'i64', 'int': 'i32', 'int32_t': 'i32', 'unsigned int': 'u32', 'uint32_t': 'u32', 'unsigned char': 'u8', 'uint8_t': 'u8',
        'unsigned short': 'u16', 'uint16_t': 'u16', 'short': 'i16', 'signed char': 'i8', 'int8_t': 'i8', 'char': 'i8', 'float': 'f', 'double': 'd', 'bool': 'b', '_Bool': 'b', 'void': 'void'}


def kind(t):
    q = t.get('desugaredQualType', t['qualType'])
    q = re.sub(r'\b(const|restrict|volatile)\b', '', q).strip()
    if '(*' in q:
        return 'c'
    if q.endswith('*') or q.endswith(']'):
        return 'p'
    if q.startswith('enum ') or q == 'RDError':
        return 'i32'
    return INTS.get(q)


def load(repo):
    """(signatures, layouts) as the header at hand declares them"""
    r = subprocess.run(['clang', '-fsyntax-only', '-I', os.path.join(repo, 'include'), '-Xclang', '-ast-dump=json', '-x', 'c', '-std=gnu11', '-include', 'resdet.h', '/dev/null'], capture_output=True, text=True, timeout=60)
    tree = json.loads(r.stdout)
    sig = {}
    for d in tree['inner']:
        if d['kind'] == 'FunctionDecl' and d['name'].startswith('resdet'):
            a = []
            for x in d.get('inner', []):
                if x['kind'] == 'ParmVarDecl':
                    a.append(kind(x['type']))
            m = re.match(r'(.*?)\s*\(', d['type']['qualType'])
            ret = kind({'qualType': d['type'].get('desugaredQualType', d['type']['qualType']).split('(')[0].strip()})
            sig[d['name']] = (a, ret)
    src = '#include "resdet.h"\n#include <stddef.h>\n#include <stdio.h>\nint main(void){%s}'
    body = ''.join('printf("%s %%zu\\n",%s);' % (n, e) for n, e in LAYOUT_EXPR.items())
    import tempfile
    with tempfile.TemporaryDirectory(prefix='vabi') as d:
        open(d + '/l.c', 'w').write(src % body)
        c = subprocess.run(['clang', '-I', os.path.join(repo, 'include'), '-o', d + '/l', d + '/l.c'], capture_output=True, text=True, timeout=60)
        if c.returncode:
            return sig, {}
        o = subprocess.run([d + '/l'], capture_output=True, text=True, timeout=20).stdout
    return sig, {l.split()[0]: int(l.split()[1]) for l in o.splitlines()}


LAYOUT_EXPR = {'RDResolution': 'sizeof(RDResolution)', 'RDResolution.index': 'offsetof(RDResolution,index)', 'RDResolution.confidence': 'offsetof(RDResolution,confidence)',
               'RDMethod': 'sizeof(RDMethod)', 'RDMethod.name': 'offsetof(RDMethod,name)', 'RDMethod.threshold': 'offsetof(RDMethod,threshold)', 'coeff': 'sizeof(((RDResolution*)0)->confidence)'}
# what pysym/model.py writes
LAYOUT = {'RDResolution': 16, 'RDResolution.index': 0, 'RDResolution.confidence': 8, 'RDMethod': 24, 'RDMethod.name': 0, 'RDMethod.threshold': 16, 'coeff': 4}

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import fake
    s, l = load(sys.argv[1])
    for k, v in fake.SIGNATURES.items():
        if k in s and s[k] != v: print(k, s[k], v)
        if k not in s: print('not declared', k)
    print({k: v for k, v in s.items() if k not in fake.SIGNATURES}, l == LAYOUT, l)

"""One-off: copies the published curve parameters out of the catalogue into lib/golden.hpp and
cross-checks the short Weierstrass ones with openssl where it knows the curve."""
import re, subprocess
s = open('/repo/src/ecurve.c').read()
out = []
for form, key in enumerate(['ws', 'ed', 'mo', 'te']):
    m = re.search(r'static _std_%s_curve_t _std_%s_curve\[\] = \{(.*?)\n\};' % (key, key), s, re.S)
    for e in re.finditer(r'\{\s*EQType\w+,\s*(.*?)\n    \}', m.group(1), re.S):
        v = [x.strip() for x in re.sub(r'//.*', '', e.group(1)).split(',')]
        name = v[0].strip('"'); vals = [int(x.strip('"'), 0) for x in v[1:8]]; bits = int(v[8])
        out.append((form, name, *vals, bits))
def ossl(n):
    alias = {'secp192r1': 'prime192v1', 'secp256r1': 'prime256v1'}
    r = subprocess.run(['openssl', 'ecparam', '-name', alias.get(n, n), '-param_enc', 'explicit', '-text', '-noout'], capture_output=True, text=True)
    if r.returncode: return None
    g = {}; cur = None
    for l in r.stdout.splitlines():
        if re.match(r'^\S.*:', l): cur = l.split(':')[0]; g[cur] = l.split(':', 1)[1]
        else: g[cur] += l.strip()
    h = lambda k: int(re.sub(r'[^0-9a-fA-F]', '', g[k]), 16)
    P = re.sub(r'[^0-9a-fA-F]', '', g[[k for k in g if k.startswith('Generator')][0]])
    P = P[P.index('04'):]; L = (len(P) - 2) // 2
    return h('Prime'), h('A   ') if 'A   ' in g else h([k for k in g if k.startswith('A')][0]), h('B   ') if 'B   ' in g else h([k for k in g if k.startswith('B')][0]), h([k for k in g if k.startswith('Order')][0]), int(P[2:2+L], 16), int(P[2+L:], 16)
for o in out:
    if o[0] == 0:
        r = ossl(o[1])
        print(o[1], 'no openssl' if r is None else r == (o[2], o[3], o[4], o[5], o[7], o[8]))
with open('/verif/lib/golden.hpp', 'w') as f:
    f.write('// Published domain parameters of the built-in curves (form, name, p, c1, c2, n, h, gx, gy, bits).\n#pragma once\nstruct Golden { int form; const char *name, *p, *a, *b, *n, *h, *gx, *gy; unsigned bits; };\nstatic const Golden GOLDEN[] = {\n')
    for o in out:
        f.write('    {%d, "%s", %s, %d},\n' % (o[0], o[1], ', '.join('"0x%x"' % v for v in o[2:9]), o[9]))
    f.write('};\nstatic const int NGOLDEN = sizeof(GOLDEN) / sizeof(GOLDEN[0]);\n')
print(len(out), [(o[1], o[9], o[2].bit_length(), o[5].bit_length(), o[6]) for o in out])

"""Turns the shader sources printed by harness/gen_shaders.cc into C++ that harness/sksl.h gives a meaning to."""
import re
AT = {1: 'float2', 2: 'float3', 4: 'half4'}
VT = {1: 'float2', 3: 'float4'}
UT = {3: 'float4', 5: 'int'}

def cxx(src):
    src = re.sub(r'//[^\n]*', '', src)
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    src = re.sub(r'\b(?:in)?out\s+(\w+)', r'\1&', src)
    src = re.sub(r'\bin\s+(\w+)', r'\1', src)
    src = re.sub(r'\buniform\b', 'inline thread_local', src)
    # Literals are single precision.
    src = re.sub(r'(?<![\w.])((?:\d+\.\d*|\.\d+)(?:[eE][-+]?\d+)?)(?![\w.])', r'\1f', src)
    return src

def swizzles(text):
    s = set()
    for m in re.finditer(r'\.\s*([xyzwrgba]{2,4})\b', text):
        w = m.group(1)
        if all(c in 'xyzw' for c in w) or all(c in 'rgba' for c in w):
            s.add(w)
    return s

def run(text):
    helpers, specs, cur, mode = '', [], None, None
    for line in text.split('\n'):
        if line == '@@HELPERS': mode = 'H'
        elif line.startswith('@@SPEC'): cur = {'name': line.split()[1], 'attr': [], 'vary': [], 'unif': [], 'V': '', 'F': ''}; specs.append(cur)
        elif line.startswith('@@ATTR'): cur['attr'].append(line.split()[1:])
        elif line.startswith('@@VARY'): cur['vary'].append(line.split()[1:])
        elif line.startswith('@@UNIF'): cur['unif'].append(line.split()[1:])
        elif line == '@@VERT': mode = 'V'
        elif line == '@@FRAG': mode = 'F'
        elif line == '@@END': mode = None
        elif mode == 'H': helpers += line + '\n'
        elif mode: cur[mode] += line + '\n'
    sw = swizzles(text)
    out = []
    for n in (2, 3, 4):
        ms = []
        for w in sorted(sw):
            idx = [('xyzw' if w[0] in 'xyzw' else 'rgba').index(c) for c in w]
            if max(idx) < n:
                ms.append('Sw<%s> %s;' % (', '.join(map(str, [n] + idx)), w))
        out.append('#define SKSL_SWIZZLES_%d %s' % (n, ' '.join(ms)))
    out.append('#include "sksl.h"')
    out.append('namespace sksl { namespace helpers {\n%s\n} }' % cxx(helpers))
    names = []
    for s in specs:
        u = ''.join('inline void SetUniform(int id, %s v) { if (id == %s) %s = v; }\n' % (t, i, n) for t, i, n in [(UT[int(t)], i, n) for t, i, n in s['unif']][:0])
        decl = ''
        for t, i, n in s['unif']:
            decl += '  if (id == %s) { SetTo(%s, v); return; }\n' % (i, n)
        out.append('namespace sksl { namespace %s {\nstruct Attributes { %s };\nstruct Varyings { float2 position; %s };' % (
            s['name'], ' '.join('%s %s;' % (AT[int(t)], n) for t, o, n in s['attr']), ' '.join('%s %s;' % (VT[int(t)], n) for t, n in s['vary'])))
        out.append('namespace v {\n%s\n' % re.sub(r'\bmain\b', 'vertexMain', cxx(s['V'])))
        for t in ('float4', 'int'):
            out.append('inline void SetUniform(int id, %s v) {\n%s}\n' % (t, ''.join('  if (id == %s) { %s = v; return; }\n' % (i, n) for tt, i, n in s['unif'] if UT[int(tt)] == t)))
        out.append('}\nnamespace f {\n%s\n}' % re.sub(r'\bmain\b', 'fragmentMain', cxx(s['F'])))
        fill = ''.join('    Fetch(a.%s, vertex + %s);\n' % (n, o) for t, o, n in s['attr'])
        out.append('struct Shader { using V = Varyings; static constexpr const char* name = "%s";\n  template <typename T> static void SetUniform(int id, T val) { v::SetUniform(id, val); }\n'
                   '  static Varyings Vertex(const uint8_t* vertex) {\n    Attributes a;\n%s    return v::vertexMain(a); }\n'
                   '  static float2 Fragment(const Varyings& y, float4& color) { return f::fragmentMain(y, color); } };\n} }' % (s['name'], fill))
        names.append(s['name'])
    return '#pragma once\n' + '\n'.join(out) + '\n'

#!/usr/bin/env python3
"""conform.py DIR: DIR/enc holds 'hex bytes effect' lines of the decoder; compares with objdump."""
import sys, re, subprocess, itertools
d = sys.argv[1]
G = ['rax','rcx','rdx','rbx','rsp','rbp','rsi','rdi'] + [f'r{i}' for i in range(8, 16)]
G32 = ['eax','ecx','edx','ebx','esp','ebp','esi','edi'] + [f'r{i}d' for i in range(8, 16)]
G16 = ['ax','cx','dx','bx','sp','bp','si','di'] + [f'r{i}w' for i in range(8, 16)]
W = {r: 64 for r in G} | {r: 32 for r in G32} | {r: 16 for r in G16}
M = (1 << 64) - 1
want = []
with open(d + '/enc') as f, open(d + '/bin', 'wb') as o:
    for l in f:
        m = re.match(r'((?:[0-9a-f]{2} )+)(.*)\n', l)
        b = bytes.fromhex(m.group(1)); o.write(b); want.append((b, m.group(2)))
def ea(t, nxt):
    """[...] in objdump's Intel syntax"""
    t = re.sub(r'^(ds|ss|es|cs):', '', t)
    if not t.startswith('['):
        return '[' + '+' + hex(int(t, 16) & M) + ']'
    co, disp = {}, 0
    for sgn, x in re.findall(r'([+-]?)([^+-]+)', t[1:-1]):
        r, _, k = x.partition('*')
        if r in ('riz', 'eiz'): continue
        if r in G or r == 'rip': co[r] = co.get(r, 0) + int(k or 1)
        else: disp += int(x, 16) * (-1 if sgn == '-' else 1)
    ts = sorted(f'{r}*{k}' for r, k in co.items())
    return '[' + '+'.join(ts) + '+' + hex(disp & M) + ']'
def canon(t):
    t = re.sub(r'\s+#.*', '', t).strip()
    rex = [w for w in t.split() if w.startswith('rex') or w in ('data16',)]
    t = ' '.join(w for w in t.split() if not (w.startswith('rex') or w == 'data16'))
    m = re.match(r'(\w+) ?(.*)', t)
    op, a = m.group(1), [x.strip() for x in m.group(2).split(',')] if m.group(2) else []
    mem = lambda x: re.match(r'(?:(QWORD|DWORD|WORD) PTR )?((?:\w\w:)?(?:\[.*\]|0x[0-9a-f]+))$', x)
    num = lambda x: re.match(r'-?0x[0-9a-f]+$', x)
    if op in ('mov', 'movabs'):
        dst, src = a
        if dst in W:
            w = W[dst]
            if src in W: return f'set {dst} {src}'
            if num(src): return f'set {dst} {hex(int(src, 16) & ((1 << w) - 1))}'
            return f'set {dst} {ea(mem(src).group(2), 0)}'
        m = mem(dst); e = ea(m.group(2), 0)
        if src in W: return f'store{W[src]} {e} {src}'
        w = {'QWORD': 64, 'DWORD': 32, 'WORD': 16}[m.group(1)]
        return f'store{w} {e} {hex(int(src, 16) & ((1 << w) - 1))}'
    if op == 'lea': return f'set {a[0]} &{ea(mem(a[1]).group(2), 0)}'
    if op in ('push', 'pushw'):
        x = a[0]
        w = 16 if op == 'pushw' or x in G16 or x.startswith('WORD') else 64
        if x in W: return f'push{w} {x}'
        if num(x): return f'push{w} {hex(int(x, 16) & ((1 << w) - 1))}'
        return f'push{w} {ea(mem(x).group(2), 0)}'
    if op == 'pop' : return f'pop {a[0]}' if a[0] in W else t
    if op in ('ret', 'syscall'): return op
    return t
p = subprocess.Popen(['objdump', '-D', '-z', '-w', '-b', 'binary', '-m', 'i386:x86-64', '-M', 'intel', d + '/bin'], stdout=subprocess.PIPE, text=True)
pos, off = {}, 0
for b, e in want:
    pos[off] = (b, e); off += len(b)
n = bad = 0
for l in p.stdout:
    m = re.match(r' *([0-9a-f]+):\t([0-9a-f ]+)\t(.*)', l)
    if not m: continue
    at = int(m.group(1), 16)
    if at not in pos: 
        bad += 1
        if bad < 20: print('NOT A START', l.strip())
        continue
    b, e = pos[at]; n += 1
    try: g = canon(m.group(3))
    except Exception as x: g = f'?? {x!r}'
    ok = bytes.fromhex(m.group(2)) == b and g == e
    if not ok:
        bad += 1
        if bad < 40: print(b.hex(' '), '| objdump:', m.group(3).strip(), '=>', g, '| model:', e)
print(f'{n} encodings disassembled by objdump, {bad} disagree with the decoder ({len(want)} in all)')
sys.exit(bad > 0 or n != len(want))

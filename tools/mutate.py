#!/usr/bin/env python3
"""Mutation run (development aid, not a check): first-order mutants of the crates' non-test
code, each built, tested with the repository's own tests and, when those pass, run against
the checks.  usage: mutate.py WORKERS OUT.jsonl [file-substring ...]
Works on copies under /tmp/mut only."""
import re, sys, os, subprocess, json, queue, threading, shutil, hashlib

REPO, VERIF, BASE = '/repo', '/verif', '/tmp/mut'
ORDER = {
    'at-x64': 'E02 E01 E03 E04 E05 A02'.split(),
    'at-mac': 'M01 M02 M03 M04 M05 M06 O01 O05 A11'.split(),
    'at-obj': 'O01 O02 O03 O04 O05 A11 A07 A01'.split(),
    'at-asm': 'A05 A04 A02 A08 A01 A07 A09 A03 A06 A10 A11 E04 A12'.split(),
}

def code_lines(text):
    """(line number, line) of non-test, non-comment code."""
    out, skip = [], False
    for i, l in enumerate(text.split('\n')):
        if l.startswith('#[cfg(test)]'):
            break
        s = l.strip()
        if s.startswith('//') or s.startswith('use ') or s.startswith('#[') or s.startswith('pub mod') or s.startswith('mod '):
            continue
        out.append((i, l))
    return out

SWAPS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' << ', ' >> '), (r' >> ', ' << '),
    (r' & ', ' | '), (r' \| ', ' & '), (r' \+= ', ' -= '), (r' \* ', ' + '), (r' % ', ' / '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '), (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'),
    (r'\.is_empty\(\)', '.len() == 1'), (r'\bas u32\b', 'as u8 as u32'), (r'\bas u64\b', 'as u16 as u64'), (r'\bas i32\b', 'as i16 as i32'),
    (r'\bany\(', 'all('), (r'\ball\(', 'any('), (r'starts_with', 'ends_with'), (r'ends_with', 'contains'), (r'trim_start', 'trim_end'), (r'\.trim\(\)', ''),
    (r'\bwrapping_add', 'wrapping_sub'), (r'\bSome\((\w+)\) => ', None), (r'LE\b', 'BE'), (r'\bread_exact', 'read'), (r'write_all', 'write'),
    (r'text\b', 'data'), (r'data\b', 'bss'), (r'Text\b', 'Data'), (r'Data\b', 'Text'), (r'\.\.=', '..'),
    (r'split_once', 'rsplit_once'), (r'i8', 'u8'), (r'u8', 'i8'), (r'i32', 'u32'),
]
def mutants(path, text):
    for i, l in code_lines(text):
        code = re.sub(r'//.*', '', l)
        # numbers
        for m in re.finditer(r'(?<![\w."])(0x[0-9a-fA-F_]+|\d+)(?![\w"])', code):
            v = int(m.group(1).replace('_', ''), 0)
            for nv in {v + 1, v ^ 0x4 if v > 3 else 0, 0} - {v}:
                yield i, l[:m.start()] + (hex(nv) if m.group(1).startswith('0x') else str(nv)) + l[m.end():]
        for a, b in SWAPS:
            if b is None:
                continue
            for m in re.finditer(a, code):
                yield i, l[:m.start()] + b + l[m.end():]
        s = code.strip()
        if s.endswith(';') and not s.startswith(('let', 'return', 'pub', 'const', 'type', 'fn')):
            yield i, ''
        if s.endswith(',') and '=>' in s and not s.startswith('_'):
            yield i, ''
        for m in re.finditer(r'\b(R(?:AX|CX|DX|BX|SP|BP|SI|DI|8|9|1[0-5])[DW]?)\b', code):
            r = m.group(1)
            yield i, l[:m.start()] + {'RSP': 'RBP', 'RBP': 'RSP', 'RAX': 'RCX', 'R12': 'RSP', 'R13': 'RBP'}.get(r, 'RAX') + l[m.end():]
        # swap two arguments
        m = re.search(r'\((\w+), (\w+)\)', code)
        if m and m.group(1) != m.group(2):
            yield i, l[:m.start()] + f'({m.group(2)}, {m.group(1)})' + l[m.end():]

def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, ''

def setup(k):
    d = f'{BASE}/w{k}'
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(f'git clone -q {REPO} {d}/repo && mkdir {d}/verif && cd {VERIF} && cp -r mc run.sh KNOWN_FINDINGS.txt MANIFEST.json properties.jsonl {d}/verif/', shell=True)
    subprocess.check_call(f"sed -i 's#/repo#{d}/repo#g' {d}/verif/run.sh {d}/verif/mc/Cargo.toml", shell=True)
    return d

def work(k, q, out, lock):
    d = setup(k)
    while True:
        try:
            path, i, new, old, mid = q.get_nowait()
        except queue.Empty:
            return
        f = f'{d}/repo/{path}'
        orig = open(f).read()
        ls = orig.split('\n')
        ls[i] = new
        open(f, 'w').write('\n'.join(ls))
        res = {'id': mid, 'file': path, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
        try:
            rc, o = sh(f'cargo build --offline --target-dir {d}/rt', f'{d}/repo')
            if rc:
                res['r'] = 'nobuild'
            else:
                rc, o = sh(f'cargo test --workspace --offline --lib --bins --tests --target-dir {d}/rt', f'{d}/repo', timeout=120)
                if rc:
                    res['r'] = 'tests'
                else:
                    res['r'] = 'SURVIVED'
                    for p in ORDER[path.split('/')[0]]:
                        rc, o = sh(f'bash run.sh {p}', f'{d}/verif')
                        if rc == 1 and 'VIOLATION' in o:
                            res['r'] = 'caught'; res['by'] = p
                            break
                        if rc:
                            res['r'] = f'ENGINE{rc}'; res['by'] = p; res['o'] = o[-500:]
                            break
        finally:
            open(f, 'w').write(orig)
        with lock:
            out.write(json.dumps(res) + '\n'); out.flush()

def main():
    n, outp, subs = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)['id'] for l in open(outp)}
    files = subprocess.check_output(['git', '-C', REPO, 'ls-files', '*.rs'], text=True).split()
    q, seen = queue.Queue(), set()
    todo = []
    for f in files:
        if subs and not any(s in f for s in subs):
            continue
        t = open(f'{REPO}/{f}').read()
        for i, new in mutants(f, t):
            old = t.split('\n')[i]
            mid = hashlib.sha1(f'{f}:{i}:{new}'.encode()).hexdigest()[:10]
            if mid in seen or mid in done or new == old:
                continue
            seen.add(mid)
            todo.append((f, i, new, old, mid))
    # spread over the files
    todo.sort(key=lambda x: x[4])
    for x in todo:
        q.put(x)
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    with open(outp, 'a') as out:
        ts = [threading.Thread(target=work, args=(k, q, out, lock)) for k in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]

main()

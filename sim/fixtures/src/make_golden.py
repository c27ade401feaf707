#!/usr/bin/env python3
"""Golden inline stacks of the fixture binaries, from llvm-symbolizer (not run by the checks).

Line: <hex addr> <len> [func file dirs... start line disc]..., innermost frame first; one line per instruction.
"""
import os, re, subprocess, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
for b in sorted(os.listdir('.')):
    if '.' in b or b == 'src' or len(sys.argv) > 1 and b not in sys.argv[1:]:
        continue
    of = '/tmp/' + b + '.exe' if b.startswith('ko') else b  # a kernel module: the same code, linked
    if b.startswith('arm'):
        out = subprocess.run(['llvm-objdump-18', '-d', b], capture_output=True, text=True).stdout
        code = re.findall(r'^\s+([0-9a-f]+): [0-9a-f]{8}\s+(\S+)', out, re.M)
        ins = [(int(a, 16), 4) for a, _ in code]
        # Instructions that change the flow of control; '?' if they may not.
        with open(b + '.flow', 'w') as f:
            for a, op in code:
                if re.fullmatch(r'b|bl|br|blr|ret|b\..*|cbn?z|tbn?z', op):
                    f.write('%s %s\n' % (a, '?' if re.match(r'b\.|cb|tb', op) else '!'))
    else:
      out = subprocess.run(['objdump', '-d', '-w'] + (['-j.text'] if of != b else []) + [of], capture_output=True, text=True).stdout
      ins = [(int(m.group(1), 16), len(m.group(2).split())) for m in re.finditer(r'^\s+([0-9a-f]+):\t((?:[0-9a-f]{2} )+)', out, re.M)]
    g = '/tmp/golden.bin'
    subprocess.check_call(['llvm-objcopy-18', '-w', '--strip-symbol=*', of, g])
    sy = subprocess.run(['llvm-symbolizer-18', '--obj=' + g, '--verbose', '--functions=linkage', '--no-demangle'],
                        input='\n'.join('0x%x' % a for a, _ in ins), capture_output=True, text=True).stdout
    with open(b + '.golden', 'w') as f:
        for (a, n), blk in zip(ins, sy.strip().split('\n\n')):
            fr, cur = [], None
            for l in blk.split('\n'):
                if not l.startswith('  '):
                    cur = [l.replace('??', '?'), '?', '0', '0', '0']
                    fr.append(cur)
                else:
                    k, _, v = l.strip().partition(': ')
                    i = {'Filename': 1, 'Function start line': 2, 'Line': 3, 'Discriminator': 4}.get(k)
                    if i:
                        cur[i] = os.path.normpath(v)
            sep = ' ~ ' if fr[0][3] == '0' else ' | '  # ~: no line, only enclosing functions
            f.write('%x %d%s\n' % (a, n, ''.join(sep + ' '.join(x) for x in fr)))
os.remove('/tmp/golden.bin')

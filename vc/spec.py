"""Reads the sidecar contracts (/verif/specs/*.spec)."""
import re, glob, os

def parse(path):
    specs = {}; cur = None; logic_common = []
    lines = open(path).read().split('\n')
    i = 0; loop = None
    def block(i, first):
        txt = [first] if first.strip() else []
        while i < len(lines) and (lines[i].startswith((' ', '\t')) or not lines[i].strip()):
            if lines[i].strip(): txt.append(lines[i])
            i += 1
        return '\n'.join(txt), i
    while i < len(lines):
        l = lines[i]; i += 1
        if not l.strip() or l.startswith('//'): continue
        if l.startswith('== '):
            m = re.match(r'== (\w+)(?:@(\w+))?\s*(.*)$', l)
            cur = {'fn': m.group(1), 'variant': m.group(2), 'requires': [], 'ensures': [], 'loops': {}, 'hooks': {}, 'logic': '', 'inline': set(),
                   'singletons': {}, 'extern': {}, 'props': [], 'spec_file': path}
            key = m.group(1) + ('@' + m.group(2) if m.group(2) else '')
            cur['key'] = key
            for kv in m.group(3).split():
                k, _, v = kv.partition('=')
                cur[k] = v.split(',') if k in ('props', 'files') else v
            specs[key] = cur; loop = None; continue
        m = re.match(r'(\w+)\b\s*(.*)$', l)
        kw, rest = m.group(1), m.group(2)
        if kw in ('requires', 'ensures', 'inv'):
            nm, _, t = rest.partition(':')
            t, i = block(i, t)
            if kw == 'inv': cur['loops'].setdefault(loop, {}).setdefault('inv', []).append((nm.strip(), t))
            else: cur[kw].append((nm.strip(), t))
        elif kw == 'loop': loop = int(rest.split()[0])
        elif kw == 'var':
            t, i = block(i, rest.lstrip(':')); cur['loops'].setdefault(loop, {})['var'] = t
        elif kw in ('start', 'body', 'end', 'after', 'before', 'after_body'):
            t, i = block(i, rest.lstrip(':')); cur['hooks'].setdefault((kw, loop), []).append(t)
        elif kw in ('entry', 'exit'):
            t, i = block(i, rest.lstrip(':')); cur['hooks'].setdefault((kw, None), []).append(t)
        elif kw == 'label':
            nm, _, t = rest.partition(':'); t, i = block(i, t); cur['hooks'].setdefault((kw, nm.strip()), []).append(t)
        elif kw == 'variant': cur['variant_'] = rest
        elif kw in ('store', 'after_call', 'before_call', 'at'):
            nm, _, t = rest.partition(':'); t, i = block(i, t); cur['hooks'].setdefault((kw, nm.strip()), []).append(t)
        elif kw == 'logic':
            t, i = block(i, rest.lstrip(':')); cur['logic'] += '\n' + t
        elif kw == 'use':
            cur['logic'] = 'use ' + rest + '\n' + cur['logic']; cur.setdefault('uses', []).append(rest)
        elif kw == 'inline': cur['inline'] |= set(rest.split())
        elif kw == 'singleton':
            for x in rest.split():
                a, b = x.split(':'); cur['singletons'][a] = b
        elif kw == 'extern':
            a = rest.split(); cur['extern'][a[0]] = (a[1], a[2])
        elif kw == 'bounds':
            nm, _, t = rest.partition(':'); cur.setdefault('bounds', {})[nm.strip()] = t.strip()
        elif kw == 'ghost':
            t, i = block(i, rest); cur.setdefault('ghost', []).append(t)
        elif kw == 'const':
            a = rest.split(); cur.setdefault('consts', {})[a[0]] = a[1]
        elif kw == 'ptype':
            a, _, b = rest.partition(' '); cur.setdefault('ptypes', {})[a] = b.strip()
        elif kw == 'fnptr': cur['fnptr'] = rest
        elif kw == 'opt':
            k, _, v = rest.partition(' '); cur[k] = v or True
            if v == 'off': cur[k] = False
        elif kw == 'timeout': cur['timeout'] = int(rest)
        else: raise SyntaxError('%s:%d: %s' % (path, i, l))
    return specs

def load(dirpath):
    out = {}
    for p in sorted(glob.glob(os.path.join(dirpath, '*.spec'))):
        out.update(parse(p))
    return out

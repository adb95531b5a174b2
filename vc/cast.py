"""Loads a C translation unit of /repo through clang's JSON AST (no hand-written copy of the code)."""
import json, re, subprocess, os, hashlib, tempfile

class Unsupported(Exception):
    """The construct is outside the dialect the extraction covers."""

INTNAMES = {'int','unsigned int','char','unsigned char','signed char','short','unsigned short','long','unsigned long',
            'long long','unsigned long long','unsigned','_Bool','size_t','ssize_t','__ssize_t','FILE','va_list','fpos_t','double','float',
            'void','struct __va_list_tag','__builtin_va_list'}
UNSIGNED = {'unsigned int','unsigned','size_t','unsigned long','unsigned long long'}

class TU:
    def __init__(self, path, flags):
        self.path = path
        cmd = ['clang','-fsyntax-only','-w','-Xclang','-ast-dump=json']+flags+[path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not p.stdout.strip():
            raise Unsupported('clang cannot parse %s: %s' % (path, p.stderr.decode()[:500]))
        self.ok = p.returncode == 0
        root = json.loads(p.stdout)
        self.funcs = {}; self.records = {}; self.typedefs = {}; self.enums = {}; self.globals = {}; self.protos = {}
        self.unions = set()
        self.static_locals = {}
        for d in root.get('inner', []):
            self.top(d)

    def top(self, d):
        k = d['kind']
        if k == 'FunctionDecl':
            self.protos[d['name']] = d
            if any(c['kind'] == 'CompoundStmt' for c in d.get('inner', [])):
                self.funcs[d['name']] = d
        elif k == 'RecordDecl':
            self.record(d, d.get('name') or 'anon_'+d['id'])
        elif k == 'TypedefDecl':
            self.typedefs[d['name']] = d['type'].get('desugaredQualType', d['type']['qualType']), d
            for c in d.get('inner', []):   # typedef struct { ... } NAME;
                t = c.get('ownedTagDecl', {}); r = self.records.pop('anon_' + t.get('id', ''), None)
                if r is not None:
                    if 'anon_' + t['id'] in self.unions: self.unions.add(d['name'])
                    self.records[d['name']] = r
        elif k == 'EnumDecl':
            v = -1
            for c in d.get('inner', []):
                if c['kind'] != 'EnumConstantDecl': continue
                v += 1
                for x in c.get('inner', []):
                    if 'value' in x: v = int(x['value'])
                    else:
                        for y in x.get('inner', []):
                            if 'value' in y: v = int(y['value'])
                self.enums[c['name']] = v
        elif k == 'VarDecl':
            self.globals[d['name']] = d

    def record(self, d, name):
        if not d.get('completeDefinition'): return
        fields = {}; last = None
        if d.get('tagUsed') == 'union': self.unions.add(name)
        for c in d.get('inner', []):
            if c['kind'] == 'RecordDecl':
                nm = c.get('name')
                if nm: self.record(c, nm); last = nm
                else:
                    last = '%s__u%d' % (name, len(fields)); self.record(c, last)
            elif c['kind'] == 'FieldDecl':
                q = c['type']['qualType']
                if ('unnamed' in q or 'anonymous' in q) and last:
                    m = re.search(r'\)((?:\s|\*)*)((?:\[\d*\])*)$', q)
                    t = ('struct', last)
                    for _ in range(m.group(1).count('*') if m else 0): t = ('ptr', t)
                    fields[c.get('name') or '_anon'] = t
                else:
                    fields[c.get('name') or '_anon'] = q
        self.records[name] = fields

    def ctype(self, q):
        if isinstance(q, tuple): return q
        q = q.strip()
        if '(*)' in q or '(' in q: return ('ptr', ('fn',))
        dims = re.findall(r'\[(\d*)\]', q)
        q = re.sub(r'\[\d*\]', '', q).strip()
        stars = 0
        while True:
            q = q.strip()
            if q.endswith('*'): stars += 1; q = q[:-1]
            elif q.endswith('const') : q = q[:-5]
            elif q.endswith('restrict'): q = q[:-8].rstrip('_')
            else: break
        q = re.sub(r'\b(const|volatile|register|static|extern)\b', '', q).strip()
        tag = False
        m = re.match(r'(struct|union|enum)\s+(\w+)$', q)
        if m:
            tag = True
            t = ('int',) if m.group(1) == 'enum' else ('struct', m.group(2))
            if m.group(2).startswith('__va_list'): t = ('int',)
        elif q == 'bitword_t': t = ('word',)
        elif q in INTNAMES:
            t = ('uint',) if q in UNSIGNED else ('void',) if q == 'void' else ('int',)
        elif q in self.typedefs:
            dq, d = self.typedefs[q]
            if dq == q or ('unnamed' in dq) :
                t = ('struct', q) if q in self.records or 'enum' not in str(d.get('inner', '')) else ('int',)
            else:
                m = re.match(r'(struct|union)\s+(\w+)$', dq.strip())
                if m and m.group(2) not in self.records and q in self.records: t = ('struct', q)
                elif m and m.group(2) == q: t = ('struct', q)
                elif dq.startswith('enum') : t = ('int',)
                else: t = self.ctype(dq) if dq != q else ('int',)
        elif q in self.records: t = ('struct', q)
        else: t = ('int',)
        for n in reversed(dims): t = ('arr', t, int(n) if n else 0)
        # pointers bind before arrays: T *x[3]
        if stars:
            if dims:
                n = dims
                base = t
                while base[0] == 'arr': base = base[1]
                for _ in range(stars): base = ('ptr', base)
                t = base
                for d in reversed(n): t = ('arr', t, int(d) if d else 0)
            else:
                for _ in range(stars): t = ('ptr', t)
        return t

    def field(self, rec, f):
        r = self.records.get(rec)
        if r is None: raise Unsupported('unknown record '+rec)
        if f not in r: raise Unsupported('no field %s.%s' % (rec, f))
        return self.ctype(r[f])

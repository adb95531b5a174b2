"""Mechanical extraction: C function (clang AST of /repo's current source) -> WhyML program function.

Model (stated in DESIGN.md):
 * integers are mathematical; `x & (2^k-1)` is Euclidean mod; words of bit sets are the abstract type `word`;
 * pointers are integer addresses (in elements) into per-region heaps; regions come from a unification-based
   alias analysis over the function, its inlined helpers and its contracted callees; fields are separate heaps;
 * the parser-generator state structs (byacc_t, struct lemon) are singletons: each field is a global;
 * malloc/calloc return fresh, non-null blocks; free is a no-op; stdio output calls are dropped (arguments evaluated).
 * callees without a contract are inlined; loops are numbered in execution-text order after inlining.
"""
import re, json
from cast import TU, Unsupported

KEYWORDS = set('''abstract absurd alias any assert assume at axiom as begin break by check clone coinductive constant continue
diverges do done downto else end ensures epsilon exception exists export false float for forall fun function ghost goal
if import in inductive invariant label lemma let match meta module mutable not old partial predicate private pure raise
raises reads rec ref requires return returns scope so then theory to true try type use val variant while with writes result
range field m int word map get set mset shadow'''.split())

IGNORED = {'fprintf','printf','puts','fputs','putc','fputc','putchar','fflush','free','fclose','_IO_putc','setvbuf','lemon_free'}
NORETURN = {'exit','done','no_space','abort','__assert_fail','fatal','syntax_error','unexpected_EOF','used_reserved','illegal_character',
  'missing_brace','on_error','open_error','over_unionized','terminal_lhs','terminal_start','tokenized_start','undefined_goal',
  'unexpected_value','unknown_rhs','unterminated_action','unterminated_arglist','unterminated_comment','unterminated_string',
  'unterminated_text','unterminated_union','untyped_lhs','untyped_rhs','at_error','bad_formals','dollar_error','no_grammar',
  'illegal_tag','memory_error','usage'}
ALLOC = {'allocate','calloc','malloc','lemon_malloc','lemon_calloc'}
WORDBITS = 64

def san(n):
    if n in KEYWORDS: return n + '_'
    if n[0].isupper(): return 'u_' + n
    if n[0] == '_': return 'u' + n
    return n

class Region:
    _n = 0
    def __init__(self, name, prio=5):
        Region._n += 1
        self.id = Region._n
        self.up = None; self.name = name; self.prio = prio
        self.pt = None; self.fields = {}
        self.used_fields = {}   # path -> ctype, heaps in use
        self.cell_used = None
        self.alias = []         # fields whose address may be in a pointer into this region: (region, path, ctype); encoded as negative numbers
    def find(self):
        r = self
        while r.up is not None: r = r.up
        return r
    def pointee(self):
        r = self.find()
        if r.pt is None: r.pt = Region(r.name + '_p', r.prio + 1)
        return r.pt.find()
    def field(self, f):
        r = self.find()
        if f not in r.fields: r.fields[f] = Region(r.name + '_' + f, r.prio + 1)
        return r.fields[f].find()

def unify(a, b):
    a = a.find(); b = b.find()
    if a is b: return
    if (b.prio, b.name) < (a.prio, a.name): a, b = b, a
    b.up = a
    a.used_fields.update(b.used_fields)
    if a.cell_used is None: a.cell_used = b.cell_used
    for x in b.alias:
        if not any(y[0].find() is x[0].find() and y[1] == x[1] for y in a.alias): a.alias.append(x)
    bp, bf = b.pt, b.fields
    if bp is not None:
        if a.pt is None: a.pt = bp
        else: unify(a.pt, bp)
    for f, r in list(bf.items()):
        aa = a.find()
        if f in aa.fields: unify(aa.fields[f], r)
        else: aa.fields[f] = r

class V:
    __slots__ = ('t','k','ct','reg','lv')
    def __init__(self, t, k, ct=None, reg=None, lv=None):
        self.t, self.k, self.ct, self.reg, self.lv = t, k, ct, reg, lv

class LV:
    """kind: var(name) glob(name) cell(reg,addr) struct(reg,path,addr)"""
    __slots__ = ('kind','name','reg','path','addr','ct')
    def __init__(self, kind, ct, name=None, reg=None, path=None, addr=None):
        self.kind, self.ct, self.name, self.reg, self.path, self.addr = kind, ct, name, reg, path, addr

def why_t(ct):
    return 'word' if ct and ct[0] == 'word' else 'int'

def strip(n):
    while n['kind'] in ('ParenExpr','ImplicitCastExpr','CStyleCastExpr','ConstantExpr') and n.get('inner'):
        n = n['inner'][-1]
    return n

class Fn:
    """One extraction run of one function."""
    def __init__(self, tus, fname, spec, specs):
        self.tus = tus; self.fname = fname; self.spec = spec; self.specs = specs
        self.singletons = spec.get('singletons', {})
        self.roots = {}
        self.pass_no = 0; self.flexcap = None
    # ---- regions
    def root(self, key, name, prio):
        if key not in self.roots: self.roots[key] = Region(name, prio)
        return self.roots[key].find()
    def heap_cell(self, reg, ct):
        r = reg.find()
        if r.cell_used is None: r.cell_used = ct
        nm = 'm_' + self.rname(r)
        self.heaps[nm] = why_t(ct)
        return nm
    def heap_field(self, reg, path, ct):
        r = reg.find()
        r.used_fields[path] = ct
        nm = self.rname(r) + '_' + path
        nm = san(nm)
        self.heaps[nm] = why_t(ct)
        return nm
    def heap_len(self, reg):
        nm = 'len_' + self.rname(reg.find())
        self.globs[nm] = 'map int int'; self.lenused.add(nm)
        return nm
    def heap_brk(self, reg):
        nm = 'brk_' + self.rname(reg.find())
        self.globs[nm] = 'int'
        return nm
    def rname(self, r):
        r = r.find()
        if r in self.rnames: return self.rnames[r]
        base = san(r.name); nm = base; i = 2
        while nm in self.rnames.values():
            nm = '%s_%d' % (base, i); i += 1
        self.rnames[r] = nm
        return nm

    # ---- driver
    def tu_of(self, f):
        for t in self.tus:
            if f in t.funcs: return t
        return None

    def translate(self):
        for self.pass_no in (1, 2, 3):
            self.heaps = {}; self.globs = {}; self.locals = {}; self.vals = []; self.valn = 0
            self.rnames = {}; self.tmp = 0; self.loopn = 0; self.exn = 0; self.names_used = set(); self.loops_info = []
            self.effects = set(); self.recursive = False; self.strlits = {}; self.uses_hooks = set(); self.stack = []; self.diverges = False
            self.called_contract = []; self.inlined = []; self.brkused = set(); self.lenused = getattr(self, 'lenused', set()); self.callanchors = {}
            body = self.function(self.fname)
            if self.pass_no < 3:
                for ab in str(self.spec.get('merge') or '').split():
                    a, b = ab.split('=')
                    rg = lambda x: self.locals[x][1] if x in self.locals else self.path_type(x)[2]
                    unify(rg(a), rg(b))
            if self.pass_no == 2:
                # fields mentioned only in the contract are part of the objects as well
                for nm, t in self.spec.get('requires', []) + self.spec.get('ensures', []):
                    try: self.pp(t)
                    except (Unsupported, KeyError): pass
        return body

    def newtmp(self):
        self.tmp += 1
        return "t'%d" % self.tmp if False else 'tmp_%d' % self.tmp

    def fresh_name(self, n):
        b = san(n); x = b; i = 2
        while x in self.names_used:
            x = '%s_%d' % (b, i); i += 1
        self.names_used.add(x)
        return x

    def params(self, d):
        return [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl']

    def scan(self, d):
        """names assigned / address-taken in a body (by decl id)"""
        asg = set(); adr = set()
        def go(n):
            k = n.get('kind')
            if k in ('BinaryOperator','CompoundAssignOperator') and (n['opcode'] == '=' or k == 'CompoundAssignOperator'):
                l = strip(n['inner'][0])
                if l['kind'] == 'DeclRefExpr': asg.add(l['referencedDecl']['id'])
            if k == 'UnaryOperator':
                l = strip(n['inner'][0])
                if l['kind'] == 'DeclRefExpr':
                    if n['opcode'] in ('++','--'): asg.add(l['referencedDecl']['id'])
                    if n['opcode'] == '&': adr.add(l['referencedDecl']['id'])
                elif n['opcode'] == '&':
                    while l['kind'] == 'MemberExpr' and not l.get('isArrow'):
                        l = strip(l['inner'][0])
                    if l['kind'] == 'DeclRefExpr': adr.add(l['referencedDecl']['id'])
            for c in n.get('inner', []) or []:
                if isinstance(c, dict): go(c)
        go(d)
        return asg, adr

    def function(self, f):
        tu = self.tu_of(f)
        if tu is None: raise Unsupported('function %s not found' % f)
        d = tu.funcs[f]
        self.tu = tu
        ctx = {'ret': None, 'd': d, 'env': {}, 'brk': [], 'cont': [], 'fname': f}
        ctx['asg'], ctx['adr'] = self.scan(d)
        self.cur = ctx
        self.params_why = []
        head = []
        rq = d['type']['qualType'].split('(')[0].strip()
        self.ret_ct = tu.ctype(rq)
        if self.ret_ct[0] == 'ptr': self.ret_reg = self.root(('result',), 'res', 4)
        else: self.ret_reg = None
        self.paraminfo = []
        for p in self.params(d):
            nm = p.get('name')
            ct = tu.ctype(self.spec.get('ptypes', {}).get(nm, p['type']['qualType']))
            if ct[0] == 'arr': ct = ('ptr', ct[1])
            if ct[0] == 'ptr' and ct[1][0] == 'struct' and ct[1][1] in self.singletons:
                if nm: ctx['env'][p['id']] = ('single', ct[1][1])
                self.paraminfo.append((nm, ct, None, True)); continue
            if nm is None: nm = 'unused%d' % len(self.paraminfo)
            w = self.fresh_name(nm)
            reg = self.root(('param', nm), nm, 1) if ct[0] == 'ptr' else None
            self.paraminfo.append((w, ct, reg, False))
            self.params_why.append((w, why_t(ct)))
            if p['id'] in ctx['asg'] or p['id'] in ctx['adr']:
                head.append('let ref %s = %s in' % (w, w))
                ctx['env'][p['id']] = ('var', w, ct, reg, True)
            else:
                ctx['env'][p['id']] = ('var', w, ct, reg, False)
            self.locals[w] = (ct, reg)
        self.hoisted = []
        items = []
        self.items = items
        self.hook('entry')
        self.items = []
        body_items = self.items
        self.compound([c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0])
        ishead = head
        out = ishead + self.hoisted + items + body_items
        self.items = []
        if self.ret_ct[0] == 'void':
            self.hook('exit')
            self.items.append('check { [@expl:VACUITY exit] false }')
            out += self.items
        else:
            out += ['absurd' if False else '(any %s)' % why_t(self.ret_ct)]
        return self.seq(out, unit=self.ret_ct[0] == 'void')

    def seq(self, items, unit=True):
        """items -> text"""
        if not items: return '()'
        out = []
        for i, it in enumerate(items):
            last = i == len(items) - 1
            if it.endswith(' in'):
                out.append(it + (' ()' if last else ''))
            else:
                out.append(it + ('' if last else ';'))
        return '\n'.join(out)

    # ---- hooks (ghost code / lemma calls from the specification)
    def hook(self, point, k=None):
        key = (point, k)
        code = self.spec.get('hooks', {}).get(key)
        if code:
            self.uses_hooks.add(key)
            for c in code: self.items.append(self.pp(c).rstrip(';'))

    # ---- statements
    def compound(self, n):
        inner = n.get('inner', []) or []
        labs = [(i, c) for i, c in enumerate(inner) if c['kind'] == 'LabelStmt']
        if not labs:
            for c in inner: self.stmt(c)
            return
        # forward jumps to a label of this block: everything before the label may be left early
        i, c = labs[-1]
        self.exn += 1; ex = 'Goto%d' % self.exn
        self.cur.setdefault('labels', {})[c['declId']] = (ex, [False])
        save = self.items; self.items = []
        self.compound({'inner': inner[:i]})
        body = self.items; self.items = save
        if self.cur['labels'][c['declId']][1][0]: self.items.append('begin exception %s in try\n%s\nwith %s -> () end end' % (ex, self.seq(body), ex))
        else: self.items += body
        del self.cur['labels'][c['declId']]
        self.hook('label', c['name'])
        self.stmt(c['inner'][0])
        for c in inner[i + 1:]: self.stmt(c)

    def block(self, fn):
        save = self.items; self.items = []
        fn()
        r = self.items; self.items = save
        return 'begin\n' + self.seq(r) + '\nend' if r else '()'

    def stmt(self, n):
        k = n['kind']
        if k == 'CompoundStmt': self.compound(n)
        elif k == 'NullStmt': pass
        elif k == 'DeclStmt':
            for c in n['inner']:
                if c['kind'] == 'VarDecl': self.vardecl(c)
                elif c['kind'] in ('RecordDecl','TypedefDecl','EnumDecl','StaticAssertDecl'): raise Unsupported('local type') if c['kind']=='RecordDecl' else None
        elif k == 'IfStmt': self.ifstmt(n)
        elif k == 'WhileStmt': self.loop('while', n['inner'][0], None, n['inner'][1])
        elif k == 'DoStmt': self.loop('do', n['inner'][1], None, n['inner'][0])
        elif k == 'ForStmt':
            init, var, cond, inc, body = n['inner']
            if init.get('kind'): self.stmt(init)
            self.loop('for', cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
        elif k == 'BreakStmt':
            b = self.cur['brk'][-1]
            if b[0] == 'loop': self.hook('at', 'break'); self.items.append('break')
            else: b[2][0] = True; self.items.append('raise %s' % b[1])
        elif k == 'ContinueStmt':
            self.hook('at', 'continue')
            c = self.cur['cont'][-1]
            if c[0] == 'loop': self.items.append('continue')
            else: c[2][0] = True; self.items.append('raise %s' % c[1])
        elif k == 'ReturnStmt': self.ret(n)
        elif k == 'SwitchStmt': self.switch(n)
        elif k == 'GotoStmt':
            l = self.cur.get('labels', {}).get(n['targetLabelDeclId'])
            if l is None: raise Unsupported('goto other than forward to an enclosing block')
            self.hook('at', 'goto'); l[1][0] = True; self.items.append('raise %s' % l[0])
        elif k in ('LabelStmt','AsmStmt'): raise Unsupported(k)
        elif k == 'AttributedStmt': self.stmt(n['inner'][-1])
        elif k in ('CaseStmt','DefaultStmt'): raise Unsupported('case outside switch')
        else:
            self.expr(n, void=True)

    def ret(self, n):
        v = None
        inner = n.get('inner') or []
        if inner:
            e = self.expr(inner[0])
            if self.cur['ret'] is None:
                if self.ret_ct[0] == 'ptr' and e.reg is not None: unify(e.reg, self.ret_reg)
                v = self.conv(e, self.ret_ct)
            else:
                if self.cur['ret'][2] is not None and e.reg is not None: unify(e.reg, self.cur['ret'][2])
                v = self.conv(e, self.cur['ret'][1])
        if self.cur['ret'] is None:
            self.hook('exit')
            if v is not None and self.spec.get('hooks', {}).get(('at', 'return')):
                self.items.append('let ret_ = %s in' % v); self.hook('at', 'return'); v = 'ret_'
            if v is not None and not re.match(r'^\w+$', v):
                t = self.newtmp(); self.items.append('let %s = %s in' % (t, v)); v = t
            self.items.append('return %s' % (v if v is not None else '()'))
        else:
            r = self.cur['ret']; r[3][0] = True
            self.items.append('raise %s' % (r[0] if v is None else '(%s (%s))' % (r[0], v)))

    def vardecl(self, c):
        ct = self.tu.ctype(c['type']['qualType'])
        if c.get('storageClass') == 'static':
            nm = 'st_' + self.cur['fname'] + '_' + c['name']
            reg = self.root(('glob', nm), nm, 2) if ct[0] in ('ptr','arr') else None
            self.cur['env'][c['id']] = ('glob', nm, ct, reg)
            if ct[0] not in ('arr', 'struct'): self.globs[nm] = why_t(ct)
            else: self.globs[nm] = 'int'
            return
        nm = self.fresh_name(c['name'])
        adr = c['id'] in self.cur['adr']
        if ct[0] in ('arr','struct') or adr:
            # storage with an address: a fresh block
            reg = self.root(('local', nm), nm, 3)
            if ct[0] == 'arr':
                ect = ct[1]; cnt = ct[2] or 1
                self.cur['env'][c['id']] = ('arr', nm, ect, reg)
                self.locals[nm] = (('ptr', ect), reg)
            else:
                ect = ct; cnt = 1
                self.cur['env'][c['id']] = ('boxed', nm, ct, reg)
                self.locals[nm] = (('ptr', ct), reg)
            self.hoisted.append('let ref %s = any int in' % nm)
            self.alloc(nm, reg, ect, str(cnt), False)
            if c.get('inner'):
                init = c['inner'][-1]
                if strip(init)['kind'] == 'InitListExpr': raise Unsupported('initializer list')
                if ct[0] == 'arr': raise Unsupported('array initializer')
                v = self.expr(init)
                if ct[0] == 'ptr' and v.reg is not None: unify(v.reg, reg.pointee())
                self.store(LV('cell', ct, reg=reg, addr=nm), self.conv(v, ct))
            return
        reg = self.root(('local', nm), nm, 3) if ct[0] == 'ptr' else None
        self.cur['env'][c['id']] = ('var', nm, ct, reg, True)
        self.locals[nm] = (ct, reg)
        self.hoisted.append('let ref %s = any %s in' % (nm, why_t(ct)))
        if c.get('inner'):
            v = self.expr(c['inner'][-1])
            if reg is not None and v.reg is not None: unify(reg, v.reg)
            self.items.append('%s <- %s' % (nm, self.conv(v, ct)))

    def ifstmt(self, n):
        inner = n['inner']
        c = self.cond(inner[0])
        if c in ('true', 'false'):
            if c == 'true': self.stmt(inner[1])
            elif len(inner) > 2: self.stmt(inner[2])
            return
        a = self.block(lambda: self.stmt(inner[1]))
        b = self.block(lambda: self.stmt(inner[2])) if len(inner) > 2 else None
        if a == '()' and (b is None or b == '()'):
            return
        self.items.append('if %s then %s%s' % (c, a, '' if b is None else ' else ' + b))

    def loop(self, kind, cond, inc, body):
        if kind == 'do' and cond is not None:
            cv = self.const(cond)
            if cv == 0 and not self.has_loop_jump(body):
                self.stmt(body); return
        if cond is not None and kind != 'do' and self.const(cond) == 0: return
        self.loopn += 1; k = self.loopn
        self.loops_info.append((k, self.cur['fname'], kind))
        self.hook('before', k)
        self.items.append('label L%d in' % k)
        save = self.items; self.items = []
        self.items.append('check { [@expl:VACUITY loop %d] false }' % k)
        self.hook('start', k)
        if kind != 'do' and cond is not None and self.const(cond) is None:
            c = self.cond(cond)
            self.items.append('if not %s then break' % c)
        self.hook('body', k)
        flag = [False]
        need_exn = kind == 'do' or inc is not None
        self.exn += 1; ex = 'Cont%d' % self.exn
        self.cur['brk'].append(('loop',))
        self.cur['cont'].append(('exn', ex, flag) if need_exn else ('loop',))
        s2 = self.items; self.items = []
        self.stmt(body)
        bi = self.items; self.items = s2
        if flag[0]:
            self.items.append('begin exception %s in try\n%s\nwith %s -> () end end' % (ex, self.seq(bi), ex))
        else: self.items += bi
        self.cur['brk'].pop(); self.cur['cont'].pop()
        self.hook('after_body', k)
        if inc is not None: self.expr(inc, void=True)
        self.hook('end', k)
        if kind == 'do':
            cv = self.const(cond)
            if cv is None: self.items.append('if not %s then break' % self.cond(cond))
            elif cv == 0: self.items.append('break')
        b = self.seq(self.items)
        self.items = save
        sp = self.spec.get('loops', {}).get(k, {})
        inv = []
        for nm, t in sp.get('inv', []):
            inv.append('invariant { [@expl:loop %d: %s] %s }' % (k, nm, self.pp(t)))
        if sp.get('var'): inv.append('variant { %s }' % self.pp(sp['var']))
        else: self.diverges = True
        self.items.append('while true do\n%s\n%s\ndone' % ('\n'.join(inv), b))
        self.hook('after', k)

    def has_loop_jump(self, n):
        k = n.get('kind')
        if k in ('BreakStmt','ContinueStmt'): return True
        if k in ('WhileStmt','ForStmt','DoStmt','SwitchStmt'):
            return False
        return any(self.has_loop_jump(c) for c in n.get('inner', []) or [] if isinstance(c, dict))

    def switch(self, n):
        v = self.expr(n['inner'][0])
        t = self.newtmp(); self.items.append('let %s = %s in' % (t, self.conv(v, ('int',))))
        body = n['inner'][-1]
        groups = []   # (labels or None, stmts)
        def add(s):
            labels = []
            while s['kind'] in ('CaseStmt','DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    cv = self.const(s['inner'][0])
                    if cv is None: raise Unsupported('case label')
                    labels.append(cv); s = s['inner'][-1]
                else:
                    labels.append(None); s = s['inner'][-1]
            if labels: groups.append((labels, []))
            if not groups: raise Unsupported('switch prologue')
            groups[-1][1].append(s)
        for s in body.get('inner', []): add(s)
        self.exn += 1; ex = 'Brk%d' % self.exn; flag = [False]
        def ends(stmts):
            if not stmts: return None
            l = stmts[-1]
            if l['kind'] == 'CompoundStmt': return ends(l.get('inner', []))
            return l['kind'] in ('BreakStmt','ReturnStmt','ContinueStmt','GotoStmt')
        self.cur['brk'].append(('exn', ex, flag))
        def emit(i):
            """statements from group i including fallthrough"""
            for j in range(i, len(groups)):
                st = groups[j][1]
                e = ends(st)
                if e and st[-1]['kind'] == 'BreakStmt':
                    for s in st[:-1]: self.stmt(s)
                    return
                for s in st: self.stmt(s)
                if e: return
        branches = []; default = '()'
        for i, (labels, st) in enumerate(groups):
            b = self.block(lambda: emit(i))
            ls = [l for l in labels if l is not None]
            if None in labels: default = b
            else: branches.append(('(' + ' || '.join('%s = (%d)' % (t, l) for l in ls) + ')', b))
        self.cur['brk'].pop()
        txt = ''
        for c, b in branches: txt += 'if %s then %s else ' % (c, b)
        txt += default
        if flag[0]: txt = 'begin exception %s in try\n%s\nwith %s -> () end end' % (ex, txt, ex)
        self.items.append(txt)

    # ---- constants
    def sizeof(self, ct):
        if ct[0] in ('word', 'ptr'): return 8
        if ct[0] == 'arr': return ct[2] * self.sizeof(ct[1])
        return None
    def sizeof_q(self, q):
        q = q.replace('const ', '').strip()
        S = {'char':1,'unsigned char':1,'int':4,'unsigned int':4,'unsigned':4,'long':8,'unsigned long':8,'size_t':8,'bitword_t':8,'short':2,'Value_t':4,'Index_t':4}
        if q in S: return S[q]
        m = re.match(r'^(.*)\[(\d+)\]$', q)
        if m:
            s = self.sizeof_q(m.group(1).strip())
            return None if s is None else s * int(m.group(2))
        if q.endswith('*'): return 8
        return None
    def const(self, n):
        n = strip(n)
        k = n['kind']
        if k == 'IntegerLiteral': return int(n['value'])
        if k == 'CharacterLiteral': return int(n['value'])
        if k == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'EnumConstantDecl':
            return self.tu.enums.get(n['referencedDecl']['name'])
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            q = n['argType']['qualType'] if 'argType' in n else n['inner'][0]['type']['qualType']
            return self.sizeof_q(q)
        if k == 'UnaryOperator' and n['opcode'] in '-~+!':
            v = self.const(n['inner'][0])
            if v is None: return None
            return {'-': -v, '~': ~v, '+': v, '!': int(not v)}[n['opcode']]
        if k == 'BinaryOperator':
            a = self.const(n['inner'][0])
            b = self.const(n['inner'][1])
            if a is None or b is None: return None
            op = n['opcode']
            try:
                return {'+': lambda: a+b, '-': lambda: a-b, '*': lambda: a*b, '/': lambda: int(a/b), '%': lambda: a-b*int(a/b), '<<': lambda: a<<b,
                    '>>': lambda: a>>b, '&': lambda: a&b, '|': lambda: a|b, '==': lambda: int(a==b), '!=': lambda: int(a!=b),
                    '<': lambda: int(a<b), '>': lambda: int(a>b), '<=': lambda: int(a<=b), '>=': lambda: int(a>=b),
                    '&&': lambda: int(bool(a and b)), '||': lambda: int(bool(a or b))}[op]()
            except (KeyError, ZeroDivisionError): return None
        return None

    # ---- expressions
    def conv(self, v, ct):
        """text of v as a value of C type ct"""
        if ct is not None and ct[0] == 'word':
            if v.k == 'word': return v.t
            if v.t in ('0', '(0)'): return 'wzero'
            if v.k == 'int' and re.match(r'^\(?1\)?$', v.t): return '(wone 0)'
            raise Unsupported('int to word: ' + v.t)
        if v.k == 'bool':
            if v.t == 'true': return '1'
            if v.t == 'false': return '0'
            return '(if %s then 1 else 0)' % v.t
        if v.k == 'word':
            raise Unsupported('word to int')
        return v.t
    def asint(self, v): return self.conv(v, ('int',))
    def cond(self, n):
        v = self.expr(n)
        return self.asbool(v)
    def asbool(self, v):
        if v.k == 'bool': return v.t
        if v.k == 'word': return '(wnz %s)' % v.t
        if re.match(r'^\(?-?\d+\)?$', v.t): return 'false' if int(v.t.strip('()')) == 0 else 'true'
        return '(%s <> 0)' % v.t

    def env(self, id): return self.cur['env'].get(id)

    def lvalue(self, n):
        n = n
        k = n['kind']
        if k == 'ParenExpr': return self.lvalue(n['inner'][0])
        if k in ('ImplicitCastExpr','CStyleCastExpr') :
            return self.lvalue(n['inner'][-1])
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            e = self.env(r['id'])
            if e is None:
                if r['kind'] == 'VarDecl':
                    ct = self.tu.ctype(r['type']['qualType'])
                    nm = 'g_' + r['name']
                    if ct[0] in ('arr', 'struct'):
                        reg = self.root(('glob', nm), nm, 2)
                        self.globs[nm] = 'int'
                        if ct[0] == 'arr': return LV('array', ct, reg=reg, addr=nm)
                        return LV('struct', ct, reg=reg, path='', addr=nm)
                    self.globs[nm] = why_t(ct)
                    return LV('glob', ct, name=nm, reg=self.root(('glob', nm), nm, 2) if ct[0] == 'ptr' else None)
                raise Unsupported('decl ref ' + r['name'])
            if e[0] == 'single': raise Unsupported('singleton pointer as lvalue')
            if e[0] == 'var': return LV('var', e[2], name=e[1], reg=e[3])
            if e[0] == 'glob':
                if e[2][0] == 'arr': return LV('array', e[2], reg=e[3], addr=e[1])
                return LV('glob', e[2], name=e[1], reg=e[3])
            if e[0] == 'arr': return LV('array', ('arr', e[2], 0), reg=e[3], addr=e[1])
            if e[0] == 'boxed':
                if e[2][0] == 'struct': return LV('struct', e[2], reg=e[3], path='', addr=e[1])
                return LV('cell', e[2], reg=e[3], addr=e[1])
            raise Unsupported(str(e[0]))
        if k == 'MemberExpr':
            base = n['inner'][0]; f = n.get('name') or '_anon'
            if n.get('isArrow'):
                b = strip(base)
                if b['kind'] == 'DeclRefExpr':
                    e = self.env(b['referencedDecl']['id'])
                    if e and e[0] == 'single':
                        return self.single_field(e[1], f)
                v = self.expr(base)
                if v.k == 'single': return self.single_field(v.t, f)
                bt = v.ct
                if bt is None or bt[0] != 'ptr' or bt[1][0] != 'struct': raise Unsupported('-> on %s' % (bt,))
                if bt[1][1] in self.singletons: return self.single_field(bt[1][1], f)
                return self.member(LV('struct', bt[1], reg=v.reg, path='', addr=v.t), f)
            l = self.lvalue(base)
            return self.member(l, f)
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            bv = self.expr(b); iv = self.expr(i)
            if bv.ct is None or bv.ct[0] != 'ptr': bv, iv = iv, bv
            return self.deref(bv, self.add(bv.t, self.asint(iv)))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            nx = self.next_at(n['inner'][0])
            if nx is not None:
                v = self.expr(nx); unify(v.reg.field('nx'), v.reg)
                return LV('field', ('ptr', v.ct[1]), reg=v.reg, path='nx', addr=v.t)
            v = self.expr(n['inner'][0])
            return self.deref(v, v.t)
        raise Unsupported('lvalue ' + k)

    def next_at(self, n):
        """X in *(T**)((char*)X + d), where d is the variable named by 'opt nextat d': the link field of the node X"""
        d = self.spec.get('nextat')
        if not d: return None
        n = strip(n)
        if n['kind'] != 'BinaryOperator' or n['opcode'] != '+': return None
        a, b = n['inner']; b = strip(b)
        if b['kind'] == 'DeclRefExpr' and b['referencedDecl']['name'] == d: return a
        return None

    def single_field(self, rec, f):
        ct = self.tu.field(rec, f)
        pre = self.singletons[rec]
        nm = pre + f
        if ct[0] == 'arr':
            self.globs[nm] = 'int'
            return LV('array', ct, reg=self.root(('glob', nm), f, 2), addr=nm)
        if ct[0] == 'struct':
            self.globs[nm] = 'int'
            return LV('struct', ct, reg=self.root(('glob', nm), f, 2), path='', addr=nm)
        self.globs[nm] = why_t(ct)
        return LV('glob', ct, name=nm, reg=self.root(('glob', nm), f, 2) if ct[0] == 'ptr' else None)

    def member(self, l, f):
        if l.kind != 'struct': raise Unsupported('member of ' + l.kind)
        ct = self.tu.field(l.ct[1], f)
        path = f if not l.path else l.path + '_' + f
        if ct[0] == 'struct': return LV('struct', ct, reg=l.reg, path=path, addr=l.addr)
        if ct[0] == 'arr':
            h = self.heap_field(l.reg, path, ('abase', ct))
            return LV('array', ct, reg=l.reg.field(path), addr='%s[%s]' % (h, l.addr))
        return LV('field', ct, reg=l.reg, path=path, addr=l.addr)

    def deref(self, v, addr):
        if v.ct is None or v.ct[0] != 'ptr': raise Unsupported('deref of non-pointer')
        t = v.ct[1]
        if v.reg is None: raise Unsupported('pointer without region')
        if t[0] == 'struct': return LV('struct', t, reg=v.reg, path='', addr=addr)
        if t[0] == 'arr': raise Unsupported('pointer to array')
        if t[0] in ('fn', 'void'): raise Unsupported('deref ' + t[0])
        self.boundcheck(v.reg, addr)
        return LV('cell', t, reg=v.reg, addr=addr)

    def boundcheck(self, reg, addr):
        b = self.spec.get('bounds')
        if not b: return
        for rootexpr, text in b.items():
            r = self.resolve_reg(rootexpr)
            if r is not None and r.find() is reg.find():
                t = self.freeze(addr)
                self.items.append('assert { [@expl:bounds of %s] let a_ = %s in %s }' % (rootexpr, t, self.pp(text)))

    def resolve_reg(self, e):
        try: return self.path_type(e)[2]
        except (Unsupported, KeyError): return None

    def load(self, l):
        k = l.kind; ct = l.ct
        if k == 'field' and l.path in str(self.spec.get('deadfields', '')).split(): raise Unsupported('read of a field declared unread')
        kk = 'word' if ct[0] == 'word' else 'int'
        if k == 'glob' and l.name in self.spec.get('consts', {}): return V(self.spec['consts'][l.name], kk, ct, l.reg)    # fixed by a precondition (added in build)
        if k in ('var', 'glob'): return V(l.name, kk, ct, l.reg)
        if k == 'cell':
            h = self.heap_cell(l.reg, ct)
            al = self.alias_of(l.reg)
            if al:
                g = self.heap_field(*al)
                return V('(if %s < 0 then %s[- %s] else %s[%s])' % (l.addr, g, l.addr, h, l.addr), kk, ct, l.reg.pointee() if ct[0] == 'ptr' else None)
            return V('%s[%s]' % (h, l.addr), kk, ct, l.reg.pointee() if ct[0] == 'ptr' else None)
        if k == 'field':
            h = self.heap_field(l.reg, l.path, ct)
            return V('%s[%s]' % (h, l.addr), kk, ct, l.reg.field(l.path) if ct[0] == 'ptr' else None)
        if k == 'array': return V(l.addr, 'int', ('ptr', l.ct[1]), l.reg)
        if k == 'struct': return V(l.addr, 'struct', l.ct, l.reg, l)
        raise Unsupported('load ' + k)

    def alias_of(self, reg):
        al = []
        for r, p, t in reg.find().alias:
            if not any(x[0].find() is r.find() and x[1] == p for x in al): al.append((r, p, t))
        if len(al) > 1 and self.pass_no == 3: raise Unsupported('pointer to several fields: %s' % [(x[0].find().name, x[1]) for x in al])
        return al[0] if al else None

    def lv_pointee(self, l):
        if l.ct[0] != 'ptr': return None
        if l.kind in ('var','glob'): return l.reg
        if l.kind == 'cell': return l.reg.pointee()
        if l.kind == 'field': return l.reg.field(l.path)
        return None

    def store(self, l, text):
        k = l.kind
        if k == 'var': self.items.append('%s <- %s' % (l.name, text))
        elif k == 'glob' and l.name in self.spec.get('consts', {}): raise Unsupported('write to a field assumed constant')
        elif k == 'glob':
            self.effects.add(('glob', l.name)); self.items.append('%s <- %s' % (l.name, text))
        elif k == 'cell' and self.alias_of(l.reg):
            al = self.alias_of(l.reg); a = self.freeze(l.addr); v = self.freeze(text)
            h = self.heap_cell(l.reg, l.ct); g = self.heap_field(*al)
            self.effects.add(('cell', l.reg, why_t(l.ct))); self.effects.add(('field', al[0], al[1], al[2]))
            self.items.append('if %s < 0 then %s <- mset %s (- %s) %s else %s <- mset %s %s %s' % (a, g, g, a, v, h, h, a, v))
        elif k == 'cell':
            h = self.heap_cell(l.reg, l.ct); self.effects.add(('cell', l.reg, why_t(l.ct)))
            self.items.append('%s <- mset %s (%s) (%s)' % (h, h, l.addr, text))
        elif k == 'field':
            h = self.heap_field(l.reg, l.path, l.ct); self.effects.add(('field', l.reg, l.path, l.ct))
            self.items.append('%s <- mset %s (%s) (%s)' % (h, h, l.addr, text))
        else: raise Unsupported('store ' + k)
        nm = self.lvname(l); self.hook('store', nm)
        self.callanchors['=' + nm] = self.callanchors.get('=' + nm, 0) + 1
        self.hook('store', '%s#%d' % (nm, self.callanchors['=' + nm]))

    def lvname(self, l):
        if l.kind in ('var','glob'): return l.name
        if l.kind == 'cell': return 'm_' + self.rname(l.reg)
        return '->' + l.path

    def freeze(self, text):
        if re.match(r'^\(?-?\d+\)?$', text): return text
        t = self.newtmp()
        self.items.append('let %s = %s in' % (t, text))
        return t

    def add(self, a, b):
        if b in ('0', '(0)'): return a
        return '(off %s %s)' % (a, b)

    def expr(self, n, void=False):
        k = n['kind']
        c = self.const(n) if k not in ('ParenExpr','ImplicitCastExpr','CStyleCastExpr') else None
        if c is not None:
            return V(str(c) if c >= 0 else '(%d)' % c, 'int', ('int',))
        if k in ('ParenExpr', 'ConstantExpr'): return self.expr(n['inner'][0], void)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'): return self.cast(n, void)
        if k == 'StringLiteral':
            s = n['value']
            nm = self.strlits.setdefault(s, 'str_%d' % (len(self.strlits) + 1))
            self.globs[nm] = 'int'
            reg = self.root(('str', s), 'strlit', 4)
            if self.spec.get('strlits'):
                h = self.heap_cell(reg, ('int',)); txt = list(json.loads(s).encode()) + [0]
                self.items.append('assume { %s > 0 /\\ %s }' % (nm, ' /\\ '.join('%s[off %s %d] = %d' % (h, nm, k, x) for k, x in enumerate(txt))))
            return V(nm, 'int', ('ptr', ('int',)), reg)
        if k in ('DeclRefExpr',):
            r = n['referencedDecl']
            if r['kind'] == 'FunctionDecl': return V('0', 'int', ('ptr', ('fn',)), None)
            e = self.env(r['id'])
            if e and e[0] == 'single': return V(e[1], 'single', ('ptr', ('struct', e[1])))
            return self.load(self.lvalue(n))
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.load(self.lvalue(n))
        if k == 'UnaryOperator': return self.unary(n, void)
        if k == 'BinaryOperator': return self.binary(n, void)
        if k == 'CompoundAssignOperator': return self.compound_assign(n, void)
        if k == 'ConditionalOperator': return self.ternary(n, void)
        if k == 'CallExpr': return self.call(n, void)
        if k == 'StmtExpr':
            if void:
                self.stmt(n['inner'][0]); return V('()', 'unit')
            raise Unsupported(k)
        if k == 'PredefinedExpr': return V('0', 'int', ('ptr', ('int',)), Region('null', 99))
        raise Unsupported('expr ' + k)

    def cast(self, n, void):
        sub = n['inner'][-1]
        ck = n.get('castKind')
        if ck == 'ToVoid':
            self.expr(sub, True); return V('()', 'unit')
        if ck == 'NullToPointer':
            ct = self.tu.ctype(n['type']['qualType'])
            self.tmp += 1
            return V('0', 'int', ct, Region('null', 99))
        ct = self.tu.ctype(n['type']['qualType'])
        s = strip(sub)
        if ct[0] == 'ptr' and ct[1][0] != 'void' and s['kind'] == 'CallExpr':
            fn = strip(s['inner'][0])
            if fn.get('kind') == 'DeclRefExpr' and fn['referencedDecl']['name'] in ALLOC | {'realloc','lemon_realloc'}:
                return self.alloc_call(s, fn['referencedDecl']['name'], ct)
        v = self.expr(sub, void)
        if ck in ('BitCast',) and v.ct and v.ct[0] == 'ptr' and ct[0] == 'ptr':
            return V(v.t, v.k, ct if ct[1][0] != 'void' else v.ct, v.reg)
        if ck == 'IntegralCast' or ck in ('NoOp','LValueToRValue','ArrayToPointerDecay','FunctionToPointerDecay','IntegralToBoolean','PointerToIntegral','PointerToBoolean', 'BuiltinFnToFnPtr'):
            if ck == 'IntegralCast' and self.spec.get('chars') and v.k in ('int', 'bool'):
                q = n['type'].get('desugaredQualType', n['type']['qualType']).replace('const ', '').strip()
                w = {'char': 'sch', 'signed char': 'sch', 'unsigned char': 'uch'}.get(q)
                if w and self.const(n) is None: return V('(%s %s)' % (w, self.asint(v)), 'int', ct)
            if ck == 'IntegralCast' and ct[0] == 'uint' and self.spec.get('wrap') and v.k == 'int':
                return V(v.t, v.k, ct)
            return v
        return v

    def unary(self, n, void):
        op = n['opcode']; sub = n['inner'][0]
        if op == '*': return self.load(self.lvalue(n))
        if op == '&':
            s = strip(sub)
            l = self.lvalue(sub)
            if l.kind == 'cell': return V(l.addr, 'int', ('ptr', l.ct), l.reg)
            if l.kind == 'struct' and not l.path: return V(l.addr, 'int', ('ptr', l.ct), l.reg)
            if l.kind == 'array': return V(l.addr, 'int', ('ptr', l.ct[1]), l.reg)
            if l.kind == 'field':
                ar = l.reg.field('addr_of_' + l.path)
                self.heap_field(l.reg, l.path, l.ct)
                if not any(y[0].find() is l.reg.find() and y[1] == l.path for y in ar.alias): ar.alias.append((l.reg, l.path, l.ct))
                if l.ct[0] == 'ptr': unify(ar.pointee(), l.reg.field(l.path))
                return V('(- %s)' % l.addr, 'int', ('ptr', l.ct), ar)
            raise Unsupported('address of ' + l.kind)
        if op == '!': return V('(not %s)' % self.cond(sub), 'bool', ('int',))
        if op == '-': return V('(- %s)' % self.asint(self.expr(sub)), 'int', ('int',))
        if op == '+' or op == '__extension__': return self.expr(sub, void)
        if op == '~':
            v = self.expr(sub)
            if v.k == 'word': return V('(wnot %s)' % v.t, 'word', ('word',))
            return V('(- 1 - %s)' % self.asint(v), 'int', ('int',))
        if op in ('++', '--'):
            l = self.freeze_lv(self.lvalue(sub))
            v = self.load(l)
            o = '+' if op == '++' else '-'
            if v.k == 'word': raise Unsupported('word ++')
            if void:
                self.store(l, '%s %s 1' % (v.t, o)); return V('()', 'unit')
            if n.get('isPostfix'):
                t = self.freeze(v.t)
                self.store(l, '%s %s 1' % (t, o))
                return V(t, v.k, v.ct, v.reg)
            self.store(l, '%s %s 1' % (v.t, o))
            t = self.freeze(self.load(l).t)
            return V(t, v.k, v.ct, v.reg)
        raise Unsupported('unary ' + op)

    def freeze_lv(self, l):
        if l.kind in ('cell', 'field', 'struct') and not re.match(r'^\w+$', l.addr):
            return LV(l.kind, l.ct, l.name, l.reg, l.path, self.freeze(l.addr))
        return l

    CTYPE = {256: 'upper', 512: 'lower', 1024: 'alpha', 2048: 'digit', 4096: 'xdigit', 8192: 'space', 16384: 'print', 32768: 'graph', 1: 'blank', 2: 'cntrl', 4: 'punct', 8: 'alnum'}
    def ctype_test(self, a, b):
        """(*__ctype_b_loc())[c] & mask, the expansion of isdigit and friends"""
        m = self.const(b); x = strip(a)
        if m not in self.CTYPE or x['kind'] != 'ArraySubscriptExpr': return None
        y = strip(x['inner'][0])
        if y['kind'] != 'UnaryOperator' or y['opcode'] != '*': return None
        y = strip(y['inner'][0])
        if y['kind'] != 'CallExpr' or strip(y['inner'][0]).get('referencedDecl', {}).get('name') != '__ctype_b_loc': return None
        v = self.expr(x['inner'][1])
        return V('(ct_%s %s)' % (self.CTYPE[m], self.asint(v)), 'int', ('int',))

    def binary(self, n, void):
        op = n['opcode']; a, b = n['inner']
        if op == ',':
            self.expr(a, True); return self.expr(b, void)
        if op == '=': return self.assign(n, void)
        if op in ('&&', '||'):
            x = self.cond(a)
            save = self.items; self.items = []
            y = self.cond(b)
            it = self.items; self.items = save
            if not it:
                if op == '&&' and 'false' in (x, y): return V('false', 'bool', ('int',))
                if op == '||' and x == 'true': return V('true', 'bool', ('int',))
                return V('(%s %s %s)' % (x, op, y), 'bool', ('int',))
            blk = self.seq(it + [y])
            t = self.newtmp()
            if op == '&&': self.items.append('let %s = if %s then begin %s end else false in' % (t, x, blk))
            else: self.items.append('let %s = if %s then true else begin %s end in' % (t, x, blk))
            return V(t, 'bool', ('int',))
        if op == '&':
            v = self.ctype_test(a, b)
            if v: return v
        va = self.expr(a)
        mark = len(self.items)
        vb = self.expr(b)
        if len(self.items) > mark and not re.match(r'^\(?-?\w+\)?$', va.t) and va.k in ('int','word','bool'):
            # b has side effects: keep the (C-unspecified) left-to-right value of a
            pass
        if op in ('==', '!='):
            if va.k == 'word' or vb.k == 'word':
                if vb.t in ('0',): return V(('(wnz %s)' if op == '!=' else '(not (wnz %s))') % va.t, 'bool', ('int',))
                raise Unsupported('word equality')
            if va.reg is not None and vb.reg is not None and self.spec.get('cmp_unify', True): unify(va.reg, vb.reg)
            return V('(%s %s %s)' % (self.asint(va), '=' if op == '==' else '<>', self.asint(vb)), 'bool', ('int',))
        if op in ('<', '>', '<=', '>='):
            if va.reg is not None and vb.reg is not None: unify(va.reg, vb.reg)
            return V('(%s %s %s)' % (self.asint(va), op, self.asint(vb)), 'bool', ('int',))
        return self.arith(op, va, vb, n)

    def arith(self, op, va, vb, n):
        if op in ('&', '|') and (va.k == 'word' or vb.k == 'word'):
            if op == '&' and vb.t == '1' and va.k == 'word':
                m = re.match(r'^\(wshr (.*)\)$', va.t)
                if m and va.lv: return V('(wbit %s %s)' % va.lv, 'bool', ('int',))
                return V('(wbit %s 0)' % va.t, 'bool', ('int',))
            return V('(%s %s %s)' % ('wand' if op == '&' else 'wor', self.conv(va, ('word',)), self.conv(vb, ('word',))), 'word', ('word',))
        if op == '^' and va.k == 'word': raise Unsupported('word xor')
        if op == '<<':
            if va.k == 'word':
                m = re.match(r'^\(wone (.*)\)$', va.t)
                if va.lv: pass
                return V('(wshl %s %s)' % (va.t, self.asint(vb)), 'word', ('word',))
            q = n['type'].get('desugaredQualType', n['type']['qualType'])
            if va.t == '1' and q == 'unsigned long':
                return V('(wone %s)' % self.asint(vb), 'word', ('word',))
            cv = self.int_of(vb)
            if cv is not None: return V('(%s * %d)' % (self.asint(va), 2 ** cv), 'int', ('int',))
            return V('(cshl %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '>>':
            if va.k == 'word':
                return V('(wshr %s %s)' % (va.t, self.asint(vb)), 'word', ('word',), None, (va.t, self.asint(vb)))
            cv = self.int_of(vb)
            if cv is not None: return V('(ediv %s %d)' % (self.asint(va), 2 ** cv), 'int', ('int',))
            raise Unsupported('>>')
        if op == '+':
            if va.ct and va.ct[0] == 'ptr': return V(self.add(va.t, self.asint(vb)), 'int', va.ct, va.reg)
            if vb.ct and vb.ct[0] == 'ptr': return V(self.add(vb.t, self.asint(va)), 'int', vb.ct, vb.reg)
            return V('(%s + %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '-':
            if va.ct and va.ct[0] == 'ptr' and not (vb.ct and vb.ct[0] == 'ptr'):
                return V('(%s - %s)' % (va.t, self.asint(vb)), 'int', va.ct, va.reg)
            if va.reg is not None and vb.reg is not None: unify(va.reg, vb.reg)
            return V('(%s - %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '*':
            if self.int_of(va) is not None or self.int_of(vb) is not None: return V('(%s * %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
            return V('(cmul %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '/': return V('(cdiv %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '%': return V('(cmod %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '&':
            for x, y in ((va, vb), (vb, va)):
                c = self.int_of(y)
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return V('(emod %s %d)' % (self.asint(x), c + 1), 'int', ('int',))
            return V('(band %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '|': return V('(bor %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        if op == '^': return V('(bxor %s %s)' % (self.asint(va), self.asint(vb)), 'int', ('int',))
        raise Unsupported('op ' + op)

    def int_of(self, v):
        try: return int(v.t.strip('()'))
        except ValueError: return None

    def assign(self, n, void):
        a, b = n['inner']
        dead = str(self.spec.get('deadfields', '')).split()
        if dead and strip(a)['kind'] == 'MemberExpr' and strip(a)['name'] in dead:   # stored but never read: the load below is refused
            if self.has_effect(a) or self.has_effect(b): raise Unsupported('side effect in a store to an unread field')
            return V('()', 'unit')
        # C leaves the order of lhs/rhs side effects unspecified; evaluate rhs first unless lhs has the side effects
        mark = len(self.items)
        v = self.expr(b)
        if v.k == 'struct':
            l = self.lvalue(a)
            self.struct_copy(l, v.lv); return V('()', 'unit')
        vt = v.t
        m2 = len(self.items)
        save = self.items; self.items = []
        l = self.lvalue(a)
        li = self.items; self.items = save
        if li and v.t and not re.match(r'^\(?-?\d+\)?$', v.t) and v.k in ('int','word','bool'):
            if v.k == 'bool': v = V(self.freeze(v.t), 'bool', v.ct, v.reg)
            else: v = V(self.freeze(v.t), v.k, v.ct, v.reg)
        self.items += li
        pr = self.lv_pointee(l)
        if pr is not None and v.reg is not None: unify(pr, v.reg)
        text = self.conv(v, l.ct)
        if not void:
            if not re.match(r'^\(?-?\w+\)?$', text) or l.kind != 'var' or True:
                text = self.freeze(text)
            l = self.freeze_lv(l)
        self.store(l, text)
        if void: return V('()', 'unit')
        return V(text, 'word' if l.ct[0] == 'word' else 'int', l.ct, pr)

    def all_fields(self, ct, path=''):
        out = []
        for f in self.tu.records[ct[1]]:
            t = self.tu.field(ct[1], f)
            p = f if not path else path + '_' + f
            if t[0] == 'struct': out += self.all_fields(t, p)
            elif t[0] == 'arr': raise Unsupported('struct copy with array')
            else: out.append((p, t))
        return out

    def struct_copy(self, l, r):
        l = self.freeze_lv(l); r = self.freeze_lv(r)
        for p, t in self.all_fields(l.ct):
            lp = (l.path + '_' if l.path else '') + p
            rp = (r.path + '_' if r.path else '') + p
            if t[0] == 'ptr': unify(l.reg.field(lp), r.reg.field(rp))
            self.store(LV('field', t, reg=l.reg, path=lp, addr=l.addr), self.load(LV('field', t, reg=r.reg, path=rp, addr=r.addr)).t)

    def compound_assign(self, n, void):
        a, b = n['inner']; op = n['opcode'][:-1]
        v = self.expr(b)
        mark = len(self.items)
        l = self.lvalue(a)
        l = self.freeze_lv(l)
        cur = self.load(l)
        r = self.arith(op, cur, v, n)
        self.store(l, self.conv(r, l.ct))
        if void: return V('()', 'unit')
        t = self.freeze(self.load(l).t)
        return V(t, 'word' if l.ct[0] == 'word' else 'int', l.ct, self.lv_pointee(l))

    def ternary(self, n, void):
        c, a, b = n['inner']
        x = self.cond(c)
        if x == 'true': return self.expr(a, void)
        if x == 'false': return self.expr(b, void)
        save = self.items
        self.items = []; va = self.expr(a, void); ia = self.items
        self.items = []; vb = self.expr(b, void); ib = self.items
        self.items = save
        if void or va.k == 'unit' or vb.k == 'unit':
            sa = [] if va.k != 'call' else [va.t]
            self.items.append('if %s then begin %s end else begin %s end' % (x, self.seq(ia + ['()']), self.seq(ib + ['()'])))
            return V('()', 'unit')
        if va.reg is not None and vb.reg is not None: unify(va.reg, vb.reg)
        reg = va.reg if va.reg is not None and va.reg.name != 'null' else vb.reg
        ct = va.ct if va.ct and va.ct[0] == 'ptr' else vb.ct
        if va.k == 'word' or vb.k == 'word': ta, tb, kk = self.conv(va, ('word',)), self.conv(vb, ('word',)), 'word'
        elif va.k == 'bool' and vb.k == 'bool': ta, tb, kk = va.t, vb.t, 'bool'
        else: ta, tb, kk = self.asint(va), self.asint(vb), 'int'
        if not ia and not ib:
            return V('(if %s then %s else %s)' % (x, ta, tb), kk, ct, reg)
        t = self.newtmp()
        self.items.append('let %s = if %s then begin %s end else begin %s end in' % (t, x, self.seq(ia + [ta]), self.seq(ib + [tb])))
        return V(t, kk, ct, reg)

    # ---- allocation
    def size_count(self, n, ect):
        """number of elements of type ect in a byte-size expression"""
        n = strip(n)
        def has_sizeof(x):
            x = strip(x)
            if x['kind'] == 'UnaryExprOrTypeTraitExpr': return True
            return any(has_sizeof(c) for c in x.get('inner', []) or [] if isinstance(c, dict) and 'kind' in c)
        if n['kind'] == 'UnaryExprOrTypeTraitExpr':
            at = (n.get('argType') or (strip(n['inner'][0]) if n.get('inner') else {}).get('type') or {}).get('qualType', '')
            m = re.search(r'\[(\d+)\]\s*$', at)
            if m:      # a whole array: its number of elements
                if at.count('[') > 1: raise Unsupported('sizeof of an array of arrays')
                return m.group(1)
            return '1'
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '*':
            a, b = n['inner']
            if strip(b)['kind'] == 'UnaryExprOrTypeTraitExpr': return self.asint(self.expr(a))
            if strip(a)['kind'] == 'UnaryExprOrTypeTraitExpr': return self.asint(self.expr(b))
            for x, y in ((a, b), (b, a)):
                if has_sizeof(x):
                    s = strip(x)
                    if s['kind'] == 'BinaryOperator' and s['opcode'] == '+':
                        raise Unsupported('allocation size')
                    return '(%s * %s)' % (self.size_count(x, ect), self.asint(self.expr(y)))
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '+' and ect[0] == 'struct' and has_sizeof(n['inner'][0]):
            s = strip(n['inner'][0])
            if s['kind'] == 'UnaryExprOrTypeTraitExpr':
                # sizeof(struct) + k * sizeof(elem): room for k more elements in the trailing array
                e2 = strip(n['inner'][1])
                if e2['kind'] == 'BinaryOperator' and e2['opcode'] == '*':
                    fs = self.tu.records.get(ect[1], {}); last = list(fs)[-1] if fs else None
                    lt = self.tu.field(ect[1], last) if last else None
                    if lt and lt[0] == 'arr':
                        self.flexcap = '%s + %d' % (self.size_count(e2, lt[1]), lt[2] or 0)
                return '1'
        if has_sizeof(n): raise Unsupported('allocation size')
        if ect[0] == 'struct': raise Unsupported('allocation size of struct')
        return self.asint(self.expr(n))

    def alloc_call(self, call, fn, ct):
        args = call['inner'][1:]
        ect = ct[1]
        self.tmp += 1
        if fn in ('realloc', 'lemon_realloc'):
            pv = self.expr(args[0]); cnt = self.size_count(args[1], ect)
            reg = pv.reg; brk = self.heap_brk(reg)
            ln = self.heap_len(reg)
            if ect[0] == 'struct':
                hs = []
                for pth, ft in sorted(reg.find().used_fields.items()):
                    if ft[0] == 'abase': raise Unsupported('realloc of structs with arrays')
                    hs.append(self.heap_field(reg, pth, ft)); self.effects.add(('field', reg, pth, ft))
            else: hs = [self.heap_cell(reg, ect)]; self.effects.add(('cell', reg, why_t(ect)))
            p = self.freeze(pv.t); cn = self.freeze(cnt); t = self.newtmp()
            self.effects.add(('brk', reg))
            self.valn += 1; nm = 'realloc_%d' % self.valn
            self.effects.add(('len', reg))
            cp = ''.join("""
  ensures { forall i_. (i_ < result \\/ i_ >= result + n) -> %s[i_] = (old %s)[i_] }
  ensures { p_ <> 0 -> forall i_. 0 <= i_ < n -> i_ < (old %s)[p_] -> %s[off result i_] = (old %s)[off p_ i_] }""" % (h, h, ln, h, h) for h in hs)
            self.vals.append('''val %s (p_: int) (n: int) : int
  writes { %s }
  ensures { result >= old %s /\\ result > 0 /\\ %s = result + (if n >= 0 then n else 0) /\\ %s >= old %s }
  ensures { %s = Map.set (old %s) result n }%s''' % (nm, ', '.join([brk] + hs + [ln]), brk, brk, brk, brk, ln, ln, cp))
            self.items.append('let %s = %s %s %s in' % (t, nm, p, cn))
            return V(t, 'int', ct, reg)
        if fn in ('calloc','lemon_calloc'):
            a0, a1 = args
            if strip(a1)['kind'] == 'UnaryExprOrTypeTraitExpr': cnt = self.asint(self.expr(a0))
            elif strip(a0)['kind'] == 'UnaryExprOrTypeTraitExpr': cnt = self.asint(self.expr(a1))
            else: cnt = '(%s * %s)' % (self.asint(self.expr(a0)), self.size_count(a1, ect))
            zero = True
        else:
            cnt = self.size_count(args[-1], ect)
            zero = fn == 'allocate'
        reg = self.root(('alloc', self.cur['fname'], call['id']), 'new_%s' % (ect[1] if ect[0] == 'struct' else ect[0]), 6)
        t = self.newtmp()
        self.alloc(None, reg, ect, cnt, zero, t)
        return V(t, 'int', ct, reg)

    def alloc(self, target, reg, ect, cnt, zero, tmp=None):
        reg = reg.find()
        brk = self.heap_brk(reg)
        self.effects.add(('brk', reg))
        wr = [brk]; ens = ['result >= old %s' % brk, 'result > 0', 'old %s > 0 -> result >= old %s' % (brk, brk), '%s = result + (if n >= 0 then n else 0)' % brk]
        rng = '(i_ < result \\/ i_ >= result + n)'
        if ect[0] == 'struct':
            hs = []
            for p, t in sorted(reg.used_fields.items()):
                h = self.heap_field(reg, p, t); self.effects.add(('field', reg, p, t)); hs.append((h, t, p))
        else:
            h = self.heap_cell(reg, ect); self.effects.add(('cell', reg, why_t(ect))); hs = [(h, ect, None)]
        for h, t, p in hs:
            wr.append(h)
            ens.append('forall i_. %s -> %s[i_] = (old %s)[i_]' % (rng, h, h))
            if t[0] == 'abase':
                # an array inside the new object: storage of its own, beyond everything allocated so far in that region
                er = reg.field(p); eb = self.heap_brk(er); el = t[1][1]
                self.effects.add(('brk', er)); wr.append(eb)
                cap = self.flexcap if self.flexcap is not None else 'n * %d' % max(1, t[1][2] or 1)
                ens.append('%s[result] >= old %s /\\ %s[result] > 0 /\\ %s >= %s[result] + (%s) /\\ %s >= old %s' % (h, eb, h, eb, h, 'c' if self.flexcap is not None else cap, eb, eb))
                if er.cell_used is not None:
                    eh = self.heap_cell(er, el); self.effects.add(('cell', er, why_t(el))); wr.append(eh)
                    ens.append('forall i_. i_ < %s[result] -> %s[i_] = (old %s)[i_]' % (h, eh, eh))
                    if zero: ens.append('forall i_. %s[result] <= i_ < %s -> %s[i_] = %s' % (h, eb, eh, 'wzero' if el[0] == 'word' else '0'))
                continue
            if zero:
                ens.append('forall i_. result <= i_ < result + n -> %s[i_] = %s' % (h, 'wzero' if t[0] == 'word' else '0'))
        ln = 'len_' + self.rname(reg)
        if ln in self.lenused:
            self.globs[ln] = 'map int int'; self.effects.add(('len', reg)); wr.append(ln); ens.append('%s = Map.set (old %s) result n' % (ln, ln))
        self.valn += 1
        nm = 'alloc_%d' % self.valn
        fc = self.flexcap; self.flexcap = None
        if fc is not None and not any(re.search(r'\bc\b', e) for e in ens): fc = None
        self.vals.append('val %s (n: int)%s : int\n  writes { %s }\n  %s' % (nm, ' (c: int)' if fc is not None else '', ', '.join(sorted(set(wr))), '\n  '.join('ensures { %s }' % e for e in ens)))
        av = '(%s)' % cnt + (' (%s)' % fc if fc is not None else '')
        if target: self.items.append('%s <- %s %s' % (target, nm, av))
        else: self.items.append('let %s = %s %s in' % (tmp, nm, av))

    # ---- calls
    def call(self, n, void):
        fn = strip(n['inner'][0]); args = n['inner'][1:]
        if fn['kind'] != 'DeclRefExpr' or fn['referencedDecl']['kind'] != 'FunctionDecl':
            return self.call_fnptr(n, fn, args, void)
        f = fn['referencedDecl']['name']
        if f in self.spec.get('extern', {}): return self.call_extern(f, args, void)
        if f in NORETURN and f not in self.spec.get('inline', ()):
            if f == '__assert_fail':
                self.items.append('assert { [@expl:C assert] false }')
                self.items.append('abort_ ()')
            else: self.items.append('abort_ ()')
            return V('()', 'unit')
        if f in ('fprintf', 'putc', 'fputc', '_IO_putc', 'fputs') and self.spec.get('emit'): return self.call_emit(f, args)
        if f in IGNORED:
            for a in args:
                if self.has_effect(a): self.expr(a)
            return V('0', 'int', ('int',))
        if f in ALLOC:
            ct = self.tu.ctype(n['type']['qualType'])
            raise Unsupported('allocation without cast')
        if (f in self.specs or f + '=' in str(self.spec.get('callee', ''))) and f not in self.spec.get('inline', ()) and f not in [s for s in self.stack] or f == self.fname or (f in self.specs and f in self.stack):
            return self.call_contract(f, args, void)
        if f in ('sprintf', 'lemon_sprintf') and len(args) == 3 and strip(args[1])['kind'] == 'StringLiteral' and re.fullmatch(r'[^%\\]*%d[^%\\]*', strip(args[1])['value'][1:-1]):
            pre, suf = strip(args[1])['value'][1:-1].split('%d')
            p = self.expr(args[0]); v = self.expr(args[2]); h = self.heap_cell(p.reg, ('int',)); self.effects.add(('cell', p.reg, 'int'))
            self.valn += 1; nm = 'sprintf_%d' % self.valn
            o = (lambda i: i) if not pre else (lambda i: '(%d + %s)' % (len(pre), i))
            tot = 'dlen v_' + (' + %d' % (len(pre) + len(suf)) if pre or suf else '')
            lit = ''.join('\n ensures { %s[off p_ %d] = %d }' % (h, i, ord(c)) for i, c in enumerate(pre)) + ''.join('\n ensures { %s[off p_ (%d + dlen v_)] = %d }' % (h, len(pre) + i, ord(c)) for i, c in enumerate(suf))
            self.vals.append('val %s (p_: int) (v_: int) : unit writes { %s }\n ensures { isstr %s p_ (%s) }\n ensures { forall i_. 0 <= i_ < dlen v_ -> %s[off p_ %s] = dchr v_ i_ }\n ensures { forall i_. i_ < p_ \\/ i_ > p_ + %s -> %s[i_] = (old %s)[i_] }%s' % (nm, h, h, tot, h, o('i_'), tot, h, h, lit))
            self.items.append('%s (%s) (%s)' % (nm, p.t, self.asint(v)))
            return V('0', 'int', ('int',))
        if f in ('memset', 'memcpy', 'strlen', 'strcmp', 'strncmp', 'memmove', 'strcpy'): return self.call_lib(f, args, void)
        if f in ('strchr','sprintf','isspace','isalpha','isdigit','isalnum','isupper','tolower','toupper','atoi','fgetc','getc','ungetc','memcmp','_setjmp','qsort','bsearch'):
            raise Unsupported('library ' + f)
        tu = self.tu_of(f)
        if tu is None: raise Unsupported('no body for ' + f)
        if f in self.stack: raise Unsupported('recursive inline ' + f)
        return self.inline(f, tu, args, void)

    def has_effect(self, n):
        k = n.get('kind')
        if k == 'CallExpr':
            fn = strip(n['inner'][0])
            return True
        if k == 'CompoundAssignOperator': return True
        if k == 'BinaryOperator' and n['opcode'] == '=': return True
        if k == 'UnaryOperator' and n['opcode'] in ('++','--'): return True
        return any(self.has_effect(c) for c in n.get('inner', []) or [] if isinstance(c, dict))

    def call_fnptr(self, n, fn, args, void):
        hk = self.spec.get('fnptr')
        if not hk: raise Unsupported('function pointer call')
        if hk == 'none':   # excluded by the contract
            self.items.append('assert { [@expl:call through a function pointer] false }'); return V('0', 'int', ('int',))
        vs = [self.expr(a) for a in args]
        return V('(%s %s)' % (hk, ' '.join('(%s)' % self.asint(v) for v in vs)), 'int', ('int',))

    def call_extern(self, f, args, void):
        """library function modelled in the spec: {'f': (whyml function, returns kind)}"""
        w, kind = self.spec['extern'][f]
        vs = []
        for a in args:
            if kind == 'drop':
                if self.has_effect(a): self.expr(a)
            else:
                v = self.expr(a)
                if v.k == 'single': continue
                vs.append('(%s)' % self.asint(v))
        if kind == 'drop': return V('0', 'int', ('int',))
        if kind == 'val':
            t = self.newtmp(); self.items.append('let %s = %s %s in' % (t, self.pp(w), ' '.join(vs) or '()')); self.hook('after_call', f)
            return V(t, 'int', ('int',))
        if kind == 'unit':
            self.items.append('%s %s' % (w, ' '.join(vs) or '()')); self.hook('after_call', f); return V('()', 'unit')
        return V('(%s %s)' % (self.pp(w), ' '.join(vs)), 'bool' if kind == 'bool' else 'int', ('int',))

    def call_emit(self, f, args):
        """'opt emit': formatted output as a sequence of words (character strings without white space, as numbers), strings and numbers; white space and comments are left out (library emit)"""
        def chars(t):
            for w in t.split(): self.items.append('emit_ch %d' % int.from_bytes(w, 'big'))
        if f in ('putc', 'fputc', '_IO_putc'):
            c = self.const(args[0])
            if c is None: self.items.append('emit_ch (%s)' % self.asint(self.expr(args[0])))
            else: chars(bytes([c & 255]))
            return V('0', 'int', ('int',))
        lit = strip(args[0 if f == 'fputs' else 1])
        if f == 'fputs' and lit['kind'] != 'StringLiteral':
            self.items.append('emit_st (%s)' % self.asint(self.expr(args[0]))); return V('0', 'int', ('int',))
        if lit['kind'] != 'StringLiteral': raise Unsupported('format')
        import ast as _ast
        t = _ast.literal_eval('b' + lit['value']) if lit['value'].startswith('"') else None
        if t is None: raise Unsupported('format')
        if f == 'fputs': chars(t); return V('0', 'int', ('int',))
        rest = list(args[2:]); vals = [(a, self.freeze(self.asint(self.expr(a))) if strip(a)['kind'] != 'StringLiteral' else None) for a in rest]
        i = 0; word = b''; comment = False
        while i < len(t):
            if comment:
                if t[i:i + 2] == b'*/': comment = False; i += 2; continue
                if t[i:i + 1] == b'%' and t[i + 1:i + 2] != b'%': vals.pop(0); i += 1
                i += 1; continue
            if t[i:i + 2] == b'/*' and b'*/' in t[i:]: chars(word); word = b''; comment = True; i += 2; continue
            if t[i:i + 1] != b'%': word += t[i:i + 1]; i += 1; continue
            c = t[i + 1:i + 2]; i += 2
            if c == b'%': word += b'%'; continue
            if c not in (b's', b'd', b'c') or not vals: raise Unsupported('format %' + c.decode())
            a, v = vals.pop(0)
            if c == b's' and v is None: word += _ast.literal_eval('b' + strip(a)['value']); continue
            chars(word); word = b''
            self.items.append('emit_%s (%s)' % ({b's': 'st', b'd': 'nu', b'c': 'ch'}[c], v))
        chars(word)
        return V('0', 'int', ('int',))

    def call_lib(self, f, args, void):
        vs = [self.expr(a) for a in args[:3 if f == 'strncmp' else 2]]
        self.valn += 1; nm = '%s_%d' % (f, self.valn)
        p = vs[0]
        if f == 'memset':
            ect = p.ct[1]
            z = strip(args[2])
            if ect[0] == 'struct' and self.const(args[1]) == 0 and z['kind'] == 'UnaryExprOrTypeTraitExpr':   # one whole object
                for pth, ft in sorted(p.reg.find().used_fields.items()):
                    if ft[0] in ('abase', 'word'): raise Unsupported('memset of an object with arrays')
                    h = self.heap_field(p.reg, pth, ft); self.effects.add(('field', p.reg, pth, ft)); self.items.append('%s <- mset %s (%s) 0' % (h, h, p.t))
                return V('()', 'unit')
            cnt = self.size_count(args[2], ect) if ect[0] != 'struct' else None
            if ect[0] == 'struct' or self.const(args[1]) != 0: raise Unsupported('memset')
            h = self.heap_cell(p.reg, ect); self.effects.add(('cell', p.reg, why_t(ect)))
            self.vals.append('val %s (p_: int) (n: int) : unit writes { %s }\n ensures { forall i_. i_ < p_ \\/ i_ >= p_ + n -> %s[i_] = (old %s)[i_] }\n ensures { forall i_. p_ <= i_ < p_ + n -> %s[i_] = %s }' % (nm, h, h, h, h, 'wzero' if ect[0] == 'word' else '0'))
            self.items.append('%s (%s) (%s)' % (nm, p.t, cnt))
            return V('()', 'unit')
        if f in ('memcpy', 'memmove'):
            q = vs[1]; ect = p.ct[1]
            if ect[0] == 'struct': raise Unsupported('memcpy struct')
            cnt = self.size_count(args[2], ect)
            h = self.heap_cell(p.reg, ect); g = self.heap_cell(q.reg, ect); self.effects.add(('cell', p.reg, why_t(ect)))
            if ect[0] == 'ptr': unify(p.reg.pointee(), q.reg.pointee())
            self.vals.append('val %s (p_ q_: int) (n: int) : unit writes { %s } reads { %s }\n ensures { forall i_. i_ < p_ \\/ i_ >= p_ + n -> %s[i_] = (old %s)[i_] }\n ensures { forall i_. p_ <= i_ < p_ + n -> %s[i_] = (old %s)[i_ - p_ + q_] }' % (nm, h, g, h, h, h, g))
            self.items.append('%s (%s) (%s) (%s)' % (nm, p.t, q.t, cnt))
            return V('()', 'unit')
        if f == 'strcpy':
            q = vs[1]
            h = self.heap_cell(p.reg, ('int',)); g = self.heap_cell(q.reg, ('int',)); self.effects.add(('cell', p.reg, 'int'))
            self.vals.append('val %s (p_ q_: int) : unit writes { %s } reads { %s }\n ensures { forall n_. isstr (old %s) q_ n_ -> (forall i_. 0 <= i_ <= n_ -> %s[off p_ i_] = (old %s)[off q_ i_]) /\\ (forall i_. i_ < p_ \\/ i_ > p_ + n_ -> %s[i_] = (old %s)[i_]) }' % (nm, h, g, g, h, g, h, h))
            self.items.append('%s (%s) (%s)' % (nm, p.t, q.t))
            return V('()', 'unit')
        if f == 'strlen':
            h = self.heap_cell(p.reg, ('int',))
            return V('(slen %s %s)' % (h, p.t), 'int', ('int',))
        if f == 'strcmp':
            q = vs[1]
            h = self.heap_cell(p.reg, ('int',)); g = self.heap_cell(q.reg, ('int',))
            return V('(scmp %s %s %s %s)' % (h, p.t, g, q.t), 'int', ('int',))
        if f == 'strncmp':
            q = vs[1]
            h = self.heap_cell(p.reg, ('int',)); g = self.heap_cell(q.reg, ('int',))
            return V('(sncmp %s %s %s %s %s)' % (h, p.t, g, q.t, self.asint(vs[2])), 'int', ('int',))
        raise Unsupported(f)

    def inline(self, f, tu, args, void):
        d = tu.funcs[f]
        self.inlined.append(f)
        vals = [self.expr(a) for a in args]
        old = self.cur; oldtu = self.tu
        asg, adr = self.scan(d)
        new = {'d': d, 'env': {}, 'brk': [], 'cont': [], 'fname': f, 'asg': asg, 'adr': adr}
        ps = self.params(d)
        if len(ps) != len(vals): raise Unsupported('varargs inline ' + f)
        for p, v in zip(ps, vals):
            if 'name' not in p: continue
            ct = tu.ctype(p['type']['qualType'])
            if ct[0] == 'arr': ct = ('ptr', ct[1])
            if v.k == 'single':
                new['env'][p['id']] = ('single', v.t); continue
            text = self.conv(v, ct)
            if p['id'] in adr: raise Unsupported('address of parameter')
            if p['id'] in asg:
                nm = self.fresh_name(p['name'])
                reg = self.root(('local', nm), nm, 3) if ct[0] == 'ptr' else None
                if reg is not None and v.reg is not None: unify(reg, v.reg)
                self.hoisted.append('let ref %s = any %s in' % (nm, why_t(ct)))
                self.items.append('%s <- %s' % (nm, text))
                new['env'][p['id']] = ('var', nm, ct, reg, True); self.locals[nm] = (ct, reg)
            else:
                # same-named caller argument: reuse the caller's name so that annotations still resolve
                nm = self.fresh_name(p['name'])
                reg = v.reg if v.reg is not None else (self.root(('local', nm), nm, 3) if ct[0] == 'ptr' else None)
                if reg is not None and reg.name == 'null': reg = self.root(('local', nm), nm, 3)
                self.items.append('let %s = %s in' % (nm, text))
                new['env'][p['id']] = ('var', nm, ct if not (ct[0] == 'ptr' and ct[1][0] == 'void') else v.ct, reg, False); self.locals[nm] = (ct, reg)
        rct = tu.ctype(d['type']['qualType'].split('(')[0].strip())
        self.exn += 1
        rreg = self.root(('ret', f, self.exn), 'ret_' + f, 6) if rct[0] == 'ptr' else None
        flag = [False]
        ex = 'Ret%d' % self.exn
        new['ret'] = (ex, rct, rreg, flag)
        self.cur = new; self.tu = tu; self.stack.append(f)
        save = self.items; self.items = []
        body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]
        stm = body.get('inner', []) or []
        tail = None
        # tail return: no exception needed
        if stm and stm[-1]['kind'] == 'ReturnStmt' and not self.has_return({'inner': stm[:-1]}):
            for s in stm[:-1]: self.stmt(s)
            if stm[-1].get('inner'):
                e = self.expr(stm[-1]['inner'][0])
                if rreg is not None and e.reg is not None: unify(rreg, e.reg)
                tail = self.conv(e, rct)
            bi = self.items; self.items = save
            self.items += bi
            self.stack.pop(); self.cur = old; self.tu = oldtu
            if tail is None or rct[0] == 'void': return V('()', 'unit')
            t = self.freeze(tail)
            return V(t, 'word' if rct[0] == 'word' else 'int', rct, rreg)
        self.compound(body)
        bi = self.items; self.items = save
        self.stack.pop(); self.cur = old; self.tu = oldtu
        if rct[0] == 'void':
            if flag[0]: self.items.append('begin exception %s in try\n%s\nwith %s -> () end end' % (ex, self.seq(bi), ex))
            else: self.items += bi
            return V('()', 'unit')
        t = self.newtmp()
        self.items.append('let %s = begin exception %s %s in try\n%s\nwith %s v_ -> v_ end end in' % (t, ex, why_t(rct), self.seq(bi + ['(any %s)' % why_t(rct)]), ex))
        return V(t, 'word' if rct[0] == 'word' else 'int', rct, rreg)

    def has_return(self, n):
        if n.get('kind') == 'ReturnStmt': return True
        return any(self.has_return(c) for c in n.get('inner', []) or [] if isinstance(c, dict))

    # ---- contracted callee
    def call_contract(self, f, args, void):
        key = dict(x.split('=') for x in str(self.spec.get('callee', '') or '').split()).get(f, f)
        sp = self.specs[key]
        self.called_contract.append(key)
        if f == self.fname:   # direct recursion: the function's own contract
            vals = [self.expr(a) for a in args]; av = []
            for (w, ct, reg, single), v in zip(self.paraminfo, vals):
                if single: continue
                if reg is not None and v.reg is not None: unify(reg, v.reg)
                av.append('(%s)' % self.conv(v, ct))
            self.recursive = True
            self.nth = self.callanchors[f] = self.callanchors.get(f, 0) + 1
            self.hook('before_call', f)
            call = 'f_%s %s' % (f, ' '.join(av) or '()')
            if self.ret_ct[0] == 'void':
                self.items.append(call); self.hook('after_call', f); return V('()', 'unit')
            t = self.newtmp(); self.items.append('let %s = %s in' % (t, call)); self.hook('after_call', f)
            return V(t, 'word' if why_t(self.ret_ct) == 'word' else 'int', self.ret_ct, self.ret_reg)
        cal = Fn(self.tus, f, dict(sp, hooks={}, loops={}, bounds=None, called=True), {k: v for k, v in self.specs.items()})
        cal.translate()
        # map callee regions into ours ('opt nextfield f': the link that the callee reaches by its offset is our field f)
        rmap = {}
        nf = self.spec.get('nextfield')
        pth = lambda p: nf if nf and p == 'nx' else p
        def rel(cr, mine):
            cr = cr.find(); mine = mine.find()
            if cr in rmap:
                if rmap[cr].find() is not mine: unify(rmap[cr], mine)
                return
            rmap[cr] = mine
            if cr.pt is not None: rel(cr.pt, mine.pointee())
            for fld, r in cr.fields.items(): rel(r, mine.find().field(pth(fld)))
            for p, t in cr.used_fields.items(): mine.find().used_fields.setdefault(pth(p), t)
            for r, p, t in cr.alias:
                if r.find() in rmap: m2 = rmap[r.find()]
                else: continue
                if not any(y[0].find() is m2.find() and y[1] == p for y in mine.find().alias): mine.find().alias.append((m2, p, t))
        vals = [self.expr(a) for a in args]
        pin = []
        for (w, ct, reg, single), v in zip(cal.paraminfo, vals):
            if single: continue
            pin.append((w, why_t(ct), self.conv(v, ct), reg, v))
        for key, r in cal.roots.items():
            if key[0] == 'glob': rel(r, self.root(key, r.name, 2))
        for w, t, text, reg, v in pin:
            if reg is not None and v.reg is not None: rel(reg, v.reg)
        rreg = None
        if cal.ret_reg is not None:
            self.exn += 1
            rreg = self.root(('cret', f, self.exn), 'ret_' + f, 6); rel(cal.ret_reg, rreg)
        inv = {}
        for cr, mr in rmap.items():
            if cr.up is None: inv.setdefault(mr.find(), set()).add(cr)
        for mr, s in inv.items():
            if len(s) > 1 and self.pass_no == 3:
                used = [c for c in s if c.cell_used or c.used_fields]
                wr = {e[1].find() for e in cal.effects if e[0] in ('cell', 'field', 'brk')}
                if len(used) > 1 and any(c.find() in wr for c in s): raise Unsupported('callee %s: aliased regions %s' % (f, [c.name for c in s]))
        def tr(cr):
            cr = cr.find()
            if cr not in rmap: rmap[cr] = self.root(('cal', f, cr.name), f + '_' + cr.name, 7)
            return rmap[cr].find()
        cal.hmap = lambda kind, reg, path=None, ct=None: (self.heap_cell(tr(reg), ct) if kind == 'cell' else self.heap_field(tr(reg), pth(path), ct) if kind == 'field' else self.heap_len(tr(reg)) if kind == 'len' else self.heap_brk(tr(reg)))
        writes = set()
        for e in cal.effects:
            if e[0] == 'glob':
                self.globs[e[1]] = cal.globs[e[1]]; writes.add(e[1]); self.effects.add(e)
            elif e[0] == 'cell':
                writes.add(self.heap_cell(tr(e[1]), ('word',) if e[2] == 'word' else ('int',))); self.effects.add(('cell', tr(e[1]), e[2]))
            elif e[0] == 'field':
                writes.add(self.heap_field(tr(e[1]), pth(e[2]), e[3])); self.effects.add(('field', tr(e[1]), pth(e[2]), e[3]))
            elif e[0] == 'len': writes.add(self.heap_len(tr(e[1]))); self.effects.add(('len', tr(e[1])))
            elif e[0] == 'brk': writes.add(self.heap_brk(tr(e[1]))); self.effects.add(('brk', tr(e[1])))
        for g in sp.get('consts', {}):
            if g in {e[1] for e in cal.effects if e[0] == 'glob'}: raise Unsupported('write to a field assumed constant')
            cal.base_type(g)
        for nm, t in sp.get('requires', []) + sp.get('ensures', []): cal.used_globals_in(t)
        req = [(nm, cal.pp(t)) for nm, t in sp.get('requires', [])] + [('constant ' + g, '%s = %s' % (g, v)) for g, v in sp.get('consts', {}).items()]
        ens = [(nm, cal.pp(t)) for nm, t in sp.get('ensures', [])]
        for g, t in cal.globs.items():
            if not g.startswith('brk_'): self.globs.setdefault(g, t)
        self.valn += 1
        nm = 'c%d_%s' % (self.valn, f)
        rt = 'unit' if cal.ret_ct[0] == 'void' else why_t(cal.ret_ct)
        ps = ' '.join('(%s: %s)' % (w, t) for w, t, _, _, _ in pin) or '()'
        writes |= {self.heaps_name(g) for g in str(sp.get('ghost_writes', '')).split()}
        self.vals.append('val %s %s : %s\n%s%s%s' % (nm, ps, rt,
            '  writes { %s }\n' % ', '.join(sorted(writes)) if writes else '',
            ''.join('  requires { [@expl:precondition of %s: %s] %s }\n' % (f, a, t) for a, t in req),
            ''.join('  ensures { %s }\n' % t for a, t in ens)))
        av = ' '.join('(%s)' % text for _, _, text, _, _ in pin) or '()'
        self.nth = self.callanchors[f] = self.callanchors.get(f, 0) + 1
        self.hook('before_call', f); self.hook('before_call', '%s#%d' % (f, self.nth))
        if rt == 'unit':
            self.items.append('%s %s' % (nm, av)); self.hook('after_call', f)
            return V('()', 'unit')
        t = self.newtmp(); self.items.append('let %s = %s %s in' % (t, nm, av))
        self.hook('after_call', f)
        return V(t, 'word' if rt == 'word' else 'int', cal.ret_ct, rreg)

    def heaps_name(self, g): return g

    # ---- specification text: #expr notation
    def hm(self, kind, reg, path=None, ct=None):
        if getattr(self, 'hmap', None): return self.hmap(kind, reg, path, ct)
        if kind == 'cell': return self.heap_cell(reg, ct)
        if kind == 'field': return self.heap_field(reg, path, ct)
        if kind == 'len': return self.heap_len(reg)
        return self.heap_brk(reg)

    def base_type(self, name):
        if name == 'result': return (self.ret_ct, self.ret_reg)
        if name in self.locals: return self.locals[name]
        for rec, pre in self.singletons.items():
            if name.startswith(pre) and name[len(pre):] in self.tu_rec(rec).records.get(rec, {}):
                f = name[len(pre):]
                ct = self.tu_rec(rec).field(rec, f)
                reg = None
                if ct[0] == 'ptr': reg = self.root(('glob', name), f, 2); self.globs[name] = 'int'
                elif ct[0] == 'arr': reg = self.root(('glob', name), f, 2); ct = ('ptr', ct[1]); self.globs[name] = 'int'
                elif ct[0] == 'struct': reg = self.root(('glob', name), f, 2); ct = ('ptr', ct); self.globs[name] = 'int'
                else: self.globs[name] = why_t(ct)
                return (ct, reg)
        if name.startswith('g_'):
            for tu in self.tus:
                if name[2:] in tu.globals:
                    ct = tu.ctype(tu.globals[name[2:]]['type']['qualType'])
                    reg = None
                    if ct[0] in ('ptr', 'arr'):
                        reg = self.root(('glob', name), name, 2); ct = ('ptr', ct[1])
                    self.globs[name] = why_t(ct)
                    return (ct, reg)
        raise Unsupported('spec: unknown name ' + name)

    def tu_rec(self, rec):
        for t in self.tus:
            if rec in t.records: return t
        raise Unsupported('record ' + rec)

    def path_type(self, e):
        """parse base(->f | [expr] | [])* ; returns (text, ct, reg)"""
        m = re.match(r'[A-Za-z_]\w*', e)
        name = m.group(0); i = m.end()
        if name not in self.locals:
            for t in self.tus:
                if name in t.enums: return str(t.enums[name]), ('int',), None, i
        ct, reg = self.base_type(name)
        text = name
        while i < len(e):
            if e.startswith('->', i):
                m = re.match(r'->([\w.]+)', e[i:]); f = m.group(1); i += m.end()
                if f == 'nx' and self.spec.get('nextat'):
                    h = self.hm('field', reg, 'nx', ct); text = '%s[%s]' % (h, text); unify(reg.field('nx'), reg); self.last = h; continue
                if ct[0] != 'ptr' or ct[1][0] != 'struct': raise Unsupported('spec -> on ' + str(ct))
                rec = ct[1][1]; path = ''; t = ct[1]
                for part in f.split('.'):
                    t = self.tu_rec(t[1]).field(t[1], part); path = part if not path else path + '_' + part
                if t[0] == 'arr':
                    h = self.hm('field', reg, path, ('abase', t)); text = '%s[%s]' % (h, text); reg = reg.field(path); ct = ('ptr', t[1])
                else:
                    h = self.hm('field', reg, path, t); text = '%s[%s]' % (h, text)
                    reg = reg.field(path) if t[0] == 'ptr' else None; ct = t
                self.last = h
            elif e[i] == '[':
                d = 0; j = i
                while True:
                    if e[j] == '[': d += 1
                    elif e[j] == ']':
                        d -= 1
                        if d == 0: break
                    j += 1
                sub = e[i+1:j]; i = j + 1
                if ct[0] != 'ptr': raise Unsupported('spec [] on ' + str(ct))
                el = ct[1]
                addr = text if not sub.strip() else '(off %s (%s))' % (text, self.pp(sub))
                if el[0] == 'struct':
                    text = addr; continue
                h = self.hm('cell', reg, None, el)
                self.last = h
                text = '%s[%s]' % (h, addr)
                reg = reg.pointee() if el[0] == 'ptr' else None
                ct = el
            else: break
        return text, ct, reg, i

    def pp(self, s):
        out = ''; i = 0
        if self.pass_no == 0: return s
        while i < len(s):
            c = s[i]
            if c == '#':
                m = re.match(r'#heap\(', s[i:])
                if m:
                    j = s.index(')', i)
                    e = s[i+6:j]
                    self.path_type(e); out += self.last; i = j + 1; continue
                m = re.match(r'#lit\(([^"]*?),\s*"([^"]*)"\)', s[i:])
                if m:
                    t, ct, reg, _ = self.path_type(m.group(1)); h = self.hm('cell', reg, None, ct[1])
                    out += '(' + ' /\\ '.join('%s[off %s %d] = %d' % (h, t, k, x) for k, x in enumerate(list(m.group(2).encode()) + [0])) + ')'
                    i += m.end(); continue
                m = re.match(r'#brk\(', s[i:])
                if m:
                    j = s.index(')', i); e = s[i+5:j]
                    t = self.path_type(e); out += self.hm('brk', t[2]); i = j + 1; continue
                m = re.match(r'#len\(', s[i:])
                if m:
                    j = s.index(')', i); e = s[i+5:j]
                    t = self.path_type(e); out += self.hm('len', t[2]); i = j + 1; continue
                # find extent
                e = s[i+1:]
                t = self.path_type(e)
                out += t[0]; i = i + 1 + t[3]; continue
            out += c; i += 1
        return out

    def used_globals_in(self, text):
        for rec, pre in self.singletons.items():
            for m in re.finditer(r'\b' + pre + r'(\w+)', text):
                if m.group(1) in self.tu_rec(rec).records.get(rec, {}): self.base_type(m.group(0))
        for m in re.finditer(r'\bg_\w+', text):
            try: self.base_type(m.group(0))
            except Unsupported: pass

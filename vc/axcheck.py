"""Checks the axioms of clib.mlw: the multiplication facts with an SMT solver, the 64-bit word axioms against SMT bit vectors."""
import os, re, subprocess
# word: (_ BitVec 64); wbit w i == bit i of w for 0<=i<64 ; indices are bit vectors below 64 here
BV = {
 'wbit_zero': '(=> (bvult i #x0000000000000040) (= (bit #x0000000000000000 i) false))',
 'wbit_one': '(=> (and (bvult k #x0000000000000040) (bvult i #x0000000000000040)) (= (bit (bvshl #x0000000000000001 k) i) (= i k)))',
 'wbit_or': '(=> (bvult i #x0000000000000040) (= (bit (bvor a b) i) (or (bit a i) (bit b i))))',
 'wbit_and': '(=> (bvult i #x0000000000000040) (= (bit (bvand a b) i) (and (bit a i) (bit b i))))',
 'wnz_and_one': '(=> (bvult k #x0000000000000040) (= (not (= (bvand a (bvshl #x0000000000000001 k)) #x0000000000000000)) (bit a k)))',
 'wnz_bit': '(=> (and (bvult i #x0000000000000040) (bit a i)) (not (= a #x0000000000000000)))',
 'wnz_def': '(=> (not (= a #x0000000000000000)) (or %s))' % ' '.join('(bit a #x%016x)' % i for i in range(64)),
 'wshl_one': '(=> (bvult k #x000000000000003f) (= (bvshl (bvshl #x0000000000000001 k) #x0000000000000001) (bvshl #x0000000000000001 (bvadd k #x0000000000000001))))',
 'wshl_one63': '(= (bvshl (bvshl #x0000000000000001 #x000000000000003f) #x0000000000000001) #x0000000000000000)',
}
MUL = {
 'cmul_0': '(forall ((b Int)) (= (* 0 b) 0))', 'cmul_1': '(forall ((b Int)) (= (* 1 b) b))', 'cmul_0r': '(forall ((b Int)) (= (* b 0) 0))',
 'cmul_succ': '(forall ((a Int) (c Int) (b Int)) (=> (= c (+ a 1)) (= (* c b) (+ (* a b) b))))',
 'cmul_mono': '(forall ((a Int) (c Int) (b Int)) (=> (and (>= b 0) (< a c)) (<= (+ (* a b) b) (* c b))))',
 'cmul_pos': '(forall ((a Int) (b Int)) (=> (and (>= a 0) (>= b 0)) (>= (* a b) 0)))',
}
def run(wd):
    os.makedirs(wd, exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    txt = open(os.path.join(here, 'clib.mlw')).read()
    names = set(re.findall(r'^\s*axiom (\w+)', txt, re.M))
    free = {'off_def', 'band_range', 'slen_def', 'scmp_def', 'streq_fwd', 'streq_bwd', 'sncmp_def', 'streqn_fwd', 'streqn_bwd', 'dlen_range', 'uch_def', 'sch_def', 'uch_range', 'sch_range', 'uch_sch', 'sch_uch'}      # definition of off; band is uninterpreted
    ok = 0; failed = []
    todo = [(n, '(define-fun bit ((w (_ BitVec 64)) (i (_ BitVec 64))) Bool (= ((_ extract 0 0) (bvlshr w i)) #b1))\n' + ''.join('(declare-const %s (_ BitVec 64))\n' % v for v in 'abki') + '(assert (not %s))' % f) for n, f in BV.items()]
    todo += [(n, '(assert (not %s))' % f) for n, f in MUL.items()]
    ps = []
    for n, body in todo:
        p = os.path.join(wd, n + '.smt2'); open(p, 'w').write('(set-logic ALL)\n' + body + '\n(check-sat)\n')
        ps.append((n, p, subprocess.Popen(['cvc5', '--tlimit=60000', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for n, p, q in ps:
        o = q.communicate()[0].decode().strip()
        if o != 'unsat':
            o = subprocess.run(['z3', '-T:60', p], stdout=subprocess.PIPE).stdout.decode().strip()
        if o == 'unsat': ok += 1
        else: failed.append(n + ': ' + o)
    # <ctype.h>: each axiom against this machine's C library, for every value -128..255
    cs = re.findall(r'axiom ct_(\w+)_def: forall c \[.*?\]\. ct_\w+ c <> 0 <-> (.*)', txt)
    def cexp(t): return re.sub(r'(\d+) <= c <= (\d+)', r'(\1<=c&&c<=\2)', t).replace('\\/', '||').replace('c = ', 'c == ')
    src = '#include <ctype.h>\n#include <stdio.h>\n' + 'int main(void){for(int c=-128;c<256;c++){if((unsigned char)c!=(c<0?c+256:c)||(char)c!=(c>127?c-256:c))puts("char");if((unsigned char)(char)c!=(unsigned char)c||(char)(unsigned char)c!=(char)c)puts("char");' + ''.join('if(!is%s(c)!=!(%s)){puts("%s");}' % (n, cexp(d), n) for n, d in cs) + '}return 0;}\n'
    open(os.path.join(wd, 'ct.c'), 'w').write(src)
    subprocess.run(['gcc', '-w', '-o', os.path.join(wd, 'ct'), os.path.join(wd, 'ct.c')])
    p = subprocess.run([os.path.join(wd, 'ct')], stdout=subprocess.PIPE); bad = set(p.stdout.decode().split())
    for n, d in cs:
        todo.append((n, d))
        if n in bad: failed.append('ct_%s_def' % n)
        else: ok += 1
    todo.append(('char', '')); ok += 'char' not in bad; failed += ['uch_def/sch_def'] if 'char' in bad else []
    missing = names - {'ct_%s_def' % n for n, _ in cs} - set(BV) - set(MUL) - free
    return {'n': len(todo), 'ok': ok, 'failed': failed, 'missing': sorted(missing)}
if __name__ == '__main__': print(run('/tmp/w/ax'))

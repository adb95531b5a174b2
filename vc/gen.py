"""C files made on every run from /repo's current lemon and parser template: the real lemon is compiled and run on a small grammar,
and the numbers it put into the tables are turned into unknowns, so that what is proved holds for every grammar.
What changes in the text (nothing else does):
  #define YY<limit> <number>          the number becomes an uninitialised global variable (an arbitrary value)
  sizeof(table)/sizeof(table[0])      becomes such a variable as well
  YYCODETYPE, YYACTIONTYPE            become int (the types are chosen wide enough: L06)
The contents of the tables play no part: the extraction takes every array as arbitrary."""
import os, re, subprocess, tempfile, atexit, shutil

GRAMMARS = {
 'full': '''%name Prs
%token_type {int}
%fallback A B C.
%wildcard ANY.
s ::= t. {x();}
t ::= t A u. {x();}
t ::= u ANY. {x();}
u ::= D. {x();}
u ::= E u B C. {x();}
u ::= error. {x();}
''',
 'plain': '''%name Prs
%token_type {int}
s ::= t. {x();}
t ::= t A u. {x();}
t ::= u B. {x();}
u ::= D. {x();}
u ::= E u B. {x();}
'''}
LIMITS = ['YYNOCODE', 'YYWILDCARD', 'YYERRORSYMBOL', 'YYNSTATE', 'YYNRULE', 'YYNRULE_WITH_ACTION', 'YYNTOKEN', 'YY_MAX_SHIFT', 'YY_MIN_SHIFTREDUCE', 'YY_MAX_SHIFTREDUCE',
 'YY_ERROR_ACTION', 'YY_ACCEPT_ACTION', 'YY_NO_ACTION', 'YY_MIN_REDUCE', 'YY_MAX_REDUCE', 'YY_ACTTAB_COUNT', 'YY_SHIFT_COUNT', 'YY_SHIFT_MIN', 'YY_SHIFT_MAX', 'YY_REDUCE_COUNT', 'YY_REDUCE_MIN', 'YY_REDUCE_MAX']
_dir = None
def generate(name, repo):
    """path of the C file for specs' files=gen/NAME.c"""
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vcgen'); atexit.register(shutil.rmtree, _dir, True)
    lem = os.path.join(_dir, 'lemon')
    if not os.path.exists(lem): subprocess.run(['gcc', '-w', '-o', lem, os.path.join(repo, 'lemon/lemon.c')], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    d = os.path.join(_dir, name); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'g.y'), 'w').write(GRAMMARS[name])
    subprocess.run([lem, '-T' + os.path.join(repo, 'lemon/lempar.c'), 'g.y'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
    s = open(os.path.join(d, 'g.c')).read()
    vs = []
    for m in LIMITS:
        s, n = re.subn(r'^(#define %s)[ \t]+\(?-?\d+\)?[ \t]*$' % m, r'\1 v_%s' % m, s, flags=re.M)
        if n: vs.append('v_' + m)
    for t in sorted(set(re.findall(r'sizeof\((\w+)\)/sizeof\(\1\[0\]\)', s))):
        s = re.sub(r'sizeof\(%s\)/sizeof\(%s\[0\]\)' % (t, t), 'n_' + t, s); vs.append('n_' + t)
    s = re.sub(r'^(#define YY(?:CODE|ACTION)TYPE)[ \t].*$', r'\1 int', s, flags=re.M)
    s = 'extern int %s;\n' % ', '.join(vs) + s
    p = os.path.join(d, 'm.c'); open(p, 'w').write(s)
    return p

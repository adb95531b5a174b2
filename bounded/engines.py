"""Registry of bounded stand-ins. An engine builds the real program from /repo and runs generated cases against an independent oracle.
case(st, seed, i, want, wd) -> dict(stats) or raises Mismatch; the files of a failing case are kept by the caller through `files`."""
import os, sys, random, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from byacc_e2e import Mismatch
import byacc_e2e, lemon_e2e, gengram

ENGINES = {}
class Engine:
    def __init__(self, name, props, setup, case, quick, thorough, rule, batch=25):
        self.name = name; self.props = set(props); self.setup = setup; self.case = case; self.n = {'quick': quick, 'thorough': thorough}; self.rule = rule; self.batch = batch
        ENGINES[name] = self

class Case:
    """what a case hands back: the files that reproduce it, a one line description and whether it was non-trivial"""
    def __init__(self): self.files = {}; self.cmd = ''; self.note = ''; self.nontrivial = True; self.known = {}

# ---- byacc, whole program
def _by_setup(wd): return {'exe': byacc_e2e.build(os.path.join(wd, 'byacc'))}
def _by_setup_a(wd): return {'exe': byacc_e2e.build(os.path.join(wd, 'byacc-a'), san='address')}
def _by_case(wide):
    def f(st, seed, i, want, wd, C):
        rng = random.Random('%s-%d' % (seed, i)); S, opts = byacc_e2e.case(rng, wide)
        if rng.random() < .3: S.expect = rng.choice([0, 1, 2, 3])
        if rng.random() < .1: S.expect_rr = rng.choice([0, 1, 2])
        txt = gengram.yacc_text(S)
        C.files['g.y'] = txt; C.cmd = 'byacc %s g.y' % ' '.join(opts)
        R = byacc_e2e.run(st['exe'], txt, wd, opts)
        for k, n in (('c', 'y.tab.c'), ('out', 'y.output'), ('err', 'stderr')): C.files[n] = R[k] or ''
        r = byacc_e2e.compare(S, R, opts, want)
        C.nontrivial = r['states'] > 4 or r['SR'] + r['RR'] > 0
        C.note = '%s grammar: %d rules, %d states, %d/%d conflicts' % (S.kind, r['rules'], r['states'], r['SR'], r['RR'])
        C.known = r['known']
    return f
BY = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C11']
Engine('byacc', BY, _by_setup, _by_case(False), 4000, 60000, 'random grammars of 10 kinds run through the real byacc; report, tables, header, messages and exit status compared with an independent LALR(1) construction; non-trivial: more than 4 states or a conflict')
Engine('byacc-wide', BY, _by_setup_a, _by_case(True), 300, 4000, 'grammars with 30 to 130 tokens or nonterminals (bit-set word boundaries, table growth), address-checked build; non-trivial as above', batch=2)

# ---- lemon, whole program
def _le_setup(wd): return {'exe': lemon_e2e.build(os.path.join(wd, 'lemon'))}
def _le_case(wide):
    def f(st, seed, i, want, wd, C):
        rng = random.Random('%s-%d' % (seed, i)); S, opts = lemon_e2e.case(rng, wide)
        txt = lemon_e2e.text(S)
        C.files['g.y'] = txt; C.cmd = 'lemon %s -T/repo/lemon/lempar.c g.y' % ' '.join(opts)
        R = lemon_e2e.run(st['exe'], txt, wd, opts)
        for k, n in (('c', 'g.c'), ('out', 'g.out'), ('err', 'stderr'), ('stdout', 'stdout')): C.files[n] = R[k] or ''
        r = lemon_e2e.compare(S, R, opts, want)
        C.nontrivial = r['states'] > 4 or r['SR'] + r['RR'] > 0
        C.note = '%s grammar: %d rules, %d states, %d/%d conflicts' % (S.kind, r['rules'], r['states'], r['SR'], r['RR'])
    return f
LE = ['L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'L08', 'L09']
Engine('lemon', LE, _le_setup, _le_case(False), 4000, 60000, 'random grammars of 8 kinds run through the real lemon; tables, header, messages and exit status compared with an independent LALR(1) construction; non-trivial: more than 4 states or a conflict')
Engine('lemon-wide', LE, _le_setup, _le_case(True), 100, 2000, 'grammars with up to 260 tokens or 70 nonterminals; non-trivial as above', batch=2)

# ---- byacc: names, literals, text, parsers, exports
import more_byacc as mb
Engine('byacc-names', ['C09'], _by_setup_a, mb.names_case, 600, 8000, 'up to 1500 names with long common prefixes, equal hash values, case changes and odd characters; the symbol list of the report must hold each once in order of first mention, every rule must read back and every declared number be kept', batch=10)
Engine('byacc-literals', ['C08'], _by_setup_a, mb.lits_case, 3000, 60000, 'literals over 1 to 5 arbitrary characters in random spellings (raw, escaped, octal, hexadecimal, either quote); tokens must correspond to the character sequences one to one, with the right codes and names that read back')
Engine('byacc-text', ['C10'], _by_setup_a, mb.text_case, 1500, 30000, 'actions, prologue, union, tags, names, literals and program section with lengths around every power of two and line buffer size must appear unchanged in the output')
Engine('byacc-run', ['C12'], _by_setup, mb.run_case, 500, 8000, 'generated parsers compiled and run on 16 token strings each; actions, values ($n, $$, $0, $<tag>n, embedded actions), error reports and result must equal an interpretation of the tables', batch=5)
Engine('byacc-export', ['C13'], _by_setup_a, mb.export_case, 4000, 60000, 'bare yacc, quoted, EBNF, lemon and SQL exports of random grammars read back and compared rule by rule with the input')

# ---- lemon: parsers, conditional sections, text
import byacc_attr
Engine('byacc-attr', ['C12'], _by_setup, byacc_attr.case, 300, 5000, 'parsers with inherited attributes (up to 4 per nonterminal, computed, passed on, already on the stack) compiled and run on 16 sentences each; every value printed by the actions must be that of a direct reading of the grammar', batch=5)
import byacc_back
Engine('byacc-back', ['C03', 'C05', 'C12'], _by_setup, byacc_back.case, 1500, 20000, 'backtracking parsers (-B) of random grammars: for every state and code the alternatives, shifts, reductions and gotos decoded from the tables against an independent LALR(1) construction; non-trivial: at least one conflict left to backtracking')
import more_lemon as ml
Engine('lemon-run', ['L10'], _le_setup, ml.run_case, 400, 8000, 'generated parsers compiled and run on up to 16 token strings each, with fallback, wildcard, error symbol, destructors, extra argument and context, fixed and growing stacks; every action, value, error report and destructor call must equal an interpretation of the tables', batch=5)
Engine('lemon-cond', ['L11'], _le_setup, ml.cond_case, 3000, 40000, 'nested conditional sections with random conditions, -E output compared line by line with the meaning of the conditions')
Engine('lemon-text', ['L12'], _le_setup, ml.text_case, 3000, 40000, 'rule code, destructors and section texts of lengths around every buffer growth, with labels at every position; the generated code must be the written code with exactly the labels replaced')
Engine('lemon-names', ['L06'], _le_setup, ml.names_case, 800, 12000, 'grammars of up to 2600 names (common prefixes, equal hash values, differing in case) or hundreds of states and items; every symbol, rule and state must appear exactly once, in order', batch=10)
Engine('lemon-bounds', ['L08'], _le_setup, ml.bounds_case, 240, 4000, 'grammars whose numbers of symbols, rules, actions, table offsets and rule lengths lie around 127, 128, 255 and 256; every entry must fit the declared type (checked by value and by the compiler) and decode', batch=5)

# ---- lemon: single routines driven with random data
import unit_lemon as ul
def _u(mode, per): return lambda st, seed, i, want, wd, C: ul.case(st, seed, i, want, wd, C, mode, per)
Engine('lemon-acttab', ['L04'], ul.setup, _u('acttab', 100), 400, 6000, 'acttab_action and acttab_insert called from a driver on random families of rows (100 families per case, up to 19 symbols and 200 rows); every row must be found again complete and without intruders, token lookups inside the table', batch=10)
Engine('lemon-sort', ['L05'], ul.setup, _u('sort', 100), 400, 6000, 'Rule_sort, Action_sort, Configlist_sort, Configlist_sortbasis on random lists of up to 2000 elements (100 per case) and every comparison on random triples', batch=10)
Engine('lemon-tables', ['L06'], ul.setup, _u('tables', 20), 400, 6000, 'string, symbol, state and item tables against a plain list, 20 random histories of up to 2500 operations per case', batch=10)
Engine('lemon-sets', ['L01'], ul.setup, _u('ets', 100), 200, 3000, 'SetNew, SetAdd, SetFind, SetUnion against plain arrays, 100 histories per case', batch=10)

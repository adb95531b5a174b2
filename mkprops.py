#!/usr/bin/env python3
"""writes properties.jsonl (the property texts live here)"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe), 'hook_needed': None}})
T542 = 'The suite compares output for about 100 fixed grammars with stored files; '
p('C01', 'byacc builds exactly the canonical LR(0) states and transitions',
  'For every grammar, the parser states are exactly the reachable canonical LR(0) item sets, each present once. From each state there is a transition on exactly the symbols that follow a dot in its items, and it leads to the state made of those items with the dot moved over the symbol.',
  ['inputs'], 'every well-formed grammar, with any number of symbols, rules and states', T542 + 'no grammar there has more than a few dozen nonterminals, so word-boundary, closure and state-lookup mistakes on other shapes pass.',
  ['byacc/lr0.c', 'byacc/closure.c', 'byacc/warshall.c'],
  [('closure of an item set', 'byacc/closure.c: closure, set_first_derives, set_EFF'), ('transitive closure of bit matrices', 'byacc/warshall.c'), ('state lookup and creation', 'byacc/lr0.c: get_state, new_state, append_states, new_itemsets')],
  [('kernel_items', 'bounds and items by symbol', 'byacc/lr0.c'), ('state_set', 'hash of kernels', 'byacc/lr0.c')], ['y.output states', 'yydgoto/yygindex/yysindex'])
p('C02', 'byacc reduce lookaheads are exactly the LALR(1) sets',
  'For every grammar and every state containing a completed rule, the set of tokens on which that rule may be reduced is exactly the union, over all paths reaching the state, of the tokens that can follow the rule\'s left side there, nullable symbols included. No token is missing and none is added.',
  ['inputs'], 'every grammar: any nesting of nullable nonterminals, any cycle among the includes relations', T542 + 'a lookahead error shows only on grammars with particular nullable tails or cyclic includes chains.',
  ['byacc/lalr.c', 'byacc/lr0.c'],
  [('nullable symbols', 'byacc/lr0.c: set_nullable'), ('reads/includes/lookback relations and their closure', 'byacc/lalr.c: initialize_F, build_relations, digraph, traverse, compute_lookaheads')],
  [('F', 'follow sets per goto', 'byacc/lalr.c'), ('LA', 'lookahead sets per reduction', 'byacc/lalr.c')], ['y.output', 'yyrindex/yytable/yycheck'])
p('C03', 'byacc resolves and counts conflicts exactly as precedence rules demand',
  'For every state and token, a shift/reduce conflict is decided by comparing the precedence of the token and of the rule, then by associativity; without both precedences the shift wins, and among reductions the earliest rule wins. Exactly the conflicts not decided by precedence are counted, per state and in total, and when there are any the exit status is failure iff a declared expectation differs from the count.',
  ['inputs', 'configurations'], 'every grammar, every assignment of precedence levels and associativities, with and without the leftmost-token and ignore-precedence options', T542 + 'few of them combine equal levels, non-associativity, several reductions on one token and expectations.',
  ['byacc/mkpar.c', 'byacc/reader.c', 'byacc/verbose.c'],
  [('ordering of a state\'s actions', 'byacc/mkpar.c: add_reduce, get_shifts'), ('resolution', 'byacc/mkpar.c: remove_conflicts'), ('report and exit status', 'byacc/mkpar.c: total_conflicts')],
  [('suppressed', 'why an action was dropped', 'byacc/defs.h: action')], ['stderr summary', 'exit status', 'y.output', 'parser tables'])
p('C04', 'byacc default reductions never change what is shifted or reduced',
  'A state is given a default reduction only if it has no shift and all its surviving reductions are by that one rule. In every other state each token keeps precisely the action left by conflict resolution, and a token with none is an error.',
  ['inputs'], 'every grammar and every state', T542 + 'a wrong default shows only as a late or missing syntax error for some input.',
  ['byacc/mkpar.c', 'byacc/output.c'], [('choice of the default', 'byacc/mkpar.c: sole_reduction, defreds'), ('rows without the default', 'byacc/output.c: token_actions')],
  [('defred', 'default rule per state', 'byacc/mkpar.c')], ['yydefred', 'y.output'])
p('C05', 'byacc packed tables decode to exactly the unpacked actions and gotos',
  'For every state and every token, looking up the packed tables yields exactly the shift, reduction or error of the unpacked parser, and for every state and nonterminal exactly the goto. Lookups never read an entry that belongs to another row, also for codes that are not tokens of the grammar.',
  ['inputs'], 'every family of sparse rows: any token codes (dense, far apart), any number of states, any growth of the tables', T542 + 'overlaps of packed rows depend on the exact set of rows and codes.',
  ['byacc/output.c'], [('first-fit packing', 'byacc/output.c: sort_actions, matching_vector, pack_vector, pack_table'), ('goto defaults', 'byacc/output.c: default_goto, save_column'), ('rows', 'byacc/output.c: token_actions')],
  [('table/check/base', 'packed vectors', 'byacc/output.c')], ['yytable', 'yycheck', 'yysindex', 'yyrindex', 'yygindex', 'yydgoto'])
p('C06', 'byacc numbers rules in order and records their sides and precedence',
  'Rules are numbered in the order they are written, with each embedded action a numbered empty rule of its own just before the rule it occurs in, and every rule keeps its own left side, right side and length. A rule\'s precedence is that of its explicit precedence symbol, else that of its last terminal (the first one with a precedence under the leftmost-token option).',
  ['inputs', 'configurations'], 'every grammar, with alternatives, embedded actions, explicit precedences, and array growth at any size', T542 + 'no grammar there crosses each growth limit or mixes embedded actions with explicit precedences.',
  ['byacc/reader.c'], [('collecting items', 'byacc/reader.c: add_symbol, insert_empty_rule, end_rule, expand_items, expand_rules'), ('packing', 'byacc/reader.c: pack_grammar')],
  [('ritem/rrhs/rlhs', 'packed rules', 'byacc/reader.c')], ['yylhs', 'yylen', 'rule names', 'y.output'])
p('C07', 'byacc gives every token a unique code and honours explicit codes',
  'A token keeps its explicitly declared code or, for a single-character literal, the character code; every other token gets a code above 256 that no other token has, in order of first mention. End of input is 0 and the error token 256 unless redefined; the largest code is reported correctly and the same codes appear in header, tables and report.',
  ['inputs'], 'every set of token declarations with any explicit codes', T542 + 'very few mix explicit codes above 256 with automatic ones.',
  ['byacc/reader.c', 'byacc/output.c'], [('code assignment', 'byacc/reader.c: pack_symbols'), ('declaration of codes', 'byacc/reader.c: declare_tokens'), ('definitions', 'byacc/output.c: output_defines')],
  [('symbol_value', 'external code', 'byacc/reader.c')], ['y.tab.h', 'YYMAXTOKEN', 'y.output'])
p('C08', 'byacc decodes quoted literals canonically',
  'Two spellings of a literal token name the same token exactly when they denote the same character sequence, whatever escapes are used. A literal denoting one character has that character\'s code as its token code, and its printed name reads back as the same literal.',
  ['inputs'], 'every literal: plain, octal, hexadecimal and named escapes, either quote', T542 + 'only a handful of escapes occur.',
  ['byacc/reader.c'], [('decoding and re-encoding', 'byacc/reader.c: get_literal, hexval')], [], ['y.tab.h', 'y.output', 'token codes'])
p('C09', 'byacc names map to one symbol each, and numbers in grammars are read exactly',
  'Looking up a name returns the same symbol whenever the characters are equal and different symbols whenever they differ, for any number of names and whatever their hash values; every symbol appears once in the symbol list in order of first mention.',
  ['inputs', 'histories'], 'every sequence of names', T542 + 'hash collisions and long chains are not exercised.',
  ['byacc/symtab.c', 'byacc/reader.c'], [('hash table', 'byacc/symtab.c: hash, lookup, make_bucket')], [('symbol_table', 'chains per hash value', 'byacc/symtab.c')], ['y.output', 'symbol numbering'])
p('C10', 'byacc carries text of any length unmodified',
  'Text collected from a grammar (actions, prologue, literals, type tags, names) reaches the output byte for byte whatever its length; buffers grow without losing, truncating or duplicating characters.',
  ['inputs'], 'every text length, in particular around every buffer growth', T542 + 'no text there is longer than a buffer.',
  ['byacc/mstring.c', 'byacc/reader.c'], [('growable strings', 'byacc/mstring.c: msnew, mputc, mputchar, msdone, msprintf, strnshash'), ('cached text', 'byacc/reader.c: cachec, get_line, copy_string')],
  [('base/ptr/end', 'buffer, next free, limit', 'byacc/mstring.c')], ['y.tab.c actions and prologue'])
p('C11', 'byacc reports exactly the rules that can never be reduced, and true totals',
  'A rule is reported as never reduced exactly when no state keeps a reduction by it after conflict resolution; the number on the console equals the number listed. The totals of symbols, rules and states in the report are those of the parser, and each conflict line names the two actions really in conflict.',
  ['inputs'], 'every grammar', T542 + 'only a few have unused rules or conflicts, and wrong names in conflict lines went unnoticed.',
  ['byacc/mkpar.c', 'byacc/verbose.c'], [('unused rules', 'byacc/mkpar.c: unused_rules; byacc/verbose.c: log_unused'), ('conflict lines', 'byacc/verbose.c: print_conflicts')], [('rules_used', 'flag per rule', 'byacc/mkpar.c')], ['stderr', 'y.output'])
p('C12', 'byacc-generated parsers accept exactly the language and act in order',
  'A generated parser accepts an input exactly when the tables\' LR automaton does, performing the reductions of that run in order and passing each action the values of its own right-hand side; a syntax error is reported at the first token the automaton rejects, before anything further is shifted.',
  ['inputs', 'programs'], 'every grammar and every token sequence, up to the stack limit', 'The suite never runs a generated parser.',
  ['byacc/yaccpar.c', 'byacc/btyaccpar.c', 'byacc/output.c'], [('parser skeleton', 'byacc/btyaccpar.c, byacc/yaccpar.c'), ('actions', 'byacc/reader.c: copy_action')], [], ['behaviour of the compiled parser'])
p('C13', 'byacc grammar exports describe the same grammar',
  'The grammar written in another notation (bare yacc, lemon, EBNF and so on) has the same rules over the same symbols in the same order as the input, so that a tool reading it builds the same language.',
  ['inputs', 'configurations'], 'every grammar and every export option', 'The suite has no test of the exports.',
  ['byacc/reader.c'], [('exports', 'byacc/reader.c: print_grammar_naked, print_grammar_lemon, print_grammar_ebnf, print_grammar_sql')], [], ['export files'])
L = 'lemon has no test at all in the suite; '
p('L01', 'lemon FIRST sets and nullability are the least solution',
  'For every grammar, a nonterminal is treated as nullable exactly when it derives the empty string, and its FIRST set is exactly the set of tokens that can begin a string derived from it. Adding to and uniting token sets changes nothing else and reports whether something changed.',
  ['inputs'], 'every grammar, any dependency cycles, and any rule order', L + 'a fixpoint stopped too early shows only for particular rule orders.',
  ['lemon/lemon.c'], [('fixpoints', 'lemon/lemon.c: FindFirstSets'), ('sets', 'lemon/lemon.c: SetNew, SetAdd, SetUnion, SetSize')], [('firstset/lambda', 'FIRST and nullable per symbol', 'lemon/lemon.c: struct symbol')], ['generated tables', '.out report'])
p('L02', 'lemon builds exactly the LALR(1) automaton',
  'The generated automaton has exactly one state per reachable set of kernel items, transitions as the items demand, and reductions on exactly the LALR(1) lookahead tokens, whichever of the state ordering and compression options are given.',
  ['inputs', 'configurations'], 'every grammar and option combination', L + 'the quantifier is over all grammars.',
  ['lemon/lemon.c'], [('states', 'lemon/lemon.c: FindStates, getstate, buildshifts, Configlist_closure'), ('follow sets', 'lemon/lemon.c: FindLinks, FindFollowSets'), ('actions', 'lemon/lemon.c: FindActions, ResortStates')], [('cfp/bp', 'configurations of a state', 'lemon/lemon.c: struct state')], ['generated tables'])
p('L03', 'lemon resolves and counts conflicts exactly as precedence rules demand',
  'Each conflict is decided by the precedences of token and rule, then by associativity (equal non-associative precedence leaves an error), two reductions by their rules\' precedences; otherwise the shift or the earlier rule wins and exactly those undecided conflicts are counted by kind. The exit status is failure iff the count differs from the expected one or some rule can never be reduced.',
  ['inputs', 'configurations'], 'every grammar and every assignment of precedences, with and without the last-token and ignore-precedence options', L + 'all combinations of several actions on one token matter.',
  ['lemon/lemon.c'], [('resolution', 'lemon/lemon.c: resolve_conflict, FindActions'), ('order of actions', 'lemon/lemon.c: actioncmp, Action_sort')], [], ['generated tables', 'messages', 'exit status'])
p('L04', 'lemon packed action table decodes to exactly the actions of each state',
  'Looking up any state and symbol in the generated tables, exactly as the generated parser does, gives the action the state has for that symbol, or the state\'s default if it has none; no lookup leaves the tables or hits another state\'s entry. The ranges of action codes never overlap.',
  ['inputs'], 'every family of action rows and every symbol numbering', L + 'overlaps depend on the exact rows.',
  ['lemon/lemon.c'], [('packing', 'lemon/lemon.c: acttab_action, acttab_insert'), ('encoding', 'lemon/lemon.c: compute_action, ReportTable')], [('aAction/aLookahead', 'packed and pending entries', 'lemon/lemon.c: struct acttab')], ['yy_action', 'yy_lookahead', 'yy_shift_ofst', 'yy_reduce_ofst', 'yy_default'])
p('L05', 'lemon sorting returns exactly its elements in the right order',
  'Every list sort returns exactly the elements it was given, each once, ordered by the comparison; rules are ordered by number, and every comparison used is a consistent order that tells different elements apart, so that results do not depend on the starting arrangement.',
  ['inputs'], 'every list of every length', L + 'merge errors show at particular lengths.',
  ['lemon/lemon.c'], [('merge sorts', 'lemon/lemon.c: msort, merge, Rule_sort, Rule_merge'), ('comparisons', 'lemon/lemon.c: actioncmp, Configcmp, axset_compare, stateResortCompare, Symbolcmpp')], [], ['rule numbering', 'state order', 'tables'])
p('L06', 'lemon tables of names, states and items find what was stored and nothing else',
  'A name, symbol, state or item stored once is found again under an equal key and under no other, for any number of entries and across every growth of the table; storing an equal key twice does not create a second entry. Hence every symbol has one code and every rule appears once.',
  ['inputs', 'histories'], 'every sequence of insertions and lookups', L + 'growth and collision chains need many entries.',
  ['lemon/lemon.c'], [('hash tables', 'lemon/lemon.c: Strsafe_insert, Strsafe_find, Symbol_insert, Symbol_find, State_insert, State_find, Configtable_insert, Configtable_find, Configtable_clear')], [('tbl/ht', 'entries and buckets', 'lemon/lemon.c: struct s_x1..s_x4')], ['symbol codes', 'rules', 'states'])
p('L07', 'lemon takes a rule\'s precedence from the documented symbol',
  'A rule without explicit precedence symbol takes the precedence of its first right-hand terminal that has one (members of a token class in order), or under the yacc option of its last terminal; it has none if there is no such terminal or precedences are ignored. An explicit precedence symbol is kept.',
  ['inputs', 'configurations'], 'every rule and every option', L + 'only rules with several terminals distinguish the choices.',
  ['lemon/lemon.c'], [('choice of the symbol', 'lemon/lemon.c: FindRulePrecedences')], [('precsym', 'precedence symbol of a rule', 'lemon/lemon.c: struct rule')], ['conflict resolution'])
p('L08', 'lemon table and code types always hold their values',
  'Every generated table is declared with an integer type that represents its smallest and largest entry, and the symbol and action code types hold every code, including the codes for "none".',
  ['inputs'], 'every range of values, in particular around the limits of each type', L + 'the limits need more than 255 or 65534 symbols, states or rules.',
  ['lemon/lemon.c'], [('type choice', 'lemon/lemon.c: minimum_size_type')], [], ['generated declarations'])
p('L09', 'lemon table compression keeps every action and only adds defaults for errors',
  'Replacing the most frequent reduction by a default changes no action of any token that had one: the other tokens, once errors, at most perform that reduction before the error is found. Merging a shift with the reduction that must follow it, and skipping unit rules without code, leave the accepted language and the executed actions unchanged.',
  ['inputs', 'configurations'], 'every grammar, with and without compression, with and without code on unit rules', L + 'chains of unit rules and wildcard tokens are needed.',
  ['lemon/lemon.c'], [('defaults and merged actions', 'lemon/lemon.c: CompressTables')], [('autoReduce', 'state that always reduces one rule', 'lemon/lemon.c: struct state')], ['yy_default', 'generated tables'])
p('L10', 'lemon-generated parsers accept exactly the language and act in order',
  'A generated parser fed any token sequence performs exactly the reductions of the automaton, in order, and reports an error at the first token that has no action after fallback and wildcard have been tried; it never reads outside its tables.',
  ['inputs', 'programs'], 'every grammar and every token sequence', L + 'no generated parser is ever run.',
  ['lemon/lempar.c', 'lemon/lemon.c'], [('table lookup', 'lemon/lempar.c: yy_find_shift_action, yy_find_reduce_action'), ('reduction', 'lemon/lempar.c: yy_reduce')], [], ['behaviour of the compiled parser'])
p('L11', 'lemon conditional sections keep exactly the lines whose conditions hold',
  'In a grammar with nested conditional sections, exactly the lines all of whose enclosing conditions hold (else branches negated) are read, line numbers are preserved, and a condition over defined names has its usual boolean value.',
  ['inputs', 'configurations'], 'every nesting of sections, every boolean condition and every set of defined names', L + 'nesting depth and mixed operators matter.',
  ['lemon/lemon.c'], [('conditions', 'lemon/lemon.c: eval_preprocessor_boolean, preprocess_input')], [], ['preprocessed input', 'parsed grammar'])
p('L12', 'lemon carries action text unmodified apart from its substitutions',
  'The code of a rule reaches the generated parser unchanged except that each symbol alias is replaced by its stack reference, whatever the length of the code; the buffer it is collected in never loses or truncates text.',
  ['inputs'], 'every action text of any length', L + 'lengths around buffer growth matter.',
  ['lemon/lemon.c'], [('buffer', 'lemon/lemon.c: append_str'), ('substitution', 'lemon/lemon.c: translate_code')], [], ['generated reduce actions'])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
for x in P: assert len(x['title']) <= 80, x['title']
print(len(P))

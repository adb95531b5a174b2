== yy_find_shift_action@full files=gen/full.c props=L10
use lempar.Lempar
requires token: 0 <= iLookAhead < g_v_YYNTOKEN /\ iLookAhead <> g_v_YYNOCODE
requires state: 0 <= stateno /\ g_v_YY_MAX_SHIFT <= g_v_YY_SHIFT_COUNT
requires limits: 0 <= g_v_YYWILDCARD < g_v_YYNTOKEN /\ g_v_YYNTOKEN <= g_n_yyFallback /\ g_n_yy_action = g_v_YY_ACTTAB_COUNT /\ g_n_yy_action <= g_n_yy_lookahead
requires rows: rows #heap(g_yy_shift_ofst[]) #heap(g_yy_lookahead[]) g_yy_shift_ofst g_yy_lookahead g_v_YY_SHIFT_COUNT g_v_YYNTOKEN g_n_yy_lookahead g_n_yy_action
requires fallbacks: fallbacks #heap(g_yyFallback[]) g_yyFallback g_v_YYNTOKEN g_v_YYNOCODE
bounds g_yy_lookahead: g_yy_lookahead <= a_ < g_yy_lookahead + g_n_yy_lookahead
bounds g_yy_action: g_yy_action <= a_ < g_yy_action + g_n_yy_action
bounds g_yyFallback: g_yyFallback <= a_ < g_yyFallback + g_n_yyFallback
bounds g_yy_shift_ofst: g_yy_shift_ofst <= a_ <= g_yy_shift_ofst + g_v_YY_SHIFT_COUNT
bounds g_yy_default: g_yy_default <= a_ <= g_yy_default + g_v_YY_MAX_SHIFT
ensures pending: stateno > g_v_YY_MAX_SHIFT -> result = stateno
ensures action: stateno <= g_v_YY_MAX_SHIFT -> result = act #heap(g_yy_lookahead[]) #heap(g_yy_action[]) g_yy_lookahead g_yy_action #g_yy_shift_ofst[stateno] g_v_YYWILDCARD (old iLookAhead) #g_yyFallback[old iLookAhead] #g_yy_default[stateno]
ghost let t0 = iLookAhead in
loop 1
inv token: 0 <= iLookAhead < g_v_YYNTOKEN /\ iLookAhead <> g_v_YYNOCODE
inv step: iLookAhead = t0 \/ (not (hit #heap(g_yy_lookahead[]) g_yy_lookahead #g_yy_shift_ofst[stateno] t0) /\ #g_yyFallback[t0] <> 0 /\ iLookAhead = #g_yyFallback[t0])

== yy_find_shift_action@plain files=gen/plain.c props=L10
use lempar.Lempar
requires token: 0 <= iLookAhead < g_v_YYNTOKEN /\ iLookAhead <> g_v_YYNOCODE
requires state: 0 <= stateno /\ g_v_YY_MAX_SHIFT <= g_v_YY_SHIFT_COUNT
requires limits: g_n_yy_action = g_v_YY_ACTTAB_COUNT /\ g_n_yy_action <= g_n_yy_lookahead
requires rows: rows #heap(g_yy_shift_ofst[]) #heap(g_yy_lookahead[]) g_yy_shift_ofst g_yy_lookahead g_v_YY_SHIFT_COUNT g_v_YYNTOKEN g_n_yy_lookahead g_n_yy_action
bounds g_yy_lookahead: g_yy_lookahead <= a_ < g_yy_lookahead + g_n_yy_lookahead
bounds g_yy_action: g_yy_action <= a_ < g_yy_action + g_n_yy_action
bounds g_yy_shift_ofst: g_yy_shift_ofst <= a_ <= g_yy_shift_ofst + g_v_YY_SHIFT_COUNT
bounds g_yy_default: g_yy_default <= a_ <= g_yy_default + g_v_YY_MAX_SHIFT
ensures pending: stateno > g_v_YY_MAX_SHIFT -> result = stateno
ensures action: stateno <= g_v_YY_MAX_SHIFT -> result = act0 #heap(g_yy_lookahead[]) #heap(g_yy_action[]) g_yy_lookahead g_yy_action #g_yy_shift_ofst[stateno] (old iLookAhead) #g_yy_default[stateno]
loop 1
inv none: true

== yy_find_reduce_action@full files=gen/full.c props=L10
use lempar.Lempar
requires range: 0 <= stateno <= g_v_YY_MAX_SHIFT /\ iLookAhead <> g_v_YYNOCODE
requires limits: g_v_YY_ACTTAB_COUNT <= g_n_yy_lookahead
bounds g_yy_lookahead: g_yy_lookahead <= a_ < g_yy_lookahead + g_n_yy_lookahead
bounds g_yy_action: g_yy_action <= a_ < g_yy_action + g_v_YY_ACTTAB_COUNT
bounds g_yy_reduce_ofst: g_yy_reduce_ofst <= a_ <= g_yy_reduce_ofst + g_v_YY_REDUCE_COUNT
bounds g_yy_default: g_yy_default <= a_ <= g_yy_default + g_v_YY_MAX_SHIFT
ensures goto: result = (if stateno <= g_v_YY_REDUCE_COUNT then goto_ #heap(g_yy_lookahead[]) #heap(g_yy_action[]) g_yy_lookahead g_yy_action #g_yy_reduce_ofst[stateno] iLookAhead g_v_YY_ACTTAB_COUNT #g_yy_default[stateno] else #g_yy_default[stateno])

== yy_find_reduce_action@plain files=gen/plain.c props=L10
use lempar.Lempar
requires range: 0 <= stateno <= g_v_YY_REDUCE_COUNT /\ iLookAhead <> g_v_YYNOCODE
requires limits: g_v_YY_ACTTAB_COUNT <= g_n_yy_lookahead
requires entry: 0 <= #g_yy_reduce_ofst[stateno] + iLookAhead < g_v_YY_ACTTAB_COUNT /\ hit #heap(g_yy_lookahead[]) g_yy_lookahead #g_yy_reduce_ofst[stateno] iLookAhead
bounds g_yy_lookahead: g_yy_lookahead <= a_ < g_yy_lookahead + g_n_yy_lookahead
bounds g_yy_action: g_yy_action <= a_ < g_yy_action + g_v_YY_ACTTAB_COUNT
bounds g_yy_reduce_ofst: g_yy_reduce_ofst <= a_ <= g_yy_reduce_ofst + g_v_YY_REDUCE_COUNT
ensures goto: result = #g_yy_action[#g_yy_reduce_ofst[stateno] + iLookAhead]

== yy_pop_parser_stack@full files=gen/full.c props=L10
extern yy_destructor destroyed drop
requires some: #pParser->yytos > #pParser->yystack /\ #pParser->yytos <> 0
ensures top: #pParser->yytos = (old #pParser->yytos) - 1

== yyStackOverflow@full files=gen/full.c props=L10
opt callee yy_pop_parser_stack=yy_pop_parser_stack@full
requires stack: #yypParser->yytos >= #yypParser->yystack /\ #yypParser->yystack > 0
ensures top: #yypParser->yytos = #yypParser->yystack
loop 1
inv stack: #yypParser->yytos >= #yypParser->yystack /\ #yypParser->yystack > 0

== yy_shift@full files=gen/full.c props=L10
opt callee yyStackOverflow=yyStackOverflow@full
requires stack: #yypParser->yystack <= #yypParser->yytos <= #yypParser->yystackEnd /\ #yypParser->yystack > 0
ensures in: #yypParser->yystack <= #yypParser->yytos <= #yypParser->yystackEnd
ensures full: old #yypParser->yytos = #yypParser->yystackEnd -> #yypParser->yytos = #yypParser->yystack /\ #heap(yypParser->yytos->stateno) = old #heap(yypParser->yytos->stateno) /\ #heap(yypParser->yytos->major) = old #heap(yypParser->yytos->major)
ensures top: old #yypParser->yytos < #yypParser->yystackEnd -> #yypParser->yytos = (old #yypParser->yytos) + 1
ensures state: old #yypParser->yytos < #yypParser->yystackEnd -> #heap(yypParser->yytos->stateno) = Map.set (old #heap(yypParser->yytos->stateno)) ((old #yypParser->yytos) + 1) (if yyNewState > g_v_YY_MAX_SHIFT then yyNewState + g_v_YY_MIN_REDUCE - g_v_YY_MIN_SHIFTREDUCE else yyNewState)
ensures symbol: old #yypParser->yytos < #yypParser->yystackEnd -> #heap(yypParser->yytos->major) = Map.set (old #heap(yypParser->yytos->major)) ((old #yypParser->yytos) + 1) yyMajor
ensures value: old #yypParser->yytos < #yypParser->yystackEnd -> #heap(yypParser->yytos->minor.yy0) = Map.set (old #heap(yypParser->yytos->minor.yy0)) ((old #yypParser->yytos) + 1) yyMinor

== yy_pop_parser_stack@plain files=gen/plain.c props=L10
extern yy_destructor destroyed drop
requires some: #pParser->yytos > #pParser->yystack /\ #pParser->yytos <> 0
ensures top: #pParser->yytos = (old #pParser->yytos) - 1

== yyStackOverflow@plain files=gen/plain.c props=L10
opt callee yy_pop_parser_stack=yy_pop_parser_stack@plain
requires stack: #yypParser->yytos >= #yypParser->yystack /\ #yypParser->yystack > 0
ensures top: #yypParser->yytos = #yypParser->yystack
loop 1
inv stack: #yypParser->yytos >= #yypParser->yystack /\ #yypParser->yystack > 0

== yy_shift@plain files=gen/plain.c props=L10
opt callee yyStackOverflow=yyStackOverflow@plain
requires stack: #yypParser->yystack <= #yypParser->yytos <= #yypParser->yystackEnd /\ #yypParser->yystack > 0
ensures in: #yypParser->yystack <= #yypParser->yytos <= #yypParser->yystackEnd
ensures full: old #yypParser->yytos = #yypParser->yystackEnd -> #yypParser->yytos = #yypParser->yystack /\ #heap(yypParser->yytos->stateno) = old #heap(yypParser->yytos->stateno) /\ #heap(yypParser->yytos->major) = old #heap(yypParser->yytos->major)
ensures top: old #yypParser->yytos < #yypParser->yystackEnd -> #yypParser->yytos = (old #yypParser->yytos) + 1
ensures state: old #yypParser->yytos < #yypParser->yystackEnd -> #heap(yypParser->yytos->stateno) = Map.set (old #heap(yypParser->yytos->stateno)) ((old #yypParser->yytos) + 1) (if yyNewState > g_v_YY_MAX_SHIFT then yyNewState + g_v_YY_MIN_REDUCE - g_v_YY_MIN_SHIFTREDUCE else yyNewState)
ensures symbol: old #yypParser->yytos < #yypParser->yystackEnd -> #heap(yypParser->yytos->major) = Map.set (old #heap(yypParser->yytos->major)) ((old #yypParser->yytos) + 1) yyMajor
ensures value: old #yypParser->yytos < #yypParser->yystackEnd -> #heap(yypParser->yytos->minor.yy0) = Map.set (old #heap(yypParser->yytos->minor.yy0)) ((old #yypParser->yytos) + 1) yyMinor

== yy_reduce@full files=gen/full.c props=L10
extern x action drop
opt callee yy_find_reduce_action=yy_find_reduce_action@full
use lempar.Lempar
requires rule: 0 <= yyruleno < g_n_yyRuleInfoLhs
requires below: #yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno] >= #yypParser->yystack
requires state: 0 <= #heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]] <= g_v_YY_MAX_SHIFT /\ #g_yyRuleInfoLhs[yyruleno] <> g_v_YYNOCODE
requires limits: g_v_YY_ACTTAB_COUNT <= g_n_yy_lookahead
requires goto: let a = (if #heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]] <= g_v_YY_REDUCE_COUNT then goto_ #heap(g_yy_lookahead[]) #heap(g_yy_action[]) g_yy_lookahead g_yy_action #g_yy_reduce_ofst[#heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]]] #g_yyRuleInfoLhs[yyruleno] g_v_YY_ACTTAB_COUNT #g_yy_default[#heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]]] else #g_yy_default[#heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]]]) in a <> g_v_YY_ERROR_ACTION /\ not (g_v_YY_MAX_SHIFT < a <= g_v_YY_MAX_SHIFTREDUCE)
bounds g_yyRuleInfoLhs: g_yyRuleInfoLhs <= a_ < g_yyRuleInfoLhs + g_n_yyRuleInfoLhs
bounds g_yyRuleInfoNRhs: g_yyRuleInfoNRhs <= a_ < g_yyRuleInfoNRhs + g_n_yyRuleInfoLhs
ensures goto: result = (if (old #heap(yypParser->yytos->stateno))[(old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno]] <= g_v_YY_REDUCE_COUNT then goto_ #heap(g_yy_lookahead[]) #heap(g_yy_action[]) g_yy_lookahead g_yy_action #g_yy_reduce_ofst[(old #heap(yypParser->yytos->stateno))[(old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno]]] #g_yyRuleInfoLhs[yyruleno] g_v_YY_ACTTAB_COUNT #g_yy_default[(old #heap(yypParser->yytos->stateno))[(old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno]]] else #g_yy_default[(old #heap(yypParser->yytos->stateno))[(old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno]]])
ensures top: #yypParser->yytos = (old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno] + 1
ensures state: #heap(yypParser->yytos->stateno) = Map.set (old #heap(yypParser->yytos->stateno)) #yypParser->yytos result
ensures symbol: #heap(yypParser->yytos->major) = Map.set (old #heap(yypParser->yytos->major)) #yypParser->yytos #g_yyRuleInfoLhs[yyruleno]

== yy_reduce@plain files=gen/plain.c props=L10
extern x action drop
opt callee yy_find_reduce_action=yy_find_reduce_action@plain
use lempar.Lempar
requires rule: 0 <= yyruleno < g_n_yyRuleInfoLhs /\ #g_yyRuleInfoNRhs[yyruleno] <= 0
requires below: #yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno] >= #yypParser->yystack
requires state: 0 <= #heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]] <= g_v_YY_REDUCE_COUNT /\ #g_yyRuleInfoLhs[yyruleno] <> g_v_YYNOCODE
requires limits: g_v_YY_ACTTAB_COUNT <= g_n_yy_lookahead
requires entry: 0 <= #g_yy_reduce_ofst[#heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]]] + #g_yyRuleInfoLhs[yyruleno] < g_v_YY_ACTTAB_COUNT
requires hit: hit #heap(g_yy_lookahead[]) g_yy_lookahead #g_yy_reduce_ofst[#heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]]] #g_yyRuleInfoLhs[yyruleno]
requires goto: let a = #g_yy_action[#g_yy_reduce_ofst[#heap(yypParser->yytos->stateno)[#yypParser->yytos + #g_yyRuleInfoNRhs[yyruleno]]] + #g_yyRuleInfoLhs[yyruleno]] in a <> g_v_YY_ERROR_ACTION /\ not (g_v_YY_MAX_SHIFT < a <= g_v_YY_MAX_SHIFTREDUCE)
bounds g_yyRuleInfoLhs: g_yyRuleInfoLhs <= a_ < g_yyRuleInfoLhs + g_n_yyRuleInfoLhs
bounds g_yyRuleInfoNRhs: g_yyRuleInfoNRhs <= a_ < g_yyRuleInfoNRhs + g_n_yyRuleInfoLhs
ensures goto: result = #g_yy_action[#g_yy_reduce_ofst[(old #heap(yypParser->yytos->stateno))[(old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno]]] + #g_yyRuleInfoLhs[yyruleno]]
ensures top: #yypParser->yytos = (old #yypParser->yytos) + #g_yyRuleInfoNRhs[yyruleno] + 1
ensures state: #heap(yypParser->yytos->stateno) = Map.set (old #heap(yypParser->yytos->stateno)) #yypParser->yytos result
ensures symbol: #heap(yypParser->yytos->major) = Map.set (old #heap(yypParser->yytos->major)) #yypParser->yytos #g_yyRuleInfoLhs[yyruleno]

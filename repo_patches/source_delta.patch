From 5eddfcdedc052a4dc4ac05f7e1804d488783b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 01/22] fix: count a reduction on end of input in the final
 state as a conflict with accepting

---
 byacc/mkpar.c   | 14 +++++++-------
 byacc/verbose.c |  4 +++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index 65a0cc0..6ffd416 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -227,19 +227,19 @@ remove_conflicts(byacc_t* S)
 #endif
 	for (p = S->parser[i]; p; p = p->next)
 	{
-	    if (p->symbol != symbol)
+	    if (i == S->final_state && p->symbol == 0)
+	    {
+		/* the parser accepts here, so every reduction is in conflict */
+		S->fs8_SRcount++;
+		p->suppressed = 1;
+	    }
+	    else if (p->symbol != symbol)
 	    {
 		/* the first parse action for each symbol is the preferred action */
 		pref = p;
 		symbol = p->symbol;
 	    }
 	    /* following conditions handle multiple, i.e., conflicting, parse actions */
-	    else if (i == S->final_state && symbol == 0)
-	    {
-		S->fs8_SRcount++;
-		p->suppressed = 1;
-		StartBacktrack(pref);
-	    }
 	    else if (pref != 0 && pref->action_code == SHIFT)
 	    {
 		if (pref->prec > 0 && p->prec > 0)
diff --git a/byacc/verbose.c b/byacc/verbose.c
index e2879a5..e430e61 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -141,8 +141,10 @@ print_conflicts(byacc_t* S, int state)
 		act = SHIFT;
 	    else
 		act = REDUCE;
+	    if (state != S->final_state || symbol != 0)
+		continue;
 	}
-	else if (p->suppressed == 1)
+	if (p->suppressed == 1)
 	{
             r2 = p->number - RULE_NUM_OFFSET;
 	    if (state == S->final_state && symbol == 0)
-- 
2.43.0


From 76221bddec46b933975798729faf0d97c7d97016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 02/22] fix: name the left side of the right rule in
 reduce/reduce conflict messages

---
 byacc/verbose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/verbose.c b/byacc/verbose.c
index e430e61..e7ef2fa 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -165,7 +165,7 @@ print_conflicts(byacc_t* S, int state)
                     r1 = number - RULE_NUM_OFFSET;
 		    fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-                            (long)(r1), S->symbol_name[S->rlhs[r1]],
+                            (long)(r1), S->symbol_name[S->rlhs[number]],
                             (long)(r2), S->symbol_name[S->rlhs[p->number]],
 			    S->symbol_name[symbol]);
 		}
-- 
2.43.0


From e954febf2f3ca8b54617146d1db20c0f8138abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 03/22] fix: a non-associative conflict leaves neither the
 shift nor the reduction (and no failed assertion)

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..0b97a64 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1302,7 +1302,7 @@ static int resolve_conflict(
     apy->type = SSCONFLICT;
     errcnt++;
   }
-  if( apx->type==SHIFT && apy->type==REDUCE ){
+  if( (apx->type==SHIFT || apx->type==ERROR) && apy->type==REDUCE ){
     spx = apx->sp;
     spy = apy->x.rp->precsym;
     if( spy==0 || spx->prec<0 || spy->prec<0 ){
@@ -1321,6 +1321,7 @@ static int resolve_conflict(
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
       apx->type = ERROR;
+      apy->type = RD_RESOLVED;
     }
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
-- 
2.43.0


From edeb90e088d9a345a38db08b0e828b8217c9c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 04/22] fix: a state with a non-associativity error must look
 at its lookahead

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 0b97a64..46ae84e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5613,7 +5613,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From ca394441d9e9f90334aef7d5d1c1b2088e7d5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 05/22] fix: -r must still count the actions of each state

---
 lemon/lemon.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 46ae84e..e1d546d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1837,7 +1837,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort==0);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5698,7 +5698,7 @@ static int stateResortCompare(const void *a, const void *b){
 ** Renumber and resort states so that states with fewer choices
 ** occur at the end.  Except, keep state 0 as the first state.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int resort)
 {
   int i;
   struct state *stp;
@@ -5724,7 +5724,7 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
-  qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
+  if( resort ) qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
         stateResortCompare);
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
-- 
2.43.0


From acfd039629b0ef824124841b695422731637922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 06/22] fix: unit-rule elimination on cyclic grammars (A ::= B.
 B ::= A.)

---
 lemon/lemon.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e1d546d..f83b62c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5562,9 +5562,11 @@ void CompressTables(struct lemon *lemp)
 {
   struct state *stp;
   struct action *ap, *ap2, *nextap;
+  struct action *aphop = 0;
   struct rule *rp, *rp2, *rbest;
   int nbest, n;
   int i;
+  int nhop = 0;
   int usesWildcard;
 
   for(i=0; i<lemp->nstate; i++){
@@ -5659,10 +5661,12 @@ void CompressTables(struct lemon *lemp)
       ** larger. */
       if( ap->sp->index<lemp->nterminal ) continue;
 #endif
-      /* If we reach this point, it means the optimization can be applied */
-      nextap = ap;
+      /* If we reach this point, it means the optimization can be applied,
+      ** unless the rules form a cycle: A ::= B.  B ::= A. */
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
-      assert( ap2!=0 );
+      if( ap!=aphop ){ aphop = ap; nhop = 0; }
+      if( ap2==0 || nhop++>=lemp->nsymbol ) continue;
+      nextap = ap;
       ap->spOpt = ap2->sp;
       ap->type = ap2->type;
       ap->x = ap2->x;
-- 
2.43.0


From 4cefadaf00778cc51e2c0a9879515602e4649c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 07/22] fix: room for all includes edges of a goto (heap
 overflow on ambiguous grammars with nullable symbols)

---
 byacc/lalr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/lalr.c b/byacc/lalr.c
index 33c8e21..09a2988 100644
--- a/byacc/lalr.c
+++ b/byacc/lalr.c
@@ -341,7 +341,8 @@ build_relations(byacc_t* S)
     Value_t **new_includes;
 
     S->fs3_includes = NEW2(S->fs3_ngotos, Value_t *);
-    edge = NEW2(S->fs3_ngotos + 1, Value_t);
+    /* one goto has at most one edge per right-hand side symbol of its rules */
+    edge = NEW2(S->nitems + 1, Value_t);
     states = NEW2(S->fs3_maxrhs + 1, Value_t);
 
     for (i = 0; i < S->fs3_ngotos; i++)
-- 
2.43.0


From ff97cac76de10927e095b46697c71b9457b08c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 08/22] fix: lemon does not read before the start of an empty
 code section

---
 lemon/lemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f83b62c..f2e2bb0 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4066,13 +4066,15 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
+  char last = 0;
   if( str==0 ) return;
   while( *str ){
     putc(*str,out);
     if( *str=='\n' ) (*lineno)++;
+    last = *str;
     str++;
   }
-  if( str[-1]!='\n' ){
+  if( last!='\n' ){
     putc('\n',out);
     (*lineno)++;
   }
-- 
2.43.0


From 582f93aa16388de1cd1d111a554afbe12666cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 09/22] fix: long text formatted into a growable string
 (endless loop, lost last character)

---
 byacc/mstring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/byacc/mstring.c b/byacc/mstring.c
index a031744..6437f09 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -36,16 +36,18 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	va_start(args, fmt);
 	len = (size_t)vsnprintf(S->fs5_buf_ptr, S->fs5_buf_len, fmt, args);
 	va_end(args);
-	if ((changed = (len > S->fs5_buf_len)) != 0)
+	if ((changed = (len >= S->fs5_buf_len)) != 0)
 	{
-	    char *new_ptr = realloc(S->fs5_buf_ptr, (S->fs5_buf_len * 3) / 2);
+	    char *new_ptr = realloc(S->fs5_buf_ptr, len + 1);
 	    if (new_ptr == 0)
 	    {
 		free(S->fs5_buf_ptr);
 		S->fs5_buf_ptr = 0;
+		S->fs5_buf_len = 0;
 		return;
 	    }
 	    S->fs5_buf_ptr = new_ptr;
+	    S->fs5_buf_len = len + 1;
 	}
     }
     while (changed);
-- 
2.43.0


From c3929d2afdc705caab25331ed0b42fccf4066036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 10/22] fix: packing a vector keeps the last table entry free
 (read past the end of the check table)

---
 byacc/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2867e5a..2833381 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -849,7 +849,7 @@ pack_vector(byacc_t* S, int vector)
 		{
 		    newmax += 200;
 		}
-		while (newmax <= loc);
+		while (newmax - 1 <= loc);
 
 		S->table = TREALLOC(Value_t, S->table, newmax);
 		NO_SPACE(S->table);
-- 
2.43.0


From 8639f28c197f1d59ba015ef102f829d35beca158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 11/22] fix: SQL export of a grammar whose first rule is empty
 (row without its INSERT)

---
 byacc/reader.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..0e5cd14 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -5024,12 +5024,18 @@ print_grammar_sql(byacc_t* S)
                 ++k;
             }
         } else { /* empty rule */
-            if(!skip_rule) fprintf(f,
-              " %s(%d,%d,NULL)",
-              (b > 0) ? "," : " ", i, j++
-            );
-            ++b;
-            if((b%5) == 0) fprintf(f, "\n");
+            if(!skip_rule) {
+                if(b==0) {
+                  fprintf(f,
+                    "INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n");
+                }
+                fprintf(f,
+                  " %s(%d,%d,NULL)",
+                  (b > 0) ? "," : " ", i, j++
+                );
+                ++b;
+                if((b%5) == 0) fprintf(f, "\n");
+            }
         }
         ++k;
     }
-- 
2.43.0


From 8c560ff9ac25c29363587c7b5258d960460d784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 12/22] fix: lemon stops at the end of code whose last text is
 a label (read past the end of the code)

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f2e2bb0..f20e52c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4336,6 +4336,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
+      if( *cp==0 ) break;   /* The label was the last text of the code */
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 7551a2b42b1b0da1f15fbc32ed961818e01ed16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 13/22] fix: a false left side of && in a %if does not decide
 the operands of a later ||

---
 lemon/lemon.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f20e52c..dc143fe 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2916,7 +2916,18 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     if( z[i]=='&' && z[i+1]=='&' ){
       if( okTerm ) goto pp_syntax_error;
-      if( !res ) return 0;
+      if( !res ){
+        /* Skip the rest of this conjunction: up to the next "||" */
+        int n = 0;
+        for(i += 2; z[i]; i++){
+          if( z[i]=='(' ) n++;
+          else if( z[i]==')' ) n--;
+          else if( n==0 && z[i]=='|' && z[i+1]=='|' ) break;
+        }
+        if( z[i]==0 ) return 0;
+        i--;
+        continue;
+      }
       i++;
       okTerm = 1;
       continue;
-- 
2.43.0


From 500efb3bfa42a59330152ef37b3bad8f77dc8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 14/22] fix: the generated lemon parser starts with one closed
 comment (it did not compile)

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index dc143fe..cca98c7 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4970,7 +4970,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
-- 
2.43.0


From 91ada18bb7ad2ba2c51ea762fa330d4818f86e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 15/22] fix: yyRuleInfoNRhs of the lemon template holds the
 length of every rule (over 128 symbols wrapped)

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..bbb8068 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -687,7 +687,7 @@ static const YYCODETYPE yyRuleInfoLhs[] = {
 
 /* For rule J, yyRuleInfoNRhs[J] contains the negative of the number
 ** of symbols on the right-hand side of that rule. */
-static const signed char yyRuleInfoNRhs[] = {
+static const short yyRuleInfoNRhs[] = {
 %%
 };
 
-- 
2.43.0


From 62f62480e28f017f7e164ec0b923d139c24b0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 16/22] fix: yy_shift_ofst has an entry for every state (read
 past its end on empty rules)

---
 lemon/lemon.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index cca98c7..d516b9b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5254,7 +5254,6 @@ void ReportTable(
 
   /* Output the yy_shift_ofst[] table */
   n = lemp->nxstate;
-  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET ) n--;
   fprintf(out, "#define YY_SHIFT_COUNT    (%d)\n", n-1); lineno++;
   fprintf(out, "#define YY_SHIFT_MIN      (%d)\n", mnTknOfst); lineno++;
   fprintf(out, "#define YY_SHIFT_MAX      (%d)\n", mxTknOfst); lineno++;
-- 
2.43.0


From 67cfbd33b14a3dac816e3271dcb2461b9392f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:41 +0000
Subject: [PATCH 17/22] fix: packing a row of lemon actions always finds an
 offset no other row has

---
 lemon/lemon.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d516b9b..5c8f761 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -730,9 +730,10 @@ int acttab_insert(acttab *p, int makeItSafe){
 
   /* Make sure we have enough space to hold the expanded action table
   ** in the worst case.  The worst case occurs if the transaction set
-  ** must be appended to the current action table
+  ** must be appended to the current action table, at an offset that no
+  ** other transaction has: up to mnLookahead slots after its end.
   */
-  n = p->nsymbol + 1;
+  n = 2*p->nsymbol + 1;
   if( p->nAction + n >= p->nActionAlloc ){
     int oldAlloc = p->nActionAlloc;
     p->nActionAlloc = p->nAction + n + p->nActionAlloc + 20;
-- 
2.43.0


From a1903850a1b9414885fb1f73b6977d2c77ad45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:53 +0000
Subject: [PATCH 18/22] fix: lemon export gives every character literal its own
 name (escaped quote, \a, \b and octal ones)

---
 byacc/reader.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 0e5cd14..debd13e 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4245,27 +4245,24 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
 {
     int ch;
     if(tkname[0] == '\'') {
-        if(tkname[2] == '\'') {
-            ch = tkname[1];
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        }            
-        else if(tkname[3] == '\'') {
-            ch = tkname[2];
+        if(tkname[1] != '\\')
+            ch = UCH(tkname[1]);
+        else if(isdigit(UCH(tkname[2])))
+            ch = (int)strtol(tkname+2, NULL, 8);
+        else {
+            ch = UCH(tkname[2]);
             switch(ch) {
+                case 'a': ch = '\a'; break;
+                case 'b': ch = '\b'; break;
                 case 'n': ch = '\n'; break;
                 case 't': ch = '\t'; break;
                 case 'f': ch = '\f'; break;
                 case 'r': ch = '\r'; break;
                 case 'v': ch = '\v'; break;
-                case '\\': ch = '\\'; break;
-                default:
-                    ch = -1;
             }
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        } else
-            snprintf(*buf, sizeof(char64_t), "Tk_%*s", (int)strlen(tkname)-2, tkname+1);            
+        }
+        if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
+        else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-- 
2.43.0


From ac85d239d23208d15218298650da014f21b9e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:28 +0000
Subject: [PATCH 19/22] fix: grammar exports carry names of any length (cut at
 63 characters, escape_sql wrote past the buffer)

---
 byacc/reader.c | 63 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index debd13e..d2c395c 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4239,10 +4239,23 @@ static const char * ygv_ascii_names_st[] = {
 /*127*/ "127" /*Delete*/
 };
 
-typedef char char64_t[64];
+typedef char *namebuf_t;
 
-static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
+/* make room for any rewriting of the given name, return its size */
+static size_t namebuf_room(namebuf_t *buf, const char *tkname)
 {
+    size_t size = 2 * strlen(tkname) + 32;
+    *buf = TREALLOC(char, *buf, size);
+    if(*buf == NULL) {
+        fprintf(stderr, "out of space\n");
+        exit(EXIT_FAILURE);
+    }
+    return size;
+}
+
+static const char *get_lemon_token_name(namebuf_t *buf, const char *tkname)
+{
+    size_t size = namebuf_room(buf, tkname);
     int ch;
     if(tkname[0] == '\'') {
         if(tkname[1] != '\\')
@@ -4261,22 +4274,22 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
                 case 'v': ch = '\v'; break;
             }
         }
-        if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-        else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
+        if(ch < 127) snprintf(*buf, size, "Tk_%s", ygv_ascii_names_st[ch]);
+        else snprintf(*buf, size, "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
+            snprintf(*buf, size, "Tk_%s", tkname+1);
             (*buf)[strlen(*buf)-1] = '\0';
     }
     else if(tkname[0] == '.' || tkname[0] == '_') {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
+            snprintf(*buf, size, "Tk_%s", tkname);
             (*buf)[3] = '_';
     }
     else if(islower(tkname[0])) {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
+            snprintf(*buf, size, "Tk_%s", tkname);
     }
     else
-        snprintf(*buf, sizeof(char64_t), "%s", tkname);
+        snprintf(*buf, size, "%s", tkname);
     for(int i=0; (*buf)[i]; ++i) {
         if((*buf)[i] == '.')
             (*buf)[i] = '_';
@@ -4284,20 +4297,21 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
     return *buf;
 }
 
-static const char *get_lemon_rule_name(char64_t *buf, const char *tkname)
+static const char *get_lemon_rule_name(namebuf_t *buf, const char *tkname)
 {
+    size_t size = namebuf_room(buf, tkname);
     if(tkname[0] == '.') {
-            snprintf(*buf, sizeof(char64_t), "x%s", tkname);
+            snprintf(*buf, size, "x%s", tkname);
             (*buf)[1] = '_';
     }
     else if(tkname[0] == '_') {
-            snprintf(*buf, sizeof(char64_t), "z%s", tkname);
+            snprintf(*buf, size, "z%s", tkname);
     }
     else if(isupper(tkname[0])) {
-            snprintf(*buf, sizeof(char64_t), "l_%s", tkname);
+            snprintf(*buf, size, "l_%s", tkname);
     }
     else
-        snprintf(*buf, sizeof(char64_t), "%s", tkname);
+        snprintf(*buf, size, "%s", tkname);
     for(int i=0; (*buf)[i]; ++i) {
         if((*buf)[i] == '.')
             (*buf)[i] = '_';
@@ -4360,7 +4374,7 @@ print_grammar_lemon(byacc_t* S)
 {
     int i, k;
     FILE *f = S->lemon_file;
-    char64_t buf;
+    namebuf_t buf = NULL;
 
     if (!S->lemon_flag)
 	return;
@@ -4442,6 +4456,7 @@ print_grammar_lemon(byacc_t* S)
             else fprintf(f, " .\n");
         }
     }
+    FREE(buf);
 }
 
 static void
@@ -4625,9 +4640,10 @@ print_grammar_nakedQ(byacc_t* S)
     fprintf(f, "\t;\n"); /*last rule*/
 }
 
-static const char *get_normalized_rule_name(char64_t *buf, const char *tkname)
+static const char *get_normalized_rule_name(namebuf_t *buf, const char *tkname)
 {
-    snprintf(*buf, sizeof(char64_t), "%s", tkname);
+    size_t size = namebuf_room(buf, tkname);
+    snprintf(*buf, size, "%s", tkname);
     for(int i=0; (*buf)[i]; ++i) {
         if((*buf)[i] == '.')
             (*buf)[i] = '_';
@@ -4641,7 +4657,7 @@ print_grammar_unicc(byacc_t* S)
 {
     int b, i, k;
     FILE *f = S->unicc_file;
-    char64_t buf;
+    namebuf_t buf = NULL;
 
     if (!S->unicc_flag)
 	return;
@@ -4750,6 +4766,7 @@ print_grammar_unicc(byacc_t* S)
         }
     }
     fprintf(f, "\t;\n"); /*last rule*/
+    FREE(buf);
 }
 
 static void
@@ -4757,7 +4774,7 @@ print_grammar_carburetta(byacc_t* S)
 {
     int b, i, k;
     FILE *f = S->carburetta_file;
-    char64_t buf;
+    namebuf_t buf = NULL;
 
     if (!S->carburetta_flag)
 	return;
@@ -4841,12 +4858,14 @@ print_grammar_carburetta(byacc_t* S)
         }
     }
     fprintf(f, "\t;\n"); /*last rule*/
+    FREE(buf);
 }
 
-static const char *escape_sql(char64_t *buf, const char *tkname)
+static const char *escape_sql(namebuf_t *buf, const char *tkname)
 {
     int i, i2;
-    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-1) && tkname[i2]; ++i, ++i2) {
+    (void)namebuf_room(buf, tkname);
+    for(i=0, i2 = 0; tkname[i2]; ++i, ++i2) {
         switch(tkname[i2]) {
             case '\'':
                 (*buf)[i++] = tkname[i2];
@@ -4866,7 +4885,7 @@ print_grammar_sql(byacc_t* S)
     int b, i, j, k;
     FILE *f = S->sql_file;
     bucket *bp;
-    char64_t buf;
+    namebuf_t buf = NULL;
 
     if (!S->sql_flag)
 	return;
@@ -5085,7 +5104,7 @@ print_grammar_sql(byacc_t* S)
         "COMMIT;\n"
         "--select * from grammar_view;\n"
     );
-    
+    FREE(buf);
 }
 
 #if defined(YYBTYACC)
-- 
2.43.0


From c3f794d8b8303f00ccb770b3c81d14addcec2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:56 +0000
Subject: [PATCH 20/22] fix: the carburetta export keeps the literal '.'
 (written as '_')

---
 byacc/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index d2c395c..4dfe740 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4644,6 +4644,8 @@ static const char *get_normalized_rule_name(namebuf_t *buf, const char *tkname)
 {
     size_t size = namebuf_room(buf, tkname);
     snprintf(*buf, size, "%s", tkname);
+    if(tkname[0] == '\'' || tkname[0] == '"')
+        return *buf;   /* a literal stays as it is */
     for(int i=0; (*buf)[i]; ++i) {
         if((*buf)[i] == '.')
             (*buf)[i] = '_';
-- 
2.43.0


From 92cf425959cce6369cf30cefb98bc7d79ebc42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:39 +0000
Subject: [PATCH 21/22] fix: an argument of an untyped or not yet declared
 parameter crashed byacc

---
 byacc/reader.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 4dfe740..18faf25 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -2754,7 +2754,7 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
-	S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
+	S->plhs[rule]->tag = tag ? cache_tag(S, tag, strlen(tag)) : NULL;
 	S->plhs[rule]->class = ARGUMENT;
     }
     else
@@ -2831,7 +2831,17 @@ add_symbol(byacc_t* S)
 
 #if defined(YYBTYACC)
     if (bp->args < 0)
+    {
 	bp->args = argslen;
+	if (argslen > 0)
+	{
+	    /* used before its formal arguments are known: untyped */
+	    bp->argnames = TCMALLOC(char *, argslen);
+	    NO_SPACE(bp->argnames);
+	    bp->argtags = TCMALLOC(char *, argslen);
+	    NO_SPACE(bp->argtags);
+	}
+    }
     if (argslen == 0 && bp->args > 0 && S->pitem[S->nitems - 1] == NULL)
     {
 	int i;
-- 
2.43.0


From f06c6b4c1675f0e944c2a6a10fb40b7ff3bf4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:33 +0000
Subject: [PATCH 22/22] fix: $<tag>$ also sets the value of an action, so a
 following action is one of its own

---
 byacc/reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index 18faf25..261096d 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -2975,6 +2975,9 @@ copy_action(byacc_t* S)
 		fprintf(f, "yyval.%s", tag);
 		++S->cptr;
 		FREE(d_line);
+#if defined(YYBTYACC)
+		haveyyval = 1;
+#endif
 		goto loop;
 	    }
 	    else if (isdigit(UCH(c)))
-- 
2.43.0


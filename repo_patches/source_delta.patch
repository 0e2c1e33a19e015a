From c08a76ee9c5ccfebc871545c72f6a461bac420fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 01/25] fix: close the loop context after a While loop

---
 ast/grammar.y |   1 +
 ast/y.go      | 147 +++++++++++++++++++++++++-------------------------
 2 files changed, 75 insertions(+), 73 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..38629d5 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -244,6 +244,7 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
             WhileExpr: $2,
             Body: $5,
         }
+        setLoopFlag(false, yylex)
 };
 
 
diff --git a/ast/y.go b/ast/y.go
index 34afd52..2853343 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:380
+//line .\grammar.y:381
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -1001,34 +1001,35 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:251
+//line .\grammar.y:252
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:252
+//line .\grammar.y:253
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:254
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:255
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:258
+//line .\grammar.y:259
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1038,240 +1039,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:265
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:270
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:271
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:272
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:277
+//line .\grammar.y:278
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:279
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:285
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:286
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:287
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:296
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:319
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:320
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:321
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1281,169 +1282,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:330
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:330
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:332
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:333
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:341
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:342
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:343
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:344
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:347
+//line .\grammar.y:348
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:349
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:352
+//line .\grammar.y:353
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:354
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:355
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:362
+//line .\grammar.y:363
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:363
+//line .\grammar.y:364
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:365
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:369
+//line .\grammar.y:370
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:371
+//line .\grammar.y:372
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:373
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:375
+//line .\grammar.y:376
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:377
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:378
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 1dc605467693d1cb5e9c0ef1af0496d3b475c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 02/25] fix: start a statement list from its own prefix, not
 from a stale parser stack slot

---
 ast/grammar.y |   1 +
 ast/y.go      | 187 +++++++++++++++++++++++++-------------------------
 2 files changed, 95 insertions(+), 93 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 38629d5..b12d473 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -154,6 +154,7 @@ body: stmt { $$ = Statements{$1}}
                 yylex.Error("semicolon (;) is expected")
             }
         }
+        $$ = $1
         if $3 != nil {
             $$ = append($$, $3) 
         }
diff --git a/ast/y.go b/ast/y.go
index 2853343..effd99d 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:381
+//line .\grammar.y:382
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -845,49 +845,50 @@ yydefault:
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
+			yyVAL.body = yyDollar[1].opt_body
 			if yyDollar[3].stmt != nil {
 				yyVAL.body = append(yyVAL.body, yyDollar[3].stmt)
 			}
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:164
+//line .\grammar.y:165
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:165
+//line .\grammar.y:166
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:169
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:169
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:172
+//line .\grammar.y:173
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:173
+//line .\grammar.y:174
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:176
+//line .\grammar.y:177
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -897,7 +898,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:183
+//line .\grammar.y:184
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -907,7 +908,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:194
+//line .\grammar.y:195
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -918,13 +919,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:204
+//line .\grammar.y:205
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:205
+//line .\grammar.y:206
 		{
 			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
 				Expression: yyDollar[2].stmt,
@@ -933,19 +934,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:213
+//line .\grammar.y:214
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:214
+//line .\grammar.y:215
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:217
+//line .\grammar.y:218
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -955,13 +956,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:227
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:227
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -972,13 +973,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:235
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:235
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -989,13 +990,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:243
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:243
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				WhileExpr: yyDollar[2].stmt,
@@ -1005,31 +1006,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:252
+//line .\grammar.y:253
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:254
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:255
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:255
+//line .\grammar.y:256
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:259
+//line .\grammar.y:260
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1039,240 +1040,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:270
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:271
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:272
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:273
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:279
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:279
+//line .\grammar.y:280
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:286
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:287
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:289
+//line .\grammar.y:290
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:293
+//line .\grammar.y:294
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:297
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:297
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:319
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:320
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:321
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:321
+//line .\grammar.y:322
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1282,169 +1283,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:330
+//line .\grammar.y:331
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:330
+//line .\grammar.y:331
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:333
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:334
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:341
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:342
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:343
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:344
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:345
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:349
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:350
+//line .\grammar.y:351
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:354
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:355
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:355
+//line .\grammar.y:356
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:363
+//line .\grammar.y:364
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:365
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:365
+//line .\grammar.y:366
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:370
+//line .\grammar.y:371
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:373
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:374
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:377
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:378
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:378
+//line .\grammar.y:379
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From b8518abd83b1a91b410fd4810a187be7b608e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 03/25] =?UTF-8?q?fix:=20keep=20=D0=98=D0=BD=D0=B0=D1=87?=
 =?UTF-8?q?=D0=B5=D0=95=D1=81=D0=BB=D0=B8=20branches=20in=20source=20order?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index b12d473..cd8ce63 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -204,10 +204,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
+             $$ = append(Statements{&IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            })
+            }}, $5...)
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index effd99d..adf9202 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -927,10 +927,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:206
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
+			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			})
+			}}, yyDollar[5].opt_elseif_list...)
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From 364f29ccc9d8237b120e9f8fc2bc24c8864d5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 04/25] fix: no nil map write when a procedure redeclares a
 variable

---
 ast/grammar.y | 12 ++++++------
 ast/y.go      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index cd8ce63..fe10536 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -175,18 +175,18 @@ opt_explicit_variables: { $$ = map[string]VarStatement{} }
 ;
 
 explicit_variables: Var identifiers semicolon { 
-                    if vars, err := appendVarStatements(map[string]VarStatement{}, $2); err != nil {
+                    vars, err := appendVarStatements(map[string]VarStatement{}, $2)
+                    if err != nil {
                         yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
                     }
+                    $$ = vars
                 }
             | explicit_variables Var identifiers semicolon {
-                    if vars, err := appendVarStatements($1, $3); err != nil {
+                    vars, err := appendVarStatements($1, $3)
+                    if err != nil {
                         yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
                     }
+                    $$ = vars
                 }
 ;
 
diff --git a/ast/y.go b/ast/y.go
index adf9202..5391630 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -890,21 +890,21 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:177
 		{
-			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
+			vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers)
+			if err != nil {
 				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
 			}
+			yyVAL.explicit_variables = vars
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line .\grammar.y:184
 		{
-			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
+			vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers)
+			if err != nil {
 				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
 			}
+			yyVAL.explicit_variables = vars
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-- 
2.43.0


From eda98e37c5680be9dda4f339f9c1b5ee5e139812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 05/25] =?UTF-8?q?fix:=20give=20all=20comparison=20operator?=
 =?UTF-8?q?s=20one=20precedence=20level,=20above=20=D0=9D=D0=B5?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y |   6 +-
 ast/y.go      | 331 +++++++++++++++++++++++++-------------------------
 2 files changed, 164 insertions(+), 173 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index fe10536..de4d093 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -68,12 +68,8 @@ package ast
 %nonassoc LOW_PREC /* самый низкий приоритет */
 %left OR
 %left And
-%left NeEQ
-%left LE
-%left GE
 %right Not
-%left EQUAL
-%left '>' '<'
+%left NeEQ LE GE EQUAL '>' '<'
 %left '+' '-'
 %left '*' '/' '%'
 %right UNARMinus UNARYPlus /* самый высокий приоритет */
diff --git a/ast/y.go b/ast/y.go
index 5391630..48ab94a 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:382
+//line .\grammar.y:378
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -182,45 +182,45 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 561
 
 var yyAct = [...]uint8{
 	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
 	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
 	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
 	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
+	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
+	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
+	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
 	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
+	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
+	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
+	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
+	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
+	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
+	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
+	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
+	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
+	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
+	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
+	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
+	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
+	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
+	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
+	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
+	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
+	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
+	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
+	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
+	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
+	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
+	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
 	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
 	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
 	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
+	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
+	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
 	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
 	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
 	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
@@ -241,45 +241,40 @@ var yyAct = [...]uint8{
 	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
 	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
 	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
+	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
 	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
+	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
+	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
+	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
+	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
 	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
+	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
+	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
 	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
+	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
+	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
+	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
+	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
+	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
+	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
+	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
+	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
+	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
+	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
+	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
 	-1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
+	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
+	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
+	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
+	255, 241, 223,
 }
 
 var yyR1 = [...]int8{
@@ -726,12 +721,12 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:85
+//line .\grammar.y:81
 		{
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:86
+//line .\grammar.y:82
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].body, yylex)
@@ -739,7 +734,7 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:91
+//line .\grammar.y:87
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[2].opt_body, yylex)
@@ -747,7 +742,7 @@ yydefault:
 		}
 	case 6:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:101
+//line .\grammar.y:97
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].global_variables, yylex)
@@ -755,7 +750,7 @@ yydefault:
 		}
 	case 7:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:106
+//line .\grammar.y:102
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].funcProc, yylex)
@@ -763,31 +758,31 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:113
+//line .\grammar.y:109
 		{
 			yyVAL.opt_directive = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:114
+//line .\grammar.y:110
 		{
 			yyVAL.opt_directive = &yyDollar[1].token
 		}
 	case 10:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:117
+//line .\grammar.y:113
 		{
 			yyVAL.opt_export = nil
 		}
 	case 11:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:118
+//line .\grammar.y:114
 		{
 			yyVAL.opt_export = &yyDollar[1].token
 		}
 	case 12:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:121
+//line .\grammar.y:117
 		{
 			yyVAL.global_variables = make([]GlobalVariables, len(yyDollar[3].identifiers), len(yyDollar[3].identifiers))
 			for i, v := range yyDollar[3].identifiers {
@@ -801,44 +796,44 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:134
+//line .\grammar.y:130
 		{
 			isFunction(true, yylex)
 		}
 	case 14:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line .\grammar.y:135
+//line .\grammar.y:131
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeFunction, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[9].opt_explicit_variables, yyDollar[10].opt_body)
 			isFunction(false, yylex)
 		}
 	case 15:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line .\grammar.y:140
+//line .\grammar.y:136
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeProcedure, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[8].opt_explicit_variables, yyDollar[9].opt_body)
 		}
 	case 16:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:145
+//line .\grammar.y:141
 		{
 			yyVAL.opt_body = nil
 		}
 	case 17:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:146
+//line .\grammar.y:142
 		{
 			yyVAL.opt_body = yyDollar[1].body
 		}
 	case 18:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:150
+//line .\grammar.y:146
 		{
 			yyVAL.body = Statements{yyDollar[1].stmt}
 		}
 	case 19:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:151
+//line .\grammar.y:147
 		{
 			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
 				if _, ok := yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement); !ok {
@@ -852,43 +847,43 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:165
+//line .\grammar.y:161
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:166
+//line .\grammar.y:162
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:169
+//line .\grammar.y:165
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:169
+//line .\grammar.y:165
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:173
+//line .\grammar.y:169
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:174
+//line .\grammar.y:170
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:177
+//line .\grammar.y:173
 		{
 			vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers)
 			if err != nil {
@@ -898,7 +893,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:184
+//line .\grammar.y:180
 		{
 			vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers)
 			if err != nil {
@@ -908,7 +903,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:195
+//line .\grammar.y:191
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -919,13 +914,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:205
+//line .\grammar.y:201
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:206
+//line .\grammar.y:202
 		{
 			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
@@ -934,19 +929,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:214
+//line .\grammar.y:210
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:215
+//line .\grammar.y:211
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:218
+//line .\grammar.y:214
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -956,13 +951,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:227
+//line .\grammar.y:223
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:227
+//line .\grammar.y:223
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -973,13 +968,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:235
+//line .\grammar.y:231
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:235
+//line .\grammar.y:231
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -990,13 +985,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:243
+//line .\grammar.y:239
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:243
+//line .\grammar.y:239
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				WhileExpr: yyDollar[2].stmt,
@@ -1006,31 +1001,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:249
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:250
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:255
+//line .\grammar.y:251
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:256
+//line .\grammar.y:252
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:260
+//line .\grammar.y:256
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1040,240 +1035,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:263
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:264
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:265
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:273
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:274
+//line .\grammar.y:270
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:279
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:280
+//line .\grammar.y:276
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:282
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:283
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:284
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:289
+//line .\grammar.y:285
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:290
+//line .\grammar.y:286
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:293
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:294
+//line .\grammar.y:290
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:297
+//line .\grammar.y:293
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:297
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:300
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:321
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:322
+//line .\grammar.y:318
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1283,169 +1278,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:327
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:327
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:329
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:334
+//line .\grammar.y:330
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:333
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:334
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:335
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:345
+//line .\grammar.y:341
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:345
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:350
+//line .\grammar.y:346
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:351
+//line .\grammar.y:347
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:355
+//line .\grammar.y:351
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:356
+//line .\grammar.y:352
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:360
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:365
+//line .\grammar.y:361
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:366
+//line .\grammar.y:362
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:371
+//line .\grammar.y:367
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:369
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:374
+//line .\grammar.y:370
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:373
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:378
+//line .\grammar.y:374
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:379
+//line .\grammar.y:375
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 65e158c749b9ae342ae928cbc24e5a88d8cc48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 06/25] fix: print the fractional part of numeric literals

---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..a09c068 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From 0a09ae7fd11e781755e9016fee8a955e0c0a10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 07/25] fix: print module variables of a module without a body

---
 ast/ast_print.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index a09c068..3178d8a 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -48,10 +48,6 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
-		return ""
-	}
-
 	builder := &strings.Builder{}
 
 	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-- 
2.43.0


From 905bc7cc1a79c43d0c7aeaf7d443c385c877e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 08/25] fix: print module variables in a stable order

---
 ast/ast_print.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 3178d8a..7b129f2 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -50,8 +51,14 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 func (p *astPrint) print() string {
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	names := make([]string, 0, len(p.ast.ModuleStatement.GlobalVariables))
+	for name := range p.ast.ModuleStatement.GlobalVariables {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		builder.WriteString(p.printGlobalVariables(p.ast.ModuleStatement.GlobalVariables[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
-- 
2.43.0


From cc2ad33c637414fcfc888cdc3891270bf69c66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 09/25] fix: print the local variable declarations of a
 procedure or function

---
 ast/ast_print.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 7b129f2..c03c2d0 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -147,11 +147,31 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+	builder.WriteString(p.printExplicitVariables(pf.ExplicitVariables, depth))
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
 }
 
+func (p *astPrint) printExplicitVariables(variables map[string]VarStatement, depth int) string {
+	names := make([]string, 0, len(variables))
+	for name := range variables {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	builder := &strings.Builder{}
+	for _, name := range names {
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем ")
+		builder.WriteString(name)
+		builder.WriteString(";")
+		builder.WriteString(p.newLine(1))
+	}
+
+	return builder.String()
+}
+
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
 	case float64:
-- 
2.43.0


From 30f6460ddddcb1fd6c660d569657cb0cb5c1bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 10/25] =?UTF-8?q?fix:=20keep=20=D0=9F=D0=BE=D0=BF=D1=8B?=
 =?UTF-8?q?=D1=82=D0=BA=D0=B0=20and=20=D0=98=D1=81=D0=BA=D0=BB=D1=8E=D1=87?=
 =?UTF-8?q?=D0=B5=D0=BD=D0=B8=D0=B5=20apart=20from=20the=20next=20token=20?=
 =?UTF-8?q?in=20one-line=20output?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index c03c2d0..07fa58b 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -429,7 +429,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	builder := &strings.Builder{}
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
-	builder.WriteString("Попытка")
+	builder.WriteString("Попытка ")
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -438,7 +438,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	}
 
 	builder.WriteString(spaces)
-	builder.WriteString("Исключение")
+	builder.WriteString("Исключение ")
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
-- 
2.43.0


From 1d9e0886b57545beac089a733921d92e5f9ecc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 11/25] fix: no endless recursion when printing ExpStatement or
 *ExprStatements values

---
 ast/ast_print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 07fa58b..b914253 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -204,7 +204,11 @@ func (p *astPrint) printVarStatement(v Statement) string {
 		return fmt.Sprintf("Новый %s(%s)", val.Constructor, p.printParams(val.Param.Statements))
 	case AssignmentStatement:
 		return fmt.Sprintf("%s = %s", p.printVarStatement(val.Var), p.printExpression(val.Expr, 0))
-	case ExpStatement, ExprStatements, *ExpStatement, *ExprStatements:
+	case ExpStatement:
+		return p.printExpression(&val, 0)
+	case *ExprStatements:
+		return p.printExpression(*val, 0)
+	case ExprStatements, *ExpStatement:
 		return p.printExpression(val, 0)
 	default:
 		return ""
-- 
2.43.0


From fcde495435a5a6f81619cec2c852d3e2a1b80556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 12/25] fix: print labels and jumps used as operands

---
 ast/ast_print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b914253..5fb401c 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -191,6 +191,10 @@ func (p *astPrint) printVarStatement(v Statement) string {
 		return not + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
+	case *GoToLabelStatement:
+		return "~" + val.Name
+	case GoToStatement:
+		return "Перейти ~" + val.Label.Name
 	case MethodStatement:
 		not := IF[string](val.not, "Не ", "")
 		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
-- 
2.43.0


From 04003bcfaa2336c857819d091fb01fce9480210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 13/25] fix: print a function or procedure passed as a
 statement

---
 ast/ast_print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 5fb401c..2f6c991 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -248,6 +248,8 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	builder.WriteString(spaces)
 
 	switch v := item.(type) {
+	case *FunctionOrProcedure:
+		builder.WriteString(p.printFunctionOrProcedure(v))
 	case *IfStatement:
 		builder.WriteString(p.printIfStatement(v, depth))
 		builder.WriteString(";")
-- 
2.43.0


From 3d86949ced33a15b7e7b2ffccdedd47eccb58ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 14/25] fix: do not write to stdout from the lexer

---
 ast/tokens.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..f796410 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -360,7 +360,6 @@ func (t *Token) currentLet() rune {
 
 	char, _ := utf8.DecodeRuneInString(srsCode[t.offset:])
 	if char == utf8.RuneError {
-		fmt.Println(fmt.Errorf("error decoding the character"))
 		return char
 	}
 
-- 
2.43.0


From 3be390481c6cf04a7645ba03029622e63b54f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 15/25] fix: do not attribute module body statements to the
 last function in Walk

---
 ast/ast_struct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..01870d2 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -332,6 +332,8 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 
 func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Statements, callBack fCallBack) {
 	for i, item := range statements {
+		root := parent
+
 		switch v := item.(type) {
 		case *IfStatement:
 			walkHelper(parent, v, Statements{v.Expression}, callBack)
@@ -345,7 +347,7 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, v.Body, callBack)
 		case *FunctionOrProcedure:
 			walkHelper(v, v, v.Body, callBack)
-			parent = v
+			root = v
 		case MethodStatement:
 			walkHelper(parent, v, v.Param.Statements, callBack)
 		//case CallChainStatement:
@@ -361,6 +363,6 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, Statements{v.Param}, callBack)
 		}
 
-		callBack(parent, &parentStm, &statements[i])
+		callBack(root, &parentStm, &statements[i])
 	}
 }
-- 
2.43.0


From 31683a9472e61d6e75d0fab78e5a8642afd880a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 16/25] =?UTF-8?q?fix:=20keep=20unary=20minus=20and=20?=
 =?UTF-8?q?=D0=9D=D0=B5=20applied=20to=20calls,=20indexes,=20ternaries=20a?=
 =?UTF-8?q?nd=20parentheses?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast.go        | 4 ++--
 ast/ast_print.go  | 7 ++++++-
 ast/ast_struct.go | 5 +++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..5fa33be 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -172,7 +172,7 @@ func unaryMinus(iv interface{}) interface{} {
 	case IUnary:
 		return v.UnaryMinus()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.UnaryMinus()
 	}
 }
 
@@ -183,6 +183,6 @@ func not(iv interface{}) interface{} {
 	case INot:
 		return v.Not()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.Not()
 	}
 }
diff --git a/ast/ast_print.go b/ast/ast_print.go
index 2f6c991..ec465ec 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -368,6 +368,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	case ExprStatements:
 		if v.not {
 			builder.WriteString("Не ")
+		}
+		if v.unaryMinus {
+			builder.WriteString("-")
+		}
+		if v.unaryMinus || v.not {
 			builder.WriteString("(")
 		}
 
@@ -375,7 +380,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if v.unaryMinus || v.not {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 01870d2..eddbae3 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -208,6 +208,11 @@ func (e ExprStatements) Not() interface{} {
 	return e
 }
 
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = true
+	return e
+}
+
 func (e VarStatement) UnaryMinus() interface{} {
 	e.unaryMinus = true
 	return e
-- 
2.43.0


From e28e24012d8f6ae04ef52d276af46587137c6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 17/25] fix: keep repeated and mixed unary operators on one
 operand

---
 ast/ast_struct.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index eddbae3..5a961a1 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -194,41 +194,73 @@ func (p *ParamStatement) DefaultValue(value Statement) *ParamStatement {
 }
 
 func (e *ExpStatement) UnaryMinus() interface{} {
+	if e.unaryMinus || e.not {
+		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
+	}
+
 	e.unaryMinus = true
 	return e
 }
 
 func (e *ExpStatement) Not() interface{} {
+	if e.not {
+		return ExprStatements{Statements: Statements{e}}.Not()
+	}
+
 	e.not = true
 	return e
 }
 
 func (e ExprStatements) Not() interface{} {
+	if e.not {
+		return ExprStatements{Statements: Statements{e}}.Not()
+	}
+
 	e.not = true
 	return e
 }
 
 func (e ExprStatements) UnaryMinus() interface{} {
+	if e.unaryMinus || e.not {
+		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
+	}
+
 	e.unaryMinus = true
 	return e
 }
 
 func (e VarStatement) UnaryMinus() interface{} {
+	if e.unaryMinus || e.not {
+		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
+	}
+
 	e.unaryMinus = true
 	return e
 }
 
 func (e VarStatement) Not() interface{} {
+	if e.not {
+		return ExprStatements{Statements: Statements{e}}.Not()
+	}
+
 	e.not = true
 	return e
 }
 
 func (e CallChainStatement) UnaryMinus() interface{} {
+	if e.unaryMinus || e.not {
+		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
+	}
+
 	e.unaryMinus = true
 	return e
 }
 
 func (e CallChainStatement) Not() interface{} {
+	if e.not {
+		return ExprStatements{Statements: Statements{e}}.Not()
+	}
+
 	e.not = true
 	return e
 }
@@ -240,6 +272,10 @@ func (e CallChainStatement) IsMethod() bool {
 }
 
 func (n MethodStatement) Not() interface{} {
+	if n.not {
+		return ExprStatements{Statements: Statements{n}}.Not()
+	}
+
 	n.not = true
 	return n
 }
-- 
2.43.0


From 315b54deaacb9923506162b2fc347986db256dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 18/25] fix: print unary operators of names and call chains in
 every position

---
 ast/ast_print.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index ec465ec..4da1521 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -187,8 +187,8 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + p.printCallChainStatement(val)
+		not, minus := IF[string](val.not, "Не ", ""), IF[string](val.unaryMinus, "-", "")
+		return not + minus + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
 	case *GoToLabelStatement:
@@ -199,7 +199,8 @@ func (p *astPrint) printVarStatement(v Statement) string {
 		not := IF[string](val.not, "Не ", "")
 		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
 	case VarStatement:
-		return val.Name
+		not, minus := IF[string](val.not, "Не ", ""), IF[string](val.unaryMinus, "-", "")
+		return not + minus + val.Name
 	case ItemStatement:
 		return p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
 	case TernaryStatement:
@@ -266,7 +267,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ContinueStatement:
 		builder.WriteString("Продолжить;")
 	case CallChainStatement:
-		builder.WriteString(p.printCallChainStatement(v))
+		builder.WriteString(p.printVarStatement(v))
 		builder.WriteString(";")
 	case TryStatement:
 		builder.WriteString(p.printTryStatement(v, depth))
@@ -275,7 +276,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && !param.not && !param.unaryMinus {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -412,14 +413,6 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if level > 0 {
 			builder.WriteString(")")
 		}
-	case VarStatement:
-		if v.not {
-			builder.WriteString("Не ")
-		}
-		if v.unaryMinus {
-			builder.WriteString("-")
-		}
-		builder.WriteString(p.printVarStatement(v))
 	default:
 		builder.WriteString(p.printVarStatement(v))
 	}
-- 
2.43.0


From 3756f2782cc67d2a8067b70ed4528063b3c3c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 19/25] fix: keep the parentheses that carry meaning when
 printing grouped expressions

---
 ast/ast_print.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 4da1521..00c251f 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -258,6 +258,9 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case *ExpStatement:
 		builder.WriteString(p.printExpression(v, 0))
 		builder.WriteString(";")
+	case ExprStatements:
+		builder.WriteString(p.printExpression(v, 1))
+		builder.WriteString(";")
 	case *LoopStatement:
 		builder.WriteString(p.printLoopStatement(v, depth))
 		builder.WriteString(";")
@@ -373,15 +376,28 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if v.unaryMinus {
 			builder.WriteString("-")
 		}
-		if v.unaryMinus || v.not {
+		brackets := v.unaryMinus || v.not || len(v.Statements) != 1 || v.Statements[0] == nil
+		if !brackets && level > 0 {
+			switch s := v.Statements[0].(type) {
+			case *ExpStatement: // сам расставит скобки
+			case ExprStatements:
+				brackets = s.unaryMinus || s.not
+			default:
+				brackets = true
+			}
+		}
+
+		if brackets {
 			builder.WriteString("(")
 		}
 
-		for _, s := range v.Statements {
-			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
+		if len(v.Statements) == 1 {
+			builder.WriteString(p.printExpression(v.Statements[0], IF(level == 0, 0, level+1)))
+		} else {
+			builder.WriteString(p.printParams(v.Statements))
 		}
 
-		if v.unaryMinus || v.not {
+		if brackets {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
-- 
2.43.0


From 70a0e5f5a00fa96d2d82a73a7748c5c047385d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 20/25] fix: include unary operators of a node in the JSON
 output

---
 ast/ast_print.go  | 24 ++++++++++++------------
 ast/ast_struct.go | 42 +++++++++++++++++++++---------------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 00c251f..13e3f1a 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -187,7 +187,7 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not, minus := IF[string](val.not, "Не ", ""), IF[string](val.unaryMinus, "-", "")
+		not, minus := IF[string](val.IsNot, "Не ", ""), IF[string](val.IsUnaryMinus, "-", "")
 		return not + minus + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
@@ -196,10 +196,10 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case GoToStatement:
 		return "Перейти ~" + val.Label.Name
 	case MethodStatement:
-		not := IF[string](val.not, "Не ", "")
+		not := IF[string](val.IsNot, "Не ", "")
 		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
 	case VarStatement:
-		not, minus := IF[string](val.not, "Не ", ""), IF[string](val.unaryMinus, "-", "")
+		not, minus := IF[string](val.IsNot, "Не ", ""), IF[string](val.IsUnaryMinus, "-", "")
 		return not + minus + val.Name
 	case ItemStatement:
 		return p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
@@ -279,7 +279,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok && !param.not && !param.unaryMinus {
+			if param, ok := v.Param.(ExprStatements); ok && !param.IsNot && !param.IsUnaryMinus {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -370,18 +370,18 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 
 	switch v := expr.(type) {
 	case ExprStatements:
-		if v.not {
+		if v.IsNot {
 			builder.WriteString("Не ")
 		}
-		if v.unaryMinus {
+		if v.IsUnaryMinus {
 			builder.WriteString("-")
 		}
-		brackets := v.unaryMinus || v.not || len(v.Statements) != 1 || v.Statements[0] == nil
+		brackets := v.IsUnaryMinus || v.IsNot || len(v.Statements) != 1 || v.Statements[0] == nil
 		if !brackets && level > 0 {
 			switch s := v.Statements[0].(type) {
 			case *ExpStatement: // сам расставит скобки
 			case ExprStatements:
-				brackets = s.unaryMinus || s.not
+				brackets = s.IsUnaryMinus || s.IsNot
 			default:
 				brackets = true
 			}
@@ -405,14 +405,14 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		if v.not {
+		if v.IsNot {
 			builder.WriteString("Не ")
 		}
-		if v.unaryMinus {
+		if v.IsUnaryMinus {
 			builder.WriteString("-")
 		}
 
-		if v.unaryMinus || v.not {
+		if v.IsUnaryMinus || v.IsNot {
 			builder.WriteString("(")
 		}
 
@@ -422,7 +422,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		builder.WriteString(" ")
 		builder.WriteString(p.printExpression(v.Right, level+1))
 
-		if v.unaryMinus || v.not {
+		if v.IsUnaryMinus || v.IsNot {
 			builder.WriteString(")")
 		}
 
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 5a961a1..748a7dd 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -88,9 +88,9 @@ type ParamStatement struct {
 }
 
 type addStatementField struct {
-	unaryMinus bool
-	unaryPlus  bool
-	not        bool
+	IsUnaryMinus bool `json:"UnaryMinus,omitempty"`
+	unaryPlus    bool
+	IsNot        bool `json:"Not,omitempty"`
 }
 
 type ExpStatement struct {
@@ -194,74 +194,74 @@ func (p *ParamStatement) DefaultValue(value Statement) *ParamStatement {
 }
 
 func (e *ExpStatement) UnaryMinus() interface{} {
-	if e.unaryMinus || e.not {
+	if e.IsUnaryMinus || e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
 	}
 
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e *ExpStatement) Not() interface{} {
-	if e.not {
+	if e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.Not()
 	}
 
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
 func (e ExprStatements) Not() interface{} {
-	if e.not {
+	if e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.Not()
 	}
 
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
 func (e ExprStatements) UnaryMinus() interface{} {
-	if e.unaryMinus || e.not {
+	if e.IsUnaryMinus || e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
 	}
 
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e VarStatement) UnaryMinus() interface{} {
-	if e.unaryMinus || e.not {
+	if e.IsUnaryMinus || e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
 	}
 
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e VarStatement) Not() interface{} {
-	if e.not {
+	if e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.Not()
 	}
 
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
 func (e CallChainStatement) UnaryMinus() interface{} {
-	if e.unaryMinus || e.not {
+	if e.IsUnaryMinus || e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.UnaryMinus()
 	}
 
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e CallChainStatement) Not() interface{} {
-	if e.not {
+	if e.IsNot {
 		return ExprStatements{Statements: Statements{e}}.Not()
 	}
 
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
@@ -272,11 +272,11 @@ func (e CallChainStatement) IsMethod() bool {
 }
 
 func (n MethodStatement) Not() interface{} {
-	if n.not {
+	if n.IsNot {
 		return ExprStatements{Statements: Statements{n}}.Not()
 	}
 
-	n.not = true
+	n.IsNot = true
 	return n
 }
 
-- 
2.43.0


From 92e5939f3fb5e7c4ff78bcb7566bd5eeb9c0bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 21/25] fix: lower ASCII letters and stay inside the buffer in
 FastToLower

---
 ast/fast_tolower/gowrap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..2abc3ad 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -15,19 +15,21 @@ void fastToLower(char* str) {
         if (byte <= 0x7F) {
             currentChar = byte; // Один байт (ASCII)
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        } else if (byte >= 0xC0 && byte <= 0xDF && (str[i+1] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
+        } else if (byte >= 0xE0 && byte <= 0xEF && (str[i+1] & 0xC0) == 0x80 && (str[i+2] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
             i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
+        } else if (byte >= 0xF0 && byte <= 0xF7 && (str[i+1] & 0xC0) == 0x80 && (str[i+2] & 0xC0) == 0x80 && (str[i+3] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
             i += 4;
+        } else {
+            i++; // не UTF-8, байт остается как есть
         }
 
 		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
+			str[i-1] = tolower(str[i-1]);
 		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
-- 
2.43.0


From 4261e06a36ecc5254840959e87e8c8ff6dafff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 22/25] fix: print a comparison statement so that it does not
 read back as an assignment

---
 ast/ast_print.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 13e3f1a..e4fefe2 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -256,7 +256,8 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 		builder.WriteString(";")
 		builder.WriteString(p.newLine(1))
 	case *ExpStatement:
-		builder.WriteString(p.printExpression(v, 0))
+		// сравнение без скобок стало бы присваиванием
+		builder.WriteString(p.printExpression(v, IF(v.Operation == OpEq, 1, 0)))
 		builder.WriteString(";")
 	case ExprStatements:
 		builder.WriteString(p.printExpression(v, 1))
-- 
2.43.0


From 3eaeded1bfe7446846efd91f8fb1e591173cf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 23/25] fix: a date literal swallowed the string literal
 written after it

---
 ast/tokens.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index f796410..62c3c3a 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -277,7 +277,7 @@ eos:
 			return "", fmt.Errorf("unexpected EOF")
 		case cl == end:
 			// пропускаем двойные "
-			if t.nextLet() == '"' {
+			if end == '"' && t.nextLet() == '"' {
 				t.nextPos()
 				ret = append(ret, '"', '"')
 				continue
@@ -288,7 +288,7 @@ eos:
 			// для случаев (в 1с такое допускается, считается одна строка)
 			// d = "ввава"
 			// "fffff"
-			if t.currentLet() == '"' {
+			if end == '"' && t.currentLet() == '"' {
 				continue
 			}
 
-- 
2.43.0


From ea790473aa92eef768c2777c36414d75c6d19371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 24/25] fix: report the position where the rejected token
 starts
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

For strings and dates the position was computed from the end of the token
and the white space after it: the error for 'а "стр"' followed by empty
lines named a later line, and the column counted neither the quotes nor
the separators of a date.
---
 ast/ast.go    | 2 +-
 ast/tokens.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 5fa33be..fe02a31 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -74,7 +74,7 @@ func (ast *AstNode) SrsCode() string {
 
 func (ast *AstNode) Error(s string) {
 	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	pos.Column--
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index 62c3c3a..30686f0 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	start    int // смещение начала токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.start = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
@@ -368,12 +370,12 @@ func (t *Token) currentLet() rune {
 
 func (t *Token) GetPosition() Position {
 	srsCode := t.ast.SrsCode()
-	eol := strings.LastIndex(srsCode[:t.offset], "\n") + 1
+	eol := strings.LastIndex(srsCode[:t.start], "\n") + 1
 	lineBegin := IF[int](eol < 0, 0, eol)
 
 	return Position{
-		Line:   strings.Count(srsCode[:t.offset], "\n") + 1,
-		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,
+		Line:   strings.Count(srsCode[:t.start], "\n") + 1,
+		Column: len([]rune(srsCode[lineBegin:t.start])) + 1,
 	}
 }
 
-- 
2.43.0


From 1b98e1f396722a7c921d24bd18efdd9567e89666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 25/25] fix: start every parse from a clean state

---
 ast/ast.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index fe02a31..6b2351c 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -35,6 +35,8 @@ func NewAST(code string) *AstNode {
 }
 
 func (ast *AstNode) Parse() error {
+	ast.reset()
+
 	if len(strings.TrimSpace(ast.code)) == 0 {
 		return nil
 	}
@@ -46,6 +48,16 @@ func (ast *AstNode) Parse() error {
 	return ast.err
 }
 
+// reset убирает следы предыдущего разбора
+func (ast *AstNode) reset() {
+	ast.err = nil
+	ast.ModuleStatement = ModuleStatement{Name: ast.Name}
+	ast.currentToken = Token{}
+	ast.isLoop.Store(0)
+	ast.isTry.Store(0)
+	ast.isFunction = false
+}
+
 func (ast *AstNode) JSON() ([]byte, error) {
 	return json.Marshal(&ast.ModuleStatement)
 }
-- 
2.43.0


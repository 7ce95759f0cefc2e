From 667f3621c891db9b485d100a6d49849768e37d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 01/14] fix: a body that starts with a separator no longer
 takes over the statements of an earlier body

---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..beddc2f 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -154,11 +154,11 @@ body: stmt { $$ = Statements{$1}}
                 yylex.Error("semicolon (;) is expected")
             }
         }
+        $$ = $1
         if $3 != nil {
             $$ = append($$, $3) 
         }
     }
-    
 ;
 
 opt_stmt: { $$ = nil }
diff --git a/ast/y.go b/ast/y.go
index 34afd52..8c14c2c 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -845,6 +845,7 @@ yydefault:
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
+			yyVAL.body = yyDollar[1].opt_body
 			if yyDollar[3].stmt != nil {
 				yyVAL.body = append(yyVAL.body, yyDollar[3].stmt)
 			}
-- 
2.43.0


From 08acf3e9b3ac2e75481d43ca4ba10b0b0f033d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 02/14] fix: the end of a While loop ends the loop context

---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index beddc2f..a98cccb 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -244,9 +244,9 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
             WhileExpr: $2,
             Body: $5,
         }
+        setLoopFlag(false, yylex)
 };
 
-
 /* описыввает выражения которые можно использовать в циккле Для Каждого */
 loopExp: through_dot { $$ = $1 }
         | new_object { $$ = $1 }
diff --git a/ast/y.go b/ast/y.go
index 8c14c2c..28cfd6b 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -1002,6 +1002,7 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 128d2bcde0947bbfd3b1989ce93839ff64ad14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 03/14] fix: ElseIf branches are kept in source order

---
 ast/grammar.y |   8 +-
 ast/y.go      | 212 +++++++++++++++++++++++++-------------------------
 2 files changed, 110 insertions(+), 110 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index a98cccb..2ae5c6f 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -202,10 +202,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
-        | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
-                Expression: $2,
-                TrueBlock:  $4,
+        | opt_elseif_list ElseIf expr Then opt_body {
+             $$ = append($1, &IfStatement{
+                Expression: $3,
+                TrueBlock:  $5,
             })
         };
 
diff --git a/ast/y.go b/ast/y.go
index 28cfd6b..3a36eef 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,104 +182,104 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 617
 
 var yyAct = [...]uint8{
-	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
-	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
-	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
-	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
-	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
-	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
-	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
-	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
-	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
-	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
-	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
-	61, 62, 56, 57, 58, 59, 60, 0, 0, 0,
-	199, 66, 63, 67, 68, 64, 65, 183, 116, 0,
-	0, 0, 0, 0, 0, 61, 62, 56, 57, 58,
-	59, 60, 0, 0, 0, 144, 0, 0, 0, 0,
+	71, 7, 115, 49, 7, 195, 19, 74, 122, 159,
+	8, 22, 138, 5, 24, 55, 53, 45, 160, 73,
+	184, 142, 141, 116, 75, 70, 70, 128, 90, 7,
+	95, 70, 76, 86, 4, 116, 78, 80, 81, 69,
+	72, 18, 82, 55, 63, 91, 92, 116, 140, 7,
+	116, 116, 176, 89, 44, 30, 93, 61, 62, 56,
+	57, 58, 59, 60, 98, 116, 180, 100, 101, 102,
+	103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
+	178, 41, 88, 97, 113, 61, 62, 56, 57, 58,
+	59, 60, 174, 169, 126, 44, 99, 70, 31, 127,
+	33, 32, 129, 116, 164, 70, 130, 146, 143, 152,
+	94, 42, 41, 36, 37, 39, 30, 38, 7, 58,
+	59, 60, 114, 35, 34, 139, 70, 203, 52, 51,
+	135, 133, 134, 147, 123, 150, 145, 7, 7, 70,
+	132, 40, 157, 52, 51, 140, 151, 85, 83, 153,
+	155, 156, 163, 56, 57, 58, 59, 60, 165, 31,
+	209, 197, 175, 161, 170, 77, 175, 177, 179, 7,
+	173, 158, 7, 84, 125, 52, 51, 124, 181, 137,
+	162, 118, 182, 188, 7, 185, 51, 186, 167, 168,
+	190, 189, 7, 54, 187, 136, 7, 192, 52, 51,
+	201, 121, 7, 52, 51, 199, 204, 139, 208, 202,
+	139, 210, 207, 43, 30, 205, 200, 171, 25, 52,
+	51, 193, 183, 26, 52, 51, 51, 116, 194, 13,
+	21, 206, 27, 44, 12, 28, 3, 172, 33, 32,
+	41, 52, 51, 15, 14, 6, 47, 2, 1, 46,
+	16, 36, 37, 39, 50, 38, 23, 31, 48, 11,
+	30, 35, 34, 196, 25, 149, 87, 29, 20, 26,
+	42, 96, 166, 148, 9, 13, 21, 17, 27, 44,
+	12, 28, 10, 0, 33, 32, 41, 0, 0, 15,
+	14, 0, 0, 0, 30, 0, 0, 36, 37, 39,
+	0, 38, 23, 31, 79, 0, 0, 35, 34, 0,
+	21, 0, 0, 44, 20, 0, 42, 0, 33, 32,
+	41, 0, 0, 0, 0, 0, 0, 30, 0, 0,
+	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
+	0, 35, 34, 21, 0, 0, 44, 0, 20, 0,
+	42, 33, 32, 41, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 36, 37, 39, 0, 38, 23,
+	31, 0, 0, 0, 35, 34, 0, 66, 63, 67,
+	68, 20, 65, 42, 66, 63, 67, 68, 64, 65,
+	0, 61, 62, 56, 57, 58, 59, 60, 61, 62,
+	56, 57, 58, 59, 60, 66, 63, 67, 68, 64,
+	65, 131, 0, 0, 0, 0, 0, 0, 0, 61,
+	62, 56, 57, 58, 59, 60, 0, 0, 0, 198,
+	66, 63, 67, 68, 64, 65, 191, 116, 0, 0,
+	0, 0, 0, 0, 61, 62, 56, 57, 58, 59,
+	60, 0, 0, 0, 144, 0, 0, 0, 0, 0,
+	0, 0, 66, 63, 67, 68, 64, 65, 0, 0,
+	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
+	58, 59, 60, 154, 61, 62, 56, 57, 58, 59,
+	60, 120, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 66, 63, 67, 68, 64, 65, 117, 0, 66,
+	63, 67, 68, 64, 65, 61, 62, 56, 57, 58,
+	59, 60, 119, 61, 62, 56, 57, 58, 59, 60,
 	0, 0, 0, 66, 63, 67, 68, 64, 65, 0,
 	0, 66, 63, 67, 68, 64, 65, 61, 62, 56,
-	57, 58, 59, 60, 155, 61, 62, 56, 57, 58,
-	59, 60, 120, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 66, 63, 67, 68, 64, 65, 117, 0,
-	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
-	58, 59, 60, 119, 61, 62, 56, 57, 58, 59,
-	60, 0, 0, 0, 66, 63, 67, 68, 64, 65,
-	0, 0, 66, 63, 67, 68, 64, 65, 61, 62,
-	56, 57, 58, 59, 60, 0, 61, 62, 56, 57,
-	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
-	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
-	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	57, 58, 59, 60, 0, 61, 62, 56, 57, 58,
+	59, 60, 66, 63, 67, 68, 64, 65, 0, 66,
+	63, 67, 68, 0, 0, 0, 61, 62, 56, 57,
+	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
+	63, 67, 68, 0, 0, 0, 0, 63, 0, 68,
+	0, 0, 0, 61, 62, 56, 57, 58, 59, 60,
+	61, 62, 56, 57, 58, 59, 60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
-	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
-	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
-	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
-	-1000, -1000,
+	206, -1000, -1000, 206, -1000, 237, -1000, -24, 523, -1000,
+	-1000, -1000, -1000, -1000, 319, 319, -1000, -1000, -46, -1000,
+	319, 319, -1000, 27, -1000, 319, 286, 319, 252, 138,
+	-29, 20, -1000, -1000, 319, 319, -1000, -1000, -1000, -1000,
+	-1000, 48, -32, -1000, -1000, 237, -1000, -1000, 252, -1000,
+	-1000, -1000, -1000, 319, 108, -1000, 319, 319, 319, 319,
+	319, 319, 319, 319, 319, 319, 319, 319, 319, -1000,
+	523, -52, -1000, 319, 59, -1000, 4, -1000, 494, 173,
+	502, 470, 171, 126, 169, 166, 319, -1000, 319, -1000,
+	-1000, -1000, -1000, -35, 319, 319, -1000, -1000, 523, -46,
+	62, 62, -1000, -1000, -1000, 98, 98, 32, 338, 530,
+	550, 557, 4, 345, -1000, 319, -1000, 252, 113, 319,
+	-1000, -1000, 97, -1000, -40, -41, 45, 391, 319, 44,
+	431, -1000, -1000, 237, 47, 462, 252, 252, 181, 163,
+	-1000, 155, 155, -1000, -1000, 41, -1000, 319, 174, 72,
+	-52, -1000, 78, -1000, -1000, 215, 139, -1000, -1000, 29,
+	12, -1000, 159, 17, -1000, 431, 50, 319, 252, -1000,
+	-43, 252, -1000, -1000, 0, 155, 68, -1000, 0, 319,
+	-1000, 423, 237, 252, -1000, 199, -1000, 12, -1000, 151,
+	366, 252, 194, -1000, 151, 252, 117, 126, -1000, 237,
+	-1000, 252, 220, 126, 221, 124, -1000, 221, -1000, -1000,
+	-1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 246, 13, 34, 282, 277, 274, 273, 272, 271,
+	7, 10, 12, 267, 6, 9, 18, 24, 266, 0,
+	265, 11, 14, 5, 263, 8, 259, 41, 141, 258,
+	3, 254, 250, 2, 248, 236, 245, 228, 222, 217,
+	195, 193, 179,
 }
 
 var yyR1 = [...]int8{
@@ -327,14 +327,14 @@ var yyChk = [...]int16{
 	-11, -11, -11, -11, 63, -33, 6, 13, 8, 20,
 	21, 30, -25, 8, 8, 8, -10, -11, 62, -10,
 	-11, 66, -17, -2, 19, -11, -40, -42, -12, -33,
-	48, 62, 62, 63, 63, -10, 63, -33, -7, 14,
-	-20, -19, -21, 62, -22, 21, -2, -2, -30, 8,
-	-15, -16, 8, 25, -15, 63, -11, -8, 15, -11,
-	21, -21, -39, 22, 31, 63, -33, 40, 8, 63,
-	-33, 16, -2, 13, -38, 63, -2, -12, -16, -14,
-	-12, -11, -2, -2, 22, -37, -23, -24, 10, 63,
-	-7, 22, -23, -2, 10, -25, -2, 11, -25, -30,
-	36, -30,
+	48, 62, 62, 63, 63, -10, 63, -33, -7, -20,
+	-19, -21, 62, -22, 21, -2, -2, -30, 8, -15,
+	-16, 8, 25, -15, 63, -11, -8, 14, 15, 21,
+	-21, -39, 22, 31, 63, -33, 40, 8, 63, -33,
+	16, -11, -2, -38, 63, -2, -12, -16, -14, -12,
+	-11, 13, -2, 22, -37, -23, -24, 10, 63, -2,
+	22, -23, -2, 10, -25, -2, 11, -25, -30, 36,
+	-30,
 }
 
 var yyDef = [...]int8{
@@ -353,13 +353,13 @@ var yyDef = [...]int8{
 	38, 62, 10, 107, 0, 0, 0, 0, 84, 0,
 	0, 57, 87, 29, 0, 0, 16, 16, 0, 0,
 	11, 100, 100, 56, 59, 0, 105, 0, 31, 0,
-	0, 40, 41, 0, 43, 36, 0, 0, 12, 108,
-	0, 101, 97, 0, 0, 104, 0, 0, 16, 0,
-	34, 0, 16, 39, 63, 10, 0, 0, 98, 10,
-	0, 28, 32, 16, 16, 42, 0, 13, 102, 99,
-	24, 0, 29, 0, 37, 24, 16, 25, 0, 33,
-	30, 35, 16, 0, 0, 0, 0, 15, 0, 26,
-	14, 27,
+	40, 41, 0, 43, 36, 0, 0, 12, 108, 0,
+	101, 97, 0, 0, 104, 0, 0, 0, 16, 34,
+	0, 16, 39, 63, 10, 0, 0, 98, 10, 0,
+	28, 0, 32, 16, 42, 0, 13, 102, 99, 24,
+	0, 16, 0, 37, 24, 16, 25, 0, 33, 30,
+	35, 16, 0, 0, 0, 0, 15, 0, 26, 14,
+	27,
 }
 
 var yyTok1 = [...]int8{
@@ -927,9 +927,9 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
-				Expression: yyDollar[2].stmt,
-				TrueBlock:  yyDollar[4].opt_body,
+			yyVAL.opt_elseif_list = append(yyDollar[1].opt_elseif_list, &IfStatement{
+				Expression: yyDollar[3].stmt,
+				TrueBlock:  yyDollar[5].opt_body,
 			})
 		}
 	case 31:
-- 
2.43.0


From 3306f2801d5365d5e1d498021bdcb47f38fb751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 04/14] fix: print module variables in a fixed order

---
 ast/ast_print.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..27cb351 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 	"time"
 )
@@ -53,8 +54,14 @@ func (p *astPrint) print() string {
 
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	names := make([]string, 0, len(p.ast.ModuleStatement.GlobalVariables))
+	for name := range p.ast.ModuleStatement.GlobalVariables {
+		names = append(names, name)
+	}
+	sort.Strings(names) // порядок обхода map случайный, а результат печати должен быть постоянным
+
+	for _, name := range names {
+		builder.WriteString(p.printGlobalVariables(p.ast.ModuleStatement.GlobalVariables[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
-- 
2.43.0


From 5f1c0b0c6f78c2d9391a9ec74f4417d89ceb4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 05/14] fix: do not write to standard output on undecodable
 characters

---
 ast/tokens.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..13e7b16 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -359,11 +359,6 @@ func (t *Token) currentLet() rune {
 	}
 
 	char, _ := utf8.DecodeRuneInString(srsCode[t.offset:])
-	if char == utf8.RuneError {
-		fmt.Println(fmt.Errorf("error decoding the character"))
-		return char
-	}
-
 	return char
 }
 
-- 
2.43.0


From f8ab2469266e86b2cd93407014625faf712a12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 06/14] fix: parsing a node again starts from a clean state

---
 ast/ast.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..9ac5d1f 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -35,6 +35,14 @@ func NewAST(code string) *AstNode {
 }
 
 func (ast *AstNode) Parse() error {
+	// повторный разбор не должен зависеть от результатов предыдущего
+	ast.err = nil
+	ast.ModuleStatement = ModuleStatement{Name: ast.ModuleStatement.Name}
+	ast.currentToken = Token{}
+	ast.isLoop.Store(0)
+	ast.isTry.Store(0)
+	ast.isFunction = false
+
 	if len(strings.TrimSpace(ast.code)) == 0 {
 		return nil
 	}
-- 
2.43.0


From 9913840b18fea7f14115fa882fa9d7abffc54c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 07/14] fix: a walk names no procedure for module statements

---
 ast/ast_struct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..d0c693f 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -332,6 +332,8 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 
 func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Statements, callBack fCallBack) {
 	for i, item := range statements {
+		root := parent // процедура/функция, которой принадлежит выражение
+
 		switch v := item.(type) {
 		case *IfStatement:
 			walkHelper(parent, v, Statements{v.Expression}, callBack)
@@ -345,7 +347,7 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, v.Body, callBack)
 		case *FunctionOrProcedure:
 			walkHelper(v, v, v.Body, callBack)
-			parent = v
+			root = v
 		case MethodStatement:
 			walkHelper(parent, v, v.Param.Statements, callBack)
 		//case CallChainStatement:
@@ -361,6 +363,6 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, Statements{v.Param}, callBack)
 		}
 
-		callBack(parent, &parentStm, &statements[i])
+		callBack(root, &parentStm, &statements[i])
 	}
 }
-- 
2.43.0


From 5af95d4c2a8f20a94bc03b454836147c82d9af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 08/14] fix: a syntax error is located at the start of its
 token

---
 ast/ast.go    |  4 ++--
 ast/tokens.go | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 9ac5d1f..f20dc2e 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -81,8 +81,8 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	pos := ast.currentToken.positionAt(ast.currentToken.start)
+	pos.Column-- // в тексте ошибки колонки считаются с нуля
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index 13e7b16..edb08aa 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	start    int // смещение начала токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.start = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
@@ -363,13 +365,17 @@ func (t *Token) currentLet() rune {
 }
 
 func (t *Token) GetPosition() Position {
+	return t.positionAt(t.offset)
+}
+
+func (t *Token) positionAt(offset int) Position {
 	srsCode := t.ast.SrsCode()
-	eol := strings.LastIndex(srsCode[:t.offset], "\n") + 1
+	eol := strings.LastIndex(srsCode[:offset], "\n") + 1
 	lineBegin := IF[int](eol < 0, 0, eol)
 
 	return Position{
-		Line:   strings.Count(srsCode[:t.offset], "\n") + 1,
-		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,
+		Line:   strings.Count(srsCode[:offset], "\n") + 1,
+		Column: len([]rune(srsCode[lineBegin:offset])) + 1,
 	}
 }
 
-- 
2.43.0


From f9342da610e4ce9b7980f6174f9d9fdccdae0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 09/14] fix: a source that became shorter is treated as ended

---
 ast/tokens.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ast/tokens.go b/ast/tokens.go
index edb08aa..0bb44f9 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -346,6 +346,10 @@ func (t *Token) skipRegions() {
 
 func (t *Token) nextLet() rune {
 	srsCode := t.ast.SrsCode()
+	if t.offset >= len(srsCode) {
+		return EOF
+	}
+
 	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])
 	t.offset += size
 	defer func() { t.offset -= size }()
@@ -370,6 +374,7 @@ func (t *Token) GetPosition() Position {
 
 func (t *Token) positionAt(offset int) Position {
 	srsCode := t.ast.SrsCode()
+	offset = min(offset, len(srsCode)) // исходник мог стать короче
 	eol := strings.LastIndex(srsCode[:offset], "\n") + 1
 	lineBegin := IF[int](eol < 0, 0, eol)
 
@@ -381,6 +386,10 @@ func (t *Token) positionAt(offset int) Position {
 
 func (t *Token) nextPos() {
 	srsCode := t.ast.SrsCode()
+	if t.offset >= len(srsCode) {
+		return
+	}
+
 	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])
 	t.offset += size
 }
-- 
2.43.0


From bd4e4a1a2a68aa8c2097045ab31a30028cf34b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 10/14] fix: the C lower-casing helper stays inside its string
 and always ends

---
 ast/fast_tolower/gowrap.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..b90244a 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -7,27 +7,22 @@ package fast_tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
-void fastToLower(char* str) {
-     for (int i = 0; str[i] != '\0';) {
+// строка может быть обрезана посередине символа, содержать нулевые байты и не быть корректным UTF-8
+void fastToLower(char* str, size_t len) {
+     for (size_t i = 0; i < len;) {
         unsigned char byte = str[i];
 		int currentChar = 0;
 
-        if (byte <= 0x7F) {
-            currentChar = byte; // Один байт (ASCII)
-            i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        if (byte >= 0xC2 && byte <= 0xDF && i + 1 < len && (str[i+1] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
-            currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
-            i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
-            currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
-            i += 4;
+        } else {
+            currentChar = byte; // Один байт (ASCII), остальные символы не меняются
+            i++;
         }
 
 		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
+			str[i-1] = tolower(byte);
 		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
@@ -48,8 +43,8 @@ import "unsafe"
 func FastToLower(str string) string {
 	cs := C.CString(str)
 
-	C.fastToLower(cs)
-	result := C.GoString(cs)
+	C.fastToLower(cs, C.size_t(len(str)))
+	result := string(unsafe.Slice((*byte)(unsafe.Pointer(cs)), len(str)))
 	C.free(unsafe.Pointer(cs))
 
 	return result // *(*string)(unsafe.Pointer(&runes))
-- 
2.43.0


From f5a3261bc1fa1df09b5dbe5ae1d4943631348475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 11/14] fix: a name after a dot stays a name when the source
 ends in between

---
 ast/tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 0bb44f9..deb5a2d 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -127,7 +127,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipRegions()
 	t.start = t.offset
 
-	if t.prevDot {
+	if t.prevDot && t.currentLet() != EOF {
 		defer func() { t.prevDot = false }()
 	}
 
-- 
2.43.0


From d80b0c3419b534d952d0acd9f79787398802d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 12/14] fix: compute the place of a syntax error once, so that
 many errors take linear time

---
 ast/ast.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index f20dc2e..e8ae131 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -48,6 +48,9 @@ func (ast *AstNode) Parse() error {
 	}
 
 	yyParse(ast)
+	if e, ok := ast.err.(*syntaxError); ok {
+		ast.err = e.located()
+	}
 	if ast.err != nil {
 		errors.Wrap(ast.err, "parse error")
 	}
@@ -80,11 +83,26 @@ func (ast *AstNode) SrsCode() string {
 	return ast.code
 }
 
-func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.positionAt(ast.currentToken.start)
+// syntaxError ошибка, место которой еще не вычислено. Ошибок за разбор может быть много (сообщается последняя),
+// а для вычисления места нужно просмотреть исходник с начала.
+type syntaxError struct {
+	text  string
+	token Token
+}
+
+func (e *syntaxError) Error() string {
+	return e.text
+}
+
+func (e *syntaxError) located() error {
+	pos := e.token.positionAt(e.token.start)
 	pos.Column-- // в тексте ошибки колонки считаются с нуля
 
-	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
+	return fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", e.text, pos.Line, pos.Column, e.token.literal)
+}
+
+func (ast *AstNode) Error(s string) {
+	ast.err = &syntaxError{text: s, token: ast.currentToken}
 }
 
 func checkLoopOperator(token Token, yylex yyLexer) {
-- 
2.43.0


From 4a0f385ce5cdf4e6ca7b061c945a0eb91ab65252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 13/14] fix: any number of comment lines in a row can be
 skipped

skipComment and skipRegions called each other once per line, so a text with
tens of millions of comment lines overflowed the stack, which ends the process.
---
 ast/tokens.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index deb5a2d..5e8ab9f 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -310,38 +310,28 @@ func (t *Token) skipSpace() {
 }
 
 func (t *Token) skipComment() {
-	if t.currentLet() == '/' && t.nextLet() == '/' {
-		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
-			t.nextPos()
-		}
-		t.skipSpace()
-	} else {
-		return
-	}
-
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
+	if t.isComment() {
+		t.skipLines()
 	}
 }
 
 func (t *Token) skipRegions() {
 	// todo пока будут пропускаться и условия типа #Если Не ВебКлиент Тогда, потом надо будет доработать
-	if t.currentLet() == '#' {
+	t.skipLines()
+}
+
+// skipLines пропускает идущие подряд комментарии и области. Без рекурсии, таких строк может быть сколько угодно
+func (t *Token) skipLines() {
+	for t.isComment() || t.currentLet() == '#' {
 		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
 			t.nextPos()
 		}
 		t.skipSpace()
 	}
+}
 
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
-	}
+func (t *Token) isComment() bool {
+	return t.currentLet() == '/' && t.nextLet() == '/'
 }
 
 func (t *Token) nextLet() rune {
-- 
2.43.0


From 116605e54705538b0b8319acf10156bfcb21ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 14/14] fix: another declaration after a repeated local
 variable no longer panics

---
 ast/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index e8ae131..a41e4c4 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -173,6 +173,9 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 }
 
 func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token) (map[string]VarStatement, error) {
+	if existingVariables == nil {
+		existingVariables = map[string]VarStatement{} // предыдущее объявление было с ошибкой
+	}
 	for _, v := range newVariables {
 		if _, ok := existingVariables[v.literal]; ok {
 			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
-- 
2.43.0


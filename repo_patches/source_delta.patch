From ec3bc3bde6a37b81ba3a6398d24b3be8cd8cf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:32 +0000
Subject: [PATCH 01/73] fix: power operator reads past its operands and fails
 on a null base

---
 arithmeticeval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..de5de55 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,13 +53,13 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
-- 
2.43.0


From 1f7c8bd7b81a2f1f417ff90f54917513eac1534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 02/73] fix: >= comparison is not recognized

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 0da0b8a..5b8ba85 100644
--- a/ast.go
+++ b/ast.go
@@ -838,7 +838,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From fb537a27d77a311636437854cf435ae2bccdd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 03/73] fix: chained comparison only considers the first and
 last operands

---
 relationaleval.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..7d95df8 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -135,7 +135,7 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if val.Get() == nil {
 		return RValue{}, nil
 	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	ret := RValue{Value: true, Const: val.IsConst()}
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
@@ -148,21 +148,27 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		holds := true
 		switch expr.second[i].op {
 		case "=":
-			ret.Value = result == 0
+			holds = result == 0
 		case "<>":
-			ret.Value = result != 0
+			holds = result != 0
 		case "<":
-			ret.Value = result < 0
+			holds = result < 0
 		case "<=":
-			ret.Value = result <= 0
+			holds = result <= 0
 		case ">":
-			ret.Value = result > 0
+			holds = result > 0
 		case ">=":
-			ret.Value = result >= 0
+			holds = result >= 0
+		}
+		// a op1 b op2 c is (a op1 b) and (b op2 c)
+		if !holds {
+			ret.Value = false
 		}
 		ret.Const = ret.Const && second.IsConst()
+		val = second
 	}
 	return ret, nil
 }
-- 
2.43.0


From 0ee0b7c3d233bf743fa90042dda6b2caeb94ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:40 +0000
Subject: [PATCH 04/73] fix: IN operator rejects lists

---
 eval.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b13ff57..80016f3 100644
--- a/eval.go
+++ b/eval.go
@@ -123,10 +123,14 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
+		}
+		if len(list) == 0 {
+			return RValue{Value: false}, nil
 		}
 		if inputValue.Get() == nil {
 			return RValue{}, nil
-- 
2.43.0


From 879abf9666ef5822ef7105c2e293cdc2475e47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 05/73] fix: list slices lose the last element and open ended
 slices are misread

---
 ast.go  | 28 +++++++++++++++++++---------
 eval.go | 30 ++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/ast.go b/ast.go
index 5b8ba85..5eb4689 100644
--- a/ast.go
+++ b/ast.go
@@ -781,17 +781,27 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
-		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+	// Either [ index ], or [ first? .. second? ]
+	listRange := &listRangeExpression{}
+	isRange := false
+	for i := 0; i < ctx.GetChildCount(); i++ {
+		switch ch := ctx.GetChild(i).(type) {
+		case antlr.TerminalNode:
+			if ch.GetText() == ".." {
+				isRange = true
+			}
+		case *parser.OC_ExpressionContext:
+			if isRange {
+				listRange.second = oC_Expression(ch)
+			} else {
+				listRange.first = oC_Expression(ch)
+			}
 		}
 	}
-	return stringListNullOperatorExpressionPart{
-		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
-		}}
+	if !isRange {
+		return stringListNullOperatorExpressionPart{listIndex: listRange.first}
+	}
+	return stringListNullOperatorExpressionPart{listRange: listRange}
 }
 
 func oC_StringOperatorExpression(ctx *parser.OC_StringOperatorExpressionContext) stringListNullOperatorExpressionPart {
diff --git a/eval.go b/eval.go
index 80016f3..b716ae6 100644
--- a/eval.go
+++ b/eval.go
@@ -162,9 +162,14 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 				return nil, ErrNotAList
 			}
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
+		var from Value = RValue{Value: 0, Const: true}
+		var to Value = RValue{Value: len(listValue), Const: true}
+		var err error
+		if expr.listRange.first != nil {
+			from, err = expr.listRange.first.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
 		}
 		if from.Get() == nil {
 			return RValue{}, nil
@@ -176,9 +181,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if !ok {
 			return nil, ErrInvalidListIndex
 		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
+		if expr.listRange.second != nil {
+			to, err = expr.listRange.second.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
 		}
 		if to.Get() == nil {
 			return RValue{}, nil
@@ -193,11 +200,14 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if fromi < 0 || toi < 0 {
 			return nil, ErrInvalidListIndex
 		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
+		if listValue == nil {
+			return RValue{}, nil
+		}
+		if fromi > len(listValue) {
+			fromi = len(listValue)
 		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
+		if toi > len(listValue) {
+			toi = len(listValue)
 		}
 		if fromi > toi {
 			fromi = toi
-- 
2.43.0


From 7e3e4b0523831afc4fa2442659bf17e0bf6558f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:45 +0000
Subject: [PATCH 06/73] fix: integer comparison overflows

---
 relationaleval.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationaleval.go b/relationaleval.go
index 7d95df8..3f545b3 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -27,7 +27,13 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			if value1 == value2 {
+				return 0, nil
+			}
+			if value1 < value2 {
+				return -1, nil
+			}
+			return 1, nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
-- 
2.43.0


From 6b195d2eb2ddfa1585cf4e4f1fbc7acb99f7d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:47 +0000
Subject: [PATCH 07/73] fix: a later date or time compares equal to an earlier
 one

---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 3f545b3..e2b0da3 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -101,7 +101,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -113,7 +113,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -125,7 +125,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From bca018e7898f267f35a2de2d56af5237f85609d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:33 +0000
Subject: [PATCH 08/73] fix: duration comparison is not an ordering

---
 relationaleval.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index e2b0da3..09bc817 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -77,16 +77,16 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
 				return 0, nil
 			}
-			if value1.Days < dur.Days {
-				return -1, nil
-			}
-			if value1.Months < dur.Months {
-				return -1, nil
-			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
+			less := value1.Nanos < dur.Nanos
+			switch {
+			case value1.Months != dur.Months:
+				less = value1.Months < dur.Months
+			case value1.Days != dur.Days:
+				less = value1.Days < dur.Days
+			case value1.Seconds != dur.Seconds:
+				less = value1.Seconds < dur.Seconds
 			}
-			if value1.Nanos < dur.Nanos {
+			if less {
 				return -1, nil
 			}
 			return 1, nil
-- 
2.43.0


From 3f517ac2046adc553b403db73230360ecb49022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 09/73] fix: multiplication loses operand errors and does not
 propagate null

---
 arithmeticeval.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index de5de55..b66a123 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -213,17 +213,21 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 	var ret RValue
 	var err error
 	for i := range expr.parts {
-		var val Value
-		val, err = expr.parts[i].expr.Evaluate(ctx)
-		if err != nil {
-			return val, err
+		val, evalErr := expr.parts[i].expr.Evaluate(ctx)
+		if evalErr != nil {
+			return nil, evalErr
 		}
 		if i == 0 {
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
-				return RValue{}, nil
+			if err != nil {
+				return nil, err
+			}
+			if ret.Value == nil || val.Get() == nil {
+				ret.Value = nil
+				ret.Const = false
+				continue
 			}
 			ret.Const = ret.Const && val.IsConst()
 			switch result := ret.Value.(type) {
-- 
2.43.0


From 872fa09af346f9a0a32c22269f4381e8f257ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 10/73] fix: scaling a duration by a float truncates the
 factor, and panics below 1

---
 arithmeticeval.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index b66a123..1b91308 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -172,24 +172,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
-- 
2.43.0


From 173fc786a897660bb54dde785cc40c494af89d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 11/73] fix: additions are evaluated before subtractions

---
 arithmeticeval.go | 20 +++++++++-----------
 ast.go            |  4 ++++
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 1b91308..d7d1c82 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -485,21 +485,19 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
+	// Evaluate from left to right
+	add, sub := expr.add, expr.sub
+	for _, isSub := range expr.order {
+		operands := &add
+		if isSub {
+			operands = &sub
 		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
+		val, err := (*operands)[0].Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, true); err != nil {
+		*operands = (*operands)[1:]
+		if err = accumulate(val, isSub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index 5eb4689..8242db5 100644
--- a/ast.go
+++ b/ast.go
@@ -124,6 +124,9 @@ type partialComparisonExpression struct {
 type addOrSubtractExpression struct {
 	add []Expression
 	sub []Expression
+	// The order in which the elements of add and sub appear, true for an
+	// element of sub
+	order []bool
 
 	constValue Value
 }
@@ -677,6 +680,7 @@ func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) E
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
 			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.order = append(ret.order, target == &ret.sub)
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
-- 
2.43.0


From 1a957e7966d35df9d96ff3026e54cd69d452fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:45 +0000
Subject: [PATCH 12/73] fix: list concatenation yields null and addition
 ignores unsupported operands

---
 arithmeticeval.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index d7d1c82..9be1364 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -376,6 +376,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
@@ -477,10 +478,14 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
+				operandsConst := ret.Const
 				ret = addlistlist(retValue, operandValue)
+				ret.Const = ret.Const && operandsConst
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
-- 
2.43.0


From b2d8ba03a521a242be70936bc5ab36a4cb2aab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 13/73] fix: a list element selected by index is cached as if
 it were a constant

---
 eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index b716ae6..cde1f03 100644
--- a/eval.go
+++ b/eval.go
@@ -109,13 +109,13 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			if intValue >= len(listValue) {
 				return RValue{}, nil
 			}
-			return listValue[intValue], nil
+			return RValue{Value: listValue[intValue].Get()}, nil
 		}
 		index := len(listValue) + intValue
 		if index < 0 {
 			return RValue{}, nil
 		}
-		return listValue[index], nil
+		return RValue{Value: listValue[index].Get()}, nil
 
 	case expr.listIn != nil:
 		listValue, err := expr.listIn.Evaluate(ctx)
-- 
2.43.0


From 743ee8c8c094c3d600b3ee89063cd55756564b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 14/73] fix: AND and OR do not follow three-valued logic

---
 relationaleval.go | 64 +++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 09bc817..012a9eb 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -195,33 +195,29 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: true, Const: true}
+	hasNull := false
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		ret.Const = ret.Const && val.IsConst()
+		if !vval {
+			return RValue{Value: false, Const: ret.Const && !hasNull}, nil
 		}
 	}
+	if hasNull {
+		return RValue{}, nil
+	}
 	return ret, nil
 }
 
@@ -254,32 +250,28 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: false, Const: true}
+	hasNull := false
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		ret.Const = ret.Const && val.IsConst()
+		if vval {
+			return RValue{Value: true, Const: ret.Const && !hasNull}, nil
 		}
 	}
+	if hasNull {
+		return RValue{}, nil
+	}
 	return ret, nil
 }
-- 
2.43.0


From 92d949d1312bf9e0b7d65f5975bb2875b6f5575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 15/73] fix: equal values are reported as different, and
 incomparable ones as the same

---
 value.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/value.go b/value.go
index bbafe07..e8fb616 100644
--- a/value.go
+++ b/value.go
@@ -148,10 +148,13 @@ func ValueOf(in interface{}) Value {
 
 // IsValueSame compares two values and decides if the two are the same
 func IsValueSame(v, v2 Value) bool {
+	if v.Get() == nil || v2.Get() == nil {
+		return v.Get() == nil && v2.Get() == nil
+	}
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
@@ -214,19 +217,26 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1.NumEdges() != val2.NumEdges() {
 			return false
 		}
+		if val1.NumEdges() == 0 {
+			return val1.First() == val2.First()
+		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
 				return false
 			}
 		}
 		return true
+
+	case *lpg.Edge:
+		val2, ok := v2.Get().(*lpg.Edge)
+		return ok && val1 == val2
 	}
 	return false
 }
-- 
2.43.0


From f11941075312185b165bb59c51d53428d0771a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 16/73] fix: UNION keeps duplicate rows of its first query

---
 resultset.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..c75487b 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,11 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			if v, ok := row[i]; !ok || !IsValueSame(r[i], v) {
 				found = false
 				break
 			}
@@ -127,6 +127,15 @@ func (r *ResultSet) Add(rs ResultSet) {
 
 // Union adds the src resultset to this. If all is set, it adds all rows, otherwise, it adds unique rows
 func (r *ResultSet) Union(src ResultSet, all bool) error {
+	if !all {
+		rows := r.Rows
+		r.Rows = nil
+		for _, row := range rows {
+			if r.find(row) == -1 {
+				r.Rows = append(r.Rows, row)
+			}
+		}
+	}
 	for _, sourceRow := range src.Rows {
 		appnd := all
 		if !appnd && r.find(sourceRow) == -1 {
-- 
2.43.0


From d344d370fff8d10a09aa4b2f8a10cb44893432ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:28 +0000
Subject: [PATCH 17/73] fix: SET combines values of unrelated rows

---
 update.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..b170c76 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,15 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
+	// Work on the rows of the result
 	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
+	for _, data := range result.Rows {
 		subctx.SetVars(data)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, data, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 0fb824ef383cb4e32b8abe10b689b822a815bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 18/73] fix: cartesian product of nothing never ends

---
 resultset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index c75487b..717ea3a 100644
--- a/resultset.go
+++ b/resultset.go
@@ -165,7 +165,7 @@ func (r ResultSet) String() string {
 // returns false. The map passed to f is reused, so copy if you need a
 // copy of it.
 func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
-	if len(r.Rows) == 0 {
+	if len(r.Rows) == 0 || len(r.Rows[0]) == 0 {
 		return true
 	}
 	ctr := make([]int, len(r.Rows[0]))
@@ -222,7 +222,7 @@ func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]V
 		if filter(data) {
 			result.Rows = append(result.Rows, data)
 		}
-		carry := false
+		carry := len(ctr) == 0
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(resultsets[i].Rows) {
-- 
2.43.0


From dc974835426b5fb85958669a382790b398b9853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:34 +0000
Subject: [PATCH 19/73] fix: CREATE after MATCH creates its pattern only for
 the first row

---
 update.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/update.go b/update.go
index b170c76..4f56ff3 100644
--- a/update.go
+++ b/update.go
@@ -209,13 +209,27 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	results := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		// Every row creates its own copy of the pattern
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		if _, err := c.TopLevelUpdate(subctx); err != nil {
 			return nil, err
 		}
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range subctx.GetVarsNearestScope() {
+			newRow[k] = v
+		}
+		results.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	if len(results.Rows) > 0 {
+		ctx.SetVars(results.Rows[len(results.Rows)-1])
+	}
+	return RValue{Value: results}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From 5db29c474394d05eb12dfa5eb71cd78293691240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:24 +0000
Subject: [PATCH 20/73] fix: DELETE removes the same node or relationship more
 than once

---
 update.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/update.go b/update.go
index 4f56ff3..056aa29 100644
--- a/update.go
+++ b/update.go
@@ -126,6 +126,10 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	// Collect the things to delete first: the same node or edge may
+	// appear in many rows, and it can be removed only once
+	nodes := lpg.NewNodeSet()
+	edges := make(map[*lpg.Edge]struct{})
 	subctx := ctx.SubContext()
 	for _, row := range result.Rows {
 		subctx.SetVars(row)
@@ -139,21 +143,31 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
-				}
-				item.DetachAndRemove()
+				nodes.Add(item)
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					edges[item.GetEdge(i)] = struct{}{}
 				}
 			}
 		}
 	}
+	if !d.detach {
+		for itr := nodes.Iterator(); itr.Next(); {
+			for edgeItr := itr.Node().GetEdges(lpg.AnyEdge); edgeItr.Next(); {
+				if _, deleted := edges[edgeItr.Edge()]; !deleted {
+					// Must have detach
+					return nil, fmt.Errorf("Cannot delete attached node")
+				}
+			}
+		}
+	}
+	for edge := range edges {
+		edge.Remove()
+	}
+	for itr := nodes.Iterator(); itr.Next(); {
+		itr.Node().DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From 05a1942b8640fa59b6d1df0f190f883072402c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:27 +0000
Subject: [PATCH 21/73] fix: a second MATCH clause is not joined with the first
 one

---
 eval.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/eval.go b/eval.go
index cde1f03..7f8929f 100644
--- a/eval.go
+++ b/eval.go
@@ -472,12 +472,38 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	results := *NewResultSet()
 	if len(query.read) > 0 {
-		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
-			if err != nil {
-				return nil, err
+		for i, r := range query.read {
+			if i == 0 {
+				rs, err := r.GetResults(ctx)
+				if err != nil {
+					return nil, err
+				}
+				results.Add(rs)
+				continue
+			}
+			// Extend each row with the results of the clause for that row
+			joined := *NewResultSet()
+			for _, row := range results.Rows {
+				subctx := ctx.SubContext()
+				for k, v := range row {
+					subctx.SetVar(k, v)
+				}
+				rs, err := r.GetResults(subctx)
+				if err != nil {
+					return nil, err
+				}
+				for _, match := range rs.Rows {
+					newRow := make(map[string]Value)
+					for k, v := range row {
+						newRow[k] = v
+					}
+					for k, v := range match {
+						newRow[k] = v
+					}
+					joined.Append(newRow)
+				}
 			}
-			results.Add(rs)
+			results = joined
 		}
 
 		for _, upd := range query.update {
-- 
2.43.0


From cd7f1b1f109da048c655e66ed344c74d79dad9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 22/73] fix: OPTIONAL MATCH without a match drops the row

---
 patterneval.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..95579a5 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -120,6 +120,20 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	if err := nextPattern(ctx, patterns, 0); err != nil {
 		return ResultSet{}, err
 	}
+	if match.Optional && len(results.Rows) == 0 {
+		// No match: all new variables are null
+		row := make(map[string]Value)
+		for _, pattern := range patterns {
+			for symbol := range pattern.GetSymbolNames().M {
+				if value, err := ctx.GetVar(symbol); err == nil {
+					row[symbol] = value
+				} else {
+					row[symbol] = RValue{}
+				}
+			}
+		}
+		results.Rows = append(results.Rows, row)
+	}
 	return *results, nil
 }
 
-- 
2.43.0


From be08efa6d9b4f910a06791ad66ea73be3e521add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:58 +0000
Subject: [PATCH 23/73] fix: matching panics when there are fewer relationships
 than nodes

---
 patterneval.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 95579a5..eacb37a 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -233,7 +233,10 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 			ret.Max = -1
 		}
 	} else {
-		ret.Min, ret.Max = 1, 1
+		// At most one edge. Paths have at least one edge, and setting Min
+		// to 1 allows starting the match from this edge without knowing
+		// which one of its nodes comes first
+		ret.Min, ret.Max = -1, 1
 	}
 	if !rp.toRight && !rp.toLeft {
 		ret.Undirected = true
-- 
2.43.0


From ab91aefd477112f3de770a6278e3d1e5bd79cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:40 +0000
Subject: [PATCH 24/73] fix: a bound relationship variable does not constrain
 the match

---
 lang.go        | 15 +++------------
 patterneval.go | 50 +++++++++++++++++++++++++++++++++++++++-----------
 update.go      | 12 ++----------
 3 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/lang.go b/lang.go
index e4a400b..9c521cc 100644
--- a/lang.go
+++ b/lang.go
@@ -93,22 +93,13 @@ func (p PatternPart) FindRelative(this *lpg.Node) ([]*lpg.Node, error) {
 		return nil, err
 	}
 
-	symbols, err := BuildPatternSymbols(ctx, pattern)
+	results, err := runPattern(ctx, pattern)
 	if err != nil {
 		return nil, err
 	}
 
-	resultAccumulator := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-	}
-	err = pattern.Run(ctx.graph, symbols, &resultAccumulator)
-	if err != nil {
-		return nil, err
-	}
-
-	ret := make([]*lpg.Node, 0, len(resultAccumulator.result.Rows))
-	for _, row := range resultAccumulator.result.Rows {
+	ret := make([]*lpg.Node, 0, len(results.Rows))
+	for _, row := range results.Rows {
 		t, ok := row["target"]
 		if !ok {
 			continue
diff --git a/patterneval.go b/patterneval.go
index eacb37a..dac5768 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -38,10 +38,46 @@ type matchResultAccumulator struct {
 	evalCtx *EvalContext
 	result  *ResultSet
 	err     error
+
+	// The values of pattern variables that were bound before the match
+	bound map[string]interface{}
+}
+
+// runPattern finds the matches of the pattern
+func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
+	acc := matchResultAccumulator{
+		evalCtx: ctx,
+		result:  NewResultSet(),
+		bound:   make(map[string]interface{}),
+	}
+	for symbol := range pattern.GetSymbolNames().M {
+		if value, err := ctx.GetVar(symbol); err == nil {
+			acc.bound[symbol] = value.Get()
+		}
+	}
+	symbols, err := BuildPatternSymbols(ctx, pattern)
+	if err != nil {
+		return nil, err
+	}
+	if err := pattern.Run(ctx.graph, symbols, &acc); err != nil {
+		return nil, err
+	}
+	return acc.result, nil
+}
+
+// accept checks the constraints that are not checked by the pattern
+// matching of the graph
+func (acc *matchResultAccumulator) accept(symbols map[string]interface{}) bool {
+	for symbol, value := range acc.bound {
+		if !IsValueSame(RValue{Value: symbols[symbol]}, RValue{Value: value}) {
+			return false
+		}
+	}
+	return true
 }
 
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
-	if acc.err != nil {
+	if acc.err != nil || !acc.accept(symbols) {
 		return
 	}
 	// Record results in the context
@@ -80,19 +116,11 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 
 	nextPattern = func(prevContext *EvalContext, pat []lpg.Pattern, index int) error {
 		newContext := prevContext.SubContext()
-		symbols, err := BuildPatternSymbols(newContext, pat[0])
-		if err != nil {
-			return err
-		}
-		results := matchResultAccumulator{
-			evalCtx: newContext,
-			result:  NewResultSet(),
-		}
-		err = pat[0].Run(newContext.graph, symbols, &results)
+		matches, err := runPattern(newContext, pat[0])
 		if err != nil {
 			return err
 		}
-		for _, row := range results.result.Rows {
+		for _, row := range matches.Rows {
 			for k, v := range row {
 				newContext.SetVar(k, v)
 			}
diff --git a/update.go b/update.go
index 056aa29..08ffaa2 100644
--- a/update.go
+++ b/update.go
@@ -383,19 +383,11 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 		unbound[symbol] = struct{}{}
 	}
 
-	results := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-	}
-	symbols, err := BuildPatternSymbols(ctx, pattern)
-	if err != nil {
-		return nil, *NewResultSet(), err
-	}
-	err = pattern.Run(ctx.graph, symbols, &results)
+	results, err := runPattern(ctx, pattern)
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
-	return unbound, *results.result, nil
+	return unbound, *results, nil
 }
 
 func (m merge) resultsToCtx(ctx *EvalContext, results ResultSet) {
-- 
2.43.0


From ba892a44a1db13f44f66a4ccfda3e8e413e042fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:08 +0000
Subject: [PATCH 25/73] fix: a variable repeated in a pattern may match
 different nodes

---
 patterneval.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index dac5768..73b6522 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -1,6 +1,8 @@
 package opencypher
 
 import (
+	"fmt"
+
 	"github.com/cloudprivacylabs/lpg/v2"
 )
 
@@ -41,14 +43,34 @@ type matchResultAccumulator struct {
 
 	// The values of pattern variables that were bound before the match
 	bound map[string]interface{}
+	// Items that repeat a variable of the pattern. The key is the unique
+	// name given to the item
+	repeated map[string]string
 }
 
 // runPattern finds the matches of the pattern
 func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 	acc := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-		bound:   make(map[string]interface{}),
+		evalCtx:  ctx,
+		result:   NewResultSet(),
+		bound:    make(map[string]interface{}),
+		repeated: make(map[string]string),
+	}
+	// The items may change below
+	pattern = append(lpg.Pattern{}, pattern...)
+	seen := make(map[string]int)
+	for i := range pattern {
+		name := pattern[i].Name
+		if len(name) == 0 {
+			continue
+		}
+		first, exists := seen[name]
+		if !exists {
+			seen[name] = i
+		} else if first%2 == i%2 {
+			pattern[i].Name = fmt.Sprintf("%s\x00%d", name, i)
+			acc.repeated[pattern[i].Name] = name
+		}
 	}
 	for symbol := range pattern.GetSymbolNames().M {
 		if value, err := ctx.GetVar(symbol); err == nil {
@@ -73,6 +95,12 @@ func (acc *matchResultAccumulator) accept(symbols map[string]interface{}) bool {
 			return false
 		}
 	}
+	for symbol, first := range acc.repeated {
+		if !IsValueSame(RValue{Value: symbols[symbol]}, RValue{Value: symbols[first]}) {
+			return false
+		}
+		delete(symbols, symbol)
+	}
 	return true
 }
 
-- 
2.43.0


From 269f675a8c4a2a259a3eca143fe47180e90d5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 26/73] fix: boolean, float, date and list properties of a
 pattern never match

---
 patterneval.go | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 73b6522..e45471d 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -46,6 +46,10 @@ type matchResultAccumulator struct {
 	// Items that repeat a variable of the pattern. The key is the unique
 	// name given to the item
 	repeated map[string]string
+	// Property values that cannot be compared by the graph. The key is
+	// the name of the item
+	properties map[string]map[string]interface{}
+	unnamed    []string
 }
 
 // runPattern finds the matches of the pattern
@@ -77,6 +81,27 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 			acc.bound[symbol] = value.Get()
 		}
 	}
+	acc.properties = make(map[string]map[string]interface{})
+	for i := range pattern {
+		properties := make(map[string]interface{})
+		for key, value := range pattern[i].Properties {
+			switch value.(type) {
+			case bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
+			default:
+				properties[key] = value
+				continue
+			}
+			if len(pattern[i].Name) == 0 {
+				pattern[i].Name = fmt.Sprintf("\x00%d", i)
+				acc.unnamed = append(acc.unnamed, pattern[i].Name)
+			}
+			if acc.properties[pattern[i].Name] == nil {
+				acc.properties[pattern[i].Name] = make(map[string]interface{})
+			}
+			acc.properties[pattern[i].Name][key] = value
+		}
+		pattern[i].Properties = properties
+	}
 	symbols, err := BuildPatternSymbols(ctx, pattern)
 	if err != nil {
 		return nil, err
@@ -95,6 +120,23 @@ func (acc *matchResultAccumulator) accept(symbols map[string]interface{}) bool {
 			return false
 		}
 	}
+	for symbol, properties := range acc.properties {
+		switch item := symbols[symbol].(type) {
+		case *lpg.Node:
+			if !hasProperties(item, properties) {
+				return false
+			}
+		case *lpg.Path:
+			for i := 0; i < item.NumEdges(); i++ {
+				if !hasProperties(item.GetEdge(i), properties) {
+					return false
+				}
+			}
+		}
+	}
+	for _, symbol := range acc.unnamed {
+		delete(symbols, symbol)
+	}
 	for symbol, first := range acc.repeated {
 		if !IsValueSame(RValue{Value: symbols[symbol]}, RValue{Value: symbols[first]}) {
 			return false
@@ -104,6 +146,22 @@ func (acc *matchResultAccumulator) accept(symbols map[string]interface{}) bool {
 	return true
 }
 
+func hasProperties(item lpg.WithProperties, properties map[string]interface{}) bool {
+	for key, value := range properties {
+		property, exists := item.GetProperty(key)
+		if !exists {
+			return false
+		}
+		if n, ok := property.(lpg.WithNativeValue); ok {
+			property = n.GetNativeValue()
+		}
+		if !IsValueSame(RValue{Value: property}, RValue{Value: value}) {
+			return false
+		}
+	}
+	return true
+}
+
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
 	if acc.err != nil || !acc.accept(symbols) {
 		return
-- 
2.43.0


From c3c4796606ffcabf5597a2725987ff022afa8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:56 +0000
Subject: [PATCH 27/73] fix: SKIP and LIMIT are ignored without a reading
 clause

---
 eval.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/eval.go b/eval.go
index 7f8929f..028ed63 100644
--- a/eval.go
+++ b/eval.go
@@ -536,20 +536,12 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: *NewResultSet()}, nil
 	}
 
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	rows := results.Rows
+	if len(rows) == 0 {
+		rows = []map[string]Value{nil}
+	}
+	if err := project(rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
-- 
2.43.0


From 830628a679244b6b8a66f16ddaab7b32933d2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 28/73] fix: RETURN DISTINCT keeps duplicate rows

---
 eval.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index 028ed63..0320ed8 100644
--- a/eval.go
+++ b/eval.go
@@ -455,19 +455,25 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 
 	project := func(rows []map[string]Value) error {
-		for index, item := range rows {
-			if skip != -1 && index < skip {
-				continue
-			}
-			if limit != -1 && len(ret.Rows) >= limit {
-				break
-			}
+		for _, item := range rows {
 			val, err := query.ret.projection.items.Project(ctx, item)
 			if err != nil {
 				return err
 			}
+			if query.ret.projection.distinct && ret.find(val) != -1 {
+				continue
+			}
 			ret.Rows = append(ret.Rows, val)
 		}
+		if skip > len(ret.Rows) {
+			skip = len(ret.Rows)
+		}
+		if skip > 0 {
+			ret.Rows = ret.Rows[skip:]
+		}
+		if limit >= 0 && limit < len(ret.Rows) {
+			ret.Rows = ret.Rows[:limit]
+		}
 		return nil
 	}
 	results := *NewResultSet()
-- 
2.43.0


From 9fadae996cee972675d12316f22781cd20262b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 29/73] fix: ORDER BY is ignored

---
 ast.go  |  2 +-
 eval.go | 69 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 8242db5..579c9f4 100644
--- a/ast.go
+++ b/ast.go
@@ -578,7 +578,7 @@ func oC_Order(ctx *parser.OC_OrderContext) order {
 func oC_SortItem(ctx *parser.OC_SortItemContext) sortItem {
 	ret := sortItem{
 		expr: oC_Expression(ctx.OC_Expression().(*parser.OC_ExpressionContext)),
-		asc:  ctx.ASCENDING() != nil || ctx.ASC() != nil,
+		asc:  ctx.DESCENDING() == nil && ctx.DESC() == nil,
 	}
 	return ret
 }
diff --git a/eval.go b/eval.go
index 0320ed8..b1b5b0c 100644
--- a/eval.go
+++ b/eval.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -455,6 +456,7 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 
 	project := func(rows []map[string]Value) error {
+		sortKeys := make([][]Value, 0)
 		for _, item := range rows {
 			val, err := query.ret.projection.items.Project(ctx, item)
 			if err != nil {
@@ -464,6 +466,18 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 				continue
 			}
 			ret.Rows = append(ret.Rows, val)
+			if query.ret.projection.order != nil {
+				keys, err := query.ret.projection.order.getKeys(ctx, val)
+				if err != nil {
+					return err
+				}
+				sortKeys = append(sortKeys, keys)
+			}
+		}
+		if query.ret.projection.order != nil {
+			if err := query.ret.projection.order.sort(ret.Rows, sortKeys); err != nil {
+				return err
+			}
 		}
 		if skip > len(ret.Rows) {
 			skip = len(ret.Rows)
@@ -552,6 +566,61 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	return RValue{Value: ret}, nil
 }
 
+// getKeys evaluates the sort items. The context contains the variables
+// of the row, and row contains the projected values
+func (o order) getKeys(ctx *EvalContext, row map[string]Value) ([]Value, error) {
+	subctx := ctx.SubContext()
+	for k, v := range row {
+		if IsNamedResult(k) {
+			subctx.SetVar(k, v)
+		}
+	}
+	keys := make([]Value, 0, len(o.items))
+	for _, item := range o.items {
+		key, err := item.expr.Evaluate(subctx)
+		if err != nil {
+			return nil, err
+		}
+		keys = append(keys, RValue{Value: key.Get()})
+	}
+	return keys, nil
+}
+
+// sort rows using the matching keys. Nulls are larger than all other values
+func (o order) sort(rows []map[string]Value, keys [][]Value) error {
+	type sortRow struct {
+		row  map[string]Value
+		keys []Value
+	}
+	sorted := make([]sortRow, len(rows))
+	for i := range rows {
+		sorted[i] = sortRow{row: rows[i], keys: keys[i]}
+	}
+	var sortErr error
+	sort.SliceStable(sorted, func(i, j int) bool {
+		for k, item := range o.items {
+			v1, v2 := sorted[i].keys[k].Get(), sorted[j].keys[k].Get()
+			result, err := comparePrimitiveValues(v1, v2)
+			if err != nil {
+				sortErr = err
+				return false
+			}
+			if v1 == nil || v2 == nil {
+				result = -result
+			}
+			if result == 0 {
+				continue
+			}
+			return (result < 0) == item.asc
+		}
+		return false
+	})
+	for i := range rows {
+		rows[i] = sorted[i].row
+	}
+	return sortErr
+}
+
 func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (map[string]Value, error) {
 	ret := make(map[string]Value)
 	if prj.all {
-- 
2.43.0


From a002e00a26d65ca0891e833a8f27fd98d4da3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 30/73] fix: RETURN * ignores the items that follow

---
 eval.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b1b5b0c..6946309 100644
--- a/eval.go
+++ b/eval.go
@@ -627,7 +627,9 @@ func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (m
 		for k, v := range values {
 			ret[k] = v
 		}
-		return ret, nil
+		if len(prj.items) == 0 {
+			return ret, nil
+		}
 	}
 
 	for k, v := range values {
-- 
2.43.0


From 36e3e0e5ab936d4ac7665e20e60d7c7de70251a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:07 +0000
Subject: [PATCH 31/73] fix: updating clauses do not see the results of
 preceding MERGE and CREATE clauses

---
 eval.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 6946309..4300ccb 100644
--- a/eval.go
+++ b/eval.go
@@ -543,8 +543,18 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: ret}, nil
 	}
 
-	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+	for i, upd := range query.update {
+		var v Value
+		var err error
+		if i == 0 {
+			v, err = upd.TopLevelUpdate(ctx)
+		} else {
+			// Continue with the results of the previous clause
+			if len(results.Rows) == 0 {
+				results.Rows = []map[string]Value{{}}
+			}
+			v, err = upd.Update(ctx, results)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e5c37c916e06c4d930ecb038e3653c8e973bb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 32/73] fix: labels() does not return a list value

---
 functions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index c903aca..8c8b8d4 100644
--- a/functions.go
+++ b/functions.go
@@ -103,7 +103,11 @@ func labelsFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if !ok {
 		return nil, fmt.Errorf("Not a node")
 	}
-	return RValue{Value: node.GetLabels().Slice()}, nil
+	labels := make([]Value, 0)
+	for _, label := range node.GetLabels().SortedSlice() {
+		labels = append(labels, RValue{Value: label})
+	}
+	return RValue{Value: labels}, nil
 }
 
 func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 154235b1cf6bc0bbaa0ef72e3a90da5f848b8baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:29 +0000
Subject: [PATCH 33/73] fix: right() returns the end of the string after the
 given position, left() and right() lose strings that are short

---
 stringfuncs.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..5591ccd 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -125,10 +125,13 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
-	if i < 0 || i > len(s) {
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[i:]}, nil
+	if i > len(s) {
+		i = len(s)
+	}
+	return RValue{Value: s[len(s)-i:]}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -143,9 +146,12 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
-	if i < 0 || i > len(s) {
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
+	if i > len(s) {
+		i = len(s)
+	}
 	return RValue{Value: s[:i]}, nil
 }
 
-- 
2.43.0


From 1c1657029716f4263683d97721fa511e936db875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 34/73] fix: toIntegerOrNull() fails instead of returning null

---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From 7a082cc0766da33488dc7df1aa748851928cc23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:35 +0000
Subject: [PATCH 35/73] fix: substring() panics if the length is too large

---
 stringfuncs.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index 5591ccd..6fe7a41 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -184,15 +184,11 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: ""}, nil
 	}
 	var end int
-	if max == -1 {
+	if max == -1 || max > len(s)-start {
 		end = len(s)
 	} else {
 		end = start + max
 	}
-
-	if end > len(s) {
-		end = len(s)
-	}
 	return RValue{Value: s[start:end]}, nil
 }
 
-- 
2.43.0


From 53c7d3aeb8e6b81392cb0526802dbdd3fc47e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:37 +0000
Subject: [PATCH 36/73] fix: range() never ends close to the limits of integers

---
 functions.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/functions.go b/functions.go
index 8c8b8d4..79c44ad 100644
--- a/functions.go
+++ b/functions.go
@@ -86,10 +86,18 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if end > start {
 		for at := start; at < end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at+skip < at {
+				// Overflow
+				break
+			}
 		}
 	} else {
 		for at := start; at > end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at+skip > at {
+				// Overflow
+				break
+			}
 		}
 	}
 	return RValue{Value: arr}, nil
-- 
2.43.0


From 8e603fe03647f8ec7fa3fa7d670c97b451d8c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:43 +0000
Subject: [PATCH 37/73] fix: escape sequences of string literals are not
 decoded

---
 ast.go     |  2 +-
 literal.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 579c9f4..253f334 100644
--- a/ast.go
+++ b/ast.go
@@ -1291,7 +1291,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeStringLiteral(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
diff --git a/literal.go b/literal.go
index 8d03a98..937c44a 100644
--- a/literal.go
+++ b/literal.go
@@ -1,6 +1,7 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -144,3 +145,50 @@ func EscapeStringLiteral(s string) string {
 	bld.WriteRune('"')
 	return bld.String()
 }
+
+// unescapeStringLiteral replaces the escape sequences of a string
+// literal with the characters they stand for
+func unescapeStringLiteral(s string) string {
+	if !strings.ContainsRune(s, '\\') {
+		return s
+	}
+	bld := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			bld.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'b', 'B':
+			bld.WriteRune('\b')
+		case 'f', 'F':
+			bld.WriteRune('\f')
+		case 'n', 'N':
+			bld.WriteRune('\n')
+		case 'r', 'R':
+			bld.WriteRune('\r')
+		case 't', 'T':
+			bld.WriteRune('\t')
+		case 'u', 'U':
+			// \uXXXX or \UXXXXXXXX, the lexer also accepts \UXXXX
+			digits := s[i+1:]
+			if s[i] == 'U' && len(digits) >= 8 {
+				if code, err := strconv.ParseUint(digits[:8], 16, 32); err == nil {
+					bld.WriteRune(rune(code))
+					i += 8
+					continue
+				}
+			}
+			if len(digits) >= 4 {
+				if code, err := strconv.ParseUint(digits[:4], 16, 32); err == nil {
+					bld.WriteRune(rune(code))
+					i += 4
+				}
+			}
+		default:
+			bld.WriteByte(s[i])
+		}
+	}
+	return bld.String()
+}
-- 
2.43.0


From 0b18d9228af179cfbdefa230b9aa2931c895732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:46 +0000
Subject: [PATCH 38/73] fix: backticks in labels and property keys are not
 escaped

---
 ast.go     | 3 ++-
 literal.go | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 253f334..cd59134 100644
--- a/ast.go
+++ b/ast.go
@@ -880,7 +880,8 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		// A backtick is escaped by doubling it
+		return symbolicName(strings.ReplaceAll(text[1:len(text)-1], "``", "`"))
 	}
 	return symbolicName(ctx.GetText())
 }
diff --git a/literal.go b/literal.go
index 937c44a..4a42c49 100644
--- a/literal.go
+++ b/literal.go
@@ -115,15 +115,15 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 }
 
 // EscapeLabelLiteral escape a literal that can be used as a label. It
-// returns `s`
+// returns `s`, where backticks in s are escaped
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
-// property key. Returns `s`
+// property key. Returns `s`, where backticks in s are escaped
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
-- 
2.43.0


From 09f36df49886a1d7ae1ae96c42dffad5facf01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:49 +0000
Subject: [PATCH 39/73] fix: characters that cannot be tokenized are ignored

---
 lang.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lang.go b/lang.go
index 9c521cc..26a4e70 100644
--- a/lang.go
+++ b/lang.go
@@ -27,6 +27,14 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 	}
 }
 
+// listenErrors reports the errors of both the parser and its lexer to lst
+func (lst *errorListener) listenErrors(pr *parser.CypherParser) {
+	pr.AddErrorListener(lst)
+	if lexer, ok := pr.GetTokenStream().GetTokenSource().(*parser.CypherLexer); ok {
+		lexer.AddErrorListener(lst)
+	}
+}
+
 // GetParser returns a parser that will parse the input string
 func GetParser(input string) *parser.CypherParser {
 	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
@@ -40,7 +48,7 @@ func GetParser(input string) *parser.CypherParser {
 func Parse(input string) (Evaluatable, error) {
 	pr := GetParser(input)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	errListener.listenErrors(pr)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
@@ -74,7 +82,7 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 func ParsePatternExpr(expr string) (PatternPart, error) {
 	pr := GetParser(expr)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	errListener.listenErrors(pr)
 	c := pr.OC_PatternPart()
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
-- 
2.43.0


From 38dd3af896e4a8fd0573f9763882c02b4dae0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 40/73] fix: ParsePatternExpr ignores the input after the
 pattern

---
 lang.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lang.go b/lang.go
index 26a4e70..649ebb1 100644
--- a/lang.go
+++ b/lang.go
@@ -84,6 +84,13 @@ func ParsePatternExpr(expr string) (PatternPart, error) {
 	errListener := errorListener{}
 	errListener.listenErrors(pr)
 	c := pr.OC_PatternPart()
+	// There must be nothing but spaces after the pattern
+	for pr.GetTokenStream().LA(1) == parser.CypherParserSP {
+		pr.Consume()
+	}
+	if token := pr.GetCurrentToken(); token.GetTokenType() != antlr.TokenEOF {
+		pr.NotifyErrorListeners(fmt.Sprintf("unexpected input '%s'", token.GetText()), token, nil)
+	}
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-- 
2.43.0


From 0f968e24a36b6693e31f36cab8024321eeac0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 41/73] fix: Parse panics for numbers that are out of range,
 and for CALL

---
 ast.go  | 12 ++++++------
 lang.go | 26 ++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/ast.go b/ast.go
index cd59134..857a004 100644
--- a/ast.go
+++ b/ast.go
@@ -1025,7 +1025,7 @@ func oC_Parameter(ctx *parser.OC_ParameterContext) Parameter {
 func decimalInteger(ctx antlr.TerminalNode) intLiteral {
 	i, err := strconv.Atoi(ctx.GetText())
 	if err != nil {
-		panic(err)
+		panic(ErrSyntax(err.Error()))
 	}
 	return intLiteral(i)
 }
@@ -1068,7 +1068,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(string(t[2:]), 16, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrSyntax(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1076,7 +1076,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(t, 8, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrSyntax(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1313,7 +1313,7 @@ func oC_NumberLiteral(ctx *parser.OC_NumberLiteralContext) Evaluatable {
 func oC_DoubleLiteral(ctx *parser.OC_DoubleLiteralContext) doubleLiteral {
 	v, err := strconv.ParseFloat(ctx.GetText(), 64)
 	if err != nil {
-		panic(err)
+		panic(ErrSyntax(err.Error()))
 	}
 	return doubleLiteral(v)
 }
@@ -1437,9 +1437,9 @@ func oC_Merge(ctx *parser.OC_MergeContext) UpdatingClause {
 }
 
 func oC_InQueryCall(ctx *parser.OC_InQueryCallContext) ReadingClause {
-	panic("Unsupported: inQueryCall")
+	panic(ErrUnsupported("CALL in a query"))
 }
 
 func oC_StandaloneCall(ctx *parser.OC_StandaloneCallContext) Evaluatable {
-	panic("Unsupported: standaloneCall")
+	panic(ErrUnsupported("CALL"))
 }
diff --git a/lang.go b/lang.go
index 649ebb1..03f535c 100644
--- a/lang.go
+++ b/lang.go
@@ -16,9 +16,11 @@ type errorListener struct {
 }
 
 type ErrSyntax string
+type ErrUnsupported string
 type ErrInvalidExpression string
 
 func (e ErrSyntax) Error() string            { return "Syntax error: " + string(e) }
+func (e ErrUnsupported) Error() string       { return "Unsupported: " + string(e) }
 func (e ErrInvalidExpression) Error() string { return "Invalid expression: " + string(e) }
 
 func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
@@ -27,6 +29,20 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 	}
 }
 
+// recoverParseError sets err if building the expression tree failed
+// because of an invalid literal, or an unsupported construct
+func recoverParseError(err *error) {
+	switch r := recover().(type) {
+	case nil:
+	case ErrSyntax:
+		*err = r
+	case ErrUnsupported:
+		*err = r
+	default:
+		panic(r)
+	}
+}
+
 // listenErrors reports the errors of both the parser and its lexer to lst
 func (lst *errorListener) listenErrors(pr *parser.CypherParser) {
 	pr.AddErrorListener(lst)
@@ -45,7 +61,8 @@ func GetParser(input string) *parser.CypherParser {
 }
 
 // GetEvaluatable returns an evaluatable object
-func Parse(input string) (Evaluatable, error) {
+func Parse(input string) (out Evaluatable, err error) {
+	defer recoverParseError(&err)
 	pr := GetParser(input)
 	errListener := errorListener{}
 	errListener.listenErrors(pr)
@@ -53,7 +70,7 @@ func Parse(input string) (Evaluatable, error) {
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
 	}
-	out := oC_Cypher(c.(*parser.OC_CypherContext))
+	out = oC_Cypher(c.(*parser.OC_CypherContext))
 	return out, nil
 }
 
@@ -79,7 +96,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 //
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
-func ParsePatternExpr(expr string) (PatternPart, error) {
+func ParsePatternExpr(expr string) (out PatternPart, err error) {
+	defer recoverParseError(&err)
 	pr := GetParser(expr)
 	errListener := errorListener{}
 	errListener.listenErrors(pr)
@@ -94,7 +112,7 @@ func ParsePatternExpr(expr string) (PatternPart, error) {
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-	out := oC_PatternPart(c.(*parser.OC_PatternPartContext))
+	out = oC_PatternPart(c.(*parser.OC_PatternPartContext))
 	return out, nil
 }
 
-- 
2.43.0


From 8bf7844f8bb872ffc9db64100ac55eafec2a82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:36 +0000
Subject: [PATCH 42/73] fix: evaluating an unsupported construct panics

---
 eval.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index 4300ccb..02d18fb 100644
--- a/eval.go
+++ b/eval.go
@@ -712,12 +712,30 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	return val, nil
 }
 
-func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error)      { panic("Unimplemented") }
-func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error)     { panic("Unimplemented") }
-func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error)   { panic("Unimplemented") }
-func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error)           { panic("Unimplemented") }
-func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) { panic("Unimplemented") }
-func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error)            { panic("Unimplemented") }
+func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error) {
+	return ResultSet{}, ErrUnsupported("UNWIND")
+}
+
+func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("list comprehension")
+}
+
+func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("pattern comprehension")
+}
+
+func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported(flt.op)
+}
+
+func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("pattern in expression")
+}
+
+func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("count(*)")
+}
+
 func (mq multiPartQuery) Evaluate(ctx *EvalContext) (Value, error) {
-	panic("multipart query unimplemented")
+	return nil, ErrUnsupported("WITH")
 }
-- 
2.43.0


From 89c5b562f990d65f083adba8345ed878ee1d4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:44 +0000
Subject: [PATCH 43/73] fix: function calls change the parsed query while it is
 evaluated

---
 ast.go  |  4 ----
 eval.go | 61 +++++++++++++++++++++++----------------------------------
 2 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/ast.go b/ast.go
index 857a004..e8720f8 100644
--- a/ast.go
+++ b/ast.go
@@ -343,10 +343,6 @@ type functionInvocation struct {
 	name     []symbolicName
 	distinct bool
 	args     []Expression
-
-	function       *Function
-	constArgs      []Evaluatable
-	constArgValues []Value
 }
 
 type patternComprehension struct {
diff --git a/eval.go b/eval.go
index 02d18fb..4ec198f 100644
--- a/eval.go
+++ b/eval.go
@@ -305,50 +305,37 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
-	if f.function == nil {
-		fname := make([]string, 0, len(f.name))
-		for _, x := range f.name {
-			fname = append(fname, string(x))
-		}
-		fn, err := ctx.GetFunction(fname)
-		if err != nil {
-			return nil, err
-		}
-		f.function = &fn
+	fname := make([]string, 0, len(f.name))
+	for _, x := range f.name {
+		fname = append(fname, string(x))
 	}
-	if len(f.args) < f.function.MinArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", f.function.Name, f.function.MinArgs)}
+	function, err := ctx.GetFunction(fname)
+	if err != nil {
+		return nil, err
 	}
-	if f.function.MaxArgs != -1 && len(f.args) > f.function.MaxArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", f.function.Name, f.function.MaxArgs)}
+	if len(f.args) < function.MinArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", function.Name, function.MinArgs)}
+	}
+	if function.MaxArgs != -1 && len(f.args) > function.MaxArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", function.Name, function.MaxArgs)}
 	}
 
-	args := f.constArgs
-	argValues := f.constArgValues
-	if args == nil {
-		constant := true
-		args = make([]Evaluatable, 0, len(f.args))
-		argValues = make([]Value, 0, len(f.args))
-		for a := range f.args {
-			v, err := f.args[a].Evaluate(ctx)
-			if err != nil {
-				return nil, err
-			}
-			if !v.IsConst() {
-				constant = false
-			}
-			argValues = append(argValues, v)
-			args = append(args, v)
-		}
-		if constant {
-			f.constArgs = args
-			f.constArgValues = argValues
+	// Do not cache anything in f: the same function invocation can be
+	// evaluated using many contexts at the same time
+	args := make([]Evaluatable, 0, len(f.args))
+	argValues := make([]Value, 0, len(f.args))
+	for a := range f.args {
+		v, err := f.args[a].Evaluate(ctx)
+		if err != nil {
+			return nil, err
 		}
+		argValues = append(argValues, v)
+		args = append(args, v)
 	}
-	if f.function.ValueFunc != nil {
-		return f.function.ValueFunc(ctx, argValues)
+	if function.ValueFunc != nil {
+		return function.ValueFunc(ctx, argValues)
 	}
-	return f.function.Func(ctx, args)
+	return function.Func(ctx, args)
 }
 
 func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From 9421c5db2f39491c64b8c4ba02d9c36040029679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 44/73] fix: size(), left(), right() and substring() count
 bytes and break multibyte characters

---
 functions.go   |  3 ++-
 stringfuncs.go | 15 +++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/functions.go b/functions.go
index 79c44ad..3082897 100644
--- a/functions.go
+++ b/functions.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"fmt"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cloudprivacylabs/lpg/v2"
 )
@@ -143,7 +144,7 @@ func sizeFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: len(arr)}, nil
 	}
 	if str, ok := val.(string); ok {
-		return RValue{Value: len(str)}, nil
+		return RValue{Value: utf8.RuneCountInString(str)}, nil
 	}
 	return RValue{}, nil
 }
diff --git a/stringfuncs.go b/stringfuncs.go
index 6fe7a41..434c83e 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -117,10 +117,11 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil || args[1].Get() == nil {
 		return RValue{}, nil
 	}
-	s, err := ValueAsString(args[0])
+	str, err := ValueAsString(args[0])
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
+	s := []rune(str)
 	i, err := ValueAsInt(args[1])
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
@@ -131,17 +132,18 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if i > len(s) {
 		i = len(s)
 	}
-	return RValue{Value: s[len(s)-i:]}, nil
+	return RValue{Value: string(s[len(s)-i:])}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil || args[1].Get() == nil {
 		return RValue{}, nil
 	}
-	s, err := ValueAsString(args[0])
+	str, err := ValueAsString(args[0])
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w, %v", err, args[0])
 	}
+	s := []rune(str)
 	i, err := ValueAsInt(args[1])
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
@@ -152,17 +154,18 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if i > len(s) {
 		i = len(s)
 	}
-	return RValue{Value: s[:i]}, nil
+	return RValue{Value: string(s[:i])}, nil
 }
 
 func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil || args[1].Get() == nil {
 		return RValue{}, nil
 	}
-	s, err := ValueAsString(args[0])
+	str, err := ValueAsString(args[0])
 	if err != nil {
 		return nil, fmt.Errorf("In substring: %w", err)
 	}
+	s := []rune(str)
 	start, err := ValueAsInt(args[1])
 	if err != nil {
 		return nil, fmt.Errorf("In substring: %w", err)
@@ -189,7 +192,7 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 	} else {
 		end = start + max
 	}
-	return RValue{Value: s[start:end]}, nil
+	return RValue{Value: string(s[start:end])}, nil
 }
 
 func printFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 07cf24e3a73e3948deba904f955e1bde96cd0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:16 +0000
Subject: [PATCH 45/73] fix: null properties are stored as null instead of
 being left out

---
 patterneval.go | 5 ++++-
 update.go      | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index e45471d..588d16b 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -448,7 +448,10 @@ func (p *Properties) getPropertiesMap(ctx *EvalContext) (map[string]interface{},
 		}
 		properties = make(map[string]interface{})
 		for k, v := range propertiesAsValue {
-			properties[k] = v.Get()
+			// Setting a property to null means there is no such property
+			if value := v.Get(); value != nil {
+				properties[k] = value
+			}
 		}
 	}
 	return properties, nil
diff --git a/update.go b/update.go
index 08ffaa2..fc5b6c6 100644
--- a/update.go
+++ b/update.go
@@ -86,6 +86,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
-- 
2.43.0


From c736363fe40b4c32bf66aa3b1cfa98516db1b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 46/73] fix: matching exactly one relationship with a range
 panics

---
 patterneval.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 588d16b..6c56a0c 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -347,10 +347,13 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 			ret.Max = -1
 		}
 	} else {
+		ret.Min, ret.Max = 1, 1
+	}
+	if ret.Min == 1 && ret.Max == 1 {
 		// At most one edge. Paths have at least one edge, and setting Min
 		// to 1 allows starting the match from this edge without knowing
 		// which one of its nodes comes first
-		ret.Min, ret.Max = -1, 1
+		ret.Min = -1
 	}
 	if !rp.toRight && !rp.toLeft {
 		ret.Undirected = true
-- 
2.43.0


From 1b9c40867e5b8ddd9c954888cede860699e7bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 47/73] fix: a column with an empty name panics

---
 ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index fcca709..98bcfb5 100644
--- a/ctx.go
+++ b/ctx.go
@@ -132,12 +132,12 @@ func (ctx *EvalContext) RemoveVar(name string) {
 
 func (ctx *EvalContext) SetVars(m map[string]Value) {
 	for k, v := range m {
-		if !unicode.IsDigit(rune(k[0])) {
+		if IsNamedVar(k) {
 			ctx.SetVar(k, v)
 		}
 	}
 }
 
 func IsNamedVar(name string) bool {
-	return !unicode.IsDigit(rune(name[0]))
+	return len(name) > 0 && !unicode.IsDigit(rune(name[0]))
 }
-- 
2.43.0


From b2fdf048d8b46369a15a0dafd17897f419c6785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:15 +0000
Subject: [PATCH 48/73] fix: labels, types and property keys that are reserved
 words are changed to upper case

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index e8720f8..7d1f261 100644
--- a/ast.go
+++ b/ast.go
@@ -883,7 +883,7 @@ func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
-- 
2.43.0


From 6b8cabad8fd193904ac0a8ab6f31f3c29d2a0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:18 +0000
Subject: [PATCH 49/73] fix: CASE fails if a condition is null, and null
 matches null

---
 eval.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eval.go b/eval.go
index 4ec198f..15129ad 100644
--- a/eval.go
+++ b/eval.go
@@ -352,7 +352,14 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		if when.Get() == nil {
+			// null does not match
+			continue
+		}
 		if cs.test != nil {
+			if testValue.Get() == nil {
+				continue
+			}
 			result, err := comparePrimitiveValues(testValue.Get(), when.Get())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 2a28b3f13d11dd0ca0d60c4aef4370b417163512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:02 +0000
Subject: [PATCH 50/73] fix: integers are rounded when they are compared with
 floats

---
 relationaleval.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 012a9eb..7baa68e 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -1,6 +1,27 @@
 package opencypher
 
-import ()
+import (
+	"math"
+)
+
+// compareIntFloat compares i with f without losing the precision of i
+func compareIntFloat(i int, f float64) int {
+	switch {
+	case f >= math.MaxInt64:
+		return -1
+	case f < math.MinInt64:
+		return 1
+	}
+	integer := int(f)
+	fraction := f - float64(integer)
+	switch {
+	case i < integer, i == integer && fraction > 0:
+		return -1
+	case i > integer, i == integer && fraction < 0:
+		return 1
+	}
+	return 0
+}
 
 func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	if v1 == nil {
@@ -35,24 +56,12 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			}
 			return 1, nil
 		case float64:
-			if float64(value1) == value2 {
-				return 0, nil
-			}
-			if float64(value1) < value2 {
-				return -1, nil
-			}
-			return 1, nil
+			return compareIntFloat(value1, value2), nil
 		}
 	case float64:
 		switch value2 := v2.(type) {
 		case int:
-			if value1 == float64(value2) {
-				return 0, nil
-			}
-			if value1 < float64(value2) {
-				return -1, nil
-			}
-			return 1, nil
+			return -compareIntFloat(value2, value1), nil
 		case float64:
 			if value1 == value2 {
 				return 0, nil
-- 
2.43.0


From a88c2c4e7853d8cfb6f6c83b55b9dc2f1c637a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 51/73] fix: matching a variable length relationship next to
 other relationships panics

---
 patterneval.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 6c56a0c..047d98e 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -106,8 +106,32 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 	if err != nil {
 		return nil, err
 	}
-	if err := pattern.Run(ctx.graph, symbols, &acc); err != nil {
-		return nil, err
+	variableLength := false
+	for i := 1; i < len(pattern); i += 2 {
+		if pattern[i].Max != 1 {
+			variableLength = true
+		}
+	}
+	if _, bound := symbols[pattern[0].Name]; bound || !variableLength || len(pattern) <= 3 {
+		if err := pattern.Run(ctx.graph, symbols, &acc); err != nil {
+			return nil, err
+		}
+		return acc.result, nil
+	}
+	// The search cannot go through a variable length relationship
+	// backwards if there are other relationships. Do not let it start
+	// from any other node than the first one
+	if len(pattern[0].Name) == 0 {
+		pattern[0].Name = "\x000"
+		acc.unnamed = append(acc.unnamed, pattern[0].Name)
+	}
+	for nodes := ctx.graph.GetNodes(); nodes.Next(); {
+		start := &lpg.PatternSymbol{}
+		start.AddNode(nodes.Node())
+		symbols[pattern[0].Name] = start
+		if err := pattern.Run(ctx.graph, symbols, &acc); err != nil {
+			return nil, err
+		}
 	}
 	return acc.result, nil
 }
-- 
2.43.0


From 94bfcf22090504b2a4bef66781570bebd3edd2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 52/73] fix: evaluating a shared query concurrently races on
 the values of constants

---
 arithmeticeval.go | 28 ++++++++++++++--------------
 ast.go            | 12 ++++++------
 literal.go        | 12 ++++++------
 value.go          | 16 ++++++++++++++++
 4 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 9be1364..5477fa1 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -6,8 +6,8 @@ import (
 )
 
 func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
+	if value := expr.constValue.get(); value != nil {
+		return value, nil
 	}
 
 	value, err := expr.expr.Evaluate(ctx)
@@ -32,14 +32,14 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 		return ret, ErrInvalidUnaryOperation
 	}
 	if ret.IsConst() {
-		expr.constValue = &ret
+		expr.constValue.set(&ret)
 	}
 	return ret, nil
 }
 
 func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
+	if value := expr.constValue.get(); value != nil {
+		return value, nil
 	}
 	val, err := expr.parts[0].Evaluate(ctx)
 	if err != nil {
@@ -80,7 +80,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		ret.Const = ret.Const && val.IsConst()
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue.set(&ret)
 	}
 	return ret, nil
 }
@@ -194,8 +194,8 @@ func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
 }
 
 func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
+	if value := expr.constValue.get(); value != nil {
+		return value, nil
 	}
 	if len(expr.parts) == 1 {
 		v, err := expr.parts[0].expr.Evaluate(ctx)
@@ -203,7 +203,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			return nil, err
 		}
 		if v.IsConst() {
-			expr.constValue = v
+			expr.constValue.set(v)
 		}
 		return v, err
 	}
@@ -269,7 +269,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 		return nil, err
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue.set(&ret)
 	}
 	return ret, nil
 }
@@ -381,8 +381,8 @@ func addlistlist(a, b []Value) RValue {
 }
 
 func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
+	if value := expr.constValue.get(); value != nil {
+		return value, nil
 	}
 	if len(expr.add) == 1 && len(expr.sub) == 0 {
 		ret, err := expr.add[0].Evaluate(ctx)
@@ -390,7 +390,7 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 		if ret.IsConst() {
-			expr.constValue = ret
+			expr.constValue.set(ret)
 		}
 		return ret, nil
 	}
@@ -507,7 +507,7 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue.set(&ret)
 	}
 	return ret, nil
 }
diff --git a/ast.go b/ast.go
index 7d1f261..f1e562b 100644
--- a/ast.go
+++ b/ast.go
@@ -128,13 +128,13 @@ type addOrSubtractExpression struct {
 	// element of sub
 	order []bool
 
-	constValue Value
+	constValue constCache
 }
 
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
 
-	constValue Value
+	constValue constCache
 }
 
 type multiplyDivideModuloExpressionPart struct {
@@ -146,14 +146,14 @@ type multiplyDivideModuloExpressionPart struct {
 type powerOfExpression struct {
 	parts []Evaluatable
 
-	constValue Value
+	constValue constCache
 }
 
 type unaryAddOrSubtractExpression struct {
 	neg  bool
 	expr stringListNullOperatorExpression
 
-	constValue Value
+	constValue constCache
 }
 
 type stringListNullOperatorExpression struct {
@@ -376,13 +376,13 @@ type rangeLiteral struct {
 type listLiteral struct {
 	values []Expression
 
-	constValue Value
+	constValue constCache
 }
 
 type mapLiteral struct {
 	keyValues []mapKeyValue
 
-	constValue Value
+	constValue constCache
 }
 
 type mapKeyValue struct {
diff --git a/literal.go b/literal.go
index 4a42c49..31aa0be 100644
--- a/literal.go
+++ b/literal.go
@@ -40,8 +40,8 @@ func (literal nullLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (lst *listLiteral) Evaluate(ctx *EvalContext) (Value, error) {
-	if lst.constValue != nil {
-		return lst.constValue, nil
+	if value := lst.constValue.get(); value != nil {
+		return value, nil
 	}
 	ret := make([]Value, 0, len(lst.values))
 	var val RValue
@@ -59,14 +59,14 @@ func (lst *listLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	val.Value = ret
 	if val.IsConst() {
-		lst.constValue = val
+		lst.constValue.set(val)
 	}
 	return val, nil
 }
 
 func (mp *mapLiteral) Evaluate(ctx *EvalContext) (Value, error) {
-	if mp.constValue != nil {
-		return mp.constValue, nil
+	if value := mp.constValue.get(); value != nil {
+		return value, nil
 	}
 	var val RValue
 	ret := make(map[string]Value)
@@ -88,7 +88,7 @@ func (mp *mapLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	val.Value = ret
 	if val.IsConst() {
-		mp.constValue = val
+		mp.constValue.set(val)
 	}
 	return val, nil
 }
diff --git a/value.go b/value.go
index e8fb616..d6a5f70 100644
--- a/value.go
+++ b/value.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"fmt"
 	"strings"
+	"sync/atomic"
 
 	"github.com/cloudprivacylabs/lpg/v2"
 )
@@ -71,6 +72,21 @@ func (v RValue) Get() interface{}                     { return v.Value }
 func (v RValue) IsConst() bool                        { return v.Const }
 func (v RValue) Evaluate(*EvalContext) (Value, error) { return v, nil }
 
+// constCache keeps the value of a constant expression. The same
+// expression can be evaluated by many goroutines at the same time
+type constCache struct {
+	value atomic.Pointer[Value]
+}
+
+func (c *constCache) get() Value {
+	if v := c.value.Load(); v != nil {
+		return *v
+	}
+	return nil
+}
+
+func (c *constCache) set(v Value) { c.value.Store(&v) }
+
 // IsValuePrimitive returns true if the value is int, float64, bool,
 // string, duration, date, datetime, localDateTime, or localTime
 func IsValuePrimitive(v Value) bool {
-- 
2.43.0


From cc62e220b9023bcd1444df5b58304ee4bc1c00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:26 +0000
Subject: [PATCH 53/73] fix: RETURN * does not return what a preceding CREATE
 created

---
 update.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/update.go b/update.go
index fc5b6c6..a16f228 100644
--- a/update.go
+++ b/update.go
@@ -222,7 +222,14 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 	}
-	return nil, nil
+	// The created elements are the variables of the only row
+	row := make(map[string]Value)
+	for k, v := range ctx.GetVarsNearestScope() {
+		row[k] = v
+	}
+	results := *NewResultSet()
+	results.Append(row)
+	return RValue{Value: results}, nil
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-- 
2.43.0


From 3f3feea6a36035a27c3c33e1f59fbe6e500464c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:19 +0000
Subject: [PATCH 54/73] fix: date() gives the day before if clocks change at
 its midnight

---
 datefuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datefuncs.go b/datefuncs.go
index 971e7f0..e2305e0 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -82,7 +82,7 @@ func dateFunc(ctx *EvalContext, args []Value) (Value, error) {
 					month = time.Month(m)
 				}
 
-				t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+				t := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
 				return RValue{Value: NewDate(t)}, nil
 			}
 		}
-- 
2.43.0


From 37f99d8bde625c90938cbf3a49abb31b49f27e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 55/73] fix: path of a variable length relationship is reversed
 if the search starts from its end

---
 patterneval.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 047d98e..fb3b8c8 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -112,15 +112,16 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 			variableLength = true
 		}
 	}
-	if _, bound := symbols[pattern[0].Name]; bound || !variableLength || len(pattern) <= 3 {
+	if _, bound := symbols[pattern[0].Name]; bound || !variableLength || (len(pattern) <= 3 && len(pattern[1].Name) == 0) {
 		if err := pattern.Run(ctx.graph, symbols, &acc); err != nil {
 			return nil, err
 		}
 		return acc.result, nil
 	}
 	// The search cannot go through a variable length relationship
-	// backwards if there are other relationships. Do not let it start
-	// from any other node than the first one
+	// backwards if there are other relationships, and the path it finds
+	// backwards is in the reverse order. Do not let it start from any
+	// other node than the first one
 	if len(pattern[0].Name) == 0 {
 		pattern[0].Name = "\x000"
 		acc.unnamed = append(acc.unnamed, pattern[0].Name)
-- 
2.43.0


From 5ff4d50e389f48aa80f6fc9abe0a0be53b75529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 56/73] fix: SKIP and LIMIT are always zero

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index d6a5f70..94cafdb 100644
--- a/value.go
+++ b/value.go
@@ -280,7 +280,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -293,7 +293,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From cb4dd726f981b02808e802bc1bdd740ab327085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 57/73] fix: deleting, connecting or changing an element that
 was deleted already corrupts the graph

---
 ctx.go         | 27 +++++++++++++++++++++++++++
 eval.go        |  7 +++++++
 patterneval.go |  3 +++
 update.go      | 26 +++++++++++++++++++++++---
 4 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/ctx.go b/ctx.go
index 98bcfb5..377c346 100644
--- a/ctx.go
+++ b/ctx.go
@@ -19,6 +19,9 @@ type EvalContext struct {
 	variables  map[string]Value
 	parameters map[string]Value
 	graph      *lpg.Graph
+	// The nodes and edges deleted using this context, its parents, or its
+	// subcontexts
+	deleted map[interface{}]struct{}
 
 	// If this function is non-nil, it will be called to filter property
 	// values when setting properties of nodes or edges
@@ -31,6 +34,7 @@ func NewEvalContext(graph *lpg.Graph) *EvalContext {
 		variables:  make(map[string]Value),
 		parameters: make(map[string]Value),
 		graph:      graph,
+		deleted:    make(map[interface{}]struct{}),
 	}
 }
 
@@ -42,10 +46,33 @@ func (ctx *EvalContext) SubContext() *EvalContext {
 		variables:                     make(map[string]Value),
 		parameters:                    make(map[string]Value),
 		graph:                         ctx.graph,
+		deleted:                       ctx.deleted,
 		PropertyValueFromNativeFilter: ctx.PropertyValueFromNativeFilter,
 	}
 }
 
+// isDeleted returns true if the value is a node that was deleted, or a
+// path with an edge that was deleted
+func (ctx *EvalContext) isDeleted(value interface{}) bool {
+	if len(ctx.deleted) == 0 {
+		return false
+	}
+	if path, ok := value.(*lpg.Path); ok {
+		for i := 0; i < path.NumEdges(); i++ {
+			if _, deleted := ctx.deleted[path.GetEdge(i)]; deleted {
+				return true
+			}
+		}
+		return false
+	}
+	node, ok := value.(*lpg.Node)
+	if !ok {
+		return false
+	}
+	_, deleted := ctx.deleted[node]
+	return deleted
+}
+
 // PropertyValueFromNative calls the ctx.PropertyValueFromNativeFilter
 // to give the caller a chance to change property values
 func (ctx *EvalContext) PropertyValueFromNative(key string, value interface{}) interface{} {
diff --git a/eval.go b/eval.go
index 15129ad..1e221a2 100644
--- a/eval.go
+++ b/eval.go
@@ -40,6 +40,7 @@ var (
 	ErrPropertiesParameterExpected    = errors.New("Parameter value cannot be used for properties")
 	ErrPropertiesExpected             = errors.New("Value cannot be used for properties")
 	ErrNotAnLValue                    = errors.New("Not and lvalue")
+	ErrDeleted                        = errors.New("Deleted node or relationship")
 )
 
 type ErrValueDoesNotHaveProperties struct {
@@ -669,6 +670,12 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		value := val.Get()
 		switch parent := value.(type) {
 		case *lpg.Node:
+			if ctx.isDeleted(parent) {
+				// Cannot set it
+				v, _ := parent.GetProperty(prop)
+				val = RValue{Value: v}
+				continue
+			}
 			val = LValue{
 				getter: func() interface{} {
 					v, _ := parent.GetProperty(prop)
diff --git a/patterneval.go b/patterneval.go
index fb3b8c8..e9745d9 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -78,6 +78,9 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 	}
 	for symbol := range pattern.GetSymbolNames().M {
 		if value, err := ctx.GetVar(symbol); err == nil {
+			if ctx.isDeleted(value.Get()) {
+				return acc.result, nil
+			}
 			acc.bound[symbol] = value.Get()
 		}
 	}
diff --git a/update.go b/update.go
index a16f228..a122d59 100644
--- a/update.go
+++ b/update.go
@@ -69,6 +69,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 		}
 		return sourceProps, nil
 	}
+	if ctx.isDeleted(lvalue.Get()) {
+		return ErrDeleted
+	}
 	switch s.op {
 	case "=":
 		switch v := lvalue.Get().(type) {
@@ -146,11 +149,16 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				nodes.Add(item)
+				// An earlier clause or query may have deleted it
+				if !ctx.isDeleted(item) {
+					nodes.Add(item)
+				}
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					edges[item.GetEdge(i)] = struct{}{}
+					if _, deleted := ctx.deleted[item.GetEdge(i)]; !deleted {
+						edges[item.GetEdge(i)] = struct{}{}
+					}
 				}
 			}
 		}
@@ -167,9 +175,15 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 	}
 	for edge := range edges {
 		edge.Remove()
+		ctx.deleted[edge] = struct{}{}
 	}
 	for itr := nodes.Iterator(); itr.Next(); {
-		itr.Node().DetachAndRemove()
+		node := itr.Node()
+		for edgeItr := node.GetEdges(lpg.AnyEdge); edgeItr.Next(); {
+			ctx.deleted[edgeItr.Edge()] = struct{}{}
+		}
+		node.DetachAndRemove()
+		ctx.deleted[node] = struct{}{}
 	}
 	return RValue{Value: result}, nil
 }
@@ -206,6 +220,9 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 			if !ok {
 				return nil, fmt.Errorf("Expecting a node in remove statement")
 			}
+			if ctx.isDeleted(node) {
+				return nil, ErrDeleted
+			}
 			labels := node.GetLabels()
 			for _, l := range item.nodeLabels {
 				labels.Remove(l.String())
@@ -273,6 +290,9 @@ func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("Not a node: %s", varName)
 		}
+		if ctx.isDeleted(node) {
+			return "", nil, ErrDeleted
+		}
 		return varName, node, nil
 	}
 	node, err := np.createNode(ctx)
-- 
2.43.0


From fc3cff5e8f474c498da723bd97d979a252fa4c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 58/73] fix: IsValueSame is false for a list of relationships
 or a path element and itself

---
 value.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/value.go b/value.go
index 94cafdb..f2ce7dc 100644
--- a/value.go
+++ b/value.go
@@ -253,6 +253,22 @@ func IsValueSame(v, v2 Value) bool {
 	case *lpg.Edge:
 		val2, ok := v2.Get().(*lpg.Edge)
 		return ok && val1 == val2
+
+	case []*lpg.Edge:
+		val2, ok := v2.Get().([]*lpg.Edge)
+		if !ok || len(val1) != len(val2) {
+			return false
+		}
+		for i := range val1 {
+			if val1[i] != val2[i] {
+				return false
+			}
+		}
+		return true
+
+	case lpg.PathElement:
+		val2, ok := v2.Get().(lpg.PathElement)
+		return ok && val1 == val2
 	}
 	return false
 }
-- 
2.43.0


From c79a40998f7383f2b5d1bf2fd6b408e293d9780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:24 +0000
Subject: [PATCH 59/73] fix: ParsePatternExpr panics if the pattern is followed
 by a space

---
 lang.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lang.go b/lang.go
index 03f535c..a218ea9 100644
--- a/lang.go
+++ b/lang.go
@@ -102,9 +102,12 @@ func ParsePatternExpr(expr string) (out PatternPart, err error) {
 	errListener := errorListener{}
 	errListener.listenErrors(pr)
 	c := pr.OC_PatternPart()
+	if errListener.err != nil {
+		return PatternPart{}, errListener.err
+	}
 	// There must be nothing but spaces after the pattern
 	for pr.GetTokenStream().LA(1) == parser.CypherParserSP {
-		pr.Consume()
+		pr.GetTokenStream().Consume()
 	}
 	if token := pr.GetCurrentToken(); token.GetTokenType() != antlr.TokenEOF {
 		pr.NotifyErrorListeners(fmt.Sprintf("unexpected input '%s'", token.GetText()), token, nil)
-- 
2.43.0


From 8ee034fd4a5216f38441a33541a60f1feee504fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 60/73] fix: matching a null property panics if the property
 has an index

---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index e9745d9..ac5cec9 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -89,7 +89,7 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 		properties := make(map[string]interface{})
 		for key, value := range pattern[i].Properties {
 			switch value.(type) {
-			case bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
+			case nil, bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
 			default:
 				properties[key] = value
 				continue
-- 
2.43.0


From 24df41a922de14e64a5b8c87cd26c7f722dbc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 61/73] fix: variables of a MERGE that creates its pattern are
 not set in the context

---
 update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/update.go b/update.go
index a122d59..9e5e35e 100644
--- a/update.go
+++ b/update.go
@@ -521,5 +521,8 @@ func (m merge) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 		}
 		results.Append(newRow)
 	}
+	if len(results.Rows) > 0 {
+		ctx.SetVars(results.Rows[len(results.Rows)-1])
+	}
 	return RValue{Value: results}, nil
 }
-- 
2.43.0


From 841ea1b7e5121c79725a93c1f22e75e4c69212d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:35 +0000
Subject: [PATCH 62/73] fix: property of an empty list of relationships is an
 error, not a panic

---
 eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 1e221a2..5e1d388 100644
--- a/eval.go
+++ b/eval.go
@@ -283,7 +283,7 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					ok = true
 				}
 			}
-			if edges, k := val.Value.([]*lpg.Edge); k {
+			if edges, k := val.Value.([]*lpg.Edge); k && len(edges) > 0 {
 				wp = edges[0]
 				ok = true
 			}
-- 
2.43.0


From 1c609fadf334cdfbd6368f55f0a39543d7881541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:13 +0000
Subject: [PATCH 63/73] fix: setting an entry of a map property does not change
 other nodes and parameters with the same map

---
 eval.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 5e1d388..602533d 100644
--- a/eval.go
+++ b/eval.go
@@ -690,6 +690,7 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				},
 			}
 		case map[string]Value:
+			container, isProperty := val, i > 0
 			val = LValue{
 				getter: func() interface{} {
 					v := parent[prop]
@@ -699,10 +700,21 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					return v.Get()
 				},
 				setter: func(v interface{}) {
+					target := parent
+					if isProperty {
+						// Other nodes and parameters may have the same map
+						target = make(map[string]Value, len(parent))
+						for key, value := range parent {
+							target[key] = value
+						}
+					}
 					if v == nil {
-						delete(parent, prop)
+						delete(target, prop)
 					} else {
-						parent[prop] = ValueOf(v)
+						target[prop] = ValueOf(v)
+					}
+					if property, ok := container.(LValue); ok && isProperty {
+						property.Set(target)
 					}
 				},
 			}
-- 
2.43.0


From 2b9fa34a3d08256bf65ffbdd509799be4ada5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 64/73] fix: error messages do not print values, a node that
 contains itself overflows the stack

---
 eval.go        | 2 +-
 scalarfuncs.go | 4 ++--
 stringfuncs.go | 2 +-
 update.go      | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index 602533d..4325651 100644
--- a/eval.go
+++ b/eval.go
@@ -49,7 +49,7 @@ type ErrValueDoesNotHaveProperties struct {
 }
 
 func (e ErrValueDoesNotHaveProperties) Error() string {
-	return fmt.Sprintf("Value does not have properties: %v property: %s", e.Value, e.Property)
+	return fmt.Sprintf("Value does not have properties: %T property: %s", e.Value, e.Property)
 }
 
 type ErrInvalidIndirection string
diff --git a/scalarfuncs.go b/scalarfuncs.go
index f902077..1f90967 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -82,7 +82,7 @@ func toIntegerFunc(ctx *EvalContext, args []Value) (Value, error) {
 		}
 		return RValue{Value: 0}, nil
 	}
-	return nil, fmt.Errorf("Invalid integer value: %v", v)
+	return nil, fmt.Errorf("Invalid integer value: %T", v)
 }
 
 func toFloatOrNullFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -123,5 +123,5 @@ func toFloatFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if f, ok := v.(float64); ok {
 		return RValue{Value: f}, nil
 	}
-	return RValue{}, fmt.Errorf("Invalid float value: %v", v)
+	return RValue{}, fmt.Errorf("Invalid float value: %T", v)
 }
diff --git a/stringfuncs.go b/stringfuncs.go
index 434c83e..8b88f02 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -141,7 +141,7 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	}
 	str, err := ValueAsString(args[0])
 	if err != nil {
-		return nil, fmt.Errorf("In left: %w, %v", err, args[0])
+		return nil, fmt.Errorf("In left: %w", err)
 	}
 	s := []rune(str)
 	i, err := ValueAsInt(args[1])
diff --git a/update.go b/update.go
index 9e5e35e..12644fd 100644
--- a/update.go
+++ b/update.go
@@ -65,7 +65,7 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				sourceProps[k] = v.Get()
 			}
 		} else {
-			return nil, ErrInvalidAssignment(fmt.Sprint(exprValue))
+			return nil, ErrInvalidAssignment(fmt.Sprintf("%T", exprValue))
 		}
 		return sourceProps, nil
 	}
@@ -95,7 +95,7 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
-			return ErrInvalidAssignment(fmt.Sprintf("%T: %v", v, v))
+			return ErrInvalidAssignment(fmt.Sprintf("%T", v))
 		}
 	case "+=":
 		sourceProps, err := getSourceProps()
@@ -104,7 +104,7 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 		}
 		node, ok := lvalue.Get().(*lpg.Node)
 		if !ok {
-			return ErrInvalidAssignment(fmt.Sprintf("%T: %v", lvalue.Get(), lvalue.Get()))
+			return ErrInvalidAssignment(fmt.Sprintf("%T", lvalue.Get()))
 		}
 		for k, v := range sourceProps {
 			if v == nil {
-- 
2.43.0


From 4576a47bb8ccda2f33983377ce36d9528aed2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 65/73] fix: reading a property whose value is a result set or
 a relationship panics

---
 value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value.go b/value.go
index f2ce7dc..f85f9f2 100644
--- a/value.go
+++ b/value.go
@@ -146,6 +146,8 @@ func ValueOf(in interface{}) Value {
 		return RValue{Value: v}
 	case *lpg.Node:
 		return RValue{Value: v}
+	case *lpg.Edge:
+		return RValue{Value: v}
 	case []*lpg.Edge:
 		return RValue{Value: v}
 	case []Value:
@@ -158,6 +160,8 @@ func ValueOf(in interface{}) Value {
 		return RValue{Value: v}
 	case *lpg.Path:
 		return RValue{Value: v}
+	case ResultSet:
+		return RValue{Value: v}
 	}
 	panic(fmt.Sprintf("Invalid value: %v %T", in, in))
 }
-- 
2.43.0


From 5ce35cdfd338a0ecedd7b5a74231d71cd8e10c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:12 +0000
Subject: [PATCH 66/73] fix: DELETE of a value that is not a node or
 relationship is an error

---
 update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/update.go b/update.go
index 12644fd..15de2c0 100644
--- a/update.go
+++ b/update.go
@@ -160,6 +160,9 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 						edges[item.GetEdge(i)] = struct{}{}
 					}
 				}
+
+			default:
+				return nil, fmt.Errorf("Cannot delete %T", item)
 			}
 		}
 	}
-- 
2.43.0


From 719ed92fb2c27c0ab12707c2aeff125729590eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 67/73] fix: SET of an entry of a map to a value with the same
 map makes a cycle, setting an entry of a nil map panics

---
 eval.go  |  5 +++--
 value.go | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 4325651..8fceee6 100644
--- a/eval.go
+++ b/eval.go
@@ -701,7 +701,7 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				},
 				setter: func(v interface{}) {
 					target := parent
-					if isProperty {
+					if isProperty || parent == nil {
 						// Other nodes and parameters may have the same map
 						target = make(map[string]Value, len(parent))
 						for key, value := range parent {
@@ -711,7 +711,8 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					if v == nil {
 						delete(target, prop)
 					} else {
-						target[prop] = ValueOf(v)
+						// A map cannot contain itself
+						target[prop] = ValueOf(copyValue(v))
 					}
 					if property, ok := container.(LValue); ok && isProperty {
 						property.Set(target)
diff --git a/value.go b/value.go
index f85f9f2..5e9046c 100644
--- a/value.go
+++ b/value.go
@@ -166,6 +166,26 @@ func ValueOf(in interface{}) Value {
 	panic(fmt.Sprintf("Invalid value: %v %T", in, in))
 }
 
+// copyValue returns a copy of a list or a map, including the lists and
+// maps it contains. Other values are returned unchanged
+func copyValue(in interface{}) interface{} {
+	switch v := in.(type) {
+	case []Value:
+		list := make([]Value, 0, len(v))
+		for _, item := range v {
+			list = append(list, RValue{Value: copyValue(item.Get())})
+		}
+		return list
+	case map[string]Value:
+		mp := make(map[string]Value, len(v))
+		for key, item := range v {
+			mp[key] = RValue{Value: copyValue(item.Get())}
+		}
+		return mp
+	}
+	return in
+}
+
 // IsValueSame compares two values and decides if the two are the same
 func IsValueSame(v, v2 Value) bool {
 	if v.Get() == nil || v2.Get() == nil {
-- 
2.43.0


From 9a986715a051a978134fc2c2f67ed179e6e6b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 68/73] fix: an even number of NOTs or minus signs accepts
 operands of any type

---
 arithmeticeval.go | 22 ++++++++++++----------
 ast.go            | 18 +++++++++++++-----
 relationaleval.go |  2 +-
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 5477fa1..ac53d23 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -14,21 +14,23 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 	if err != nil {
 		return nil, err
 	}
-	// If the value is  an lvalue, preserve lvalue status
-	if !expr.neg {
-		return value, nil
-	}
-	// From now on, it is an rvalue
 	ret := RValue{Const: value.IsConst()}
 	val := value.Get()
 	if val == nil {
 		return ret, nil
 	}
-	if intValue, ok := val.(int); ok {
-		ret.Value = -intValue
-	} else if floatValue, ok := val.(float64); ok {
-		ret.Value = -floatValue
-	} else {
+	switch operand := val.(type) {
+	case int:
+		if expr.neg {
+			operand = -operand
+		}
+		ret.Value = operand
+	case float64:
+		if expr.neg {
+			operand = -operand
+		}
+		ret.Value = operand
+	default:
 		return ret, ErrInvalidUnaryOperation
 	}
 	if ret.IsConst() {
diff --git a/ast.go b/ast.go
index f1e562b..d3606b6 100644
--- a/ast.go
+++ b/ast.go
@@ -109,7 +109,9 @@ type andExpression struct {
 }
 
 type notExpression struct {
-	part Expression
+	// twice is set if there is an even number of NOTs
+	twice bool
+	part  Expression
 }
 type comparisonExpression struct {
 	first  Expression
@@ -640,9 +642,10 @@ func oC_AndExpression(ctx *parser.OC_AndExpressionContext) Expression {
 }
 
 func oC_NotExpression(ctx *parser.OC_NotExpressionContext) Expression {
-	if len(ctx.AllNOT())%2 == 1 {
+	if n := len(ctx.AllNOT()); n > 0 {
 		return notExpression{
-			part: oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext)),
+			twice: n%2 == 0,
+			part:  oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext)),
 		}
 	}
 	return oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
@@ -742,17 +745,22 @@ func oC_PowerOfExpression(ctx *parser.OC_PowerOfExpressionContext) Evaluatable {
 
 func oC_UnaryAddOrSubtractExpression(ctx *parser.OC_UnaryAddOrSubtractExpressionContext) Evaluatable {
 	ret := unaryAddOrSubtractExpression{}
+	hasSign := false
 	for child := 0; child < ctx.GetChildCount(); child++ {
 		ch := ctx.GetChild(child)
 		if tok, ok := ch.(antlr.TerminalNode); ok {
-			if tok.GetText() == "-" {
+			switch tok.GetText() {
+			case "-":
 				ret.neg = !ret.neg
+				hasSign = true
+			case "+":
+				hasSign = true
 			}
 		} else if expr, ok := ch.(*parser.OC_StringListNullOperatorExpressionContext); ok {
 			ret.expr = oC_StringListNullOperatorExpression(expr)
 		}
 	}
-	if !ret.neg {
+	if !hasSign {
 		return ret.expr
 	}
 	return &ret
diff --git a/relationaleval.go b/relationaleval.go
index 7baa68e..29061f0 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -200,7 +200,7 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if !ok {
 		return nil, ErrNotABooleanExpression
 	}
-	return RValue{Value: !value, Const: val.IsConst()}, nil
+	return RValue{Value: value == expr.twice, Const: val.IsConst()}, nil
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From 0686d1954dc625edcd7939c19174c9815d4535ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 69/73] fix: the text of a duration with negative nanoseconds
 is not a duration

---
 duration.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duration.go b/duration.go
index 4b5a29e..360649c 100644
--- a/duration.go
+++ b/duration.go
@@ -14,6 +14,13 @@ type Duration struct {
 }
 
 func (d Duration) String() string {
+	// The arithmetic of durations works component by component
+	d.Seconds += int64(d.Nanos / int(time.Second))
+	d.Nanos %= int(time.Second)
+	if d.Nanos < 0 {
+		d.Seconds--
+		d.Nanos += int(time.Second)
+	}
 	sign := ""
 	if d.Seconds < 0 && d.Nanos > 0 {
 		d.Seconds++
-- 
2.43.0


From d44acdc01de5821b61e0e443aafc02fee037ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 70/73] fix: an integer in a pattern does not match a property
 with the equal float

{p: 1.0} matched a property of value 1, but {p: 1} did not match 1.0,
because integers were left to the graph library, which compares an
integer with integers only.
---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index ac5cec9..497aeac 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -89,7 +89,7 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 		properties := make(map[string]interface{})
 		for key, value := range pattern[i].Properties {
 			switch value.(type) {
-			case nil, bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
+			case nil, bool, int, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
 			default:
 				properties[key] = value
 				continue
-- 
2.43.0


From 5aa4d353489f1d65ddcde58a2dbe5781120a2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 71/73] fix: a relationship written with two arrows matches
 only one direction

(a)<-->(b) means a relationship of either direction, like (a)--(b). It
matched only the incoming ones.
---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 497aeac..2d70908 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -383,7 +383,7 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 		// which one of its nodes comes first
 		ret.Min = -1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
-- 
2.43.0


From 10d9985649fce7b332ef8b0527f3074465dabb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 72/73] fix: a pattern does not match numeric properties that
 are not int or float64

Reading a property converts int8, int64, float32 and the other numeric
types, so n.p = 1 was true for them, but {p: 1} did not match.
---
 patterneval.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 2d70908..659ddcc 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -183,6 +183,10 @@ func hasProperties(item lpg.WithProperties, properties map[string]interface{}) b
 		if n, ok := property.(lpg.WithNativeValue); ok {
 			property = n.GetNativeValue()
 		}
+		switch property.(type) {
+		case int8, int16, int32, int64, uint8, uint16, uint32, float32:
+			property = ValueOf(property).Get()
+		}
 		if !IsValueSame(RValue{Value: property}, RValue{Value: value}) {
 			return false
 		}
-- 
2.43.0


From 0332c5f0b2a412638c0e2c65c1c6982554c5611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:35 +0000
Subject: [PATCH 73/73] fix: a map in a pattern does not match the equal
 property

n.p = {k: 1} is true for a property with that map, but {p: {k: 1}} did
not match it, because the graph library cannot compare maps.
---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 659ddcc..cdfc445 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -89,7 +89,7 @@ func runPattern(ctx *EvalContext, pattern lpg.Pattern) (*ResultSet, error) {
 		properties := make(map[string]interface{})
 		for key, value := range pattern[i].Properties {
 			switch value.(type) {
-			case nil, bool, int, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
+			case nil, bool, int, float64, Duration, Date, LocalDateTime, LocalTime, []Value, map[string]Value:
 			default:
 				properties[key] = value
 				continue
-- 
2.43.0


From db58f9a9ecf344df708ba63879040eefdf7f4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 01/97] fix: constant binary expressions evaluate their right
 operand

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f566ff..9763fa3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -79,7 +79,7 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		return c.compileIdentifier(expr).(constant.Constant)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
-		right := c.compileConstantExpression(expr.Left)
+		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
-- 
2.43.0


From 01a350ca363d17c0dd694fbca37668afd214f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 02/97] fix: statements after nested logical operators are no
 longer dropped

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2fd942..7604f47 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -327,7 +327,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 		c.doNotAllocate = false
 	}()
 
-	if c.currentFunction != nil && len(c.currentFunction.Blocks) > 0 && c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1].Term != nil {
+	if c.currentFunction != nil && len(c.blocks) > 0 && c.block().Term != nil {
 		return
 	}
 
@@ -608,7 +608,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.Compile(statement)
 	}
 
-	lastBlock := c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1]
+	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
 		if funk.GetFunctionType().IsMainFunction() {
-- 
2.43.0


From 56a448369a732307cfe01588dc1ba2a61490ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 03/97] fix: for update statements may create new basic blocks

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 7604f47..433e5db 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -724,7 +724,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue
 
 	// compile update statement
-	c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
+	lastUpdateBlock := c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
 
 	// jump to the update statement
 	if possibleNewBlock.Term == nil {
@@ -732,7 +732,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	}
 
 	// go to the condition again
-	update.NewBr(condition)
+	lastUpdateBlock.NewBr(condition)
 
 	// Compile condition block
 	c.pushBlock(condition)
-- 
2.43.0


From 9f779c14e04ae12be3ed9571629a0df082cc6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 04/97] fix: return leaves its own block expression, nested
 ones included

---
 internals/compiler/compiler.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 433e5db..5749493 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -53,6 +53,7 @@ type Compiler struct {
 	currentBreakLeaveBlock              *ir.Block
 	currentContinueEscapeBlock          *ir.Block
 	currentValueToReturnBlockExpression value.Value
+	currentBlockExpressionLeaveBlock    *ir.Block
 	context                             *semantic.Semantic
 	modules                             map[string]*Compiler
 	compiledModules                     map[string]*Compiler
@@ -534,6 +535,7 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 			toReturnLoaded,
 			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
 		)
+		c.block().NewBr(c.currentBlockExpressionLeaveBlock)
 		return
 	}
 
@@ -603,6 +605,10 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	prevFunction := c.currentFunction
 	c.currentFunction = llvmFunction
 
+	// A return inside this function never belongs to a block expression that surrounds it
+	prevValue, prevLeave := c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock = nil, nil
+
 	// Compile block
 	for _, statement := range funk.GetBlock().Statements {
 		c.Compile(statement)
@@ -627,6 +633,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Pop block, stack and restore current function
 	c.popBlock()
 	c.currentFunction = prevFunction
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock = prevValue, prevLeave
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
@@ -1221,11 +1228,17 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
 	alloca := c.block().NewAlloca(t)
-	c.currentValueToReturnBlockExpression = alloca
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock
 	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(5))
+	leaveBlock := c.currentFunction.NewBlock("leave-block-expression-" + random.RandomString(5))
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock = alloca, leaveBlock
 	c.block().NewBr(newBlock)
-	c.blocks[len(c.blocks)-1] = c.compileBlock(block.Block, newBlock)
-	c.currentValueToReturnBlockExpression = nil
+	lastBlock := c.compileBlock(block.Block, newBlock)
+	if lastBlock.Term == nil {
+		lastBlock.NewBr(leaveBlock)
+	}
+	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock = previousValue, previousLeave
+	c.blocks[len(c.blocks)-1] = leaveBlock
 	return alloca
 }
 
-- 
2.43.0


From 9a99b98e9b218ff94723dadd9bd5f8b22bf0254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 05/97] fix: widening casts of booleans and unsigned integers
 zero-extend

---
 internals/compiler/compiler.go             |  6 +++---
 internals/compiler/compiler_constant.go    |  4 ++--
 internals/compiler/compiler_conversions.go | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 5749493..8adc983 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -187,7 +187,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		toReturnType := c.ToLLVMType(typeParameter)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, length, call.Parameters[1].GetType())
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -231,7 +231,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		typeParameter := call.TypeParameters[0]
 		toReturnType := types.NewPointer(c.ToLLVMType(typeParameter))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, length, call.Parameters[0].GetType())
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -1648,7 +1648,7 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		if ctypes.IsFloat(call.TypeParameters[0]) != ctypes.IsFloat(call.Parameters[0].GetType()) {
 			return c.handleFloatIntCast(call.TypeParameters[0], call.Parameters[0].GetType(), variable, toReturnType)
 		}
-		return c.handleNumericBitCast(toReturnType, variable)
+		return c.handleNumericBitCast(toReturnType, variable, call.Parameters[0].GetType())
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 9763fa3..08cf86a 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -22,7 +22,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 			}
 
 			if integerType.BitSize < to.BitSize {
-				if val.Type() == types.I1 {
+				if integerType.BitSize == 1 || ctypes.IsUnsignedInteger(originalType) {
 					// SExt extends the bit sign of the val, i1 can be considered as a sign, so
 					// it will be extended accross all the bits, for example if you cast
 					// i1 '1' to i8, you will get 111...1110, which is -1.
@@ -36,7 +36,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 		}
 
 		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(originalType) {
+			if ctypes.IsUnsignedInteger(expr.GetType()) {
 				return constant.NewFPToUI(val, to)
 			}
 
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 92fcf53..75495eb 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -22,8 +22,8 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	panic("")
 }
 
-// handleIntegerCast tries to pass variable type to toReturnType
-func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value) value.Value {
+// handleIntegerCast tries to pass variable type to toReturnType, originalType is the candice type of the variable
+func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value, originalType ctypes.Type) value.Value {
 	variableType := variable.Type().(*types.IntType)
 	if variableType.BitSize > toReturnType.BitSize {
 		return c.block().NewTrunc(variable, toReturnType)
@@ -32,7 +32,7 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return variable
 	}
 
-	if variable.Type() == types.I1 {
+	if variableType.BitSize == 1 || ctypes.IsUnsignedInteger(originalType) {
 		// SExt extends the bit sign of the variable, i1 can be considered as a sign, so
 		// it will be extended accross all the bits, for example if you cast
 		// i1 '1' to i8, you will get 111...1110, which is -1.
@@ -45,10 +45,10 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 // performs a cast bitsize, if first parameter is a float the second param should be a float as well
 // if you call this function and toReturnType is not
 // a float or an integer the program will probably panic
-func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value) value.Value {
+func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value, originalType ctypes.Type) value.Value {
 	integerType, isInteger := toReturnType.(*types.IntType)
 	if isInteger {
-		return c.handleIntegerCast(integerType, variable)
+		return c.handleIntegerCast(integerType, variable, originalType)
 	}
 	return c.handleFloatCast(toReturnType.(*types.FloatType), variable)
 }
-- 
2.43.0


From d732d24318c1032065c803bc6372ee95d8ccae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 06/97] fix: fold constant expressions that LLVM rejects as
 constants

---
 internals/compiler/compiler_constant.go      |  21 ++++
 internals/compiler/compiler_constant_fold.go | 124 +++++++++++++++++++
 2 files changed, 145 insertions(+)
 create mode 100644 internals/compiler/compiler_constant_fold.go

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 08cf86a..b700be6 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -14,6 +14,10 @@ func (c *Compiler) something() {
 }
 
 func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes.Type, to types.Type, expr ast.Expression) constant.Constant {
+	if folded := foldCast(val, ctypes.IsUnsignedInteger(originalType), to); folded != nil {
+		return folded
+	}
+
 	if types.IsInt(to) {
 		to := to.(*types.IntType)
 		if integerType, ok := val.Type().(*types.IntType); ok {
@@ -106,6 +110,23 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 }
 
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
+	if firstInteger, ok := first.(*constant.Int); ok {
+		if secondInteger, ok := second.(*constant.Int); ok {
+			_, isUnsigned := expr.Type.(*ctypes.UInteger)
+			if folded := foldIntegers(op, firstInteger, secondInteger, isUnsigned); folded != nil {
+				return folded
+			}
+		}
+	}
+
+	if firstFloat, ok := first.(*constant.Float); ok {
+		if secondFloat, ok := second.(*constant.Float); ok && !firstFloat.NaN && !secondFloat.NaN {
+			if folded := foldFloats(op, firstFloat, secondFloat); folded != nil {
+				return folded
+			}
+		}
+	}
+
 	switch op {
 	case ops.Add:
 		if types.IsFloat(first.Type()) {
diff --git a/internals/compiler/compiler_constant_fold.go b/internals/compiler/compiler_constant_fold.go
new file mode 100644
index 0000000..206cd98
--- /dev/null
+++ b/internals/compiler/compiler_constant_fold.go
@@ -0,0 +1,124 @@
+package compiler
+
+import (
+	"math"
+	"math/big"
+
+	"github.com/gabivlj/candice/internals/ops"
+	"github.com/llir/llvm/ir/constant"
+	"github.com/llir/llvm/ir/types"
+)
+
+// LLVM doesn't support most operations and conversions as constant expressions (since LLVM 15), so the ones whose
+// operands are known literals are folded here.
+
+func wrapInteger(x *big.Int, t *types.IntType, unsigned bool) *big.Int {
+	modulus := new(big.Int).Lsh(big.NewInt(1), uint(t.BitSize))
+	wrapped := new(big.Int).Mod(x, modulus)
+	if !unsigned && t.BitSize > 1 && wrapped.Bit(int(t.BitSize)-1) == 1 {
+		wrapped.Sub(wrapped, modulus)
+	}
+	return wrapped
+}
+
+func newFoldedInteger(x *big.Int, t *types.IntType) *constant.Int {
+	return &constant.Int{Typ: t, X: wrapInteger(x, t, false)}
+}
+
+func newFoldedFloat(x float64, t *types.FloatType) *constant.Float {
+	if t.Kind == types.FloatKindFloat {
+		x = float64(float32(x))
+	}
+	return constant.NewFloat(t, x)
+}
+
+// foldIntegers returns nil when the operation can't be folded
+func foldIntegers(op ops.Operation, first, second *constant.Int, unsigned bool) constant.Constant {
+	t := first.Typ
+	a, b, result := wrapInteger(first.X, t, unsigned), wrapInteger(second.X, t, unsigned), new(big.Int)
+	switch op {
+	case ops.Add:
+		result.Add(a, b)
+	case ops.Subtract:
+		result.Sub(a, b)
+	case ops.Multiply:
+		result.Mul(a, b)
+	case ops.BinaryAND:
+		result.And(a, b)
+	case ops.BinaryXOR:
+		result.Xor(a, b)
+	case ops.BinaryOR:
+		result.Or(a, b)
+	case ops.LeftShift, ops.RightShift:
+		amount := wrapInteger(second.X, t, true)
+		if amount.Cmp(new(big.Int).SetUint64(t.BitSize)) >= 0 {
+			return nil
+		}
+		if op == ops.LeftShift {
+			result.Lsh(a, uint(amount.Uint64()))
+		} else {
+			result.Rsh(wrapInteger(first.X, t, true), uint(amount.Uint64()))
+		}
+	case ops.Divide, ops.Modulo:
+		if b.Sign() == 0 {
+			return nil
+		}
+		if op == ops.Divide {
+			result.Quo(a, b)
+		} else {
+			result.Rem(a, b)
+		}
+	default:
+		return nil
+	}
+	return newFoldedInteger(result, t)
+}
+
+// foldFloats returns nil when the operation can't be folded
+func foldFloats(op ops.Operation, first, second *constant.Float) constant.Constant {
+	a, _ := first.X.Float64()
+	b, _ := second.X.Float64()
+	switch op {
+	case ops.Add:
+		return newFoldedFloat(a+b, first.Typ)
+	case ops.Subtract:
+		return newFoldedFloat(a-b, first.Typ)
+	case ops.Multiply:
+		return newFoldedFloat(a*b, first.Typ)
+	case ops.Divide:
+		return newFoldedFloat(a/b, first.Typ)
+	case ops.Modulo:
+		return newFoldedFloat(math.Mod(a, b), first.Typ)
+	}
+	return nil
+}
+
+// foldCast returns nil when the conversion can't be folded
+func foldCast(val constant.Constant, fromUnsigned bool, to types.Type) constant.Constant {
+	switch val := val.(type) {
+	case *constant.Int:
+		fromUnsigned = fromUnsigned || val.Typ.BitSize == 1
+		x := wrapInteger(val.X, val.Typ, fromUnsigned)
+		if to, isInteger := to.(*types.IntType); isInteger {
+			return newFoldedInteger(x, to)
+		}
+		if to, isFloat := to.(*types.FloatType); isFloat {
+			if to.Kind == types.FloatKindFloat {
+				f, _ := new(big.Float).SetInt(x).Float32()
+				return newFoldedFloat(float64(f), to)
+			}
+			f, _ := new(big.Float).SetInt(x).Float64()
+			return newFoldedFloat(f, to)
+		}
+	case *constant.Float:
+		if to, isInteger := to.(*types.IntType); isInteger && !val.NaN && !val.X.IsInf() {
+			x, _ := val.X.Int(nil)
+			return newFoldedInteger(x, to)
+		}
+		if to, isFloat := to.(*types.FloatType); isFloat && !val.NaN {
+			f, _ := val.X.Float64()
+			return newFoldedFloat(f, to)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 511d1cad664dcf0d3877ae921e51b0076d96a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 07/97] fix: sizes of booleans, empty structs and structs that
 contain them

---
 internals/ctypes/types.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..5967cab 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,12 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	// a boolean (i1) occupies an entire byte
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return i.SizeOf()
 }
 
 type UInteger struct {
@@ -404,6 +405,9 @@ func (s *Struct) SizeOf() int64 {
 	for _, t := range s.Fields {
 		typeSize := t.SizeOf()
 		alignment := t.Alignment()
+		if alignment == 0 {
+			alignment = 1
+		}
 		currentAddress += (currentAddress - (currentAddress % alignment)) % alignment
 		currentAddress += (alignment - (currentAddress % alignment)) % alignment
 		currentAddress += typeSize
@@ -415,7 +419,7 @@ func (s *Struct) SizeOf() int64 {
 }
 
 func (s *Struct) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range s.Fields {
 		alignment := t.Alignment()
 		if alignment >= maximumAlignment {
-- 
2.43.0


From 5684f7b328092847a0f556b7b1d9f9f9e7df6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 08/97] fix: unions have in memory the size and alignment that
 @sizeof reports

---
 internals/compiler/compiler_types.go | 4 +++-
 internals/ctypes/types.go            | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 8113a70..cbab328 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -114,7 +114,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				return union
 			}
 
-			unionType := types.NewArray(uint64(el.SizeOf()), types.I8)
+			// the element type gives the union the alignment of its most aligned field
+			alignment := el.Alignment()
+			unionType := types.NewArray(uint64(el.SizeOf()/alignment), types.NewInt(uint64(alignment*8)))
 			return unionType
 		}
 
diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index 5967cab..e559070 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -319,11 +319,13 @@ func (u *Union) SizeOf() int64 {
 		}
 	}
 
-	return max
+	// round up to the alignment, so the elements of an array of unions are aligned
+	alignment := u.Alignment()
+	return (max + alignment - 1) / alignment * alignment
 }
 
 func (u *Union) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range u.Fields {
 		alignment := t.Alignment()
 		if alignment > maximumAlignment {
-- 
2.43.0


From b88bd5653d4f59d003245259dca78d996c2c1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 09/97] fix: @realloc sizes the block by its element type

---
 internals/compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8adc983..a0a0107 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -188,7 +188,8 @@ func (c *Compiler) initializeBuiltinLib() {
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
 		length = c.handleIntegerCast(types.I64, length, call.Parameters[1].GetType())
-		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
+		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
+		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
 		alloca := c.block().NewAlloca(castedValue.Type())
-- 
2.43.0


From 09111da104c18a15001a67ba277d9cec24132132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 10/97] fix: global strings are initialised before any code
 runs

---
 internals/compiler/compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a0a0107..d642542 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1060,10 +1060,9 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
 				array := c.m.NewGlobalDef(name+".global_alloca", global)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", constant.NewNull(pointer.Type().(*types.PointerType)))
+				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
+				globalDefinition := c.m.NewGlobalDef(name+".global", pointer)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
-				c.block().NewStore(pointer, globalDefinition)
 				return globalDefinition
 			}
 
-- 
2.43.0


From ac89db7e0e5cfe431d755a5e3a10e248092d469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 11/97] fix: @alloc and @sizeof know the size of named types

---
 internals/semantic/semantic_builtin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ac35b79..f52e3f4 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -44,8 +44,8 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
-	t := allocCall.TypeParameters[0]
-	s.replaceAnonymous(t)
+	t := s.replaceAnonymous(s.UnwrapAnonymous(allocCall.TypeParameters[0]))
+	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsNumeric(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
@@ -108,7 +108,7 @@ func (s *Semantic) analyzeSizeOf(sizeOfCall *ast.BuiltinCall) ctypes.Type {
 		s.error("expected one type parameter for sizeOf builtin call", sizeOfCall.Token)
 		return ctypes.TODO()
 	}
-	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(sizeOfCall.TypeParameters[0])
+	sizeOfCall.TypeParameters[0] = s.replaceAnonymous(s.UnwrapAnonymous(sizeOfCall.TypeParameters[0]))
 	sizeOfCall.Type = sizeOfCall.TypeParameters[0]
 	return ctypes.I32
 }
-- 
2.43.0


From 2353325f4447a4695b4b72b29fe2688f02df5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 12/97] fix: a block with code after its return leaves its
 scope

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..1fdcf05 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -296,7 +296,7 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.enterFrame()
 	for _, stmt := range block.Statements {
 		if s.returns {
-			return
+			break
 		}
 		s.analyzeStatement(stmt)
 	}
-- 
2.43.0


From b926d0bb61387f8fc132d49da16e60b1d644afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 13/97] fix: a switch without default does not return on all
 paths

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1fdcf05..fb91885 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1436,7 +1436,7 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From 25a5c4779f01de89d711fda82c04b2c6c69dd85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 14/97] fix: analyze else-if conditions after a branch that
 returns

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index fb91885..40fcc8e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -414,8 +414,8 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 	s.analyzeBlock(ifStatement.Block)
 	if !s.returns {
 		doesReturn = false
-		s.returns = false
 	}
+	s.returns = false
 
 	for _, currentIf := range ifStatement.ElseIfs {
 		condition := s.analyzeExpression(currentIf.Condition)
-- 
2.43.0


From 3e260fedc5811d1cca2b67d51d784fd3446c0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 15/97] fix: function types and value lists of different
 lengths are not equal

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 40fcc8e..915ab50 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -667,6 +667,10 @@ func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) boo
 			return false
 		}
 
+		if len(firstTypeList.Types) != len(secondTypeList.Types) {
+			return false
+		}
+
 		for i := range firstTypeList.Types {
 			if !s.areTypesEqual(firstTypeList.Types[i], secondTypeList.Types[i]) {
 				return false
@@ -699,6 +703,9 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 		if !ok {
 			return false
 		}
+		if len(firstFunc.Parameters) != len(secondFunc.Parameters) {
+			return false
+		}
 		for i, param := range firstFunc.Parameters {
 			if !s.areTypesEqual(secondFunc.Parameters[i], param) {
 				return false
@@ -754,6 +761,9 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 		if !ok {
 			return false
 		}
+		if len(firstFunc.Parameters) != len(secondFunc.Parameters) {
+			return false
+		}
 		for i, param := range firstFunc.Parameters {
 			if !s.areTypesEqualIncludingUnions(secondFunc.Parameters[i], param) {
 				return false
-- 
2.43.0


From 6bb6ec011dd617ce087b93b70dfe023e95990772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 16/97] fix: break and continue can not leave an anonymous
 function

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 915ab50..97a49f0 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -386,9 +386,12 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
 	s.currentAnonymousFunctionBeingAnalyzed = anonymousFunction
+	tmpInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
 	s.currentFunctionBeingAnalyzed = tmpFun
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
+	s.insideBreakableBlock = tmpInsideBreakableBlock
 	s.returns = temporaryReturns
 	return anonymousFunction.FunctionType
 }
-- 
2.43.0


From fa866425bbb14878869e8bc867e88431c6fa83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 17/97] fix: captures reach through nested anonymous functions
 and stay constant

---
 internals/semantic/semantic.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 97a49f0..e97e0f9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -393,6 +393,12 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
 	s.insideBreakableBlock = tmpInsideBreakableBlock
 	s.returns = temporaryReturns
+	// What it captures from functions further out has to be captured by the function that creates it as well
+	for _, name := range anonymousFunction.CapturedVariables {
+		if variable := s.variables.Get(name); variable != nil {
+			s.captureVariable(name, variable)
+		}
+	}
 	return anonymousFunction.FunctionType
 }
 
@@ -1016,12 +1022,9 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
-			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
-			return identifierTypeUnwrap
+		if captured := s.captureVariable(identifier.Name, identifierType); captured != nil {
+			identifierType = captured
+			identifier.Type = captured.Type
 		}
 
 		if !identifierType.IsConstant && s.expectConstantExpression {
@@ -1039,6 +1042,23 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	return ctypes.TODO()
 }
 
+// captureVariable makes the anonymous function that is being analyzed capture the variable if it belongs to a
+// surrounding function. Returns nil when there is nothing to capture
+func (s *Semantic) captureVariable(name string, variable *SemanticType) *SemanticType {
+	if variable.parentFunction == s.currentFunctionBeingAnalyzed || variable.parentFunction == nil {
+		return nil
+	}
+	s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
+		append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, name)
+	captured := &SemanticType{
+		Type:           s.UnwrapAnonymous(s.replaceAnonymous(variable.Type)),
+		parentFunction: s.currentFunctionBeingAnalyzed,
+		IsConstant:     variable.IsConstant,
+	}
+	s.variables.Add(name, captured)
+	return captured
+}
+
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
 	prefixOperation.Type = t
-- 
2.43.0


From 934dc95d05e3bc8ba1617401975aa6cd3a07bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 18/97] fix: character literals accept escape sequences

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..145c83b 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -88,7 +88,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From 16a7e7e8ede619b446c4ad71a6d13deb63358f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 19/97] fix: the lexer keeps the bytes of string and character
 literals

---
 internals/lexer/lexer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 145c83b..6dc7385 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -243,7 +243,7 @@ func (l *Lexer) parseNumericToken() token.Token {
 }
 
 func (l *Lexer) readString() string {
-	s := ""
+	var s []byte
 	l.readChar()
 	for l.ch != '"' && l.ch != 0 {
 		if l.ch == '\\' {
@@ -251,26 +251,26 @@ func (l *Lexer) readString() string {
 			if l.peekChar() == 'n' {
 				l.readChar()
 				l.readChar()
-				s += string('\n')
+				s = append(s, '\n')
 				continue
 			}
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s = append(s, l.ch)
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s = append(s, l.ch)
 		l.readChar()
 	}
 
-	return s
+	return string(s)
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
-- 
2.43.0


From 23cca5cef529946cb6fa1f8e8f13628ada0e4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 20/97] fix: method calls look modules up in import order and
 skip functions without parameters

---
 internals/semantic/semantic.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e97e0f9..679f451 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1165,14 +1165,14 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 }
 
 func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
-	for _, semantic := range s.modules {
+	for _, semantic := range s.importedModules(s.Root.Statements) {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
 		if v == nil {
 			continue
 		}
 
 		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
+			if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 				continue
 			}
 
@@ -1187,7 +1187,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
+		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 			return nil
 		}
 
@@ -1197,6 +1197,23 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	return nil
 }
 
+// importedModules returns the modules that this module imports, in the order of its import statements
+func (s *Semantic) importedModules(statements []ast.Statement) []*Semantic {
+	var modules []*Semantic
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ImportStatement:
+			if module := s.modules[t.Name]; module != nil {
+				modules = append(modules, module)
+			}
+
+		case *ast.MacroBlock:
+			modules = append(modules, s.importedModules(t.Block.Statements)...)
+		}
+	}
+	return modules
+}
+
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
@@ -1258,7 +1275,11 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
+			return ctypes.TODO()
+		}
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-- 
2.43.0


From 51b61d1762f739eed0de0546566efd8f8de3d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 21/97] fix: an index has to be an integer and may be a
 constant in assignments

---
 internals/semantic/semantic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 679f451..d7d97f6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -844,8 +844,12 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
+	// The index is only read, even if the element is going to be assigned
+	expectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
-	if !ctypes.IsNumeric(indexType) {
+	s.expectNonConstantExpression = expectNonConstantExpression
+	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
 
-- 
2.43.0


From 147acc5bd000b32a5751f2f01e51bba62936f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 22/97] fix: constants can not be incremented or decremented

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d7d97f6..10e8fe9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1064,7 +1064,11 @@ func (s *Semantic) captureVariable(name string, variable *SemanticType) *Semanti
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
+	mutates := prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne
+	expectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = expectNonConstantExpression || mutates
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	s.expectNonConstantExpression = expectNonConstantExpression
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
-- 
2.43.0


From 87048cca715b9eae1def4bf60ba2dd3c14da3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 23/97] fix: reject comparisons of structs, unions and
 functions and bitwise operations on floats

---
 internals/ops/operations.go    | 4 ++++
 internals/semantic/semantic.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 5097cad..9eccc09 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -102,6 +102,10 @@ func (o Operation) String() string {
 	panic("unknown operand: " + strconv.FormatInt(int64(o), 10))
 }
 
+func (o Operation) IsBitwise() bool {
+	return o == BinaryAND || o == BinaryOR || o == BinaryXOR
+}
+
 func (o Operation) IsComparison() bool {
 	return o == GreaterThanEqual || o == Equals || o == NotEquals || o == GreaterThan ||
 		o == LessThanEqual || o == LessThan || o == AND || o == OR
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 10e8fe9..e88f02b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1436,10 +1436,17 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
 		}
 		return ctypes.I1
 	}
 
+	if ctypes.IsFloat(left) && binaryOperation.Operation.IsBitwise() {
+		s.cantOperateThisOperationError(binaryOperation, left, right)
+		return ctypes.TODO()
+	}
+
 	if ctypes.IsNumeric(left) {
 		return left
 	}
-- 
2.43.0


From c13a245474beb0aede59bed25abb24ed1e06eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 24/97] fix: floats can be used as conditions

---
 internals/compiler/compiler_conversions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 75495eb..865d15d 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
@@ -18,6 +19,9 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	if _, ok := value.Type().(*types.PointerType); ok {
 		return c.block().NewICmp(enum.IPredNE, c.block().NewPtrToInt(value, types.I64), zero)
 	}
+	if float, ok := value.Type().(*types.FloatType); ok {
+		return c.block().NewFCmp(enum.FPredUNE, value, constant.NewFloat(float, 0))
+	}
 	c.exitInternalError("can't pass to a boolean the value: " + value.String())
 	panic("")
 }
-- 
2.43.0


From 8caba9409ed9db2f3fc6bf5d49e519066d0faefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 25/97] fix: shifts by an amount of another integer type

---
 internals/compiler/compiler.go          | 9 +++++++--
 internals/compiler/compiler_constant.go | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index d642542..f603d5f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1617,13 +1617,18 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
-	return c.block().NewLShr(leftValue, rightValue)
+	return c.block().NewLShr(leftValue, c.shiftAmount(leftValue, rightValue, expr))
 }
 
 func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
-	return c.block().NewShl(leftValue, rightValue)
+	return c.block().NewShl(leftValue, c.shiftAmount(leftValue, rightValue, expr))
+}
+
+// shiftAmount gives the right side of a shift the type of the left side, because LLVM needs both to be the same
+func (c *Compiler) shiftAmount(left, right value.Value, expr *ast.BinaryOperation) value.Value {
+	return c.handleIntegerCast(left.Type().(*types.IntType), right, expr.Right.GetType())
 }
 
 func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index b700be6..6401c44 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -110,6 +110,11 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 }
 
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
+	if op == ops.LeftShift || op == ops.RightShift {
+		// LLVM needs both sides of a shift to have the same type
+		second = c.handleConstantCast(second, expr.Right.GetType(), first.Type(), expr.Right)
+	}
+
 	if firstInteger, ok := first.(*constant.Int); ok {
 		if secondInteger, ok := second.(*constant.Int); ok {
 			_, isUnsigned := expr.Type.(*ctypes.UInteger)
-- 
2.43.0


From afa216b7a9c0b0aa1e037605a44e36b829b80ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 26/97] fix: unsigned indices and pointer offsets are not
 negative

---
 internals/compiler/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f603d5f..0f0558d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1156,6 +1156,7 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
 	index := c.loadIfPointer(c.compileExpression(access.Access))
+	index = c.handleIntegerCast(types.I64, index, access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
 	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
@@ -1507,6 +1508,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 
 	// Memory access via '+'
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.handleIntegerCast(types.I64, rightValue, expr.Right.GetType())
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's going to get used
 		toReturnPointer := c.block().NewAlloca(newPointer.Type())
@@ -1550,6 +1552,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.handleIntegerCast(types.I64, rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-- 
2.43.0


From a07542c20007cd7bc8a452e0a1992c07b9889f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 27/97] fix: @alloc and @realloc accept any integer as length,
 and no float

---
 internals/semantic/semantic_builtin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index f52e3f4..8e4f11c 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -47,7 +47,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	t := s.replaceAnonymous(s.UnwrapAnonymous(allocCall.TypeParameters[0]))
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
-	if !ctypes.IsNumeric(expr) {
+	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
 	}
 	allocCall.Type = &ctypes.Pointer{Inner: t}
@@ -94,7 +94,7 @@ func (s *Semantic) analyzeRealloc(reallocCall *ast.BuiltinCall) ctypes.Type {
 
 	secondParameter := s.analyzeExpression(reallocCall.Parameters[1])
 
-	if _, isInteger := secondParameter.(*ctypes.Integer); !isInteger {
+	if !ctypes.IsInteger(secondParameter) {
 		s.typeMismatchError(reallocCall.String(), reallocCall.Parameters[1], reallocCall.Token, ctypes.I64, secondParameter)
 	}
 
-- 
2.43.0


From 175ff09a5fbc77505a9244f5c4d067138cefab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 28/97] fix: struct literals store the members of their union
 fields

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 0f0558d..f907f99 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1275,10 +1275,10 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 		ptr.InBounds = true
 
 		// Unwrap value pointer
-		compiledValue = c.loadIfPointer(c.bitcastIfUnion(field, compiledValue, ptr.Type()))
+		compiledValue = c.loadIfPointer(compiledValue)
 
 		// Store in the pointer the compiler value
-		c.block().NewStore(compiledValue, ptr)
+		c.block().NewStore(compiledValue, c.bitcastIfUnion(field, ptr, types.NewPointer(compiledValue.Type())))
 	}
 
 	// Do not allocate on declaration/assignments because we are already allocating above.
-- 
2.43.0


From a67a4bf233f35ce8e10bdb4f698fd493a249c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 29/97] fix: negation and ordering of booleans

---
 internals/compiler/compiler.go             | 7 ++-----
 internals/compiler/compiler_comparisons.go | 5 +++--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f907f99..5a4417b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -948,15 +948,12 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 	prefixValue := c.compileExpression(prefix.Right)
 	if prefix.Operation == ops.Subtract {
 		prefixValue = c.loadIfPointer(prefixValue)
-		var negativeOne value.Value
 		if ctypes.IsFloat(prefix.GetType()) {
-			negativeOne = constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
+			negativeOne := constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
 			return c.block().NewFMul(prefixValue, negativeOne)
 		}
 
-		negativeOne = constant.NewInt(prefixValue.Type().(*types.IntType), -1)
-
-		return c.block().NewMul(prefixValue, negativeOne)
+		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 4f5ca8b..59b4681 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -57,7 +57,8 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 }
 
 func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPred {
-	if _, ok := t.(*ctypes.Integer); ok {
+	// true is not less than false, which is what the sign of an i1 would mean
+	if integer, ok := t.(*ctypes.Integer); ok && integer.BitSize > 1 {
 		switch op {
 		case ops.GreaterThanEqual:
 			return enum.IPredSGE
@@ -74,7 +75,7 @@ func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPre
 		}
 	}
 
-	if _, ok := t.(*ctypes.UInteger); ok {
+	if ctypes.IsInteger(t) {
 		switch op {
 		case ops.GreaterThanEqual:
 			return enum.IPredUGE
-- 
2.43.0


From 5f8c8ea0b489291373ed7ea01256d83e3ef4e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 30/97] fix: printed booleans are always 0 or 1

---
 internals/compiler/compiler_format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_format.go b/internals/compiler/compiler_format.go
index ba64922..fc38822 100644
--- a/internals/compiler/compiler_format.go
+++ b/internals/compiler/compiler_format.go
@@ -25,7 +25,13 @@ func (c *Compiler) getFormatString(expressions []value.Value, t types.Type, call
 		}
 
 		if integer, isSigned := call.Parameters[current].GetType().(*ctypes.Integer); isSigned {
-			if integer.BitSize == 1 || integer.BitSize == 8 {
+			if integer.BitSize == 1 {
+				// the variadic call would leave the rest of the bits undefined
+				expressions[current+1] = c.handleIntegerCast(types.I32, expressions[current+1], integer)
+				return "%d"
+			}
+
+			if integer.BitSize == 8 {
 				return "%hhd"
 			}
 
-- 
2.43.0


From 64e2b6e597109d78871296470b310005f6309cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 31/97] fix: loops do not grow the stack

---
 internals/compiler/compiler.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 5a4417b..9f2e93b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -627,6 +627,8 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		}
 	}
 
+	c.hoistAllocas(llvmFunction)
+
 	if funk.GetFunctionType().RedefineWithOriginalName {
 		c.compileFunctionRedeclaration(c.currentFunction.Blocks, funk)
 	}
@@ -637,6 +639,25 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	c.currentValueToReturnBlockExpression, c.currentBlockExpressionLeaveBlock = prevValue, prevLeave
 }
 
+// hoistAllocas moves every alloca to the entry block. LLVM grows the stack each time that it executes an alloca
+// in another block, so loops would overflow it.
+func (c *Compiler) hoistAllocas(function *ir.Func) {
+	var allocas []ir.Instruction
+	for _, block := range function.Blocks[1:] {
+		var rest []ir.Instruction
+		for _, instruction := range block.Insts {
+			if _, isAlloca := instruction.(*ir.InstAlloca); isAlloca {
+				allocas = append(allocas, instruction)
+			} else {
+				rest = append(rest, instruction)
+			}
+		}
+		block.Insts = rest
+	}
+	entry := function.Blocks[0]
+	entry.Insts = append(allocas, entry.Insts...)
+}
+
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
 	llvmFunction := c.retrieveVariable(funk.GetFunctionType().ExternalName).(*ir.Func)
 	llvmFunction.Blocks = otherFunctionBlocks
-- 
2.43.0


From a7da5e7096b188fafcc9bc7b31f0b2ebfb30b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 32/97] fix: modules instantiated with types of the same name
 are different

---
 internals/semantic/semantic.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e88f02b..5bcb154 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1336,7 +1336,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	hashType := strings.Builder{}
 	for _, t := range types {
 		hashType.WriteByte(',')
-		hashType.WriteString(t.String())
+		hashType.WriteString(typeIdentity(t))
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
@@ -1381,6 +1381,19 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	s.modules[importStatement.Name] = internalSemantic
 }
 
+// typeIdentity is the string of a type, but it tells apart types of the same name from different modules
+func typeIdentity(t ctypes.Type) string {
+	switch t := t.(type) {
+	case *ctypes.Pointer:
+		return "*" + typeIdentity(t.Inner)
+	case *ctypes.Array:
+		return fmt.Sprintf("[%d]%s", t.Length, typeIdentity(t.Inner))
+	case ctypes.FieldType:
+		return t.GetName()
+	}
+	return t.String()
+}
+
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
 	t := s.UnwrapAnonymous(blockExpression.Type)
 	tmpReturns := s.returns
-- 
2.43.0


From 1841eaedbd06a4c1f4d50d207a0ee95173e8b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 33/97] fix: assignments may start with a parenthesis

---
 internals/ops/operations.go | 2 +-
 internals/parser/parser.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 9eccc09..34b96d6 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -77,7 +77,7 @@ func (o Operation) String() string {
 		return "<="
 	case Equals:
 		return "=="
-	case Assigns:
+	case Assigns, TempAssign:
 		return "="
 	case NotEquals:
 		return "!="
diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..e8c3e05 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -175,7 +175,7 @@ func (p *Parser) parseStatement() ast.Statement {
 		return p.parseExtern()
 	case token.IDENT:
 		return p.parseIdentifierStatement()
-	case token.ASTERISK:
+	case token.ASTERISK, token.LPAREN:
 		return p.parsePossibleAssignment()
 	case token.IF:
 		return p.parseIf()
-- 
2.43.0


From f362f4c3912b932ddefdfd2bc64ce73f50abe33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 34/97] fix: how an expression is stored does not leak into the
 next one

---
 internals/compiler/compiler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 9f2e93b..fdd9185 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -789,9 +789,9 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 	t := c.ToLLVMType(decl.Type)
 	var valueCompiled value.Value
 	if decl.Constant {
+		valueCompiled = c.compileConstantExpression(decl.Expression)
 		// If the declaration was a constant we don't need to allocate later on
 		c.doNotAllocate = true
-		valueCompiled = c.compileConstantExpression(decl.Expression)
 		// If it is a global just compile it as a constant
 	} else if c.currentFunction == nil {
 		valueCompiled = c.compileConstantExpression(decl.Expression)
@@ -853,6 +853,9 @@ func (c *Compiler) compileType(name string, ct ctypes.Type) {
 }
 
 func (c *Compiler) compileExpression(expression ast.Expression) value.Value {
+	// Whatever was compiled before doesn't say anything about this expression
+	c.doNotLoadIntoMemory = false
+	c.doNotAllocate = false
 
 	switch e := expression.(type) {
 	case *ast.ExpressionBlock:
@@ -1209,9 +1212,10 @@ func unwrapArrayGepType(arr *types.ArrayType) types.Type {
 }
 
 func (c *Compiler) loadIfPointer(val value.Value) value.Value {
+	// The loaded value is not the memory that the expression allocated
+	c.doNotAllocate = false
 	if c.doNotLoadIntoMemory {
 		c.doNotLoadIntoMemory = false
-		c.doNotAllocate = false
 		return val
 	}
 	if types.IsPointer(val.Type()) {
@@ -1231,9 +1235,10 @@ func (c *Compiler) loadIfPointer(val value.Value) value.Value {
 }
 
 func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) value.Value {
+	// The loaded value is not the memory that the expression allocated
+	c.doNotAllocate = false
 	if c.doNotLoadIntoMemory {
 		c.doNotLoadIntoMemory = false
-		c.doNotAllocate = false
 		return val
 	}
 	if types.IsPointer(val.Type()) {
-- 
2.43.0


From df2bae8a294874f8d37ddb02adb44728023d0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 35/97] fix: statements that are never reached are not compiled

---
 internals/semantic/semantic.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 5bcb154..198d037 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -184,12 +184,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 			return
 		}
 	case *ast.MacroBlock:
-		for _, stmt := range statementType.Block.Statements {
-			if s.returns {
-				return
-			}
-			s.analyzeStatement(stmt)
-		}
+		s.analyzeStatements(statementType.Block)
 		return
 	case *ast.Block:
 		s.analyzeBlock(statementType)
@@ -294,13 +289,20 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
-	for _, stmt := range block.Statements {
+	s.analyzeStatements(block)
+	s.leaveFrame()
+}
+
+// analyzeStatements analyzes the statements of a block and drops the ones that are never reached
+// because every path returns before them
+func (s *Semantic) analyzeStatements(block *ast.Block) {
+	for i, stmt := range block.Statements {
 		if s.returns {
-			break
+			block.Statements = block.Statements[:i]
+			return
 		}
 		s.analyzeStatement(stmt)
 	}
-	s.leaveFrame()
 }
 
 func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
@@ -361,12 +363,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.currentExpectedReturnType = fun.Return
 
 	if block != nil {
-		for _, statement := range block.Statements {
-			if s.returns {
-				break
-			}
-			s.analyzeStatement(statement)
-		}
+		s.analyzeStatements(block)
 	}
 
 	if !s.returns && fun.Return != ctypes.VoidType {
-- 
2.43.0


From a150969a3333ff78c97c50f79e1fbfc0f3e4a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 36/97] fix: the type of a logical negation is a boolean

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 198d037..6ad9fd8 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1079,6 +1079,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
 		}
 
+		prefixOperation.Type = ctypes.I1
 		return ctypes.I1
 	}
 
-- 
2.43.0


From 56de6e2cab26671c76f106f13293ab617c7a1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:16 +0000
Subject: [PATCH 37/97] fix: else-if conditions are converted to booleans where
 they are evaluated

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index fdd9185..b386668 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -697,10 +697,10 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 		// is true jump to this block, else jump to the next one, which would be the next jump condition or
 		// the else
 		condition := c.compileExpression(conditions[i])
-		conditionLoaded := c.loadIfPointer(condition)
+		conditionBool := c.toBool(c.loadIfPointer(condition))
 		// Recharge block because compiling expressions can change current blocks
 		lastJumpToCondition = c.popBlock()
-		lastJumpToCondition.NewCondBr(c.toBool(conditionLoaded), currentBlock, jumpToNextCondition)
+		lastJumpToCondition.NewCondBr(conditionBool, currentBlock, jumpToNextCondition)
 		lastJumpToCondition = jumpToNextCondition
 	}
 
-- 
2.43.0


From 66da2329531141ed215143215594750830e17c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 38/97] fix: comparisons belong to the block where their
 operands end

---
 internals/compiler/compiler_comparisons.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 59b4681..730364e 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -11,27 +11,21 @@ import (
 )
 
 func (c *Compiler) handleComparisonOperations(expr *ast.BinaryOperation) value.Value {
+	// Compile the operands first, they can change the current block
+	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
+	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+
 	if left, isPointer := expr.Left.GetType().(*ctypes.Pointer); isPointer {
 		if left.Inner == ctypes.I8 {
-			return c.compareMemoryI8(c.loadIfPointer(c.compileExpression(expr.Left)),
-				c.loadIfPointer(c.compileExpression(expr.Right)),
-				c.getIPredComparison(expr.Operation, ctypes.I32),
-			)
+			return c.compareMemoryI8(leftValue, rightValue, c.getIPredComparison(expr.Operation, ctypes.I32))
 		}
 	}
 
 	if _, isFloat := expr.Left.GetType().(*ctypes.Float); isFloat {
-		return c.block().NewFCmp(
-			c.getFPredComparison(expr.Operation, expr.Left.GetType()),
-			c.loadIfPointer(c.compileExpression(expr.Left)),
-			c.loadIfPointer(c.compileExpression(expr.Right)),
-		)
+		return c.block().NewFCmp(c.getFPredComparison(expr.Operation, expr.Left.GetType()), leftValue, rightValue)
 	}
 
-	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()),
-		c.loadIfPointer(c.compileExpression(expr.Left)),
-		c.loadIfPointer(c.compileExpression(expr.Right)),
-	)
+	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()), leftValue, rightValue)
 }
 
 func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPred {
-- 
2.43.0


From bc9a7367596521b96be3475d1ae8eb0490304041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 39/97] fix: printing a multiple declaration does not rename
 its variables

---
 internals/ast/statements.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 98c2fec..536cded 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -117,11 +117,11 @@ func (m *MultipleDeclarationStatement) GetToken() token.Token {
 func (_ *MultipleDeclarationStatement) statementNode() {}
 
 func (m *MultipleDeclarationStatement) String() string {
+	names := make([]string, len(m.Names))
 	for i := range m.Names {
-		m.Names[i] = RetrieveID(m.Names[i])
+		names[i] = RetrieveID(m.Names[i])
 	}
-	names := strings.Join(m.Names, ", ")
-	return fmt.Sprintf("%s :%s = %s;", names, m.Type.String(), m.Expression.String())
+	return fmt.Sprintf("%s :%s = %s;", strings.Join(names, ", "), m.Type.String(), m.Expression.String())
 }
 
 type AssignmentStatement struct {
-- 
2.43.0


From 056d166d17249a76330ae62bb3900f2eb8a23e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 40/97] fix: a union does not use the storage of a member's
 literal

---
 internals/compiler/compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b386668..42a50d7 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -810,7 +810,9 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 	}
 
 	var val value.Value
-	if !c.doNotAllocate {
+	if _, isUnion := c.retrieveInnerAnonymousAndUnwrap(decl.Type).(*ctypes.Union); isUnion || !c.doNotAllocate {
+		// A union never shares the storage of the literal of one of its members, which may be smaller
+		c.doNotAllocate = false
 		val = c.block().NewAlloca(t)
 		valueCompiled = c.loadIfPointer(valueCompiled)
 		c.block().NewStore(valueCompiled, c.bitcastIfUnion(decl.Type, val, types.NewPointer(valueCompiled.Type())))
-- 
2.43.0


From 3fec0ba896459894dbeda0ec241a05bda7e7bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 41/97] fix: a string without a closing quote is no token

---
 internals/lexer/lexer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 6dc7385..8a786f0 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -156,8 +156,12 @@ func (l *Lexer) NextToken() token.Token {
 	case ']':
 		tok = l.newToken(token.RBRACKET, l.ch)
 	case '"':
+		var terminated bool
+		tok.Literal, terminated = l.readString()
+		if !terminated {
+			return l.newToken(token.ILLEGAL, '"')
+		}
 		tok.Type = token.STRING
-		tok.Literal = l.readString()
 		tok.Line = l.line
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
@@ -242,7 +246,8 @@ func (l *Lexer) parseNumericToken() token.Token {
 	return tok
 }
 
-func (l *Lexer) readString() string {
+// readString reads until the closing quote and tells if there is one
+func (l *Lexer) readString() (string, bool) {
 	var s []byte
 	l.readChar()
 	for l.ch != '"' && l.ch != 0 {
@@ -266,7 +271,7 @@ func (l *Lexer) readString() string {
 		l.readChar()
 	}
 
-	return string(s)
+	return string(s), l.ch == '"'
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-- 
2.43.0


From 1425d03f7398fa5aa95fdd6d9e43b9c91b703c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 42/97] fix: a zero byte in the text does not end it

---
 internals/lexer/lexer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 8a786f0..d155d92 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -44,7 +44,7 @@ func (l *Lexer) skipWhiteSpace() {
 }
 
 func (l *Lexer) skipUntilJL() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.atEnd() {
 		l.readChar()
 	}
 	l.readChar()
@@ -210,6 +210,10 @@ func (l *Lexer) NextToken() token.Token {
 	case '}':
 		tok = l.newToken(token.RBRACE, l.ch)
 	case 0:
+		if !l.atEnd() {
+			tok = l.newToken(token.ILLEGAL, l.ch)
+			break
+		}
 		tok.Line = l.line
 		tok.Position = l.column
 		tok.OverallPosition = l.position
@@ -246,11 +250,16 @@ func (l *Lexer) parseNumericToken() token.Token {
 	return tok
 }
 
+// atEnd tells if the input is over; a zero byte may also be part of it
+func (l *Lexer) atEnd() bool {
+	return l.position >= len(l.input)
+}
+
 // readString reads until the closing quote and tells if there is one
 func (l *Lexer) readString() (string, bool) {
 	var s []byte
 	l.readChar()
-	for l.ch != '"' && l.ch != 0 {
+	for l.ch != '"' && !l.atEnd() {
 		if l.ch == '\\' {
 			// It's a jumpline
 			if l.peekChar() == 'n' {
-- 
2.43.0


From 31193f2880b74fce9e947e1109459f4f30520a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 43/97] fix: lines inside of strings and characters count, the
 end of a comment counts once

---
 internals/lexer/lexer.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index d155d92..3e5f0b9 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -35,10 +35,6 @@ func isLetter(ch byte) bool {
 
 func (l *Lexer) skipWhiteSpace() {
 	for l.ch == ' ' || l.ch == '\t' || l.ch == '\r' || l.ch == '\n' {
-		if l.ch == '\n' {
-			l.line++
-			l.column = 1
-		}
 		l.readChar()
 	}
 }
@@ -47,9 +43,6 @@ func (l *Lexer) skipUntilJL() {
 	for l.ch != '\n' && !l.atEnd() {
 		l.readChar()
 	}
-	l.readChar()
-	l.line++
-	l.column = 1
 }
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
@@ -86,6 +79,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 }
 
 func (l *Lexer) readCharLiteral() token.Token {
+	line := l.line
 	l.readChar()
 	var literal byte
 	if l.ch == '\\' {
@@ -113,7 +107,9 @@ func (l *Lexer) readCharLiteral() token.Token {
 	// Skip '
 	l.readChar()
 
-	return l.newToken(token.CHAR, literal)
+	tok := l.newToken(token.CHAR, literal)
+	tok.Line = line
+	return tok
 }
 
 func (l *Lexer) getMacroToken() token.Token {
@@ -156,13 +152,14 @@ func (l *Lexer) NextToken() token.Token {
 	case ']':
 		tok = l.newToken(token.RBRACKET, l.ch)
 	case '"':
+		line := l.line
 		var terminated bool
 		tok.Literal, terminated = l.readString()
 		if !terminated {
 			return l.newToken(token.ILLEGAL, '"')
 		}
 		tok.Type = token.STRING
-		tok.Line = l.line
+		tok.Line = line
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
 	case '=':
@@ -346,6 +343,10 @@ func (l *Lexer) readNumber() (string, token.TypeToken) {
 }
 
 func (l *Lexer) readChar() {
+	if l.ch == '\n' {
+		l.line++
+		l.column = 1
+	}
 	defer func() {
 		// next position is current position now
 		l.position = l.readPosition
-- 
2.43.0


From 20f0704d7a1bd4077f91f9e0845afee3097b5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 44/97] fix: reporting an error at the end of the text does not
 crash

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 3e5f0b9..5abacfb 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -47,7 +47,7 @@ func (l *Lexer) skipUntilJL() {
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
 	currentColumn := t.OverallPosition - 1
-	if t.Type == token.EOF {
+	if t.Type == token.EOF || t.OverallPosition >= len(l.input) {
 		t.OverallPosition = len(l.input) - 1
 		currentColumn = len(l.input) - 2
 	}
-- 
2.43.0


From 52f0f6ab542f92ded824c7b85c891349c0d968bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 45/97] fix: a type that is missing is an error

---
 internals/parser/parser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e8c3e05..1dc6722 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -372,7 +372,7 @@ func (p *Parser) parseAnonymousFunction() ast.Expression {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.startsType() {
 		returnType = p.parseTypes()
 	}
 
@@ -412,7 +412,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Statement {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.startsType() {
 		returnType = p.parseTypes()
 	}
 
@@ -717,7 +717,17 @@ func (p *Parser) parseType() ctypes.Type {
 		return &ctypes.Array{Length: integer, Inner: p.parseType()}
 	}
 
-	return nil
+	p.addErrorMessage("expected a type")
+	return ctypes.TODO()
+}
+
+// startsType tells if the current token may be the first one of a type
+func (p *Parser) startsType() bool {
+	switch p.currentToken.Type {
+	case token.IDENT, token.ASTERISK, token.LBRACKET, token.FUNCTION, token.LPAREN:
+		return true
+	}
+	return false
 }
 
 func (p *Parser) parsePrefix() ast.Expression {
-- 
2.43.0


From 924596f31214768003790c2147747988ceabe6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 46/97] fix: types in parentheses need the closing one

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 1dc6722..2ae7d6a 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -614,6 +614,7 @@ func (p *Parser) parseType() ctypes.Type {
 	if p.currentToken.Type == token.LPAREN {
 		p.nextToken()
 		t := p.parseTypes()
+		p.expect(token.RPAREN)
 		p.nextToken()
 		return t
 	}
-- 
2.43.0


From f4a3e4d8d4c16a5347a694f65d14a26ca22b06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 47/97] fix: pub needs a function

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 2ae7d6a..c80771e 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -218,6 +218,7 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
+	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	fn.FunctionType.RedefineWithOriginalName = true
 	return fn
-- 
2.43.0


From 4b12131e455cc92b6966b8234e0ca3962d8cdc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 48/97] fix: only names can be declared

---
 internals/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index c80771e..5bb47dc 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -533,10 +533,12 @@ func (p *Parser) parseIdentifierStatement() ast.Statement {
 }
 
 func (p *Parser) parseMultipleDeclarations(isConstant bool) ast.Statement {
+	p.expect(token.IDENT)
 	firstLiteral := p.nextToken()
 	names := []string{ast.CreateIdentifier(firstLiteral.Literal, p.ID)}
 	for p.currentToken.Type == token.COMMA {
 		p.nextToken()
+		p.expect(token.IDENT)
 		names = append(names, ast.CreateIdentifier(p.nextToken().Literal, p.ID))
 	}
 	p.expect(token.COLON)
@@ -568,6 +570,7 @@ func (p *Parser) parseDeclaration() ast.Statement {
 		return p.parseMultipleDeclarations(isConstant)
 	}
 
+	p.expect(token.IDENT)
 	id := p.currentToken
 	// pass id
 	p.nextToken()
-- 
2.43.0


From aef97bec94b385086d016e1c539dc44fd4fcb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 49/97] fix: a declaration of something that is no name does
 not crash

---
 internals/parser/parser_assignment.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 9e0de25..e07d594 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -45,6 +45,13 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 	}
 
 	if commaExpr, ok := expr.(*ast.CommaExpressions); ok && p.currentToken.Type == token.COLON {
+		for _, name := range commaExpr.Expressions {
+			if _, isIdentifier := name.(*ast.Identifier); !isIdentifier {
+				p.addErrorMessage("only names can be declared")
+				return &ast.MultipleDeclarationStatement{}
+			}
+		}
+
 		declToken := p.nextToken()
 		var t ctypes.Type = ctypes.TODO()
 		if token.ASSIGN != p.currentToken.Type {
-- 
2.43.0


From 3baa6a2d3204710b70a498e6541ca58eb587b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 50/97] fix: the first two fields of a struct literal need a
 comma between them

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 5bb47dc..32dc63f 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -446,7 +446,7 @@ func (p *Parser) parseStructLiteral(module string) ast.Expression {
 		p.expect(token.COLON)
 		p.nextToken()
 		expr := p.parseExpression(2)
-		if len(structValues) >= 1 && p.currentToken.Type != token.RBRACE {
+		if p.currentToken.Type != token.RBRACE {
 			p.expect(token.COMMA)
 		}
 
-- 
2.43.0


From 39296dd0076c1cd57b879395d3e78a3000af38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 51/97] fix: a qualified name after @ needs a struct literal

---
 internals/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 32dc63f..5022351 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -920,6 +920,10 @@ func (p *Parser) parseAt() ast.Expression {
 	if p.peekToken.Type == token.DOT {
 		module = ast.CreateIdentifier(p.nextToken().Literal, p.ID)
 		p.nextToken()
+		p.expect(token.IDENT)
+		if p.peekToken.Type != token.LBRACE {
+			p.addErrorMessage("expected the literal of a struct of the module")
+		}
 	}
 
 	if p.peekToken.Type == token.LBRACE {
-- 
2.43.0


From 13fcb1a148ccd1e11b683978bb0dcaa0a9e5d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 52/97] fix: files that import each other are an error instead
 of an endless recursion

---
 internals/semantic/semantic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 6ad9fd8..8c0e04e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -61,6 +61,9 @@ type Semantic struct {
 
 var paths map[string]*Semantic = map[string]*Semantic{}
 
+// importing has the paths of the files that are being analyzed because of an import
+var importing map[string]bool = map[string]bool{}
+
 func (s *Semantic) SizeOf() int64 {
 	return 0
 }
@@ -1344,6 +1347,12 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		s.modules[existingSemantic.Root.ID] = existingSemantic
 		return
 	}
+	if importing[currentPathPlusImport] {
+		s.errorWithStatement("files can't import each other: "+importStatement.Path.String(), importStatement.Token)
+		return
+	}
+	importing[currentPathPlusImport] = true
+	defer delete(importing, currentPathPlusImport)
 	text, err := os.ReadFile(currentPathPlusImport)
 	if err != nil {
 		s.errorWithStatement(fmt.Sprintf("error importing file with path %s: %s", importStatement.Path, err.Error()), importStatement.Token)
-- 
2.43.0


From 3dc8ba3495149b3f1ec43275214f3f889d933194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 53/97] fix: a function without a return type can be used
 before its declaration

---
 internals/semantic/semantic_steps.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9f1c6ff..8b0821f 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -1,6 +1,9 @@
 package semantic
 
-import "github.com/gabivlj/candice/internals/ast"
+import (
+	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/ctypes"
+)
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
@@ -30,6 +33,10 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 		switch t := statement.(type) {
 		case *ast.FunctionDeclarationStatement:
 			{
+				// functions before this one need its type, which isn't analyzed yet
+				if t.FunctionType.Return == nil {
+					t.FunctionType.Return = ctypes.VoidType
+				}
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-- 
2.43.0


From 0b890ac644661f8a4e07a503481a19954d9e16ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 54/97] fix: an unknown type called main does not crash

---
 internals/ast/mod.go           | 3 ++-
 internals/semantic/semantic.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index ebce0b5..99717b6 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -71,7 +71,8 @@ func RetrieveID(name string) string {
 }
 
 func RetrieveRightID(name string) string {
-	return strings.Split(name, "-")[1]
+	_, id, _ := strings.Cut(name, "-")
+	return id
 }
 
 type Function interface {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 8c0e04e..b51426d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -18,7 +18,6 @@ import (
 	"github.com/gabivlj/candice/internals/token"
 	"github.com/gabivlj/candice/internals/undomap"
 	"github.com/gabivlj/candice/pkg/a"
-	"github.com/gabivlj/candice/pkg/logger"
 )
 
 type Semantic struct {
@@ -590,7 +589,8 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 			if semantic == nil && s.Root.ID == id {
 				semantic = s
 			} else if semantic == nil {
-				logger.Warning("there might be an error on the compiler, we can't find a module for some reason")
+				s.errorWithStatement("Couldn't guess type "+ast.RetrieveID(anonymous.Name), s.currentStatementBeingAnalyzed.GetToken())
+				return ctypes.TODO()
 			}
 		} else {
 			semantic = s.retrieveModule(module)
-- 
2.43.0


From e52dec6da06fb09ab689bce75b972f4c5008fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 55/97] fix: types inside of the function types of fields are
 looked up

---
 internals/semantic/semantic.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b51426d..f5ff665 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -477,6 +477,8 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				return
 			}
 			s.swapTypes(t, definedType)
+		} else if ctypes.IsFunction(unwrappedType) {
+			s.replaceAnonymous(unwrappedType)
 		} else if statementType.Type == t {
 			s.error(
 				"Recursive type detected",
@@ -504,6 +506,8 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				return
 			}
 			s.swapTypes(t, definedType)
+		} else if ctypes.IsFunction(unwrappedType) {
+			s.replaceAnonymous(unwrappedType)
 		} else if statementType.Type == t {
 			s.error(
 				"Recursive type detected",
@@ -644,6 +648,16 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return arr
 	}
 
+	if function, ok := t.(*ctypes.Function); ok {
+		for i := range function.Parameters {
+			function.Parameters[i] = s.swapTypes(function.Parameters[i], toSwap)
+		}
+		if function.Return != nil {
+			function.Return = s.swapTypes(function.Return, toSwap)
+		}
+		return function
+	}
+
 	if _, stopRecursionForStruct := t.(*ctypes.Struct); stopRecursionForStruct {
 		return t
 	}
-- 
2.43.0


From 4fe58bb0d8dd5cc81f7f41c17bb7f84a5d0f2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 56/97] fix: constants of other files are constants as well

---
 internals/semantic/semantic.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f5ff665..eb82493 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1045,13 +1045,7 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			identifier.Type = captured.Type
 		}
 
-		if !identifierType.IsConstant && s.expectConstantExpression {
-			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
-		}
-
-		if identifierType.IsConstant && s.expectNonConstantExpression {
-			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
-		}
+		s.checkConstantUse(identifierType, identifier)
 
 		return identifierType.Type
 	}
@@ -1060,6 +1054,17 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	return ctypes.TODO()
 }
 
+// checkConstantUse checks that constant expressions only use constants, and that constants aren't mutated
+func (s *Semantic) checkConstantUse(variable *SemanticType, identifier *ast.Identifier) {
+	if !variable.IsConstant && s.expectConstantExpression {
+		s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
+	}
+
+	if variable.IsConstant && s.expectNonConstantExpression {
+		s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
+	}
+}
+
 // captureVariable makes the anonymous function that is being analyzed capture the variable if it belongs to a
 // surrounding function. Returns nil when there is nothing to capture
 func (s *Semantic) captureVariable(name string, variable *SemanticType) *SemanticType {
@@ -1182,6 +1187,7 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		return ctypes.TODO()
 	}
 
+	s.checkConstantUse(accessedElement, identifier)
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0


From f645dc22ca3d07abcc4dbc58c90c7820415b1596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 57/97] fix: void can not be part of a comma expression

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index eb82493..e6eee55 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -916,6 +916,9 @@ func (s *Semantic) analyzeCommaExpressions(commaExpressions *ast.CommaExpression
 	for _, expression := range commaExpressions.Expressions {
 		t := s.analyzeExpression(expression)
 		t = s.UnwrapAnonymous(s.replaceAnonymous(t))
+		if t == ctypes.VoidType {
+			s.errorWithStatement("void can't be part of a comma expression", commaExpressions.Token)
+		}
 		commaExpressionsType.Types = append(commaExpressionsType.Types, t)
 	}
 
-- 
2.43.0


From 214a06063b661dd1fe1e86611068165047d37229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 58/97] fix: void has no address

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e6eee55..711a733 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1136,6 +1136,9 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 
 	if prefixOperation.Operation == ops.BinaryAND {
 		s.throwInvalidOperationForConstant("you can't ref on constant expressions", prefixOperation)
+		if t == ctypes.VoidType {
+			s.errorWithStatement("you can't reference void", prefixOperation.Token)
+		}
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
-- 
2.43.0


From 2ad875f86fad2a8eb06fd3c0bbcb515b82485f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 59/97] fix: an unknown attribute of a struct without
 attributes does not crash

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 711a733..55d9cc2 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -954,6 +954,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
+			continue
 		}
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
-- 
2.43.0


From 77bb2b8298b478733d4fab4e51025cff6794c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 60/97] fix: functions, types and imports inside of functions
 are an error

---
 internals/semantic/semantic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 55d9cc2..18d6f8f 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -174,6 +174,15 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 
 	s.currentStatementBeingAnalyzed = statement
 
+	switch statement.(type) {
+	case *ast.FunctionDeclarationStatement, *ast.StructStatement, *ast.UnionStatement, *ast.TypeDefinition,
+		*ast.GenericTypeDefinition, *ast.ImportStatement, *ast.ExternStatement:
+		if s.analyzingInsideFunction() {
+			s.errorWithStatement("this can only be declared outside of functions", statement.GetToken())
+			return
+		}
+	}
+
 	switch statementType := statement.(type) {
 	case *ast.MultipleDeclarationStatement:
 		{
-- 
2.43.0


From d9091964642035a5e7ac5139b283946a23bbd820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 61/97] fix: modules can be used before their import statement

---
 internals/compiler/compiler.go       | 14 ++------------
 internals/compiler/compiler_steps.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 42a50d7..0b8d873 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -366,18 +366,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.ImportStatement:
 		{
-			moduleName := t.Name
-			module := c.context.GetModule(moduleName)
-			if existingCompiler, ok := c.compiledModules[module.Root.ID]; ok {
-				c.compiledModules[module.Root.ID] = existingCompiler
-				c.modules[moduleName] = existingCompiler
-				return
-			}
-
-			localCompiler := New(module, c)
-			localCompiler.CompileWithEventHandler(module.Root, c.eventHandler)
-			c.compiledModules[module.Root.ID] = localCompiler
-			c.modules[moduleName] = localCompiler
+			// moved to compileImports
 			return
 		}
 
@@ -424,6 +413,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.Program:
 		{
+			c.compileImports(t.Statements)
 			for _, statement := range t.Statements {
 				c.Compile(statement)
 			}
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 14b5283..3d3fd27 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -34,3 +34,31 @@ func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// compileImports makes a compile pass that compiles the imported modules,
+// because they can be used before the import statement
+func (c *Compiler) compileImports(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ImportStatement:
+			c.compileImport(t)
+
+		case *ast.MacroBlock:
+			c.compileImports(t.Statements)
+		}
+	}
+}
+
+func (c *Compiler) compileImport(t *ast.ImportStatement) {
+	moduleName := t.Name
+	module := c.context.GetModule(moduleName)
+	if existingCompiler, ok := c.compiledModules[module.Root.ID]; ok {
+		c.modules[moduleName] = existingCompiler
+		return
+	}
+
+	localCompiler := New(module, c)
+	localCompiler.CompileWithEventHandler(module.Root, c.eventHandler)
+	c.compiledModules[module.Root.ID] = localCompiler
+	c.modules[moduleName] = localCompiler
+}
-- 
2.43.0


From a383fd1a9c9c960987195c62def573b3fd3f82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 62/97] fix: a member function that is not called is an error

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 18d6f8f..b214066 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -54,6 +54,9 @@ type Semantic struct {
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
+	// The expression that the function call being analyzed calls
+	calledExpression ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -995,6 +998,7 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
+	s.calledExpression = call.Left
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -1178,8 +1182,14 @@ func (s *Semantic) analyzeBinaryOperation(binaryOperation *ast.BinaryOperation)
 	}
 
 	if op == ops.Dot {
+		isCalled := s.calledExpression == binaryOperation
 		t := s.UnwrapAnonymous(s.analyzeFieldAccess(binaryOperation))
 		binaryOperation.Type = t
+		if s.additionalExpression != nil && !isCalled {
+			s.additionalExpression = nil
+			s.errorWithStatement("a member function can only be called, "+binaryOperation.String()+" is not a value", binaryOperation.Token)
+			return ctypes.TODO()
+		}
 		return t
 	}
 	s.errorWithStatement("can't analyze operator", binaryOperation.Token)
-- 
2.43.0


From 901d83f98372f49de8488a0c005dbd9343269bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 63/97] fix: declaring a type or a function twice is an error

---
 internals/semantic/semantic.go       |  1 +
 internals/semantic/semantic_steps.go | 33 ++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b214066..4bf770b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -151,6 +151,7 @@ func (s *Semantic) GetModule(name string) *Semantic {
 func (s *Semantic) Analyze(program *ast.Program) {
 	s.Root = program
 
+	s.checkRedeclarations(program.Statements, map[string]bool{}, map[string]bool{})
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 8b0821f..efb635f 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -5,6 +5,39 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 )
 
+// checkRedeclarations checks that no type and no function is declared twice in the same module.
+// Declaring an extern function again doesn't change anything
+func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, functions map[string]bool) {
+	declare := func(names map[string]bool, name string, statement ast.Statement) {
+		if names[name] {
+			s.errorWithStatement(ast.RetrieveID(name)+" is already declared", statement.GetToken())
+		}
+		names[name] = true
+	}
+	for _, statement := range statements {
+		s.currentStatementBeingAnalyzed = statement
+		switch t := statement.(type) {
+		case *ast.UnionStatement:
+			declare(types, t.Type.Name, t)
+
+		case *ast.StructStatement:
+			declare(types, t.Type.Name, t)
+
+		case *ast.TypeDefinition:
+			declare(types, t.Name, t)
+
+		case *ast.GenericTypeDefinition:
+			declare(types, t.Name, t)
+
+		case *ast.FunctionDeclarationStatement:
+			declare(functions, t.FunctionType.Name, t)
+
+		case *ast.MacroBlock:
+			s.checkRedeclarations(t.Statements, types, functions)
+		}
+	}
+}
+
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
-- 
2.43.0


From b1296eb921a6b12cf860bf25e9a3cad4b8574a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 64/97] fix: an extern function with the name of a function is
 an error

---
 internals/semantic/semantic.go       |  2 +-
 internals/semantic/semantic_steps.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4bf770b..3e4d016 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -151,7 +151,7 @@ func (s *Semantic) GetModule(name string) *Semantic {
 func (s *Semantic) Analyze(program *ast.Program) {
 	s.Root = program
 
-	s.checkRedeclarations(program.Statements, map[string]bool{}, map[string]bool{})
+	s.checkRedeclarations(program.Statements, map[string]bool{}, map[string]bool{}, map[string]bool{})
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index efb635f..0ef7ffe 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -7,7 +7,7 @@ import (
 
 // checkRedeclarations checks that no type and no function is declared twice in the same module.
 // Declaring an extern function again doesn't change anything
-func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, functions map[string]bool) {
+func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, functions, externs map[string]bool) {
 	declare := func(names map[string]bool, name string, statement ast.Statement) {
 		if names[name] {
 			s.errorWithStatement(ast.RetrieveID(name)+" is already declared", statement.GetToken())
@@ -32,8 +32,14 @@ func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, functi
 		case *ast.FunctionDeclarationStatement:
 			declare(functions, t.FunctionType.Name, t)
 
+		case *ast.ExternStatement:
+			if function, ok := t.Type.(*ctypes.Function); ok && !externs[function.Name] {
+				declare(functions, function.Name, t)
+				externs[function.Name] = true
+			}
+
 		case *ast.MacroBlock:
-			s.checkRedeclarations(t.Statements, types, functions)
+			s.checkRedeclarations(t.Statements, types, functions, externs)
 		}
 	}
 }
-- 
2.43.0


From e06c558a1c79589042adc1897633839662c21893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 65/97] fix: types of extern functions are looked up when every
 type is known

---
 internals/semantic/semantic.go       |  3 ++-
 internals/semantic/semantic_steps.go | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3e4d016..3f78a03 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -232,7 +232,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 		s.analyzeAssigmentStatement(statementType)
 		return
 	case *ast.ExternStatement:
-		// moved to fillTypes
+		// moved to predefineFunctions
 		// s.analyzeExternStatement(statementType)
 		return
 
@@ -287,6 +287,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
+	s.replaceAnonymous(funk)
 	s.variables.Add(funk.Name, s.newType(funk))
 }
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 0ef7ffe..2e7a308 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -82,6 +82,11 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
 			}
 
+		case *ast.ExternStatement:
+			{
+				s.analyzeExternStatement(t)
+			}
+
 		case *ast.MacroBlock:
 			{
 				s.predefineFunctions(t.Statements)
@@ -99,11 +104,6 @@ func (s *Semantic) fillTypes(statements []ast.Statement) {
 				s.analyzeTypeDefinition(t)
 			}
 
-		case *ast.ExternStatement:
-			{
-				s.analyzeExternStatement(t)
-			}
-
 		case *ast.GenericTypeDefinition:
 			{
 				s.analyzeGenericTypeDefinition(t)
-- 
2.43.0


From c1318b8641ce1f3416efe1cc8f2b420ab1d6cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 66/97] fix: extern functions can be used before their
 declaration

---
 internals/compiler/compiler.go       | 2 +-
 internals/compiler/compiler_steps.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 0b8d873..3b179dc 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -452,7 +452,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.ExternStatement:
 		{
-			c.compileExternFunc(t)
+			// moved to compileFunctionTypes
 			return
 		}
 
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 3d3fd27..7b71137 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -29,6 +29,9 @@ func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
 		case *ast.FunctionDeclarationStatement:
 			c.compileFunctionType(t.FunctionType.Name, t)
 
+		case *ast.ExternStatement:
+			c.compileExternFunc(t)
+
 		case *ast.MacroBlock:
 			c.compileFunctionTypes(t.Statements)
 		}
-- 
2.43.0


From d407a7cfcf218c629408a7719aa87f42181a3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 67/97] fix: a type that contains itself through another type
 is an error

---
 internals/semantic/semantic.go       |  7 ++++
 internals/semantic/semantic_steps.go | 54 ++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3f78a03..e2861ee 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -154,6 +154,13 @@ func (s *Semantic) Analyze(program *ast.Program) {
 	s.checkRedeclarations(program.Statements, map[string]bool{}, map[string]bool{}, map[string]bool{})
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
+	if len(s.Errors) > 0 {
+		return
+	}
+	s.checkRecursiveTypes(program.Statements)
+	if len(s.Errors) > 0 {
+		return
+	}
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 2e7a308..b98dc5e 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -130,3 +130,57 @@ func (s *Semantic) fillTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// checkRecursiveTypes checks that no struct or union of this module contains itself
+func (s *Semantic) checkRecursiveTypes(statements []ast.Statement) {
+	for _, statement := range statements {
+		s.currentStatementBeingAnalyzed = statement
+		switch t := statement.(type) {
+		case *ast.UnionStatement:
+			if s.containsItself(t.Type, map[ctypes.Type]bool{}) {
+				s.errorWithStatement("recursive type detected", t.Token)
+			}
+
+		case *ast.StructStatement:
+			if s.containsItself(t.Type, map[ctypes.Type]bool{}) {
+				s.errorWithStatement("recursive type detected", t.Token)
+			}
+
+		case *ast.MacroBlock:
+			s.checkRecursiveTypes(t.Statements)
+		}
+	}
+}
+
+// containsItself returns if a value of the type needs another value of a type in outer, or of its own type, inside of it
+func (s *Semantic) containsItself(t ctypes.Type, outer map[ctypes.Type]bool) bool {
+	var fields []ctypes.Type
+	t = s.UnwrapAnonymous(t)
+	switch t := t.(type) {
+	case *ctypes.Array:
+		return s.containsItself(t.Inner, outer)
+
+	case *ctypes.Struct:
+		fields = t.Fields
+
+	case *ctypes.Union:
+		fields = t.Fields
+
+	default:
+		return false
+	}
+
+	if outer[t] {
+		return true
+	}
+
+	outer[t] = true
+	defer delete(outer, t)
+	for _, field := range fields {
+		if s.containsItself(field, outer) {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From e760c3a7e8cec68ea41478156d64e15ab0664f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 68/97] fix: a pointer can be cast to a float

---
 internals/compiler/compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 3b179dc..2936da9 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1675,11 +1675,10 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
-		integer := c.block().NewPtrToInt(variable, toReturnType)
 		if _, isFloat := call.TypeParameters[0].(*ctypes.Float); isFloat {
-			return c.block().NewSIToFP(integer, toReturnType)
+			return c.block().NewSIToFP(c.block().NewPtrToInt(variable, types.I64), toReturnType)
 		}
-		return integer
+		return c.block().NewPtrToInt(variable, toReturnType)
 	}
 
 	if ctypes.IsPointer(call.TypeParameters[0]) && ctypes.IsNumeric(call.Parameters[0].GetType()) { ///types.IsInt(variable.Type()) {
-- 
2.43.0


From ba2ddaccbfcc6839d523026f9c340bd7aad20c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 69/97] fix: declaring a global variable twice is an error

---
 internals/semantic/semantic_steps.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index b98dc5e..14ffb80 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -5,9 +5,9 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 )
 
-// checkRedeclarations checks that no type and no function is declared twice in the same module.
+// checkRedeclarations checks that no type, variable or function is declared twice in the same module.
 // Declaring an extern function again doesn't change anything
-func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, functions, externs map[string]bool) {
+func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, values, externs map[string]bool) {
 	declare := func(names map[string]bool, name string, statement ast.Statement) {
 		if names[name] {
 			s.errorWithStatement(ast.RetrieveID(name)+" is already declared", statement.GetToken())
@@ -29,17 +29,20 @@ func (s *Semantic) checkRedeclarations(statements []ast.Statement, types, functi
 		case *ast.GenericTypeDefinition:
 			declare(types, t.Name, t)
 
+		case *ast.DeclarationStatement:
+			declare(values, t.Name, t)
+
 		case *ast.FunctionDeclarationStatement:
-			declare(functions, t.FunctionType.Name, t)
+			declare(values, t.FunctionType.Name, t)
 
 		case *ast.ExternStatement:
 			if function, ok := t.Type.(*ctypes.Function); ok && !externs[function.Name] {
-				declare(functions, function.Name, t)
+				declare(values, function.Name, t)
 				externs[function.Name] = true
 			}
 
 		case *ast.MacroBlock:
-			s.checkRedeclarations(t.Statements, types, functions, externs)
+			s.checkRedeclarations(t.Statements, types, values, externs)
 		}
 	}
 }
-- 
2.43.0


From 7d8a0dd770dbbdaad47508830285943ebcdc198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 70/97] fix: a call of a variadic function with too few
 arguments is an error

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e2861ee..df43a8e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1032,7 +1032,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		}
 	}
 
-	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
+	if len(call.Parameters) < len(funcType.Parameters) || len(call.Parameters) > len(funcType.Parameters) && !funcType.InfiniteParameters {
 
 		s.errorWithStatement(fmt.Sprintf("mismatch number of parameters, expected %d, got %d", len(funcType.Parameters), len(call.Parameters)), call.Token)
 	}
-- 
2.43.0


From 7418c97e32ad556441da4e24d425b138429fa908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 71/97] fix: small integers are extended when they are passed
 to C or returned to it

---
 internals/compiler/compiler.go     |  7 ++++
 internals/compiler/compiler_abi.go | 61 ++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+)
 create mode 100644 internals/compiler/compiler_abi.go

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 2936da9..8dd0f26 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -493,6 +493,7 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 
 	f := c.m.NewFunc(funcType.ExternalName, returnType, params...)
 	f.CallingConv = enum.CallingConvC
+	c.extendFunction(f, funcType)
 	if funcType.InfiniteParameters {
 		f.Sig.Variadic = true
 	}
@@ -555,10 +556,12 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	toReturnType := c.ToLLVMType(functionType.Return)
 	// Declare llvmFunction
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
+	c.extendFunction(llvmFunction, functionType)
 
 	if functionType.RedefineWithOriginalName {
 		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
+		c.extendFunction(llvmFunctionExtern, functionType)
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value: llvmFunctionExtern,
 			Type:  functionType,
@@ -1115,12 +1118,16 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	left := c.compileExpression(ast.Left)
 	funk := c.loadIfPointer(left)
 	arguments := make([]value.Value, 0, len(ast.Parameters))
+	functionType, _ := c.context.UnwrapAnonymous(ast.Left.GetType()).(*ctypes.Function)
 	for _, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
 		arguments = append(arguments, loadedValue)
 	}
 	thing := c.block().NewCall(funk, arguments...)
+	if functionType != nil {
+		c.extendCall(thing, functionType)
+	}
 	c.doNotLoadIntoMemory = true
 	return thing
 }
diff --git a/internals/compiler/compiler_abi.go b/internals/compiler/compiler_abi.go
new file mode 100644
index 0000000..83998f7
--- /dev/null
+++ b/internals/compiler/compiler_abi.go
@@ -0,0 +1,61 @@
+package compiler
+
+import (
+	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir"
+	"github.com/llir/llvm/ir/enum"
+)
+
+// C expects that whoever passes or returns an integer smaller than an int extends it to one.
+
+func (c *Compiler) extendParameter(t ctypes.Type) []ir.ParamAttribute {
+	switch integer := c.context.UnwrapAnonymous(t).(type) {
+	case *ctypes.Integer:
+		if integer.BitSize == 1 {
+			return []ir.ParamAttribute{enum.ParamAttrZeroExt}
+		}
+		if integer.BitSize < 32 {
+			return []ir.ParamAttribute{enum.ParamAttrSignExt}
+		}
+	case *ctypes.UInteger:
+		if integer.BitSize < 32 {
+			return []ir.ParamAttribute{enum.ParamAttrZeroExt}
+		}
+	}
+	return nil
+}
+
+func (c *Compiler) extendReturn(t ctypes.Type) []ir.ReturnAttribute {
+	switch integer := c.context.UnwrapAnonymous(t).(type) {
+	case *ctypes.Integer:
+		if integer.BitSize == 1 {
+			return []ir.ReturnAttribute{enum.ReturnAttrZeroExt}
+		}
+		if integer.BitSize < 32 {
+			return []ir.ReturnAttribute{enum.ReturnAttrSignExt}
+		}
+	case *ctypes.UInteger:
+		if integer.BitSize < 32 {
+			return []ir.ReturnAttribute{enum.ReturnAttrZeroExt}
+		}
+	}
+	return nil
+}
+
+// extendFunction declares how the function receives its parameters and returns its value
+func (c *Compiler) extendFunction(function *ir.Func, functionType *ctypes.Function) {
+	for i, param := range function.Params {
+		param.Attrs = c.extendParameter(functionType.Parameters[i])
+	}
+	function.ReturnAttrs = c.extendReturn(functionType.Return)
+}
+
+// extendCall passes the arguments in the way that the function that is being called receives them
+func (c *Compiler) extendCall(call *ir.InstCall, functionType *ctypes.Function) {
+	for i, parameter := range functionType.Parameters {
+		if attributes := c.extendParameter(parameter); attributes != nil {
+			call.Args[i] = ir.NewArg(call.Args[i], attributes...)
+		}
+	}
+	call.ReturnAttrs = c.extendReturn(functionType.Return)
+}
-- 
2.43.0


From 867882462cfb8b30d9fa189274ae4a807ce62afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 72/97] fix: arguments of variadic functions are promoted as C
 does

---
 internals/compiler/compiler.go     |  5 ++++-
 internals/compiler/compiler_abi.go | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8dd0f26..493969d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1119,9 +1119,12 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	funk := c.loadIfPointer(left)
 	arguments := make([]value.Value, 0, len(ast.Parameters))
 	functionType, _ := c.context.UnwrapAnonymous(ast.Left.GetType()).(*ctypes.Function)
-	for _, argument := range ast.Parameters {
+	for i, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
+		if functionType != nil && i >= len(functionType.Parameters) {
+			loadedValue = c.promoteVariadicArgument(loadedValue, argument.GetType())
+		}
 		arguments = append(arguments, loadedValue)
 	}
 	thing := c.block().NewCall(funk, arguments...)
diff --git a/internals/compiler/compiler_abi.go b/internals/compiler/compiler_abi.go
index 83998f7..5bcc43e 100644
--- a/internals/compiler/compiler_abi.go
+++ b/internals/compiler/compiler_abi.go
@@ -4,6 +4,8 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/enum"
+	"github.com/llir/llvm/ir/types"
+	"github.com/llir/llvm/ir/value"
 )
 
 // C expects that whoever passes or returns an integer smaller than an int extends it to one.
@@ -59,3 +61,17 @@ func (c *Compiler) extendCall(call *ir.InstCall, functionType *ctypes.Function)
 	}
 	call.ReturnAttrs = c.extendReturn(functionType.Return)
 }
+
+// promoteVariadicArgument makes the conversions that C does to the arguments of a variadic function
+func (c *Compiler) promoteVariadicArgument(argument value.Value, t ctypes.Type) value.Value {
+	switch {
+	case types.Equal(argument.Type(), types.Float):
+		return c.block().NewFPExt(argument, types.Double)
+	case types.IsInt(argument.Type()) && argument.Type().(*types.IntType).BitSize < 32:
+		if argument.Type().Equal(types.I1) || ctypes.IsUnsignedInteger(c.context.UnwrapAnonymous(t)) {
+			return c.block().NewZExt(argument, types.I32)
+		}
+		return c.block().NewSExt(argument, types.I32)
+	}
+	return argument
+}
-- 
2.43.0


From dfe4fe23a7695a5d34333049b4286d4fd3323199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 73/97] fix: a function of C can be declared more than once,
 with other types of pointers

---
 internals/compiler/compiler.go       |  50 ++++---------
 internals/compiler/compiler_utils.go | 106 +++++++++------------------
 2 files changed, 50 insertions(+), 106 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 493969d..80eefb6 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -471,43 +471,15 @@ func (c *Compiler) compileTypeDefinition(t *ast.TypeDefinition) {
 
 func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	funcType := externFunc.Type.(*ctypes.Function)
-
-	// Check if the variable has been defined anywhere in LLVM
-	if f, ok := c.globalVariables[funcType.ExternalName]; ok {
-		c.globalVariables[funcType.Name] = f
-		return
-	}
-
-	if f, ok := c.globalBuiltinDefinitions[funcType.ExternalName]; ok {
-		funk := &Value{Value: f, Type: funcType}
-		c.globalVariables[funcType.Name] = funk
-		return
-	}
-
-	returnType := c.ToLLVMType(funcType.Return)
-	params := []*ir.Param{}
-	for _, parameter := range funcType.Parameters {
-		parameterType := c.ToLLVMType(parameter)
-		params = append(params, ir.NewParam("", parameterType))
-	}
-
-	f := c.m.NewFunc(funcType.ExternalName, returnType, params...)
-	f.CallingConv = enum.CallingConvC
-	c.extendFunction(f, funcType)
-	if funcType.InfiniteParameters {
-		f.Sig.Variadic = true
+	signature := c.ToLLVMType(funcType).(*types.PointerType).ElemType.(*types.FuncType)
+	signature.Variadic = funcType.InfiniteParameters
+	_, declared := c.globalBuiltinDefinitions[funcType.ExternalName]
+	function := c.cFunction(funcType.ExternalName, signature)
+	if !declared {
+		c.extendFunction(function.(*ir.Func), funcType)
 	}
-
-	funk := &Value{Value: f, Type: funcType}
 	// Define the variable to local module facing references
-	c.globalVariables[funcType.Name] = funk
-	// Define the variable to C ABI facing code so the rest of modules
-	// can know if this variable has been defined
-	c.globalVariables[funcType.ExternalName] = funk
-	// Define the variable for builtin functions in case that they are trying to
-	// define this variable. For example @alloc wants to define malloc but it has been
-	// defined on an extern funcs
-	c.globalBuiltinDefinitions[funcType.ExternalName] = funk.Value
+	c.globalVariables[funcType.Name] = &Value{Value: function, Type: funcType}
 }
 
 func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
@@ -559,8 +531,14 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	c.extendFunction(llvmFunction, functionType)
 
 	if functionType.RedefineWithOriginalName {
-		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
+		llvmFunctionExtern, declared := c.globalBuiltinDefinitions[functionType.ExternalName].(*ir.Func)
+		if declared && llvmFunctionExtern.Type().Equal(llvmFunction.Type()) {
+			llvmFunctionExtern.Params = params
+		} else {
+			llvmFunctionExtern = c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
+		}
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
+		c.globalBuiltinDefinitions[functionType.ExternalName] = llvmFunctionExtern
 		c.extendFunction(llvmFunctionExtern, functionType)
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value: llvmFunctionExtern,
diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 392357e..61ebc25 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -31,90 +31,56 @@ func (c *Compiler) createString(s string) value.Value {
 	return i8sType
 }
 
-func (c *Compiler) memcpy() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["memcpy"]; ok {
-		return fn.(*ir.Func)
+// cFunction returns a function of C with the wanted type. It might have been declared already, maybe by the program and
+// with other types of pointers.
+func (c *Compiler) cFunction(name string, wanted *types.FuncType) value.Value {
+	function, ok := c.globalBuiltinDefinitions[name]
+	if !ok {
+		params := make([]*ir.Param, 0, len(wanted.Params))
+		for _, param := range wanted.Params {
+			params = append(params, ir.NewParam("", param))
+		}
+		declaration := c.m.NewFunc(name, wanted.RetType, params...)
+		declaration.Sig.Variadic = wanted.Variadic
+		declaration.CallingConv = enum.CallingConvC
+		c.globalBuiltinDefinitions[name] = declaration
+		return declaration
 	}
 
-	memcpy := c.m.NewFunc("memcpy", types.Void, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["memcpy"] = memcpy
-	memcpy.CallingConv = enum.CallingConvC
-	return memcpy
+	if pointer := types.NewPointer(wanted); !function.Type().Equal(pointer) {
+		return constant.NewBitCast(function.(constant.Constant), pointer)
+	}
+	return function
 }
 
-func (c *Compiler) strlen() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strlen"]; ok {
-		return fn.(*ir.Func)
-	}
-	strlen := c.m.NewFunc("strlen", types.I64, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["strlen"] = strlen
-	strlen.CallingConv = enum.CallingConvC
-	return strlen
+func (c *Compiler) memcpy() value.Value {
+	return c.cFunction("memcpy", types.NewFunc(types.Void, types.I8Ptr, types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) malloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["malloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	malloc := c.m.NewFunc(
-		"malloc",
-		types.NewPointer(types.I8),
-		ir.NewParam("", types.I64),
-	)
-	c.globalBuiltinDefinitions["malloc"] = malloc
-	malloc.CallingConv = enum.CallingConvC
-	return malloc
+func (c *Compiler) strlen() value.Value {
+	return c.cFunction("strlen", types.NewFunc(types.I64, types.I8Ptr))
 }
 
-func (c *Compiler) printf() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["printf"]; ok {
-		return fn.(*ir.Func)
-	}
-	printf := c.m.NewFunc(
-		"printf",
-		types.I32,
-		ir.NewParam("", types.NewPointer(types.I8)),
-	)
-	c.globalBuiltinDefinitions["printf"] = printf
-	printf.Sig.Variadic = true
-	printf.CallingConv = enum.CallingConvC
-	return printf
+func (c *Compiler) malloc() value.Value {
+	return c.cFunction("malloc", types.NewFunc(types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) realloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["realloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	realloc := c.m.NewFunc("realloc", types.I8Ptr, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["realloc"] = realloc
-	realloc.Sig.Variadic = true
-	realloc.CallingConv = enum.CallingConvC
-	return realloc
+func (c *Compiler) printf() value.Value {
+	signature := types.NewFunc(types.I32, types.I8Ptr)
+	signature.Variadic = true
+	return c.cFunction("printf", signature)
 }
 
-func (c *Compiler) free() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["free"]; ok {
-		return fn.(*ir.Func)
-	}
-	free := c.m.NewFunc("free", types.Void, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["free"] = free
-	free.CallingConv = enum.CallingConvC
-	return free
+func (c *Compiler) realloc() value.Value {
+	return c.cFunction("realloc", types.NewFunc(types.I8Ptr, types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) strcmp() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strcmp"]; ok {
-		return fn.(*ir.Func)
-	}
-	strcmp := c.m.NewFunc(
-		"strcmp",
-		types.I32,
-		ir.NewParam("", types.I8Ptr),
-		ir.NewParam("", types.I8Ptr),
-	)
-	c.globalBuiltinDefinitions["strcmp"] = strcmp
-	strcmp.CallingConv = enum.CallingConvC
-	return strcmp
+func (c *Compiler) free() value.Value {
+	return c.cFunction("free", types.NewFunc(types.Void, types.I8Ptr))
+}
+
+func (c *Compiler) strcmp() value.Value {
+	return c.cFunction("strcmp", types.NewFunc(types.I32, types.I8Ptr, types.I8Ptr))
 }
 
 // use this for concatenating strings
-- 
2.43.0


From 124b7f8c9beecacaae59357cf17be5ac14c05a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 74/97] fix: nothing holds a value of void, and a pointer to
 void is one that LLVM has

---
 internals/compiler/compiler_types.go   |  7 ++++-
 internals/semantic/semantic.go         | 36 ++++++++++++++++++++++++++
 internals/semantic/semantic_builtin.go |  4 +++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index cbab328..a2e5b06 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -105,7 +105,12 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 		}
 	case *ctypes.Pointer:
 		{
-			return types.NewPointer(c.ToLLVMType(el.Inner))
+			inner := c.ToLLVMType(el.Inner)
+			if inner == types.Void {
+				// LLVM doesn't have pointers to void
+				return types.I8Ptr
+			}
+			return types.NewPointer(inner)
 		}
 
 	case *ctypes.Union:
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index df43a8e..617eff0 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -280,6 +280,9 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 func (s *Semantic) analyzeTypeDefinition(typeDef *ast.TypeDefinition) {
 	s.replaceAnonymous(typeDef.Type)
 	trueType := s.UnwrapAnonymous(typeDef.Type)
+	if s.containsVoidValue(trueType) {
+		s.expectValueType(trueType, typeDef.Token)
+	}
 	typeDef.Type = trueType
 	s.definedTypes[typeDef.Name] = trueType
 }
@@ -295,6 +298,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
 	s.replaceAnonymous(funk)
+	s.expectValueType(funk, extern.Token)
 	s.variables.Add(funk.Name, s.newType(funk))
 }
 
@@ -380,6 +384,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.enterFrame()
 
 	s.replaceAnonymousFunctionParameterTypes(fun)
+	s.expectValueType(fun, functionToken)
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
 	fun.Return = s.UnwrapAnonymous(fun.Return)
@@ -506,6 +511,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				statementType.Token,
 			)
 		}
+		s.expectValueType(t, statementType.Token)
 		statementType.Type.Fields[i] = t
 	}
 }
@@ -535,6 +541,7 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				statementType.Token,
 			)
 		}
+		s.expectValueType(t, statementType.Token)
 		statementType.Type.Fields[i] = t
 	}
 }
@@ -579,6 +586,7 @@ func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationState
 		}
 		s.replaceAnonymous(declType)
 		declType = s.UnwrapAnonymous(declType)
+		s.expectValueType(declType, declaration.Token)
 		declaration.Type = declType
 		declaredType := s.newType(declType)
 		declaredType.IsConstant = declaration.Constant
@@ -592,6 +600,31 @@ func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationState
 	s.variables.Add(declaration.Name, declaredType)
 }
 
+// expectValueType reports types that are, or contain, a value of void: fields, elements and parameters have
+// a value. A pointer to void is fine.
+func (s *Semantic) expectValueType(t ctypes.Type, tok token.Token) {
+	if t == ctypes.VoidType || s.containsVoidValue(t) {
+		s.error("void can't be the type of a value", tok)
+	}
+}
+
+func (s *Semantic) containsVoidValue(t ctypes.Type) bool {
+	switch t := t.(type) {
+	case *ctypes.Pointer:
+		return s.containsVoidValue(t.Inner)
+	case *ctypes.Array:
+		return t.Inner == ctypes.VoidType || s.containsVoidValue(t.Inner)
+	case *ctypes.Function:
+		for _, param := range t.Parameters {
+			if param == ctypes.VoidType || s.containsVoidValue(param) {
+				return true
+			}
+		}
+		return s.containsVoidValue(t.Return)
+	}
+	return false
+}
+
 func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 	if t == ctypes.TODO() {
 		return t
@@ -895,6 +928,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 
 	if ptr, ok := leftType.(*ctypes.Pointer); ok {
 		indexAccess.Type = ptr.Inner
+		s.expectValueType(ptr.Inner, indexAccess.Token)
 		return ptr.Inner
 	}
 
@@ -1001,6 +1035,7 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 		}
 	}
 
+	s.expectValueType(arrayType, arrayLiteral.Token)
 	arrayLiteral.Type = arrayType
 	return arrayType
 }
@@ -1173,6 +1208,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			return t
 		} else {
 			prefixOperation.Type = s.UnwrapAnonymous(ptr.Inner)
+			s.expectValueType(prefixOperation.Type, prefixOperation.Token)
 			return prefixOperation.Type
 		}
 	}
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 8e4f11c..44cd877 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,6 +24,9 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
+	if toType != ctypes.VoidType {
+		s.expectValueType(toType, castCall.Token)
+	}
 	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
 		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
 		castCall.Type = toType
@@ -45,6 +48,7 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
 	t := s.replaceAnonymous(s.UnwrapAnonymous(allocCall.TypeParameters[0]))
+	s.expectValueType(t, allocCall.Token)
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsInteger(expr) {
-- 
2.43.0


From f53c330669ef9885b5e19125f546a744a096418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 75/97] fix: an empty return where a pointer to void is
 expected is reported

---
 internals/semantic/semantic_errors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 9b3b86d..31dea46 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -143,7 +143,9 @@ func (semantic *Semantic) formatLine(s string) string {
 func (s *Semantic) typeMismatchError(node string, wrongPart ast.Expression, tok token.Token, expected, got ctypes.Type) {
 	var message string
 
-	s.checkDereferenceErrors(node, got, expected, wrongPart)
+	if wrongPart != nil {
+		s.checkDereferenceErrors(node, got, expected, wrongPart)
+	}
 
 	if len(s.Errors) == 0 {
 		message = fmt.Sprintf("\n\n%s \n%s mismatched types, expected %s, got %s\n", node, strings.Repeat("^", len(node)), expected.String(), got.String())
-- 
2.43.0


From 22cc9bf3db8fba7263c319ed0f6b70d39dfe595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 76/97] fix: the cast that an error suggests is an expression
 with a type

---
 internals/semantic/semantic_errors.go | 12 ++----------
 internals/semantic/semantic_type.go   | 12 ++++++++++++
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 31dea46..689a7b2 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -182,17 +182,9 @@ func (s *Semantic) typeMismatchBlameBinaryExpressionError(node string, binary *a
 	wrongLine := s.getCurrentStatementLineFormatted()
 	// Decide which side of the operation do you want to cast
 	if blameRight {
-		binary.Right = &ast.BuiltinCall{
-			Name:           "cast",
-			TypeParameters: []ctypes.Type{expected},
-			Parameters:     []ast.Expression{binary.Right},
-		}
+		binary.Right = s.wrapInCast(binary.Right, expected)
 	} else {
-		binary.Left = &ast.BuiltinCall{
-			Name:           "cast",
-			TypeParameters: []ctypes.Type{got},
-			Parameters:     []ast.Expression{binary.Left},
-		}
+		binary.Left = s.wrapInCast(binary.Left, got)
 	}
 	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, node, strings.Repeat("^", len(node)), expected.String(), got.String())
 	if ctypes.IsNumeric(expected) && ctypes.IsNumeric(got) {
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index e789cce..ce6b3ce 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -46,3 +46,15 @@ func (s *Semantic) wrapInOperators(expression ast.Expression, times int, operato
 	}
 	return expression
 }
+
+func (s *Semantic) wrapInCast(expression ast.Expression, t ctypes.Type) ast.Expression {
+	return &ast.BuiltinCall{
+		Node: &node.Node{
+			Type:  t,
+			Token: expression.GetToken(),
+		},
+		Name:           "cast",
+		TypeParameters: []ctypes.Type{t},
+		Parameters:     []ast.Expression{expression},
+	}
+}
-- 
2.43.0


From eaaaf953ce1cecab25e678554def946fe67d11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 77/97] fix: constants without a value are reported, LLVM has
 no expressions for them

---
 internals/compiler/compiler_constant.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 6401c44..c713496 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -121,6 +121,12 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 			if folded := foldIntegers(op, firstInteger, secondInteger, isUnsigned); folded != nil {
 				return folded
 			}
+			switch op {
+			case ops.Divide, ops.Modulo:
+				c.exitErrorExpression("division by zero in a constant", expr)
+			case ops.LeftShift, ops.RightShift:
+				c.exitErrorExpression("the amount of a shift in a constant is too large", expr)
+			}
 		}
 	}
 
-- 
2.43.0


From 86ace02327e40541f325cd3e1c952f385feb9ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 78/97] fix: what is not a number is different from itself

---
 internals/compiler/compiler_comparisons.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 730364e..012fd31 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -42,7 +42,8 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 		case ops.Equals:
 			return enum.FPredOEQ
 		case ops.NotEquals:
-			return enum.FPredONE
+			// what is not a number is different from everything
+			return enum.FPredUNE
 		}
 	}
 
-- 
2.43.0


From c4fc5c027da1d96dfaffdd242de979d89631420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 79/97] fix: constants that are not a number are folded like
 the others

---
 internals/compiler/compiler_constant.go      |  2 +-
 internals/compiler/compiler_constant_fold.go | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index c713496..97aac29 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -131,7 +131,7 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 	}
 
 	if firstFloat, ok := first.(*constant.Float); ok {
-		if secondFloat, ok := second.(*constant.Float); ok && !firstFloat.NaN && !secondFloat.NaN {
+		if secondFloat, ok := second.(*constant.Float); ok {
 			if folded := foldFloats(op, firstFloat, secondFloat); folded != nil {
 				return folded
 			}
diff --git a/internals/compiler/compiler_constant_fold.go b/internals/compiler/compiler_constant_fold.go
index 206cd98..8923f45 100644
--- a/internals/compiler/compiler_constant_fold.go
+++ b/internals/compiler/compiler_constant_fold.go
@@ -74,10 +74,17 @@ func foldIntegers(op ops.Operation, first, second *constant.Int, unsigned bool)
 	return newFoldedInteger(result, t)
 }
 
+func valueOfFloat(f *constant.Float) float64 {
+	if f.NaN {
+		return math.NaN()
+	}
+	x, _ := f.X.Float64()
+	return x
+}
+
 // foldFloats returns nil when the operation can't be folded
 func foldFloats(op ops.Operation, first, second *constant.Float) constant.Constant {
-	a, _ := first.X.Float64()
-	b, _ := second.X.Float64()
+	a, b := valueOfFloat(first), valueOfFloat(second)
 	switch op {
 	case ops.Add:
 		return newFoldedFloat(a+b, first.Typ)
@@ -115,9 +122,8 @@ func foldCast(val constant.Constant, fromUnsigned bool, to types.Type) constant.
 			x, _ := val.X.Int(nil)
 			return newFoldedInteger(x, to)
 		}
-		if to, isFloat := to.(*types.FloatType); isFloat && !val.NaN {
-			f, _ := val.X.Float64()
-			return newFoldedFloat(f, to)
+		if to, isFloat := to.(*types.FloatType); isFloat {
+			return newFoldedFloat(valueOfFloat(val), to)
 		}
 	}
 	return nil
-- 
2.43.0


From 09237eb81825decfb50c5918b9e931eb7dc17183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 80/97] fix: a boolean that is true is 1 as a floating point
 number

---
 internals/compiler/compiler_conversions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 865d15d..c86cde0 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -89,7 +89,8 @@ func (c *Compiler) floatToInt(toReturn *types.IntType, variable value.Value, isU
 }
 
 func (c *Compiler) intToFloat(toReturn *types.FloatType, variable value.Value, isUnsigned bool) value.Value {
-	if isUnsigned {
+	// the one bit of a boolean is not a sign
+	if isUnsigned || variable.Type().(*types.IntType).BitSize == 1 {
 		return c.block().NewUIToFP(variable, toReturn)
 	}
 
-- 
2.43.0


From d05d8061eebddb78b879ef36c6e01162d3ccf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 81/97] fix: a literal that is too large for f32 is reported

---
 internals/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 5022351..331ae94 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -880,7 +880,8 @@ func (p *Parser) parseInteger() ast.Expression {
 
 func (p *Parser) parseFloat() ast.Expression {
 	t := p.nextToken()
-	float, err := strconv.ParseFloat(t.Literal, 64)
+	// literals have the type f32
+	float, err := strconv.ParseFloat(t.Literal, 32)
 	if err != nil {
 		p.addErrorMessage("couldn't parse float " + t.Literal + ", because of given error: " + err.Error())
 	}
-- 
2.43.0


From fdce24f3f8254152b5f29d8ac3827abfe9d2c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 82/97] fix: the negation of a constant is a constant

---
 internals/compiler/compiler_constant.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 97aac29..18234a4 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -81,6 +81,16 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	switch expr := expr.(type) {
 	case *ast.Identifier:
 		return c.compileIdentifier(expr).(constant.Constant)
+	case *ast.PrefixOperation:
+		if expr.Operation == ops.Subtract {
+			switch operand := c.compileConstantExpression(expr.Right).(type) {
+			case *constant.Int:
+				return foldIntegers(ops.Subtract, constant.NewInt(operand.Typ, 0), operand, false)
+			case *constant.Float:
+				return foldFloats(ops.Multiply, operand, constant.NewFloat(operand.Typ, -1))
+			}
+		}
+		c.exitErrorExpression("unexpected non constant operation", expr)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
-- 
2.43.0


From 91425cd150401c4c953b6e3ea296392541c34eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 83/97] fix: a function whose parameter has the same name has a
 first block with another one

---
 internals/compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 80eefb6..364e63b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -560,7 +560,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	llvmFunction := c.compileFunctionType(name, funk)
 
 	// Create a main block to the function
-	c.pushBlock(llvmFunction.NewBlock(funk.GetFunctionType().Name))
+	c.pushBlock(llvmFunction.NewBlock("entry." + funk.GetFunctionType().Name))
 
 	// Declare parameters IR
 	for _, param := range llvmFunction.Params {
-- 
2.43.0


From 32dd890d8aa195eaeb9bb687d5ed45a2a82dda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 84/97] fix: parameters and fields with the same name are
 reported

---
 internals/semantic/semantic.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 617eff0..7dbec1e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -374,6 +374,17 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	}
 }
 
+// expectDifferentNames reports the parameters or fields that have the name of another one
+func (s *Semantic) expectDifferentNames(names []string, tok token.Token) {
+	seen := map[string]bool{}
+	for _, name := range names {
+		if seen[name] {
+			s.error("'"+ast.RetrieveID(name)+"' is declared more than once", tok)
+		}
+		seen[name] = true
+	}
+}
+
 func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Function, block *ast.Block) {
 	if fun.Return == nil {
 		fun.Return = ctypes.VoidType
@@ -384,6 +395,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.enterFrame()
 
 	s.replaceAnonymousFunctionParameterTypes(fun)
+	s.expectDifferentNames(fun.Names, functionToken)
 	s.expectValueType(fun, functionToken)
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
@@ -489,6 +501,7 @@ func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement)
 
 func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.expectDifferentNames(statementType.Type.Names, statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		// Get underlying type
@@ -519,6 +532,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 	// nit: literally the same function as analzyzeStructStatement, rewrite it to a single one.
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.expectDifferentNames(statementType.Type.Names, statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		// Get underlying type
@@ -1005,7 +1019,12 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		paramMap[name] = i
 	}
 
+	given := map[string]bool{}
 	for _, value := range structLiteral.Values {
+		if given[value.Name] {
+			s.errorWithStatement("the attribute "+value.Name+" of the struct literal is given more than once", structLiteral.Token)
+		}
+		given[value.Name] = true
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
-- 
2.43.0


From 5f3bb1255ed0a7a27a3fe700a4f712bf4ab8c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 85/97] fix: a call without a value can't be printed

---
 internals/semantic/semantic_builtin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 44cd877..d825792 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -66,7 +66,9 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		s.analyzeExpression(param)
+		if s.UnwrapAnonymous(s.analyzeExpression(param)) == ctypes.VoidType {
+			s.error("expected a value to print, "+param.String()+" has none", printCall.Token)
+		}
 	}
 	return ctypes.VoidType
 }
-- 
2.43.0


From df47b80101be8c890af73ac269ee4065734bba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 86/97] fix: casts of arrays that the compiler has no code for
 are reported

---
 internals/semantic/semantic_builtin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index d825792..81ac3d0 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -27,8 +27,9 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	if toType != ctypes.VoidType {
 		s.expectValueType(toType, castCall.Token)
 	}
-	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
-		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
+	// an array only becomes a pointer to its first element
+	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) && (ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) ||
+		ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
 		castCall.Type = toType
 		return toType
 	}
-- 
2.43.0


From eb5989b941cf20d188751bec30f9806df4bfa193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 87/97] fix: globals that are initialised with a variable are
 reported

---
 internals/compiler/compiler_constant.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 18234a4..4227106 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -5,6 +5,7 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 
 	"github.com/gabivlj/candice/internals/ops"
+	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/types"
 )
@@ -80,7 +81,11 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Constant {
 	switch expr := expr.(type) {
 	case *ast.Identifier:
-		return c.compileIdentifier(expr).(constant.Constant)
+		value := c.compileIdentifier(expr)
+		if _, isVariable := value.(*ir.Global); isVariable {
+			c.exitErrorExpression("the value of a variable is no constant", expr)
+		}
+		return value.(constant.Constant)
 	case *ast.PrefixOperation:
 		if expr.Operation == ops.Subtract {
 			switch operand := c.compileConstantExpression(expr.Right).(type) {
@@ -148,6 +153,10 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 		}
 	}
 
+	if !types.IsInt(first.Type()) && !types.IsFloat(first.Type()) {
+		c.exitErrorExpression("unexpected non constant operation", expr)
+	}
+
 	switch op {
 	case ops.Add:
 		if types.IsFloat(first.Type()) {
-- 
2.43.0


From c2bd8069e3ec6a7b4852a4ed63e780135eb32e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 88/97] fix: global variables that hold a function can be
 assigned

---
 internals/compiler/compiler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 364e63b..21a18ff 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -772,7 +772,11 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 
 	if c.currentFunction == nil {
 		c.doNotAllocate = false
-		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
+		if function, isConstant := valueCompiled.(constant.Constant); isConstant && ctypes.IsFunction(decl.Type) {
+			// not the function itself: another one can be assigned
+			global := c.m.NewGlobalDef(decl.Name+".global", function)
+			c.globalVariables[decl.Name] = &Value{Value: global, Type: decl.Type}
+		} else if isConstant {
 			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
 		} else {
 			c.exitErrorExpression("Candice does not support non-constant global expressions and operations yet.", decl.Expression)
@@ -1071,7 +1075,9 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			return globalDefPointer
 		}
 
-		c.doNotLoadIntoMemory = true
+		if _, isVariable := fn.Value.(*ir.Global); !isVariable {
+			c.doNotLoadIntoMemory = true
+		}
 		return fn.Value
 	}
 
-- 
2.43.0


From b6e04c4c12569b4e19b49f112b6a68dd226a15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 89/97] fix: a constant that a lambda captures is a constant in
 it

---
 internals/compiler/compiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 21a18ff..6160682 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -906,6 +906,11 @@ func (c *Compiler) compileAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	var namedValues []NamedValue
 	for _, capturedVariableName := range anonymousFunction.CapturedVariables {
 		variable := c.loadIfPointer(c.retrieveVariable(capturedVariableName))
+		if number, isConstant := variable.(constant.Constant); isConstant && !types.IsPointer(number.Type()) {
+			// A constant of the function outside is still a constant
+			namedValues = append(namedValues, NamedValue{Name: capturedVariableName, Value: number})
+			continue
+		}
 		global := c.m.NewGlobalDef("func.captured."+capturedVariableName+random.RandomString(5), constant.NewUndef(variable.Type()))
 		c.block().NewStore(variable, global)
 		namedValues = append(namedValues, NamedValue{Name: capturedVariableName, Value: global})
-- 
2.43.0


From 0d94587670d54b1698ec1e36c5d96121386a7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 90/97] fix: imports of a file in another directory are
 relative to that file

---
 internals/build/builder.go     | 1 +
 internals/program/program.go   | 2 ++
 internals/semantic/semantic.go | 6 +++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index d15cc31..849fb32 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -87,6 +87,7 @@ func ExecuteProject() {
 		return
 	}
 	s := semantic.New()
+	s.ContextDirectoryPath = path.Dir(config.EntryPoint)
 	s.Analyze(tree)
 
 	for _, err := range s.Warnings {
diff --git a/internals/program/program.go b/internals/program/program.go
index f306177..3c9563a 100644
--- a/internals/program/program.go
+++ b/internals/program/program.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"path"
 	"strconv"
 	"strings"
 	"time"
@@ -48,6 +49,7 @@ func Init() {
 		return
 	}
 	s := semantic.New()
+	s.ContextDirectoryPath = path.Dir(file)
 	s.Analyze(tree)
 	if len(s.Errors) > 0 {
 		for _, err := range s.Errors {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7dbec1e..907cd52 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1441,7 +1441,11 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		currentPath = "/"
 	}
 	// Join total path from the compiler standpoint to the context directory path
-	currentPath = path.Join(currentPath, s.ContextDirectoryPath)
+	if path.IsAbs(s.ContextDirectoryPath) {
+		currentPath = s.ContextDirectoryPath
+	} else {
+		currentPath = path.Join(currentPath, s.ContextDirectoryPath)
+	}
 	// Join that path with import path, having the complete path to the file
 	currentPathPlusImport := path.Join(currentPath, importStatement.Path.Value)
 	hashType := strings.Builder{}
-- 
2.43.0


From 10388ec0967a4cf1093e8e365fa85cac9566acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 91/97] fix: the paths of a configuration are relative to its
 project

---
 internals/build/builder.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index 849fb32..5a6f8a8 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -8,8 +8,6 @@ import (
 	"strconv"
 	"time"
 
-	paths "path"
-
 	"github.com/gabivlj/candice/internals/compiler"
 	"github.com/gabivlj/candice/internals/lexer"
 	"github.com/gabivlj/candice/internals/parser"
@@ -64,7 +62,13 @@ func ExecuteProject() {
 		return
 	}
 
-	config, err := ParseConfigurationFile(paths.Join(flags.Path, "candice.json"))
+	// The paths of a configuration are relative to its project
+	if err := os.Chdir(flags.Path); err != nil {
+		logger.Error("Project", err.Error())
+		return
+	}
+
+	config, err := ParseConfigurationFile("candice.json")
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-- 
2.43.0


From c97f423b28cafe4f6abecbe419416d536e1c33d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 92/97] fix: llvm with obj writes the object where it was asked
 on every platform

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6160682..5f8d62f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -282,8 +282,8 @@ func (c *Compiler) GenerateExecutableExperimental(output string, cxx string, fla
 		return err
 	}
 
-	if !link {
-		return err
+	if !link && pathOutput == output {
+		return nil
 	}
 
 	command := append(flags, pathOutput)
-- 
2.43.0


From f1a432c88242bc284ba166385cb1a36265c8761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 93/97] fix: the compiler says so when it has no file to
 compile, and stops when it cannot read it

---
 internals/program/program.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/program/program.go b/internals/program/program.go
index 3c9563a..077fb57 100644
--- a/internals/program/program.go
+++ b/internals/program/program.go
@@ -33,11 +33,16 @@ func Init() {
 	flag.StringVar(&objectFileFlag, "o", "", "Objects to link")
 	flag.StringVar(&programName, "name", "program", "Program name")
 	flag.Parse()
+	if flag.NArg() == 0 {
+		flag.Usage()
+		return
+	}
 	file := flag.Args()[0]
 	objects := strings.Split(objectFileFlag, ",")
 	code, err := os.ReadFile(file)
 	if err != nil {
 		logger.Error("", "Opening file", err.Error())
+		return
 	}
 
 	p := parser.New(lexer.New(string(code)))
-- 
2.43.0


From 73653ca52030b6ceea5b3d57a894351b02c645b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 94/97] fix: the main of an imported file is a function like
 any other

---
 internals/ast/mod.go           | 5 ++++-
 internals/ctypes/types.go      | 2 +-
 internals/semantic/semantic.go | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index 99717b6..21716f9 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -59,8 +59,11 @@ func (p *Program) String() string {
 	return builder.String()
 }
 
+// ImportedID starts the ID of a file that another one imports: its main is a function like any other
+const ImportedID = "import."
+
 func CreateIdentifier(name string, id string) string {
-	if name == "main" {
+	if name == "main" && !strings.HasPrefix(id, ImportedID) {
 		return name
 	}
 	return name + "-" + id
diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index e559070..0fc1035 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -198,7 +198,7 @@ type Function struct {
 }
 
 func (f *Function) IsMainFunction() bool {
-	return helper.RetrieveID(f.Name) == "main"
+	return f.Name == "main"
 }
 
 func (_ *Function) CandiceType() {}
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 907cd52..e99f93a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1475,6 +1475,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 
 	l := lexer.New(string(text))
 	p := parser.New(l)
+	p.ID = ast.ImportedID + p.ID
 	p.TypeParameters = types
 	tree := p.Parse()
 	if len(p.Errors) > 0 {
-- 
2.43.0


From 931451da6f91db86661e3c903c00073b888ad8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:45 +0000
Subject: [PATCH 95/97] fix: a constant string of a function outlives the
 function

---
 internals/compiler/compiler.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 5f8d62f..813d21b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1037,15 +1037,14 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 		if !types.IsPointer(identifier.Type()) {
 			c.doNotLoadIntoMemory = true
 			if types.IsArray(identifier.Type()) {
+				// The characters outlive the function, which may return the constant
 				global := identifier.(constant.Constant)
-				array := c.block().NewAlloca(global.Type())
-				c.block().NewStore(global, array)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				lastAlloca := c.block().NewAlloca(pointer.Type())
-				c.variables.Add(name, lastAlloca)
-				c.block().NewStore(pointer, lastAlloca)
+				array := c.m.NewGlobalDef("string.constant."+random.RandomString(10), global)
+				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
+				definition := c.m.NewGlobalDef(array.Name()+".pointer", pointer)
+				c.variables.Add(name, definition)
 				c.doNotLoadIntoMemory = false
-				return lastAlloca
+				return definition
 			}
 		}
 		return identifier
-- 
2.43.0


From 438797155d56b5ecddef4229ca1d58329ec89e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 96/97] fix: an entry point may be public

---
 internals/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 331ae94..44e8d3b 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -220,7 +220,8 @@ func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
 	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
-	fn.FunctionType.RedefineWithOriginalName = true
+	// The entry point already has its original name
+	fn.FunctionType.RedefineWithOriginalName = !fn.FunctionType.IsMainFunction()
 	return fn
 }
 
-- 
2.43.0


From 6a38c71ea6c4fb5dcb06630d05661d527ba34881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 97/97] fix: the address of a constant string is the one of a
 copy

---
 internals/compiler/compiler.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 813d21b..4524f6a 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -905,7 +905,12 @@ func (c *Compiler) compileAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	name := "func." + random.RandomString(10)
 	var namedValues []NamedValue
 	for _, capturedVariableName := range anonymousFunction.CapturedVariables {
-		variable := c.loadIfPointer(c.retrieveVariable(capturedVariableName))
+		captured := c.retrieveVariable(capturedVariableName)
+		if text, isGlobal := captured.(*ir.Global); isGlobal && text.Immutable {
+			namedValues = append(namedValues, NamedValue{Name: capturedVariableName, Value: text})
+			continue
+		}
+		variable := c.loadIfPointer(captured)
 		if number, isConstant := variable.(constant.Constant); isConstant && !types.IsPointer(number.Type()) {
 			// A constant of the function outside is still a constant
 			namedValues = append(namedValues, NamedValue{Name: capturedVariableName, Value: number})
@@ -980,6 +985,12 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 	}
 
 	if prefix.Operation == ops.BinaryAND {
+		// Nobody may write to a constant, its address is the one of a copy
+		if global, isGlobal := prefixValue.(*ir.Global); isGlobal && global.Immutable {
+			prefixValue = c.loadIfPointer(global)
+			c.doNotLoadIntoMemory = true
+		}
+
 		// This means that we are referencing a variable that either:
 		// * Has just been returned by a function, (func whatever() i32; whatever(); << we are on i32 instead of *i32)
 		// * Or is just a literal, like: variable := &3 (i32 instead of *i32)
@@ -1042,6 +1053,7 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 				array := c.m.NewGlobalDef("string.constant."+random.RandomString(10), global)
 				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
 				definition := c.m.NewGlobalDef(array.Name()+".pointer", pointer)
+				definition.Immutable = true
 				c.variables.Add(name, definition)
 				c.doNotLoadIntoMemory = false
 				return definition
@@ -1064,6 +1076,7 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 				array := c.m.NewGlobalDef(name+".global_alloca", global)
 				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
 				globalDefinition := c.m.NewGlobalDef(name+".global", pointer)
+				globalDefinition.Immutable = fn.Constant
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
 				return globalDefinition
 			}
-- 
2.43.0


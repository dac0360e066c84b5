From f103be004377cb7bb905a2b33f285822ccc85e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:13 +0000
Subject: [PATCH 01/36] fix: disassembler operand sizes of two-operand loads
 and indexed calls

The LL/LG/GL/GGValues loads carry two operand bytes and CallFunctionByIndex
carries 2 + skip bytes; the listing fell out of step after either.
---
 discrete_src/debug/disassemble.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discrete_src/debug/disassemble.cpp b/discrete_src/debug/disassemble.cpp
index 61a99e8..4c2b70f 100644
--- a/discrete_src/debug/disassemble.cpp
+++ b/discrete_src/debug/disassemble.cpp
@@ -97,10 +97,6 @@ int wr_operandSizeForOpcode( const uint8_t* opPtr, const uint8_t* end, const uin
 		case O_IndexSkipLoad:
 		case O_CountOf:
 		case O_HashOf:
-		case O_LLValues:
-		case O_LGValues:
-		case O_GLValues:
-		case O_GGValues:
 		case O_BinaryRightShiftSkipLoad:
 		case O_BinaryLeftShiftSkipLoad:
 		case O_BinaryAndSkipLoad:
@@ -241,11 +237,20 @@ int wr_operandSizeForOpcode( const uint8_t* opPtr, const uint8_t* end, const uin
 		case O_LiteralInt16ToLocal:
 		case O_IndexLocalLiteral16:
 		case O_IndexGlobalLiteral16:
-		case O_CallFunctionByIndex:
 		{
 			return 3;
 		}
 
+		case O_CallFunctionByIndex:
+		{
+			// args, index, and a skip (counted from itself) over the rest of the hash it replaced
+			if ( opPtr + 3 > end )
+			{
+				return -1;
+			}
+			return 2 + (int)READ_8_FROM_PC(opPtr + 2);
+		}
+
 		case O_LiteralInt32:
 		case O_LiteralFloat:
 		case O_LoadLibConstant:
-- 
2.43.0


From 9a5bb3666244a803ede096286c7ef99670b67cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 02/36] fix: zero the first local of every call frame

The frame set-up cleared the value one slot too high, leaving the first local
with whatever an earlier call left on the stack.
---
 discrete_src/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 7a44535..d041fc9 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1048,8 +1048,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
-- 
2.43.0


From 4237a66a498c2576d432035aeb0bbbd80d854257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:22 +0000
Subject: [PATCH 03/36] fix: test for stack overflow after every push, against
 the real end of the stack

---
 discrete_src/vm/vm.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index d041fc9..f2f0494 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -678,7 +678,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -701,6 +701,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		else
 		{
 			++stackTop; // otherwise we expect a return value
+			CHECK_STACK;
 		}
 	
 		frameBase = context->yield_frameBase;
@@ -717,6 +718,14 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( stackTop + argn >= stackLimit )
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
+
 		for( args = 0; args < argn; ++args )
 		{
 			*stackTop++ = argv[args];
@@ -954,8 +963,8 @@ CallFunctionByHash_continue:
 					++stackTop;
 				}
 				
-				CHECK_STACK;
 newObjOut:
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1142,6 +1151,7 @@ callFunction:
 			{
 				wr_newObjectTable( context, stackTop++, pc, 0 );
 				pc += 2;
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1321,6 +1331,7 @@ callFunction:
 			CASE(IndexSkipLoad):
 			{
 				wr_index[(register0->type<<2)|register1->type]( context, register0, register1, stackTop++ );
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1378,6 +1389,7 @@ hashIndexJump:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_doIndexHash( stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -1532,6 +1544,7 @@ indexLiteral:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -1707,6 +1720,7 @@ doAssignToLocalAndPop:
 load32ToTemp:
 				register0->i = READ_32_FROM_PC(pc);
 				pc += 4;
+				CHECK_STACK;
 				CONTINUE;
 			}
 			
@@ -2275,6 +2289,7 @@ compactReturnCompareEQ:
 compactReturnCompareEQPost:
 				stackTop->i = (int)wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -2290,6 +2305,7 @@ compactReturnCompareNE:
 compactReturnCompareNEPost:
 				stackTop->i = (int)!wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
-- 
2.43.0


From 06ec1c7b0984db74a05f98e6475e5727db4aa5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:16 +0000
Subject: [PATCH 04/36] fix: fused compare-and-branch instructions consume
 time-slice budget

---
 discrete_src/vm/vm.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index f2f0494..8aa39c8 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -2939,6 +2939,7 @@ CompareGInverted:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -2951,6 +2952,7 @@ CompareGNormal:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -2963,6 +2965,7 @@ CompareLInverted:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -2975,6 +2978,7 @@ CompareLNormal:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -2987,6 +2991,7 @@ CompareG8Inverted:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -2999,6 +3004,7 @@ CompareG8Normal:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3011,6 +3017,7 @@ CompareL8Inverted:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3023,6 +3030,7 @@ CompareL8Normal:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3035,6 +3043,7 @@ CompareLLInv:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			CASE(LLCompareEQBZ): { returnFunc = wr_CompareEQ; goto CompareLL; }
@@ -3046,6 +3055,7 @@ CompareLL:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3059,6 +3069,7 @@ CompareLL8Inv:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			CASE(LLCompareEQBZ8): { returnFunc = wr_CompareEQ; goto CompareLL8; }
@@ -3070,6 +3081,7 @@ CompareLL8:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3083,6 +3095,7 @@ CompareGGInv:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3095,6 +3108,7 @@ CompareGG:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3108,6 +3122,7 @@ CompareGG8Inv:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			CASE(GGCompareEQBZ8): { returnFunc = wr_CompareEQ; goto CompareGG8; }
@@ -3119,6 +3134,7 @@ CompareGG8:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
-- 
2.43.0


From 034e2d239ad8bf9c9fc58fd3bee8a9015c578b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 05/36] fix: comparing an integer with a float must not retag
 the integer variable as float

---
 discrete_src/vm/operations_non_compact.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index fae3ea9..31c38af 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -711,7 +711,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -772,7 +772,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
-- 
2.43.0


From 6bda645f3ea0406a614748c08c684a67ec7e24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 06/36] fix: bitwise, shift and modulo operators with a
 container element on the left and a variable on the right

---
 discrete_src/vm/operations_non_compact.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 31c38af..712fc80 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -653,7 +653,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-- 
2.43.0


From 517d755a16bc2ca762990a96ec6f4b2107a9994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:35 +0000
Subject: [PATCH 07/36] fix: compound assignment to a container element must
 not overwrite its right-hand operand

---
 discrete_src/vm/operations_compact.cpp     | 10 +++--
 discrete_src/vm/operations_non_compact.cpp | 44 +++++++++++++---------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 0464466..e36026a 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -54,7 +54,7 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
@@ -90,7 +90,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = to->deref();
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -107,7 +109,9 @@ void FuncAssign_R_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 
 void FuncAssign_X_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(to->type<<2)+from->r->type](to, from->r, intCall, floatCall); *from = *to;
+	WRValue temp = *from->r;
+	wr_FuncAssign[(to->type<<2)+temp.type](to, &temp, intCall, floatCall);
+	*from = *to;
 }
 
 void FuncAssign_F_F( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 712fc80..c603053 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -45,7 +45,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -56,7 +56,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = to->deref(); }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -99,7 +99,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -118,14 +118,16 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = to->deref();
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_SubtractAssign_R_I( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_SubtractAssign_R_F( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
@@ -159,7 +161,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -178,14 +180,16 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = to->deref();
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_MultiplyAssign_R_I( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
@@ -219,7 +223,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -238,14 +242,16 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = to->deref();
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_DivideAssign_R_I( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_DivideAssign_R_F( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 
 void wr_DivideAssign_F_F( WRValue* to, WRValue* from )
 {
@@ -349,7 +355,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
@@ -379,7 +385,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = to->deref();
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -398,8 +406,8 @@ void wr_AddAssign_R_I( WRValue* to, WRValue* from )
 	}
 }
 void wr_AddAssign_R_F( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-- 
2.43.0


From b0450815d0f548c51fb1de600c66015fa0e8f38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 08/36] fix: compact build: float operands of logical and/or,
 string concatenation only for +=

---
 discrete_src/vm/operations_compact.cpp |  6 +++---
 discrete_src/vm/vm.cpp                 | 15 ++++++++-------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index e36026a..5559f30 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -59,14 +59,14 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
-	else if ( wr_concatStringCheck(to, from, to) )
+	else if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( wr_concatStringCheck(to, from, to) )
+	if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
@@ -80,7 +80,7 @@ void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( !wr_concatStringCheck(to, from, to) )
+	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, to) )
 	{
 		WRValue& V = from->singleValue();
 		wr_FuncAssign[(to->type<<2)|V.type](to, &V, intCall, floatCall);
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 8aa39c8..b0b4ed9 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -271,7 +271,8 @@ static bool CompareGTF( float a, float b ) { return a > b; }
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -2003,7 +2004,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -2016,7 +2017,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -2030,7 +2031,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -2039,7 +2040,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -2155,8 +2156,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
-- 
2.43.0


From 7807cdae6f9570d84e4ad0ae371b5e8116d042b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 09/36] fix: integer % by zero, most-negative / -1 and
 full-range std::rand no longer trap

---
 discrete_src/lib/std.cpp                   |  3 +-
 discrete_src/vm/operations_non_compact.cpp | 47 +++++++++++++---------
 discrete_src/vm/vm.cpp                     |  4 +-
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 7c63678..cda7a64 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -179,7 +179,8 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	const uint32_t range = (uint32_t)to - (uint32_t)from + 1; // zero if every value is wanted
+	return (from >= to) ? from : (int32_t)((range ? (uint32_t)wr_Seed % range : (uint32_t)wr_Seed) + (uint32_t)from);
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index c603053..d6ff0d5 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -30,10 +30,17 @@ SOFTWARE.
 inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a + (uint32_t)b); }
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return (b == -1) ? wr_isub_wrap( 0, a ) : a / b; } // caller excludes zero
+inline int32_t wr_imod_wrap( const int32_t a, const int32_t b ) { return (b == 0 || b == -1) ? 0 : a % b; }
+inline int32_t wr_ior( const int32_t a, const int32_t b ) { return a | b; }
+inline int32_t wr_iand( const int32_t a, const int32_t b ) { return a & b; }
+inline int32_t wr_ixor( const int32_t a, const int32_t b ) { return a ^ b; }
+inline int32_t wr_ishr( const int32_t a, const int32_t b ) { return a >> b; }
+inline int32_t wr_ishl( const int32_t a, const int32_t b ) { return a << b; }
 
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
-#define X_LOGIC_ASSIGN( NAME, OPERATION ) \
+#define X_LOGIC_ASSIGN( NAME, I_I_OP ) \
 void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 {\
 	WRValue& V = to->singleValue();\
@@ -61,7 +68,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i = I_I_OP( to->i, from->i ); }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -71,12 +78,12 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+X_LOGIC_ASSIGN( wr_Mod, wr_imod_wrap );
+X_LOGIC_ASSIGN( wr_OR, wr_ior );
+X_LOGIC_ASSIGN( wr_AND, wr_iand );
+X_LOGIC_ASSIGN( wr_XOR, wr_ixor );
+X_LOGIC_ASSIGN( wr_RightShift, wr_ishr );
+X_LOGIC_ASSIGN( wr_LeftShift, wr_ishl );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -273,7 +280,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -511,7 +518,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -644,7 +651,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
 
 //------------------------------------------------------------------------------
-#define X_INT_BINARY( NAME, OPERATION ) \
+#define X_INT_BINARY( NAME, I_I_OP ) \
 void NAME##Binary_E_I( WRValue* to, WRValue* from, WRValue* target )\
 {\
 	WRValue& V = to->singleValue();\
@@ -663,10 +670,10 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( lhs->i, from->i ); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, from->i ); }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -675,12 +682,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, wr_ishl );
+X_INT_BINARY( wr_RightShift, wr_ishr );
+X_INT_BINARY( wr_Mod, wr_imod_wrap );
+X_INT_BINARY( wr_AND, wr_iand );
+X_INT_BINARY( wr_OR, wr_ior );
+X_INT_BINARY( wr_XOR, wr_ixor );
 
 
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index b0b4ed9..9be7cd6 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -247,7 +247,7 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	return b == -1 ? (int)(0u - (unsigned int)a) : (b ? a / b : 0);
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -255,7 +255,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b ) { return (b == 0 || b == -1) ? 0 : a % b; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
-- 
2.43.0


From 5d4d35b74bdda5600d1ead0f95ed93667e3f403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:35 +0000
Subject: [PATCH 10/36] fix: an element removed while still referenced reads as
 zero instead of a stale shared temporary

---
 discrete_src/vm/operations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index deb8ccb..56d1746 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -173,6 +173,10 @@ WRValue& WRValue::deref() const
 			s_temp2.ui = (uint32_t)(unsigned char)r->va->m_Cdata[s];
 		}
 	}
+	else
+	{
+		s_temp2.ui = 0; // the element is gone, never hand out what was last here
+	}
 
 	return s_temp2;
 }
-- 
2.43.0


From 8064fbe24c4ed2607ecbfb227a35b00dab70f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:15 +0000
Subject: [PATCH 11/36] fix: string + float concatenates like string + integer
 does

---
 discrete_src/vm/operations_non_compact.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index d6ff0d5..9c46a53 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -607,8 +607,11 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -625,8 +628,11 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
-- 
2.43.0


From 659c1ec8799d392c93ff25c9a8c739fb5aeca120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:47 +0000
Subject: [PATCH 12/36] fix: compact build: pre-increment and pre-decrement
 yield the value, not a reference to the variable

---
 discrete_src/vm/vm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 9be7cd6..a91f30d 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1955,7 +1955,12 @@ compactIncrementWork:
 				register1 = stackTop + 1;
 				register1->i = 1;
 				register1->p2 = INIT_AS_INT;
-				goto binaryTableOpAndPopCall;
+				wr_FuncAssign[(register0->type<<2)|register1->type]( register0, register1, intCall, floatCall );
+				if ( register0->type == WR_REF )
+				{
+					*register0 = *register1; // leave the value, not the variable
+				}
+				CONTINUE;
 			}
 
 			CASE(PreDecrement):
-- 
2.43.0


From 0c87b7f55914babcbe965c5592ba8de91f1c1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:49 +0000
Subject: [PATCH 13/36] fix: a container reachable only through a reference on
 the stack survives collection

---
 discrete_src/vm/gc.cpp        | 43 +++++++++++++++++++++++++++++++++++
 discrete_src/vm/gc_object.cpp |  1 +
 discrete_src/wrench.h         |  1 +
 3 files changed, 45 insertions(+)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index f7968bb..5e4806b 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -81,6 +81,40 @@ void WRContext::mark( WRValue* s )
 	markBase( s->vb );
 }
 
+//------------------------------------------------------------------------------
+// a reference on the stack can be all that is left of the container it
+// points into, keep that container
+void WRContext::markOwner( WRValue* element )
+{
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	{
+		if ( a->m_type == SV_VALUE )
+		{
+			if ( element >= a->m_Vdata && element < a->m_Vdata + ((WRGCObject*)a)->m_size )
+			{
+				if ( !(a->m_flags & GCFlag_Marked) )
+				{
+					markBase( a );
+				}
+				return;
+			}
+		}
+		else if ( a->m_type == SV_HASH_INTERNAL )
+		{
+			if ( element >= (WRValue*)(a + 1) && element < (WRValue*)(a + 1) + (a->m_mod << 1) )
+			{
+				a->m_flags |= GCFlag_Marked;
+				if ( element->type == WR_REF ) // table has grown since, the value moved
+				{
+					markOwner( element->r );
+				}
+				mark( element );
+				return;
+			}
+		}
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRContext::gc( WRValue* stackTop )
 {
@@ -105,6 +139,15 @@ void WRContext::gc( WRValue* stackTop )
 		// mark stack
 		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
 		{
+			if ( s->type == WR_REF )
+			{
+				markOwner( s->r );
+			}
+			else if ( IS_CONTAINER_MEMBER(s->xtype) )
+			{
+				markOwner( (s->vb->m_type == SV_HASH_INTERNAL) ? (WRValue*)(s->vb + 1) + DECODE_ARRAY_ELEMENT_FROM_P2(s->p2) : s->r );
+			}
+
 			mark( s );
 		}
 	}
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index ad49ef7..126dd0e 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -268,6 +268,7 @@ tryAgain:
 
 		// accepted, link it into the existing table
 		base->m_type = SV_HASH_INTERNAL;
+		base->m_mod = newMod;
 
 		base->m_nextGC = m_nextGC;
 		m_nextGC = base;
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index ac15142..0bda7f5 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1157,6 +1157,7 @@ struct WRContext
 	WRContext* nextStateContextLink;
 
 	void markBase( WRGCBase* svb );
+	void markOwner( WRValue* element );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
 
-- 
2.43.0


From 095583ec712bc0c43d77f931cd5a9f6ad7287b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:48 +0000
Subject: [PATCH 14/36] fix: adding a number and a text container element
 concatenates

---
 discrete_src/vm/operations_compact.cpp     |  6 +++---
 discrete_src/vm/operations_non_compact.cpp | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 5559f30..2389641 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -82,7 +82,7 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, to) )
 	{
-		WRValue& V = from->singleValue();
+		WRValue V = (intCall == wr_addI && IS_CONTAINER_MEMBER(from->xtype)) ? from->deref() : from->singleValue();
 		wr_FuncAssign[(to->type<<2)|V.type](to, &V, intCall, floatCall);
 	}
 
@@ -148,7 +148,7 @@ void FuncBinary_E_X( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 {
 	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
-		WRValue& V = to->singleValue();
+		WRValue& V = (intCall == wr_addI && IS_CONTAINER_MEMBER(to->xtype)) ? to->deref() : to->singleValue();
 		wr_funcBinary[(V.type<<2)|from->type](&V, from, target, intCall, floatCall);
 	}
 }
@@ -169,7 +169,7 @@ void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 {
 	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
-		WRValue& V = from->singleValue();
+		WRValue V = (intCall == wr_addI && IS_CONTAINER_MEMBER(from->xtype)) ? from->deref() : from->singleValue();
 		wr_funcBinary[(to->type<<2)|V.type](to, &V, target, intCall, floatCall);
 	}
 }
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 9c46a53..e7a7a64 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -376,7 +376,7 @@ void wr_AddAssign_I_E( WRValue* to, WRValue* from )
 {
 	if ( !wr_concatStringCheck( to, from, to) )
 	{
-		WRValue& V = from->singleValue();
+		WRValue V = IS_CONTAINER_MEMBER(from->xtype) ? from->deref() : from->singleValue();
 		wr_AddAssign[(WR_INT<<2)|V.type](to, &V);
 		*from = *to;
 	}
@@ -385,7 +385,7 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 {
 	if ( !wr_concatStringCheck( to, from, to) )
 	{
-		WRValue& V = from->singleValue();
+		WRValue V = IS_CONTAINER_MEMBER(from->xtype) ? from->deref() : from->singleValue();
 		wr_AddAssign[(WR_FLOAT<<2)|V.type](to, &V);
 		*from = *to;
 	}
@@ -591,7 +591,7 @@ void wr_AdditionBinary_E_I( WRValue* to, WRValue* from, WRValue* target )
 {
 	if ( !wr_concatStringCheck(to, from, target) )
 	{
-		WRValue& V = to->singleValue();
+		WRValue& V = IS_CONTAINER_MEMBER(to->xtype) ? to->deref() : to->singleValue();
 		wr_AdditionBinary[(V.type<<2)|WR_INT](&V, from, target);
 	}
 }
@@ -600,7 +600,7 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 {
 	if ( !wr_concatStringCheck(to, from, target) )
 	{
-		WRValue& V = from->singleValue();
+		WRValue V = IS_CONTAINER_MEMBER(from->xtype) ? from->deref() : from->singleValue();
 		wr_AdditionBinary[(WR_INT << 2) | V.type](to, &V, target);
 	}
 }
@@ -609,7 +609,7 @@ void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
 	if ( !wr_concatStringCheck(to, from, target) )
 	{
-		WRValue& V = to->singleValue();
+		WRValue& V = IS_CONTAINER_MEMBER(to->xtype) ? to->deref() : to->singleValue();
 		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
 	}
 }
@@ -630,7 +630,7 @@ void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
 	if ( !wr_concatStringCheck(to, from, target) )
 	{
-		WRValue& V = from->singleValue();
+		WRValue V = IS_CONTAINER_MEMBER(from->xtype) ? from->deref() : from->singleValue();
 		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
 	}
 }
-- 
2.43.0


From eb9f0dc0f2ed7306db3668384f13d451286640d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 15/36] fix: 'new' of a unit without members does not write
 past its empty member array

---
 discrete_src/vm/vm.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index a91f30d..4db3005 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -139,13 +139,16 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 
 		stackTop->va->m_mod = READ_16_FROM_PC(table+1);
 
-		WRValue* register0 = stackTop->va->m_Vdata;
-		register0->r = register1;
-		(register0++)->r2 = register2;
-
-		if ( --count > 0 )
+		if ( count ) // a unit with arguments but no locals has no members
 		{
-			memcpy( (char*)register0, stackTop + READ_8_FROM_PC(table) + 1, count*sizeof(WRValue) );
+			WRValue* register0 = stackTop->va->m_Vdata;
+			register0->r = register1;
+			(register0++)->r2 = register2;
+
+			if ( --count > 0 )
+			{
+				memcpy( (char*)register0, stackTop + READ_8_FROM_PC(table) + 1, count*sizeof(WRValue) );
+			}
 		}
 
 		context->gc( stackTop + 1 ); // take care of any memory the 'new' allocated
-- 
2.43.0


From 0c74f29d38609e0fc1733ed78c616e6954328815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 16/36] fix: struct table offsets, array literal indexes and
 symbol block lengths above 32767 are read unsigned

---
 discrete_src/debug/server_interface_private.cpp | 2 +-
 discrete_src/vm/vm.cpp                          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/discrete_src/debug/server_interface_private.cpp b/discrete_src/debug/server_interface_private.cpp
index 5b6c9c5..c2a4838 100644
--- a/discrete_src/debug/server_interface_private.cpp
+++ b/discrete_src/debug/server_interface_private.cpp
@@ -123,7 +123,7 @@ WRContext* WRDebugServerInterface::loadBytes( const uint8_t* bytes, const int le
 		I->m_embeddedSourceHash = READ_32_FROM_PC( code );
 		code += 4;
 
-		I->m_symbolBlockLen = READ_16_FROM_PC( code );
+		I->m_symbolBlockLen = (uint16_t)READ_16_FROM_PC( code );
 		code += 2;
 
 		I->m_symbolBlock = code;
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 4db3005..d1683be 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -102,7 +102,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 	}
 	else
 	{
-		uint32_t offset = READ_16_FROM_PC(pc);
+		uint32_t offset = (uint16_t)READ_16_FROM_PC(pc);
 		table = context->bottom + offset;
 	}
 
@@ -1629,7 +1629,7 @@ doAssignToLocalAndPop:
 			CASE(AssignToArrayAndPop):
 			{
 				stackTop->p2 = INIT_AS_INT; // index
-				stackTop->i = READ_16_FROM_PC(pc);
+				stackTop->i = (uint16_t)READ_16_FROM_PC(pc);
 				pc += 2;
 				register1 = stackTop - 1; // value
 				register0 = stackTop - 2; // array
-- 
2.43.0


From c6e17790ec21cacb450909d1f12dcd87a3a225de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:16 +0000
Subject: [PATCH 17/36] fix: report a malformed or cut-off number literal
 instead of dropping the rest of the program

---
 discrete_src/cc/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 2f2a0fc..a11b057 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -416,6 +416,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 			{
 				if ( m_pos >= m_sourceLen )
 				{
+					m_err = WR_ERR_unexpected_EOF;
 					return false;
 				}
 
@@ -509,6 +510,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						{
 							if ( decimal )
 							{
+								m_err = WR_ERR_bad_expression;
 								return false;
 							}
 
-- 
2.43.0


From abc008b3bd6836f5898116301b371bf2dc723812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:11 +0000
Subject: [PATCH 18/36] fix: tokenizer read past the end of a source text cut
 off in an escape sequence or after ':'

---
 discrete_src/cc/token.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index a11b057..637b3dd 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -309,13 +309,13 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
+						c = m_source[m_pos];
 
 						if (c == '\\') // escaped slash
 						{
@@ -323,8 +323,12 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = (int)((unsigned int)code * 10 + (m_source[m_pos] - '0'));
+							}
+							token += code;
 							--m_pos;
 						}
 						else if (c == '\"')
@@ -542,7 +546,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
-- 
2.43.0


From 9c204f96fb4337f04969daa81ad5232c7f1ff7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 19/36] fix: serialising incomplete or oversized values reports
 failure; reject impossible hash table sizes when deserialising

---
 discrete_src/utils/serializer.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 3fc82fe..34d4657 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -53,6 +53,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 			{
 				case WR_EX_ARRAY:
 				{
+					if ( value.va->m_size > 0xFFFF ) // size is a 16-bit field
+					{
+						return false;
+					}
+
 					serializer.write( &(temp = value.va->m_type), 1 );
 					temp16 = wr_x16( value.va->m_size );
 					serializer.write( (char*)&temp16, 2 );
@@ -71,9 +76,10 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 								return false;
 							}
 						}
+						return true;
 					}
 
-					return true;
+					return false;
 				}
 
 				case WR_EX_HASH_TABLE:
@@ -91,8 +97,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							{
+								return false;
+							}
 						}
 					}
 
@@ -202,6 +211,10 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 					}
 
 					temp16 = wr_x16( temp16 );
+					if ( !temp16 || temp16 > c_primeTable[sizeof(c_primeTable)/sizeof(c_primeTable[0]) - 1] ) // no table has this size
+					{
+						return false;
+					}
 					
 					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-- 
2.43.0


From 8c5a5c80b9f949793420186094b067564f5ab847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:46 +0000
Subject: [PATCH 20/36] fix: serializer must not claim more buffer than it has,
 nor success, after a failed allocation

---
 discrete_src/utils/serializer.cpp |  2 +-
 discrete_src/utils/serializer.h   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 34d4657..73ed112 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -266,7 +266,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 bool wr_serialize( char** buf, int* len, const WRValue& value )
 {
 	WRValueSerializer S;
-	if ( !wr_serializeEx(S, value) )
+	if ( !wr_serializeEx(S, value) || S.failed() )
 	{
 		return false;
 	}
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 1188d71..c3e06c8 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -38,8 +38,8 @@ class WRValueSerializer
 {
 public:
 	
-	WRValueSerializer() : m_pos(0), m_size(0), m_buf(0) {}
-	WRValueSerializer( const char* data, const unsigned int size ) : m_pos(0), m_size(size)
+	WRValueSerializer() : m_pos(0), m_size(0), m_buf(0), m_failed(false) {}
+	WRValueSerializer( const char* data, const unsigned int size ) : m_pos(0), m_size(size), m_failed(false)
 	{
 		m_buf = (char*)g_malloc(size);
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -67,6 +67,7 @@ public:
 		m_buf = 0;
 	}
 	
+	bool failed() const { return m_failed; } // a write() ran out of memory
 	int size() const { return m_pos; }
 	const char* data() const { return m_buf; }
 
@@ -96,15 +97,17 @@ public:
 
 		if ( m_pos + size >= m_size )
 		{
-			m_size += (size*2) + 8;
-			char* newBuf = (char*)g_malloc( m_size );
+			unsigned int newSize = m_size + (size*2) + 8;
+			char* newBuf = (char*)g_malloc( newSize );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !newBuf )
 			{
+				m_failed = true;
 				g_mallocFailed = true;
 				return;
 			}
 #endif
+			m_size = newSize;
 			if ( m_pos > 0 )
 			{
 				memcpy( newBuf, m_buf, m_pos );
@@ -122,6 +125,7 @@ private:
 	unsigned int m_pos;
 	unsigned int m_size;
 	char* m_buf;
+	bool m_failed;
 };
 
 #endif
-- 
2.43.0


From 930864fa438895da3938b344dad553ab4dd0247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 21/36] fix: float formatting overran its buffers and used
 arguments that were not passed; array::truncate without a size used the
 result slot

---
 discrete_src/lib/std_container.cpp |  2 +-
 discrete_src/lib/std_string.cpp    | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 0ee1cb1..21c48db 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -167,7 +167,7 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* A;
 	WRValue* args = stackTop - argn;
 
-	if( (argn < 1) || !(A = wr_ifValueArray(args)) )
+	if( (argn < 2) || !(A = wr_ifValueArray(args)) )
 	{
 		return;
 	}
diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 5b5651a..64f66be 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -232,24 +232,26 @@ copyToString:
 				else if ( c == 'f' || c == 'g' )
 				{
 					char floatBuf[32];
-					int i = 30;
+					char number[160];
+					int i = 31;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					const char *f = fmt - 1;
+					for( ; i > 1 && *f != '%'; --f )
 					{
-						floatBuf[i] = *f;
+						floatBuf[--i] = *f;
 					}
-					floatBuf[i] = '%';
+					floatBuf[--i] = '%';
 
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					const float v = (listPtr < argn) ? args[listPtr++].asFloat() : 0;
+					const int chars = snprintf( number, sizeof(number), floatBuf + i, v );
 
 					// your system not have snprintf? the unsafe version is:
-					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
+					// const int chars = sprintf( number, floatBuf + i, v );
 
-					for( int j=0; j<chars; ++j )
+					for( int j=0; j<chars && j<(int)sizeof(number) - 1; ++j )
 					{
-						addChar( outbuf, buf[j], pos, outsize );
+						addChar( outbuf, number[j], pos, outsize );
 					}
 					goto resetState;
 				}
-- 
2.43.0


From 593ec485152d97861563266f5a7bf85ba88a3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:45 +0000
Subject: [PATCH 22/36] fix: release files, buffers and owned bytecode on error
 exits; io delete used the file name after freeing it

---
 discrete_src/cc/link.cpp           | 13 +++++++++++++
 discrete_src/lib/std_io.cpp        |  8 +++++---
 discrete_src/lib/std_serialize.cpp |  1 +
 discrete_src/lib/std_tcp.cpp       |  1 +
 discrete_src/utils/utils.cpp       |  8 ++++++++
 5 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 8bba852..e8e09ec 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -71,6 +71,17 @@ void WRCompilationContext::createLocalHashMap( WRUnitContext& unit, unsigned cha
 	}
 }
 
+//------------------------------------------------------------------------------
+static void wr_freeNamespaceLookups( NamespacePush* n )
+{
+	while( n )
+	{
+		NamespacePush* next = n->next;
+		g_free( n );
+		n = next;
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t compilerOptionFlags )
 {
@@ -275,6 +286,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
+							wr_freeNamespaceLookups( namespaceLookups );
 							return;
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
@@ -288,6 +300,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
+				wr_freeNamespaceLookups( namespaceLookups );
 				return;
 			}
 		}
diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 1dd3387..2fae010 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -81,17 +81,19 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
 				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
 				{
+					fclose( infil );
 					return;
 				}
-			}
 
-			fclose( infil );
+				fclose( infil );
+			}
 		}
 	}
 }
@@ -127,7 +129,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
diff --git a/discrete_src/lib/std_serialize.cpp b/discrete_src/lib/std_serialize.cpp
index 37edd51..b0eeda7 100644
--- a/discrete_src/lib/std_serialize.cpp
+++ b/discrete_src/lib/std_serialize.cpp
@@ -37,6 +37,7 @@ void wr_stdSerialize( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
 			{
+				g_free( buf );
 				return;
 			}
 #endif
diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 7f47f40..31c0abb 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -363,6 +363,7 @@ void wr_connectTCP( WRValue* stackTop, const int argn, WRContext* c )
 	char* address = args[0].asMallocString();
 	if ( !address || !address[0] )
 	{
+		g_free( address );
 		return;
 	}
 
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a1c1a99..421411f 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -388,6 +388,10 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	WRContext* import = wr_createContext( context->w, block, blockSize, takeOwnership, context->stack );
 	if ( !import )
 	{
+		if ( takeOwnership )
+		{
+			g_free( (void*)block );
+		}
 		return 0;
 	}
 
@@ -442,6 +446,10 @@ WRContext* wr_newContext( WRState* w, const unsigned char* block, const int bloc
 		C->nextStateContextLink = w->contextList;
 		w->contextList = C;
 	}
+	else if ( takeOwnership )
+	{
+		g_free( (void*)block );
+	}
 	return C;
 }
 
-- 
2.43.0


From 3b2eb55422d034bcc4da716e7307c8319df4ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:05 +0000
Subject: [PATCH 23/36] fix: gc recursed without end on cyclic structures and
 could follow a stale stack slot above the live stack

---
 discrete_src/vm/gc.cpp | 4 ++--
 discrete_src/vm/vm.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 5e4806b..0024fb5 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	svb->m_flags |= GCFlag_Marked; // before following references, they can lead back here
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -57,8 +59,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index d1683be..bcb8c58 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -737,7 +737,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
@@ -1357,14 +1357,14 @@ callFunction:
 			CASE(GlobalIndexHash):
 			{
 				register0 = &(globalSpace + READ_8_FROM_PC(pc++))->deref();
-				register1 = stackTop++;
+				register1 = (stackTop++)->init(); // it counts as live from here, for the gc
 				goto hashIndexJump;
 			}
 
 			CASE(LocalIndexHash):
 			{
 				register0 = &(frameBase + READ_8_FROM_PC(pc++))->deref();
-				register1 = stackTop++;
+				register1 = (stackTop++)->init(); // it counts as live from here, for the gc
 				goto hashIndexJump;
 			}
 
-- 
2.43.0


From 04d7dbe7a6c7832fe25320191a0a1023a10e9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:09 +0000
Subject: [PATCH 24/36] fix: destroying a context leaked its objects when the
 gc limit was above 65535

---
 discrete_src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 421411f..52da6e4 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -493,7 +493,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = (uint32_t)-1;
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
-- 
2.43.0


From e1340f9c07158888c5698181506e5fa797cfd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:07 +0000
Subject: [PATCH 25/36] fix: what an imported unit imported itself was leaked

---
 discrete_src/utils/utils.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 52da6e4..d4d5188 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -382,6 +382,18 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 	return C;
 }
 
+//------------------------------------------------------------------------------
+static void wr_destroyImported( WRContext* context )
+{
+	while( context->imported )
+	{
+		WRContext* next = context->imported->imported;
+		wr_destroyContextEx( context->imported );
+
+		context->imported = next == context ? 0 : next; // the list is circular, stop here!
+	}
+}
+
 //------------------------------------------------------------------------------
 WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
 {
@@ -398,19 +410,22 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
+		wr_destroyImported( import );
 		wr_destroyContextEx( import );
 		return 0;
 	}
 
-	import->imported = context->imported;
-	context->imported = import;
-
-	// make this a circular linked list
-	if ( import->imported == 0 )
+	// keep whatever the imported unit has imported itself
+	WRContext* last = import;
+	while( last->imported && last->imported != import )
 	{
-		import->imported = context;
+		last = last->imported;
 	}
 
+	// make this a circular linked list
+	last->imported = context->imported ? context->imported : context;
+	context->imported = import;
+
 	return import;
 }
 
@@ -532,14 +547,7 @@ void wr_destroyContext( WRContext* context )
 				context->w->contextList = (WRContext*)context->w->contextList->nextStateContextLink;
 			}
 
-			while( context->imported )
-			{
-				WRContext* next = context->imported->imported;
-				wr_destroyContextEx( context->imported );
-
-				context->imported = next == context ? 0 : next; // the list is circular, stop here!
-			}
-
+			wr_destroyImported( context );
 			wr_destroyContextEx( context );
 
 			break;
-- 
2.43.0


From 71aa5f1b2ec21719c77c23f5858571cb3558d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:06 +0000
Subject: [PATCH 26/36] fix: an object whose storage cannot be allocated is not
 handed out (WRENCH_HANDLE_MALLOC_FAIL)

---
 discrete_src/vm/gc.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 0024fb5..2543eb7 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -213,6 +213,15 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 
 	allocatedMemoryHint += ret->init( size, type, init ) + sizeof(WRGCObject);
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !ret->m_data )
+	{
+		svAllocated = ret->m_nextGC;
+		g_free( ret );
+		return 0;
+	}
+#endif
+
 	if ( (int)type >= SV_VALUE )
 	{
 		ret->m_creatorContext = this;
-- 
2.43.0


From 32c0c5667828307d7b2fdb289883ac278547d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:06 +0000
Subject: [PATCH 27/36] fix: instructions survive a failed allocation
 (WRENCH_HANDLE_MALLOC_FAIL)

---
 discrete_src/vm/index.cpp |  6 ++++++
 discrete_src/vm/vm.cpp    | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 9f9e608..4b07559 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -182,6 +182,12 @@ boundsFailed:
 			}
 
 			wr_growValueArray( value->va, index->ui );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			if ( index->ui >= value->va->m_size )
+			{
+				goto boundsFailed; // grow failed
+			}
+#endif
 		}
 
 		arrayElementToTarget( index->ui, target, value );
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index bcb8c58..6a9f5a7 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -132,6 +132,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !stackTop->va )
 		{
+			stackTop->p2 = INIT_AS_INT;
 			return 0;
 		}
 #endif
@@ -828,6 +829,13 @@ yieldContinue:
 				register1 = &(stackTop - 1)->deref();
 				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+				if ( !register1->va )
+				{
+					register1->p2 = INIT_AS_INT;
+					CONTINUE;
+				}
+#endif
 				context->gc( stackTop );
 				CONTINUE;
 			}
@@ -1382,6 +1390,7 @@ hashIndexJump:
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !register0->va )
 					{
+						register0->p2 = INIT_AS_INT;
 						CONTINUE;
 					}
 #endif
@@ -2635,7 +2644,7 @@ compactCompareGG8:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				wr_AdditionBinary[(register0->type<<2)|register1->type]( register0, register1, stackTop++ );
 				CHECK_STACK;
-				FASTCONTINUE;
+				CONTINUE;
 			}
 
 			CASE(GLBinaryAddition):
@@ -2644,7 +2653,7 @@ compactCompareGG8:
 				register0 = globalSpace + READ_8_FROM_PC(pc++); 
 				wr_AdditionBinary[(register0->type<<2)|register1->type]( register0, register1, stackTop++ );
 				CHECK_STACK;
-				FASTCONTINUE;
+				CONTINUE;
 			}
 
 			CASE(LLBinaryAddition):
@@ -2653,7 +2662,7 @@ compactCompareGG8:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				wr_AdditionBinary[(register0->type<<2)|register1->type]( register0, register1, stackTop++ );
 				CHECK_STACK;
-				FASTCONTINUE;
+				CONTINUE;
 			}
 
 			
-- 
2.43.0


From f075e9a5a9ddcc2af32719df9405ffed97b8f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:06 +0000
Subject: [PATCH 28/36] fix: host API tests its allocations
 (WRENCH_HANDLE_MALLOC_FAIL)

---
 discrete_src/utils/utils.cpp | 54 ++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index d4d5188..028a6cb 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -203,6 +203,13 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !w->globalRegistry.m_hashTable )
+	{
+		g_free( w );
+		return 0;
+	}
+#endif
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -317,6 +324,14 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 	
 	memset((char*)C, 0, needed);
 	C->registry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !C->registry.m_hashTable )
+	{
+		g_free( C );
+		w->err = WR_ERR_malloc_failed;
+		return 0;
+	}
+#endif
 
 	C->numLocalFunctions = localFuncs;
 	C->localFunctions = (WRFunction *)((uint8_t *)(C + 1) + (globals * sizeof(WRValue)));
@@ -739,6 +754,12 @@ WRValue* WRValue::indexArray( WRContext* context, const uint32_t index, const bo
 		}
 		
 		wr_growValueArray( V.va, index );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( index >= V.va->m_size )
+		{
+			return 0; // grow failed
+		}
+#endif
 		context->allocatedMemoryHint += index * ((V.va->m_type == SV_CHAR) ? 1 : sizeof(WRValue));
 	}
 
@@ -926,11 +947,25 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 	if ( type == WR_FLOAT )
 	{
 		ret = (char*)g_malloc( 12 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
 		len = wr_ftoa( f, ret, 11 );
 	}
 	else if ( type == WR_INT )
 	{
 		ret = (char*)g_malloc( 13 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
 		len = wr_itoa( i, ret, 12 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
@@ -1190,6 +1225,14 @@ WRValue& wr_makeContainer( WRValue* val, const uint16_t sizeHint )
 	memset( (unsigned char*)val->va, 0, sizeof(WRGCObject) );
 
 	val->va->init( sizeHint, SV_HASH_TABLE, false);
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !val->va->m_data )
+	{
+		g_free( val->va );
+		val->init();
+		return *val;
+	}
+#endif
 	
 	val->va->m_flags |= GCFlag_NoContext;
 	val->p2 = INIT_AS_HASH_TABLE;
@@ -1260,10 +1303,17 @@ WRValue* wr_addToContainerEx( const char* name, WRValue* container )
 #endif
 	memset( (unsigned char*)key.va, 0, sizeof(WRGCObject) );
 
+	key.va->init( len, SV_CHAR, false);
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !key.va->m_data )
+	{
+		g_free( key.va );
+		return 0;
+	}
+#endif
+
 	key.va->m_nextGC = container->va->m_nextGC;
 	container->va->m_nextGC = key.va;
-	
-	key.va->init( len, SV_CHAR, false);
 
 	key.va->m_flags |= GCFlag_NoContext;
 	key.p2 = INIT_AS_ARRAY;
-- 
2.43.0


From eb905f4d0f63c48d86fd235fec643197f1f1e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:06 +0000
Subject: [PATCH 29/36] fix: library functions test their allocations
 (WRENCH_HANDLE_MALLOC_FAIL)

---
 discrete_src/lib/std_container.cpp | 21 ++++++++++++++++-----
 discrete_src/lib/std_tcp.cpp       |  6 ++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 21c48db..1b138d9 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -184,11 +184,17 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+bool wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed )
+	{
+		return false;
+	}
+#endif
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
@@ -206,6 +212,7 @@ void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int
 	}
 
 	c->gc( stackTop + 1 );
+	return true;
 }
 
 //------------------------------------------------------------------------------
@@ -282,8 +289,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
-	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	if ( wr_arrayInsertEx(A, where, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[where] = args[1];
+	}
 }
 
 //------------------------------------------------------------------------------
@@ -297,8 +306,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
-	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	if ( wr_arrayInsertEx(A, 0, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[0] = args[1];
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 31c0abb..f718d2f 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -459,6 +459,12 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	stackTop->va = c->getSVA( toRead, SV_CHAR, false );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !stackTop->va )
+	{
+		return;
+	}
+#endif
 	stackTop->p2 = INIT_AS_ARRAY;
 
 	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)stackTop->va->m_Cdata, toRead );
-- 
2.43.0


From 1e605a618dff6d08d3990cb22a4e0f6c6eede899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:03 +0000
Subject: [PATCH 30/36] fix: an index that cannot be encoded is rejected
 instead of corrupting the array

a[-1] created a zero-length array and read before it, wrapped the length of an
existing one, or (as a literal) silently addressed element 255; a store through
a raw array reference did not test the length of the host's buffer.
---
 discrete_src/cc/optimizer.cpp  |  2 +-
 discrete_src/utils/utils.cpp   |  5 +++++
 discrete_src/utils/utils.h     |  1 +
 discrete_src/vm/index.cpp      | 15 +++++++++++++++
 discrete_src/vm/operations.cpp |  5 ++++-
 5 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 87d2ae7..b0383f6 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -659,7 +659,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.opcodes[o] = O_IndexLiteral16;
 				return;
 			}
-			else if ( bytecode.opcodes[o] == O_LiteralInt8 )
+			else if ( bytecode.opcodes[o] == O_LiteralInt8 && !(bytecode.all[a] & 0x80) ) // the operand is read unsigned
 			{
 				bytecode.all[a-1] = O_IndexLiteral8;
 				bytecode.opcodes[o] = O_IndexLiteral8;
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 028a6cb..ea69f03 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -725,6 +725,11 @@ bool WRValue::isStruct() const
 WRValue* WRValue::indexArray( WRContext* context, const uint32_t index, const bool create ) const
 {
 	WRValue& V = deref();
+
+	if ( index > WR_MAX_ARRAY_ELEMENT )
+	{
+		return 0;
+	}
 	
 	if ( !IS_ARRAY(V.xtype) || V.va->m_type != SV_VALUE )
 	{
diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index 29f258f..743072e 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -456,6 +456,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
+#define WR_MAX_ARRAY_ELEMENT 0x1FFFFF // largest index the encoding above can carry
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
 #define IS_EX_RAW_ARRAY_TYPE(P)   (((P)&0xE0) == WR_EX_RAW_ARRAY)
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 4b07559..8fc103f 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -95,6 +95,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > WR_MAX_ARRAY_ELEMENT )
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -146,6 +152,11 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 
 			if ( I->type == WR_INT )
 			{
+				if ( index->ui > WR_MAX_ARRAY_ELEMENT )
+				{
+					goto boundsFailed;
+				}
+
 				value->va = c->getSVA( index->ui+1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
@@ -172,6 +183,10 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				return;
 			}
 		}
+		else if ( index->ui > WR_MAX_ARRAY_ELEMENT )
+		{
+			goto boundsFailed;
+		}
 		else if ( index->ui >= value->va->m_size )
 		{
 			if ( value->va->m_flags & GCFlag_NoContext )
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 56d1746..776489b 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -278,7 +278,10 @@ void wr_valueToEx( const WRValue* ex, WRValue* value )
 		}
 		else if ( IS_CONTAINER_MEMBER(ex->xtype) && IS_RAW_ARRAY(ex->r->xtype) )
 		{
-			ex->r->c[s] = value->ui;
+			if ( s < (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(ex->r->p2)) )
+			{
+				ex->r->c[s] = value->ui;
+			}
 		}
 		else
 		{
-- 
2.43.0


From 1245290fc9daeee1202bd36486050a378783e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 31/36] fix: array::insert, array::remove and array::clear
 check their position and count

A position past the end, a negative or huge count moved memory outside the
array or set a length it does not have; cleared arrays had garbage elements.
---
 discrete_src/lib/std_container.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 1b138d9..4207213 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -65,9 +65,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 		if ( argn > 1 )
 		{
 			count = args[1].asInt();
+			if ( count > WR_MAX_ARRAY_ELEMENT )
+			{
+				count = 0;
+			}
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
@@ -115,15 +119,15 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_arrayRemoveEx( WRValue* A, const unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
-	if ( where < A->va->m_size )
+	if ( count > 0 && where < A->va->m_size )
 	{
-		unsigned int from = where + count;
-		if ( from >= A->va->m_size )
+		if ( (unsigned int)count >= A->va->m_size - where )
 		{
 			A->va->m_size = where; // simple truncation
 		}
 		else
 		{
+			unsigned int from = where + count;
 			unsigned int elements = A->va->m_size - from;
 
 			memmove( (char*)(A->va->m_Vdata + where), // to here
@@ -187,6 +191,11 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 bool wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+	if ( where > originalSize || count < 1 || count > WR_MAX_ARRAY_ELEMENT )
+	{
+		return false;
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-- 
2.43.0


From 658dd5252a4152227cdc63c552ab8cd1c4279724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:08 +0000
Subject: [PATCH 32/36] fix: _remove and var a[n] check the position and size
 they are given

_remove past the end shortened the array (an empty one to 4294967295 elements)
and a position of -1 moved memory outside it; a declared size whose byte count
wraps around gave an array with no storage behind it.
---
 discrete_src/vm/vm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 6a9f5a7..d1cd312 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -828,7 +828,7 @@ yieldContinue:
 				register0 = &(--stackTop)->singleValue();
 				register1 = &(stackTop - 1)->deref();
 				register1->p2 = INIT_AS_ARRAY;
-				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+				register1->va = context->getSVA( (register0->ui <= WR_MAX_ARRAY_ELEMENT) ? register0->ui : 0, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !register1->va )
 				{
@@ -1226,7 +1226,7 @@ callFunction:
 				{
 					register0->va->exists( hash, true );
 				}
-				else if ( register0->xtype == WR_EX_ARRAY )
+				else if ( register0->xtype == WR_EX_ARRAY && hash < register0->va->m_size )
 				{
 					va = register0->va;
 					if (va->m_type == SV_VALUE )
-- 
2.43.0


From af4d165d45162835639431b85c37eb97218043e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:09 +0000
Subject: [PATCH 33/36] fix: indexing a host array that was returned directly
 reads the host's bytes

arrayElementToTarget took the buffer for a collected object and read its kind
and data pointer out of the host's bytes.
---
 discrete_src/vm/index.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 8fc103f..58a7958 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -34,7 +34,12 @@ void arrayElementToTarget( const uint32_t index, WRValue* target, WRValue* value
 		// dereference the value and use it directly rather than
 		// preserve the whole array
 
-		if ( value->va->m_type == SV_VALUE )
+		if ( IS_RAW_ARRAY(value->xtype) )
+		{
+			target->p2 = INIT_AS_INT;
+			target->ui = (uint32_t)(unsigned char)(value->c[ index ]);
+		}
+		else if ( value->va->m_type == SV_VALUE )
 		{
 			*target = value->va->m_Vdata[ index ];
 		}
-- 
2.43.0


From 71c63d91f2bd12eb3dcf2195ccbe538c52d19a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:03 +0000
Subject: [PATCH 34/36] fix: sizes that do not fit the function table are
 compile errors, not truncated

Parameters plus locals over 254 wrapped frameBaseAdjustment, and a function that
started past byte 65535 got the low 16 bits of its offset.
---
 discrete_src/cc/link.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index e8e09ec..6d085cc 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -126,21 +126,23 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 		code.append( wr_pack32(m_units[u].hash, data), 4 );
 
 		// WRFunction.arguments;
-		data[0] = m_units[u].arguments;
-		code.append( data, 1 );
-
-		// WRFunction.frameSpaceNeeded;
-		unsigned int frameSpaceNeeded = m_units[u].bytecode.localSpace.count() - m_units[u].arguments;
-		if ( frameSpaceNeeded > 255 )
+		unsigned int arguments = m_units[u].arguments;
+		unsigned int frameSpaceNeeded = m_units[u].bytecode.localSpace.count() - arguments;
+		unsigned int frameBaseAdjustment = 1 + arguments + frameSpaceNeeded;
+		if ( arguments > 255 || frameSpaceNeeded > 255 || frameBaseAdjustment > 255 )
 		{
 			m_err = WR_ERR_compiler_panic;
 			return;
 		}
+		data[0] = (uint8_t)arguments;
+		code.append( data, 1 );
+
+		// WRFunction.frameSpaceNeeded;
 		data[1] = (uint8_t)frameSpaceNeeded;
 		code.append( data + 1, 1 );
 
 		// WRFunction.frameBaseAdjustment;
-		data[2] = 1 + data[0] + data[1];
+		data[2] = (uint8_t)frameBaseAdjustment;
 		code.append( data + 2, 1 );
 	}
 
@@ -227,12 +229,18 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 	// append all the unit code
 	for( unsigned int u=0; u<m_units.count(); ++u )
 	{
-		uint16_t base;
+		unsigned int base;
 
 		if ( u > 0 ) // for the non-zero unit fill locations into the jump table
 		{
 			if ( m_units[u].exportNamespace )
 			{
+				if ( code.size() > 0xFFFF )
+				{
+					m_err = WR_ERR_compiler_panic;
+					wr_freeNamespaceLookups( namespaceLookups );
+					return;
+				}
 				base = code.size();
 
 				int size = 0;
@@ -258,6 +266,12 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 				wr_pack16( base, code.p_str(m_units[u].offsetInBytecode) ); // WRFunction.namespaceOffset
 			}
 
+			if ( code.size() > 0xFFFF )
+			{
+				m_err = WR_ERR_compiler_panic;
+				wr_freeNamespaceLookups( namespaceLookups );
+				return;
+			}
 			base = code.size();
 			wr_pack16( base, code.p_str(m_units[u].offsetInBytecode + 2) ); // WRFunction.functionOffset
 		}
-- 
2.43.0


From 6b01fe3996a6ed7fa292d9f7ca6f1ec131cef344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:03 +0000
Subject: [PATCH 35/36] fix: text literals over 65535 bytes and calls with over
 255 arguments are compile errors

Both counts were cut to their operand field: the rest of the text ran as
instructions, and a 256-argument call passed none.
---
 discrete_src/cc/cc.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index f4ea5f8..287599c 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -783,6 +783,11 @@ void WRCompilationContext::pushLiteral( WRBytecode& bytecode, WRExpressionContex
 	}
 	else if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 	{
+		if ( context.literalString.size() > 0xFFFF )
+		{
+			m_err = WR_ERR_compiler_panic;
+			return;
+		}
 		pushOpcode( bytecode, O_LiteralString );
 		int16_t be = context.literalString.size();
 		pushData( bytecode, wr_pack16(be, data), 2 );
@@ -1443,6 +1448,11 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 				break;
 			}
 
+			if ( argsPushed == 255 )
+			{
+				m_err = WR_ERR_compiler_panic;
+				return 0;
+			}
 			++argsPushed;
 
 				WRExpression nex( expression.bytecode.localSpace, expression.bytecode.isStructSpace );
-- 
2.43.0


From add15bd3510a6e9cb64c5cd8c93a8112213a0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:57 +0000
Subject: [PATCH 36/36] fix: a default label at code byte 65535 is not taken
 for a missing one

The position was kept in 16 bits, where 65535 is the -1 that means no default:
the switch then skipped it.
---
 discrete_src/cc/cc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 287599c..c96bd26 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2695,7 +2695,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	}
 
 	WRarray<WRSwitchCase> cases;
-	int16_t defaultOffset = -1;
+	int defaultOffset = -1;
 	WRSwitchCase* swCase = 0; // current case
 
 	int defaultCaseJumpTarget = addRelativeJumpTarget( m_units[m_unitTop].bytecode );
-- 
2.43.0


From 7c008424b62b308606e2e30164f3acf76428559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:43 +0000
Subject: [PATCH 01/44] fix: correct result of the nand operator

"true !& false" evaluated to false although "false !& true" is true.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..c591b6b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -202,7 +202,7 @@ void TreeInterpreter::evaluateBooleanBinaryExpression(BooleanBinaryExpression* e
 		// boolean expressions
 		// {
 		case Token::Type::AND:  *result = Runtime::BoolType(leftResult && isTrue(right)); break;
-		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult && !isTrue(right)); break;
+		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::NOR:  *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::OR:   *result = Runtime::BoolType(leftResult || isTrue(right)); break;
 		// }
-- 
2.43.0


From 4fa34b3395af0ee6a16d82f6d352d52f206996cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:25 +0000
Subject: [PATCH 02/44] fix: remove the loop variable's scope whenever a for
 loop is left

Leaving a for loop with break, return, exit or an exception kept the scope
of the loop variable. The variable stayed visible after the loop, so that
"for (int j = 0; ; ) { break; } int j = 1;" failed with a duplicate
identifier error.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index c591b6b..8cdbe6f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -43,6 +43,16 @@
 			return; \
 		}
 
+#define tryControlPopScope( exp ) \
+		try { \
+			exp; \
+		} \
+		catch ( Runtime::ControlFlow::E &e ) { \
+			popScope(); \
+			mControlFlow = e; \
+			return; \
+		}
+
 #define tryControlReturnNull( exp ) \
 		try { \
 			exp; \
@@ -1026,7 +1036,7 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	Runtime::Object condition;
 	for  ( ; ; ) {
 		if ( node->mCondition ) {
-			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
+			tryControlPopScope(evaluate(node->mCondition, &condition));		// evaluate loop condition
 
 			// validate loop condition
 			if ( !isTrue(condition) ) {
@@ -1039,12 +1049,12 @@ void TreeInterpreter::visitFor(ForStatement* node)
 
 		// check (and reset) control flow
 		switch ( mControlFlow ) {
-			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
+			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; popScope(); return;
 			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
+			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; popScope(); return;
 			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
-			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
+			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; popScope(); return;
+			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; popScope(); return;
 		}
 
 		// execute arbitrary iteration node type
-- 
2.43.0


From fdd679551c3f952953f5b887d44f29c91ddaeb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:25 +0000
Subject: [PATCH 03/44] fix: let exceptions thrown by an iterator reach the
 enclosing try block

Exceptions thrown while fetching the iterator or its next item left a
foreach loop past every enclosing try block and ended the program.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 8cdbe6f..59a6c3d 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1077,13 +1077,13 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 
 		pushScope(&collection);
 
-			evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+			tryControlPopScope(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 
 		popScope();
 	}
 	else {
 		// an iterator has been provided instead of a collection
-		evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+		tryControl(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 	}
 
 	const TypeDeclaration* typeDeclaration = node->mTypeDeclaration;
@@ -1095,7 +1095,7 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 
 		pushScope(&iterator);
 
-			evaluateMethodExpression(node->mHasNextExpression, &condition);
+			tryControlPopScope(evaluateMethodExpression(node->mHasNextExpression, &condition));
 
 		popScope();
 
@@ -1116,7 +1116,15 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 			// iterate over next item
 			pushScope(&iterator);
 
-				evaluateMethodExpression(node->mNextExpression, loopVariable);
+				try {
+					evaluateMethodExpression(node->mNextExpression, loopVariable);
+				}
+				catch ( Runtime::ControlFlow::E &e ) {
+					popScope();		// iterator
+					popScope();		// loop variable
+					mControlFlow = e;
+					return;
+				}
 
 			popScope();
 
-- 
2.43.0


From 3d3a660e5c1d525d62fb9983909436154dda79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:25 +0000
Subject: [PATCH 04/44] fix: restore the scope when a method called on an
 expression throws

The scope of the object stayed active after "a.self().bad()" had thrown.
The next block popped it instead of its own scope, so that variables of the
try block were still defined after it.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 59a6c3d..d6f024c 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -372,7 +372,13 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	pushScope(&left);
 
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
+	try {
+		evaluate(exp->mRHS, &right);
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		popScope();
+		throw;
+	}
 
 	popScope();
 
-- 
2.43.0


From f2a78f302ab76185f62fb86fdd42baebc95aec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:25 +0000
Subject: [PATCH 05/44] fix: do not leak the control flow of a constructor into
 its caller

A constructor that executed a return statement ended the calling method,
too. An exception thrown by a constructor was lost when another method was
called in the same expression.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d6f024c..0c337a4 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -361,7 +361,11 @@ void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object*
 	*result = *mRepository->createReference( exp->getResultType(), ANONYMOUS_OBJECT, PrototypeConstraints(), Repository::InitilizationType::Final );
 
 	// execute new object's constructor
-	mControlFlow = result->Constructor(params);
+	switch ( result->Constructor(params) ) {
+		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
+		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
+		default: mControlFlow = Runtime::ControlFlow::Normal; break;
+	}
 }
 
 void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result)
-- 
2.43.0


From ab57e2bf995769572cdaa8abfa496efe97c16fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:43 +0000
Subject: [PATCH 06/44] fix: unwind all stack frames when exit is called in a
 method

The exit statement skipped the clean up of all blocks and stack frames
between itself and the next call expression, which aborted the interpreter
with a corrupted heap when called in a nested method.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp           | 2 +-
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 0c337a4..05f3b20 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1026,7 +1026,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 	mThread->exception(data, node->token().position());
 
-	throw Runtime::ControlFlow::ExitProgram;
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
 }
 
 void TreeInterpreter::visitExpression(Expression* expression)
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..81170f2 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -439,6 +439,9 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 	auto* thread = Controller::Instance().threads()->createThread();
 
 	auto controlflow = thread->execute(nullptr, main, params, result);
+	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
+		throw Runtime::ControlFlow::ExitProgram;
+	}
 	if ( controlflow == Runtime::ControlFlow::Throw ) {
 		throw Runtime::ControlFlow::Throw;
 	}
-- 
2.43.0


From b25f37c5b6038abdbb29e9ed84d1a914ddf945b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:43 +0000
Subject: [PATCH 07/44] fix: detect circular inheritance over more than two
 types

Only direct cycles were detected; "A extends C, B extends A, C extends B"
recursed until the stack overflowed.
---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 10 ++++++++++
 Projects/Core/Core/Designtime/BluePrintObject.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 09dde6e..9d7abf5 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -56,6 +56,7 @@ BluePrintObject::BluePrintObject()
   mIsAtomicType(false),
   mFilename(ANONYMOUS_OBJECT),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(ANONYMOUS_OBJECT),
   mUnqualifiedTypename(ANONYMOUS_OBJECT)
@@ -70,6 +71,7 @@ BluePrintObject::BluePrintObject(const std::string& unqualifiedTypename, std::st
   mIsAtomicType(false),
   mFilename(std::move(filename)),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(unqualifiedTypename),
   mUnqualifiedTypename(unqualifiedTypename)
@@ -341,6 +343,13 @@ void BluePrintObject::prepareParents(Repository* repository)
 	// }
 */
 
+	// detect circular inheritance over more than one generation
+	if ( mIsPreparing ) {
+		throw Exceptions::DesigntimeException("Circular inheritance detected for type '" + QualifiedTypename() + "'!");
+	}
+
+	mIsPreparing = true;
+
 	for ( const auto& it : mInheritance ) {
 		BluePrintObject* parent = repository->findBluePrintObject(it.typeDeclaration());
 
@@ -376,6 +385,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 	}
 
 	mIsPrepared = true;
+	mIsPreparing = false;
 }
 
 MethodScope::MethodCollection BluePrintObject::provideMethods() const
diff --git a/Projects/Core/Core/Designtime/BluePrintObject.h b/Projects/Core/Core/Designtime/BluePrintObject.h
index cb73caa..2945e76 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.h
+++ b/Projects/Core/Core/Designtime/BluePrintObject.h
@@ -112,6 +112,7 @@ private:
 	std::string mFilename;
 	Ancestors mInheritance;
 	bool mIsPrepared;
+	bool mIsPreparing;
 	bool mIsReference;
 	PrototypeConstraints mPrototypeConstraints;
 	std::string mQualifiedTypename;
-- 
2.43.0


From fb458bf2e08e042091c12432256832259ee30ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:43 +0000
Subject: [PATCH 08/44] fix: do not pass the previous argument's reference to
 default parameters

A default parameter following an object argument received that object
instead of its default value.
---
 Projects/Core/Core/Common/Method.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..f7ae67d 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -295,11 +295,10 @@ ParameterList Method::mergeParameters(const ParameterList& params) const
 
 	auto paramIt = params.begin();
 
-	Runtime::Reference ref;
-
 	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
 		// initialize parameter with default value
 		auto value = sigIt->value();
+		Runtime::Reference ref;
 
 		if ( paramIt != params.end() ) {
 			// override parameter with correct value
-- 
2.43.0


From ffcb8bd1c6e70219ebb846510c2413063e7972f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:47 +0000
Subject: [PATCH 09/44] fix: support bitwise operators for int16 and int64
 values

The type system accepts "&" and "|" for all integer types, but executing
them failed with an invalid operation for int16 and int64 operands.
---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..c46c8a9 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -130,6 +130,18 @@ void operator_binary_bitand( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitand( rvalue );
@@ -230,6 +242,18 @@ void operator_binary_bitor( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitor( rvalue );
-- 
2.43.0


From 12fe9e12e5738117dbd54e7668cbea75f5982f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:47 +0000
Subject: [PATCH 10/44] fix: report integer divisions by zero instead of
 crashing

Dividing an integer by zero, or taking the remainder of such a division,
terminated the interpreter with a floating point exception signal.
---
 Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp | 8 ++++++++
 Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp | 8 ++++++++
 Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..102e1a5 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,6 +150,10 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
+		if ( static_cast<int16_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
 		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
 		return;
 	}
@@ -265,6 +269,10 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
+		if ( static_cast<int16_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
 		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
 		return;
 	}
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..dcc15b8 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -150,6 +150,10 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
+		if ( static_cast<int32_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
 		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
 		return;
 	}
@@ -265,6 +269,10 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
+		if ( static_cast<int32_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
 		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
 		return;
 	}
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..3809687 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -150,6 +150,10 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
+		if ( static_cast<int64_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
 		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
 		return;
 	}
@@ -265,6 +269,10 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
+		if ( static_cast<int64_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
 		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
 		return;
 	}
-- 
2.43.0


From 5a3e1b123f9fa5eda0c803a24cbd6458b29846fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:44 +0000
Subject: [PATCH 11/44] fix: leave a for loop whose initialization or iteration
 statement throws

An exception raised by the first or the third part of a for loop was lost when
the loop condition called an extension method: the call reset the control flow.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 05f3b20..7e32e00 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1044,7 +1044,7 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	visit(node->mInitialization);
 
 	Runtime::Object condition;
-	for  ( ; ; ) {
+	while ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		if ( node->mCondition ) {
 			tryControlPopScope(evaluate(node->mCondition, &condition));		// evaluate loop condition
 
-- 
2.43.0


From 42ab2238e0cd2cb7e287c94039acd14bfeb62bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:57 +0000
Subject: [PATCH 12/44] fix: keep a pending exception while another one is
 handled

A finally or catch block that handled a second exception (itself or in a method
it called) replaced the first one, which then continued with the wrong value.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 7e32e00..bbc4cf8 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1342,6 +1342,9 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 
 void TreeInterpreter::visitTry(TryStatement* node)
 {
+	// store exception that is currently being handled (or pending), our own one may replace it
+	const Runtime::ExceptionData tmpException = mThread->exception();
+
 	// execute try-block
 	visitStatements(node->mTryBlock);
 
@@ -1407,6 +1410,11 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
 	}
+
+	// our exception has been handled completely, so the previous one is the current one again
+	if ( mControlFlow != Runtime::ControlFlow::ExitProgram && mControlFlow != Runtime::ControlFlow::Throw ) {
+		mThread->exception( tmpException );
+	}
 }
 
 Runtime::Object* TreeInterpreter::visitTypeDeclaration(TypeDeclaration* node)
-- 
2.43.0


From bd727443dfd8aa4e1368550156b17b8a9f8b9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:05 +0000
Subject: [PATCH 13/44] fix: private members of a base type are not accessible
 in derived types

The lookup in the base type used the caller's visibility unchanged.  Code
inside a derived type could therefore call private methods of its base and
name its private members.  For members the program was accepted and then
failed at run time.

The Sequence type of libBehaviourTree relied on this: its Index member is
now protected.
---
 Projects/Core/Core/Scope.cpp                 | 12 ++++++++----
 Projects/Library/libBehaviourTree/Control.os |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/Scope.cpp b/Projects/Core/Core/Scope.cpp
index 19244b4..d4d5ebd 100644
--- a/Projects/Core/Core/Scope.cpp
+++ b/Projects/Core/Core/Scope.cpp
@@ -335,12 +335,14 @@ Symbol* MethodScope::resolve(const std::string& name, bool onlyCurrentScope, Vis
 	if ( visibility != Visibility::Designtime ) {
 		Symbol* base = resolve(IDENTIFIER_BASE, true, Visibility::Designtime);
 		if ( base ) {
+			// private symbols of a base type are not accessible
+			const auto inheritedVisibility = visibility < Visibility::Protected ? Visibility::Protected : visibility;
 			Symbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, inheritedVisibility); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolve(name, true, visibility); break;
-				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, visibility); break;
+				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, inheritedVisibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
 			}
 
@@ -378,12 +380,14 @@ MethodSymbol* MethodScope::resolveMethod(const std::string& name, const Paramete
 	if ( visibility != Visibility::Designtime ) {
 		Symbol* base = resolve(IDENTIFIER_BASE, true, Visibility::Designtime);
 		if ( base ) {
+			// private symbols of a base type are not accessible
+			const auto inheritedVisibility = visibility < Visibility::Protected ? Visibility::Protected : visibility;
 			MethodSymbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, inheritedVisibility); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolveMethod(name, params, true, visibility); break;
-				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, visibility); break;
+				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, inheritedVisibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
 			}
 
diff --git a/Projects/Library/libBehaviourTree/Control.os b/Projects/Library/libBehaviourTree/Control.os
index 9cfdce6..059bfbf 100644
--- a/Projects/Library/libBehaviourTree/Control.os
+++ b/Projects/Library/libBehaviourTree/Control.os
@@ -128,7 +128,7 @@ public object Sequence extends Control {
         return NodeStatus.Success;
     }
 
-    private int Index = 0;
+    protected int Index = 0;
 }
 
 public object ReactiveSequence extends Sequence {
-- 
2.43.0


From 3a0b5b53a983b0234154ab7a1e2230155a694873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 14/44] fix: dividing the smallest integer by -1 crashes the
 interpreter

The quotient of the smallest int or int64 and -1 is not representable and
the division trapped.  It now wraps around like the other operators do, and
the remainder is 0.
---
 .../Core/Core/Runtime/BuildInTypes/Int32Type.cpp     |  4 ++--
 .../Core/Core/Runtime/BuildInTypes/Int64Type.cpp     | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index dcc15b8..b6cb116 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -154,7 +154,7 @@ void Int32Type::operator_divide( const Object* other )
 			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
 		}
 
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		mValue = static_cast<int32_t>( static_cast<int64_t>( static_cast<int32_t>( mValue.toInt() ) ) / static_cast<int32_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -273,7 +273,7 @@ void Int32Type::operator_modulo( const Object* other )
 			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
 		}
 
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		mValue = static_cast<int32_t>( static_cast<int64_t>( static_cast<int32_t>( mValue.toInt() ) ) % static_cast<int32_t>( other->getValue().toInt() ) );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 3809687..febc431 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -3,6 +3,7 @@
 #include "Int64Type.h"
 
 // Library includes
+#include <cstdint>
 
 // Project includes
 #include <Core/Consts.h>
@@ -154,6 +155,12 @@ void Int64Type::operator_divide( const Object* other )
 			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
 		}
 
+		if ( static_cast<int64_t>( other->getValue().toInt() ) == -1 ) {
+			// the quotient of the smallest value and -1 is not representable, it wraps around like the other operators
+			mValue = static_cast<int64_t>( 0 - static_cast<uint64_t>( mValue.toInt() ) );
+			return;
+		}
+
 		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
 		return;
 	}
@@ -273,6 +280,11 @@ void Int64Type::operator_modulo( const Object* other )
 			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
 		}
 
+		if ( static_cast<int64_t>( other->getValue().toInt() ) == -1 ) {
+			mValue = static_cast<int64_t>( 0 );
+			return;
+		}
+
 		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
 		return;
 	}
-- 
2.43.0


From b4a4d566240f98486edd0c7dc9a3b2ded219400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 15/44] fix: fgets returns the wrong line for sizes above 1024

The function went on reading after a complete line and returned the last
chunk only.
---
 Projects/Extensions/LIBC/stdio/fgets.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fgets.h b/Projects/Extensions/LIBC/stdio/fgets.h
index 8b963a2..3b7e841 100644
--- a/Projects/Extensions/LIBC/stdio/fgets.h
+++ b/Projects/Extensions/LIBC/stdio/fgets.h
@@ -53,6 +53,8 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
+		std::string line;
+
 		int32_t remainingSize{0};
 		while ( remainingSize < param_size ) {
 			auto readSize = param_size - remainingSize;
@@ -61,13 +63,22 @@ public:
 			}
 
 			char stream[READ_SIZE];
-			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) != nullptr ) {
-				*result = Runtime::StringType( std::string( stream ) );
+			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) == nullptr ) {
+				break;
+			}
+
+			line += stream;
+			if ( !line.empty() && line.back() == '\n' ) {
+				break;
 			}
 
 			remainingSize += readSize;
 		}
 
+		if ( !line.empty() ) {
+			*result = Runtime::StringType( line );
+		}
+
 		return Runtime::ControlFlow::Normal;
 	}
 };
-- 
2.43.0


From 816b5964e9c7f0b6266d020f435094a3b244cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 16/44] fix: closed and failed file handles are rejected

fclose kept the handle, so closing a file twice freed it twice.  The handle 0,
which fopen returns when a file cannot be opened, was accepted by all file
functions and dereferenced a null pointer.
---
 Projects/Extensions/LIBC/stdio/fclose.h  | 7 ++++++-
 Projects/Extensions/LIBC/stdio/fopen.h   | 2 +-
 Projects/Extensions/LIBC/stdio/stdio.cpp | 3 +--
 Projects/Extensions/LIBC/stdio/tmpfile.h | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fclose.h b/Projects/Extensions/LIBC/stdio/fclose.h
index 0395365..7de30af 100644
--- a/Projects/Extensions/LIBC/stdio/fclose.h
+++ b/Projects/Extensions/LIBC/stdio/fclose.h
@@ -46,7 +46,12 @@ public:
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
 
-		int fileResult = fclose(stdio_t::FileHandles[param_handle]);
+		FILE* fileHandle = stdio_t::FileHandles[param_handle];
+
+		// the handle is invalid from now on
+		stdio_t::FileHandles.erase(param_handle);
+
+		int fileResult = fclose(fileHandle);
 		if ( fileResult == -1 ) {
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
diff --git a/Projects/Extensions/LIBC/stdio/fopen.h b/Projects/Extensions/LIBC/stdio/fopen.h
index e83874d..61f35ef 100644
--- a/Projects/Extensions/LIBC/stdio/fopen.h
+++ b/Projects/Extensions/LIBC/stdio/fopen.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = fopen(param_filename.c_str(), param_accessmode.c_str());
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::FileHandles.empty() ? 1 : stdio_t::FileHandles.rbegin()->first + 1;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
diff --git a/Projects/Extensions/LIBC/stdio/stdio.cpp b/Projects/Extensions/LIBC/stdio/stdio.cpp
index 7e8210e..2322464 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.cpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.cpp
@@ -68,8 +68,7 @@ void stdio_t::initialize( ExtensionNamespace* scope )
 	scope->define( "SEEK_CUR", new Runtime::Int32Type( "SEEK_CUR", SEEK_CUR ) );
 	scope->define( "SEEK_END", new Runtime::Int32Type( "SEEK_END", SEEK_END ) );
 
-	// nothing to do here
-	FileHandles[ 0 ]      = nullptr;
+	// 0 is no valid handle, it tells that a file could not be opened
 	FileHandles[ STDIN ]  = stdin;
 	FileHandles[ STDOUT ] = stdout;
 	FileHandles[ STDERR ] = stderr;
diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index a4c112c..ecd2320 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = tmpfile();
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::FileHandles.empty() ? 1 : stdio_t::FileHandles.rbegin()->first + 1;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
-- 
2.43.0


From dab9a100023845d5d30405da1963eb851a45f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 17/44] fix: strlpad and strrpad reject negative lengths

The length was converted to an unsigned value before the check.
---
 Projects/Extensions/System/Strings/StrLPad.h | 4 ++--
 Projects/Extensions/System/Strings/StrRPad.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/System/Strings/StrLPad.h b/Projects/Extensions/System/Strings/StrLPad.h
index 08b2793..413e8ba 100644
--- a/Projects/Extensions/System/Strings/StrLPad.h
+++ b/Projects/Extensions/System/Strings/StrLPad.h
@@ -45,7 +45,7 @@ public:
 		ParameterList::const_iterator it = list.begin();
 
 		auto param_value   = (*it++).value().toStdString();
-		auto param_length  = static_cast<size_t>( (*it++).value().toInt() );
+		auto param_length  = (*it++).value().toInt();
 		auto param_pattern = (*it++).value().toStdString();
 
 		if ( param_length < 0 ) {
@@ -55,7 +55,7 @@ public:
 			throw Runtime::Exceptions::SizeException("invalid pattern size");
 		}
 
-		if ( param_length > param_value.size() ) {
+		if ( static_cast<size_t>( param_length ) > param_value.size() ) {
 			param_value.insert(param_value.begin(), param_length - param_value.size(), param_pattern[0]);
 		}
 
diff --git a/Projects/Extensions/System/Strings/StrRPad.h b/Projects/Extensions/System/Strings/StrRPad.h
index 3a43c40..2ef0003 100644
--- a/Projects/Extensions/System/Strings/StrRPad.h
+++ b/Projects/Extensions/System/Strings/StrRPad.h
@@ -44,7 +44,7 @@ public:
 		ParameterList::const_iterator it = list.begin();
 
 		auto param_value   = (*it++).value().toStdString();
-		auto param_length  = static_cast<size_t>( (*it++).value().toInt() );
+		auto param_length  = (*it++).value().toInt();
 		auto param_pattern = (*it++).value().toStdString();
 
 		if ( param_length < 0 ) {
@@ -54,7 +54,7 @@ public:
 			throw Runtime::Exceptions::SizeException("invalid pattern size");
 		}
 
-		if ( param_length > param_value.size() ) {
+		if ( static_cast<size_t>( param_length ) > param_value.size() ) {
 			param_value.append(param_length - param_value.size(), param_pattern[0]);
 		}
 
-- 
2.43.0


From 4fb35b16140a1c9658cb058869020f2d1198bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 18/44] fix: versions with different labels have a defined
 order

Each of two versions which only differ in their labels was less than the
other one.
---
 Projects/Utils/SemVer/Version.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..25385f7 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -69,7 +69,12 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
-				return !mLabel.empty();
+				// a version without label comes after all versions with a label
+				if ( mLabel.empty() || other.mLabel.empty() ) {
+					return !mLabel.empty();
+				}
+
+				return mLabel < other.mLabel;
 			}
 
 			return mBugfix < other.mBugfix;
-- 
2.43.0


From e61ef2794dc0a286d2324f68f3e6d068a91434a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 19/44] fix: removing an unknown breakpoint erased the end
 iterator

---
 Projects/Core/Debugger/Debugger.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index e9e49da..646cf55 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -166,11 +166,7 @@ bool Debugger::registerReceiver(IReceiver* receiver)
 
 bool Debugger::removeBreakPoint(const BreakPoint& breakpoint)
 {
-	size_t size = mBreakPoints.size();
-
-	mBreakPoints.erase(mBreakPoints.find(breakpoint));
-
-	return size > mBreakPoints.size();
+	return mBreakPoints.erase(breakpoint) > 0;
 }
 
 void Debugger::resume()
-- 
2.43.0


From f9ac20d7c2067a85e02f4e4b877515725fa13b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:06 +0000
Subject: [PATCH 20/44] fix: the token of %= is printed as *=

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 32858d3..5621bb3 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -612,7 +612,7 @@ void Tokenizer::mergeAssignments()
 			// remove last added token ...
 			tmp.pop_back();
 			// ... and add ASSIGN_MULTI instead
-			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "*=", token->position() );
+			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "%=", token->position() );
 		}
 		else if ( (lastType == Token::Type::MATH_MULTIPLY) && (currentType == Token::Type::ASSIGN) ) {
 			// *=
-- 
2.43.0


From dc50dace1a9969ce9dd17eae7dde259341f87bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 21/44] fix: objects that reference each other crash the
 interpreter at its end

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..57e8f8e 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -56,8 +56,12 @@ void Memory::deinit()
 
 		//it.second.mObject->Destructor();
 
+		// objects that reference each other must not delete this one again
+		auto* object = it.second.mObject;
+		it.second.mObject = nullptr;
+
 		// force delete
-		delete it.second.mObject;
+		delete object;
 	}
 
 	mMemory.clear();
-- 
2.43.0


From 84f4e3e8f7e812b29d40f6e6cc366adbd661935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 22/44] fix: removing the last item of a collection leaves it
 in place

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 8 +++++---
 Projects/Library/System/Collections/List.os             | 8 ++++----
 Projects/Library/System/Collections/Stack.os            | 7 ++++---
 Projects/Library/System/Collections/Vector.os           | 8 ++++----
 4 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 8b94aa0..a495074 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -157,15 +157,17 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 
 		if ( mSize == 1 ) {
-			delete mFirst;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
-			delete item.next;
+			mLast = item;
+			item.next = CollectionItem<T> null;
 		}
 
 		mSize--;
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index d093366..5c5e61f 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -154,17 +154,17 @@ public object List<T> implements ICollection {
 		}
 
 		if ( mSize == 1 ) {			// special handling for 1st item
-			delete mFirst;
-			delete mLast;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {					// generic handling
 			CollectionItem<T> item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
 			mLast = item;
-			delete item.next;
+			item.next = CollectionItem<T> null;
 		}
 
 		mSize--;
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index cd84331..16c4844 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -148,15 +148,16 @@ public object Stack<T> implements ICollection {
 		var last = mLast.value;
 
 		if ( mSize == 1 ) {
-			delete mFirst;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
-			delete item.next;
+			item.next = CollectionItem<T> null;
 
 			mLast = item;
 		}
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 88a10f4..1b1bb1c 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -186,17 +186,17 @@ public object Vector<T> implements ICollection {
 		}
 
 		if ( mSize == 1 ) {                     // special handling for 1st item
-			delete mFirst;
-			delete mLast;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {                                  // generic handling
 			var item = mFirst;
-			for ( int idx = 0; idx < mSize - 1; idx++ ) {
+			for ( int idx = 0; idx < mSize - 2; idx++ ) {
 				item = item.next;
 			}
 
 			mLast = item;
-			delete item.next;
+			item.next = CollectionItem<T> null;
 		}
 
 		mSize--;
-- 
2.43.0


From 308a6c2065b7788ec32cc636c571cbe06dd3bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 23/44] fix: collections accept erasing the position behind
 their last item

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 2 +-
 Projects/Library/System/Collections/List.os             | 2 +-
 Projects/Library/System/Collections/Set.os              | 2 +-
 Projects/Library/System/Collections/Stack.os            | 2 +-
 Projects/Library/System/Collections/Vector.os           | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index a495074..9b6474c 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -62,7 +62,7 @@ public object DoubleLinkedList<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index 5c5e61f..09d356c 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -59,7 +59,7 @@ public object List<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index d052a14..8b543d7 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -60,7 +60,7 @@ public object Set<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index 16c4844..af89153 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -59,7 +59,7 @@ public object Stack<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 1b1bb1c..2e8c2a1 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -59,7 +59,7 @@ public object Vector<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") beyond end of list" );
 		}
 
-- 
2.43.0


From e5d614e92b7acbd71323ad2416d03bc0f5dc599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 24/44] fix: Map finds wrong indices and fails to return its
 first and last value

---
 Projects/Library/System/Collections/Map.os | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 881e2e2..7b4c17e 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -44,7 +44,7 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V first() const throws {
-		return V mItems.first();
+		return ( Pair<K, V> mItems.first() ).second;
 	}
 
 	public V get( K key const ) const throws {
@@ -84,6 +84,8 @@ public object Map<K, V> implements ICollection {
 			if ( ( Pair<K, V> p ) == key ) {
 				return count;
 			}
+
+			count++;
 		}
 
 		return -1;
@@ -94,7 +96,7 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V last() const throws {
-		return V mItems.last();
+		return ( Pair<K, V> mItems.last() ).second;
 	}
 
 	public void put( K key, V value ) modify throws {
-- 
2.43.0


From 2f798feef6e5f7b1bb3278bf616c4921e698eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 25/44] fix: Set does not keep track of its last item when
 inserting behind it

---
 Projects/Library/System/Collections/Set.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 8b543d7..16b7967 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -176,6 +176,10 @@ public object Set<T> implements ICollection {
 
 			item.next = previous.next;
 			previous.next = item;
+
+			if ( !item.next ) {			// inserted in last position
+				mLast = item;
+			}
 		}
 
 		mSize++;
-- 
2.43.0


From a77fcfb6cd72d6838c1118579ebae07221d2beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 26/44] fix: ReverseIterator fails on its first step and peeks
 one item short

---
 .../System/Collections/DoubleLinkedIterator.os        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedIterator.os b/Projects/Library/System/Collections/DoubleLinkedIterator.os
index ab54597..ec79c78 100644
--- a/Projects/Library/System/Collections/DoubleLinkedIterator.os
+++ b/Projects/Library/System/Collections/DoubleLinkedIterator.os
@@ -159,7 +159,12 @@ public object ReverseIterator<T> {
 			throw new OutOfBoundsException( "next(): index out of bounds" );
 		}
 
-		mCurrentItem = mCurrentItem.previous;
+		if ( !mCurrentItem ) {
+			mCurrentItem = mLastItem;
+		}
+		else {
+			mCurrentItem = mCurrentItem.previous;
+		}
 
 		return T mCurrentItem.value;
 	}
@@ -172,12 +177,12 @@ public object ReverseIterator<T> {
 		var tmpItem = mCurrentItem;
 
 		if ( offset > 0 ) {
-			while ( offset-- > 0 ) {
+			while ( offset-- >= 0 ) {
 				tmpItem = tmpItem.previous;
 			}
 		}
 		else if ( offset < 0 ) {
-			while ( offset++ < 0 ) {
+			while ( offset++ <= 0 ) {
 				tmpItem = tmpItem.next;
 			}
 		}
-- 
2.43.0


From aa66f993709d8d8587fa949c08ce9467f0fb379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:45 +0000
Subject: [PATCH 27/44] fix: DoubleLinkedList loses its last item when filled
 from the front

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 9b6474c..90c6f94 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -206,6 +206,10 @@ public object DoubleLinkedList<T> implements ICollection {
 		//mFirst.previous = item;	// this leaves a mem leak... ;-(
 		mFirst = item;
 
+		if ( mSize == 0 ) {
+			mLast = item;
+		}
+
 		mSize++;
 	}
 
-- 
2.43.0


From 8c4c268a3c8309e6b4da241a0f15ca3686a0008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:50 +0000
Subject: [PATCH 28/44] fix: appending to a String does not update its length

---
 Projects/Library/System/String.os | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 0fd9697..b182162 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -370,6 +370,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( string other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -379,6 +380,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( bool other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -388,6 +390,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( double other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -397,6 +400,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( float other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -406,6 +410,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( int other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -415,6 +420,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( String other const ) modify {
 		mValue += other.mValue;
+		mSize = strlen( mValue );
 
 		return this;
 	}
-- 
2.43.0


From 8afb254b0511e74376ec8932ed5c9c3ecc1cfe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:50 +0000
Subject: [PATCH 29/44] fix: String.EndsWith fails for strings longer than the
 held one

---
 Projects/Library/System/String.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index b182162..94fbac0 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -91,6 +91,10 @@ public object String implements IIterable {
 	 * Returns true if the held string ends with the given string
 	 */
 	public bool EndsWith( string str ) const {
+		if ( strlen( str ) > strlen( mValue ) ) {
+			return false;
+		}
+
 		return str == substr( mValue, strlen( mValue ) - strlen( str ) );
 	}
 
-- 
2.43.0


From 4a0840973bac22aa2c49cf364b1364e3f09307b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:06 +0000
Subject: [PATCH 30/44] fix: String.ReplaceAll never ends when the new string
 contains the old one

---
 Projects/Library/System/String.os | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 94fbac0..db33dd2 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -158,7 +158,14 @@ public object String implements IIterable {
 	public bool ReplaceAll( string oldStr, string newStr ) modify {
 		bool hasFound = false;
 
-		while ( Replace( oldStr, newStr ) ) {
+		int position = strfind( mValue, oldStr, 0 );
+
+		while ( position >= 0 && strlen( oldStr ) > 0 ) {
+			mValue = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );
+			mSize = strlen( mValue );
+
+			// do not search in the new string again
+			position = strfind( mValue, oldStr, position + strlen( newStr ) );
 			hasFound = true;
 		}
 
-- 
2.43.0


From efb14384ff5c3f4f121d5d20b8a20368041f208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:24 +0000
Subject: [PATCH 31/44] fix: Math.power with the exponent 0 returns the value
 itself

---
 Projects/Library/System/Math/Functions.os | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/System/Math/Functions.os b/Projects/Library/System/Math/Functions.os
index 7028f74..ec9ecf0 100644
--- a/Projects/Library/System/Math/Functions.os
+++ b/Projects/Library/System/Math/Functions.os
@@ -9,9 +9,9 @@ public namespace Math {
 	}
 
 	public double power(double value, int exp) {
-		double result = value;
+		double result = 1.0d;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -24,9 +24,9 @@ public namespace Math {
 	}
 
 	public float power(float value, int exp) {
-		float result = value;
+		float result = 1.0f;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -39,9 +39,9 @@ public namespace Math {
 	}
 
 	public int power(int value, int exp) {
-		int result = value;
+		int result = 1;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
-- 
2.43.0


From db8ff7c62ff05199666d782e7ae27fe14f509a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:00 +0000
Subject: [PATCH 32/44] fix: global objects with a destructor crash the
 interpreter at its end

---
 Projects/Core/Core/VirtualMachine/Controller.cpp | 4 ++--
 Projects/Core/Core/VirtualMachine/Memory.cpp     | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 502b3f6..c4e0462 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -27,6 +27,8 @@ void Controller::deinit()
 {
 	assert(mPhase > Phase::Startup);
 
+	mPhase = Phase::Shutdown;
+
 	delete mGlobalScope;
 	mGlobalScope = nullptr;
 
@@ -40,8 +42,6 @@ void Controller::deinit()
 	mMemory = nullptr;
 	delete mRepository;
 	mRepository = nullptr;
-
-	mPhase = Phase::Shutdown;
 }
 
 Common::Namespace* Controller::globalScope() const
diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index 57e8f8e..b764444 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -13,6 +13,7 @@
 #include <Core/Object.h>
 #include <Logger/Logger.h>
 #include <Tools/Strings.h>
+#include "Controller.h"
 
 // Namespace declarations
 
@@ -76,7 +77,10 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 
 	// delete it if it's valid ...
 	if ( it->second.mObject ) {
-		it->second.mObject->Destructor();
+		// there is no code left to be executed while we shut down
+		if ( Controller::Instance().phase() != Controller::Phase::Shutdown ) {
+			it->second.mObject->Destructor();
+		}
 
 		delete it->second.mObject;
 	}
-- 
2.43.0


From d659fb6a32ddcd0ee812e59431b8607179b3f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:01 +0000
Subject: [PATCH 33/44] fix: assigning a member object that was never set
 unsets the target

---
 Projects/Core/Core/Object.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e0fe925..2e95ce6 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -94,6 +94,7 @@ void Object::assign(const Object& other)
 		mInheritance = other.mInheritance;
 		mIsAtomicType = other.mIsAtomicType;
 		mMemoryLayout = other.mMemoryLayout;
+		IScope* parent = mParent;
 		mParent = other.mParent ? other.mParent : mParent;
 		mScopeName = other.mScopeName;
 		mScopeType = other.mScopeType;
@@ -110,6 +111,12 @@ void Object::assign(const Object& other)
 		}
 		else {
 			setValue(other.getValue());
+
+			if ( !mIsAtomicType && !other.mReference.isValid() ) {
+				// the other object has never been set, so we don't refer to our old one any more
+				mParent = parent;
+				assignReference(Reference());
+			}
 		}
 	}
 }
-- 
2.43.0


From 4e42298f6291494245690520d2e99a522c9059df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:01 +0000
Subject: [PATCH 34/44] fix: accessing a member of an unset member object
 throws instead of using the enclosing object

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index bbc4cf8..a9aef34 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -76,6 +76,19 @@ namespace Slang {
 namespace AST {
 
 
+namespace {
+
+// an object variable that doesn't refer to an object has no members
+bool isNullObject(const Symbol* symbol)
+{
+	auto* object = dynamic_cast<const Runtime::Object*>(symbol);
+
+	return object && object->getName() != IDENTIFIER_BASE && object->getName() != IDENTIFIER_THIS && !object->isAtomicType() && !object->isValid();
+}
+
+}
+
+
 TreeInterpreter::TreeInterpreter( Thread* thread )
 : mControlFlow( Runtime::ControlFlow::Normal )
 , mDebugger ( Core::Debugger::Instance().useDebugger() ? &Core::Debugger::Instance() : nullptr )
@@ -451,7 +464,7 @@ void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::O
 
 	// resolve current symbol name
 	Symbol* lvalue = scope->resolve(exp->mName, false, Visibility::Designtime);
-	if ( !lvalue ) {
+	if ( !lvalue || (exp->mSymbolExpression && isNullObject(lvalue)) ) {
 		auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
 		data->setValue( std::string("NullPointerException: ") + exp->toString() );
 
@@ -885,7 +898,7 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 	while ( symbol->mSymbolExpression ) {
 		Symbol* child = scope->resolve(symbol->mName, onlyCurrentScope, visibility);
 
-		if ( !child ) {
+		if ( !child || isNullObject(child) ) {
 			return nullptr;
 		}
 
@@ -924,7 +937,7 @@ MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* sy
 		Symbol* child = scope->resolve(symbol->mName, onlyCurrentScope, visibility);
 		onlyCurrentScope = true;
 
-		if ( !child ) {
+		if ( !child || isNullObject(child) ) {
 			return nullptr;
 		}
 
-- 
2.43.0


From a20d43565932fd849318e5c36cb8394786d1d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:01 +0000
Subject: [PATCH 35/44] fix: reverse iteration of a List does not visit removed
 items

---
 Projects/Library/System/Collections/List.os | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index 09d356c..067e2ac 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -65,6 +65,9 @@ public object List<T> implements ICollection {
 
 		if ( index == 0 ) {						// special handling for 1st element
 			mFirst = mFirst.next;
+			if ( mFirst ) {
+				mFirst.previous = CollectionItem<T> null;
+			}
 		}
 		else if ( index == mSize - 1 ) {		// special handling for last element
 			var prev = mFirst;
@@ -87,6 +90,7 @@ public object List<T> implements ICollection {
 			}
 			else if ( prev.next ) {
 				prev.next = prev.next.next;
+				prev.next.previous = prev;
 			}
 		}
 
@@ -176,8 +180,11 @@ public object List<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
-		if ( !mFirst ) {
-			delete mLast;
+		if ( mFirst ) {
+			mFirst.previous = CollectionItem<T> null;
+		}
+		else {
+			mLast = CollectionItem<T> null;
 		}
 
 		mSize--;
-- 
2.43.0


From 7aef6705131b96b855b250ca656bec1d017b8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:01 +0000
Subject: [PATCH 36/44] fix: report string literals that are never closed

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 5621bb3..36d5fdb 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -94,6 +94,7 @@ void Tokenizer::addToken(const std::string& con, const Common::Position& positio
 				// remove leading and trailing quotation marks (")
 				content = con.substr(1, con.length() - 2);
 			}
+			else if ( content[0] == '"' ) { type = Token::Type::QUOTATION_DOUBLE; }	// a literal that has not been closed
 			else if ( isMemoryLayout(content) ) { category = Token::Category::Modifier; isOptional = true; type = Token::Type::MEMORY_LAYOUT; }
 			else if ( isModifier(content) ) { category = Token::Category::Modifier; isOptional = true; type = Token::Type::MODIFIER; }
 			else if ( isMutability(content) ) { category = Token::Category::Modifier; isOptional = true; type = Token::Type::MUTABILITY; }
@@ -491,7 +492,7 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( previousChar != 0 ) {
+	if ( isString || previousChar != 0 ) {
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From e36512cdd0981da8054ce2109a09e6641ff7ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:01 +0000
Subject: [PATCH 37/44] fix: peek of an iterator in front of the first item

---
 Projects/Library/System/Collections/DoubleLinkedIterator.os | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Library/System/Collections/DoubleLinkedIterator.os b/Projects/Library/System/Collections/DoubleLinkedIterator.os
index ec79c78..6bb6bec 100644
--- a/Projects/Library/System/Collections/DoubleLinkedIterator.os
+++ b/Projects/Library/System/Collections/DoubleLinkedIterator.os
@@ -64,6 +64,11 @@ public object Iterator<T> {
 
 		var tmpItem = mCurrentItem;
 
+		if ( !tmpItem && offset > 0 ) {		// the first item follows the start position
+			tmpItem = mFirstItem;
+			offset--;
+		}
+
 		if ( offset > 0 ) {
 			while ( offset-- >= 0 ) {
 				tmpItem = tmpItem.next;
-- 
2.43.0


From 1d71e7048b4dd76d1f38b424caf60e0df96b149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:43 +0000
Subject: [PATCH 38/44] fix: do not treat the end of a comment as the start of
 another one

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 36d5fdb..7454570 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -431,6 +431,8 @@ void Tokenizer::process()
 			isMultiLineComment = true;
 			// remove last inserted token
 			mTokens.pop_back();
+			// this '*' does not end the comment
+			currentChar = 0;
 		}
 
 		if ( !isMultiLineComment && !isSingleLineComment ) {
@@ -476,6 +478,8 @@ void Tokenizer::process()
 		// multi line comments '*/'
 		if ( isMultiLineComment && previousChar == '*' && currentChar == '/' ) {
 			isMultiLineComment = false;
+			// this '/' does not start another comment
+			currentChar = 0;
 		}
 
 		// counting lines and columns
-- 
2.43.0


From 2987e5f6ce86f6640f673b60928a959c5058ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:43 +0000
Subject: [PATCH 39/44] fix: importing from a folder that does not exist loads
 the file named like the folder

---
 Projects/Utils/Tools/Files.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Projects/Utils/Tools/Files.cpp b/Projects/Utils/Tools/Files.cpp
index 57e2e6e..745d79d 100644
--- a/Projects/Utils/Tools/Files.cpp
+++ b/Projects/Utils/Tools/Files.cpp
@@ -103,10 +103,17 @@ std::string GetFullname(const std::string& filename)
 #else
 
 	char full_path[PATH_MAX];
-	const char* result = realpath(filename.c_str(), full_path);
-	(void)result;
+	if ( realpath(filename.c_str(), full_path) ) {
+		return std::string(full_path);
+	}
 
-	return std::string(full_path);
+	// parts that do not exist cannot be resolved and are kept as they are
+	auto separatorPos = filename.find_last_of( '/' );
+	if ( separatorPos == std::string::npos || separatorPos == 0 ) {
+		return filename;
+	}
+
+	return GetFullname( filename.substr( 0, separatorPos ) ) + filename.substr( separatorPos );
 
 #endif
 }
-- 
2.43.0


From e5b7e30850f6b4dd8712e315c6c88d073894b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:43 +0000
Subject: [PATCH 40/44] fix: an installed module that is too old does not
 satisfy a dependency

---
 Projects/slang-pkg/Application/Application.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 7792961..ed92885 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -1077,7 +1077,7 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
 
         // look up dependency in already installed modules
         for ( const auto& module : localModules ) {
-            if ( module.mShortName == dependency.Module ) {
+            if ( module.mShortName == dependency.Module && !( module.mVersion < dependency.MinVersion ) ) {
                 found = true;
                 break;
             }
-- 
2.43.0


From 3c23b7f191e2413a407b5930bcf6639c6e63c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:43 +0000
Subject: [PATCH 41/44] fix: dependencies are installed against the module
 restrictions

---
 Projects/slang-pkg/Application/Application.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index ed92885..3c7e00a 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -842,9 +842,17 @@ void install( const StringList& params )
         mMissingDependencies.addModule( missingModule );
     }
 
-    if ( allowInstall ) {
-        auto missing = mMissingDependencies.getModules();
+    auto missing = mMissingDependencies.getModules();
+
+    // dependencies have to satisfy the module restrictions too
+    for ( const auto& moduleIt : missing ) {
+        if ( allowInstall && !checkRestrictions( moduleIt ) ) {
+            allowInstall = false;
+            std::cout << "!!! Module " << moduleIt.mShortName << "( " << moduleIt.mVersion.toString() << " ) cannot be installed due to current module restrictions" << std::endl;
+        }
+    }
 
+    if ( allowInstall ) {
         for ( const auto& moduleIt : missing ) {
             Module tmp;
 
-- 
2.43.0


From 2f5522f0dc57fb140edc84ebbf5726a0adec149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:54:22 +0000
Subject: [PATCH 42/44] fix: keep the last token of a source that does not end
 with a delimiter

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 7454570..057b99f 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -496,7 +496,8 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( isString || previousChar != 0 ) {
+	if ( !token.empty() ) {
+		pos.mColumn--;	// the terminating character is not part of the source
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From 43b8c1ff9aaf7a2e7a77c4ac60a1484d3c4698ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:54:22 +0000
Subject: [PATCH 43/44] fix: look up the symbols of a breakpoint's condition in
 the scope that has been reached

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ba82d2f..0a3d102 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -687,6 +687,7 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
     writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
 
     // Condition check
+    mScope = scope;
     const auto& condition = breakpoint.getCondition();
     Symbol* lhs = getSymbol( condition.lhs() );
     Symbol* rhs = getSymbol( condition.rhs() );
@@ -704,6 +705,7 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 
     if (  condition.isValid() && !condition.evaluate( lhs, rhs )  ) {
         mContinue = true;
+        mScope = nullptr;
         return 0;
     }
 
-- 
2.43.0


From ce6f189ad189d1aa3090e9cc0db884ab03838a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:54:22 +0000
Subject: [PATCH 44/44] fix: report a declaration that is cut off by the end of
 the file

---
 Projects/Core/Core/Designtime/Analyser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 4b448d0..0e89a24 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -388,8 +388,14 @@ bool Analyser::createMemberOrMethod(TokenIterator& token)
 	// look for an optional language feature token
 	LanguageFeatureState::E languageFeatureState = Parser::parseLanguageFeatureState(token, LanguageFeatureState::Stable);
 	// look for the type token and resolve full typename
+	if ( token->type() == Token::Type::ENDOFFILE ) {
+		throw Exceptions::SyntaxError("unexpected end of file", std::prev(token)->position());
+	}
 	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
 	// look for the identifier token
+	if ( token->type() == Token::Type::ENDOFFILE ) {
+		throw Exceptions::SyntaxError("unexpected end of file", std::prev(token)->position());
+	}
 	std::string name = (*token++).content();
 
 	if ( token->type() == Token::Type::PARENTHESIS_OPEN ) {
-- 
2.43.0


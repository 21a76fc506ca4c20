From 6b023ab4926481ed529b9b4b8d5d949ddef6f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:25 +0000
Subject: [PATCH 001/140] fix: do not delete objects twice when the memory is
 torn down at exit

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..72828c2 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -3,6 +3,7 @@
 #include "Memory.h"
 
 // Library includes
+#include <list>
 #ifdef _WIN32
 #else
 #	include <cstdint>
@@ -47,6 +48,8 @@ void Memory::add(const Runtime::Reference& ref)
 
 void Memory::deinit()
 {
+	// detach all remaining objects from their addresses first, they may still reference each other
+	std::list<Runtime::Object*> objects;
 	for ( auto& it : mMemory ) {
 		/*
 		if( it.second.mObject ) {
@@ -56,8 +59,13 @@ void Memory::deinit()
 
 		//it.second.mObject->Destructor();
 
-		// force delete
-		delete it.second.mObject;
+		objects.push_back( it.second.mObject );
+		it.second.mObject = nullptr;
+	}
+
+	// force delete
+	for ( auto* object : objects ) {
+		delete object;
 	}
 
 	mMemory.clear();
-- 
2.43.0


From 35930e6b2590aba839a609cb2023dd1bd67ca532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:33 +0000
Subject: [PATCH 002/140] fix: nand follows its truth table

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..6b18471 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -202,7 +202,7 @@ void TreeInterpreter::evaluateBooleanBinaryExpression(BooleanBinaryExpression* e
 		// boolean expressions
 		// {
 		case Token::Type::AND:  *result = Runtime::BoolType(leftResult && isTrue(right)); break;
-		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult && !isTrue(right)); break;
+		case Token::Type::NAND: *result = Runtime::BoolType(!(leftResult && isTrue(right))); break;
 		case Token::Type::NOR:  *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::OR:   *result = Runtime::BoolType(leftResult || isTrue(right)); break;
 		// }
-- 
2.43.0


From 1bb918fd1a79119d0b230e99c4987b74cef3806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:33 +0000
Subject: [PATCH 003/140] fix: stop evaluating an expression when a constructor
 throws

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 6b18471..ba080be 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -352,6 +352,12 @@ void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object*
 
 	// execute new object's constructor
 	mControlFlow = result->Constructor(params);
+
+	switch ( mControlFlow ) {
+		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
+		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
+		default: mControlFlow = Runtime::ControlFlow::Normal; break;
+	}
 }
 
 void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result)
-- 
2.43.0


From 59dced264189e85fe622cf160aaa3f1fa3424839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:33 +0000
Subject: [PATCH 004/140] fix: rethrow the exception being handled, not the
 last one caught

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index ba080be..1d392d9 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1320,6 +1320,9 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 
 void TreeInterpreter::visitTry(TryStatement* node)
 {
+	// remember the exception that is currently being handled by an outer catch-block (if any)
+	const Runtime::ExceptionData previous = mThread->exception();
+
 	// execute try-block
 	visitStatements(node->mTryBlock);
 
@@ -1368,6 +1371,11 @@ void TreeInterpreter::visitTry(TryStatement* node)
 			// only process one catch-block
 			break;
 		}
+
+		// as soon as this exception has been handled the outer one becomes the current one again
+		if ( mControlFlow != Runtime::ControlFlow::Throw ) {
+			mThread->exception(previous);
+		}
 	}
 
 	// store current control flow and re-set it after finally block has been executed
-- 
2.43.0


From 00f34ddd9f46267f3d812a19967c3816437fcc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:03 +0000
Subject: [PATCH 005/140] fix: let exceptions leave assignment expressions
 immediately

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 1d392d9..029c8eb 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -109,7 +109,7 @@ void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Ru
 
 	Runtime::Object right;
 	// evaluate right expression
-	tryControl(evaluate(exp->mRHS, &right));
+	evaluate(exp->mRHS, &right);
 
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
-- 
2.43.0


From 64f3860b6fcd4050687e8f1f9358353f1560f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:22 +0000
Subject: [PATCH 006/140] fix: release the scope of a for loop and of a member
 access on every way out

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 28 ++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 029c8eb..043653e 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -368,7 +368,14 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	pushScope(&left);
 
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
+
+	try {
+		evaluate(exp->mRHS, &right);
+	}
+	catch ( ... ) {
+		popScope();
+		throw;
+	}
 
 	popScope();
 
@@ -1030,9 +1037,16 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	visit(node->mInitialization);
 
 	Runtime::Object condition;
-	for  ( ; ; ) {
+	while ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		if ( node->mCondition ) {
-			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
+			// evaluate loop condition
+			try {
+				evaluate(node->mCondition, &condition);
+			}
+			catch ( Runtime::ControlFlow::E &e ) {
+				mControlFlow = e;
+				break;
+			}
 
 			// validate loop condition
 			if ( !isTrue(condition) ) {
@@ -1045,12 +1059,12 @@ void TreeInterpreter::visitFor(ForStatement* node)
 
 		// check (and reset) control flow
 		switch ( mControlFlow ) {
-			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
+			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; popScope(); return;
 			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
+			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; popScope(); return;
 			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
-			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
+			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; popScope(); return;
+			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; popScope(); return;
 		}
 
 		// execute arbitrary iteration node type
-- 
2.43.0


From 8509912f8b75edffab095034179b56f9373e8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 007/140] fix: exceptions raised by an iterator leave foreach
 like any other statement

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 55 +++++++++++-----------
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 043653e..9db085f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -233,6 +233,21 @@ void TreeInterpreter::evaluateCopyExpression(CopyExpression* exp, Runtime::Objec
 	*result = obj;
 }
 
+void TreeInterpreter::evaluateInScope(IScope* scope, Node* exp, Runtime::Object* result)
+{
+	pushScope(scope);
+
+	try {
+		evaluate(exp, result);
+	}
+	catch ( ... ) {
+		popScope();
+		throw;
+	}
+
+	popScope();
+}
+
 void TreeInterpreter::evaluateIsExpression(IsExpression* exp, Runtime::Object* result)
 {
 	Runtime::Object tmp;
@@ -365,19 +380,8 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	Runtime::Object left;
 	evaluate(exp->mLHS, &left);
 
-	pushScope(&left);
-
 	Runtime::Object right;
-
-	try {
-		evaluate(exp->mRHS, &right);
-	}
-	catch ( ... ) {
-		popScope();
-		throw;
-	}
-
-	popScope();
+	evaluateInScope(&left, exp->mRHS, &right);
 
 	*result = right;
 }
@@ -1085,15 +1089,11 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		Runtime::Object collection;
 		tryControl(evaluate(node->mCollectionExpression, &collection));
 
-		pushScope(&collection);
-
-			evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
-
-		popScope();
+		tryControl(evaluateInScope(&collection, node->mGetIteratorExpression, &iterator));
 	}
 	else {
 		// an iterator has been provided instead of a collection
-		evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+		tryControl(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 	}
 
 	const TypeDeclaration* typeDeclaration = node->mTypeDeclaration;
@@ -1103,11 +1103,7 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		// {
 		Runtime::Object condition;
 
-		pushScope(&iterator);
-
-			evaluateMethodExpression(node->mHasNextExpression, &condition);
-
-		popScope();
+		tryControl(evaluateInScope(&iterator, node->mHasNextExpression, &condition));
 
 		if ( !isTrue(condition) ) {	// do we have more items to iterate over?
 			break;
@@ -1124,11 +1120,14 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 			// }
 
 			// iterate over next item
-			pushScope(&iterator);
-
-				evaluateMethodExpression(node->mNextExpression, loopVariable);
-
-			popScope();
+			try {
+				evaluateInScope(&iterator, node->mNextExpression, loopVariable);
+			}
+			catch ( Runtime::ControlFlow::E &e ) {
+				mControlFlow = e;
+				popScope();
+				return;
+			}
 
 			// set mutability after initializing
 			loopVariable->setMutability(typeDeclaration->mIsConst ? Mutability::Const : Mutability::Modify);
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index a27ec9f..d53bed4 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -96,6 +96,7 @@ private:
 	void evaluateBinaryExpression(BinaryExpression* exp, Runtime::Object* result);
 	void evaluateBooleanBinaryExpression(BooleanBinaryExpression* exp, Runtime::Object* result);
 	void evaluateCopyExpression(CopyExpression* exp, Runtime::Object* result);
+	void evaluateInScope(IScope* scope, Node* exp, Runtime::Object* result);
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
 	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
-- 
2.43.0


From 86f045997778c400cfc9ad9f54addcac9f9033a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:47 +0000
Subject: [PATCH 008/140] fix: exit status of exit() and release of all scopes
 it leaves

---
 Projects/Core/Core/AST/TreeInterpreter.cpp           | 2 +-
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 3 +++
 Projects/slang/main.cpp                              | 9 +++++----
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9db085f..bdaf04a 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1023,7 +1023,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 	mThread->exception(data, node->token().position());
 
-	throw Runtime::ControlFlow::ExitProgram;
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
 }
 
 void TreeInterpreter::visitExpression(Expression* expression)
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..8d62926 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -442,6 +442,9 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 	if ( controlflow == Runtime::ControlFlow::Throw ) {
 		throw Runtime::ControlFlow::Throw;
 	}
+	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
+		throw Runtime::ControlFlow::ExitProgram;
+	}
 }
 
 void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
diff --git a/Projects/slang/main.cpp b/Projects/slang/main.cpp
index 85158bf..4bb386c 100644
--- a/Projects/slang/main.cpp
+++ b/Projects/slang/main.cpp
@@ -245,12 +245,13 @@ int main( int argc, const char* argv[] )
 		return 0;
 	}
 	catch ( Runtime::ControlFlow::E &e ) {
-		Utils::Common::printStackTrace();
-
 		if ( e == Runtime::ControlFlow::ExitProgram ) {
-			return 0;
+			return Controller::Instance().thread( 0 )->exception().getData()->getValue().toInt();
 		}
-		else if ( e == Runtime::ControlFlow::Throw ) {
+
+		Utils::Common::printStackTrace();
+
+		if ( e == Runtime::ControlFlow::Throw ) {
 			OSerror( "Exception thrown in " << Controller::Instance().thread( 0 )->exception().getPosition().toString() << std::endl
 			         << Controller::Instance().thread( 0 )->exception().getData()->ToString() );
 		}
-- 
2.43.0


From 5bd30144eb4f641a1181aea266fa93f48499df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:05 +0000
Subject: [PATCH 009/140] fix: release a caught exception object when its
 handler is done

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index bdaf04a..779572a 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1386,9 +1386,14 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		}
 
 		// as soon as this exception has been handled the outer one becomes the current one again
-		if ( mControlFlow != Runtime::ControlFlow::Throw ) {
+		if ( mControlFlow != Runtime::ControlFlow::Throw && mControlFlow != Runtime::ControlFlow::ExitProgram ) {
 			mThread->exception(previous);
 		}
+
+		// release the exception unless it is still in flight or being handled by an outer catch-block
+		if ( exception != mThread->exception().getData() && exception != previous.getData() ) {
+			delete exception;
+		}
 	}
 
 	// store current control flow and re-set it after finally block has been executed
-- 
2.43.0


From 4a9fe6601982e140a228c4f1af5757e5e2fe74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:03 +0000
Subject: [PATCH 010/140] fix: accept break and continue as body of a loop
 without curly brackets

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8003b5a..eeb10e3 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1817,6 +1817,15 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 
 Node* TreeGenerator::process_statement(TokenIterator& token, bool allowBreakAndContinue)
 {
+	if ( allowBreakAndContinue && token->type() != Token::Type::BRACKET_CURLY_OPEN ) {
+		// loop body without curly brackets: this is a scope of its own, too
+		pushScope(nullptr, true);
+			Node* statement = process_statement(token);
+		popScope();
+
+		return statement;
+	}
+
 	Node* node = nullptr;
 
 	switch ( token->type() ) {
-- 
2.43.0


From 2f383921ec9745c8e4fd23098a048a66e5cbf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:57 +0000
Subject: [PATCH 011/140] fix: assigning a null reference releases the object
 referenced before

---
 Projects/Core/Core/Object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e0fe925..3d8d51d 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -109,6 +109,11 @@ void Object::assign(const Object& other)
 			assignReference(other.mReference);
 		}
 		else {
+			if ( !mIsAtomicType && !other.mReference.isValid() ) {
+				// null has been assigned, so let go of the object we have been referencing until now
+				assignReference(other.mReference);
+			}
+
 			setValue(other.getValue());
 		}
 	}
-- 
2.43.0


From 916fbc9db25375d61d89a07496242df75f726b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:42 +0000
Subject: [PATCH 012/140] fix: release an exception that is replaced by the
 finally block

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 779572a..b3ff9a1 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1398,6 +1398,7 @@ void TreeInterpreter::visitTry(TryStatement* node)
 
 	// store current control flow and re-set it after finally block has been executed
 	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;
+	const Runtime::ExceptionData pending = mThread->exception();
 
 	// execute finally-block if present
 	if ( node->mFinallyBlock ) {
@@ -1411,6 +1412,16 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
 	}
+	else if ( tmpControlFlow == Runtime::ControlFlow::Throw ) {
+		// the finally-block replaced the exception in flight by a control flow of its own
+		if ( mControlFlow != Runtime::ControlFlow::Throw && mControlFlow != Runtime::ControlFlow::ExitProgram ) {
+			mThread->exception(previous);
+		}
+
+		if ( pending.getData() != mThread->exception().getData() && pending.getData() != previous.getData() ) {
+			delete pending.getData();
+		}
+	}
 }
 
 Runtime::Object* TreeInterpreter::visitTypeDeclaration(TypeDeclaration* node)
-- 
2.43.0


From ec6a8187a96acb4b45df74ede03f945d207e5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:30 +0000
Subject: [PATCH 013/140] fix: report integer division and modulo by zero
 instead of crashing

---
 .../Core/Runtime/BuildInTypes/Int16Type.cpp     | 17 +++++++++++++++--
 .../Core/Runtime/BuildInTypes/Int32Type.cpp     | 17 +++++++++++++++--
 .../Core/Runtime/BuildInTypes/Int64Type.cpp     | 17 +++++++++++++++--
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..514d554 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -3,6 +3,7 @@
 #include "Int16Type.h"
 
 // Library includes
+#include <cstdint>
 
 // Project includes
 #include <Core/Consts.h>
@@ -150,7 +151,13 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		// dividing by -1 must not overflow
+		mValue = divisor == -1 ? static_cast<int16_t>( 0 - static_cast<uint64_t>( mValue.toInt() ) ) : static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +272,13 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		// dividing by -1 must not overflow
+		mValue = static_cast<int16_t>( divisor == -1 ? 0 : static_cast<int16_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..7d048f8 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -3,6 +3,7 @@
 #include "Int32Type.h"
 
 // Library includes
+#include <cstdint>
 
 // Project includes
 #include <Core/Consts.h>
@@ -150,7 +151,13 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		// dividing by -1 must not overflow
+		mValue = divisor == -1 ? static_cast<int32_t>( 0 - static_cast<uint64_t>( mValue.toInt() ) ) : static_cast<int32_t>( static_cast<int32_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +272,13 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		// dividing by -1 must not overflow
+		mValue = static_cast<int32_t>( divisor == -1 ? 0 : static_cast<int32_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..b38b73e 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -3,6 +3,7 @@
 #include "Int64Type.h"
 
 // Library includes
+#include <cstdint>
 
 // Project includes
 #include <Core/Consts.h>
@@ -150,7 +151,13 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		// dividing by -1 must not overflow
+		mValue = divisor == -1 ? static_cast<int64_t>( 0 - static_cast<uint64_t>( mValue.toInt() ) ) : static_cast<int64_t>( static_cast<int64_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +272,13 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		// dividing by -1 must not overflow
+		mValue = static_cast<int64_t>( divisor == -1 ? 0 : static_cast<int64_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
-- 
2.43.0


From f6e1a2b8cc7caba5c17bee26754aba38a99c262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:30 +0000
Subject: [PATCH 014/140] fix: results of int16 operators stay within int16

---
 .../Core/Core/Runtime/BuildInTypes/Int16Type.cpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 514d554..abf337a 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -298,7 +298,7 @@ void Int16Type::operator_multiply( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( mValue.toInt() * other->getValue().toInt() );
 		return;
 	}
 
@@ -318,7 +318,7 @@ void Int16Type::operator_plus( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( mValue.toInt() + other->getValue().toInt() );
 		return;
 	}
 
@@ -338,7 +338,7 @@ void Int16Type::operator_subtract( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( mValue.toInt() - other->getValue().toInt() );
 		return;
 	}
 
@@ -347,17 +347,17 @@ void Int16Type::operator_subtract( const Object* other )
 
 void Int16Type::operator_unary_decrement()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) - 1;
+	mValue = static_cast<int16_t>( mValue.toInt() - 1 );
 }
 
 void Int16Type::operator_unary_increment()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) + 1;
+	mValue = static_cast<int16_t>( mValue.toInt() + 1 );
 }
 
 void Int16Type::operator_unary_minus()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) * -1;
+	mValue = static_cast<int16_t>( mValue.toInt() * -1 );
 }
 
 void Int16Type::operator_unary_not()
-- 
2.43.0


From e9bf2aa84ab94aba6112dc854af88674e87607b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:22 +0000
Subject: [PATCH 015/140] fix: bit operators for int16 and int64

---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..2df6db1 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -124,12 +124,24 @@ void operator_binary_bitand( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitand( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitand( rvalue );
@@ -224,12 +236,24 @@ void operator_binary_bitor( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitor( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitor( rvalue );
-- 
2.43.0


From de56a1ac54d440d8edfa28b699f6b0fe5c9e61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:09 +0000
Subject: [PATCH 016/140] fix: unary plus for numbers

---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 35 ++++---------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 2df6db1..7749577 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -1143,35 +1143,12 @@ void operator_unary_plus( Object* lvalue )
 
 		lvalue->assign( tmp );
 	}
-	else if ( target == DoubleType::TYPENAME ) {
-		DoubleType tmp( lvalue->getValue().toDouble() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == FloatType::TYPENAME ) {
-		FloatType tmp( lvalue->getValue().toFloat() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == Int16Type::TYPENAME ) {
-		Int16Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == Int32Type::TYPENAME ) {
-		Int32Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == Int64Type::TYPENAME ) {
-		Int64Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+	else if ( target == DoubleType::TYPENAME ||
+			  target == FloatType::TYPENAME ||
+			  target == Int16Type::TYPENAME ||
+			  target == Int32Type::TYPENAME ||
+			  target == Int64Type::TYPENAME ) {
+		// unary plus doesn't change the value of a number
 	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
-- 
2.43.0


From 868e419c7cbd1ea02fa09c09b9f14f4758878702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:20 +0000
Subject: [PATCH 017/140] fix: subtraction of a negated operand is not a
 decrement

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 32858d3..57b407a 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -305,6 +305,9 @@ void Tokenizer::mergeOperators()
 	while ( token != mTokens.end() ) {
 		bool changed{ false };
 		Token::Type::E activeType{ token->type() };
+		// '- -' is a subtraction of a negative value, only '--' is a decrement
+		const bool isAdjacent{ !tmp.empty() && tmp.back().position().mLine == token->position().mLine
+							   && tmp.back().position().mColumn + 1 == token->position().mColumn };
 
 		if ( (lastType == Token::Type::BITAND) && (activeType == Token::Type::BITAND) ) {
 			// && and
@@ -346,7 +349,7 @@ void Tokenizer::mergeOperators()
 			// ... and add OR instead
 			tmp.emplace_back( Token::Category::Operator, Token::Type::OPERATOR_RANGE, OPERATOR_RANGE, token->position() );
 		}
-		else if ( (lastType == Token::Type::MATH_SUBTRACT) && (activeType == Token::Type::MATH_SUBTRACT) ) {
+		else if ( (lastType == Token::Type::MATH_SUBTRACT) && (activeType == Token::Type::MATH_SUBTRACT) && isAdjacent ) {
 			// --
 			changed = true;
 			// remove last added token ...
@@ -354,7 +357,7 @@ void Tokenizer::mergeOperators()
 			// ... and add OR instead
 			tmp.emplace_back( Token::Category::Operator, Token::Type::OPERATOR_DECREMENT, "--", token->position() );
 		}
-		else if ( (lastType == Token::Type::MATH_ADDITION) && (activeType == Token::Type::MATH_ADDITION) ) {
+		else if ( (lastType == Token::Type::MATH_ADDITION) && (activeType == Token::Type::MATH_ADDITION) && isAdjacent ) {
 			// ++
 			changed = true;
 			// remove last added token ...
-- 
2.43.0


From abd51bb723134f036d7da0334fd5a61d1a2a41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:39 +0000
Subject: [PATCH 018/140] fix: catch exceptions of prototype types

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b3ff9a1..ab2c912 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1352,7 +1352,7 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		// determine correct catch-block (if a correct one exists)
 		for ( auto& stmt : node->mCatchStatements ) {
 			// check if we have a catch-block with a given type that matches the thrown exception type
-			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
+			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(Designtime::Parser::buildRuntimeConstraintTypename(stmt->mTypeDeclaration->mType, stmt->mTypeDeclaration->mConstraints))) ) {
 				// exception type does not match
 				continue;
 			}
-- 
2.43.0


From 038810902b764d329c1d49252f4adc588cb83431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:24 +0000
Subject: [PATCH 019/140] fix: release the base object together with its
 derived object

---
 Projects/Core/Core/Object.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 3d8d51d..ab80c34 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -54,6 +54,15 @@ Object::~Object()
 	if ( this != mThis ) {
 		Controller::Instance().memory()->remove(mReference);
 	}
+
+	// our base object (and everything it references) ends together with us
+	auto base = mSymbols.find(IDENTIFIER_BASE);
+	if ( base != mSymbols.end() ) {
+		Symbol* object = base->second;
+		mSymbols.erase(base);
+
+		delete object;
+	}
 }
 
 Object& Object::operator= (const Object& other)
-- 
2.43.0


From cca0a96c72dab88793fbac619069e676a14aa9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:03 +0000
Subject: [PATCH 020/140] fix: erase rejects the index one past the last
 element

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 2 +-
 Projects/Library/System/Collections/List.os             | 2 +-
 Projects/Library/System/Collections/Set.os              | 2 +-
 Projects/Library/System/Collections/Stack.os            | 2 +-
 Projects/Library/System/Collections/Vector.os           | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 8b94aa0..906203d 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -62,7 +62,7 @@ public object DoubleLinkedList<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index d093366..903b727 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -59,7 +59,7 @@ public object List<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index d052a14..8b543d7 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -60,7 +60,7 @@ public object Set<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index cd84331..b8f648c 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -59,7 +59,7 @@ public object Stack<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 88a10f4..a737b2c 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -59,7 +59,7 @@ public object Vector<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") beyond end of list" );
 		}
 
-- 
2.43.0


From 44b02956f4a5e2743804409506c26d7e6f89fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:03 +0000
Subject: [PATCH 021/140] fix: popping removes the last element from the
 collection

---
 .../Library/System/Collections/DoubleLinkedList.os    | 11 ++++++++---
 Projects/Library/System/Collections/List.os           | 10 +++++-----
 Projects/Library/System/Collections/Stack.os          |  7 ++++---
 Projects/Library/System/Collections/Vector.os         | 10 +++++-----
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 906203d..c3cf6d7 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -157,15 +157,17 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 
 		if ( mSize == 1 ) {
-			delete mFirst;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
-			delete item.next;
+			mLast = item;
+			item.next = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -177,6 +179,9 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
+		if ( !mFirst ) {
+			mLast = CollectionItem<T> null;
+		}
 
 		mSize--;
 	}
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index 903b727..94cd3b6 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -154,17 +154,17 @@ public object List<T> implements ICollection {
 		}
 
 		if ( mSize == 1 ) {			// special handling for 1st item
-			delete mFirst;
-			delete mLast;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {					// generic handling
 			CollectionItem<T> item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
 			mLast = item;
-			delete item.next;
+			item.next = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -177,7 +177,7 @@ public object List<T> implements ICollection {
 
 		mFirst = mFirst.next;
 		if ( !mFirst ) {
-			delete mLast;
+			mLast = CollectionItem<T> null;
 		}
 
 		mSize--;
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index b8f648c..af89153 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -148,15 +148,16 @@ public object Stack<T> implements ICollection {
 		var last = mLast.value;
 
 		if ( mSize == 1 ) {
-			delete mFirst;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
-			delete item.next;
+			item.next = CollectionItem<T> null;
 
 			mLast = item;
 		}
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index a737b2c..533b2cc 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -186,17 +186,17 @@ public object Vector<T> implements ICollection {
 		}
 
 		if ( mSize == 1 ) {                     // special handling for 1st item
-			delete mFirst;
-			delete mLast;
+			mFirst = CollectionItem<T> null;
+			mLast = CollectionItem<T> null;
 		}
 		else {                                  // generic handling
 			var item = mFirst;
-			for ( int idx = 0; idx < mSize - 1; idx++ ) {
+			for ( int idx = 0; idx < mSize - 2; idx++ ) {
 				item = item.next;
 			}
 
 			mLast = item;
-			delete item.next;
+			item.next = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -209,7 +209,7 @@ public object Vector<T> implements ICollection {
 
 		mFirst = mFirst.next;
 		if ( !mFirst ) {
-			delete mLast;
+			mLast = CollectionItem<T> null;
 		}
 
 		mSize--;
-- 
2.43.0


From 695bcaa22f3cd030b4430634a55766de1b0a39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 022/140] fix: DoubleLinkedList knows its last element after
 push_front

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index c3cf6d7..c7182d9 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -209,6 +209,10 @@ public object DoubleLinkedList<T> implements ICollection {
 		//mFirst.previous = item;	// this leaves a mem leak... ;-(
 		mFirst = item;
 
+		if ( mSize == 0 ) {
+			mLast = item;
+		}
+
 		mSize++;
 	}
 
-- 
2.43.0


From ddc99d26742e191e1cc300df9bb6481d979b0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 023/140] fix: copies of collections are independent of the
 original

---
 .../System/Collections/DoubleLinkedList.os    | 17 ++++++++++++++--
 Projects/Library/System/Collections/List.os   | 18 +++++++++++++++--
 Projects/Library/System/Collections/Map.os    |  4 +++-
 Projects/Library/System/Collections/Queue.os  |  2 +-
 Projects/Library/System/Collections/Set.os    | 20 +++++++++++++++----
 Projects/Library/System/Collections/Stack.os  | 17 ++++++++++++++--
 Projects/Library/System/Collections/Vector.os | 17 ++++++++++++++--
 7 files changed, 81 insertions(+), 14 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index c7182d9..82b40ee 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -22,8 +22,21 @@ public object DoubleLinkedList<T> implements ICollection {
 	public DoubleLinkedList<T> Copy() const {
 		var result = new DoubleLinkedList<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index 94cd3b6..3133194 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -19,8 +19,22 @@ public object List<T> implements ICollection {
 	public List<T> Copy() const {
 		var result = new List<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			node.previous = result.mLast;
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 881e2e2..8a2789e 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -20,7 +20,9 @@ public object Map<K, V> implements ICollection {
 	public Map<K, V> Copy() const {
 		var result = new Map<K, V>();
 
-		result.mItems = mItems;
+		foreach ( Object p : mItems ) {
+			result.mItems.push_back( cast<Object>( new Pair<K, V>( ( Pair<K, V> p ).first, ( Pair<K, V> p ).second ) ) );
+		}
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Queue.os b/Projects/Library/System/Collections/Queue.os
index 13c4dcd..4ca86ba 100644
--- a/Projects/Library/System/Collections/Queue.os
+++ b/Projects/Library/System/Collections/Queue.os
@@ -19,7 +19,7 @@ public object Queue<T> implements ICollection {
 	public Queue<T> Copy() const {
 		var result = new Queue<T>();
 
-		result.mItems = mItems;
+		result.mItems = mItems.Copy();
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 8b543d7..5769db9 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -17,11 +17,23 @@ public object Set<T> implements ICollection {
 	}
 
 	public Set<T> Copy() const {
-		var result = new Set<T>();
+		var result = new Set<T>( mAllowDuplicates );
+
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
 
-		result.mAllowDuplicates = mAllowDuplicates;
-		result.mFirst = mFirst;
-		result.mLast = mLast;
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index af89153..6f217d0 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -19,8 +19,21 @@ public object Stack<T> implements ICollection {
 	public Stack<T> Copy() const {
 		var result = new Stack<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 533b2cc..dcf76e4 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -19,8 +19,21 @@ public object Vector<T> implements ICollection {
 	public Vector<T> Copy() const {
 		var result = new Vector<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {
+				result.mFirst = node;
+			}
+			else {
+				result.mLast.next = node;
+			}
+
+			result.mLast = node;
+			item = item.next;
+		}
+
 		result.mSize = mSize;
 
 		return result;
-- 
2.43.0


From cba42912c7798f1cc6da1c560847bdf9844585aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 024/140] fix: Set refuses duplicates unless they are allowed

---
 Projects/Library/System/Collections/Set.os | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 5769db9..84c6394 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -178,12 +178,8 @@ public object Set<T> implements ICollection {
 				tmp = tmp.next;
 			}
 
-			if ( !mAllowDuplicates ) {
-				if ( previous.next ) {
-					if ( item == previous.next ) {
-						throw new Exception( "duplicate item" );
-					}
-				}
+			if ( !mAllowDuplicates && previous.value == value ) {
+				throw new Exception( "duplicate item" );
 			}
 
 			item.next = previous.next;
-- 
2.43.0


From 01a9553554e6b2f0870268873e1c08d4c4dd583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 025/140] fix: Set knows its last element

---
 Projects/Library/System/Collections/Set.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 84c6394..1ec3774 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -184,6 +184,10 @@ public object Set<T> implements ICollection {
 
 			item.next = previous.next;
 			previous.next = item;
+
+			if ( !item.next ) {
+				mLast = item;
+			}
 		}
 
 		mSize++;
-- 
2.43.0


From 363bc1611174e18aab9f55ce3a5d8f0933b6a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 026/140] fix: Map.indexOf returns the position of the key

---
 Projects/Library/System/Collections/Map.os | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 8a2789e..9c8a094 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -86,6 +86,8 @@ public object Map<K, V> implements ICollection {
 			if ( ( Pair<K, V> p ) == key ) {
 				return count;
 			}
+
+			count++;
 		}
 
 		return -1;
-- 
2.43.0


From 04f8f84ff82ff6564166c8989e43179355d102e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 027/140] fix: descending and empty ranges

---
 Projects/Library/System/Collections/Range.os | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/Collections/Range.os b/Projects/Library/System/Collections/Range.os
index 9a8d55f..017a37c 100644
--- a/Projects/Library/System/Collections/Range.os
+++ b/Projects/Library/System/Collections/Range.os
@@ -36,7 +36,7 @@ public object Range implements ICollection, IIterable {
 	}
 
 	public int at( int index ) const throws {
-		if ( index < 0 || index * mStep > mEnd - mStart ) {
+		if ( index < 0 || index >= size() ) {
 			throw new OutOfBoundsException( "index (" + index + ") is out of bounds" );
 		}
 
@@ -79,6 +79,10 @@ public object Range implements ICollection, IIterable {
 	}
 
 	public int size() const {
+		if ( ( mStep > 0 && mEnd < mStart ) || ( mStep < 0 && mEnd > mStart ) ) {
+			return 0;
+		}
+
 		return ( mEnd - mStart ) / mStep + 1;
 	}
 
-- 
2.43.0


From a4d8561c8fcb61305271d9219446e28f7d508cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:26 +0000
Subject: [PATCH 028/140] fix: reverse iteration and peeking in linked
 iterators

---
 .../Collections/DoubleLinkedIterator.os       | 51 ++++++++++++++-----
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedIterator.os b/Projects/Library/System/Collections/DoubleLinkedIterator.os
index ab54597..b13a752 100644
--- a/Projects/Library/System/Collections/DoubleLinkedIterator.os
+++ b/Projects/Library/System/Collections/DoubleLinkedIterator.os
@@ -36,7 +36,7 @@ public object Iterator<T> {
 			return false;
 		}
 		if ( !mCurrentItem ) {
-			return bool mFirstItem;
+			return false;
 		}
 
 		return bool mCurrentItem.previous;
@@ -64,17 +64,26 @@ public object Iterator<T> {
 
 		var tmpItem = mCurrentItem;
 
-		if ( offset > 0 ) {
-			while ( offset-- >= 0 ) {
+		if ( !tmpItem && offset > 0 ) {
+			tmpItem = mFirstItem;
+			offset--;
+		}
+
+		while ( tmpItem && offset != 0 ) {
+			if ( offset > 0 ) {
 				tmpItem = tmpItem.next;
+				offset--;
 			}
-		}
-		else if ( offset < 0 ) {
-			while ( offset++ <= 0 ) {
+			else {
 				tmpItem = tmpItem.previous;
+				offset++;
 			}
 		}
 
+		if ( !tmpItem ) {
+			throw new OutOfBoundsException( "peek(): index out of bounds" );
+		}
+
 		return T tmpItem.value;
 	}
 
@@ -148,7 +157,7 @@ public object ReverseIterator<T> {
 			return false;
 		}
 		if ( !mCurrentItem ) {
-			return bool mLastItem;
+			return false;
 		}
 
 		return bool mCurrentItem.next;
@@ -159,29 +168,43 @@ public object ReverseIterator<T> {
 			throw new OutOfBoundsException( "next(): index out of bounds" );
 		}
 
-		mCurrentItem = mCurrentItem.previous;
+		if ( !mCurrentItem ) {
+			mCurrentItem = mLastItem;
+		}
+		else {
+			mCurrentItem = mCurrentItem.previous;
+		}
 
 		return T mCurrentItem.value;
 	}
 
 	public T peek( int offset = 1 ) const throws {
-		if ( !mCurrentItem ) {
+		if ( !mCurrentItem && !mLastItem ) {
 			throw new Exception( "current(): iterator not initialized" );
 		}
 
 		var tmpItem = mCurrentItem;
 
-		if ( offset > 0 ) {
-			while ( offset-- > 0 ) {
+		if ( !tmpItem && offset > 0 ) {
+			tmpItem = mLastItem;
+			offset--;
+		}
+
+		while ( tmpItem && offset != 0 ) {
+			if ( offset > 0 ) {
 				tmpItem = tmpItem.previous;
+				offset--;
 			}
-		}
-		else if ( offset < 0 ) {
-			while ( offset++ < 0 ) {
+			else {
 				tmpItem = tmpItem.next;
+				offset++;
 			}
 		}
 
+		if ( !tmpItem ) {
+			throw new OutOfBoundsException( "peek(): index out of bounds" );
+		}
+
 		return T tmpItem.value;
 	}
 
-- 
2.43.0


From 7c121ecda56a366386299247a2a7d7098b7c7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:27 +0000
Subject: [PATCH 029/140] fix: keep back links of List consistent and release
 them in clear()

---
 Projects/Library/System/Collections/List.os | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index 3133194..6808568 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -57,6 +57,10 @@ public object List<T> implements ICollection {
 		for ( int i = 0; i < mSize; i++ ) {
 			delete mFirst.value;
 			mFirst = mFirst.next;
+
+			if ( mFirst ) {
+				mFirst.previous = CollectionItem<T> null;
+			}
 		}
 
 		mFirst = CollectionItem<T> null;
@@ -79,6 +83,10 @@ public object List<T> implements ICollection {
 
 		if ( index == 0 ) {						// special handling for 1st element
 			mFirst = mFirst.next;
+
+			if ( mFirst ) {
+				mFirst.previous = CollectionItem<T> null;
+			}
 		}
 		else if ( index == mSize - 1 ) {		// special handling for last element
 			var prev = mFirst;
@@ -101,6 +109,7 @@ public object List<T> implements ICollection {
 			}
 			else if ( prev.next ) {
 				prev.next = prev.next.next;
+				prev.next.previous = prev;
 			}
 		}
 
@@ -190,7 +199,10 @@ public object List<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
-		if ( !mFirst ) {
+		if ( mFirst ) {
+			mFirst.previous = CollectionItem<T> null;
+		}
+		else {
 			mLast = CollectionItem<T> null;
 		}
 
-- 
2.43.0


From c3d83bf2fd35875426b48670646adba8133db88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:59 +0000
Subject: [PATCH 030/140] fix: getReverseIterator delivers all elements of
 singly linked collections and ranges

---
 .../Library/System/Collections/DoubleLinkedList.os  | 13 ++++++++++++-
 .../System/Collections/RandomAccessIterator.os      |  2 +-
 Projects/Library/System/Collections/Set.os          | 13 ++++++++++++-
 Projects/Library/System/Collections/Stack.os        | 13 ++++++++++++-
 Projects/Library/System/Collections/Vector.os       | 13 ++++++++++++-
 5 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 82b40ee..c966203 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -128,7 +128,18 @@ public object DoubleLinkedList<T> implements ICollection {
 	}
 
 	public ReverseIterator<T> getReverseIterator() const {
-		return new ReverseIterator<T>( mLast );
+		CollectionItem<T> tail;
+
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+			node.previous = tail;
+
+			tail = node;
+			item = item.next;
+		}
+
+		return new ReverseIterator<T>( tail );
 	}
 //*/
 
diff --git a/Projects/Library/System/Collections/RandomAccessIterator.os b/Projects/Library/System/Collections/RandomAccessIterator.os
index cdc648d..2d8eff2 100644
--- a/Projects/Library/System/Collections/RandomAccessIterator.os
+++ b/Projects/Library/System/Collections/RandomAccessIterator.os
@@ -102,7 +102,7 @@ public object ReverseRandomAccessIterator<T> {
 	}
 
 	public T peek( int offset = 1 ) const throws {
-		return T mCollection.at( mCurrentIndex + offset );
+		return T mCollection.at( mCurrentIndex - offset );
 	}
 
 	public void reset() modify {
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 1ec3774..49c26e2 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -126,7 +126,18 @@ public object Set<T> implements ICollection {
 	}
 
 	public ReverseIterator<T> getReverseIterator() const {
-		return new ReverseIterator<T>( mLast );
+		CollectionItem<T> tail;
+
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+			node.previous = tail;
+
+			tail = node;
+			item = item.next;
+		}
+
+		return new ReverseIterator<T>( tail );
 	}
 //*/
 
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index 6f217d0..25ab609 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -117,7 +117,18 @@ public object Stack<T> implements ICollection {
 	}
 
 	public ReverseIterator<T> getReverseIterator() const {
-		return new ReverseIterator<T>( mLast );
+		CollectionItem<T> tail;
+
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+			node.previous = tail;
+
+			tail = node;
+			item = item.next;
+		}
+
+		return new ReverseIterator<T>( tail );
 	}
 //*/
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index dcf76e4..d06a74b 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -125,7 +125,18 @@ public object Vector<T> implements ICollection {
 	}
 
 	public ReverseIterator<T> getReverseIterator() const {
-		return new ReverseIterator<T>( mLast );
+		CollectionItem<T> tail;
+
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var node = new CollectionItem<T>( item.value );
+			node.previous = tail;
+
+			tail = node;
+			item = item.next;
+		}
+
+		return new ReverseIterator<T>( tail );
 	}
 //*/
 
-- 
2.43.0


From 8644c72acb1d98d9553116d4b913429a33730b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:36 +0000
Subject: [PATCH 031/140] fix: CharacterIterator ends after the last character
 and reset() keeps its value

---
 Projects/Library/System/CharacterIterator.os | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/CharacterIterator.os b/Projects/Library/System/CharacterIterator.os
index 32058e2..141a43f 100644
--- a/Projects/Library/System/CharacterIterator.os
+++ b/Projects/Library/System/CharacterIterator.os
@@ -36,7 +36,7 @@ public object CharacterIterator implements Iterator<string> {
 		if ( mCurrentIndex < 0 ) {
 			throw new NotInitializedException( "iterator not initialized" );
 		}
-		if ( mCurrentIndex > mLength ) {
+		if ( mCurrentIndex >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + ") out of bounds" );
 		}
 
@@ -47,7 +47,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * returns true if the iteration did not reach the end of the held string value
 	 */
 	public bool hasNext() const {
-		return mCurrentIndex < mLength;
+		return mCurrentIndex + 1 < mLength;
 	}
 
 	/*
@@ -55,7 +55,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * throws OutOfBoundsException
 	 */
 	public string next() modify throws {
-		if ( mCurrentIndex + 1 > mLength ) {
+		if ( mCurrentIndex + 1 >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + 1 + ") out of bounds" );
 		}
 
@@ -69,7 +69,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * throws OutOfBoundsException
 	 */
 	public string peek( int offset = 1 ) const throws {
-		if ( mCurrentIndex + offset < 0 || mCurrentIndex + offset > mLength ) {
+		if ( mCurrentIndex + offset < 0 || mCurrentIndex + offset >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + offset + ") out of bounds" );
 		}
 
@@ -79,7 +79,14 @@ public object CharacterIterator implements Iterator<string> {
 	/*
 	 * resets the current iteration
 	 */
-	public void reset( string value = "" ) modify {
+	public void reset() modify {
+		mCurrentIndex = -1;
+	}
+
+	/*
+	 * starts a new iteration over the given string value
+	 */
+	public void reset( string value ) modify {
 		mCurrentIndex = -1;
 		mLength = strlen( value );
 		mValue = value;
-- 
2.43.0


From 28e835481fefd0fd7d1d9fc6d7d9dc34955648a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:53 +0000
Subject: [PATCH 032/140] fix: default parameter values were replaced by the
 preceding object argument

---
 Projects/Core/Core/Common/Method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..68aa963 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -295,12 +295,12 @@ ParameterList Method::mergeParameters(const ParameterList& params) const
 
 	auto paramIt = params.begin();
 
-	Runtime::Reference ref;
-
 	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
 		// initialize parameter with default value
 		auto value = sigIt->value();
 
+		Runtime::Reference ref;
+
 		if ( paramIt != params.end() ) {
 			// override parameter with correct value
 			ref = paramIt->reference();
-- 
2.43.0


From 805b3099be87f7a43905c26f97c3f0da734dd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:45 +0000
Subject: [PATCH 033/140] fix: inherited constructors, destructors and
 operators run on the object part that defines them

---
 Projects/Core/Core/Object.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index ab80c34..935f20d 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -191,7 +191,7 @@ ControlFlow::E Object::Constructor(const ParameterList& params)
 	if ( constructor ) {
 		VoidType tmp;
 
-		controlflow = Controller::Instance().thread(0)->execute(mThis, constructor, params, &tmp);
+		controlflow = Controller::Instance().thread(0)->execute(dynamic_cast<Object*>(constructor->getEnclosingScope()), constructor, params, &tmp);
 
 		if ( controlflow != ControlFlow::Normal ) {
 			return controlflow;
@@ -236,7 +236,7 @@ ControlFlow::E Object::Destructor()
 		if ( destructor ) {
 			VoidType tmp;
 
-			controlflow = Controller::Instance().thread(0)->execute(mThis, destructor, params, &tmp);
+			controlflow = Controller::Instance().thread(0)->execute(dynamic_cast<Object*>(destructor->getEnclosingScope()), destructor, params, &tmp);
 
 			if ( controlflow != ControlFlow::Normal ) {
 				return controlflow;
@@ -254,7 +254,7 @@ ControlFlow::E Object::execute(Object *result, const std::string& name, const Pa
 		throw Common::Exceptions::UnknownIdentifier("unknown method '" + QualifiedTypename() + "." + name + "' or method with invalid parameter count called!");
 	}
 
-	return Controller::Instance().thread(0)->execute(mThis, method, params, result);
+	return Controller::Instance().thread(0)->execute(dynamic_cast<Object*>(method->getEnclosingScope()), method, params, result);
 }
 
 void Object::free()
-- 
2.43.0


From 76834f3aa060f79eaa899319633c997ceadecc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:06 +0000
Subject: [PATCH 034/140] fix: implementing an abstract method two or more
 levels below its declaration

---
 Projects/Core/Core/Object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 935f20d..76551ce 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -215,8 +215,8 @@ void Object::defineMethod(const std::string& name, Common::Method* method)
 	// try to override abstract methods a.k.a. implement an interface method
 	auto* old = dynamic_cast<Common::Method*>(resolveMethod(method->getName(), method->provideSignature(), true, Visibility::Designtime));
 	if ( old && old->isAbstractMethod() ) {
-		auto* base = dynamic_cast<Object*>(resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
-		base->undefineMethod(old);
+		auto* owner = dynamic_cast<Object*>(old->getEnclosingScope());
+		owner->undefineMethod(old);
 
 		delete old;
 	}
-- 
2.43.0


From 2b5d2b46ef2ae257d07c6113988ae7f153768bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:00 +0000
Subject: [PATCH 035/140] fix: circular inheritance over three or more classes
 overflowed the stack

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 7 ++++++-
 Projects/Core/Core/Designtime/BluePrintObject.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 09dde6e..6aad3bf 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -56,6 +56,7 @@ BluePrintObject::BluePrintObject()
   mIsAtomicType(false),
   mFilename(ANONYMOUS_OBJECT),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(ANONYMOUS_OBJECT),
   mUnqualifiedTypename(ANONYMOUS_OBJECT)
@@ -70,6 +71,7 @@ BluePrintObject::BluePrintObject(const std::string& unqualifiedTypename, std::st
   mIsAtomicType(false),
   mFilename(std::move(filename)),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(unqualifiedTypename),
   mUnqualifiedTypename(unqualifiedTypename)
@@ -341,6 +343,8 @@ void BluePrintObject::prepareParents(Repository* repository)
 	// }
 */
 
+	mIsPreparing = true;
+
 	for ( const auto& it : mInheritance ) {
 		BluePrintObject* parent = repository->findBluePrintObject(it.typeDeclaration());
 
@@ -349,7 +353,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 		}
 
 		// detect circular inheritance
-		if ( parent->inheritsFrom(QualifiedTypename()) ) {
+		if ( parent->mIsPreparing || parent->inheritsFrom(QualifiedTypename()) ) {
 			throw Exceptions::DesigntimeException("Circular inheritance detected for type '" + QualifiedTypename() + "'!");
 		}
 
@@ -376,6 +380,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 	}
 
 	mIsPrepared = true;
+	mIsPreparing = false;
 }
 
 MethodScope::MethodCollection BluePrintObject::provideMethods() const
diff --git a/Projects/Core/Core/Designtime/BluePrintObject.h b/Projects/Core/Core/Designtime/BluePrintObject.h
index cb73caa..2945e76 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.h
+++ b/Projects/Core/Core/Designtime/BluePrintObject.h
@@ -112,6 +112,7 @@ private:
 	std::string mFilename;
 	Ancestors mInheritance;
 	bool mIsPrepared;
+	bool mIsPreparing;
 	bool mIsReference;
 	PrototypeConstraints mPrototypeConstraints;
 	std::string mQualifiedTypename;
-- 
2.43.0


From 8ec7460cffea10648dbf57c38aa1e1a94af79402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:38 +0000
Subject: [PATCH 036/140] fix: parameters and locals hide members of the same
 name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 28 +++++++++++++++++++++++-
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index eeb10e3..86e55b3 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -563,6 +563,31 @@ Node* TreeGenerator::parseTerm(TokenIterator& start)
 	return term;
 }
 
+/*
+ * returns true if the token names a parameter or local variable of the current method
+ */
+bool TreeGenerator::isLocalVariable(TokenIterator token) const
+{
+	const std::string name = token->content();
+
+	if ( (++token)->type() == Token::Type::PARENTHESIS_OPEN ) {
+		// only methods can be called
+		return false;
+	}
+
+	for ( IScope* scope = getScope(); scope; scope = scope->getEnclosingScope() ) {
+		Symbol* symbol = scope->resolve(name, true, Visibility::Designtime);
+		if ( symbol && symbol->getSymbolType() == Symbol::IType::ObjectSymbol ) {
+			return true;
+		}
+		if ( scope == mMethod ) {
+			break;
+		}
+	}
+
+	return false;
+}
+
 void TreeGenerator::popScope()
 {
 	mStackFrame->popScope();
@@ -2473,7 +2498,8 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
 
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis ) {
+    // parameters and local variables hide members with the same name
+    if ( mThis && !isLocalVariable(token) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index f5c0fa4..df09a84 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -148,6 +148,7 @@ private: // Execution
 	static MethodScope* getMethodScope(IScope* scope) ;
 
 	inline IScope* getScope() const;
+	bool isLocalVariable(TokenIterator token) const;
 	inline void popScope();
 	inline void pushScope(IScope* scope = nullptr, bool allowBreakAndContinue = false);
 	// }
-- 
2.43.0


From 334ab200220d2ec694b7a8382c5a81bef4c35289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:12 +0000
Subject: [PATCH 037/140] fix: a class may have the name of a class in an
 enclosing namespace

---
 Projects/Core/Core/Designtime/Analyser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 4b448d0..6caa711 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -133,7 +133,13 @@ bool Analyser::createBluePrint(TokenIterator& token)
 		throw Exceptions::SyntaxError("object expected", token->position());
 	}
 	// look for the type declaration
-	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
+	Common::TypeDeclaration type = Parser::parseTypeDeclaration(token, mScope);
+	type.mCombinedName = type.mName;
+	// resolve prototype constraints only because our own name is allowed to hide an already known one
+	for ( auto& constraint : type.mConstraints ) {
+		constraint.mConstraint = resolveType(constraint.mConstraint, token);
+		constraint.mRunType = resolveType(constraint.mRunType, token);
+	}
 	// collect inheritance (if present)
 	Ancestors inheritance = collectInheritance(token);
 
-- 
2.43.0


From 663dda1d4f222bd0d6136a164b74403e81c3bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:42 +0000
Subject: [PATCH 038/140] fix: look up members only in the object they are
 accessed on

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 11 +++++++----
 Projects/Core/Core/AST/TreeInterpreter.h   |  2 +-
 Projects/Core/Core/Object.cpp              |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index ab2c912..0369bd8 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -440,14 +440,14 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 	Runtime::operator_binary_assign( result, &type );
 }
 
-void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::Object *result, IScope *scope)
+void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::Object *result, IScope *scope, bool onlyCurrentScope)
 {
 	if ( !scope ) {
 		throw Common::Exceptions::Exception("invalid scope provided");
 	}
 
 	// resolve current symbol name
-	Symbol* lvalue = scope->resolve(exp->mName, false, Visibility::Designtime);
+	Symbol* lvalue = scope->resolve(exp->mName, onlyCurrentScope, Visibility::Designtime);
 	if ( !lvalue ) {
 		auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
 		data->setValue( std::string("NullPointerException: ") + exp->toString() );
@@ -476,7 +476,8 @@ void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::O
 				throw Common::Exceptions::NotSupported("cannot directly access locales of method");
 		}
 
-		return evaluateSymbolExpression(exp->mSymbolExpression, result, scope);
+		// members must not be looked up in the surrounding scopes of their owner
+		return evaluateSymbolExpression(exp->mSymbolExpression, result, scope, true);
 	}
 
 	if ( lvalue->getSymbolType() != Symbol::IType::ObjectSymbol ) {
@@ -881,6 +882,8 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 
 	while ( symbol->mSymbolExpression ) {
 		Symbol* child = scope->resolve(symbol->mName, onlyCurrentScope, visibility);
+		// members must not be looked up in the surrounding scopes of their owner
+		onlyCurrentScope = true;
 
 		if ( !child ) {
 			return nullptr;
@@ -947,7 +950,7 @@ MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* sy
 		return nullptr;
 	}
 
-	return methodScope->resolveMethod(symbol->mName, params, false, visibility);
+	return methodScope->resolveMethod(symbol->mName, params, onlyCurrentScope, visibility);
 }
 
 void TreeInterpreter::visit(Node* node)
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index d53bed4..d03fdb0 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -103,7 +103,7 @@ private:
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
 	void evaluateStringEvalExpression(StringEvalExpression* exp, Runtime::Object* result, IScope* scope);
-	void evaluateSymbolExpression(SymbolExpression* exp, Runtime::Object* result, IScope* scope);
+	void evaluateSymbolExpression(SymbolExpression* exp, Runtime::Object* result, IScope* scope, bool onlyCurrentScope = false);
 	void evaluateTernaryExpression(TernaryExpression* exp, Runtime::Object* result);
 	void evaluateTypeCastExpression(TypecastExpression* exp, Runtime::Object* result);
 	void evaluateTypeidExpression(TypeidExpression* exp, Runtime::Object* result);
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 76551ce..2fceceb 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -508,7 +508,7 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	// (2) check inheritance
 	if ( !result ) {
 		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
-		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
+		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol ) {
 			result = base->resolve(name, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);
 		}
 	}
-- 
2.43.0


From 638805b64b118da94d74cf770c6f32c9c0a43680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:39 +0000
Subject: [PATCH 039/140] fix: look up operators only in the object they are
 applied to

---
 Projects/Core/Core/Object.cpp                      | 4 ++--
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 2fceceb..9289209 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -249,7 +249,7 @@ ControlFlow::E Object::Destructor()
 
 ControlFlow::E Object::execute(Object *result, const std::string& name, const ParameterList& params)
 {
-	auto *method = dynamic_cast<Common::Method*>(resolveMethod(name, params, false, Visibility::Private));
+	auto *method = dynamic_cast<Common::Method*>(resolveMethod(name, params, true, Visibility::Private));
 	if ( !method ) {
 		throw Common::Exceptions::UnknownIdentifier("unknown method '" + QualifiedTypename() + "." + name + "' or method with invalid parameter count called!");
 	}
@@ -372,7 +372,7 @@ void Object::operator_assign(const Object *other)
 	ParameterList params;
 	params.emplace_back(Parameter::CreateRuntime(mQualifiedTypename, mValue, mReference));
 
-	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, false, Visibility::Public);
+	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, true, Visibility::Public);
 	if ( value_operator ) {
 		Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
 		return;
diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 7749577..376424f 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -377,7 +377,7 @@ bool operator_binary_equal( Object* lvalue, Object* rvalue )
 	ParameterList params;
 	params.emplace_back( Parameter::CreateRuntime( rvalue->QualifiedTypename(), rvalue->getValue(), rvalue->getReference() ) );
 
-	if ( lvalue->resolveMethod( "operator==", params, false, Visibility::Public ) ) {
+	if ( lvalue->resolveMethod( "operator==", params, true, Visibility::Public ) ) {
 		Object tmp;
 		lvalue->execute( &tmp, "operator==", params );
 		return isTrue( tmp );
-- 
2.43.0


From 10c18e3242e5d3b9f50f84087a0ac8f02d13ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:27 +0000
Subject: [PATCH 040/140] fix: evaluate arguments of calls on expression
 results in the calling scope

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 24 ++++++++++++++--------
 Projects/Core/Core/AST/TreeInterpreter.h   |  4 ++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 0369bd8..8874ff4 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -280,7 +280,7 @@ void TreeInterpreter::evaluateLiteral(LiteralExpression* exp, Runtime::Object* r
 	}
 }
 
-void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result)
+void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result, IScope* owner)
 {
 	std::list<Runtime::Object> objectList;	// this is a hack to prevent that the provided object parameters run out of scope
 	ParameterList params;
@@ -295,10 +295,10 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 		params.emplace_back(Parameter::CreateRuntime(param->QualifiedOuterface(), param->getValue(), param->getReference()));
 	}
 
-	IScope* scope = getScope();
+	IScope* scope = owner ? owner : getScope();
 
-	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
-	if ( !methodSymbol ) {
+	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private, owner != nullptr);
+	if ( !methodSymbol && !owner ) {
 		methodSymbol = resolveMethod(getEnclosingMethodScope(scope), exp->mSymbolExpression, params, Visibility::Private);
 	}
 	if ( !methodSymbol ) {
@@ -381,7 +381,17 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	evaluate(exp->mLHS, &left);
 
 	Runtime::Object right;
-	evaluateInScope(&left, exp->mRHS, &right);
+
+	if ( auto* method = dynamic_cast<MethodExpression*>(exp->mRHS) ) {
+		// parameters have to be evaluated in our own scope, only the method itself belongs to the left side
+		evaluateMethodExpression(method, &right, &left);
+	}
+	else if ( auto* symbol = dynamic_cast<SymbolExpression*>(exp->mRHS) ) {
+		evaluateSymbolExpression(symbol, &right, &left, true);
+	}
+	else {
+		evaluateInScope(&left, exp->mRHS, &right);
+	}
 
 	*result = right;
 }
@@ -909,7 +919,7 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 	return scope->resolve(symbol->mName, onlyCurrentScope, visibility);
 }
 
-MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility) const
+MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, bool onlyCurrentScope) const
 {
 	if ( !scope ) {
 		throw Runtime::Exceptions::InvalidSymbol("invalid scope provided");
@@ -918,8 +928,6 @@ MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* sy
 		throw Runtime::Exceptions::InvalidSymbol("invalid symbol provided");
 	}
 
-	bool onlyCurrentScope = false;
-
 	while ( symbol->mSymbolExpression ) {
 		Symbol* child = scope->resolve(symbol->mName, onlyCurrentScope, visibility);
 		onlyCurrentScope = true;
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index d03fdb0..05afa74 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -99,7 +99,7 @@ private:
 	void evaluateInScope(IScope* scope, Node* exp, Runtime::Object* result);
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
-	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
+	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result, IScope* owner = nullptr);
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
 	void evaluateStringEvalExpression(StringEvalExpression* exp, Runtime::Object* result, IScope* scope);
@@ -114,7 +114,7 @@ private:
 	Runtime::Object& resolveLValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 	Symbol* resolveRValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 
-	MethodSymbol* resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility) const;
+	MethodSymbol* resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, bool onlyCurrentScope = false) const;
 
 private:	// Initialization
 	void finalize();
-- 
2.43.0


From d347c3f96f3ad69e039e6bbd4d32e0e1ebcf4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:11 +0000
Subject: [PATCH 041/140] fix: call user-defined operators on members and
 expression results

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 82 +++++++++++++++++++++---
 Projects/Core/Core/AST/TreeGenerator.h   |  3 +
 2 files changed, 76 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 86e55b3..575c76f 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -281,7 +281,7 @@ Node* TreeGenerator::parseCondition(TokenIterator& start)
 		resolveType(start, condition, operation, right);
 
 
-		const auto* lhs = dynamic_cast<Expression*>(condition);
+		auto* lhs = dynamic_cast<Expression*>(condition);
 		auto* rhs = dynamic_cast<Expression*>(right);
 
 		// check if we are using a valid type
@@ -310,6 +310,9 @@ Node* TreeGenerator::parseCondition(TokenIterator& start)
 
 			condition = process_method(exp, (*start), methodParams);
 		}
+		else if ( !exp && hasOperator(lhs, operation, rhs) ) {
+			condition = process_operator(lhs, operation, rhs);
+		}
 		else {
 			if ( op == Token::Type::COMPARE_EQUAL_CONTENT || op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
 				// content comparison requested but lhs type does not support this operator
@@ -347,11 +350,16 @@ Node* TreeGenerator::parseExpression(TokenIterator& start)
 		const std::string type = resolveType(start, expr, operation, right);
 
 
-		const auto* lhs = dynamic_cast<Expression*>(expr);
+		auto* lhs = dynamic_cast<Expression*>(expr);
 		auto* rhs = dynamic_cast<Expression*>(right);
 
 		auto* exp = dynamic_cast<SymbolExpression*>(expr);
 
+		if ( !exp && hasOperator(lhs, operation, rhs) ) {
+			expr = process_operator(lhs, operation, rhs);
+			continue;
+		}
+
 		if ( !exp || exp->isAtomicType() ) {
 			expr = new BinaryExpressionOwner(expr, operation, right, type);
 			continue;
@@ -395,11 +403,16 @@ Node* TreeGenerator::parseFactor(TokenIterator &start)
 		const std::string type = resolveType(start, factor, operation, right);
 
 
-		const auto* lhs = dynamic_cast<Expression*>(factor);
+		auto* lhs = dynamic_cast<Expression*>(factor);
 		auto* rhs = dynamic_cast<Expression*>(right);
 
 		auto* exp = dynamic_cast<SymbolExpression*>(factor);
 
+		if ( !exp && hasOperator(lhs, operation, rhs) ) {
+			factor = process_operator(lhs, operation, rhs);
+			continue;
+		}
+
 		if ( !exp || exp->isAtomicType() ) {
 			factor = new BinaryExpressionOwner(factor, operation, right, type);
 			continue;
@@ -426,6 +439,22 @@ Node* TreeGenerator::parseFactor(TokenIterator &start)
 	}
 }
 
+/*
+ * returns true if the type of the left expression provides a matching operator method
+ */
+bool TreeGenerator::hasOperator(const Expression* lhs, const Token& operation, const Expression* rhs) const
+{
+	Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
+	if ( !blueprint ) {
+		return false;
+	}
+
+	ParameterList params;
+	params.emplace_back(Parameter::CreateDesigntime(ANONYMOUS_OBJECT, Common::TypeDeclaration(rhs->getResultType())));
+
+	return blueprint->resolveMethod("operator" + operation.content(), params, true) != nullptr;
+}
+
 Node* TreeGenerator::parseInfix(TokenIterator &start)
 {
 	Node* infix = nullptr;
@@ -1016,8 +1045,17 @@ Expression* TreeGenerator::process_assignment_expression(TokenIterator& token, S
 
 			SymbolExpression* sym = new DesigntimeSymbolExpression(lhs->mName, lhs->getResultType(), PrototypeConstraints(), false);
 			sym->mSurroundingScope = lhs->mSurroundingScope;
-			sym->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
-			sym->mSymbolExpression->mSurroundingScope = blueprint;
+
+			SymbolExpression* last = sym;
+			for ( const auto* child = lhs->mSymbolExpression; child; child = child->mSymbolExpression ) {
+				last->mSymbolExpression = new DesigntimeSymbolExpression(child->mName, child->getResultType(), PrototypeConstraints(), false);
+				last->mSymbolExpression->mSurroundingScope = child->mSurroundingScope;
+
+				last = last->mSymbolExpression;
+			}
+
+			last->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
+			last->mSymbolExpression->mSurroundingScope = blueprint;
 
 			ExpressionList params;
 			params.emplace_back(rhs);
@@ -1522,14 +1560,35 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 		throw Designtime::Exceptions::SyntaxError("'" + symbol->getResultType() + "' is not a valid type", token->position());
 	}
 
-	symbol->mSymbolExpression = new DesigntimeSymbolExpression("operator" + token->content(), _void, PrototypeConstraints(), false);
-	symbol->mSymbolExpression->mSurroundingScope = type;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new DesigntimeSymbolExpression("operator" + token->content(), _void, PrototypeConstraints(), false);
+	inner->mSymbolExpression->mSurroundingScope = type;
 
 	++token;
 
 	return process_method(symbol, (*token), ExpressionList());
 }
 
+/*
+ * calls the operator method of an expression that is no symbol (i.e. the result of a method or another operator)
+ */
+Expression* TreeGenerator::process_operator(Expression* lhs, const Token& operation, Expression* rhs)
+{
+	auto* symbol = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
+	symbol->mSurroundingScope = mRepository->findBluePrintObject(lhs->getResultType());
+
+	ExpressionList params;
+	params.emplace_back(rhs);
+
+	MethodExpression* method = process_method(symbol, operation, params);
+
+	return new ScopeExpression(lhs, method, method->getResultType());
+}
+
 Statement* TreeGenerator::process_keyword(TokenIterator& token)
 {
 	Statement* statement = nullptr;
@@ -1819,8 +1878,13 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 		throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
 	}
 
-	symbol->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
-	symbol->mSymbolExpression->mSurroundingScope = obj;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
+	inner->mSymbolExpression->mSurroundingScope = obj;
 
 	const Token opToken(Token::Category::Operator, Token::Type::BRACKET_OPEN, "[", token->position(), false);
 	ExpressionList params;
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index df09a84..030adde 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -135,6 +135,9 @@ private: // Execution
 	Node* processTernaryOperator(TokenIterator& start, Node* baseExp);
 	// }
 
+	bool hasOperator(const Expression* lhs, const Token& operation, const Expression* rhs) const;
+	Expression* process_operator(Expression* lhs, const Token& operation, Expression* rhs);
+
 	SymbolExpression* resolve(TokenIterator& token, IScope* base, bool onlyCurrentScope, Visibility::E visibility) const;
 	SymbolExpression* resolveWithExceptions(TokenIterator& token, IScope* base) const;
 	SymbolExpression* resolveWithThis(TokenIterator& token, IScope* base) const;
-- 
2.43.0


From f07cb9ee3499c753db833e25bbde2e5cda5f6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:11 +0000
Subject: [PATCH 042/140] fix: use the conversion operator when an object is
 assigned to an atomic variable

---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 376424f..e4bc380 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -17,6 +17,7 @@
 #include <Core/Runtime/BuildInTypes/UserType.h>
 #include <Core/Runtime/BuildInTypes/VoidType.h>
 #include <Core/Runtime/Exceptions.h>
+#include <Core/Runtime/TypeCast.h>
 #include <Core/VirtualMachine/Controller.h>
 #include "Utils.h"
 
@@ -41,6 +42,14 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 		// or no type conversion is necessary
 		lvalue->assign( *rvalue );
 	}
+	else if ( target != VoidType::TYPENAME && lvalue->isAtomicType() && !rvalue->isAtomicType() && !rvalue->isEnumerationValue() ) {
+		// objects are converted by their own conversion operator
+		Object tmp;
+		tmp = *rvalue;
+		typecast( &tmp, target );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == BoolType::TYPENAME ) {
 		lvalue->assign( BoolType( rvalue->getValue().toBool() ) );
 	}
-- 
2.43.0


From 84f8fe8e89c78b827107cc8c4a7152a5b0d3b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:05 +0000
Subject: [PATCH 043/140] fix: pass on exceptions raised by conversion
 operators

---
 Projects/Core/Core/Object.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 9289209..d91ee28 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -374,7 +374,10 @@ void Object::operator_assign(const Object *other)
 
 	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, true, Visibility::Public);
 	if ( value_operator ) {
-		Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+		ControlFlow::E controlflow = Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+		if ( controlflow == ControlFlow::ExitProgram || controlflow == ControlFlow::Throw ) {
+			throw controlflow;		// promote control flow
+		}
 		return;
 	}
 
-- 
2.43.0


From 04a5c572b20db755a05114af85441be8b380a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:56 +0000
Subject: [PATCH 044/140] fix: reject incomplete enum values and arithmetic on
 enums

---
 Projects/Core/Core/Designtime/Analyser.cpp    | 21 ++++++++++++-------
 .../Core/Core/VirtualMachine/Repository.cpp   |  7 -------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 6caa711..d1c5434 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -46,12 +46,17 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 	while ( token != tokens.end() ) {
 		expect(Token::Type::IDENTIFIER, token);
 
+		auto position = token->position();
 		auto name = (token++)->content();
 
-		if ( token->type() == Token::Type::ASSIGN ) {
+		if ( token != tokens.end() && token->type() == Token::Type::ASSIGN ) {
 			expect(Token::Type::ASSIGN, token);
 			++token;
 
+			if ( token == tokens.end() ) {
+				throw Exceptions::SyntaxError("enum value expected but none found!", position);
+			}
+
 			expect(Token::Type::CONST_INTEGER, token);
 			value = (token++)->content();
 		}
@@ -61,7 +66,7 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 
 		// verify declaration order (this also prevents duplicate values)
 		if ( previous_value.toInt() >= value.toInt() ) {
-			throw Exceptions::SyntaxError("enum values have to be defined in ascending order", token->position());
+			throw Exceptions::SyntaxError("enum values have to be defined in ascending order", position);
 		}
 
 		previous_value = value;
@@ -79,23 +84,23 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 		entry->setParent(symbol);
 		symbol->define(name, entry);
 
-		if ( token->type() == Token::Type::COMMA ) {
+		if ( token == tokens.end() || token->type() == Token::Type::SEMICOLON ) {
+			// omitting the semicolon as last token is also allowed
+			return true;
+		}
+		else if ( token->type() == Token::Type::COMMA ) {
 			if ( lookahead(token) == tokens.end() ) {
 				throw Exceptions::SyntaxError("new enum value expected but none found!", token->position());
 			}
 
 			++token;
 		}
-		else if ( token->type() == Token::Type::SEMICOLON || token == tokens.end() ) {
-			// omitting the semicolon as last token is also allowed
-			return true;
-		}
 		else {
 			throw Exceptions::SyntaxError("unexpected token '" + token->content() + "' found", token->position());
 		}
 	}
 
-	throw Exceptions::SyntaxError("invalid enum declaration", token->position());
+	throw Exceptions::SyntaxError("invalid enum declaration '" + symbol->QualifiedTypename() + "'");
 }
 
 Ancestors Analyser::collectInheritance(TokenIterator& token)
diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 980e1c7..2325fee 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -647,13 +647,6 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 		define(Designtime::Int32Type::TYPENAME, Token::Type::COMPARE_GREATER_EQUAL, blueprint->QualifiedTypename(), _bool);
 		define(Designtime::Int32Type::TYPENAME, Token::Type::COMPARE_UNEQUAL,       blueprint->QualifiedTypename(), _bool);
 
-		// arithmetic operators
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_ADDITION, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_DIVIDE,   blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_MODULO,   blueprint->QualifiedTypename(), _float);
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_MULTIPLY, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_SUBTRACT, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-
 		// typecast operator
 		define(_int32, Token::Type::TYPECAST, blueprint->QualifiedTypename(), _int32);
 		define(_string, Token::Type::TYPECAST, blueprint->QualifiedTypename(), _string);
-- 
2.43.0


From d0aef47fc25eaa03fdf734aaff42c50d24eaa341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:44 +0000
Subject: [PATCH 045/140] fix: use static members and nested types of a class
 without qualification

---
 Projects/Core/Core/AST/TreeGenerator.cpp   | 10 ++++++
 Projects/Core/Core/AST/TreeInterpreter.cpp | 39 +++++++++++++++++++---
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 575c76f..dd3099a 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2566,7 +2566,17 @@ SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* b
     if ( mThis && !isLocalVariable(token) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
+        const Token start = (*token);
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
+        if ( exp && mMethod->isStatic() ) {
+            // static methods have no "this", they find the static members of their class in their enclosing scope
+            const Symbol* member = mThis->resolve(start.content(), true, Visibility::Private);
+            if ( member->getSymbolType() == Symbol::IType::BluePrintObjectSymbol && member->getName() != ANONYMOUS_OBJECT ) {
+                throw Common::Exceptions::StaticException("non-static member \"" + start.content() + "\" used in static method \"" + mMethod->getFullScopeName() + "\"", start.position());
+            }
+
+            return exp;
+        }
         if ( exp ) {
             // insert "this" symbol as "parent" of our recently resolved symbol
             SymbolExpression* symbol = new RuntimeSymbolExpression(IDENTIFIER_THIS, mThis->QualifiedTypename(), mMethod->isConstMethod(), true, false);
diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 8874ff4..864fa13 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -457,7 +457,7 @@ void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::O
 	}
 
 	// resolve current symbol name
-	Symbol* lvalue = scope->resolve(exp->mName, onlyCurrentScope, Visibility::Designtime);
+	Symbol* lvalue = resolveSymbol(scope, exp->mName, onlyCurrentScope, Visibility::Designtime);
 	if ( !lvalue ) {
 		auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
 		data->setValue( std::string("NullPointerException: ") + exp->toString() );
@@ -891,7 +891,7 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 	}
 
 	while ( symbol->mSymbolExpression ) {
-		Symbol* child = scope->resolve(symbol->mName, onlyCurrentScope, visibility);
+		Symbol* child = resolveSymbol(scope, symbol->mName, onlyCurrentScope, visibility);
 		// members must not be looked up in the surrounding scopes of their owner
 		onlyCurrentScope = true;
 
@@ -916,7 +916,24 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 		symbol = symbol->mSymbolExpression;
 	}
 
-	return scope->resolve(symbol->mName, onlyCurrentScope, visibility);
+	return resolveSymbol(scope, symbol->mName, onlyCurrentScope, visibility);
+}
+
+Symbol* TreeInterpreter::resolveSymbol(IScope* scope, const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
+{
+	Symbol* result = scope->resolve(name, onlyCurrentScope, visibility);
+
+	auto* object = dynamic_cast<Runtime::Object*>(scope);
+	if ( !result && object && object->getThis()->getBluePrint() ) {
+		// static members and nested types are owned by the object's class
+		result = object->getThis()->getBluePrint()->resolve(name, true, visibility);
+
+		if ( result && result->getSymbolType() != Symbol::IType::ObjectSymbol && result->getName() != ANONYMOUS_OBJECT ) {
+			return nullptr;
+		}
+	}
+
+	return result;
 }
 
 MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, bool onlyCurrentScope) const
@@ -929,7 +946,7 @@ MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* sy
 	}
 
 	while ( symbol->mSymbolExpression ) {
-		Symbol* child = scope->resolve(symbol->mName, onlyCurrentScope, visibility);
+		Symbol* child = resolveSymbol(scope, symbol->mName, onlyCurrentScope, visibility);
 		onlyCurrentScope = true;
 
 		if ( !child ) {
@@ -958,7 +975,19 @@ MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* sy
 		return nullptr;
 	}
 
-	return methodScope->resolveMethod(symbol->mName, params, onlyCurrentScope, visibility);
+	MethodSymbol* result = methodScope->resolveMethod(symbol->mName, params, onlyCurrentScope, visibility);
+
+	auto* object = dynamic_cast<Runtime::Object*>(scope);
+	if ( !result && object && object->getThis()->getBluePrint() ) {
+		// static methods are owned by the object's class
+		result = object->getThis()->getBluePrint()->resolveMethod(symbol->mName, params, true, visibility);
+
+		if ( result && !result->isStatic() ) {
+			return nullptr;
+		}
+	}
+
+	return result;
 }
 
 void TreeInterpreter::visit(Node* node)
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 05afa74..fa4aabd 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -113,6 +113,7 @@ private:
 
 	Runtime::Object& resolveLValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 	Symbol* resolveRValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
+	Symbol* resolveSymbol(IScope* scope, const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const;
 
 	MethodSymbol* resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, bool onlyCurrentScope = false) const;
 
-- 
2.43.0


From bcac2be558cc4ee27765fc6bff5af48f60d0b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:35 +0000
Subject: [PATCH 046/140] fix: compare enumeration values with integers in
 order

---
 .../Core/Core/Runtime/OperatorOverloading.cpp    | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index e4bc380..1fe6689 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -28,6 +28,12 @@ namespace Slang {
 namespace Runtime {
 
 
+// enumeration values can be compared to values of their own type and to integers
+static bool isComparableEnumeration( const Object* lvalue, const Object* rvalue )
+{
+	return lvalue->isEnumerationValue() && (rvalue->QualifiedTypename() == lvalue->QualifiedTypename() || rvalue->QualifiedTypename() == Int32Type::TYPENAME);
+}
+
 void operator_binary_assign( Object* lvalue, Object* rvalue )
 {
 	if ( !lvalue || !rvalue ) {
@@ -379,7 +385,7 @@ bool operator_binary_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() == rvalue->getValue().toInt();
 	}
 
@@ -436,7 +442,7 @@ bool operator_binary_greater( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_greater( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() > rvalue->getValue().toInt();
 	}
 
@@ -488,7 +494,7 @@ bool operator_binary_greater_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_greater_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() >= rvalue->getValue().toInt();
 	}
 
@@ -540,7 +546,7 @@ bool operator_binary_less( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_less( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() < rvalue->getValue().toInt();
 	}
 
@@ -592,7 +598,7 @@ bool operator_binary_less_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_less_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() <= rvalue->getValue().toInt();
 	}
 
-- 
2.43.0


From 2c51c97f967d9a90b46c5da4b5d2e2029c760687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:10 +0000
Subject: [PATCH 047/140] fix: reject uses of non-static members through a
 class name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 32 ++++++++++++++++++++++++
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 33 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index dd3099a..6c544b4 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1751,6 +1751,13 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 		throw Common::Exceptions::StaticException("non-static method \"" + method->ToString() + "\" called from static method \"" + mMethod->getFullScopeName() + "\"", token.position());
 	}
 
+	// prevent calls to non-static methods that are addressed by their class
+	for ( auto* owner = symbol; owner->mSymbolExpression; owner = owner->mSymbolExpression ) {
+		if ( !owner->mSymbolExpression->mSymbolExpression && isTypeName(owner) && !method->isStatic() && method->getName() != RESERVED_WORD_CONSTRUCTOR ) {
+			throw Common::Exceptions::StaticException("non-static method \"" + method->ToString() + "\" called without an object", token.position());
+		}
+	}
+
 	// evaluate language feature state of the called method
 	switch ( method->getLanguageFeatureState() ) {
 		case LanguageFeatureState::Deprecated: OSinfo("executed method '" + method->getFullScopeName() + "' is marked as deprecated in " + token.position().toString()); break;
@@ -2473,12 +2480,37 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			return nullptr;
 		}
+
+		symbol->mSurroundingScope = base;
+
+		// members can only be addressed by their class if they are static
+		if ( isTypeName(symbol) ) {
+			const Symbol* member = scope->resolve(symbol->mSymbolExpression->mName, true, visibility);
+
+			if ( member && member->getSymbolType() == Symbol::IType::BluePrintObjectSymbol && member->getName() != ANONYMOUS_OBJECT ) {
+				throw Common::Exceptions::StaticException("non-static member \"" + symbol->toString() + "\" used without an object", token->position());
+			}
+		}
 	}
 	symbol->mSurroundingScope = base;
 
 	return symbol;
 }
 
+/*
+ * returns true if the given symbol is the name of a type (and neither a variable nor a namespace)
+ */
+bool TreeGenerator::isTypeName(const SymbolExpression* symbol) const
+{
+	if ( !symbol->mSurroundingScope || symbol->mName == IDENTIFIER_BASE || symbol->mName == IDENTIFIER_THIS ) {
+		return false;
+	}
+
+	const Symbol* type = symbol->mSurroundingScope->resolve(symbol->mName, false, Visibility::Designtime);
+
+	return type && type->getSymbolType() == Symbol::IType::BluePrintObjectSymbol && type->getName() == ANONYMOUS_OBJECT;
+}
+
 MethodSymbol* TreeGenerator::resolveMethod(const SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility)
 {
 	if ( !symbol ) {
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 030adde..b40ecba 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -152,6 +152,7 @@ private: // Execution
 
 	inline IScope* getScope() const;
 	bool isLocalVariable(TokenIterator token) const;
+	bool isTypeName(const SymbolExpression* symbol) const;
 	inline void popScope();
 	inline void pushScope(IScope* scope = nullptr, bool allowBreakAndContinue = false);
 	// }
-- 
2.43.0


From 7a991af764aa5e4e3e0ccde9ff8b7699a6bbbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:19 +0000
Subject: [PATCH 048/140] fix: reject new applied to a variable

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 6c544b4..3d95621 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1786,7 +1786,12 @@ Expression* TreeGenerator::process_new(TokenIterator& token)
 			inner = inner->mSymbolExpression;
 		}
 		else {
-			const PrototypeConstraints constraints = dynamic_cast<DesigntimeSymbolExpression*>(inner)->mConstraints;
+			const auto* designtimeSymbol = dynamic_cast<DesigntimeSymbolExpression*>(inner);
+			if ( !designtimeSymbol ) {
+				throw Designtime::Exceptions::SyntaxError("type expected but '" + inner->mName + "' found", token->position());
+			}
+
+			const PrototypeConstraints constraints = designtimeSymbol->mConstraints;
 
 			const Common::TypeDeclaration typeDeclaration(inner->getResultType(), constraints);
 			mRepository->prepareType(typeDeclaration);
-- 
2.43.0


From ed0f091d03e1e7b30295fcf4a364ff2a9b0da0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:08 +0000
Subject: [PATCH 049/140] fix: allow a class to use its private static members
 by qualified name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 3d95621..77cfa54 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2476,6 +2476,9 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 			   && mThis == dynamic_cast<Runtime::Object*>(result)->getBluePrint() ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
 		}
+		else if ( mThis && mThis == result ) {
+			visibility = Visibility::Private;		// this allows us full access to our own class' static members/methods
+		}
 
 		symbol->mSymbolExpression = resolve(++token, scope, true, visibility);
 
-- 
2.43.0


From 83933d440f9d0bc236f90a12d6c884eb4fb045ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:13 +0000
Subject: [PATCH 050/140] fix: do not inherit private members

---
 Projects/Core/Core/Scope.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Scope.cpp b/Projects/Core/Core/Scope.cpp
index 19244b4..6f74fb1 100644
--- a/Projects/Core/Core/Scope.cpp
+++ b/Projects/Core/Core/Scope.cpp
@@ -3,6 +3,7 @@
 #include "Scope.h"
 
 // Library includes
+#include <algorithm>
 #include <cassert>
 #include <utility>
 
@@ -337,10 +338,13 @@ Symbol* MethodScope::resolve(const std::string& name, bool onlyCurrentScope, Vis
 		if ( base ) {
 			Symbol* result = nullptr;
 
+			// private symbols are not inherited
+			const auto baseVisibility = std::max(visibility, Visibility::Protected);
+
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, visibility); break;
-				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolve(name, true, visibility); break;
-				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, baseVisibility); break;
+				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolve(name, true, baseVisibility); break;
+				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, baseVisibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
 			}
 
@@ -380,10 +384,13 @@ MethodSymbol* MethodScope::resolveMethod(const std::string& name, const Paramete
 		if ( base ) {
 			MethodSymbol* result = nullptr;
 
+			// private methods are not inherited
+			const auto baseVisibility = std::max(visibility, Visibility::Protected);
+
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, visibility); break;
-				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolveMethod(name, params, true, visibility); break;
-				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, baseVisibility); break;
+				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolveMethod(name, params, true, baseVisibility); break;
+				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, baseVisibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
 			}
 
-- 
2.43.0


From 11fc0ee293b90be33c2ac6959ab91f4f9a6bf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:13 +0000
Subject: [PATCH 051/140] fix: find static members inherited over several
 levels

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 864fa13..a1d1238 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -926,7 +926,7 @@ Symbol* TreeInterpreter::resolveSymbol(IScope* scope, const std::string& name, b
 	auto* object = dynamic_cast<Runtime::Object*>(scope);
 	if ( !result && object && object->getThis()->getBluePrint() ) {
 		// static members and nested types are owned by the object's class
-		result = object->getThis()->getBluePrint()->resolve(name, true, visibility);
+		result = object->getThis()->getBluePrint()->resolve(name, true, std::max(visibility, Visibility::Private));
 
 		if ( result && result->getSymbolType() != Symbol::IType::ObjectSymbol && result->getName() != ANONYMOUS_OBJECT ) {
 			return nullptr;
-- 
2.43.0


From 8d50d1f1d6de301be31bf49033e76332ed23cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:13 +0000
Subject: [PATCH 052/140] fix: reject uses of inherited non-static members in
 static methods

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 15 ++++++++-------
 Projects/Core/Core/AST/TreeGenerator.h   |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 77cfa54..e85254d 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -828,7 +828,7 @@ Node* TreeGenerator::processPostfixObjectOperator(const std::string& objectType,
 	}
 
 	if ( start->type() == Token::Type::PARENTHESIS_OPEN ) {
-		MethodExpression* method = process_method(symbolExpression, start);
+		MethodExpression* method = process_method(symbolExpression, start, true);
 
 		return new ScopeExpression(newExp, method, method->getResultType());
 	}
@@ -907,7 +907,7 @@ Node* TreeGenerator::processPostfixScopeOperator(TokenIterator& start, Node* bas
 	}
 
 	if ( start->type() == Token::Type::PARENTHESIS_OPEN ) {
-		MethodExpression* method = process_method(symbolExpression, start);
+		MethodExpression* method = process_method(symbolExpression, start, true);
 
 		return new ScopeExpression(infixPostfix, method, method->getResultType());
 	}
@@ -1651,7 +1651,7 @@ Statement* TreeGenerator::process_keyword(TokenIterator& token)
  * syntax:
  * <type> <identifier>(<parameter list>);
  */
-MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenIterator& token)
+MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenIterator& token, bool onObject)
 {
 	const Token start = (*token);
 
@@ -1681,10 +1681,10 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 
 	token = ++closed;
 
-	return process_method(symbol, start, params);
+	return process_method(symbol, start, params, onObject);
 }
 
-MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions)
+MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions, bool onObject)
 {
 	ParameterList params;
 	for ( const auto& expr : expressions ) {
@@ -1747,7 +1747,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 	}
 
 	// prevent calls to non-static methods from static methods
-	if ( mMethod->getEnclosingScope() == method->getEnclosingScope() && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method ) {
+	if ( mThis && !onObject && !symbol->mSymbolExpression && dynamic_cast<Designtime::BluePrintObject*>(method->getEnclosingScope()) && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method && method->getName() != RESERVED_WORD_CONSTRUCTOR ) {
 		throw Common::Exceptions::StaticException("non-static method \"" + method->ToString() + "\" called from static method \"" + mMethod->getFullScopeName() + "\"", token.position());
 	}
 
@@ -2611,7 +2611,8 @@ SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* b
         if ( exp && mMethod->isStatic() ) {
             // static methods have no "this", they find the static members of their class in their enclosing scope
             const Symbol* member = mThis->resolve(start.content(), true, Visibility::Private);
-            if ( member->getSymbolType() == Symbol::IType::BluePrintObjectSymbol && member->getName() != ANONYMOUS_OBJECT ) {
+            if ( start.content() == IDENTIFIER_BASE
+              || (member->getSymbolType() == Symbol::IType::BluePrintObjectSymbol && member->getName() != ANONYMOUS_OBJECT) ) {
                 throw Common::Exceptions::StaticException("non-static member \"" + start.content() + "\" used in static method \"" + mMethod->getFullScopeName() + "\"", start.position());
             }
 
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index b40ecba..bd8f924 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -94,8 +94,8 @@ private: // Execution
 	Statement* process_if(TokenIterator& token);
 	Expression* process_incdecrement(TokenIterator& token, Expression* lhs);
 	Statement* process_keyword(TokenIterator& token);
-	MethodExpression* process_method(SymbolExpression* symbol, TokenIterator& token);
-	MethodExpression* process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions);
+	MethodExpression* process_method(SymbolExpression* symbol, TokenIterator& token, bool onObject = false);
+	MethodExpression* process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions, bool onObject = false);
 	Expression* process_new(TokenIterator& token);
 	Statement* process_print(TokenIterator& token);
 	Statement* process_return(TokenIterator& token);
-- 
2.43.0


From e95643125403ab17f7e99e381820e3e72f34348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:13 +0000
Subject: [PATCH 053/140] fix: check the visibility of overloads, operators and
 constructors

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 33 ++++++++++++++++++++----
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 Projects/Core/Core/Object.cpp            |  2 +-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index e85254d..3527cbf 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1709,6 +1709,11 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 		throw Common::Exceptions::UnknownIdentifier("method '" + symbol->toString() + "( " + toString(params) + " )' not found", token.position());
 	}
 
+	// prevent calls to methods that are not visible from here
+	if ( !isVisible(method) ) {
+		throw Common::Exceptions::VisibilityError("method '" + method->getFullScopeName() + "' is not visible from '" + mMethod->getFullScopeName() + "'", token.position());
+	}
+
 	// validate parameters
 	const ParameterList& expectedParams = method->provideSignature();
 	auto expectedIt = expectedParams.cbegin();
@@ -2472,13 +2477,9 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 		else if ( name == IDENTIFIER_THIS ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
 		}
-		else if ( mThis && dynamic_cast<Runtime::Object*>(result)
-			   && mThis == dynamic_cast<Runtime::Object*>(result)->getBluePrint() ) {
+		else if ( mThis && mThis == dynamic_cast<Designtime::BluePrintObject*>(scope) ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
 		}
-		else if ( mThis && mThis == result ) {
-			visibility = Visibility::Private;		// this allows us full access to our own class' static members/methods
-		}
 
 		symbol->mSymbolExpression = resolve(++token, scope, true, visibility);
 
@@ -2519,6 +2520,28 @@ bool TreeGenerator::isTypeName(const SymbolExpression* symbol) const
 	return type && type->getSymbolType() == Symbol::IType::BluePrintObjectSymbol && type->getName() == ANONYMOUS_OBJECT;
 }
 
+/*
+ * returns true if the given method can be called from our current method
+ */
+bool TreeGenerator::isVisible(const Common::Method* method) const
+{
+	const auto* owner = dynamic_cast<Designtime::BluePrintObject*>(method->getEnclosingScope());
+	if ( !owner || owner == mThis || method->getVisibility() == Visibility::Public ) {
+		return true;
+	}
+	if ( method->getVisibility() == Visibility::Private ) {
+		return false;
+	}
+
+	// protected methods are only visible in derived objects
+	const auto* base = mThis;
+	while ( base && base != owner ) {
+		base = dynamic_cast<Designtime::BluePrintObject*>(base->resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
+	}
+
+	return base == owner;
+}
+
 MethodSymbol* TreeGenerator::resolveMethod(const SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility)
 {
 	if ( !symbol ) {
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index bd8f924..78e55aa 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -153,6 +153,7 @@ private: // Execution
 	inline IScope* getScope() const;
 	bool isLocalVariable(TokenIterator token) const;
 	bool isTypeName(const SymbolExpression* symbol) const;
+	bool isVisible(const Common::Method* method) const;
 	inline void popScope();
 	inline void pushScope(IScope* scope = nullptr, bool allowBreakAndContinue = false);
 	// }
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index d91ee28..b0a9fc9 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -187,7 +187,7 @@ ControlFlow::E Object::Constructor(const ParameterList& params)
 
 	// check if we have implemented a constructor with the given amount and type of parameters
 	// if a specialized constructor is implemented, the default constructor cannot be used
-	auto* constructor = dynamic_cast<Common::Method*>(resolveMethod(RESERVED_WORD_CONSTRUCTOR, params, true, Visibility::Protected));
+	auto* constructor = dynamic_cast<Common::Method*>(resolveMethod(RESERVED_WORD_CONSTRUCTOR, params, true, Visibility::Private));
 	if ( constructor ) {
 		VoidType tmp;
 
-- 
2.43.0


From f39ada49c5a1a230e8d296f98700e491549aea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:02 +0000
Subject: [PATCH 054/140] fix: find static members of distant ancestors by
 class name

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index a1d1238..d8b1cb4 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -923,10 +923,14 @@ Symbol* TreeInterpreter::resolveSymbol(IScope* scope, const std::string& name, b
 {
 	Symbol* result = scope->resolve(name, onlyCurrentScope, visibility);
 
-	auto* object = dynamic_cast<Runtime::Object*>(scope);
-	if ( !result && object && object->getThis()->getBluePrint() ) {
-		// static members and nested types are owned by the object's class
-		result = object->getThis()->getBluePrint()->resolve(name, true, std::max(visibility, Visibility::Private));
+	auto* blueprint = dynamic_cast<Designtime::BluePrintObject*>(scope);
+	if ( auto* object = dynamic_cast<Runtime::Object*>(scope) ) {
+		blueprint = object->getThis()->getBluePrint();
+	}
+
+	if ( !result && blueprint ) {
+		// static members and nested types are owned by the object's class or one of its ancestors
+		result = blueprint->resolve(name, true, std::max(visibility, Visibility::Private));
 
 		if ( result && result->getSymbolType() != Symbol::IType::ObjectSymbol && result->getName() != ANONYMOUS_OBJECT ) {
 			return nullptr;
-- 
2.43.0


From 23e0cd017b5ee1f3eaa1bfe5276468535ad8edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:24 +0000
Subject: [PATCH 055/140] fix: use static members of distant ancestors in
 static methods

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d8b1cb4..45cfb40 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -922,13 +922,20 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 Symbol* TreeInterpreter::resolveSymbol(IScope* scope, const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
 {
 	Symbol* result = scope->resolve(name, onlyCurrentScope, visibility);
+	if ( result ) {
+		return result;
+	}
 
 	auto* blueprint = dynamic_cast<Designtime::BluePrintObject*>(scope);
 	if ( auto* object = dynamic_cast<Runtime::Object*>(scope) ) {
 		blueprint = object->getThis()->getBluePrint();
 	}
+	for ( auto* parent = scope; parent && !blueprint && !onlyCurrentScope; parent = parent->getEnclosingScope() ) {
+		// static methods are enclosed by their class
+		blueprint = dynamic_cast<Designtime::BluePrintObject*>(parent);
+	}
 
-	if ( !result && blueprint ) {
+	if ( blueprint ) {
 		// static members and nested types are owned by the object's class or one of its ancestors
 		result = blueprint->resolve(name, true, std::max(visibility, Visibility::Private));
 
-- 
2.43.0


From bb617548d21e7ecefab931bf394efbac3cf11d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:23 +0000
Subject: [PATCH 056/140] fix: reject modifications of const members and of
 members through this in const methods

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 11 ++++++++---
 Projects/Library/libLog/Logger.os        |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 3527cbf..e373140 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1747,7 +1747,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 	}
 
 	// prevent calls to modifiable method from const symbol (exception: constructors are allowed)
-	if ( symbol->isConst() && !method->isConstMethod() ) {
+	if ( symbol->isConst() && !method->isConstMethod() && !(mAllowConstModify && symbol->isMember()) ) {
 		throw Common::Exceptions::ConstCorrectnessViolated("only calls to const methods are allowed from within const symbol '" + mMethod->getFullScopeName() + "'", token.position());
 	}
 
@@ -2436,8 +2436,13 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			scope = blueprint;
 
-			symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
-			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
+			if ( name == IDENTIFIER_THIS ) {
+				// the members of our own object are const in const methods
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, mMethod->isConstMethod(), true, blueprint->isAtomicType());
+			}
+			else {
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isMember() && bpo->isConst(), false, blueprint->isAtomicType());
+			}
 		} break;
 		case Symbol::IType::NamespaceSymbol: {
 			auto* space = dynamic_cast<Common::Namespace*>(result);
diff --git a/Projects/Library/libLog/Logger.os b/Projects/Library/libLog/Logger.os
index 8e5caee..99c8f95 100644
--- a/Projects/Library/libLog/Logger.os
+++ b/Projects/Library/libLog/Logger.os
@@ -65,7 +65,7 @@ public object Logger implements ILogger {
 	/*
 	 * Protected members
 	 */
-	protected IContext mContext const;
+	protected IContext mContext;
 	protected string mKey const;
 	protected int mKeyLength const;
 }
-- 
2.43.0


From c80a50f6a967da188bad71f9a9f9dcec6c0f5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:23 +0000
Subject: [PATCH 057/140] fix: let SequenceStar use the index of its base
 sequence

---
 Projects/Library/libBehaviourTree/Control.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libBehaviourTree/Control.os b/Projects/Library/libBehaviourTree/Control.os
index 9cfdce6..059bfbf 100644
--- a/Projects/Library/libBehaviourTree/Control.os
+++ b/Projects/Library/libBehaviourTree/Control.os
@@ -128,7 +128,7 @@ public object Sequence extends Control {
         return NodeStatus.Success;
     }
 
-    private int Index = 0;
+    protected int Index = 0;
 }
 
 public object ReactiveSequence extends Sequence {
-- 
2.43.0


From 8c025188c360c9e3973d37bfec0a874ee02a40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:11 +0000
Subject: [PATCH 058/140] fix: read comparisons that directly follow an
 increment or decrement

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 57b407a..ad5cf46 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -500,8 +500,8 @@ void Tokenizer::process()
 
 	addToken(Token(Token::Type::ENDOFFILE));	// add end of file token
 
-	mergeAssignments();				// replace assignment tokens with compare tokens (if present)
 	mergeOperators();				// merge '+' '+' into '++'
+	mergeAssignments();				// replace assignment tokens with compare tokens (if present)
 	//replaceConstDataTypes();		// combines CONST_INTEGER '.' CONST_INTEGER <data type> into a CONST_FLOAT or CONST_DOUBLE
 	replaceConstDataTypesPatternMatching();		// combines CONST_INTEGER '.' CONST_INTEGER <data type> into a CONST_FLOAT or CONST_DOUBLE
 	replaceOperators();				// combine 'operator' identifiers with the next following token i.e. 'operator' '+' => 'operator+'
@@ -519,7 +519,10 @@ void Tokenizer::mergeAssignments()
 	// try to combine all compare tokens
 	while ( token != mTokens.end() ) {
 		bool changed{ false };
-		Token::Type::E currentType{ token->type() };
+		// only adjacent tokens belong together, i.e. 'a++ == b'
+		const bool isAdjacent{ !tmp.empty() && tmp.back().position().mLine == token->position().mLine
+							   && tmp.back().position().mColumn + 1 == token->position().mColumn };
+		Token::Type::E currentType{ isAdjacent ? token->type() : Token::Type::UNKNOWN };
 
 		if ( (lastType == Token::Type::ASSIGN) && (currentType == Token::Type::ASSIGN) ) {
 			// ==
-- 
2.43.0


From 540be704fe744eeef1a2c0a487a800e3644c3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:43 +0000
Subject: [PATCH 059/140] fix: return the found node instead of its type in the
 behaviour tree factory

---
 Projects/Library/libBehaviourTree/Factory.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libBehaviourTree/Factory.os b/Projects/Library/libBehaviourTree/Factory.os
index d309b68..3064cd8 100644
--- a/Projects/Library/libBehaviourTree/Factory.os
+++ b/Projects/Library/libBehaviourTree/Factory.os
@@ -14,7 +14,7 @@ public object Factory {
     public Node getNode( string name ) throws {
         foreach ( Node node : Nodes ) {
             if ( node.Name == name ) {
-                return Node;
+                return node;
             }
         }
 
-- 
2.43.0


From 2deec3bd170e0aa1f39e3b93201326f77adcae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:44 +0000
Subject: [PATCH 060/140] fix: reject increments and decrements of bool, string
 and enumeration values

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index e373140..95fc15d 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1558,6 +1558,13 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	Designtime::BluePrintObject* type = mRepository->findBluePrintObject(symbol->getResultType());
 	if ( !type ) {
 		throw Designtime::Exceptions::SyntaxError("'" + symbol->getResultType() + "' is not a valid type", token->position());
+		const Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
+
+		// there is nothing to count for these types
+		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string || (blueprint && blueprint->isEnumeration()) ) {
+			throw Designtime::Exceptions::SyntaxError("operator" + token->content() + " is not supported for type '" + lhs->getResultType() + "'", token->position());
+		}
+
 	}
 
 	SymbolExpression* inner = symbol;
-- 
2.43.0


From c268961c98b27408c09a012a9eb882dd0ed0f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:44 +0000
Subject: [PATCH 061/140] fix: reject a cast whose target is not a type

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 95fc15d..133d617 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1455,6 +1455,15 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 		) {
 		//OSinfo("C-style typecasts will soon be deprecated");
 
+		const SymbolExpression* inner = symbol;
+		while ( inner->mSymbolExpression ) {
+			inner = inner->mSymbolExpression;
+		}
+
+		if ( !isTypeName(inner) ) {
+			throw Designtime::Exceptions::SyntaxError("'" + symbol->toString() + "' is not a type", op->position());
+		}
+
 		mRepository->prepareType(Common::TypeDeclaration(symbol->getResultType(), dynamic_cast<DesigntimeSymbolExpression*>(symbol)->mConstraints));
 
 		std::string type = symbol->getResultType();
-- 
2.43.0


From 102856344567e3acef2c7c28e9294b5035b3c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:44 +0000
Subject: [PATCH 062/140] fix: reject types, namespaces and methods that are
 used as a value

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 35 +++++++++++++++++++-----
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 133d617..c5bf5f0 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1491,6 +1491,8 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 	}
 	// assignment
 	else if ( op->category() == Token::Category::Assignment ) {
+		expectValue(symbol, op);
+
 		node = process_assignment_expression(token, symbol);
 	}
 	// method call
@@ -1507,6 +1509,8 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 	}
 	// symbol usage
 	else {
+		expectValue(symbol, op);
+
 		node = symbol;
 	}
 
@@ -1554,6 +1558,13 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	}
 
 	if ( lhs->isAtomicType() ) {
+		const Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
+
+		// there is nothing to count for these types
+		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string || (blueprint && blueprint->isEnumeration()) ) {
+			throw Designtime::Exceptions::SyntaxError("operator" + token->content() + " is not supported for type '" + lhs->getResultType() + "'", token->position());
+		}
+
 		return new UnaryExpression((*token++), lhs, UnaryExpression::ValueType::LValue);
 	}
 
@@ -1567,13 +1578,6 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	Designtime::BluePrintObject* type = mRepository->findBluePrintObject(symbol->getResultType());
 	if ( !type ) {
 		throw Designtime::Exceptions::SyntaxError("'" + symbol->getResultType() + "' is not a valid type", token->position());
-		const Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
-
-		// there is nothing to count for these types
-		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string || (blueprint && blueprint->isEnumeration()) ) {
-			throw Designtime::Exceptions::SyntaxError("operator" + token->content() + " is not supported for type '" + lhs->getResultType() + "'", token->position());
-		}
-
 	}
 
 	SymbolExpression* inner = symbol;
@@ -2527,6 +2531,23 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 	return symbol;
 }
 
+/*
+ * neither types nor namespaces nor methods can be used as a value
+ */
+void TreeGenerator::expectValue(const SymbolExpression* symbol, const TokenIterator& token) const
+{
+	const SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	const Symbol* result = inner->mSurroundingScope->resolve(inner->mName, false, Visibility::Designtime);
+
+	if ( isTypeName(inner) || (result && (result->getSymbolType() == Symbol::IType::NamespaceSymbol || result->getSymbolType() == Symbol::IType::MethodSymbol)) ) {
+		throw Designtime::Exceptions::SyntaxError("'" + symbol->toString() + "' is not a value", token->position());
+	}
+}
+
 /*
  * returns true if the given symbol is the name of a type (and neither a variable nor a namespace)
  */
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 78e55aa..02f10c2 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -152,6 +152,7 @@ private: // Execution
 
 	inline IScope* getScope() const;
 	bool isLocalVariable(TokenIterator token) const;
+	void expectValue(const SymbolExpression* symbol, const TokenIterator& token) const;
 	bool isTypeName(const SymbolExpression* symbol) const;
 	bool isVisible(const Common::Method* method) const;
 	inline void popScope();
-- 
2.43.0


From f5938dcfa06ab7beb0c112cbd22c200194aca38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:48 +0000
Subject: [PATCH 063/140] fix: do not let constructors modify enumeration
 values and const static members

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 24 +++++++++++++++++++++---
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c5bf5f0..7a87ef0 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1068,7 +1068,7 @@ Expression* TreeGenerator::process_assignment_expression(TokenIterator& token, S
 		throw Common::Exceptions::ConstCorrectnessViolated("tried to modify member symbol '" + lhs->innerName() + "' in const method", op->position());
 	}
 
-	if ( lhs->isConst() && !(mAllowConstModify && lhs->isMember()) ) {
+	if ( lhs->isConst() && !isInitializable(lhs) ) {
 		throw Common::Exceptions::ConstCorrectnessViolated("tried to modify const symbol '" + lhs->innerName() + "'", op->position());
 	}
 
@@ -1553,7 +1553,7 @@ Statement* TreeGenerator::process_if(TokenIterator& token)
 
 Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression* lhs)
 {
-	if ( lhs->isConst() && !(mAllowConstModify && lhs->isMember()) ) {
+	if ( lhs->isConst() && !isInitializable(dynamic_cast<SymbolExpression*>(lhs)) ) {
 		throw Common::Exceptions::ConstCorrectnessViolated("tried to modify const symbol '" + token->content() + "'", token->position());
 	}
 
@@ -1767,7 +1767,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 	}
 
 	// prevent calls to modifiable method from const symbol (exception: constructors are allowed)
-	if ( symbol->isConst() && !method->isConstMethod() && !(mAllowConstModify && symbol->isMember()) ) {
+	if ( symbol->isConst() && !method->isConstMethod() && !isInitializable(symbol) ) {
 		throw Common::Exceptions::ConstCorrectnessViolated("only calls to const methods are allowed from within const symbol '" + mMethod->getFullScopeName() + "'", token.position());
 	}
 
@@ -2548,6 +2548,24 @@ void TreeGenerator::expectValue(const SymbolExpression* symbol, const TokenItera
 	}
 }
 
+/*
+ * constructors and destructors are allowed to modify the const members of their own object (but neither static members nor enumeration values)
+ */
+bool TreeGenerator::isInitializable(const SymbolExpression* symbol) const
+{
+	if ( !mAllowConstModify || !symbol || (symbol->mName != IDENTIFIER_THIS && symbol->mName != IDENTIFIER_BASE) ) {
+		return false;
+	}
+
+	for ( const SymbolExpression* member = symbol->mSymbolExpression; member; member = member->mSymbolExpression ) {
+		if ( member->getSymbolExpressionType() == SymbolExpression::SymbolExpressionType::RuntimeSymbolExpression && member->isConst() ) {
+			return false;
+		}
+	}
+
+	return true;
+}
+
 /*
  * returns true if the given symbol is the name of a type (and neither a variable nor a namespace)
  */
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 02f10c2..61b57bc 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -151,6 +151,7 @@ private: // Execution
 	static MethodScope* getMethodScope(IScope* scope) ;
 
 	inline IScope* getScope() const;
+	bool isInitializable(const SymbolExpression* symbol) const;
 	bool isLocalVariable(TokenIterator token) const;
 	void expectValue(const SymbolExpression* symbol, const TokenIterator& token) const;
 	bool isTypeName(const SymbolExpression* symbol) const;
-- 
2.43.0


From af74eaac281f8300045b38050b8215207852a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:25 +0000
Subject: [PATCH 064/140] fix: require commas between parameters and arguments

---
 Projects/Core/Core/AST/TreeGenerator.cpp        | 10 ++++------
 Projects/Core/Core/Designtime/Parser/Parser.cpp |  2 ++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 7a87ef0..b734b7a 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1689,14 +1689,12 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 			expression(tmp)
 		);
 
-		if ( std::distance(tmp, closed) <= 0 ) {
+		if ( tmp == closed ) {
 			break;
 		}
-		tmp = findNext(tmp, Token::Type::COMMA);
-		if ( std::distance(tmp, closed) < 0 ) {
-			break;
-		}
-		tmp++;
+
+		expect(Token::Type::COMMA, tmp);
+		++tmp;
 	}
 
 	token = ++closed;
diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 144c088..9638a09 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -512,6 +512,8 @@ ParameterList Parser::parseParameters(TokenIterator& token, IScope* scope)
 		if ( token->type() == Token::Type::PARENTHESIS_CLOSE ) {
 			break;
 		}
+
+		expect(Token::Type::COMMA, token);
 	}
 
 	expect(Token::Type::PARENTHESIS_CLOSE, token);
-- 
2.43.0


From 62d0eb1e705707db4f5a65a8a8d2f75fb2aba56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:25 +0000
Subject: [PATCH 065/140] fix: require a name in member and method declarations

---
 Projects/Core/Core/Designtime/Analyser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index d1c5434..f80087b 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -400,7 +400,10 @@ bool Analyser::createMemberOrMethod(TokenIterator& token)
 	LanguageFeatureState::E languageFeatureState = Parser::parseLanguageFeatureState(token, LanguageFeatureState::Stable);
 	// look for the type token and resolve full typename
 	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
-	// look for the identifier token
+	// look for the identifier token (keywords like 'print' are valid method names, too)
+	if ( token->type() != Token::Type::KEYWORD ) {
+		expect(Token::Type::IDENTIFIER, token);
+	}
 	std::string name = (*token++).content();
 
 	if ( token->type() == Token::Type::PARENTHESIS_OPEN ) {
-- 
2.43.0


From e34ccd5d7426703d570acee663405fd4034a2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:25 +0000
Subject: [PATCH 066/140] fix: do not drop the last token of a file without
 trailing newline

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index ad5cf46..6224adf 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -494,7 +494,7 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( previousChar != 0 ) {
+	if ( !token.empty() ) {
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From 0335fca6f15c276ac7e64811989b4c447d083f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:26 +0000
Subject: [PATCH 067/140] fix: never read beyond the end of a token list

---
 Projects/Core/Core/Common/Token.cpp           | 62 +++++++++++++++++++
 Projects/Core/Core/Common/Token.h             | 54 +++++++++++++++-
 .../Core/Core/Designtime/Parser/Tokenizer.cpp |  8 +--
 3 files changed, 118 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Common/Token.cpp b/Projects/Core/Core/Common/Token.cpp
index db7f6bb..655fbbe 100644
--- a/Projects/Core/Core/Common/Token.cpp
+++ b/Projects/Core/Core/Common/Token.cpp
@@ -5,6 +5,7 @@
 // Library includes
 
 // Project includes
+#include <Core/Designtime/Exceptions.h>
 
 // Namespace declarations
 
@@ -103,4 +104,65 @@ Token::Type::E Token::type() const
 }
 
 
+TokenIterator::TokenIterator(std::list<Token>::const_iterator it, std::list<Token>::const_iterator end)
+: mEnd(end),
+  mIterator(it)
+{
+}
+
+const Token& TokenIterator::operator*() const
+{
+	static const Token endOfFile(Token::Type::ENDOFFILE);
+
+	return mIterator == mEnd ? endOfFile : *mIterator;
+}
+
+const Token* TokenIterator::operator->() const
+{
+	return &operator*();
+}
+
+TokenIterator& TokenIterator::operator++()
+{
+	if ( mIterator == mEnd ) {
+		throw Designtime::Exceptions::SyntaxError("unexpected end of tokens");
+	}
+
+	++mIterator;
+	return *this;
+}
+
+TokenIterator TokenIterator::operator++(int)
+{
+	auto previous = *this;
+
+	operator++();
+	return previous;
+}
+
+TokenIterator& TokenIterator::operator--()
+{
+	--mIterator;
+	return *this;
+}
+
+TokenIterator TokenIterator::operator--(int)
+{
+	auto previous = *this;
+
+	operator--();
+	return previous;
+}
+
+bool TokenIterator::operator==(const TokenIterator& other) const
+{
+	return mIterator == other.mIterator;
+}
+
+bool TokenIterator::operator!=(const TokenIterator& other) const
+{
+	return mIterator != other.mIterator;
+}
+
+
 }
diff --git a/Projects/Core/Core/Common/Token.h b/Projects/Core/Core/Common/Token.h
index eab650e..d77d023 100644
--- a/Projects/Core/Core/Common/Token.h
+++ b/Projects/Core/Core/Common/Token.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <iterator>
 #include <list>
 #include <string>
 
@@ -152,9 +153,58 @@ private:
 };
 
 
-typedef std::list<Token> TokenList;
+/*
+ * Iterates over a list of tokens without ever leaving it:
+ * dereferencing the end of the list results in an end of file token, trying to move beyond it is a syntax error
+ */
+class TokenIterator
+{
+public:
+	typedef std::ptrdiff_t difference_type;
+	typedef std::bidirectional_iterator_tag iterator_category;
+	typedef const Token* pointer;
+	typedef const Token& reference;
+	typedef Token value_type;
+
+public:
+	TokenIterator() = default;
+	TokenIterator(std::list<Token>::const_iterator it, std::list<Token>::const_iterator end);
+
+public:
+	const Token& operator*() const;
+	const Token* operator->() const;
+
+	TokenIterator& operator++();
+	TokenIterator operator++(int);
+	TokenIterator& operator--();
+	TokenIterator operator--(int);
+
+	bool operator==(const TokenIterator& other) const;
+	bool operator!=(const TokenIterator& other) const;
+
+private:
+	std::list<Token>::const_iterator mEnd;
+	std::list<Token>::const_iterator mIterator;
+};
+
+
+class TokenList : public std::list<Token>
+{
+public:
+	using std::list<Token>::list;
+	using std::list<Token>::begin;
+	using std::list<Token>::end;
+
+public:
+	TokenIterator begin() const { return cbegin(); }
+	TokenIterator end() const { return cend(); }
+
+	TokenIterator cbegin() const { return TokenIterator(std::list<Token>::cbegin(), std::list<Token>::cend()); }
+	TokenIterator cend() const { return TokenIterator(std::list<Token>::cend(), std::list<Token>::cend()); }
+};
+
+
 typedef std::list<TokenList> TokenStack;
-typedef TokenList::const_iterator TokenIterator;
 typedef TokenList::iterator TokenIteratorMutable;
 
 
diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 6224adf..2e22360 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -299,10 +299,10 @@ void Tokenizer::mergeOperators()
 {
 	TokenList tmp;
 	Token::Type::E lastType{ Token::Type::UNKNOWN };
-	TokenIterator token{ mTokens.begin() };
+	TokenIterator token{ mTokens.cbegin() };
 
 	// try to combine all compare tokens
-	while ( token != mTokens.end() ) {
+	while ( token != mTokens.cend() ) {
 		bool changed{ false };
 		Token::Type::E activeType{ token->type() };
 		// '- -' is a subtraction of a negative value, only '--' is a decrement
@@ -514,10 +514,10 @@ void Tokenizer::mergeAssignments()
 {
 	TokenList tmp;
 	Token::Type::E lastType{ Token::Type::UNKNOWN };
-	TokenIterator token{ mTokens.begin() };
+	TokenIterator token{ mTokens.cbegin() };
 
 	// try to combine all compare tokens
-	while ( token != mTokens.end() ) {
+	while ( token != mTokens.cend() ) {
 		bool changed{ false };
 		// only adjacent tokens belong together, i.e. 'a++ == b'
 		const bool isAdjacent{ !tmp.empty() && tmp.back().position().mLine == token->position().mLine
-- 
2.43.0


From 78366788368e73a64cbe977a02f7ac65d9e3bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:03 +0000
Subject: [PATCH 068/140] fix: do not recurse endlessly when a type uses a
 prototype of itself

---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 2325fee..2519ea7 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -72,8 +72,6 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 		if ( !constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !generic->inheritsFrom(constIt->mConstraint) ) {
 			throw Common::Exceptions::TypeMismatch(constIt->mRunType + " is no or does not inherit from " + constIt->mConstraint);
 		}
-
-		initBluePrintObject(generic);
 	}
 
 	Designtime::BluePrintObject* newBlue = blueprint->fromPrototype(constraints);
@@ -87,6 +85,11 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 		parent->define(newBlue->QualifiedTypename(), newBlue);
 	}
 
+	// initialize the types this blueprint has been created with, they may use it themselves
+	for ( const auto& constraint : constraints ) {
+		initBluePrintObject(findBluePrintObject(constraint.mRunType));
+	}
+
 	// initialize newly created blueprint
 	initBluePrintObject(newBlue);
 
-- 
2.43.0


From d968fb2a39251d23c1872661c28a3804e8f0aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:53 +0000
Subject: [PATCH 069/140] fix: end the current token where a comment begins

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 2e22360..a357781 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -421,6 +421,13 @@ void Tokenizer::process()
 		// preprocessor directives as single line comments '#'
 		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
 			isSingleLineComment = true;
+
+			if ( !token.empty() ) {
+				// the comment ends the current token
+				addToken(token, pos);
+
+				token.clear();
+			}
 		}
 		// single line comments '//'
 		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '/' ) {
-- 
2.43.0


From 53e1f613d9378c3349c9cd1164214d08a519fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:53 +0000
Subject: [PATCH 070/140] fix: recognise the end of a multi line comment
 correctly

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index a357781..692a055 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -440,6 +440,8 @@ void Tokenizer::process()
 			isMultiLineComment = true;
 			// remove last inserted token
 			mTokens.pop_back();
+			// this '*' is not part of the end of the comment
+			currentChar = 0;
 		}
 
 		if ( !isMultiLineComment && !isSingleLineComment ) {
@@ -485,6 +487,8 @@ void Tokenizer::process()
 		// multi line comments '*/'
 		if ( isMultiLineComment && previousChar == '*' && currentChar == '/' ) {
 			isMultiLineComment = false;
+			// this '/' is not part of the beginning of a new comment
+			currentChar = 0;
 		}
 
 		// counting lines and columns
-- 
2.43.0


From 6603f5e18a4dd0b308978c5d2a1f39dff083c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:19 +0000
Subject: [PATCH 071/140] fix: order differently labelled versions by their
 label

---
 Projects/Utils/SemVer/Version.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..310070a 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -69,6 +69,10 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
+				if ( !mLabel.empty() && !other.mLabel.empty() ) {
+					return mLabel < other.mLabel;
+				}
+
 				return !mLabel.empty();
 			}
 
-- 
2.43.0


From 9159ad34a326a34f1c301287e4e807b91bc092fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:19 +0000
Subject: [PATCH 072/140] fix: parse the build number of semantic versions

---
 Projects/Library/libSemVer/SemVer.os | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/libSemVer/SemVer.os b/Projects/Library/libSemVer/SemVer.os
index d6a1154..d6d961f 100644
--- a/Projects/Library/libSemVer/SemVer.os
+++ b/Projects/Library/libSemVer/SemVer.os
@@ -25,15 +25,19 @@ private object SemVer const
 			throw "invalid semantic version number '" + version + "'";
 		}
 
-		var dash = strfind( version, "-", dot2 + 1 );
-		var label = ( dash != -1 ) ? substr( version, dash + 1 ) : "";
+		// the build number starts at the first plus sign and may itself contain dashes
+		var plus = strfind( version, "+", dot2 + 1 );
+		var buildNumber = ( plus != -1 ) ? substr( version, plus + 1 ) : "";
+		var release = ( plus != -1 ) ? substr( version, 0, plus ) : version;
 
-		// TODO: implement parsing of build number
+		var dash = strfind( release, "-", dot2 + 1 );
+		var label = ( dash != -1 ) ? substr( release, dash + 1 ) : "";
 
 		return new SemVer( cast<int>( substr( version, 0, dot1 ) ),
 				   cast<int>( substr( version, dot1 + 1, dot2 ) ),
 				   cast<int>( substr( version, dot2 + 1 ) ),
-				   label );
+				   label,
+				   buildNumber );
 	}
 
 
@@ -41,7 +45,7 @@ private object SemVer const
 	 * Public members which indicate the major, minor, bugfix version and an optional label
 	 */
 	public int Bugfix const;
-	public string BuildNumber const;	// not yet parsed!
+	public string BuildNumber const;
 	public string Label const;
 	public int Major const;
 	public int Minor const;
-- 
2.43.0


From 62819cabf423b3d8a986a6857e4025c2c99a04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:57 +0000
Subject: [PATCH 073/140] fix: pass parameters of prototype types like those of
 ordinary types

---
 Projects/Core/Core/Common/Method.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 68aa963..fc3369f 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -179,8 +179,6 @@ void Method::initialize(const PrototypeConstraints& constraints)
 
 	// Update method signature
 	// {
-	auto atomicTypes = provideAtomicTypes();
-
 	for ( auto& paramIt : mSignature ) {
 		// look up parameter type in object-wide prototype constraints
 		type = constraints.lookupType(paramIt.type());
@@ -191,18 +189,12 @@ void Method::initialize(const PrototypeConstraints& constraints)
 		}
 
 		if ( paramIt.type() != type ) {
-			AccessMode::E access = AccessMode::ByValue;
-
-			if ( atomicTypes.find(type) == atomicTypes.end() ) {
-				access = AccessMode::ByReference;
-			}
-
 			paramIt = Parameter::CreateDesigntime(paramIt.name(),
 													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
 													 paramIt.value(),
 													 paramIt.hasDefaultValue(),
 													 paramIt.mutability(),
-													 access);
+													 paramIt.access());
 		}
 	}
 	// }
-- 
2.43.0


From 14378578df6da8669159a456a01f89396c6a58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:57 +0000
Subject: [PATCH 074/140] fix: keep already resolved type arguments of
 prototype members

---
 Projects/Core/Core/Common/PrototypeConstraint.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Common/PrototypeConstraint.cpp b/Projects/Core/Core/Common/PrototypeConstraint.cpp
index 90d50ad..7d5580e 100644
--- a/Projects/Core/Core/Common/PrototypeConstraint.cpp
+++ b/Projects/Core/Core/Common/PrototypeConstraint.cpp
@@ -95,6 +95,10 @@ PrototypeConstraints PrototypeConstraints::buildRuntimeConstraints(const Prototy
 		if ( constraint.hasRuntimeType() ) {
 			result.emplace_back(constraint);
 		}
+		else if ( thisIt->hasRuntimeType() ) {
+			// already resolved type
+			result.emplace_back(*thisIt);
+		}
 		else {
 			result.emplace_back(PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, _object, VALUE_NONE));
 		}
-- 
2.43.0


From 01eadf3691c9e217685634f729b0ed9d5ebcba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:05 +0000
Subject: [PATCH 075/140] fix: prepare prototypes that are used by function
 signatures only

---
 .../Core/Core/VirtualMachine/Repository.cpp   | 57 +++++++++++++++++++
 .../Core/Core/VirtualMachine/Repository.h     |  4 ++
 2 files changed, 61 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 2519ea7..2ffb99a 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -8,6 +8,7 @@
 #include <Core/AST/TreeGenerator.h>
 #include <Core/Common/Exceptions.h>
 #include <Core/Common/Method.h>
+#include <Core/Common/Namespace.h>
 #include <Core/Designtime/BluePrintObject.h>
 #include <Core/Designtime/BuildInTypes/BoolType.h>
 #include <Core/Designtime/BuildInTypes/DoubleType.h>
@@ -30,6 +31,7 @@
 #include <Core/Runtime/BuildInTypes/UserType.h>
 #include <Core/Runtime/BuildInTypes/VoidType.h>
 #include <Logger/Logger.h>
+#include <Tools/Strings.h>
 #include <Utils.h>
 #include "Controller.h"
 
@@ -524,6 +526,9 @@ void Repository::initializeBlueprints()
 	for ( auto& blueprint : mBluePrintObjects) {
 		initBluePrintObject(blueprint.second);
 	}
+
+	// prepare the prototypes that are only used by functions
+	prepareSignatures(Controller::Instance().globalScope());
 }
 
 /*
@@ -575,6 +580,8 @@ void Repository::initBluePrintObject(Designtime::BluePrintObject* blueprint)
 	// prepare methods
 	MethodScope::MethodCollection methods = blueprint->provideMethods();
 	for ( auto method : methods ) {
+		prepareSignature(method);
+
 		Designtime::BluePrintObject* baseType = findBluePrintObject(method->QualifiedTypename());
 		if ( !baseType ) {
 			throw Common::Exceptions::UnknownIdentifier("unknown type '" + method->QualifiedTypename() + "'!");
@@ -598,6 +605,8 @@ void Repository::initBluePrintObject(Designtime::BluePrintObject* blueprint)
 		}
 
 		method->initialize();
+
+		prepareSignature(method);
 	}
 
 	if ( !blueprint->isPrepared() ) {
@@ -748,6 +757,54 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 	}
 }
 
+/*
+ * prepares the prototypes a method uses as return type or as parameter types
+ */
+void Repository::prepareSignature(const Common::Method* method)
+{
+	preparePrototype(method->QualifiedTypename());
+
+	for ( const auto& param : method->provideSignature() ) {
+		preparePrototype(param.type());
+	}
+}
+
+void Repository::prepareSignatures(const MethodScope* scope)
+{
+	for ( auto it = scope->beginMethods(); it != scope->endMethods(); ++it ) {
+		prepareSignature(*it);
+	}
+
+	for ( auto it = scope->beginSymbols(); it != scope->endSymbols(); ++it ) {
+		if ( it->second->getSymbolType() == Symbol::IType::NamespaceSymbol ) {
+			prepareSignatures(dynamic_cast<Common::Namespace*>(it->second));
+		}
+	}
+}
+
+/*
+ * prepares a resolved prototype given by its name (i.e. "name<type1,type2>"), all other types are ignored
+ */
+void Repository::preparePrototype(const std::string& type)
+{
+	auto begin = type.find('<');
+	if ( begin == std::string::npos || findBluePrintObject(type) ) {
+		return;
+	}
+
+	PrototypeConstraints constraints;
+
+	std::string types = type.substr(begin + 1, type.size() - begin - 2);
+	while ( !types.empty() ) {
+		std::string runType;
+		Utils::Tools::splitBy(types, ',', runType, types);
+
+		constraints.emplace_back(PrototypeConstraint(constraints.size(), "", runType, ""));
+	}
+
+	prepareType(Common::TypeDeclaration(type.substr(0, begin), constraints));
+}
+
 void Repository::prepareType(const Common::TypeDeclaration& type)
 {
 	// resolve type constraints
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index f3435e9..673ac16 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -74,6 +74,10 @@ private:
 	void initBluePrintObject(Designtime::BluePrintObject* blueprint);
 	void initTypeSystem(Designtime::BluePrintObject* blueprint);
 
+	void preparePrototype(const std::string& type);
+	void prepareSignature(const Common::Method* method);
+	void prepareSignatures(const MethodScope* scope);
+
 private:
 	BluePrintObjectMap mBluePrintObjects;
 };
-- 
2.43.0


From 651c92888eda4cd1a8d29a991346710d4217c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:05 +0000
Subject: [PATCH 076/140] fix: allow objects to be assigned to the prototype
 they extend

---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 2ffb99a..217ef80 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -751,8 +751,10 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 		Designtime::Ancestors ancestors = blueprint->getInheritance();
 
 		for ( const auto& ancestor : ancestors ) {
-			define(ancestor.name(), Token::Type::ASSIGN,   blueprint->QualifiedTypename(), ancestor.name());
-			define(ancestor.name(), Token::Type::TYPECAST, blueprint->QualifiedTypename(), ancestor.name());
+			auto type = Designtime::Parser::buildRuntimeConstraintTypename(ancestor.name(), ancestor.constraints());
+
+			define(type, Token::Type::ASSIGN,   blueprint->QualifiedTypename(), type);
+			define(type, Token::Type::TYPECAST, blueprint->QualifiedTypename(), type);
 		}
 	}
 }
-- 
2.43.0


From 663781453cb80ed6eb55cbab2427846606a4f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 077/140] fix: update the length of a String that is appended
 to

---
 Projects/Library/System/String.os | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 0fd9697..b182162 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -370,6 +370,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( string other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -379,6 +380,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( bool other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -388,6 +390,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( double other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -397,6 +400,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( float other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -406,6 +410,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( int other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -415,6 +420,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( String other const ) modify {
 		mValue += other.mValue;
+		mSize = strlen( mValue );
 
 		return this;
 	}
-- 
2.43.0


From df13d33ca0e7dcad727e24f413c09307efad9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 078/140] fix: return the characters between both indices of a
 String

---
 Projects/Library/System/String.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index b182162..99ca3c4 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -436,7 +436,7 @@ public object String implements IIterable {
 	 * Returns the substring between given indices
 	 */
 	public string operator[]( int first, int last ) const throws {
-		if ( mSize >= first && mSize <= last - first ) {
+		if ( first >= 0 && first <= last && last <= mSize ) {
 			return substr( mValue, first, last - first );
 		}
 
-- 
2.43.0


From 94daa8352b705b4224a7cbe1e1d03252f35f73af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 079/140] fix: allow String.EndsWith to be called with longer
 texts

---
 Projects/Library/System/String.os | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 99ca3c4..6ba2355 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -91,7 +91,9 @@ public object String implements IIterable {
 	 * Returns true if the held string ends with the given string
 	 */
 	public bool EndsWith( string str ) const {
-		return str == substr( mValue, strlen( mValue ) - strlen( str ) );
+		int start = mSize - strlen( str );
+
+		return start >= 0 && str == substr( mValue, start );
 	}
 
 	/*
-- 
2.43.0


From 2461a79e1aa7e398b8f3d417650889befdf94672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 080/140] fix: stop replacing text that has been inserted by
 String.ReplaceAll

---
 Projects/Library/System/String.os | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 6ba2355..b3792ea 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -154,12 +154,24 @@ public object String implements IIterable {
 	 * Replaces all occurrences of a given string with a new string
 	 */
 	public bool ReplaceAll( string oldStr, string newStr ) modify {
+		if ( oldStr == "" ) {
+			return false;
+		}
+
 		bool hasFound = false;
+		int position;
+		int start;
+
+		while ( ( position = strfind( mValue, oldStr, start ) ) >= 0 ) {
+			mValue = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );
 
-		while ( Replace( oldStr, newStr ) ) {
+			// continue behind the replaced text, it could contain the searched text
+			start = position + strlen( newStr );
 			hasFound = true;
 		}
 
+		mSize = strlen( mValue );
+
 		return hasFound;
 	}
 
-- 
2.43.0


From bef96665ea16f719e566c462424154323af66f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 081/140] fix: check the bounds of String.TrimRight

---
 Projects/Library/System/String.os | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index b3792ea..f0b0e5e 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -287,7 +287,11 @@ public object String implements IIterable {
 	/*
 	 * Cuts away from the right side of the held string value
 	 */
-	public string TrimRight( int index ) modify {
+	public string TrimRight( int index ) modify throws {
+		if ( index < 0 || index > mSize ) {
+			throw new OutOfBoundsException( "index( " + index + " ) is out of bounds!" );
+		}
+
 		mValue = substr( mValue, 0, strlen( mValue ) - index );
 		mSize = strlen( mValue );
 
-- 
2.43.0


From 147ab09d5095bc617069fc73cd72568c551bafa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 082/140] fix: return an empty string if nothing is found by C
 string functions

---
 Projects/Extensions/LIBC/cstring/strchr.h  | 4 +++-
 Projects/Extensions/LIBC/cstring/strpbrk.h | 4 +++-
 Projects/Extensions/LIBC/cstring/strrchr.h | 4 +++-
 Projects/Extensions/LIBC/cstring/strstr.h  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index 114af6d..c955ca9 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -45,7 +45,9 @@ public:
 		auto param_str = (*it++).value().toStdString();
 		auto param_ch  = (*it++).value().toInt();
 
-		*result = Runtime::StringType( std::string( strchr( param_str.c_str(), param_ch ) ) );
+		const char* found = strchr( param_str.c_str(), param_ch );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/cstring/strpbrk.h b/Projects/Extensions/LIBC/cstring/strpbrk.h
index a935519..da57d6f 100644
--- a/Projects/Extensions/LIBC/cstring/strpbrk.h
+++ b/Projects/Extensions/LIBC/cstring/strpbrk.h
@@ -44,7 +44,9 @@ public:
 		auto param_dest     = (*it++).value().toStdString();
 		auto param_breakset = (*it++).value().toStdString();
 
-		*result = Runtime::StringType( std::string( strpbrk( param_dest.c_str(), param_breakset.c_str() ) ) );
+		const char* found = strpbrk( param_dest.c_str(), param_breakset.c_str() );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index 8fce434..b9c8e19 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -45,7 +45,9 @@ public:
 		auto param_str = (*it++).value().toStdString();
 		auto param_ch  = (*it++).value().toInt();
 
-		*result = Runtime::StringType( std::string( strrchr( param_str.c_str(), param_ch ) ) );
+		const char* found = strrchr( param_str.c_str(), param_ch );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index b4922b5..c0a47dc 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -45,7 +45,9 @@ public:
 		auto param_str    = (*it++).value().toStdString();
 		auto param_substr = (*it++).value().toStdString();
 
-		*result = Runtime::StringType( std::string( strstr( param_str.c_str(), param_substr.c_str() ) ) );
+		const char* found = strstr( param_str.c_str(), param_substr.c_str() );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 5f2c60888c64e2c95ddff277f6a6977d8d575026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 083/140] fix: accept strings as second parameter of strstr

---
 Projects/Extensions/LIBC/cstring/strstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index c0a47dc..0bddb41 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -30,7 +30,7 @@ public:
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME, 0 ) );
-		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::Int32Type::TYPENAME, 0 ) );
+		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::StringType::TYPENAME, 0 ) );
 
 		setSignature( params );
 	}
-- 
2.43.0


From dba7a6280e51d09e980cdb8a26a5c6bc13c31b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 084/140] fix: append the first characters of the source with
 strncat

---
 Projects/Extensions/LIBC/cstring/strncat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strncat.h b/Projects/Extensions/LIBC/cstring/strncat.h
index 5832058..b2b8abb 100644
--- a/Projects/Extensions/LIBC/cstring/strncat.h
+++ b/Projects/Extensions/LIBC/cstring/strncat.h
@@ -46,7 +46,7 @@ public:
 		auto param_source      = (*it++).value().toStdString();
 		auto param_num         = (*it++).value().toInt();
 
-		*result = Runtime::StringType( param_destination + param_source.substr( param_num ) );
+		*result = Runtime::StringType( param_destination + param_source.substr( 0, param_num ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From eb6c798ff9c2541eda1dc041d6286a8d59a1b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 085/140] fix: refuse negative lengths for padding strings

---
 Projects/Extensions/System/Strings/StrLPad.h | 4 ++--
 Projects/Extensions/System/Strings/StrRPad.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/System/Strings/StrLPad.h b/Projects/Extensions/System/Strings/StrLPad.h
index 08b2793..413e8ba 100644
--- a/Projects/Extensions/System/Strings/StrLPad.h
+++ b/Projects/Extensions/System/Strings/StrLPad.h
@@ -45,7 +45,7 @@ public:
 		ParameterList::const_iterator it = list.begin();
 
 		auto param_value   = (*it++).value().toStdString();
-		auto param_length  = static_cast<size_t>( (*it++).value().toInt() );
+		auto param_length  = (*it++).value().toInt();
 		auto param_pattern = (*it++).value().toStdString();
 
 		if ( param_length < 0 ) {
@@ -55,7 +55,7 @@ public:
 			throw Runtime::Exceptions::SizeException("invalid pattern size");
 		}
 
-		if ( param_length > param_value.size() ) {
+		if ( static_cast<size_t>( param_length ) > param_value.size() ) {
 			param_value.insert(param_value.begin(), param_length - param_value.size(), param_pattern[0]);
 		}
 
diff --git a/Projects/Extensions/System/Strings/StrRPad.h b/Projects/Extensions/System/Strings/StrRPad.h
index 3a43c40..2ef0003 100644
--- a/Projects/Extensions/System/Strings/StrRPad.h
+++ b/Projects/Extensions/System/Strings/StrRPad.h
@@ -44,7 +44,7 @@ public:
 		ParameterList::const_iterator it = list.begin();
 
 		auto param_value   = (*it++).value().toStdString();
-		auto param_length  = static_cast<size_t>( (*it++).value().toInt() );
+		auto param_length  = (*it++).value().toInt();
 		auto param_pattern = (*it++).value().toStdString();
 
 		if ( param_length < 0 ) {
@@ -54,7 +54,7 @@ public:
 			throw Runtime::Exceptions::SizeException("invalid pattern size");
 		}
 
-		if ( param_length > param_value.size() ) {
+		if ( static_cast<size_t>( param_length ) > param_value.size() ) {
 			param_value.append(param_length - param_value.size(), param_pattern[0]);
 		}
 
-- 
2.43.0


From 52caf31bddfa7de514c41c312ea706ea83fee1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 086/140] fix: evaluate only complete variable markers in
 strings, and only once

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 45cfb40..1426ab8 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -414,8 +414,8 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 	std::string sourceStr{ tmp.getValue().toStdString() };
 	size_t start{ 0 };
 
-	while ( ( start = sourceStr.find_first_of( VARPREFIX, start ) ) != std::string::npos ) {
-		auto end = sourceStr.find_first_of( VARPOSTFIX, start );
+	while ( ( start = sourceStr.find( VARPREFIX, start ) ) != std::string::npos ) {
+		auto end = sourceStr.find( VARPOSTFIX, start + PREFIXLEN );
 		if ( end == std::string::npos ) {
 			start += PREFIXLEN;
 			break;
@@ -443,7 +443,10 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 
 		auto* tmpSym = dynamic_cast<Runtime::Object*>(symbol);
 
-		sourceStr.replace( start, end - start, tmpSym->getValue().toStdString() );
+		const auto value = tmpSym->getValue().toStdString();
+
+		sourceStr.replace( start, end - start, value );
+		start += value.size();	// do not evaluate the inserted text again
 	}
 
 	Runtime::StringType type( sourceStr );
-- 
2.43.0


From 362478b600c327b8b4881068259e85bdaaef94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 087/140] fix: look for imports of a script next to the script
 first

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 8d62926..58a9a52 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -168,13 +168,15 @@ Script* VirtualMachine::createScript(const std::string& content)
 	// load all library references
 	auto libraryImports = analyser.getLibraryReferences();
 	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
+		// first try to resolve relative to the script file
+		bool imported{ !mScriptFile.empty() && loadLibrary( buildFilename( Utils::Tools::Files::ExtractPathname( mScriptFile ), file ), mScriptFile ) };
 
 		for ( const auto& folder : mLibraryFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
-				imported = true;
+			if ( imported ) {
 				break;
 			}
+
+			imported = loadLibrary( buildFilename( folder, file ), mScriptFile );
 		}
 
 		if ( !imported ) {
-- 
2.43.0


From 9f5c1c37197f058c56da56e525c33c2965a54b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:08 +0000
Subject: [PATCH 088/140] fix: process scripts that are imported by their own
 imports only once

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 58a9a52..27ede08 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -232,6 +232,9 @@ Script* VirtualMachine::createScriptFromFile(const std::string& filename)
 	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
 	mScriptFile = Utils::Tools::Files::GetFullname(filename);
 
+	// the script itself must not be processed again if it is imported by another file
+	mImportedLibraries.insert(mScriptFile);
+
 	return createScript(content);
 }
 
-- 
2.43.0


From 4c76a02f2d110eeb1cf77dbc155b7d10225cdc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:41 +0000
Subject: [PATCH 089/140] fix: declare the returned strings of strchr and
 strrchr as strings

---
 Projects/Extensions/LIBC/cstring/strchr.h  | 2 +-
 Projects/Extensions/LIBC/cstring/strrchr.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index c955ca9..179ee27 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -27,7 +27,7 @@ class STRCHR : public ExtensionMethod
 {
 public:
 	STRCHR()
-	: ExtensionMethod( 0, "strchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index b9c8e19..59b5e5d 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -27,7 +27,7 @@ class STRRCHR : public ExtensionMethod
 {
 public:
 	STRRCHR()
-	: ExtensionMethod( 0, "strrchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strrchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
-- 
2.43.0


From 72faf3b2a9cbb982a84b0a2b42e2430dba18dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:27 +0000
Subject: [PATCH 090/140] fix: refuse to use files that are closed or could not
 be opened

---
 Projects/Extensions/LIBC/stdio/fclose.h  |  2 ++
 Projects/Extensions/LIBC/stdio/fopen.h   |  4 +---
 Projects/Extensions/LIBC/stdio/stdio.cpp | 11 ++++++++++-
 Projects/Extensions/LIBC/stdio/stdio.hpp |  2 ++
 Projects/Extensions/LIBC/stdio/tmpfile.h |  4 +---
 5 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fclose.h b/Projects/Extensions/LIBC/stdio/fclose.h
index 0395365..a7e729e 100644
--- a/Projects/Extensions/LIBC/stdio/fclose.h
+++ b/Projects/Extensions/LIBC/stdio/fclose.h
@@ -47,6 +47,8 @@ public:
 		}
 
 		int fileResult = fclose(stdio_t::FileHandles[param_handle]);
+		stdio_t::FileHandles.erase(param_handle);
+
 		if ( fileResult == -1 ) {
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
diff --git a/Projects/Extensions/LIBC/stdio/fopen.h b/Projects/Extensions/LIBC/stdio/fopen.h
index e83874d..ee1e1ec 100644
--- a/Projects/Extensions/LIBC/stdio/fopen.h
+++ b/Projects/Extensions/LIBC/stdio/fopen.h
@@ -49,9 +49,7 @@ public:
 
 		FILE* fileHandle = fopen(param_filename.c_str(), param_accessmode.c_str());
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
-
-			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
+			result_handle = stdio_t::AddFileHandle(fileHandle);
 		}
 
 		*result = Runtime::Int32Type(result_handle);
diff --git a/Projects/Extensions/LIBC/stdio/stdio.cpp b/Projects/Extensions/LIBC/stdio/stdio.cpp
index 7e8210e..32e4bea 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.cpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.cpp
@@ -46,6 +46,16 @@ constexpr int32_t STDIN  = 1;
 constexpr int32_t STDOUT = 2;
 constexpr int32_t STDERR = 3;
 
+int stdio_t::AddFileHandle( FILE* file )
+{
+	// handles are never reused, so that a closed handle stays invalid
+	static int lastHandle{ STDERR };
+
+	FileHandles.insert( std::make_pair( ++lastHandle, file ) );
+
+	return lastHandle;
+}
+
 stdio_t::stdio_t()
 : AExtension( "stdio", "0.2.0" )
 {
@@ -69,7 +79,6 @@ void stdio_t::initialize( ExtensionNamespace* scope )
 	scope->define( "SEEK_END", new Runtime::Int32Type( "SEEK_END", SEEK_END ) );
 
 	// nothing to do here
-	FileHandles[ 0 ]      = nullptr;
 	FileHandles[ STDIN ]  = stdin;
 	FileHandles[ STDOUT ] = stdout;
 	FileHandles[ STDERR ] = stderr;
diff --git a/Projects/Extensions/LIBC/stdio/stdio.hpp b/Projects/Extensions/LIBC/stdio/stdio.hpp
index 32ef80e..4ba251f 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.hpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.hpp
@@ -61,6 +61,8 @@ public:
 
     static FileHandles_t FileHandles;
 
+    static int AddFileHandle( FILE* file );
+
 public:
 	stdio_t();
 	~stdio_t() = default;
diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index a4c112c..0c2237b 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -49,9 +49,7 @@ public:
 
 		FILE* fileHandle = tmpfile();
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
-
-			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
+			result_handle = stdio_t::AddFileHandle(fileHandle);
 		}
 
 		*result = Runtime::Int32Type( result_handle );
-- 
2.43.0


From 580f2193802173fa773a66b5c139b3133578dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:27 +0000
Subject: [PATCH 091/140] fix: declare the file handle that is returned by
 tmpfile

---
 Projects/Extensions/LIBC/stdio/tmpfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index 0c2237b..219532a 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -34,7 +34,7 @@ class TMPFILE : public ExtensionMethod
 {
 public:
 	TMPFILE()
-	: ExtensionMethod(0, "tmpfile", Designtime::VoidType::TYPENAME)
+	: ExtensionMethod(0, "tmpfile", Designtime::Int32Type::TYPENAME)
 	{
 		ParameterList params;
 
-- 
2.43.0


From d57b3cce1798a20efe176fbac3b2aa50f4570cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:27 +0000
Subject: [PATCH 092/140] fix: return complete lines that are longer than the
 read buffer from fgets

---
 Projects/Extensions/LIBC/stdio/fgets.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fgets.h b/Projects/Extensions/LIBC/stdio/fgets.h
index 8b963a2..85f68af 100644
--- a/Projects/Extensions/LIBC/stdio/fgets.h
+++ b/Projects/Extensions/LIBC/stdio/fgets.h
@@ -53,21 +53,28 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
-		int32_t remainingSize{0};
-		while ( remainingSize < param_size ) {
-			auto readSize = param_size - remainingSize;
+		std::string value;
+
+		while ( static_cast<int32_t>( value.size() ) < param_size - 1 ) {
+			auto readSize = param_size - static_cast<int32_t>( value.size() );
 			if ( readSize > READ_SIZE ) {
 				readSize = READ_SIZE;
 			}
 
 			char stream[READ_SIZE];
-			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) != nullptr ) {
-				*result = Runtime::StringType( std::string( stream ) );
+			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) == nullptr ) {
+				break;
 			}
 
-			remainingSize += readSize;
+			value += stream;
+
+			if ( !value.empty() && value.back() == '\n' ) {	// end of line reached
+				break;
+			}
 		}
 
+		*result = Runtime::StringType( value );
+
 		return Runtime::ControlFlow::Normal;
 	}
 };
-- 
2.43.0


From e1ae1160b56fd67a6c5a9e9395ecf5b008efbee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:27 +0000
Subject: [PATCH 093/140] fix: report files that cannot be opened by
 System.IO.File

---
 Projects/Library/System/IO/File.os | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index e5c8088..91317d4 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -94,6 +94,11 @@ public namespace System.IO {
 			mFilename   = filename;
 			mHandle     = fopen( mFilename, mAccessMode );
 
+			if ( !mHandle ) {
+				// file could not be opened
+				return false;
+			}
+
 			fseek( mHandle, 0, SEEK_END );
 			mSize = ftell( mHandle );
 			fseek( mHandle, 0, SEEK_SET );
-- 
2.43.0


From b9b7134893f4c06dfec37277472c0fc1ad794ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:27 +0000
Subject: [PATCH 094/140] fix: return true for successful writes of
 System.IO.File

---
 Projects/Library/System/IO/File.os | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index 91317d4..f3c92ef 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -139,23 +139,23 @@ public namespace System.IO {
 		}
 
 		public bool write( bool value ) {
-			return fwriteb( mHandle, value ) == 0;
+			return fwriteb( mHandle, value ) == 1;
 		}
 
 		public bool write( double value ) {
-			return fwrited( mHandle, value ) == 0;
+			return fwrited( mHandle, value ) == 1;
 		}
 
 		public bool write( float value ) {
-			return fwritef( mHandle, value ) == 0;
+			return fwritef( mHandle, value ) == 1;
 		}
 
 		public bool write( int value ) {
-			return fwritei( mHandle, value ) == 0;
+			return fwritei( mHandle, value ) == 1;
 		}
 
 		public bool write( string value ) {
-			return fwrites( mHandle, value ) == 0;
+			return fwrites( mHandle, value ) >= 0;
 		}
 
 		private string mAccessMode;
-- 
2.43.0


From 8eccf6e323d11ae60d1ac39c6707f6eeae153733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 095/140] fix: report incomplete JSON texts and content behind
 JSON values

---
 Projects/Library/libJson/Reader.os | 18 ++++++++++--------
 Projects/Library/libJson/Token.os  |  2 ++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Projects/Library/libJson/Reader.os b/Projects/Library/libJson/Reader.os
index 854932b..425c781 100644
--- a/Projects/Library/libJson/Reader.os
+++ b/Projects/Library/libJson/Reader.os
@@ -14,15 +14,19 @@ public namespace Json { }
 public object JsonReader {
     public JsonValue parse( string text ) modify throws {
         var tokenizer = new Tokenizer();
-        var tokenIt = tokenizer.parseString( text ).getIterator();
+        var tokens = tokenizer.parseString( text );
 
         JsonValue value;
-        if ( tokenIt.hasNext() ) {
+        if ( !tokens.empty() ) {
+            // mark the end of the text, there has to be a token behind each complete value
+            tokens.push_back( new Token( TokenType.END, "", tokens.last().position ) );
+
+            var tokenIt = tokens.getIterator();
             switch ( tokenIt.next().type ) {
                 case TokenType.BRACKET_OPEN: {
                     value = parseArray( tokenIt );
 
-                    if ( tokenIt.current().type != TokenType.BRACKET_CLOSE ) {
+                    if ( tokenIt.current().type != TokenType.END ) {
                         throw "invalid JSON array";
                     }
                     break;
@@ -30,7 +34,7 @@ public object JsonReader {
                 case TokenType.CURLY_BRACKET_OPEN: {
                     value = parseObject( tokenIt );
 
-                    if ( tokenIt.current().type != TokenType.CURLY_BRACKET_CLOSE ) {
+                    if ( tokenIt.current().type != TokenType.END ) {
                         throw "invalid JSON object";
                     }
                     break;
@@ -38,7 +42,7 @@ public object JsonReader {
                 default: {
                     value = parseValue( tokenIt );
 
-                    if ( tokenIt.hasNext() ) {
+                    if ( tokenIt.current().type != TokenType.END ) {
                         throw "invalid JSON value";
                     }
                     break;
@@ -143,9 +147,7 @@ public object JsonReader {
             throw "required '" + TokenToString( type ) + "' but got '" + TokenToString( t.current().type ) + "' at " + t.current().position.toString();
         }
 
-        if ( t.hasNext() ) {
-            t.next();
-        }
+        t.next();
     }
 }
 
diff --git a/Projects/Library/libJson/Token.os b/Projects/Library/libJson/Token.os
index f117dba..9be52f9 100644
--- a/Projects/Library/libJson/Token.os
+++ b/Projects/Library/libJson/Token.os
@@ -15,6 +15,7 @@ public enum TokenType {
 	COMMA,
 	CURLY_BRACKET_CLOSE,
 	CURLY_BRACKET_OPEN,
+	END,
 	FALSE,
 	IDENTIFIER,
 	NULL,
@@ -33,6 +34,7 @@ public string TokenToString( TokenType type ) {
 		case TokenType.COMMA:			{ return ","; }
 		case TokenType.CURLY_BRACKET_CLOSE:	{ return "}"; }
 		case TokenType.CURLY_BRACKET_OPEN:	{ return "{"; }
+		case TokenType.END:				{ return "END"; }
 		case TokenType.FALSE:			{ return "FALSE"; }
 		case TokenType.IDENTIFIER:		{ return "IDENTIFIER"; }
 		case TokenType.NULL:			{ return "null"; }
-- 
2.43.0


From a0625476ff6af5b13c6243b94a3f5bb7ed8f3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 096/140] fix: report superfluous commas in JSON texts

---
 Projects/Library/libJson/Reader.os | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/libJson/Reader.os b/Projects/Library/libJson/Reader.os
index 425c781..e2ebf65 100644
--- a/Projects/Library/libJson/Reader.os
+++ b/Projects/Library/libJson/Reader.os
@@ -53,7 +53,7 @@ public object JsonReader {
         return value;
     }
 
-    private JsonValue parseArray( Iterator<Token> t ) {
+    private JsonValue parseArray( Iterator<Token> t ) throws {
         var result = new JsonArray();
         
         require( t, TokenType.BRACKET_OPEN );
@@ -65,6 +65,10 @@ public object JsonReader {
                 break;
             }
             require( t, TokenType.COMMA );
+
+            if ( t.current().type == TokenType.BRACKET_CLOSE ) {
+                throw "value expected at " + t.current().position.toString();
+            }
         }
 
         require( t, TokenType.BRACKET_CLOSE );
@@ -89,6 +93,10 @@ public object JsonReader {
                 break;
             }
             require( t, TokenType.COMMA );
+
+            if ( t.current().type == TokenType.CURLY_BRACKET_CLOSE ) {
+                throw "member expected at " + t.current().position.toString();
+            }
         }
 
         require( t, TokenType.CURLY_BRACKET_CLOSE );
-- 
2.43.0


From 3cc7612ea01f274ddb9b8bd907a0e01afc5dadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 097/140] fix: report JSON members without a name

---
 Projects/Library/libJson/Reader.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/libJson/Reader.os b/Projects/Library/libJson/Reader.os
index e2ebf65..7c93d55 100644
--- a/Projects/Library/libJson/Reader.os
+++ b/Projects/Library/libJson/Reader.os
@@ -82,6 +82,10 @@ public object JsonReader {
         require( t, TokenType.CURLY_BRACKET_OPEN );
 
         while ( t.current().type != TokenType.CURLY_BRACKET_CLOSE ) {
+            if ( t.current().type != TokenType.IDENTIFIER && t.current().type != TokenType.STRING ) {
+                throw "member name expected at " + t.current().position.toString();
+            }
+
             string key = t.current().value;
             t.next();
 
-- 
2.43.0


From d24d4922368965ae005446c1902bcc61f231a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 098/140] fix: keep the type of numbers that are read from JSON
 texts

---
 Projects/Library/libJson/Reader.os |  3 ++-
 Projects/Library/libJson/Value.os  | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/libJson/Reader.os b/Projects/Library/libJson/Reader.os
index 7c93d55..18fb22e 100644
--- a/Projects/Library/libJson/Reader.os
+++ b/Projects/Library/libJson/Reader.os
@@ -132,7 +132,8 @@ public object JsonReader {
                 break;
             }
             case TokenType.NUMBER: {
-                value = new JsonValue( token.value );
+                value = new JsonValue();
+                value.setNumber( token.value );
                 t.next();
                 break;
             }
diff --git a/Projects/Library/libJson/Value.os b/Projects/Library/libJson/Value.os
index 8626b30..4a35b5a 100644
--- a/Projects/Library/libJson/Value.os
+++ b/Projects/Library/libJson/Value.os
@@ -154,6 +154,16 @@ public object JsonValue {
 		return mValueType == JsonValueType.String;
 	}
 
+	/*
+	 * Sets a number by its textual representation
+	 */
+	public void setNumber( string value ) modify {
+		mObjectValue = JsonValue null;
+		mValue       = value;
+		mType        = JsonType.Value;
+		mValueType   = JsonValueType.Number;
+	}
+
 	public void setValue( bool value ) modify {
 		mObjectValue = JsonValue null;
 		mValue       = value ? "true" : "false";
-- 
2.43.0


From e5d0459e4fefce489d92b0d216df076259c5460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 099/140] fix: report malformed JSON numbers and read upper
 case exponents

---
 Projects/Library/libJson/Tokenizer.os | 46 +++++++++++++--------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/Projects/Library/libJson/Tokenizer.os b/Projects/Library/libJson/Tokenizer.os
index 2b5642a..97b6a88 100644
--- a/Projects/Library/libJson/Tokenizer.os
+++ b/Projects/Library/libJson/Tokenizer.os
@@ -13,7 +13,7 @@ public namespace Json { }
 public object Tokenizer {
 	public void Constructor() {
 		CHARS = new String( "ABCDEFGHIJKLMNOPRSTUVWXYZabcdefghijklmnoprstuvwxyz_" );
-		DIGITS = new String( "0123456789.-+e" );
+		DIGITS = new String( "0123456789" );
 
 		RESERVED_WORDS = new Vector<Token>();
 		RESERVED_WORDS.push_back( new Token( TokenType.BOOLEAN, "false", Position null ) );
@@ -63,13 +63,29 @@ public object Tokenizer {
 		return new Position( mLine, mColumn );
 	}
 
-	private Token getDigit() modify {
+	private Token getDigit() modify throws {
 		string result;
 
-		while ( isDigit( peek() ) ) {
+		if ( peek() == "-" || peek() == "+" ) {
 			result += consume();
 		}
 
+		result += readDigits();
+
+		if ( peek() == "." ) {
+			result += consume() + readDigits();
+		}
+
+		if ( peek() == "e" || peek() == "E" ) {
+			result += consume();
+
+			if ( peek() == "-" || peek() == "+" ) {
+				result += consume();
+			}
+
+			result += readDigits();
+		}
+
 		return new Token( TokenType.NUMBER, result, getCurrentPos() );
 	}
 
@@ -157,32 +173,16 @@ public object Tokenizer {
 		return "";
 	}
 
-	private string readNumber() modify {
+	private string readDigits() modify throws {
 		string result;
 
 		string char;
-		while ( ( char = peek() ) && isDigit( char ) ) {
+		while ( ( char = peek() ) != "" && isDigit( char ) ) {
 			result += consume();
 		}
 
-		if ( char == "." ) {
-			result += char;
-
-			while ( ( char = peek() ) && isDigit( char ) ) {
-				result += consume();
-			}
-		}
-
-		if ( char == "e" || char == "E" ) {
-			result += char;
-
-			if ( peek() == "." ) {
-				result += consume();
-			}
-
-			while ( ( char = peek() ) && isDigit( char ) ) {
-				result += consume();
-			}
+		if ( result == "" ) {
+			throw new Exception( "digit expected at " + getCurrentPos().toString() );
 		}
 
 		return result;
-- 
2.43.0


From 76fcca23508524c6b3e56e84931c0ed3cbd9ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 100/140] fix: escape strings and member names in JSON texts

---
 Projects/Library/libJson/Object.os |  2 +-
 Projects/Library/libJson/Value.os  | 18 +++++++++++++++++-
 Projects/Library/libJson/Writer.os |  3 ++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/libJson/Object.os b/Projects/Library/libJson/Object.os
index a10947b..99f82b5 100644
--- a/Projects/Library/libJson/Object.os
+++ b/Projects/Library/libJson/Object.os
@@ -96,7 +96,7 @@ public object JsonObject extends JsonValue implements IIterable {
 		string members;
 
 		foreach ( Pair<string, JsonValue> p : mMembers ) {
-			members += ( members ? ", " : "" ) + "\"" + p.first + "\": " + p.second.toString();
+			members += ( members ? ", " : "" ) + JsonQuote( p.first ) + ": " + p.second.toString();
 		}
 
 		return "{ " + members + " }";
diff --git a/Projects/Library/libJson/Value.os b/Projects/Library/libJson/Value.os
index 4a35b5a..e38ac9b 100644
--- a/Projects/Library/libJson/Value.os
+++ b/Projects/Library/libJson/Value.os
@@ -1,5 +1,6 @@
 
 // Library imports
+import System.String;
 
 // Project imports
 import Array;
@@ -25,6 +26,21 @@ public enum JsonValueType {
 }
 
 
+/*
+ * Returns the given text as a JSON string
+ */
+public string JsonQuote( string text ) {
+	var result = new String( text );
+
+	result.ReplaceAll( "\\", "\\\\" );
+	result.ReplaceAll( "\"", "\\\"" );
+	result.ReplaceAll( LINEBREAK_UNIX, "\\n" );
+	result.ReplaceAll( substr( LINEBREAK_DOS, 0, 1 ), "\\r" );
+	result.ReplaceAll( TABULATOR, "\\t" );
+
+	return "\"" + cast<string>( result ) + "\"";
+}
+
 public object JsonValue {
 // Public
 	public void Constructor() {
@@ -224,7 +240,7 @@ public object JsonValue {
 						return mValue ? "true" : "false";
 					}
 					case JsonValueType.String: {
-						return "\"" + mValue + "\"";
+						return JsonQuote( mValue );
 					}
 					default: {
 						return cast<string>( mValue );
diff --git a/Projects/Library/libJson/Writer.os b/Projects/Library/libJson/Writer.os
index 8e06a5f..789e31e 100644
--- a/Projects/Library/libJson/Writer.os
+++ b/Projects/Library/libJson/Writer.os
@@ -5,6 +5,7 @@
 import Array;
 import Exceptions;
 import Object;
+import Value;
 
 
 public namespace Json { }
@@ -45,7 +46,7 @@ public object JsonWriter {
 				result += "," + mWhiteSpaceEnd;
 			}
 
-			result += indent( mIndentation ) + "\"" + p.first + "\": " + toString( p.second );
+			result += indent( mIndentation ) + JsonQuote( p.first ) + ": " + toString( p.second );
 		}
 		mIndentation--;
 
-- 
2.43.0


From d4bddece39c35796f4d096841ec5e2280a2f4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 101/140] fix: read linebreaks and tabulators from JSON strings

---
 Projects/Library/libJson/Tokenizer.os | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/libJson/Tokenizer.os b/Projects/Library/libJson/Tokenizer.os
index 97b6a88..017d068 100644
--- a/Projects/Library/libJson/Tokenizer.os
+++ b/Projects/Library/libJson/Tokenizer.os
@@ -193,10 +193,12 @@ public object Tokenizer {
 		string value;
 		while ( /*ch != "\\" &&*/ ( ch = mCharIterator.peek( 1 ) ) != "\"" ) {
 			if ( ch == "\\" ) {
-				ch = consume();
+				consume();
+				value += unescape( consume() );
+			}
+			else {
+				value += consume();
 			}
-
-			value += consume();
 		}
 
 		consume();			// consume "
@@ -204,6 +206,17 @@ public object Tokenizer {
 		return value;
 	}
 
+	private string unescape( string char ) const {
+		switch ( char ) {
+			case "n": { return LINEBREAK_UNIX; }
+			case "r": { return substr( LINEBREAK_DOS, 0, 1 ); }
+			case "t": { return TABULATOR; }
+			default: { return char; }
+		}
+
+		return char;
+	}
+
 	private void skipWhiteSpace() modify {
 		string c;
 
-- 
2.43.0


From 71b0cdae8d1e457565e1b0e4949a2284868e90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 102/140] fix: return JSON arrays and objects by asArray,
 asObject and asString

---
 Projects/Library/libJson/Array.os  | 8 ++++++++
 Projects/Library/libJson/Object.os | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/Projects/Library/libJson/Array.os b/Projects/Library/libJson/Array.os
index e3f0b93..d72cc7f 100644
--- a/Projects/Library/libJson/Array.os
+++ b/Projects/Library/libJson/Array.os
@@ -30,6 +30,14 @@ public object JsonArray extends JsonValue implements IIterable {
 		mMembers.insert( mMembers.size(), cast<JsonValue>( value ) );
 	}
 
+	public JsonArray asArray() const {
+		return this;
+	}
+
+	public string asString() const {
+		return toString();
+	}
+
 	public Iterator<JsonValue> getIterator() const {
 		return mMembers.getIterator();
 	}
diff --git a/Projects/Library/libJson/Object.os b/Projects/Library/libJson/Object.os
index 99f82b5..0bbda19 100644
--- a/Projects/Library/libJson/Object.os
+++ b/Projects/Library/libJson/Object.os
@@ -69,6 +69,14 @@ public object JsonObject extends JsonValue implements IIterable {
 		mMembers.insert( key, value );
 	}
 
+	public JsonObject asObject() const {
+		return this;
+	}
+
+	public string asString() const {
+		return toString();
+	}
+
 	public Iterator getIterator() const {
 		return mMembers.getIterator();
 	}
-- 
2.43.0


From c01c0611153eff3bc5fe8e71745d14cb1634f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:11 +0000
Subject: [PATCH 103/140] fix: keep the content of JSON values that are set by
 another value

---
 Projects/Library/libJson/Value.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libJson/Value.os b/Projects/Library/libJson/Value.os
index e38ac9b..8bf651d 100644
--- a/Projects/Library/libJson/Value.os
+++ b/Projects/Library/libJson/Value.os
@@ -217,7 +217,7 @@ public object JsonValue {
 
 	public void setValue( JsonValue value ) modify {
 		mObjectValue = value;
-		mValue       = "";
+		mValue       = value.mValue;
 		mType        = value.getType();
 		mValueType   = value.getValueType();
 	}
-- 
2.43.0


From 604d0a7ab6c0fd293926d852907e2a69555077a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:25:37 +0000
Subject: [PATCH 104/140] fix: separate JSON array members if the first one is
 false

---
 Projects/Library/libJson/Array.os  | 2 +-
 Projects/Library/libJson/Object.os | 2 +-
 Projects/Library/libJson/Writer.os | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/libJson/Array.os b/Projects/Library/libJson/Array.os
index d72cc7f..eec8937 100644
--- a/Projects/Library/libJson/Array.os
+++ b/Projects/Library/libJson/Array.os
@@ -50,7 +50,7 @@ public object JsonArray extends JsonValue implements IIterable {
 		string members;
 
 		foreach ( JsonValue value : mMembers ) {
-			members += ( members ? ", " : "" ) + value.toString();
+			members += ( ( members != "" ) ? ", " : "" ) + value.toString();
 		}
 
 		return "[ " + members + " ]";
diff --git a/Projects/Library/libJson/Object.os b/Projects/Library/libJson/Object.os
index 0bbda19..ff64a79 100644
--- a/Projects/Library/libJson/Object.os
+++ b/Projects/Library/libJson/Object.os
@@ -104,7 +104,7 @@ public object JsonObject extends JsonValue implements IIterable {
 		string members;
 
 		foreach ( Pair<string, JsonValue> p : mMembers ) {
-			members += ( members ? ", " : "" ) + JsonQuote( p.first ) + ": " + p.second.toString();
+			members += ( ( members != "" ) ? ", " : "" ) + JsonQuote( p.first ) + ": " + p.second.toString();
 		}
 
 		return "{ " + members + " }";
diff --git a/Projects/Library/libJson/Writer.os b/Projects/Library/libJson/Writer.os
index 789e31e..5a6e648 100644
--- a/Projects/Library/libJson/Writer.os
+++ b/Projects/Library/libJson/Writer.os
@@ -25,7 +25,7 @@ public object JsonWriter {
 		if ( root.size() ) {
 			mIndentation++;
 			foreach ( JsonValue value : root ) {
-				if ( result ) {
+				if ( result != "" ) {
 					result += "," + mWhiteSpaceEnd;
 				}
 
@@ -42,7 +42,7 @@ public object JsonWriter {
 
 		mIndentation++;
 		foreach ( Pair<string, JsonValue> p : root ) {
-			if ( result ) {
+			if ( result != "" ) {
 				result += "," + mWhiteSpaceEnd;
 			}
 
-- 
2.43.0


From 6325d9316d59816e55a0bf4d3bb555c35ab6a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:57 +0000
Subject: [PATCH 105/140] fix: evaluate conditions of breakpoints in the
 reached scope

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ba82d2f..ad810f2 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -684,7 +684,8 @@ bool LocalClient::modifySymbol( const StringList& tokens )
 
 int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 {
-    writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
+    // conditions are evaluated in the scope that has been reached
+    mScope = scope;
 
     // Condition check
     const auto& condition = breakpoint.getCondition();
@@ -704,9 +705,12 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 
     if (  condition.isValid() && !condition.evaluate( lhs, rhs )  ) {
         mContinue = true;
+        mScope = nullptr;
         return 0;
     }
 
+    writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
+
     mSettings->autoStop( false );
 
     return handleBreakpoint( scope, breakpoint );
-- 
2.43.0


From b3b3714bd3f0d0fbb5c7e24ae0c66c331281c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:57 +0000
Subject: [PATCH 106/140] fix: stop at breakpoints while stepping into or out
 of methods

---
 Projects/Core/Debugger/Debugger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index e9e49da..5907cf4 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -109,6 +109,8 @@ void Debugger::notify(IScope* scope, const Token& token)
 		case NextAction::StepOver:
 			stop = true;
 			break;
+		case NextAction::StepInto:
+		case NextAction::StepOut:
 		case NextAction::WaitForBreakPoint:
 			if ( breakIt != mBreakPoints.end() ) {
 				stop = true;
-- 
2.43.0


From 1a5db0cc91105197ad603c78793952ece8570628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:57 +0000
Subject: [PATCH 107/140] fix: ignore unknown breakpoints that are removed from
 the debugger

---
 Projects/Core/Debugger/Debugger.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index 5907cf4..15f8fff 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -168,11 +168,7 @@ bool Debugger::registerReceiver(IReceiver* receiver)
 
 bool Debugger::removeBreakPoint(const BreakPoint& breakpoint)
 {
-	size_t size = mBreakPoints.size();
-
-	mBreakPoints.erase(mBreakPoints.find(breakpoint));
-
-	return size > mBreakPoints.size();
+	return mBreakPoints.erase(breakpoint) > 0;
 }
 
 void Debugger::resume()
-- 
2.43.0


From 5145132672a2f69fb5bac7753de99a68a37f78be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:57 +0000
Subject: [PATCH 108/140] fix: quit the debugger at the end of its input

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ad810f2..56a5cd9 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -924,8 +924,10 @@ std::string LocalClient::read()
 {
 	std::string result;
 
-	getline( std::cin >> std::ws, result );
-	std::cin.clear();
+	if ( !getline( std::cin >> std::ws, result ) ) {
+		// there is nothing left to read
+		return "quit";
+	}
 
 	return result;
 }
-- 
2.43.0


From 791738502a4b96fedfbc8fa1e60ff4af5a252ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:25 +0000
Subject: [PATCH 109/140] fix: let the debugger stop at statements that consist
 of an expression

---
 Projects/Core/Core/AST/Statement.h         | 17 +++++++++++++++++
 Projects/Core/Core/AST/TreeGenerator.cpp   |  6 ++++++
 Projects/Core/Core/AST/TreeInterpreter.cpp |  3 +++
 Projects/Core/Core/AST/TreeVisitor.cpp     |  3 +++
 4 files changed, 29 insertions(+)

diff --git a/Projects/Core/Core/AST/Statement.h b/Projects/Core/Core/AST/Statement.h
index 47e2f7c..e486da0 100644
--- a/Projects/Core/Core/AST/Statement.h
+++ b/Projects/Core/Core/AST/Statement.h
@@ -35,6 +35,7 @@ public:
 			ContinueStatement,
 			DeleteStatement,
 			ExitStatement,
+			ExpressionStatement,
 			ForeachStatement,
 			ForStatement,
 			IfStatement,
@@ -341,6 +342,22 @@ public:
 };
 
 
+class ExpressionStatement : public Statement
+{
+public:
+	ExpressionStatement(const Token& token, Node* exp)
+	: Statement(StatementType::ExpressionStatement, token),
+	  mExpression(exp)
+	{ }
+	~ExpressionStatement() override {
+		delete mExpression;
+	}
+
+public:
+	Node* mExpression;
+};
+
+
 class PrintStatement : public Statement
 {
 public:
diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index b734b7a..1e43ea5 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1950,6 +1950,7 @@ Node* TreeGenerator::process_statement(TokenIterator& token, bool allowBreakAndC
 		return statement;
 	}
 
+	const Token start = (*token);
 	Node* node = nullptr;
 
 	switch ( token->type() ) {
@@ -1980,6 +1981,11 @@ Node* TreeGenerator::process_statement(TokenIterator& token, bool allowBreakAndC
 			throw Designtime::Exceptions::SyntaxError("invalid token '" + token->content() + "' found", token->position());
 	}
 
+	if ( node && node->getNodeType() == Node::NodeType::Expression ) {
+		// make expressions known to the debugger, too
+		node = new ExpressionStatement(start, node);
+	}
+
 	return node;
 }
 
diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 1426ab8..1f27d09 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1274,6 +1274,9 @@ void TreeInterpreter::visitStatement(Statement *node)
 		case Statement::StatementType::ExitStatement:
 			visitExit(dynamic_cast<ExitStatement*>(node));
 			break;
+		case Statement::StatementType::ExpressionStatement:
+			visit(dynamic_cast<ExpressionStatement*>(node)->mExpression);
+			break;
 		case Statement::StatementType::ForeachStatement:
 			visitForeach(dynamic_cast<ForeachStatement *>(node));
 			break;
diff --git a/Projects/Core/Core/AST/TreeVisitor.cpp b/Projects/Core/Core/AST/TreeVisitor.cpp
index b63ffc9..112f32e 100644
--- a/Projects/Core/Core/AST/TreeVisitor.cpp
+++ b/Projects/Core/Core/AST/TreeVisitor.cpp
@@ -210,6 +210,9 @@ void TreeVisitor::visitStatement(Statement *node)
 		case Statement::StatementType::ExitStatement:
 			visitExit(dynamic_cast<ExitStatement*>(node));
 			break;
+		case Statement::StatementType::ExpressionStatement:
+			visit(dynamic_cast<ExpressionStatement*>(node)->mExpression);
+			break;
 		case Statement::StatementType::ForeachStatement:
 			visitForeach(dynamic_cast<ForeachStatement *>(node));
 			break;
-- 
2.43.0


From d5e6d99d21680c8c4ebeb4c7a2a45c388acbd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:09 +0000
Subject: [PATCH 110/140] fix: use the repository index that was downloaded by
 the current command

---
 Projects/slang-pkg/Application/Application.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 7792961..76be3c1 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -695,6 +695,7 @@ void info( const StringList& params )
         collectLocalModuleData();
         if ( !prepareRemoteRepository() ) {
             update();
+            prepareRemoteRepository();
         }
 
         std::string moduleName;
@@ -782,6 +783,7 @@ void install( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+        prepareRemoteRepository();
     }
 
     std::cout << "Preparing dependencies..." << std::endl;
@@ -1423,6 +1425,7 @@ void upgrade( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+        prepareRemoteRepository();
     }
 
     Modules outdatedModules;
-- 
2.43.0


From 54c970ff2922c5699920164cc97d403e52494cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:09 +0000
Subject: [PATCH 111/140] fix: keep the repository index if a download of
 slang-pkg fails

---
 .../slang-pkg/Application/Application.cpp     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 76be3c1..a00e268 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -4,6 +4,7 @@
 
 // Library includes
 #include <algorithm>
+#include <cstdio>
 #include <cstdlib>
 #include <iostream>
 #include <string>
@@ -626,23 +627,31 @@ bool download( const std::string& url, const std::string& target, bool allowClea
     /* send all data to this function  */
     curl_easy_setopt( curl_handle, CURLOPT_WRITEFUNCTION, write_data );
 
+    // keep an already existing target until the download has succeeded
+    auto partial = target + ".part";
+
     /* open the file */
-    pagefile = fopen( target.c_str(), "wb" );
+    pagefile = fopen( partial.c_str(), "wb" );
     if ( pagefile ) {
         /* write the page body to this file handle */
         curl_easy_setopt( curl_handle, CURLOPT_WRITEDATA, pagefile );
 
         /* get it! */
-        curl_easy_perform( curl_handle );
+        auto status = curl_easy_perform( curl_handle );
 
         /* close the header file */
         fclose( pagefile );
 
-        if ( allowCleanup ) {
-            mDownloadedFiles.push_back( target );
-        }
+        if ( status == CURLE_OK && std::rename( partial.c_str(), target.c_str() ) == 0 ) {
+            if ( allowCleanup ) {
+                mDownloadedFiles.push_back( target );
+            }
 
-        result = true;
+            result = true;
+        }
+        else {
+            std::remove( partial.c_str() );
+        }
     }
 
     /* cleanup curl stuff */
-- 
2.43.0


From c89a7aecfa66c7bc11dc58715cbe65a3526ff5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:09 +0000
Subject: [PATCH 112/140] fix: do not upgrade modules in spite of their
 restrictions

---
 Projects/slang-pkg/Application/Application.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index a00e268..dbd1d81 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -789,6 +789,10 @@ void install( const StringList& params )
         return;
     }
 
+    // start over in case we have been called multiple times
+    mLocalRepository     = Repository( "local" );
+    mMissingDependencies = Repository( "missing" );
+
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
-- 
2.43.0


From 925dd7963d43294ce82cdd067f7ec3d61039fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:40 +0000
Subject: [PATCH 113/140] fix: use the newest version of modules that are
 listed several times

---
 Projects/slang-pkg/Common/Repository.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Projects/slang-pkg/Common/Repository.cpp b/Projects/slang-pkg/Common/Repository.cpp
index b0dbd62..4d28e74 100644
--- a/Projects/slang-pkg/Common/Repository.cpp
+++ b/Projects/slang-pkg/Common/Repository.cpp
@@ -20,9 +20,15 @@ Repository::Repository( std::string name )
 
 void Repository::addModule( const Module& module )
 {
-	if ( contains( module ) ) {
-		// prevent duplicates
-		return;
+	auto it = mModules.find( module );
+	if ( it != mModules.end() ) {
+		if ( !( it->mVersion < module.mVersion ) ) {
+			// prevent duplicates
+			return;
+		}
+
+		// a newer version replaces an older one
+		mModules.erase( it );
 	}
 
 	mModules.insert( module );
@@ -64,7 +70,7 @@ bool Repository::processIndex( const Json::Value& value )
 		auto source     = module.isMember( "source" ) ? module[ "source" ].asString() : mURL;
 		auto version    = module[ "version" ].asString();
 
-		mModules.insert( Module( name_short, version, source ) );
+		addModule( Module( name_short, version, source ) );
 	}
 
 	return true;
-- 
2.43.0


From 41105decde8089561ccb1c51dc49645a49e3549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:51 +0000
Subject: [PATCH 114/140] fix: resolve cyclic, outdated and restricted
 dependencies of modules

---
 .../slang-pkg/Application/Application.cpp     | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index dbd1d81..bc99ee6 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -803,6 +803,7 @@ void install( const StringList& params )
 
     bool forceVersion = mSettings.Force;
 
+    // add all requested modules to missing modules to prevent multiple installations of the same modules
     for ( const auto& param : params ) {
         std::string moduleName;
         std::string source;
@@ -822,39 +823,22 @@ void install( const StringList& params )
             forceVersion = true;
         }
 
-        prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) );
+        mMissingDependencies.addModule( Module( moduleName, version, source ) );
     }
 
-    bool allowInstall = true;
-
-    // add all other requested modules to missing modules to prevent multiple installations of the same modules
-    for ( const auto& param : params ) {
-        std::string moduleName;
-        std::string source;
-        std::string version;
-
-        Utils::Tools::splitBy( param, VERSION_SEPARATOR, moduleName, version );
-
-        if ( version.empty() ) {
-            Module tmpModule;
-
-            if ( mRemoteRepository.getModule( moduleName, tmpModule ) ) {
-                source = tmpModule.mSource;
-                version = tmpModule.mVersion.toString();
-            }
-        }
-        else {
-            forceVersion = true;
-        }
+    auto requested = mMissingDependencies.getModules();
+    for ( const auto& module : requested ) {
+        prepareModuleInstallation( mRemoteRepository.getURL(), module );
+    }
 
-        Module missingModule( moduleName, version, source );
+    bool allowInstall = true;
 
+    // neither requested nor dependent modules are allowed to violate a restriction
+    for ( const auto& missingModule : mMissingDependencies.getModules() ) {
         if ( !checkRestrictions( missingModule ) ) {
             allowInstall = false;
             std::cout << "!!! Module " << missingModule.mShortName << "( " << missingModule.mVersion.toString() << " ) cannot be installed due to current module restrictions" << std::endl;
         }
-
-        mMissingDependencies.addModule( missingModule );
     }
 
     if ( allowInstall ) {
@@ -1090,20 +1074,31 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
     for ( const auto& dependency : module.mDependencies ) {
         bool found = false;
 
+        Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
+
         // look up dependency in already installed modules
         for ( const auto& module : localModules ) {
-            if ( module.mShortName == dependency.Module ) {
+            if ( module.mShortName == dependency.Module && !( module.mVersion < dependent.mVersion ) ) {
                 found = true;
                 break;
             }
         }
 
         if ( !found ) {
+            if ( dependency.MinVersion.empty() ) {
+                // any version will do, so use the one that is offered by our repository
+                mRemoteRepository.getModule( dependency.Module, dependent );
+            }
+
+            Module missing;
+            if ( mMissingDependencies.getModule( dependency.Module, missing ) && !( missing.mVersion < dependent.mVersion ) ) {
+                // dependent module has already been prepared
+                continue;
+            }
+
             // dependent module is not yet installed
             std::cout << "Need to install dependent module \"" << dependency.Module << "\"" << std::endl;
 
-            Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
-
             mMissingDependencies.addModule( dependent );
 
             prepareModuleInstallation( repo, dependent );
-- 
2.43.0


From d591ed6eb84865a739d35c46f7867392fe050a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:24 +0000
Subject: [PATCH 115/140] fix: let trigonometric and logb functions take
 numbers instead of strings

---
 Projects/Extensions/LIBC/math/acos.h  | 4 ++--
 Projects/Extensions/LIBC/math/acosh.h | 4 ++--
 Projects/Extensions/LIBC/math/asin.h  | 4 ++--
 Projects/Extensions/LIBC/math/asinh.h | 4 ++--
 Projects/Extensions/LIBC/math/atan.h  | 4 ++--
 Projects/Extensions/LIBC/math/atanh.h | 4 ++--
 Projects/Extensions/LIBC/math/cos.h   | 4 ++--
 Projects/Extensions/LIBC/math/cosh.h  | 4 ++--
 Projects/Extensions/LIBC/math/ilogb.h | 4 ++--
 Projects/Extensions/LIBC/math/logb.h  | 4 ++--
 Projects/Extensions/LIBC/math/sin.h   | 4 ++--
 Projects/Extensions/LIBC/math/sinh.h  | 4 ++--
 Projects/Extensions/LIBC/math/tan.h   | 4 ++--
 Projects/Extensions/LIBC/math/tanh.h  | 4 ++--
 14 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/Projects/Extensions/LIBC/math/acos.h b/Projects/Extensions/LIBC/math/acos.h
index 3c7ef1f..170d37d 100644
--- a/Projects/Extensions/LIBC/math/acos.h
+++ b/Projects/Extensions/LIBC/math/acos.h
@@ -33,7 +33,7 @@ public:
 	: ExtensionMethod(0, "acos", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -61,7 +61,7 @@ public:
 	: ExtensionMethod(0, "acosf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/acosh.h b/Projects/Extensions/LIBC/math/acosh.h
index a9b76d1..0b01ee5 100644
--- a/Projects/Extensions/LIBC/math/acosh.h
+++ b/Projects/Extensions/LIBC/math/acosh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "acosh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "acoshf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/asin.h b/Projects/Extensions/LIBC/math/asin.h
index ab77a96..6eeec28 100644
--- a/Projects/Extensions/LIBC/math/asin.h
+++ b/Projects/Extensions/LIBC/math/asin.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "asin", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "asinf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/asinh.h b/Projects/Extensions/LIBC/math/asinh.h
index 4899097..f6dcfe2 100644
--- a/Projects/Extensions/LIBC/math/asinh.h
+++ b/Projects/Extensions/LIBC/math/asinh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "asinh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "asinhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/atan.h b/Projects/Extensions/LIBC/math/atan.h
index f6ddd63..1492720 100644
--- a/Projects/Extensions/LIBC/math/atan.h
+++ b/Projects/Extensions/LIBC/math/atan.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "atan", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "atanf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/atanh.h b/Projects/Extensions/LIBC/math/atanh.h
index a3372cd..71ffffb 100644
--- a/Projects/Extensions/LIBC/math/atanh.h
+++ b/Projects/Extensions/LIBC/math/atanh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "atanh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "atanhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/cos.h b/Projects/Extensions/LIBC/math/cos.h
index 322f5a0..72ba5c8 100644
--- a/Projects/Extensions/LIBC/math/cos.h
+++ b/Projects/Extensions/LIBC/math/cos.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "cos", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "cosf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/cosh.h b/Projects/Extensions/LIBC/math/cosh.h
index ffd178f..0a1e5a8 100644
--- a/Projects/Extensions/LIBC/math/cosh.h
+++ b/Projects/Extensions/LIBC/math/cosh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "cosh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "coshf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/ilogb.h b/Projects/Extensions/LIBC/math/ilogb.h
index f3901b4..879c62a 100644
--- a/Projects/Extensions/LIBC/math/ilogb.h
+++ b/Projects/Extensions/LIBC/math/ilogb.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "ilogb", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "ilogbf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/logb.h b/Projects/Extensions/LIBC/math/logb.h
index 301d4b2..b208526 100644
--- a/Projects/Extensions/LIBC/math/logb.h
+++ b/Projects/Extensions/LIBC/math/logb.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "logb", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "logbf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/sin.h b/Projects/Extensions/LIBC/math/sin.h
index 2b174f0..f53e6f4 100644
--- a/Projects/Extensions/LIBC/math/sin.h
+++ b/Projects/Extensions/LIBC/math/sin.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "sin", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "sinf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/sinh.h b/Projects/Extensions/LIBC/math/sinh.h
index 1e0e418..2318329 100644
--- a/Projects/Extensions/LIBC/math/sinh.h
+++ b/Projects/Extensions/LIBC/math/sinh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "sinh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "sinhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/tan.h b/Projects/Extensions/LIBC/math/tan.h
index 38ca09f..ffe63b7 100644
--- a/Projects/Extensions/LIBC/math/tan.h
+++ b/Projects/Extensions/LIBC/math/tan.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "tan", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "tanf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/tanh.h b/Projects/Extensions/LIBC/math/tanh.h
index 040ee42..a473f44 100644
--- a/Projects/Extensions/LIBC/math/tanh.h
+++ b/Projects/Extensions/LIBC/math/tanh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "tanh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "tanhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
-- 
2.43.0


From 91daec5eda464379f73fbaaa568026ccada2a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:06 +0000
Subject: [PATCH 116/140] fix: tick the child of the force success and force
 failure decorators

---
 Projects/Library/libBehaviourTree/Decorator.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/libBehaviourTree/Decorator.os b/Projects/Library/libBehaviourTree/Decorator.os
index 5ea9e19..4bd6686 100644
--- a/Projects/Library/libBehaviourTree/Decorator.os
+++ b/Projects/Library/libBehaviourTree/Decorator.os
@@ -33,6 +33,8 @@ public object ForceFailureDecorator extends Decorator {
     public override NodeStatus tick() modify {
         print( "ForceFailureDecorator: " + Name );
 
+        Status = Child.tick();
+
         if ( Status == NodeStatus.Running || Status == NodeStatus.Waiting ) {
             return Status;
         }
@@ -49,6 +51,8 @@ public object ForceSuccessDecorator extends Decorator {
     public override NodeStatus tick() modify {
         print( "ForceSuccessDecorator: " + Name );
 
+        Status = Child.tick();
+
         if ( Status == NodeStatus.Running || Status == NodeStatus.Waiting ) {
             return Status;
         }
-- 
2.43.0


From df568ddd040ef288c83a7a0c5e6453b606ff90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:35 +0000
Subject: [PATCH 117/140] fix: return one for powers with an exponent of zero

---
 Projects/Library/System/Math/Functions.os | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/System/Math/Functions.os b/Projects/Library/System/Math/Functions.os
index 7028f74..ec9ecf0 100644
--- a/Projects/Library/System/Math/Functions.os
+++ b/Projects/Library/System/Math/Functions.os
@@ -9,9 +9,9 @@ public namespace Math {
 	}
 
 	public double power(double value, int exp) {
-		double result = value;
+		double result = 1.0d;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -24,9 +24,9 @@ public namespace Math {
 	}
 
 	public float power(float value, int exp) {
-		float result = value;
+		float result = 1.0f;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -39,9 +39,9 @@ public namespace Math {
 	}
 
 	public int power(int value, int exp) {
-		int result = value;
+		int result = 1;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
-- 
2.43.0


From bab5d06e2c26f65ddc2b65896724057cfe82784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:35 +0000
Subject: [PATCH 118/140] fix: read the last row of CSV files that do not end
 with a linebreak

---
 Projects/Library/libCSVReader/CSVReader.os | 29 ++++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/Projects/Library/libCSVReader/CSVReader.os b/Projects/Library/libCSVReader/CSVReader.os
index d13ce1e..e2f11fe 100644
--- a/Projects/Library/libCSVReader/CSVReader.os
+++ b/Projects/Library/libCSVReader/CSVReader.os
@@ -72,17 +72,8 @@ public object CSVReader implements ICollection, IIterable {
         string line;
         while ( charIt.hasNext() ) {
             if ( ( char = charIt.next() ) == LINEBREAK ) {
-                {   // parse row
-                    var row = new Row();
-
-                    var columnIt = new StringIterator( line, Settings.SEPARATOR );
-                    while ( columnIt.hasNext() ) {
-                        row.push_back( columnIt.next() );
-                    }
-                    line = "";
-
-                    mData.push_back( row );
-                }
+                parseRow( line );
+                line = "";
 
                 if ( headerOnly ) {
                     break;
@@ -94,9 +85,25 @@ public object CSVReader implements ICollection, IIterable {
             line += char;
         }
 
+        if ( line ) {
+            // the last row does not have to end with a linebreak
+            parseRow( line );
+        }
+
         return true;
     }
 
+    private void parseRow( string line ) modify {
+        var row = new Row();
+
+        var columnIt = new StringIterator( line, Settings.SEPARATOR );
+        while ( columnIt.hasNext() ) {
+            row.push_back( columnIt.next() );
+        }
+
+        mData.push_back( row );
+    }
+
     private bool mColumnTitles;
     private Vector<Row> mData;
     private string mFilename;
-- 
2.43.0


From 12f37353d102624168bf7b2ede1c8107f76f7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:33 +0000
Subject: [PATCH 119/140] fix: keep equal signs in the values of parameters

---
 Projects/Library/libParam/ParameterHandler.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libParam/ParameterHandler.os b/Projects/Library/libParam/ParameterHandler.os
index 31609c2..8ce598b 100644
--- a/Projects/Library/libParam/ParameterHandler.os
+++ b/Projects/Library/libParam/ParameterHandler.os
@@ -219,7 +219,7 @@ public object ParameterHandler implements IIterable
 					param = "";
 					break;
 				}
-				case !isString && c == "=": {
+				case !isString && !isValue && c == "=": {
 					isValue = true;
 
 					key = param;
-- 
2.43.0


From 0d3fee082979fa2c3be3d59fb92e0fb895b04141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:28 +0000
Subject: [PATCH 120/140] fix: keep the text of environment variables that are
 set by putenv

---
 Projects/Extensions/System/PutEnv.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/PutEnv.h b/Projects/Extensions/System/PutEnv.h
index 460accd..bc9974c 100644
--- a/Projects/Extensions/System/PutEnv.h
+++ b/Projects/Extensions/System/PutEnv.h
@@ -5,6 +5,7 @@
 
 // Library includes
 #include <cstdlib>
+#include <cstring>
 
 // Project includes
 #include <Core/Designtime/BuildInTypes/StringType.h>
@@ -41,7 +42,7 @@ public:
 
 		std::string param_name = (*it++).value().toStdString();
 
-		*result = Runtime::Int32Type(putenv(const_cast<char*>(param_name.c_str())));
+		*result = Runtime::Int32Type(putenv(strdup(param_name.c_str())));
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 70d132d350c3773bf1a5e3cc407dd85f7ad9ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:41:36 +0000
Subject: [PATCH 121/140] fix: read last CSV rows that consist of blanks

---
 Projects/Library/libCSVReader/CSVReader.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libCSVReader/CSVReader.os b/Projects/Library/libCSVReader/CSVReader.os
index e2f11fe..16b23b8 100644
--- a/Projects/Library/libCSVReader/CSVReader.os
+++ b/Projects/Library/libCSVReader/CSVReader.os
@@ -85,7 +85,7 @@ public object CSVReader implements ICollection, IIterable {
             line += char;
         }
 
-        if ( line ) {
+        if ( strlen( line ) > 0 ) {
             // the last row does not have to end with a linebreak
             parseRow( line );
         }
-- 
2.43.0


From 5179272775b56e89b3a1f3d8ac1a9363f45b1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:42:08 +0000
Subject: [PATCH 122/140] fix: return floats from the float variants of the
 gamma functions

---
 Projects/Extensions/LIBC/math/lgamma.h | 2 +-
 Projects/Extensions/LIBC/math/tgamma.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/math/lgamma.h b/Projects/Extensions/LIBC/math/lgamma.h
index c12ef38..31a0e67 100644
--- a/Projects/Extensions/LIBC/math/lgamma.h
+++ b/Projects/Extensions/LIBC/math/lgamma.h
@@ -72,7 +72,7 @@ public:
 
 		auto param_arg = (*it++).value().toFloat();
 
-		*result = Runtime::DoubleType(lgammaf(param_arg));
+		*result = Runtime::FloatType(lgammaf(param_arg));
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/math/tgamma.h b/Projects/Extensions/LIBC/math/tgamma.h
index 5a6eeb7..d4a48d1 100644
--- a/Projects/Extensions/LIBC/math/tgamma.h
+++ b/Projects/Extensions/LIBC/math/tgamma.h
@@ -72,7 +72,7 @@ public:
 
 		auto param_arg = (*it++).value().toFloat();
 
-		*result = Runtime::DoubleType(tgammaf(param_arg));
+		*result = Runtime::FloatType(tgammaf(param_arg));
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 97313dce0f6d9411a7ab81138717c9b8f7eeaf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:42:08 +0000
Subject: [PATCH 123/140] fix: offer the double variant of the remainder
 function

---
 Projects/Extensions/LIBC/math/math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/LIBC/math/math.cpp b/Projects/Extensions/LIBC/math/math.cpp
index ff5cf2e..05e1873 100644
--- a/Projects/Extensions/LIBC/math/math.cpp
+++ b/Projects/Extensions/LIBC/math/math.cpp
@@ -173,6 +173,7 @@ void math_t::provideMethods( ExtensionMethods& methods )
     methods.push_back( new POW() );
     methods.push_back( new POWF() );
     methods.push_back( new POWL() );
+    methods.push_back( new REMAINDER() );
     methods.push_back( new REMAINDERF() );
     methods.push_back( new RINT() );
     methods.push_back( new RINTF() );
-- 
2.43.0


From f4b20eb71d3f5df37fddad1f4404c1342143a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:20 +0000
Subject: [PATCH 124/140] fix: keep program parameters that are called false

---
 Projects/Library/libParam/ParameterHandler.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libParam/ParameterHandler.os b/Projects/Library/libParam/ParameterHandler.os
index 8ce598b..3299e67 100644
--- a/Projects/Library/libParam/ParameterHandler.os
+++ b/Projects/Library/libParam/ParameterHandler.os
@@ -208,7 +208,7 @@ public object ParameterHandler implements IIterable
 					break;
 				}
 				case !isString && ( c == " " || c == LINEBREAK ): {
-					if ( param || isValue ) {
+					if ( strlen( param ) > 0 || isValue ) {
 						insertParameter( isValue ? key : param, isValue ? param : "" );
 					}
 
-- 
2.43.0


From b711f9fd71ca25c2b3de5335693a027cea71dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:30 +0000
Subject: [PATCH 125/140] fix: reassign variables of a base type with objects
 of another derived class

---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 1fe6689..2026dda 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -103,7 +103,8 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 			return;
 		}
 
-		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) ) {
+		// an object fits if it is an instance of the declared type of our lvalue, whatever it currently refers to
+		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) || rvalue->isInstanceOf( lvalue->QualifiedOuterface() ) ) {
 			lvalue->assign( *rvalue );
 			return;
 		}
-- 
2.43.0


From 6c7eb077b4acf21234c7d781af330ef1863a578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:37 +0000
Subject: [PATCH 126/140] fix: do not abort when a failing program still holds
 objects

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index 72828c2..c3ce3d7 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -68,7 +68,7 @@ void Memory::deinit()
 		delete object;
 	}
 
-	mMemory.clear();
+	// the addresses stay known, the frames of a program that has been stopped may still reference them
 }
 
 void Memory::deleteObject(const Runtime::Reference& ref)
-- 
2.43.0


From 3275ce9ad944afe3119069e240b8e497d5f58186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:45 +0000
Subject: [PATCH 127/140] fix: do not crash when a failure happens inside of an
 iterator

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 1f27d09..736f390 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -237,11 +237,14 @@ void TreeInterpreter::evaluateInScope(IScope* scope, Node* exp, Runtime::Object*
 {
 	pushScope(scope);
 
+	// a failure inside of a call leaves the frame of this call behind, so keep the one our scope belongs to
+	auto* frame = mFrame;
+
 	try {
 		evaluate(exp, result);
 	}
 	catch ( ... ) {
-		popScope();
+		frame->popScope();
 		throw;
 	}
 
-- 
2.43.0


From b37148fc9df830e37b34c52c899a3b54162e59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:53 +0000
Subject: [PATCH 128/140] fix: allow to call subscript operators that modify
 their object

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 1e43ea5..0ec22d2 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1918,7 +1918,7 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 		inner = inner->mSymbolExpression;
 	}
 
-	inner->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
+	inner->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", symbol->isConst(), true, obj->isAtomicType());
 	inner->mSymbolExpression->mSurroundingScope = obj;
 
 	const Token opToken(Token::Category::Operator, Token::Type::BRACKET_OPEN, "[", token->position(), false);
-- 
2.43.0


From 8fd6a37c77b7fb0dff3194633cbf5b524b5f2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:53 +0000
Subject: [PATCH 129/140] fix: allow foreach and chained operators in static
 methods

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 0ec22d2..c694d84 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1399,7 +1399,7 @@ Statement* TreeGenerator::process_foreach(TokenIterator& token)
 			SymbolExpression* expr = new DesigntimeSymbolExpression(getIteratorMethod->getName(), getIteratorMethod->QualifiedTypename(), PrototypeConstraints(), false);
 			expr->mSurroundingScope = collection;
 
-			getIteratorExpression = process_method(expr, *token, ExpressionList());
+			getIteratorExpression = process_method(expr, *token, ExpressionList(), true);
 		}
 	}
 
@@ -1411,14 +1411,14 @@ Statement* TreeGenerator::process_foreach(TokenIterator& token)
 		SymbolExpression* expr = new DesigntimeSymbolExpression("hasNext", _bool, PrototypeConstraints(), true);
 		expr->mSurroundingScope = iterator;
 
-		hasNextExpression = process_method(expr, *token, ExpressionList());
+		hasNextExpression = process_method(expr, *token, ExpressionList(), true);
 	}
 
 	{	// look up "next" method in given iterator
 		SymbolExpression* expr = new DesigntimeSymbolExpression("next", typeDeclaration->mType, PrototypeConstraints(), false);
 		expr->mSurroundingScope = iterator;
 
-		nextExpression = process_method(expr, *token, ExpressionList());
+		nextExpression = process_method(expr, *token, ExpressionList(), true);
 
 		// validate result type
 		//resolveType(typeDeclaration->mType, Token(Token::Category::Operator, Token::Type::ASSIGN, "=", token->position()), nextExpression->getResultType());
@@ -1604,7 +1604,7 @@ Expression* TreeGenerator::process_operator(Expression* lhs, const Token& operat
 	ExpressionList params;
 	params.emplace_back(rhs);
 
-	MethodExpression* method = process_method(symbol, operation, params);
+	MethodExpression* method = process_method(symbol, operation, params, true);
 
 	return new ScopeExpression(lhs, method, method->getResultType());
 }
-- 
2.43.0


From cd0ad4beb561e79ff55b09dd08b25c7198f51da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:26:37 +0000
Subject: [PATCH 130/140] fix: append to the log file in AppendingFileLogger

---
 Projects/Library/libLog/Context.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libLog/Context.os b/Projects/Library/libLog/Context.os
index 7d3c24e..1d7d555 100644
--- a/Projects/Library/libLog/Context.os
+++ b/Projects/Library/libLog/Context.os
@@ -8,7 +8,7 @@ import IContext;
 
 public object FileContext implements IContext {
 	public void Constructor(string filename, bool append = false) {
-		mFile = new System.IO.File(filename, append ? System.IO.File.AccessMode.WriteUpdate : System.IO.File.AccessMode.WriteOnly);
+		mFile = new System.IO.File(filename, append ? System.IO.File.AccessMode.Append : System.IO.File.AccessMode.WriteOnly);
 	}
 
 	public void Destructor() {
-- 
2.43.0


From 12e022b2338d4d66644039ca2d59607293299fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:26:42 +0000
Subject: [PATCH 131/140] fix: end each message in a log file with a line break

---
 Projects/Library/libLog/Context.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libLog/Context.os b/Projects/Library/libLog/Context.os
index 1d7d555..a9fc6b3 100644
--- a/Projects/Library/libLog/Context.os
+++ b/Projects/Library/libLog/Context.os
@@ -18,7 +18,7 @@ public object FileContext implements IContext {
 	}
 
 	public void write(string message) modify {
-		mFile.write(message);
+		mFile.write(message + LINEBREAK);
 	}
 
 	private System.IO.File mFile;
-- 
2.43.0


From ea4969229a0f4c4e2ff83ed1d4475cc7a6c97426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:26:49 +0000
Subject: [PATCH 132/140] fix: let the time zone decide about daylight saving
 time in strptime

---
 Projects/Extensions/System/Strings/StrPTime.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/System/Strings/StrPTime.h b/Projects/Extensions/System/Strings/StrPTime.h
index 561188d..d739b4e 100644
--- a/Projects/Extensions/System/Strings/StrPTime.h
+++ b/Projects/Extensions/System/Strings/StrPTime.h
@@ -46,6 +46,7 @@ public:
 		std::string param_time = (*it++).value().toStdString();
 
 		tm tm{};
+		tm.tm_isdst = -1;	// the time zone decides about daylight saving time
 
 		if ( strptime(param_time.c_str(), param_format.c_str(), &tm ) ) {
 			auto time = mktime( &tm );
-- 
2.43.0


From 8373fccb5f806ec94ec06c202bda00aeed65c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:26:57 +0000
Subject: [PATCH 133/140] fix: do not repeat pending output in forked processes

---
 Projects/Extensions/System/Fork.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Extensions/System/Fork.h b/Projects/Extensions/System/Fork.h
index 7036b24..97377a0 100644
--- a/Projects/Extensions/System/Fork.h
+++ b/Projects/Extensions/System/Fork.h
@@ -4,6 +4,8 @@
 
 
 // Library includes
+#include <cstdio>
+#include <iostream>
 #include <unistd.h>
 
 // Project includes
@@ -34,6 +36,10 @@ public:
 public:
 	Runtime::ControlFlow::E execute( const ParameterList& /*params*/, Runtime::Object* result )
 	{
+		// pending output belongs to the calling process only
+		std::cout.flush();
+		fflush(nullptr);
+
 		*result = Runtime::Int32Type(fork());
 
 		return Runtime::ControlFlow::Normal;
-- 
2.43.0


From fdfe3c82a40bce44af1f33b252f3a758014def7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:27:04 +0000
Subject: [PATCH 134/140] fix: return a defined status if waitpid fails

---
 Projects/Extensions/System/WaitPID.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/WaitPID.h b/Projects/Extensions/System/WaitPID.h
index 2270b76..0d5fdc8 100644
--- a/Projects/Extensions/System/WaitPID.h
+++ b/Projects/Extensions/System/WaitPID.h
@@ -42,7 +42,7 @@ public:
 		auto param_pid = (*it++).value().toInt();
 		auto param_options = (*it++).value().toInt();
 
-		int status;
+		int status = -1;
 		/*param_pid =*/ waitpid( param_pid, &status, param_options );
 
 		*result = Runtime::Int32Type( status );
-- 
2.43.0


From eee12a90ab78381e907d807fb019e31d55c7ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:48 +0000
Subject: [PATCH 135/140] fix: report failures while reading text from a handle

---
 Projects/Extensions/System/Network/Read.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/Network/Read.h b/Projects/Extensions/System/Network/Read.h
index 0b0fa2c..08465b3 100644
--- a/Projects/Extensions/System/Network/Read.h
+++ b/Projects/Extensions/System/Network/Read.h
@@ -184,7 +184,7 @@ public:
 
 			long size = read(param_handle, &charValue, sizeof(char));
 			if ( size == -1 ) {    // error while reading
-				return Runtime::ControlFlow::Throw;
+				throw Runtime::Exceptions::RuntimeException("error while reading handle");
 			}
 			if ( size == 0 ) {	// EOF reached
 				break;
-- 
2.43.0


From c4d83e27051e1c3149e022dd1998dddb2aed5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:55 +0000
Subject: [PATCH 136/140] fix: return the number of bytes that were written to
 a handle

---
 Projects/Extensions/System/Network/Write.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/Network/Write.h b/Projects/Extensions/System/Network/Write.h
index fc206a8..77021e1 100644
--- a/Projects/Extensions/System/Network/Write.h
+++ b/Projects/Extensions/System/Network/Write.h
@@ -193,7 +193,7 @@ public:
 			count++;
 		}
 
-		*result = Runtime::Int32Type( static_cast<int32_t>( size ) );
+		*result = Runtime::Int32Type( static_cast<int32_t>( count ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From f64a483b6087409a3c8fc357e1366301bb089703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:43:33 +0000
Subject: [PATCH 137/140] fix: do not instantiate objects that are declared as
 abstract

---
 Projects/Core/Core/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index b0a9fc9..5dd4656 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -321,7 +321,7 @@ bool Object::isAbstract() const
 		}
 	}
 
-	return mBluePrintType == BlueprintType::Interface;
+	return mBluePrintType == BlueprintType::Interface || (mBluePrint && mBluePrint->isAbstract());
 }
 
 bool Object::isAtomicType() const
-- 
2.43.0


From 6cb6fbcdb68a4406190a353e81022f0bc1134458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:43:41 +0000
Subject: [PATCH 138/140] fix: do not allow to extend final objects

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 6aad3bf..2766ef4 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -357,6 +357,10 @@ void BluePrintObject::prepareParents(Repository* repository)
 			throw Exceptions::DesigntimeException("Circular inheritance detected for type '" + QualifiedTypename() + "'!");
 		}
 
+		if ( it.ancestorType() == Ancestor::Type::Extends && parent->isSealed() ) {
+			throw Exceptions::DesigntimeException("'" + QualifiedTypename() + "' cannot extend final type '" + parent->QualifiedTypename() + "'!");
+		}
+
 		if ( !parent->isPrepared() ) {
 			// recursively prepare parent objects
 			parent->prepareParents(repository);
-- 
2.43.0


From 7abf9792c50c7f4cfa8b7f348423a4ba91f872c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:47:52 +0000
Subject: [PATCH 139/140] fix: find all ancestors of replicas and of
 instantiated prototypes

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 10 +++++++++-
 Projects/Core/Core/VirtualMachine/Repository.cpp  |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 2766ef4..3513122 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -366,9 +366,17 @@ void BluePrintObject::prepareParents(Repository* repository)
 			parent->prepareParents(repository);
 		}
 
+		if ( it.ancestorType() == Ancestor::Type::Extends && mSymbols.find(IDENTIFIER_BASE) == mSymbols.end() ) {
+			define(IDENTIFIER_BASE, parent);
+		}
+
 		// locally define parent's public and protected symbols
 		Symbols symbols = parent->provideSymbols();
 		for ( Symbols::const_iterator symIt = symbols.begin(); symIt != symbols.end(); ++symIt ) {
+			if ( symIt->first == IDENTIFIER_BASE || (it.ancestorType() == Ancestor::Type::Replicates && symIt->second->getSymbolType() == Symbol::IType::BluePrintObjectSymbol) ) {
+				// our own base and copies of replicated members already exist
+				continue;
+			}
 			if ( symIt->second->getVisibility() >= Visibility::Protected ) {
 				defineExternal(symIt->first, symIt->second);
 			}
@@ -434,7 +442,7 @@ BluePrintObject* BluePrintObject::replicate(const std::string& newType, const st
 
 	// replicate members
 	for ( const auto& mSymbol : mSymbols ) {
-		if ( mSymbol.second->getSymbolType() != Symbol::IType::BluePrintObjectSymbol ) {
+		if ( mSymbol.first == IDENTIFIER_BASE || mSymbol.second->getSymbolType() != Symbol::IType::BluePrintObjectSymbol ) {
 			continue;
 		}
 
diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 217ef80..0ddf129 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -503,7 +503,9 @@ void Repository::initializeBlueprints()
 
 			switch ( ancestor.ancestorType() ) {
 				case Designtime::Ancestor::Type::Extends: {
-					blueprint->define(IDENTIFIER_BASE, base);
+					if ( !blueprint->isPrepared() ) {
+						blueprint->define(IDENTIFIER_BASE, base);
+					}
 				} break;
 				case Designtime::Ancestor::Type::Hidden: {
 					// ignore hidden ancestors
-- 
2.43.0


From b02dbb76edd793115bcc3b8910e37c88cd14c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:49:09 +0000
Subject: [PATCH 140/140] fix: allow several nested types in prototypes and
 replicas

---
 Projects/Core/Core/AST/TreeGenerator.cpp          | 9 ++++++++-
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c694d84..fe2febe 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -675,7 +675,14 @@ void TreeGenerator::processBluePrint(const Designtime::BluePrintObject* object)
 		return;
 	}
 	if ( !object->getPrototypeConstraints().empty() ) {
-		// skip prototypes
+		// skip prototypes but process their nested types
+		for ( auto it = object->beginSymbols(); it != object->endSymbols(); ++it ) {
+			auto* nested = dynamic_cast<Designtime::BluePrintObject*>(it->second);
+
+			if ( nested && it->first != IDENTIFIER_BASE && nested->getName() == ANONYMOUS_OBJECT ) {
+				processBluePrint(nested);
+			}
+		}
 		return;
 	}
 
diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 3513122..6a7c463 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -448,6 +448,12 @@ BluePrintObject* BluePrintObject::replicate(const std::string& newType, const st
 
 		auto* blue = dynamic_cast<BluePrintObject*>(mSymbol.second);
 
+		if ( blue->getName() == ANONYMOUS_OBJECT ) {
+			// nested types are shared with our original
+			replica->defineExternal(mSymbol.first, blue);
+			continue;
+		}
+
 		auto* member = new BluePrintObject(blue->QualifiedTypename(), blue->Filename(), blue->getName());
 		member->setBluePrintType(BlueprintType::Enum);
 		member->setLanguageFeatureState(blue->getLanguageFeatureState());
-- 
2.43.0


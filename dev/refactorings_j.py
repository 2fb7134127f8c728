"""Further edits that keep the behaviour: algorithms instead of loops, helpers shared by two places, tables instead of branches."""
from refactorings import edit

C = 'Projects/Core/Core/'
VM = C + 'VirtualMachine/VirtualMachine.cpp'
VMH = C + 'VirtualMachine/VirtualMachine.h'
SC = C + 'Scope.cpp'
TI = C + 'AST/TreeInterpreter.cpp'
TIH = C + 'AST/TreeInterpreter.h'
TG = C + 'AST/TreeGenerator.cpp'
RP = C + 'VirtualMachine/Repository.cpp'
DB = 'Projects/Core/Debugger/Debugger.cpp'

edit('j-vm-import-helper',
     (VM, '''	for ( const auto& file : libraryImports ) {
		bool imported{ false };

		for ( const auto& folder : mLibraryFolders ) {
			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
				imported = true;
				break;
			}
		}

		if ( !imported ) {
			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
		}
	}
''', '''	for ( const auto& file : libraryImports ) {
		if ( !importFrom( mLibraryFolders, file, mScriptFile ) ) {
			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
		}
	}
'''),
     (VM, '''		bool imported{ false };

		for ( const auto& folder : librariesFolders ) {
			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
				imported = true;
				break;
			}
		}

		if ( !imported ) {
''', '''		if ( !importFrom( librariesFolders, file, library ) ) {
'''),
     (VM, '''Script* VirtualMachine::createScript(const std::string& content)
''', '''bool VirtualMachine::importFrom(const OrderedStringSet& folders, const std::string& file, const std::string& source)
{
	for ( const auto& folder : folders ) {
		if ( loadLibrary( buildFilename( folder, file ), source ) ) {
			return true;
		}
	}

	return false;
}

Script* VirtualMachine::createScript(const std::string& content)
'''),
     (VMH, '''	Script* createScript(''', '''	bool importFrom(const OrderedStringSet& folders, const std::string& file, const std::string& source);
	Script* createScript('''))
edit('j-vm-import-anyof',
     (VM, "// Library includes\n", "// Library includes\n#include <algorithm>\n"),
     (VM, '''		bool imported{ false };

		for ( const auto& folder : mLibraryFolders ) {
			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
				imported = true;
				break;
			}
		}
''', '''		const bool imported = std::any_of( mLibraryFolders.begin(), mLibraryFolders.end(), [&]( const std::string& folder ) {
			return loadLibrary( buildFilename( folder, file ), mScriptFile );
		} );
'''))
edit('j-scope-findif',
     (SC, '''	for ( auto& method : mMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}

	for ( auto& method : mExternalMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}
''', '''	const auto fits = [&](const Common::Method* method) {
		return method->getVisibility() >= visibility && method->getName() == name && method->isSignatureValid(params);
	};

	for ( auto& method : mMethods ) {
		if ( fits(method) ) {
			return method;
		}
	}

	for ( auto& method : mExternalMethods ) {
		if ( fits(method) ) {
			return method;
		}
	}
'''))
edit('j-scope-find-algorithm',
     (SC, '''	for ( auto& method : mMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}
''', '''	const auto found = std::find_if(mMethods.begin(), mMethods.end(), [&](const Common::Method* method) {
		return method->getVisibility() >= visibility && method->getName() == name && method->isSignatureValid(params);
	});
	if ( found != mMethods.end() ) {
		return *found;
	}
'''),
     (SC, '''// Library includes
''', '''// Library includes
#include <algorithm>
'''))
edit('j-scope-symbol-helper',
     (SC, '''Symbol* SymbolScope::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{
	// look up in local symbols
	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in external symbols
	it = mExternalSymbols.find(name);
	if ( it != mExternalSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}
''', '''static Symbol* lookup(const Symbols& symbols, const std::string& name, Visibility::E visibility)
{
	const auto it = symbols.find(name);
	if ( it == symbols.end() || it->second->getVisibility() < visibility ) {
		return nullptr;
	}

	return it->second;
}

Symbol* SymbolScope::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{
	if ( Symbol* local = lookup(mSymbols, name, visibility) ) {
		return local;
	}
	if ( Symbol* external = lookup(mExternalSymbols, name, visibility) ) {
		return external;
	}
'''))
edit('j-foreach-switch-if',
     (TI, '''			visit(node->mStatement);

		popScope();		// pop scope and remove loop variable

		// check (and reset) control flow
		switch ( mControlFlow ) {
			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
		}
''', '''			visit(node->mStatement);

		popScope();		// pop scope and remove loop variable

		const bool leave = mControlFlow != Runtime::ControlFlow::Continue && mControlFlow != Runtime::ControlFlow::Normal;

		// break and continue end here
		if ( mControlFlow == Runtime::ControlFlow::Break || mControlFlow == Runtime::ControlFlow::Continue ) {
			mControlFlow = Runtime::ControlFlow::Normal;
		}
		if ( leave ) {
			return;
		}
'''))
edit('j-foreach-while',
     (TI, '''	for  ( ; ; ) {
		// Setup
		// {
		Runtime::Object condition;

		pushScope(&iterator);

			tryControlPopScope(evaluateMethodExpression(node->mHasNextExpression, &condition));

		popScope();

		if ( !isTrue(condition) ) {	// do we have more items to iterate over?
			break;
		}
		// }
''', '''	while ( true ) {
		Runtime::Object hasNext;

		pushScope(&iterator);
			tryControlPopScope(evaluateMethodExpression(node->mHasNextExpression, &hasNext));
		popScope();

		if ( !isTrue(hasNext) ) {
			return;
		}
'''))
edit('j-switch-helper',
     (TI, '''		// inspect control flow after the complete iteration
		switch ( mControlFlow ) {
			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;		// no further processing, reset current control flow state
			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;	// continue loop, reset current control flow state
			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; return;		// no further processing, reset current control flow state
			case Runtime::ControlFlow::ExitProgram:
			case Runtime::ControlFlow::Return:
			case Runtime::ControlFlow::Throw: return;													// no further processing, keep current control flow state
		}
	} while ( mControlFlow == Runtime::ControlFlow::Normal );
''', '''		if ( mControlFlow == Runtime::ControlFlow::Break ) {
			mControlFlow = Runtime::ControlFlow::Normal;
			break;
		}
		if ( mControlFlow != Runtime::ControlFlow::Continue ) {
			break;
		}

		mControlFlow = Runtime::ControlFlow::Normal;
	} while ( true );
'''))
edit('j-switch-find',
     (TI, '''		for ( auto& stmt : node->mCaseStatements ) {
			Runtime::Object caseValue;
			tryControl(evaluate(stmt->mCaseExpression, &caseValue));

			// check if our switch-expression and our case-expression match
			if ( Runtime::operator_binary_equal(&value, &caseValue) ) {
				caseMatched = true;

				// both expressions matched, so we need to execute this case-block
				visitStatements(stmt->mCaseBlock);
				break;
			}
		}

		// no matching case statement found => execute default statement
		if ( !caseMatched ) {
			visitStatements(node->mDefaultStatement);
		}
''', '''		Statements* block = node->mDefaultStatement;
		for ( auto& stmt : node->mCaseStatements ) {
			Runtime::Object caseValue;
			tryControl(evaluate(stmt->mCaseExpression, &caseValue));

			if ( Runtime::operator_binary_equal(&value, &caseValue) ) {
				block = stmt->mCaseBlock;
				break;
			}
		}

		visitStatements(block);
'''),
     (TI, '''		// reset this for every loop
		bool caseMatched = false;

''', ''))
edit('j-try-helper',
     (TI, '''		// determine correct catch-block (if a correct one exists)
		for ( auto& stmt : node->mCatchStatements ) {
			// check if we have a catch-block with a given type that matches the thrown exception type
			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
				// exception type does not match
				continue;
			}
''', '''		const auto handles = [exception](const CatchStatement* stmt) {
			if ( !stmt->mTypeDeclaration ) {
				return true;
			}

			return exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType);
		};

		// determine correct catch-block (if a correct one exists)
		for ( auto& stmt : node->mCatchStatements ) {
			if ( !handles(stmt) ) {
				continue;
			}
'''))
edit('j-try-catch-method',
     (TI, '''			// push a new scope to be able to clean up the exception variable
			pushScope();

			// process exception type declaration (if present)
			if ( stmt->mTypeDeclaration ) {
				// retrieve exception instance variable
				Runtime::Object* symbol = visitTypeDeclaration(stmt->mTypeDeclaration);

				// assign exception to instance variable
				Runtime::operator_binary_assign(symbol, exception);
			}

			// notify our debugger that an exception has been caught
			DEBUGGER( notifyExceptionCatch(getScope(), stmt->token()) );

			// reset current control flow to allow execution of catch block
			mControlFlow = Runtime::ControlFlow::Normal;

			// execute statements of catch-block
			visitStatements(stmt->mStatements);

			// pop scope to get rid of the exception variable
			popScope();

			// only process one catch-block
			break;
''', '''			executeCatch(stmt, exception);
			break;
'''),
     (TI, '''void TreeInterpreter::visitTry(TryStatement* node)
''', '''void TreeInterpreter::executeCatch(CatchStatement* stmt, Runtime::Object* exception)
{
	pushScope();

	if ( stmt->mTypeDeclaration ) {
		Runtime::operator_binary_assign(visitTypeDeclaration(stmt->mTypeDeclaration), exception);
	}

	DEBUGGER( notifyExceptionCatch(getScope(), stmt->token()) );

	mControlFlow = Runtime::ControlFlow::Normal;
	visitStatements(stmt->mStatements);

	popScope();
}

void TreeInterpreter::visitTry(TryStatement* node)
'''),
     (TIH, '''	void visitTry(''', '''	void executeCatch(CatchStatement* stmt, Runtime::Object* exception);
	void visitTry('''))
edit('j-try-finally',
     (TI, '''	// store current control flow and re-set it after finally block has been executed
	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;

	// execute finally-block if present
	if ( node->mFinallyBlock ) {
		// reset current control flow to allow execution of finally-block
		mControlFlow = Runtime::ControlFlow::Normal;

		visitStatements(node->mFinallyBlock);
	}

	// reset control flow to previous state if not set differently by finally statement
	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
		mControlFlow = tmpControlFlow;
	}
''', '''	if ( node->mFinallyBlock ) {
		const Runtime::ControlFlow::E pending = mControlFlow;
		mControlFlow = Runtime::ControlFlow::Normal;

		visitStatements(node->mFinallyBlock);

		if ( mControlFlow == Runtime::ControlFlow::Normal ) {
			mControlFlow = pending;
		}
	}
'''))
edit('j-repo-constraints-range',
     (RP, '''	for ( PrototypeConstraints::const_iterator constIt = constraints.begin(); constIt != constraints.end(); ++constIt ) {
		Designtime::BluePrintObject* generic = findBluePrintObject(constIt->mRunType);

		if ( !generic ) {
			throw Common::Exceptions::UnknownIdentifier(constIt->mRunType + " is unknown");
		}
		if ( !constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !generic->inheritsFrom(constIt->mConstraint) ) {
			throw Common::Exceptions::TypeMismatch(constIt->mRunType + " is no or does not inherit from " + constIt->mConstraint);
		}

		initBluePrintObject(generic);
	}
''', '''	for ( const auto& constraint : constraints ) {
		auto* generic = findBluePrintObject(constraint.mRunType);
		if ( !generic ) {
			throw Common::Exceptions::UnknownIdentifier(constraint.mRunType + " is unknown");
		}

		const bool satisfied = constraint.mConstraint.empty()
							|| generic->QualifiedTypename() == constraint.mConstraint
							|| generic->inheritsFrom(constraint.mConstraint);
		if ( !satisfied ) {
			throw Common::Exceptions::TypeMismatch(constraint.mRunType + " is no or does not inherit from " + constraint.mConstraint);
		}

		initBluePrintObject(generic);
	}
'''))
edit('j-dbg-notify-flat',
     (DB, '''	BreakPoint breakpoint(token.position());
	auto breakIt = mBreakPoints.find(breakpoint);

	bool stop = false;

	switch ( mNextAction ) {
		case NextAction::StepOver:
			stop = true;
			break;
		case NextAction::WaitForBreakPoint:
			if ( breakIt != mBreakPoints.end() ) {
				stop = true;
				breakpoint = *breakIt;
			}
			break;
		default:
			break;
	}

	if ( stop ) {
		mReceiver->notify(scope, breakpoint);
	}
''', '''	if ( mNextAction == NextAction::StepOver ) {
		mReceiver->notify(scope, BreakPoint(token.position()));
	}
	else if ( mNextAction == NextAction::WaitForBreakPoint ) {
		const auto found = mBreakPoints.find(BreakPoint(token.position()));
		if ( found != mBreakPoints.end() ) {
			mReceiver->notify(scope, *found);
		}
	}
'''))
edit('j-dbg-add',
     (DB, '''	auto it = mBreakPoints.find(breakpoint);

	if ( it != mBreakPoints.end() ) {
		mBreakPoints.erase(it);
	}

	mBreakPoints.insert(breakpoint);
''', '''	mBreakPoints.erase(breakpoint);
	mBreakPoints.insert(breakpoint);
'''))
edit('j-dbg-remove',
     (DB, '''	return mBreakPoints.erase(breakpoint) > 0;
''', '''	const auto it = mBreakPoints.find(breakpoint);
	if ( it == mBreakPoints.end() ) {
		return false;
	}

	mBreakPoints.erase(it);
	return true;
'''))
edit('j-gen-condition-normalize',
     (TG, '''		if ( op == Token::Type::COMPARE_EQUAL_CONTENT ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
		else if ( op == Token::Type::COMPARE_UNEQUAL ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
		else if ( op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
''', '''		const bool content = op == Token::Type::COMPARE_EQUAL_CONTENT || op == Token::Type::COMPARE_UNEQUAL_CONTENT;
		if ( content || op == Token::Type::COMPARE_UNEQUAL ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
'''),
     (TG, '''			if ( op == Token::Type::COMPARE_EQUAL_CONTENT || op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
				// content''', '''			if ( content ) {
				// content'''))
edit('j-gen-expression-table',
     (TG, '''		const Token::Type::E op = start->type();
		if ( op != Token::Type::BITAND &&
			 op != Token::Type::BITCOMPLEMENT &&
			 op != Token::Type::BITOR &&
			 op != Token::Type::MATH_ADDITION &&
			 op != Token::Type::MATH_SUBTRACT &&
			 op != Token::Type::OPERATOR_SHIFT_LEFT &&
			 op != Token::Type::OPERATOR_SHIFT_RIGHT ) {
			return expr;
		}
''', '''		switch ( start->type() ) {
			case Token::Type::BITAND:
			case Token::Type::BITCOMPLEMENT:
			case Token::Type::BITOR:
			case Token::Type::MATH_ADDITION:
			case Token::Type::MATH_SUBTRACT:
			case Token::Type::OPERATOR_SHIFT_LEFT:
			case Token::Type::OPERATOR_SHIFT_RIGHT:
				break;
			default:
				return expr;
		}
'''))
edit('j-gen-switch-enum',
     (TG, '''			const size_t available = std::distance(blueprint->beginSymbols(), blueprint->endSymbols());
			const size_t used = caseStatements.size();

			if ( available > used ) {''', '''			const auto used = caseStatements.size();
			const size_t available = std::distance(blueprint->beginSymbols(), blueprint->endSymbols());

			if ( used < available ) {'''))
edit('j-gen-return',
     (TG, '''	Node* exp = nullptr;
	std::string returnType = Designtime::VoidType::TYPENAME;

	if ( token->type() != Token::Type::SEMICOLON ) {
		exp = expression(token);
		returnType = dynamic_cast<Expression*>(exp)->getResultType();
	}

	if ( mMethod->QualifiedTypename() != returnType ) {''', '''	const bool hasValue = token->type() != Token::Type::SEMICOLON;

	Node* exp = hasValue ? expression(token) : nullptr;
	const std::string returnType = hasValue ? dynamic_cast<Expression*>(exp)->getResultType() : std::string(Designtime::VoidType::TYPENAME);

	if ( returnType != mMethod->QualifiedTypename() ) {'''))
edit('j-repo-instance',
     (RP, '''	auto objectIt = mBluePrintObjects.find(type);
	if ( objectIt != mBluePrintObjects.end() ) {
		return createInstance(objectIt->second, name, constraints, initialize);
	}

	// workaround for complex member types whose imports have not yet been analysed
	if ( initialize == InitilizationType::None ) {
		return new''', '''	const auto known = mBluePrintObjects.find(type);
	if ( known == mBluePrintObjects.end() ) {
		if ( initialize != InitilizationType::None ) {
			throw Common::Exceptions::Exception("cannot not create instance of unknown type '" + type + "'");
		}

		return new'''),
     (RP, '''buildRuntimeConstraintTypename(type, constraints), true);
	}

	// no entry found for given type
	throw Common::Exceptions::Exception("cannot not create instance of unknown type '" + type + "'");
''', '''buildRuntimeConstraintTypename(type, constraints), true);
	}

	return createInstance(known->second, name, constraints, initialize);
'''))

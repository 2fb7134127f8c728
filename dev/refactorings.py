"""The edits of refactor.py: name -> ((file, old text, new text), ...). None of them changes what the code does."""
EDITS = {}
C = 'Projects/Core/Core/'
TI = C + 'AST/TreeInterpreter.cpp'
TIH = C + 'AST/TreeInterpreter.h'
NS = '#include <Core/VirtualMachine/Controller.h>\n'


def edit(name, *subs):
    assert name not in EDITS, name
    EDITS[name] = subs


PARAMLOOP = '''	for ( ExpressionList::const_iterator it = %s->mParams.begin(); it != %s->mParams.end(); ++it ) {
		objectList.emplace_back();

		Runtime::Object* param = &objectList.back();

		evaluate((*it), param);

		params.emplace_back(Parameter::CreateRuntime(param->QualifiedOuterface(), param->getValue(), param->getReference()));
	}
'''
edit('ti-params-helper',
     (TIH, '''	inline void popScope();
''', '''	inline void popScope();
	void collectParameters(const ExpressionList& expressions, std::list<Runtime::Object>& objects, ParameterList& params);
'''),
     (TI, PARAMLOOP % ('exp', 'exp'), '''	collectParameters(exp->mParams, objectList, params);
'''),
     (TI, PARAMLOOP % ('method', 'method'), '''	collectParameters(method->mParams, objectList, params);
'''),
     (TI, '''void TreeInterpreter::finalize()
''', '''void TreeInterpreter::collectParameters(const ExpressionList& expressions, std::list<Runtime::Object>& objects, ParameterList& params)
{
	for ( const auto& expression : expressions ) {
		objects.emplace_back();

		auto& param = objects.back();
		evaluate(expression, &param);

		params.push_back(Parameter::CreateRuntime(param.QualifiedOuterface(), param.getValue(), param.getReference()));
	}
}

void TreeInterpreter::finalize()
'''))
edit('ti-params-rangefor',
     (TI, PARAMLOOP % ('exp', 'exp'), '''	for ( auto* expression : exp->mParams ) {
		Runtime::Object object;
		objectList.push_back(object);

		evaluate(expression, &objectList.back());

		const Runtime::Object& param = objectList.back();
		params.emplace_back(Parameter::CreateRuntime(param.QualifiedOuterface(), param.getValue(), param.getReference()));
	}
'''.replace('''		Runtime::Object object;
		objectList.push_back(object);
''', '''		objectList.emplace_back();
''')))
edit('ti-boolean-switch',
     (TI, '''	if ( exp->mOperation.type() == Token::Type::AND && !leftResult ) {
		*result = Runtime::BoolType(false);
		return;
	}
	if ( exp->mOperation.type() == Token::Type::NAND && !leftResult ) {
		*result = Runtime::BoolType(true);
		return;
	}
	if ( exp->mOperation.type() == Token::Type::NOR && leftResult ) {
		*result = Runtime::BoolType(false);
		return;
	}
	if ( exp->mOperation.type() == Token::Type::OR && leftResult ) {
		*result = Runtime::BoolType(true);
		return;
	}
''', '''	const auto operation = exp->mOperation.type();

	switch ( operation ) {
		case Token::Type::AND:
		case Token::Type::NAND:
			if ( !leftResult ) {
				*result = Runtime::BoolType(operation == Token::Type::NAND);
				return;
			}
			break;
		case Token::Type::NOR:
		case Token::Type::OR:
			if ( leftResult ) {
				*result = Runtime::BoolType(operation == Token::Type::OR);
				return;
			}
			break;
		default:
			break;
	}
'''))
edit('ti-boolean-reorder',
     (TI, '''	if ( exp->mOperation.type() == Token::Type::AND && !leftResult ) {
		*result = Runtime::BoolType(false);
		return;
	}
	if ( exp->mOperation.type() == Token::Type::NAND && !leftResult ) {
		*result = Runtime::BoolType(true);
		return;
	}
	if ( exp->mOperation.type() == Token::Type::NOR && leftResult ) {
		*result = Runtime::BoolType(false);
		return;
	}
	if ( exp->mOperation.type() == Token::Type::OR && leftResult ) {
		*result = Runtime::BoolType(true);
		return;
	}
''', '''	const Token& op = exp->mOperation;

	if ( leftResult ) {
		if ( op.type() == Token::Type::OR ) {
			*result = Runtime::BoolType(true);
			return;
		}
		if ( op.type() == Token::Type::NOR ) {
			*result = Runtime::BoolType(false);
			return;
		}
	}
	else if ( op.type() == Token::Type::AND || op.type() == Token::Type::NAND ) {
		*result = Runtime::BoolType(op.type() == Token::Type::NAND);
		return;
	}
'''))
edit('ti-boolean-demorgan',
     (TI, 'case Token::Type::NAND: *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;', 'case Token::Type::NAND: *result = Runtime::BoolType(!(leftResult && isTrue(right))); break;'))
edit('ti-boolean-helper',
     (TI, '''		case Token::Type::AND:  *result = Runtime::BoolType(leftResult && isTrue(right)); break;
''', '''		case Token::Type::AND:  { const bool both = leftResult && isTrue(right); *result = Runtime::BoolType(both); } break;
'''))
edit('ti-promote-helper',
     (TI, '''	switch ( mControlFlow ) {
		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
		default: mControlFlow = Runtime::ControlFlow::Normal; break;
	}
''', '''	promote(mControlFlow);
	mControlFlow = Runtime::ControlFlow::Normal;
'''),
     (TI, '''	switch ( result->Constructor(params) ) {
		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
		default: mControlFlow = Runtime::ControlFlow::Normal; break;
	}
''', '''	promote(result->Constructor(params));

	mControlFlow = Runtime::ControlFlow::Normal;
'''),
     (TI, '''void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
''', '''static void promote(Runtime::ControlFlow::E controlFlow)
{
	if ( controlFlow == Runtime::ControlFlow::ExitProgram || controlFlow == Runtime::ControlFlow::Throw ) {
		throw controlFlow;
	}
}

void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
'''))
edit('ti-null-exception-helper',
     (TIH, '''	inline void popScope();
''', '''	inline void popScope();
	void throwNullPointer(const std::string& text);
'''),
     (TI, '''		auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
		data->setValue( std::string("NullPointerException: ") + exp->mSymbolExpression->toString() );

		mThread->exception() = Runtime::ExceptionData(data);

		// notify our debugger that an exception has been thrown
		DEBUGGER( notifyExceptionThrow(getScope(), Token()) );

		throw Runtime::ControlFlow::Throw;	// promote control flow
''', '''		throwNullPointer(exp->mSymbolExpression->toString());
'''),
     (TI, '''		auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
		data->setValue( std::string("NullPointerException: ") + exp->toString() );

		mThread->exception() = Runtime::ExceptionData(data);

		// notify our debugger that an exception has been thrown
		DEBUGGER( notifyExceptionThrow(getScope(), Token()) );

		throw Runtime::ControlFlow::Throw;				// promote control flow
''', '''		throwNullPointer(exp->toString());
'''),
     (TI, '''void TreeInterpreter::finalize()
''', '''void TreeInterpreter::throwNullPointer(const std::string& text)
{
	auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
	data->setValue( "NullPointerException: " + text );

	mThread->exception() = Runtime::ExceptionData(data);

	DEBUGGER( notifyExceptionThrow(getScope(), Token()) );

	throw Runtime::ControlFlow::Throw;
}

void TreeInterpreter::finalize()
'''))
ENC = '''	while ( scope ) {
		IScope* parent = scope->getEnclosingScope();

		if ( parent && parent->getScopeType() == IScope::IType::MethodScope ) {
			return dynamic_cast<MethodScope*>(parent);
		}

		scope = parent;
	}

	return nullptr;
'''
edit('ti-enclosing-for',
     (TI, ENC, '''	for ( IScope* parent = scope ? scope->getEnclosingScope() : nullptr; parent; parent = parent->getEnclosingScope() ) {
		if ( parent->getScopeType() == IScope::IType::MethodScope ) {
			return dynamic_cast<MethodScope*>(parent);
		}
	}

	return nullptr;
'''))
edit('ti-enclosing-while',
     (TI, ENC, '''	IScope* parent = nullptr;

	while ( scope && (parent = scope->getEnclosingScope()) != nullptr ) {
		if ( parent->getScopeType() != IScope::IType::MethodScope ) {
			scope = parent;
			continue;
		}

		return dynamic_cast<MethodScope*>(parent);
	}

	return nullptr;
'''))
edit('ti-initialize-early',
     (TI, '''		if ( param.name().empty() ) {
			// skip unnamed parameters
			continue;
		}

		Runtime::Object* object = mRepository->createInstance(param.type(), param.name());

		object->setMutability(param.mutability());

		if ( param.reference().isValid() ) {
			object->setIsReference(true);
			object->assign(*mMemory->get(param.reference()));
		}
		else {
			object->setIsReference(false);
			object->setValue(param.value());
		}

		scope->define(param.name(), object);
''', '''		if ( !param.name().empty() ) {
			auto* object = mRepository->createInstance(param.type(), param.name());
			const bool isReference = param.reference().isValid();

			object->setMutability(param.mutability());
			object->setIsReference(isReference);

			if ( isReference ) {
				object->assign(*mMemory->get(param.reference()));
			}
			else {
				object->setValue(param.value());
			}

			scope->define(param.name(), object);
		}
'''))
edit('ti-process-loop',
     (TI, '''	for ( Statements::Nodes::const_iterator it = statements->mNodes.begin(); it != statements->mNodes.end(); ++it ) {
		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
			break;		// control flow has been broken, time to stop processing
		}

		visit((*it));
	}
''', '''	for ( auto* node : statements->mNodes ) {
		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
			return;
		}

		visit(node);
	}
'''))
edit('ti-process-cond',
     (TI, '''	for ( Statements::Nodes::const_iterator it = statements->mNodes.begin(); it != statements->mNodes.end(); ++it ) {
		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
			break;		// control flow has been broken, time to stop processing
		}

		visit((*it));
	}
''', '''	auto it = statements->mNodes.begin();

	while ( it != statements->mNodes.end() && mControlFlow == Runtime::ControlFlow::Normal ) {
		visit(*it);
		++it;
	}
'''))
edit('ti-for-switch-if',
     (TI, '''			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; popScope(); return;
			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; popScope(); return;
			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; popScope(); return;
			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; popScope(); return;
''', '''			case Runtime::ControlFlow::Break:
				popScope();
				mControlFlow = Runtime::ControlFlow::Normal;
				return;
			case Runtime::ControlFlow::ExitProgram:
			case Runtime::ControlFlow::Return:
			case Runtime::ControlFlow::Throw:
				popScope();
				return;
			case Runtime::ControlFlow::Continue:
			case Runtime::ControlFlow::Normal:
				mControlFlow = Runtime::ControlFlow::Normal;
				break;
'''))
edit('ti-loop-helper',
     (TIH, '''	inline void popScope();
''', '''	inline void popScope();
	bool leaveLoop();
'''),
     (TI, '''		switch ( mControlFlow ) {
			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; popScope(); return;
			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; popScope(); return;
			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; popScope(); return;
			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; popScope(); return;
		}
''', '''		if ( leaveLoop() ) {
			break;
		}
'''),
     (TI, '''		visit(node->mStatement);

		// check (and reset) control flow
		switch ( mControlFlow ) {
			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
		}
''', '''		visit(node->mStatement);

		if ( leaveLoop() ) {
			return;
		}
'''),
     (TI, '''		popScope();		// pop scope and remove loop variable

		// check (and reset) control flow
		switch ( mControlFlow ) {
			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
		}
''', '''		popScope();		// pop scope and remove loop variable

		if ( leaveLoop() ) {
			return;
		}
'''),
     (TI, '''void TreeInterpreter::finalize()
''', '''bool TreeInterpreter::leaveLoop()
{
	if ( mControlFlow == Runtime::ControlFlow::Break ) {
		mControlFlow = Runtime::ControlFlow::Normal;
		return true;
	}
	if ( mControlFlow == Runtime::ControlFlow::Continue ) {
		mControlFlow = Runtime::ControlFlow::Normal;
	}

	return mControlFlow != Runtime::ControlFlow::Normal;
}

void TreeInterpreter::finalize()
'''))
edit('ti-for-condition-helper',
     (TI, '''		if ( node->mCondition ) {
			tryControlPopScope(evaluate(node->mCondition, &condition));		// evaluate loop condition

			// validate loop condition
			if ( !isTrue(condition) ) {
				break;
			}
		}
''', '''		if ( node->mCondition ) {
			try {
				evaluate(node->mCondition, &condition);
			}
			catch ( Runtime::ControlFlow::E& controlFlow ) {
				mControlFlow = controlFlow;
				popScope();
				return;
			}

			const bool proceed = isTrue(condition);
			if ( !proceed ) {
				break;
			}
		}
'''))
edit('ti-foreach-while',
     (TI, '''	for  ( ; ; ) {
		// Setup
''', '''	while ( true ) {
		// Setup
'''),
     (TI, '''			loopVariable->setMutability(typeDeclaration->mIsConst ? Mutability::Const : Mutability::Modify);

			// execute statement
''', '''			if ( typeDeclaration->mIsConst ) {
				loopVariable->setMutability(Mutability::Const);
			}
			else {
				loopVariable->setMutability(Mutability::Modify);
			}

			// execute statement
'''))
edit('ti-foreach-iterator-helper',
     (TIH, '''	inline void popScope();
''', '''	inline void popScope();
	bool callOn(Runtime::Object& object, MethodExpression* expression, Runtime::Object* result);
'''),
     (TI, '''		pushScope(&iterator);

			tryControlPopScope(evaluateMethodExpression(node->mHasNextExpression, &condition));

		popScope();
''', '''		if ( !callOn(iterator, node->mHasNextExpression, &condition) ) {
			return;
		}
'''),
     (TI, '''		pushScope(&collection);

			tryControlPopScope(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));

		popScope();
''', '''		if ( !callOn(collection, node->mGetIteratorExpression, &iterator) ) {
			return;
		}
'''),
     (TI, '''void TreeInterpreter::finalize()
''', '''bool TreeInterpreter::callOn(Runtime::Object& object, MethodExpression* expression, Runtime::Object* result)
{
	pushScope(&object);

	try {
		evaluateMethodExpression(expression, result);
	}
	catch ( Runtime::ControlFlow::E& e ) {
		popScope();
		mControlFlow = e;
		return false;
	}

	popScope();
	return true;
}

void TreeInterpreter::finalize()
'''))
edit('ti-switch-index',
     (TI, '''		for ( auto& stmt : node->mCaseStatements ) {
			Runtime::Object caseValue;
			tryControl(evaluate(stmt->mCaseExpression, &caseValue));

			// check if our switch-expression and our case-expression match
			if ( Runtime::operator_binary_equal(&value, &caseValue) ) {
				caseMatched = true;

				// both expressions matched, so we need to execute this case-block
				visitStatements(stmt->mCaseBlock);
				break;
			}
		}
''', '''		for ( auto it = node->mCaseStatements.begin(); !caseMatched && it != node->mCaseStatements.end(); ++it ) {
			auto* stmt = *it;

			Runtime::Object caseValue;
			tryControl(evaluate(stmt->mCaseExpression, &caseValue));

			caseMatched = Runtime::operator_binary_equal(&value, &caseValue);
			if ( caseMatched ) {
				visitStatements(stmt->mCaseBlock);
			}
		}
'''))
edit('ti-try-helper',
     (TIH, '''	inline void popScope();
''', '''	inline void popScope();
	void handleException(TryStatement* node);
'''),
     (TI, '''	if ( mControlFlow == Runtime::ControlFlow::Throw ) {
		if ( node->mCatchStatements.empty() ) {
			// this is a catch-all try-block, so we have to reset the control flow
			mControlFlow = Runtime::ControlFlow::Normal;
		}

		// get exception data
		Runtime::Object* exception = mThread->exception().getData();

		// determine correct catch-block (if a correct one exists)
		for ( auto& stmt : node->mCatchStatements ) {
			// check if we have a catch-block with a given type that matches the thrown exception type
			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
				// exception type does not match
				continue;
			}

			// push a new scope to be able to clean up the exception variable
			pushScope();

			// process exception type declaration (if present)
			if ( stmt->mTypeDeclaration ) {
				// retrieve exception instance variable
				Runtime::Object* symbol = visitTypeDeclaration(stmt->mTypeDeclaration);

				// assign exception to instance variable
				Runtime::operator_binary_assign(symbol, exception);
			}

			// notify our debugger that an exception has been caught
			DEBUGGER( notifyExceptionCatch(getScope(), stmt->token()) );

			// reset current control flow to allow execution of catch block
			mControlFlow = Runtime::ControlFlow::Normal;

			// execute statements of catch-block
			visitStatements(stmt->mStatements);

			// pop scope to get rid of the exception variable
			popScope();

			// only process one catch-block
			break;
		}
	}
''', '''	if ( mControlFlow == Runtime::ControlFlow::Throw ) {
		handleException(node);
	}
'''),
     (TI, '''void TreeInterpreter::visitTry(''', '''void TreeInterpreter::handleException(TryStatement* node)
{
	if ( node->mCatchStatements.empty() ) {
		mControlFlow = Runtime::ControlFlow::Normal;
		return;
	}

	auto* exception = mThread->exception().getData();

	for ( auto& stmt : node->mCatchStatements ) {
		auto* declaration = stmt->mTypeDeclaration;

		const bool matches = !declaration || (exception && exception->isInstanceOf(declaration->mType));
		if ( matches ) {
			pushScope();

			if ( declaration ) {
				Runtime::operator_binary_assign(visitTypeDeclaration(declaration), exception);
			}

			DEBUGGER( notifyExceptionCatch(getScope(), stmt->token()) );

			mControlFlow = Runtime::ControlFlow::Normal;

			visitStatements(stmt->mStatements);

			popScope();
			return;
		}
	}
}

void TreeInterpreter::visitTry('''))
edit('ti-try-finally',
     (TI, '''	// store current control flow and re-set it after finally block has been executed
	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;

	// execute finally-block if present
	if ( node->mFinallyBlock ) {
		// reset current control flow to allow execution of finally-block
		mControlFlow = Runtime::ControlFlow::Normal;

		visitStatements(node->mFinallyBlock);
	}

	// reset control flow to previous state if not set differently by finally statement
	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
		mControlFlow = tmpControlFlow;
	}
''', '''	if ( node->mFinallyBlock ) {
		// store current control flow and re-set it after finally block has been executed
		const auto tmpControlFlow = mControlFlow;
		mControlFlow = Runtime::ControlFlow::Normal;

		visitStatements(node->mFinallyBlock);

		if ( mControlFlow == Runtime::ControlFlow::Normal ) {
			mControlFlow = tmpControlFlow;
		}
	}
'''))
edit('ti-while-loop',
     (TI, '''	Runtime::Object condition;

	for ( ; ; ) {
		// evaluate while condition
		tryControl(evaluate(node->mCondition, &condition));

		// validate loop condition
		if ( !isTrue(condition) ) {
			break;
		}
''', '''	for ( Runtime::Object condition; ; ) {
		// evaluate while condition
		tryControl(evaluate(node->mCondition, &condition));

		if ( isTrue(condition) == false ) {
			return;
		}
'''))
edit('ti-if-nested',
     (TI, '''	if ( isTrue(condition) ) {
		// execute if-statement
		visit(node->mIfBlock);
	}
	else {
		// execute else-statement
		visit(node->mElseBlock);
	}
''', '''	visit( isTrue(condition) ? static_cast<Node*>(node->mIfBlock) : static_cast<Node*>(node->mElseBlock) );
'''))
edit('ti-resolve-helper',
     (TI, '''void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
''', '''static IScope* toScope(Symbol* symbol)
{
	switch ( symbol->getSymbolType() ) {
		case Symbol::IType::BluePrintObjectSymbol:
			return dynamic_cast<Designtime::BluePrintObject*>(symbol);
		case Symbol::IType::NamespaceSymbol:
			return dynamic_cast<Common::Namespace*>(symbol);
		case Symbol::IType::ObjectSymbol:
			return dynamic_cast<Runtime::Object*>(symbol);
		case Symbol::IType::MethodSymbol:
			break;
	}

	throw Runtime::Exceptions::InvalidSymbol("invalid symbol type found");
}

void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
'''),
     (TI, '''		switch ( child->getSymbolType() ) {
			case Symbol::IType::BluePrintObjectSymbol:
				scope = dynamic_cast<Designtime::BluePrintObject*>(child);
				break;
			case Symbol::IType::NamespaceSymbol:
				scope = dynamic_cast<Common::Namespace*>(child);
				break;
			case Symbol::IType::ObjectSymbol:
				scope = dynamic_cast<Runtime::Object*>(child);
				break;
			case Symbol::IType::MethodSymbol:
				throw Runtime::Exceptions::InvalidSymbol("invalid symbol type found");
		}

		symbol = symbol->mSymbolExpression;
''', '''		scope = toScope(child);

		symbol = symbol->mSymbolExpression;
'''))
edit('ti-visit-ifchain',
     (TI, '''	switch ( node->getNodeType() ) {
		case Node::NodeType::Expression:
			visitExpression(dynamic_cast<Expression*>(node));
			break;
		case Node::NodeType::Operator:
			visitOperator(dynamic_cast<Operator*>(node));
			break;
		case Node::NodeType::Statement:
			visitStatement(dynamic_cast<Statement*>(node));
			break;
	}
''', '''	const auto type = node->getNodeType();

	if ( type == Node::NodeType::Statement ) {
		visitStatement(dynamic_cast<Statement*>(node));
	}
	else if ( type == Node::NodeType::Expression ) {
		visitExpression(dynamic_cast<Expression*>(node));
	}
	else if ( type == Node::NodeType::Operator ) {
		visitOperator(dynamic_cast<Operator*>(node));
	}
'''))
edit('ti-typedecl',
     (TI, '''	lvalue->setMutability(node->mIsConst ? Mutability::Const : Mutability::Modify);
	lvalue->setIsReference(node->mIsReference);

	getScope()->define(node->mName, lvalue);
''', '''	const auto mutability = node->mIsConst ? Mutability::Const : Mutability::Modify;

	lvalue->setIsReference(node->mIsReference);
	lvalue->setMutability(mutability);

	auto* scope = getScope();
	scope->define(node->mName, lvalue);
'''))
edit('ti-streval-continue',
     (TI, '''		auto var = sourceStr.substr( startPos, endPos - startPos );
		if ( var.empty() ) {
			start += PREFIXLEN;
			continue;
		}

		auto* symbol = scope->resolve( var, false, Visibility::Designtime );
		if ( !symbol ) {
			start += PREFIXLEN;
			continue;	// skip not-existing symbols
		}
		if ( symbol->getSymbolType() != Symbol::IType::ObjectSymbol ) {
			start += PREFIXLEN;
			continue;	// skip symbols with wrong type
		}
''', '''		const auto var = sourceStr.substr( startPos, endPos - startPos );

		auto* symbol = var.empty() ? nullptr : scope->resolve( var, false, Visibility::Designtime );
		if ( !symbol || symbol->getSymbolType() != Symbol::IType::ObjectSymbol ) {
			start += PREFIXLEN;
			continue;	// skip not-existing symbols and symbols with wrong type
		}
'''))
edit('ti-noop',
     (TI, '''	// execute try-block
	visitStatements(node->mTryBlock);
''', '''	(void)node;

	// execute try-block
	visitStatements(node->mTryBlock);
'''))
edit('ti-execute-order',
     (TI, '''	if ( !method ) {
		throw Common::Exceptions::Exception("invalid method pointer provided!");
	}
	if (method->isAbstractMethod() ) {
		throw Common::Exceptions::AbstractException("cannot execute abstract method '" + method->getFullScopeName() + "'");
	}

	Common::Method scope(*method, true);
''', '''	if ( !method ) {
		throw Common::Exceptions::Exception("invalid method pointer provided!");
	}
	else if ( method->isAbstractMethod() ) {
		const std::string name = method->getFullScopeName();
		throw Common::Exceptions::AbstractException("cannot execute abstract method '" + name + "'");
	}

	const auto& parameters = params;
	Common::Method scope(*method, true);
'''),
     (TI, 'initialize(&scope, method->mergeParameters(params));', 'initialize(&scope, method->mergeParameters(parameters));'))
edit('ti-unary-split',
     (TIH, '''	inline void popScope();
''', '''	inline void popScope();
	void evaluateUnaryLValue(UnaryExpression* exp, Runtime::Object* result);
'''),
     (TI, '''	if ( exp->mValueType == UnaryExpression::ValueType::LValue ) {
		Runtime::Object& lvalue = resolveLValue(getScope(), dynamic_cast<SymbolExpression*>(exp->mExpression), false, Visibility::Designtime);

		switch ( exp->mOperation.type() ) {
			// math expressions
			// {
			case Token::Type::OPERATOR_DECREMENT: Runtime::operator_unary_decrement( &lvalue ); break;
			case Token::Type::OPERATOR_INCREMENT: Runtime::operator_unary_increment( &lvalue ); break;
			// }

			// subscript operator
			// {
			case Token::Type::BRACKET_OPEN:       evaluate(exp->mExpression, &lvalue); break;
			// }

			// default handling
			// {
			default: throw Common::Exceptions::NotSupported("lvalue expression with " + exp->mOperation.content() + " not supported");
			// }
		}

		Runtime::operator_binary_assign(result, &lvalue);
	}
''', '''	if ( exp->mValueType == UnaryExpression::ValueType::LValue ) {
		evaluateUnaryLValue(exp, result);
	}
'''),
     (TI, '''void TreeInterpreter::finalize()
''', '''void TreeInterpreter::evaluateUnaryLValue(UnaryExpression* exp, Runtime::Object* result)
{
	auto* symbol = dynamic_cast<SymbolExpression*>(exp->mExpression);
	auto& lvalue = resolveLValue(getScope(), symbol, false, Visibility::Designtime);

	const auto operation = exp->mOperation.type();
	if ( operation == Token::Type::OPERATOR_DECREMENT ) {
		Runtime::operator_unary_decrement( &lvalue );
	}
	else if ( operation == Token::Type::OPERATOR_INCREMENT ) {
		Runtime::operator_unary_increment( &lvalue );
	}
	else if ( operation == Token::Type::BRACKET_OPEN ) {
		evaluate(exp->mExpression, &lvalue);
	}
	else {
		throw Common::Exceptions::NotSupported("lvalue expression with " + exp->mOperation.content() + " not supported");
	}

	Runtime::operator_binary_assign(result, &lvalue);
}

void TreeInterpreter::finalize()
'''))

# Method, scopes, memory, blueprints
M = C + 'Common/Method.cpp'
edit('method-less-share',
     (M, '''bool Method::operator< (const Method& other) const
{
	if ( this->getName() == other.getName() ) {
		ParameterList firstList = this->provideSignature();
		ParameterList secondList = other.provideSignature();

		// unable to identify return value during method call
		//if ( this->type() != other.type() ) {
		//	return this->type() < other.type();
		//}

		if ( firstList.size() == secondList.size() ) {
			ParameterList::const_iterator fIt = firstList.begin();
			ParameterList::const_iterator sIt = secondList.begin();

			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
				if ( fIt->type() != sIt->type() ) {
					return fIt->type() < sIt->type();
				}
			}
		}

		return firstList.size() < secondList.size();
	}

	return this->getName() < other.getName();
}
''', '''bool Method::operator< (const Method& other) const
{
	return (*this)(*this, other);
}
'''))
edit('method-less-early',
     (M, '''bool Method::operator< (const Method& other) const
{
	if ( this->getName() == other.getName() ) {
		ParameterList firstList = this->provideSignature();
		ParameterList secondList = other.provideSignature();

		// unable to identify return value during method call
		//if ( this->type() != other.type() ) {
		//	return this->type() < other.type();
		//}

		if ( firstList.size() == secondList.size() ) {
			ParameterList::const_iterator fIt = firstList.begin();
			ParameterList::const_iterator sIt = secondList.begin();

			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
				if ( fIt->type() != sIt->type() ) {
					return fIt->type() < sIt->type();
				}
			}
		}

		return firstList.size() < secondList.size();
	}

	return this->getName() < other.getName();
}
''', '''bool Method::operator< (const Method& other) const
{
	if ( getName() != other.getName() ) {
		return getName() < other.getName();
	}

	const ParameterList& firstList = provideSignature();
	const ParameterList& secondList = other.provideSignature();

	if ( firstList.size() != secondList.size() ) {
		return firstList.size() < secondList.size();
	}

	auto sIt = secondList.begin();

	for ( auto fIt = firstList.begin(); fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
		if ( fIt->type() != sIt->type() ) {
			return fIt->type() < sIt->type();
		}
	}

	return false;
}
'''))
edit('method-assign-reorder',
     (M, '''		mAlgorithm = other.mAlgorithm;
		mAllowDelete = false;
		mCheckedExceptions = other.mCheckedExceptions;
''', '''		mCheckedExceptions = other.mCheckedExceptions;
		mAlgorithm = other.mAlgorithm;
		mAllowDelete = false;
'''),
     (M, '''		mVisibility = other.mVisibility;
	}

	return *this;
''', '''		mVisibility = other.mVisibility;
	}

	Method& self = *this;
	return self;
'''))
edit('method-signature-for',
     (M, '''	auto paramIt = params.begin();
	auto sigIt = mSignature.begin();

	while ( sigIt != mSignature.end() ) {
		if ( paramIt != params.end() ) {
''', '''	auto paramIt = params.begin();

	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
		if ( paramIt != params.end() ) {
'''),
     (M, '''			// we received less parameters than expected and we have no default value set
			return false;
		}

		++sigIt;
	}
''', '''			// we received less parameters than expected and we have no default value set
			return false;
		}
	}
'''))
edit('method-signature-range',
     (M, '''	auto paramIt = params.begin();
	auto sigIt = mSignature.begin();

	while ( sigIt != mSignature.end() ) {
		if ( paramIt != params.end() ) {
			// compare received type with expected type
			if ( sigIt->type() != paramIt->type() && sigIt->type() != VALUE_NONE ) {
				// we received the wrong parameter type
				return false;
			}
''', '''	auto paramIt = params.begin();

	for ( const auto& expected : mSignature ) {
		if ( paramIt == params.end() ) {
			if ( !expected.hasDefaultValue() ) {
				return false;
			}
		}
		else {
			const bool anyType = expected.type() == VALUE_NONE;
			if ( !anyType && expected.type() != paramIt->type() ) {
				return false;
			}
'''),
     (M, '''			++paramIt;
		}
		else if ( !sigIt->hasDefaultValue() ) {
			// we received less parameters than expected and we have no default value set
			return false;
		}

		++sigIt;
	}
''', '''			++paramIt;
		}
	}
'''))
edit('method-merge-range',
     (M, '''	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
		// initialize parameter with default value
		auto value = sigIt->value();
		Runtime::Reference ref;

		if ( paramIt != params.end() ) {
			// override parameter with correct value
			ref = paramIt->reference();
			value = paramIt->value();

			// next iteration
			++paramIt;
		}

		result.emplace_back(
			sigIt->name(), TypeDeclaration(sigIt->type(), PrototypeConstraints(), sigIt->mutability()), value, sigIt->hasDefaultValue(), sigIt->mutability(), sigIt->access(), ref
		);
	}
''', '''	for ( const auto& expected : mSignature ) {
		const bool provided = paramIt != params.end();

		// use the provided value or the default value
		const auto value = provided ? paramIt->value() : expected.value();
		const auto ref = provided ? paramIt->reference() : Runtime::Reference();

		if ( provided ) {
			++paramIt;
		}

		const TypeDeclaration type(expected.type(), PrototypeConstraints(), expected.mutability());
		result.push_back( Parameter(expected.name(), type, value, expected.hasDefaultValue(), expected.mutability(), expected.access(), ref) );
	}
'''))
edit('method-init-ternary',
     (M, '''			AccessMode::E access = AccessMode::ByValue;

			if ( atomicTypes.find(type) == atomicTypes.end() ) {
				access = AccessMode::ByReference;
			}
''', '''			const bool isAtomic = atomicTypes.find(type) != atomicTypes.end();
			const AccessMode::E access = isAtomic ? AccessMode::ByValue : AccessMode::ByReference;
'''),
     (M, '''	for ( auto& mToken : mTokens ) {
		if ( mToken.type() == Token::Type::IDENTIFIER ) {
			type = constraints.lookupType(mToken.content());

			if ( type != mToken.content() ) {
				mToken.resetContentTo(type);
			}
		}
	}
''', '''	for ( auto it = mTokens.begin(); it != mTokens.end(); ++it ) {
		if ( it->type() != Token::Type::IDENTIFIER ) {
			continue;
		}

		const auto replacement = constraints.lookupType(it->content());
		if ( replacement != it->content() ) {
			it->resetContentTo(replacement);
		}
	}
'''))
S = C + 'Scope.cpp'
LOOKUP = '''	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in external symbols
	it = mExternalSymbols.find(name);
	if ( it != mExternalSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in parent's symbols
'''
edit('scope-lookup-helper',
     (S, LOOKUP, '''	if ( auto* symbol = findVisible(mSymbols, name, visibility) ) {
		return symbol;
	}

	// look up in external symbols
	if ( auto* symbol = findVisible(mExternalSymbols, name, visibility) ) {
		return symbol;
	}

	// look up in parent's symbols
'''),
     (S, LOOKUP.replace("	// look up in parent's symbols\n", '	// look up in local methods\n'), '''	Symbol* found = findVisible(mSymbols, name, visibility);
	if ( !found ) {
		found = findVisible(mExternalSymbols, name, visibility);
	}
	if ( found ) {
		return found;
	}

	// look up in local methods
'''),
     (S, '''SymbolScope::SymbolScope(IScope *parent)
''', '''template<typename Collection>
static Symbol* findVisible(const Collection& symbols, const std::string& name, Visibility::E visibility)
{
	const auto it = symbols.find(name);
	if ( it == symbols.end() || it->second->getVisibility() < visibility ) {
		return nullptr;
	}

	return it->second;
}

SymbolScope::SymbolScope(IScope *parent)
'''))
edit('scope-lookup-and',
     (S, LOOKUP, '''	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() && it->second->getVisibility() >= visibility ) {
		return it->second;
	}

	// look up in external symbols
	const auto extIt = mExternalSymbols.find(name);
	if ( extIt != mExternalSymbols.end() && !(extIt->second->getVisibility() < visibility) ) {
		return extIt->second;
	}

	// look up in parent's symbols
'''))
edit('scope-methods-findif',
     (S, '#include <cassert>\n', '#include <algorithm>\n#include <cassert>\n'),
     (S, '''	for ( auto& method : mMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}

	for ( auto& method : mExternalMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}
''', '''	const auto matches = [&](const Common::Method* method) {
		return method->getVisibility() >= visibility && method->getName() == name && method->isSignatureValid(params);
	};

	const auto local = std::find_if(mMethods.begin(), mMethods.end(), matches);
	if ( local != mMethods.end() ) {
		return *local;
	}

	const auto external = std::find_if(mExternalMethods.begin(), mExternalMethods.end(), matches);
	if ( external != mExternalMethods.end() ) {
		return *external;
	}
'''))
edit('scope-methods-lambda',
     (S, '''	for ( auto& method : mMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}

	for ( auto& method : mExternalMethods ) {
		if ( method->getVisibility() >= visibility ) {
			if ( method->getName() == name && method->isSignatureValid(params) ) {
				return method;
			}
		}
	}
''', '''	const auto search = [&](const MethodCollection& methods) -> Common::Method* {
		for ( auto* method : methods ) {
			if ( method->getVisibility() < visibility || method->getName() != name ) {
				continue;
			}
			if ( method->isSignatureValid(params) ) {
				return method;
			}
		}
		return nullptr;
	};

	if ( auto* method = search(mMethods) ) {
		return method;
	}
	if ( auto* method = search(mExternalMethods) ) {
		return method;
	}
'''))
edit('scope-deinit',
     (S, '''	Symbols tmpSymbols = mSymbols;

	for ( auto& tmpSymbol : tmpSymbols ) {
		mSymbols.erase(tmpSymbol.first);

		if ( tmpSymbol.first == IDENTIFIER_THIS ) {
			continue;
		}

		delete tmpSymbol.second;
	}
''', '''	const Symbols tmpSymbols = mSymbols;

	for ( Symbols::const_iterator it = tmpSymbols.begin(); it != tmpSymbols.end(); ++it ) {
		mSymbols.erase(it->first);

		if ( it->first != IDENTIFIER_THIS ) {
			delete it->second;
		}
	}
'''))
edit('scope-fullname',
     (S, '''	std::string scope;
	if ( mParent ) {
		scope = mParent->getFullScopeName();
		if ( !scope.empty() && !mScopeName.empty() ) {
			scope += RESERVED_WORD_SCOPE_OPERATOR;
		}
	}

	return scope + mScopeName;
}

const std::string& SymbolScope::getScopeName() const
''', '''	if ( !mParent ) {
		return mScopeName;
	}

	std::string scope = mParent->getFullScopeName();
	if ( !scope.empty() && !mScopeName.empty() ) {
		scope += RESERVED_WORD_SCOPE_OPERATOR;
	}
	scope += mScopeName;

	return scope;
}

const std::string& SymbolScope::getScopeName() const
'''))
edit('scope-define-count',
     (S, '''	if ( mSymbols.find(name) != mSymbols.end() ) {
		// duplicate symbol defined
		throw Common::Exceptions::DuplicateIdentifier(name);
	}

	mSymbols.insert(std::make_pair(name, symbol));
''', '''	if ( mSymbols.count(name) ) {
		// duplicate symbol defined
		throw Common::Exceptions::DuplicateIdentifier(name);
	}

	mSymbols.emplace(name, symbol);
'''))
ME = C + 'VirtualMachine/Memory.cpp'
edit('memory-remove',
     (ME, '''	it->second.mCount--;
	if ( it->second.mCount == 0 && it->second.mObject ) {
		deleteObject( it->first );
	}
''', '''	auto& entry = it->second;

	--entry.mCount;
	if ( entry.mCount != 0 || !entry.mObject ) {
		return;
	}

	deleteObject( it->first );
'''),
     (ME, '''	it->second.mCount++;
''', '''	it->second.mCount += 1;
'''))
edit('memory-helper',
     (ME, '''	if ( !ref.isValid() ) {
		// cannot delete address 0
		return;
	}

	auto it = mMemory.find(ref);
	if ( it == mMemory.end() ) {
		throw Common::Exceptions::Exception("invalid access for address " + Utils::Tools::toString(ref.getAddress()));
	}
''', '''	if ( !ref.isValid() ) {
		// cannot delete address 0
		return;
	}

	auto it = checkedFind(mMemory, ref);
'''),
     (ME, '''	if ( !ref.isValid() ) {
		// cannot add address 0
		return;
	}

	auto it = mMemory.find(ref);
	if ( it == mMemory.end() ) {
		throw Common::Exceptions::Exception("invalid access for address " + Utils::Tools::toString(ref.getAddress()));
	}
''', '''	if ( !ref.isValid() ) {
		// cannot add address 0
		return;
	}

	auto it = checkedFind(mMemory, ref);
'''),
     (ME, '''Memory::Memory()
''', '''template<typename Map>
static typename Map::iterator checkedFind(Map& map, const Runtime::Reference& ref)
{
	auto it = map.find(ref);
	if ( it == map.end() ) {
		throw Common::Exceptions::Exception("invalid access for address " + Utils::Tools::toString(ref.getAddress()));
	}

	return it;
}

Memory::Memory()
'''))
edit('memory-new',
     (ME, '''	mMemory[ref].mCount = 0;
	mMemory[ref].mObject = obj;

	obj->setReference(ref);
''', '''	obj->setReference(ref);

	auto& entry = mMemory[ref];
	entry.mObject = obj;
	entry.mCount = 0;
'''),
     (ME, '''	auto it = mMemory.find(ref);
	if ( it != mMemory.end() ) {
		return it->second.mObject;
	}

	return nullptr;
''', '''	const auto it = mMemory.find(ref);

	return it != mMemory.end() ? it->second.mObject : nullptr;
'''))
B = C + 'Designtime/BluePrintObject.cpp'
edit('blueprint-checks-helper',
     (B, '''		if ( oldMethod->getMemoryLayout() != MemoryLayout::Abstract && oldMethod->getMemoryLayout() != MemoryLayout::Virtual ) {
''', '''		const auto oldLayout = oldMethod->getMemoryLayout();
		const bool overridable = oldLayout == MemoryLayout::Abstract || oldLayout == MemoryLayout::Virtual;

		if ( !overridable ) {
'''),
     (B, '''		// compare methods
		if ( oldMethod->isConst() != method->isConst() ) {
			throw Exceptions::SyntaxError("Overriding method '" + method->getFullScopeName() + "' has different return value then base method'" );
		}
		if ( oldMethod->isConstMethod() != method->isConstMethod() ) {
			throw Exceptions::SyntaxError("Overriding method '" + method->getFullScopeName() + "' has different mutability then base method" );
		}
''', '''		compareMutability(*oldMethod, *method);

'''),
     (B, '''void BluePrintObject::defineMethod(''', '''static void compareMutability(const Common::Method& base, const Common::Method& derived)
{
	if ( base.isConst() != derived.isConst() ) {
		throw Exceptions::SyntaxError("Overriding method '" + derived.getFullScopeName() + "' has different return value then base method'" );
	}
	if ( base.isConstMethod() != derived.isConstMethod() ) {
		throw Exceptions::SyntaxError("Overriding method '" + derived.getFullScopeName() + "' has different mutability then base method" );
	}
}

void BluePrintObject::defineMethod('''))
edit('blueprint-anyof',
     (B, '''	for ( const auto& it : mInheritance ) {
		if ( it.name() == type ) {
			return true;
		}
	}

	return false;
''', '''	return std::any_of(mInheritance.begin(), mInheritance.end(), [&type](const Ancestor& ancestor) { return ancestor.name() == type; });
'''),
     (B, '// Library includes\n', '// Library includes\n#include <algorithm>\n'))
edit('blueprint-ancestors-helper',
     (B, '''	Ancestors ancestors;

	for ( const auto& it : mInheritance ) {
		if ( it.ancestorType() == Ancestor::Type::Extends ) {
			ancestors.insert(it);
		}
	}

	return ancestors;
''', '''	return filter(mInheritance, Ancestor::Type::Extends);
'''),
     (B, '''	Ancestors implementations;

	for ( const auto& it : mInheritance ) {
		if ( it.ancestorType() == Ancestor::Type::Implements ) {
			implementations.insert(it);
		}
	}

	return implementations;
''', '''	return filter(mInheritance, Ancestor::Type::Implements);
'''),
     (B, '''Ancestors BluePrintObject::getAncestors() const
''', '''static Ancestors filter(const Ancestors& inheritance, Ancestor::Type::E type)
{
	Ancestors result;

	for ( auto it = inheritance.begin(); it != inheritance.end(); ++it ) {
		if ( it->ancestorType() != type ) {
			continue;
		}
		result.insert(*it);
	}

	return result;
}

Ancestors BluePrintObject::getAncestors() const
'''))
edit('blueprint-parents-helper',
     (B, '''		// locally define parent's public and protected symbols
		Symbols symbols = parent->provideSymbols();
		for ( Symbols::const_iterator symIt = symbols.begin(); symIt != symbols.end(); ++symIt ) {
			if ( symIt->second->getVisibility() >= Visibility::Protected ) {
				defineExternal(symIt->first, symIt->second);
			}
		}

		// locally define parent's public and protected methods
		MethodCollection methods = parent->provideMethods();
		for ( auto& method : methods ) {
			if ( method->getVisibility() >= Visibility::Protected ) {
				defineExternalMethod(method->QualifiedTypename(), method);
			}
		}
''', '''		// locally define parent's public and protected symbols
		for ( const auto& symbol : parent->provideSymbols() ) {
			if ( symbol.second->getVisibility() < Visibility::Protected ) {
				continue;
			}

			defineExternal(symbol.first, symbol.second);
		}

		// locally define parent's public and protected methods
		for ( auto* method : parent->provideMethods() ) {
			if ( method->getVisibility() < Visibility::Protected ) {
				continue;
			}

			defineExternalMethod(method->QualifiedTypename(), method);
		}
'''))
edit('blueprint-iterable',
     (B, '''	if ( isOfType( "ICollection" ) ) {
		return true;
	}

	for ( auto& mMethod : mMethods ) {
		if ( mMethod->getName() == "getIterator" && mMethod->isSignatureValid( ParameterList() ) ) {
			return true;
		}
	}

	return false;
''', '''	bool result = isOfType( "ICollection" );

	for ( auto it = mMethods.begin(); !result && it != mMethods.end(); ++it ) {
		result = (*it)->getName() == "getIterator" && (*it)->isSignatureValid( ParameterList() );
	}

	return result;
'''))
edit('blueprint-ctor',
     (B, '''	Symbol* constructor = resolve(RESERVED_WORD_CONSTRUCTOR, true, Visibility::Private);
	if ( constructor && dynamic_cast<class MethodSymbol*>(constructor) ) {
		return true;
	}

	return false;
''', '''	return dynamic_cast<class MethodSymbol*>(resolve(RESERVED_WORD_CONSTRUCTOR, true, Visibility::Private)) != nullptr;
'''))

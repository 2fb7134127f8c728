"""Edits of the tree generator, as somebody who knows only the code would make them."""
from refactorings import edit, C
G = C + 'AST/TreeGenerator.cpp'
H = C + 'AST/TreeGenerator.h'

edit('gen-logical-predicate',
     (G, '''Node* TreeGenerator::expression(TokenIterator& start)
{
	auto* expression = parseCondition(start);

	for ( ; ; ) {
		const Token::Type::E op = start->type();
		if ( op != Token::Type::AND &&
			 op != Token::Type::NAND &&
			 op != Token::Type::NOR &&
			 op != Token::Type::OR ) {
			return expression;
		}

		const Token operation = (*start);
''', '''namespace {

bool isLogicalOperator(Token::Type::E op)
{
	switch ( op ) {
		case Token::Type::AND:
		case Token::Type::NAND:
		case Token::Type::NOR:
		case Token::Type::OR:
			return true;
		default:
			return false;
	}
}

}

Node* TreeGenerator::expression(TokenIterator& start)
{
	auto* expression = parseCondition(start);

	while ( isLogicalOperator(start->type()) ) {
		const Token operation = (*start);
'''),
     (G, '''		expression = new BooleanBinaryExpression(expression, operation, right);
	}
}''', '''		expression = new BooleanBinaryExpression(expression, operation, right);
	}

	return expression;
}'''))
edit('gen-finalize-helpers',
     (G, '''void TreeGenerator::finalize()
{
	if ( !mThrownExceptions.empty() && !mMethod->throws() ) {
		// this method is not marked as 'throwing', but it throws uncaught exceptions
		std::string exceptions = "'";
		for ( auto it = mThrownExceptions.cbegin(); it != mThrownExceptions.cend(); ++it ) {
			if ( it != mThrownExceptions.cbegin() ) {
				exceptions += "', '";
			}
			exceptions += (*it);
		}
		exceptions += "'";

		throw''', '''namespace {

std::string joinQuoted(const std::set<std::string>& names)
{
	std::string result;

	for ( const auto& name : names ) {
		if ( !result.empty() ) {
			result += ", ";
		}
		result += "'" + name + "'";
	}

	return result;
}

}

void TreeGenerator::finalize()
{
	if ( !mThrownExceptions.empty() && !mMethod->throws() ) {
		// this method is not marked as 'throwing', but it throws uncaught exceptions
		const std::string exceptions = joinQuoted(mThrownExceptions);

		throw'''),
     (G, '''	// verify return statement existence
	if ( mMethod->QualifiedTypename() != Designtime::VoidType::TYPENAME
		 && (mControlFlow != Runtime::ControlFlow::Return && mControlFlow != Runtime::ControlFlow::Throw) ) {
		Token last;''', '''	const bool needsReturn = mMethod->QualifiedTypename() != Designtime::VoidType::TYPENAME;
	const bool leaves = mControlFlow == Runtime::ControlFlow::Return || mControlFlow == Runtime::ControlFlow::Throw;

	// verify return statement existence
	if ( needsReturn && !leaves ) {
		Token last;'''),
     (G, '''	mThis = nullptr;
	mMethod = nullptr;
	mControlFlow = Runtime::ControlFlow::Normal;
	mAllowConstModify = false;
}''', '''	mAllowConstModify = false;
	mControlFlow = Runtime::ControlFlow::Normal;
	mMethod = nullptr;
	mThis = nullptr;
}'''))
edit('gen-generate-inline-position',
     (G, '''	Statements* statements{ nullptr };

	pushScope(nullptr, allowBreakAndContinue);
		pushTokens(tokens);
			auto start = getTokens().begin();
			auto end   = getTokens().end();

			const Common::Position position(start != end ? start->position() : Common::Position());

			statements = process(start, end);

			if ( needsControlStatement && mControlFlow == Runtime::ControlFlow::Normal ) {
				throw Common::Exceptions::ControlFlowException("block is missing control flow statement", position);
			}
		popTokens();
	popScope();

	return statements;''', '''	pushScope(nullptr, allowBreakAndContinue);
	pushTokens(tokens);

	auto start = getTokens().begin();
	const auto end = getTokens().end();

	Common::Position position;
	if ( start != end ) {
		position = start->position();
	}

	Statements* statements = process(start, end);

	if ( needsControlStatement ) {
		if ( mControlFlow == Runtime::ControlFlow::Normal ) {
			throw Common::Exceptions::ControlFlowException("block is missing control flow statement", position);
		}
	}

	popTokens();
	popScope();

	return statements;'''))
edit('gen-enclosing-for',
     (G, '''	while ( scope ) {
		auto* methodScope = dynamic_cast<MethodScope*>(scope->getEnclosingScope());
		if ( methodScope ) {
			return methodScope;
		}

		scope = scope->getEnclosingScope();
	}

	return nullptr;''', '''	for ( ; scope; scope = scope->getEnclosingScope() ) {
		if ( auto* methodScope = dynamic_cast<MethodScope*>(scope->getEnclosingScope()) ) {
			return methodScope;
		}
	}

	return nullptr;'''),
     (G, '''	auto* result = dynamic_cast<MethodScope*>(scope);

	return result ? result : getEnclosingMethodScope(scope);''', '''	if ( auto* result = dynamic_cast<MethodScope*>(scope) ) {
		return result;
	}

	return getEnclosingMethodScope(scope);'''))
edit('gen-initialize-params-helper',
     (G, '''	const ParameterList& params = mMethod->provideSignature();
	// add parameters as locale variables
	for ( const auto& param : params ) {
		if ( param.name().empty() ) {
			// skip unnamed parameters
			continue;
		}

		Runtime::Object* object = mRepository->createInstance(param.type(), param.name(), param.typeConstraints());
		object->setIsReference(param.access() == AccessMode::ByReference);
		object->setMutability(param.mutability());

		scope->define(param.name(), object);
	}
}
''', '''	defineParameters(scope);
}

/*
 * adds all named parameters as local variables
 */
void TreeGenerator::defineParameters(IScope* scope)
{
	for ( const auto& param : mMethod->provideSignature() ) {
		if ( !param.name().empty() ) {
			Runtime::Object* object = mRepository->createInstance(param.type(), param.name(), param.typeConstraints());
			object->setMutability(param.mutability());
			object->setIsReference(param.access() == AccessMode::ByReference);

			scope->define(param.name(), object);
		}
	}
}
'''),
     (G, '''	mAllowConstModify = method->getMethodType() == MethodType::Constructor || method->getMethodType() == MethodType::Destructor;
	mControlFlow = Runtime::ControlFlow::Normal;
	mMethod = method;
''', '''	const auto methodType = method->getMethodType();

	mMethod = method;
	mControlFlow = Runtime::ControlFlow::Normal;
	mAllowConstModify = methodType == MethodType::Constructor || methodType == MethodType::Destructor;
'''),
     (H, '''	void finalize();
''', '''	void defineParameters(IScope* scope);
	void finalize();
'''))
edit('gen-condition-merge',
     (G, '''		if ( op == Token::Type::COMPARE_EQUAL_CONTENT ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
		else if ( op == Token::Type::COMPARE_UNEQUAL ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
		else if ( op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
			operation.resetContentTo("==");
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
		}
''', '''		const bool negate = op == Token::Type::COMPARE_UNEQUAL || op == Token::Type::COMPARE_UNEQUAL_CONTENT;
		const bool content = op == Token::Type::COMPARE_EQUAL_CONTENT || op == Token::Type::COMPARE_UNEQUAL_CONTENT;

		if ( negate || content ) {
			operation.resetTypeTo(Token::Type::COMPARE_EQUAL);
			operation.resetContentTo("==");
		}
'''),
     (G, '''			if ( op == Token::Type::COMPARE_EQUAL_CONTENT || op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
				// content''', '''			if ( content ) {
				// content'''),
     (G, '''		if ( op == Token::Type::COMPARE_UNEQUAL || op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
			condition = new''', '''		if ( negate ) {
			condition = new'''))
edit('gen-operator-call-helper',
     (G, '''		SymbolExpression* inner = exp;
		while ( inner->mSymbolExpression ) {
			inner = inner->mSymbolExpression;
		}

		inner->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
		inner->mSymbolExpression->mSurroundingScope = blueprint;

		ExpressionList params;
		params.emplace_back(rhs);

		expr = process_method(exp, (*start), params);
	}
}
''', '''		expr = processOperatorCall(exp, blueprint, operation, rhs, (*start));
	}
}

Node* TreeGenerator::processOperatorCall(SymbolExpression* symbol, Designtime::BluePrintObject* blueprint, const Token& operation, Expression* rhs, const Token& token)
{
	SymbolExpression* last = symbol;
	while ( last->mSymbolExpression ) {
		last = last->mSymbolExpression;
	}

	auto* call = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
	call->mSurroundingScope = blueprint;
	last->mSymbolExpression = call;

	ExpressionList params;
	params.emplace_back(rhs);

	return process_method(symbol, token, params);
}
'''),
     (G, '''		SymbolExpression* inner = exp;
		while ( inner->mSymbolExpression ) {
			inner = inner->mSymbolExpression;
		}

		inner->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
		inner->mSymbolExpression->mSurroundingScope = blueprint;

		ExpressionList params;
		params.emplace_back(rhs);

		factor = process_method(exp, (*start), params);
''', '''		factor = processOperatorCall(exp, blueprint, operation, rhs, (*start));
'''),
     (H, '''	void finalize();
''', '''	void finalize();
	Node* processOperatorCall(SymbolExpression* symbol, Designtime::BluePrintObject* blueprint, const Token& operation, Expression* rhs, const Token& token);
'''))
edit('gen-infix-ifs',
     (G, '''	Node* infix = nullptr;
	const Token::Type::E op = start->type();

	// infix
	switch ( op ) {
		case Token::Type::MATH_ADDITION:
		case Token::Type::MATH_SUBTRACT: {		// infix +/- operators
			const Token operation = (*start);

			auto* exp = dynamic_cast<Expression*>( parseTerm(++start) );

			resolveType(start, exp->getResultType(), operation, std::string(_unary_));

			infix = new UnaryExpression(operation, exp, UnaryExpression::ValueType::RValue);
		} break;
		case Token::Type::OPERATOR_NOT: {		// infix ! operator
			const Token operation = (*start);

			infix = new BooleanUnaryExpression(operation, parseTerm(++start), UnaryExpression::ValueType::RValue);
		} break;
		default: {								// default term parsing
			infix = parseTerm(start);
		} break;
	}

	return parsePostfix(start, infix);''', '''	const Token operation = (*start);

	if ( operation.type() == Token::Type::OPERATOR_NOT ) {
		++start;

		Node* term = parseTerm(start);

		return parsePostfix(start, new BooleanUnaryExpression(operation, term, UnaryExpression::ValueType::RValue));
	}

	if ( operation.type() == Token::Type::MATH_ADDITION || operation.type() == Token::Type::MATH_SUBTRACT ) {
		++start;

		auto* exp = dynamic_cast<Expression*>( parseTerm(start) );

		resolveType(start, exp->getResultType(), operation, std::string(_unary_));

		return parsePostfix(start, new UnaryExpression(operation, exp, UnaryExpression::ValueType::RValue));
	}

	return parsePostfix(start, parseTerm(start));'''))
edit('gen-postfix-flat',
     (G, '''				op = start->type();
				if ( op != Token::Type::BRACKET_OPEN &&
					 op != Token::Type::OPERATOR_DECREMENT &&
					 op != Token::Type::OPERATOR_INCREMENT &&
					 op != Token::Type::OPERATOR_NOT &&
					 op != Token::Type::OPERATOR_SCOPE ) {
					return baseExp;
				}

				switch ( op ) {''', '''				switch ( start->type() ) {'''),
     (G, '''						baseExp = processPostfixScopeOperator(start, baseExp);
						break;
					default:
						break;
				}''', '''						baseExp = processPostfixScopeOperator(start, baseExp);
						break;
					default:
						return baseExp;
				}'''),
     (G, '''	Token::Type::E op = start->type();

	switch ( op ) {		// postfix''', '''	switch ( start->type() ) {		// postfix'''))
edit('gen-term-returns',
     (G, '''		case Token::Type::CONST_BOOLEAN: {
			term = new BooleanLiteralExpression(Utils::Tools::stringToBool(start->content()));
			++start;
		} break;
''', '''		case Token::Type::CONST_BOOLEAN: {
			const bool value = Utils::Tools::stringToBool(start->content());
			++start;

			return new BooleanLiteralExpression(value);
		}
'''),
     (G, '''			if( value >= INT_MIN && value <= INT_MAX ) {
				term = new Int32LiteralExpression(value);
			}
			else {
				term = new Int64LiteralExpression(value);
			}
''', '''			const bool needs64Bit = value < INT_MIN || value > INT_MAX;

			if ( needs64Bit ) {
				term = new Int64LiteralExpression(value);
			}
			else {
				term = new Int32LiteralExpression(value);
			}
'''))
edit('gen-blueprint-single-condition',
     (G, '''	if ( object->isInterface() ) {
		// interfaces have no implementation, so there's nothing to parse; adieu..
		return;
	}
	if ( object->provideMethods().empty() && object->provideSymbols().empty() ) {
		// an object without methods and symbols... maybe a primitive?
		return;
	}
	if ( !object->getPrototypeConstraints().empty() ) {
		// skip prototypes
		return;
	}

	process( object );''', '''	const bool isEmpty = object->provideMethods().empty() && object->provideSymbols().empty();
	const bool isPrototype = !object->getPrototypeConstraints().empty();

	if ( !object->isInterface() && !isEmpty && !isPrototype ) {
		process( object );
	}'''),
     (G, '''	if ( scope->beginMethods() != scope->endMethods() ) {
		for ( auto it = scope->beginMethods(); it != scope->endMethods(); ++it ) {
			processMethod( dynamic_cast<Common::Method*>( (*it) ) );
		}
	}''', '''	std::for_each( scope->beginMethods(), scope->endMethods(), [this]( Common::Method* method ) {
		processMethod( method );
	});'''),
     (G, '#include <climits>\n', '#include <algorithm>\n#include <climits>\n'))
edit('gen-scope-operator-table',
     (G, '''	// handle literal types (like int, string, etc.)
	if ( infixPostfix->getResultType() == _bool ) {
		return processPostfixObjectOperator(std::string(_bool_object), start, infixPostfix);
	}
	if ( infixPostfix->getResultType() == _double ) {
		return processPostfixObjectOperator(std::string(_double_object), start, infixPostfix);
	}
	if ( infixPostfix->getResultType() == _float ) {
		return processPostfixObjectOperator(std::string(_float_object), start, infixPostfix);
	}
	if ( infixPostfix->getResultType() == _int16 ) {
		return processPostfixObjectOperator(std::string(_int_object), start, infixPostfix);
	}
	if ( infixPostfix->getResultType() == _int32 ) {
		return processPostfixObjectOperator(std::string(_int_object), start, infixPostfix);
	}
	if ( infixPostfix->getResultType() == _string ) {
		return processPostfixObjectOperator(std::string(_string_object), start, infixPostfix);
	}
''', '''	const std::string resultType = infixPostfix->getResultType();
	std::string objectType;

	// handle literal types (like int, string, etc.)
	if ( resultType == _bool ) {
		objectType = std::string(_bool_object);
	}
	else if ( resultType == _double ) {
		objectType = std::string(_double_object);
	}
	else if ( resultType == _float ) {
		objectType = std::string(_float_object);
	}
	else if ( resultType == _int16 || resultType == _int32 ) {
		objectType = std::string(_int_object);
	}
	else if ( resultType == _string ) {
		objectType = std::string(_string_object);
	}

	if ( !objectType.empty() ) {
		return processPostfixObjectOperator(objectType, start, infixPostfix);
	}
'''))
edit('gen-ternary-conditional',
     (G, '''	Node* condition = baseExp;
	Node* first = nullptr;
	Node* second = nullptr;

	// determine the type of the ternary operator
	if ( start->type() == Token::Type::COLON ) {
		// use short ternary operator: <expression> ?: <expression>
		first = condition;
	}
	else {
		// use long ternary operator: <expression> ? <expression> : <expression>
		first = expression(start);
	}

	expect(Token::Type::COLON, start);
	++start;

	second = expression(start);

	auto* ternaryExpression = new TernaryExpression(condition, first, second);''', '''	// short ternary operator: <expression> ?: <expression>, long ternary operator: <expression> ? <expression> : <expression>
	Node* first = start->type() == Token::Type::COLON ? baseExp : expression(start);

	expect(Token::Type::COLON, start);
	++start;

	auto* ternaryExpression = new TernaryExpression(baseExp, first, expression(start));'''))
edit('gen-parenthesised-helper',
     (G, '''	expect(Token::Type::PARENTHESIS_OPEN, token);
	++token;

	Node* exp = expression(token);

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	return new StringEvalExpression(exp);''', '''	return new StringEvalExpression(parseParenthesised(token));'''),
     (G, '''	expect(Token::Type::PARENTHESIS_OPEN, token);
	++token;

	Node* exp = expression(token);

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	return new TypeidExpression(exp);''', '''	return new TypeidExpression(parseParenthesised(token));'''),
     (G, '''	expect(Token::Type::PARENTHESIS_OPEN, token);
	++token;

	Node* exp = expression(token);

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	expect(Token::Type::SEMICOLON, token);
	++token;

	return new PrintStatement(start, exp);''', '''	Node* exp = parseParenthesised(token);

	expect(Token::Type::SEMICOLON, token);
	++token;

	return new PrintStatement(start, exp);'''),
     (G, '''Node* TreeGenerator::parsePostfix(TokenIterator& start, Node* baseExp)
{''', '''Node* TreeGenerator::parseParenthesised(TokenIterator& token)
{
	expect(Token::Type::PARENTHESIS_OPEN, token);
	++token;

	Node* result = expression(token);

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	return result;
}

Node* TreeGenerator::parsePostfix(TokenIterator& start, Node* baseExp)
{'''),
     (H, '''	void finalize();
''', '''	void finalize();
	Node* parseParenthesised(TokenIterator& token);
'''))
edit('gen-assignment-operation-helper',
     (G, '''		Token operation;

		switch ( op->type() ) {
			case Token::Type::ASSIGN_ADDITION:      operation = Token(Token::Category::Operator, Token::Type::MATH_ADDITION, "+", op->position()); break;
			case Token::Type::ASSIGN_BITAND:        operation = Token(Token::Category::Operator, Token::Type::BITAND, "&", op->position()); break;
			case Token::Type::ASSIGN_BITCOMPLEMENT: operation = Token(Token::Category::Operator, Token::Type::BITCOMPLEMENT, "~", op->position()); break;
			case Token::Type::ASSIGN_BITOR:         operation = Token(Token::Category::Operator, Token::Type::BITOR, "|", op->position()); break;
			case Token::Type::ASSIGN_DIVIDE:        operation = Token(Token::Category::Operator, Token::Type::MATH_DIVIDE, "/", op->position()); break;
			case Token::Type::ASSIGN_MODULO:        operation = Token(Token::Category::Operator, Token::Type::MATH_MODULO, "%", op->position()); break;
			case Token::Type::ASSIGN_MULTIPLY:      operation = Token(Token::Category::Operator, Token::Type::MATH_MULTIPLY, "*", op->position()); break;
			case Token::Type::ASSIGN_SUBTRACT:      operation = Token(Token::Category::Operator, Token::Type::MATH_SUBTRACT, "-", op->position()); break;
			default: throw Designtime::Exceptions::SyntaxError("assignment type expected", token->position());
		}
''', '''		const Token operation = compoundOperation(*op, token->position());
'''),
     (G, '''/*
 * syntax:
 * <lvalue> = <rvalue>
 */
Expression* TreeGenerator::process_assignment_expression''', '''namespace {

Token compoundOperation(const Token& op, const Common::Position& position)
{
	Token::Type::E type = Token::Type::UNKNOWN;
	std::string content;

	switch ( op.type() ) {
		case Token::Type::ASSIGN_ADDITION:      type = Token::Type::MATH_ADDITION; content = "+"; break;
		case Token::Type::ASSIGN_BITAND:        type = Token::Type::BITAND; content = "&"; break;
		case Token::Type::ASSIGN_BITCOMPLEMENT: type = Token::Type::BITCOMPLEMENT; content = "~"; break;
		case Token::Type::ASSIGN_BITOR:         type = Token::Type::BITOR; content = "|"; break;
		case Token::Type::ASSIGN_DIVIDE:        type = Token::Type::MATH_DIVIDE; content = "/"; break;
		case Token::Type::ASSIGN_MODULO:        type = Token::Type::MATH_MODULO; content = "%"; break;
		case Token::Type::ASSIGN_MULTIPLY:      type = Token::Type::MATH_MULTIPLY; content = "*"; break;
		case Token::Type::ASSIGN_SUBTRACT:      type = Token::Type::MATH_SUBTRACT; content = "-"; break;
		default: throw Designtime::Exceptions::SyntaxError("assignment type expected", position);
	}

	return Token(Token::Category::Operator, type, content, op.position());
}

}

/*
 * syntax:
 * <lvalue> = <rvalue>
 */
Expression* TreeGenerator::process_assignment_expression'''))
edit('gen-jump-helper',
     (G, '''	const Token start = (*token);
	mControlFlow = Runtime::ControlFlow::Break;

	if ( !mStackFrame->allowBreakAndContinue() ) {
		throw Common::Exceptions::ControlFlowException("break not allowed here", token->position());
	}

	expect(Token::Type::SEMICOLON, token);
	++token;

	return new BreakStatement(start);''', '''	const Token start = (*token);

	process_jump(token, Runtime::ControlFlow::Break, "break");

	return new BreakStatement(start);'''),
     (G, '''	const Token start = (*token);
	mControlFlow = Runtime::ControlFlow::Continue;

	if ( !mStackFrame->allowBreakAndContinue() ) {
		throw Common::Exceptions::ControlFlowException("continue not allowed here", token->position());
	}

	expect(Token::Type::SEMICOLON, token);
	++token;

	return new ContinueStatement(start);''', '''	const Token start = (*token);

	process_jump(token, Runtime::ControlFlow::Continue, "continue");

	return new ContinueStatement(start);'''),
     (G, '''Statement* TreeGenerator::process_keyword(TokenIterator& token)
{''', '''void TreeGenerator::process_jump(TokenIterator& token, Runtime::ControlFlow::E controlFlow, const std::string& keyword)
{
	mControlFlow = controlFlow;

	if ( !mStackFrame->allowBreakAndContinue() ) {
		throw Common::Exceptions::ControlFlowException(keyword + " not allowed here", token->position());
	}

	expect(Token::Type::SEMICOLON, token);
	++token;
}

Statement* TreeGenerator::process_keyword(TokenIterator& token)
{'''),
     (H, '''	void finalize();
''', '''	void finalize();
	void process_jump(TokenIterator& token, Runtime::ControlFlow::E controlFlow, const std::string& keyword);
'''))
edit('gen-copy-while',
     (G, '''	SymbolExpression* inner = exp;
	for ( ; ; ) {
		if ( inner->mSymbolExpression ) {
			inner = inner->mSymbolExpression;
		}
		else {
			auto type = exp->getResultType();

			Designtime::BluePrintObject* obj = mRepository->findBluePrintObject(type);
			if ( !obj ) {
				throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
			}

			inner->mSymbolExpression = new RuntimeSymbolExpression("Copy", type, true, true, obj->isAtomicType());
			inner->mSymbolExpression->mSurroundingScope = obj;

			if ( !inner->mSymbolExpression->mSurroundingScope ) {
				throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
			}
			break;
		}
	}
''', '''	SymbolExpression* inner = exp;
	while ( inner->mSymbolExpression ) {
		inner = inner->mSymbolExpression;
	}

	const auto type = exp->getResultType();

	Designtime::BluePrintObject* obj = mRepository->findBluePrintObject(type);
	if ( !obj ) {
		throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
	}

	inner->mSymbolExpression = new RuntimeSymbolExpression("Copy", type, true, true, obj->isAtomicType());
	inner->mSymbolExpression->mSurroundingScope = obj;
'''))
edit('gen-keyword-returns',
     (G, '''	Expression* expr = nullptr;

	const std::string keyword = (token++)->content();

	if ( keyword == KEYWORD_CAST ) {
		expr = process_cast(token);
	}
	else if ( keyword == KEYWORD_COPY ) {
		expr = process_copy(token);
	}
	else if ( keyword == KEYWORD_NEW ) {
		expr = process_new(token);
	}
	else if ( keyword == KEYWORD_STREVAL ) {
		expr = process_streval(token);
	}
	else if ( keyword == KEYWORD_TYPEID ) {
		expr = process_typeid(token);
	}
	else {
		throw Designtime::Exceptions::SyntaxError("invalid token '" + token->content() + "' found", token->position());
	}

	return expr;''', '''	const std::string keyword = token->content();
	++token;

	if ( keyword == KEYWORD_TYPEID ) {
		return process_typeid(token);
	}
	if ( keyword == KEYWORD_STREVAL ) {
		return process_streval(token);
	}
	if ( keyword == KEYWORD_NEW ) {
		return process_new(token);
	}
	if ( keyword == KEYWORD_COPY ) {
		return process_copy(token);
	}
	if ( keyword == KEYWORD_CAST ) {
		return process_cast(token);
	}

	throw Designtime::Exceptions::SyntaxError("invalid token '" + token->content() + "' found", token->position());'''))
edit('gen-warn-helper',
     (G, '''		condition = expression(token);

		if ( dynamic_cast<AssignmentExpression*>(condition) ) {
			OSwarn("Detected assignment expression that is used as conditional expression in " + token->position().toString());
		}
	}
''', '''		condition = conditionalExpression(token);
	}
'''),
     (G, '''	Node* exp = expression(token);

	if ( dynamic_cast<AssignmentExpression*>(exp) ) {
		OSwarn("Detected assignment expression that is used as conditional expression in " + token->position().toString());
	}

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	Node* ifBlock''', '''	Node* exp = conditionalExpression(token);

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	Node* ifBlock'''),
     (G, '''	Node* exp = expression(token);

	if ( dynamic_cast<AssignmentExpression*>(exp) ) {
		OSwarn("Detected assignment expression that is used as conditional expression in " + token->position().toString());
	}

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	return new WhileStatement''', '''	Node* exp = conditionalExpression(token);

	expect(Token::Type::PARENTHESIS_CLOSE, token);
	++token;

	return new WhileStatement'''),
     (G, '''void TreeGenerator::finalize()
{''', '''Node* TreeGenerator::conditionalExpression(TokenIterator& token)
{
	Node* result = expression(token);

	if ( dynamic_cast<AssignmentExpression*>(result) ) {
		OSwarn("Detected assignment expression that is used as conditional expression in " + token->position().toString());
	}

	return result;
}

void TreeGenerator::finalize()
{'''),
     (H, '''	void finalize();
''', '''	Node* conditionalExpression(TokenIterator& token);
	void finalize();
'''))
edit('gen-foreach-lookup-helper',
     (G, '''	{	// look up "hasNext" method in given iterator
		SymbolExpression* expr = new DesigntimeSymbolExpression("hasNext", _bool, PrototypeConstraints(), true);
		expr->mSurroundingScope = iterator;

		hasNextExpression = process_method(expr, *token, ExpressionList());
	}
''', '''	const auto lookup = [&]( const std::string& name, const std::string& type, bool isAtomic ) {
		SymbolExpression* expr = new DesigntimeSymbolExpression(name, type, PrototypeConstraints(), isAtomic);
		expr->mSurroundingScope = iterator;

		return process_method(expr, *token, ExpressionList());
	};

	hasNextExpression = lookup("hasNext", std::string(_bool), true);
'''),
     (G, '''		SymbolExpression* expr = new DesigntimeSymbolExpression("next", typeDeclaration->mType, PrototypeConstraints(), false);
		expr->mSurroundingScope = iterator;

		nextExpression = process_method(expr, *token, ExpressionList());
''', '''		nextExpression = lookup("next", typeDeclaration->mType, false);
'''))
edit('gen-identifier-cast-once',
     (G, '''	auto op = token;

	// type cast (followed by expression, identifier, literal, 'copy' or 'new' keyword)
	if ( allowTypeCast &&
		((op->category() == Token::Category::Constant || op->type() == Token::Type::IDENTIFIER || op->type() == Token::Type::KEYWORD) ||
		 (dynamic_cast<DesigntimeSymbolExpression*>(symbol) && dynamic_cast<DesigntimeSymbolExpression*>(symbol)->isPrototype()))
		) {''', '''	auto op = token;

	auto* designtimeSymbol = dynamic_cast<DesigntimeSymbolExpression*>(symbol);
	const bool isPrototype = designtimeSymbol && designtimeSymbol->isPrototype();
	const bool startsOperand = op->category() == Token::Category::Constant || op->type() == Token::Type::IDENTIFIER || op->type() == Token::Type::KEYWORD;

	// type cast (followed by expression, identifier, literal, 'copy' or 'new' keyword)
	if ( allowTypeCast && (startsOperand || isPrototype) ) {'''),
     (G, '''	else if ( !allowTypeCast &&
		((op->type() == Token::Type::IDENTIFIER) ||
		 (dynamic_cast<DesigntimeSymbolExpression*>(symbol) && dynamic_cast<DesigntimeSymbolExpression*>(symbol)->isPrototype()))
		) {''', '''	else if ( !allowTypeCast && (op->type() == Token::Type::IDENTIFIER || isPrototype) ) {'''))
edit('gen-method-params-local',
     (G, '''		params.emplace_back(Parameter::CreateDesigntime(
			ANONYMOUS_OBJECT,
			Common::TypeDeclaration(dynamic_cast<Expression*>(expr)->getResultType(), PrototypeConstraints(), dynamic_cast<Expression*>(expr)->isConst() ? Mutability::Const : Mutability::Modify),
			Runtime::AtomicValue(),
			false,
			dynamic_cast<Expression*>(expr)->isConst() ? Mutability::Const : Mutability::Modify,
			dynamic_cast<Expression*>(expr)->isAtomicType() ? AccessMode::ByValue : AccessMode::ByReference
		));''', '''		const auto* argument = dynamic_cast<Expression*>(expr);
		const auto mutability = argument->isConst() ? Mutability::Const : Mutability::Modify;
		const auto access = argument->isAtomicType() ? AccessMode::ByValue : AccessMode::ByReference;

		params.emplace_back(Parameter::CreateDesigntime(
			ANONYMOUS_OBJECT,
			Common::TypeDeclaration(argument->getResultType(), PrototypeConstraints(), mutability),
			Runtime::AtomicValue(),
			false,
			mutability,
			access
		));'''),
     (G, '''	for ( ; expectedIt != expectedParams.cend(); ++expectedIt ) {
		if ( providedIt != params.end() ) {
			// validate constness
			if ( expectedIt->mAccessMode == AccessMode::ByReference &&
				 (expectedIt->mMutability == Mutability::Modify && providedIt->mMutability == Mutability::Const) ) {
				throw Common::Exceptions::ConstCorrectnessViolated("expected a modifiable by reference parameter", token.position());
			}
''', '''	for ( ; expectedIt != expectedParams.cend() && providedIt != params.cend(); ++expectedIt, ++providedIt ) {
			// validate constness
			if ( expectedIt->mAccessMode == AccessMode::ByReference &&
				 expectedIt->mMutability == Mutability::Modify &&
				 providedIt->mMutability == Mutability::Const ) {
				throw Common::Exceptions::ConstCorrectnessViolated("expected a modifiable by reference parameter", token.position());
			}
'''),
     (G, '''			++providedIt;
			continue;
		}

		// not enough parameters provided; this is okay because our called method can have default parameters
		break;
	}
''', '''	}
'''))
edit('gen-method-checks-helper',
     (G, '''	// prevent calls to modifiable methods from const methods
	if ( mMethod->isConstMethod() && mMethod->getEnclosingScope() == method->getEnclosingScope() && !method->isConstMethod() && method->getMethodType() == MethodType::Method ) {''', '''	const bool sameScope = method->getEnclosingScope() == mMethod->getEnclosingScope();
	const bool isOrdinary = method->getMethodType() == MethodType::Method;

	// prevent calls to modifiable methods from const methods
	if ( sameScope && isOrdinary && mMethod->isConstMethod() && !method->isConstMethod() ) {'''),
     (G, '''	if ( mMethod->getEnclosingScope() == method->getEnclosingScope() && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method ) {''', '''	if ( sameScope && isOrdinary && mMethod->isStatic() && !method->isStatic() ) {'''),
     (G, '''method->isConst(), method->getEnclosingScope() == mMethod->getEnclosingScope());
}''', '''method->isConst(), sameScope);
}'''))
edit('gen-new-while',
     (G, '''	std::string type;

	SymbolExpression* inner = exp;
	for ( ; ; ) {
		if ( inner->mSymbolExpression ) {
			inner = inner->mSymbolExpression;
		}
		else {
			const PrototypeConstraints constraints = dynamic_cast<DesigntimeSymbolExpression*>(inner)->mConstraints;

			const Common::TypeDeclaration typeDeclaration(inner->getResultType(), constraints);
			mRepository->prepareType(typeDeclaration);

			type = Designtime::Parser::buildRuntimeConstraintTypename(
				typeDeclaration.mName,
				typeDeclaration.mConstraints
			);

			inner->mSymbolExpression = new DesigntimeSymbolExpression(RESERVED_WORD_CONSTRUCTOR, _void, PrototypeConstraints(), false);
			inner->mSymbolExpression->mSurroundingScope = mRepository->findBluePrintObject(type);

			if ( !inner->mSymbolExpression->mSurroundingScope ) {
				throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
			}
			break;
		}
	}
''', '''	SymbolExpression* inner = exp;
	while ( inner->mSymbolExpression ) {
		inner = inner->mSymbolExpression;
	}

	const Common::TypeDeclaration typeDeclaration(inner->getResultType(), dynamic_cast<DesigntimeSymbolExpression*>(inner)->mConstraints);
	mRepository->prepareType(typeDeclaration);

	const std::string type = Designtime::Parser::buildRuntimeConstraintTypename(
		typeDeclaration.mName,
		typeDeclaration.mConstraints
	);

	auto* constructor = new DesigntimeSymbolExpression(RESERVED_WORD_CONSTRUCTOR, _void, PrototypeConstraints(), false);
	constructor->mSurroundingScope = mRepository->findBluePrintObject(type);
	inner->mSymbolExpression = constructor;

	if ( !constructor->mSurroundingScope ) {
		throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
	}
'''))
edit('gen-switch-case-helper',
     (G, '''			const Token startToken = (*token);

			// skip case-label
			++token;

			Node* caseExpression = expression(token);

			expect(Token::Type::COLON, token);
			++token;

			// process case-block tokens
			caseStatements.push_back(
				new CaseStatement(startToken, caseExpression, process_scope(token, true, true))
			);
''', '''			caseStatements.push_back(process_case(token));
'''),
     (G, '''Statement* TreeGenerator::process_keyword(TokenIterator& token)
{''', '''CaseStatement* TreeGenerator::process_case(TokenIterator& token)
{
	const Token start = (*token);

	++token;	// skip case-label

	Node* caseExpression = expression(token);

	expect(Token::Type::COLON, token);
	++token;

	Statements* block = process_scope(token, true, true);

	return new CaseStatement(start, caseExpression, block);
}

Statement* TreeGenerator::process_keyword(TokenIterator& token)
{'''),
     (H, '''	void finalize();
''', '''	void finalize();
	CaseStatement* process_case(TokenIterator& token);
'''),
     (G, '''	const auto* enumExp = dynamic_cast<Expression*>(switchExpression);
	if ( enumExp ) {
''', '''	if ( const auto* enumExp = dynamic_cast<Expression*>(switchExpression) ) {
'''),
     (G, '''			if ( available > used ) {
				// no default''', '''			if ( used < available ) {
				// no default'''))
edit('gen-try-catch-helper',
     (G, '''	for ( ; ; ) {
		if ( tmp != localEnd && tmp->content() == KEYWORD_CATCH ) {
			const Token startToken''', '''	while ( tmp != localEnd ) {
		if ( tmp->content() == KEYWORD_CATCH ) {
			const Token startToken'''),
     (G, '''		else if ( tmp != localEnd && tmp->content() == KEYWORD_FINALLY ) {''', '''		else if ( tmp->content() == KEYWORD_FINALLY ) {'''))
edit('gen-type-order',
     (G, '''	if ( token->type() == Token::Type::ASSIGN ) {
		if ( initialization != Initialization::Allowed ) {
			// type declaration without initialization has been requested
			throw Common::Exceptions::NotSupported("initialization is not allowed here", token->position());
		}

		const Token operation(*token);

		assignmentExp = dynamic_cast<Expression*>( expression( ++token ) );
''', '''	const bool hasInitialization = token->type() == Token::Type::ASSIGN;

	if ( hasInitialization && initialization != Initialization::Allowed ) {
		// type declaration without initialization has been requested
		throw Common::Exceptions::NotSupported("initialization is not allowed here", token->position());
	}

	if ( hasInitialization ) {
		const Token operation(*token);
		++token;

		assignmentExp = dynamic_cast<Expression*>( expression( token ) );
'''))
edit('gen-pushscope',
     (G, '''	const bool allowDelete = !scope;

	if ( !scope ) {
		scope = new SymbolScope(mStackFrame->getScope());
	}

	mStackFrame->pushScope(scope, allowDelete, allowBreakAndContinue || mStackFrame->allowBreakAndContinue());''', '''	const bool allowJumps = allowBreakAndContinue || mStackFrame->allowBreakAndContinue();

	if ( scope ) {
		mStackFrame->pushScope(scope, false, allowJumps);
	}
	else {
		mStackFrame->pushScope(new SymbolScope(mStackFrame->getScope()), true, allowJumps);
	}'''))
edit('gen-resolve-visibility-helper',
     (G, '''		if ( name == IDENTIFIER_BASE ) {
			visibility = Visibility::Protected;		// this allows us to access protected and public members/methods of our base class
		}
		else if ( name == IDENTIFIER_THIS ) {
			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
		}
		else if ( mThis && dynamic_cast<Runtime::Object*>(result)
			   && mThis == dynamic_cast<Runtime::Object*>(result)->getBluePrint() ) {
			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
		}
''', '''		const auto* instance = dynamic_cast<Runtime::Object*>(result);

		if ( name == IDENTIFIER_BASE ) {
			visibility = Visibility::Protected;
		}
		else if ( name == IDENTIFIER_THIS || (mThis && instance && instance->getBluePrint() == mThis) ) {
			visibility = Visibility::Private;
		}
'''),
     (G, '''	Symbol* result = base->resolve(name, onlyCurrentScope, !onlyCurrentScope ? Visibility::Private : visibility);''', '''	Symbol* result = base->resolve(name, onlyCurrentScope, onlyCurrentScope ? visibility : Visibility::Private);'''),
     (G, '''			scope = object->isAtomicType() ? nullptr : object->getBluePrint();
			type = object->QualifiedTypename();
''', '''			type = object->QualifiedTypename();
			if ( !object->isAtomicType() ) {
				scope = object->getBluePrint();
			}
'''))
edit('gen-resolvemethod-while',
     (G, '''	bool onlyCurrentScope = false;

	const SymbolExpression* inner = symbol;
	for ( ; ; ) {
		if ( inner->mSymbolExpression && inner->mSymbolExpression->mSurroundingScope ) {
			onlyCurrentScope = true;

			inner = inner->mSymbolExpression;
			continue;
		}

		break;
	}
''', '''	bool onlyCurrentScope = false;

	const SymbolExpression* inner = symbol;
	while ( inner->mSymbolExpression && inner->mSymbolExpression->mSurroundingScope ) {
		inner = inner->mSymbolExpression;
		onlyCurrentScope = true;
	}
'''))
edit('gen-resolvetype-helper',
     (G, '''	auto* l = dynamic_cast<Expression*>(left);
	if ( !l ) {
		throw Designtime::Exceptions::SyntaxError("invalid left expression");
	}

	std::string leftType = l->getResultType();
	if ( dynamic_cast<DesigntimeSymbolExpression*>(l) ) {
		leftType = Designtime::Parser::buildRuntimeConstraintTypename(leftType, dynamic_cast<DesigntimeSymbolExpression*>(l)->mConstraints);
	}

	auto* r = dynamic_cast<Expression*>(right);
	if ( !r ) {
		throw Designtime::Exceptions::SyntaxError("invalid right expression");
	}

	std::string rightType = r->getResultType();
	if ( dynamic_cast<DesigntimeSymbolExpression*>(r) ) {
		rightType = Designtime::Parser::buildRuntimeConstraintTypename(rightType, dynamic_cast<DesigntimeSymbolExpression*>(r)->mConstraints);
	}

	return resolveType(token, leftType, operation, rightType);''', '''	const std::string leftType = runtimeType(left, "left");
	const std::string rightType = runtimeType(right, "right");

	return resolveType(token, leftType, operation, rightType);'''),
     (G, '''std::string TreeGenerator::resolveType(TokenIterator& token, Node* left, const Token& operation, Node* right) const
{''', '''namespace {

std::string runtimeType(Node* node, const std::string& side)
{
	auto* exp = dynamic_cast<Expression*>(node);
	if ( !exp ) {
		throw Designtime::Exceptions::SyntaxError("invalid " + side + " expression");
	}

	const auto* symbol = dynamic_cast<DesigntimeSymbolExpression*>(exp);
	if ( !symbol ) {
		return exp->getResultType();
	}

	return Designtime::Parser::buildRuntimeConstraintTypename(exp->getResultType(), symbol->mConstraints);
}

}

std::string TreeGenerator::resolveType(TokenIterator& token, Node* left, const Token& operation, Node* right) const
{'''))
edit('gen-withthis-early',
     (G, '''    if ( mThis ) {
        // every class-method has a "this" local that points to the object's blueprint
        // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
        SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
        if ( exp ) {
            // insert "this" symbol as "parent" of our recently resolved symbol
            SymbolExpression* symbol = new RuntimeSymbolExpression(IDENTIFIER_THIS, mThis->QualifiedTypename(), mMethod->isConstMethod(), true, false);
            symbol->mSymbolExpression = exp;

            return symbol;
        }
    }

    return resolveWithExceptions(token, base);''', '''    // every class-method has a "this" local that points to the object's blueprint
    SymbolExpression* member = mThis ? resolve(token, mThis, true, Visibility::Private) : nullptr;
    if ( !member ) {
        return resolveWithExceptions(token, base);
    }

    auto* parent = new RuntimeSymbolExpression(IDENTIFIER_THIS, mThis->QualifiedTypename(), mMethod->isConstMethod(), true, false);
    parent->mSymbolExpression = member;

    return parent;'''))

"""More edits: tokenizer, parser, repository, type system, tree generator."""
from refactorings import edit, C
TK = C + 'Designtime/Parser/Tokenizer.cpp'
TKH = C + 'Designtime/Parser/Tokenizer.h'
PA = C + 'Designtime/Parser/Parser.cpp'
PAH = C + 'Designtime/Parser/Parser.h'
RE = C + 'VirtualMachine/Repository.cpp'
REH = C + 'VirtualMachine/Repository.h'

DIGITS = '''		switch ( %s ) {
			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
			case '0':
				break;
			default:
				return false;
		}
'''
DIGITLOOP = '''	for ( unsigned int c = 0; c < token.size() - 1; c++ ) {
''' + DIGITS % 'token[c]' + '''	}

	// the last char of our token has to be a%s '%s'
'''
edit('tok-digits-helper',
     (TK, DIGITLOOP % ('', 'd'), '''	if ( !startsWithDigits(token, token.size() - 1) ) {
		return false;
	}

'''),
     (TK, DIGITLOOP % ('n', 'f'), '''	if ( !startsWithDigits(token, token.size() - 1) ) {
		return false;
	}

'''),
     (TK, DIGITLOOP % ('n', 'i'), '''	if ( !startsWithDigits(token, token.size() - 1) ) {
		return false;
	}

'''),
     (TK, '''bool Tokenizer::isAccessMode(''', '''static bool startsWithDigits(const std::string& token, std::string::size_type count)
{
	for ( std::string::size_type c = 0; c < count; ++c ) {
		if ( token[c] < '0' || token[c] > '9' ) {
			return false;
		}
	}

	return true;
}

bool Tokenizer::isAccessMode('''))
edit('tok-digits-range',
     (TK, '''	for ( const char& c : token ) {
''' + DIGITS % 'c', '''	for ( auto it = token.begin(); it != token.end(); ++it ) {
		const bool digit = *it >= '0' && *it <= '9';

		if ( !digit ) {
			return false;
		}
'''))
edit('tok-digits-isdigit',
     (TK, '''	for ( const char& c : token ) {
''' + DIGITS % 'c', '''	for ( unsigned char c : token ) {
		if ( !std::isdigit(c) ) {
			return false;
		}
'''))
edit('tok-literal',
     (TK, '''	if ( token.size() > 1 ) {
		return token.front() == DOUBLE_QUOTE && token.back() == DOUBLE_QUOTE;
	}

	return false;
''', '''	return token.size() >= 2 && token[0] == DOUBLE_QUOTE && token[token.size() - 1] == DOUBLE_QUOTE;
'''))
edit('tok-suffix-helper',
     (TK, '''	return token[token.size() - 1] == 'd';
''', '''	return lastChar(token) == 'd';
'''),
     (TK, '''	return token[token.size() - 1] == 'f';
''', '''	return lastChar(token) == 'f';
'''),
     (TK, '''	return token[token.size() - 1] == 'i';
''', '''	return lastChar(token) == 'i';
'''),
     (TK, '''bool Tokenizer::isAccessMode(''', '''static char lastChar(const std::string& token)
{
	return token.back();
}

bool Tokenizer::isAccessMode('''))
edit('tok-member-count',
     (TK, '''	return mKeyword.find(token) != mKeyword.end();
''', '''	return mKeyword.count(token) > 0;
'''),
     (TK, '''	return mModifier.find(token) != mModifier.end();
''', '''	auto it = mModifier.find(token);
	if ( it == mModifier.end() ) {
		return false;
	}
	return true;
'''))


def merge_lambda(text):
    import re
    text = text.replace('''		bool changed{ false };
		Token::Type::E currentType{ token->type() };
''', '''		bool changed{ false };
		Token::Type::E currentType{ token->type() };

		auto replaceLast = [&](Token::Category::E category, Token::Type::E type, const char* content) {
			changed = true;
			tmp.pop_back();
			tmp.emplace_back( category, type, content, token->position() );
		};
''')
    return re.sub(r'''			changed = true;
			// remove last added token ...
			tmp.pop_back\(\);
			// ... and add \w+ instead
			tmp.emplace_back\( (.*?), token->position\(\) \);
''', r'''			replaceLast(\1);
''', text)


def whole(file, start, end):
    s = open('/repo/' + file, newline='').read().replace('\r\n', '\n')
    i = s.index(start)
    return s[i:s.index(end, i)]


MERGE = whole(TK, 'void Tokenizer::mergeAssignments()', '\n/*\n * This merges all integer')
edit('tok-merge-lambda', (TK, MERGE, merge_lambda(MERGE)))


def merge_helper(text):
    import re
    text = text.replace('bool changed{ false };', 'bool changed{ true };')
    text = re.sub(r'''			changed = true;
			// remove last added token ...
			tmp.pop_back\(\);
			// ... and add \w+ instead
			tmp.emplace_back\( (.*?) \);
''', r'''			replaceLast(tmp, Token( \1 ));
''', text)
    text = text.replace('''		if ( !changed ) {
			tmp.emplace_back((*token));
		}
''', '''		else {
			tmp.emplace_back((*token));
			changed = false;
		}
''').replace('bool changed{ true };', '').replace('			changed = false;\n', '').replace('''		}

		else {''', '''		}
		else {''')
    return '''static void replaceLast(TokenList& tokens, const Token& token)
{
	tokens.pop_back();
	tokens.push_back(token);
}

''' + text.replace('''	while ( token != mTokens.end() ) {
''', '''	for ( ; token != mTokens.end(); ++token ) {
''').replace('''
		++token;
	}
''', '''	}
''')


edit('tok-merge-helper', (TK, MERGE, merge_helper(MERGE)))
edit('tok-add-early',
     (TK, '''	if ( token.content().empty() && token.type() == Token::Type::UNKNOWN ) {
		// ignore this non-existing token
		return;
	}

	// only add valid tokens to our token list
	mTokens.emplace_back( token );
''', '''	const bool missing = token.type() == Token::Type::UNKNOWN && token.content().empty();
	if ( !missing ) {
		mTokens.push_back( token );
	}
'''))
edit('tok-process-flags',
     (TK, '''		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
			isSingleLineComment = true;
		}
		// single line comments '//'
		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '/' ) {
			isSingleLineComment = true;
			// remove last inserted token
			mTokens.pop_back();
		}
		// multi line comments '/*'
		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '*' ) {
			isMultiLineComment = true;
			// remove last inserted token
			mTokens.pop_back();
			// this '*' does not end the comment
			currentChar = 0;
		}
''', '''		const bool insideCode = !(isMultiLineComment || isSingleLineComment || isString);
		if ( insideCode ) {
			if ( currentChar == '#' ) {
				isSingleLineComment = true;
			}
			else if ( previousChar == '/' && (currentChar == '/' || currentChar == '*') ) {
				if ( currentChar == '/' ) {
					isSingleLineComment = true;
				}
				else {
					isMultiLineComment = true;
				}
				// remove last inserted token
				mTokens.pop_back();
				if ( isMultiLineComment ) {
					currentChar = 0;
				}
			}
		}
'''))
edit('tok-process-for',
     (TK, '''	while ( offset <= size ) {
		char currentChar{ mContent[offset++] };
''', '''	for ( ; offset <= size; ++offset ) {
		char currentChar{ mContent[offset] };
'''))
edit('tok-process-string',
     (TK, '''			if ( isEscapeSequence ) {
				token += currentChar;

				isEscapeSequence = false;
				currentChar = 0;
			}
			else {
				if ( currentChar == '"' ) {
					isString = !isString;
				}
				else if ( isString && currentChar == '\\\\' ) {
					isEscapeSequence = true;
				}
			}
''', '''			if ( !isEscapeSequence ) {
				if ( currentChar == '\\\\' && isString ) {
					isEscapeSequence = true;
				}
				else if ( currentChar == '"' ) {
					isString = isString ? false : true;
				}
			}
			else {
				isEscapeSequence = false;
				token.push_back(currentChar);
				currentChar = '\\0';
			}
'''))
edit('tok-operators-split',
     (TK, '''		if ( last != mTokens.end() && (last->category() == Token::Category::Assignment || last->category() == Token::Category::Operator) &&
				  token->type() == Token::Type::RESERVED_WORD && token->content() == RESERVED_WORD_OPERATOR ) {
''', '''		const auto isOperatorKeyword = [](const Token& t) {
			return t.type() == Token::Type::RESERVED_WORD && t.content() == RESERVED_WORD_OPERATOR;
		};

		if ( last != mTokens.end() && (last->category() == Token::Category::Assignment || last->category() == Token::Category::Operator) &&
				  isOperatorKeyword(*token) ) {
'''),
     (TK, '''		else if ( last != mTokens.end() && last->type() == Token::Type::RESERVED_WORD && last->content() == RESERVED_WORD_OPERATOR ) {
''', '''		else if ( last != mTokens.end() && isOperatorKeyword(*last) ) {
'''),
     (TK, '''		last = token++;
	}
}
''', '''		last = token;
		++token;
	}
}
'''))
edit('tok-add-helper',
     (TK, '''	if ( !token.empty() ) {
		pos.mColumn--;	// the terminating character is not part of the source
		addToken(token, pos);
	}

	addToken(Token(Token::Type::ENDOFFILE));	// add end of file token

''', '''	finish(token, pos);

'''),
     (TKH, '''	static inline bool isBoolean(const std::string& token) ;
''', '''	void finish(const std::string& token, Common::Position pos);

	static inline bool isBoolean(const std::string& token) ;
'''),
     (TK, '''void Tokenizer::process()
''', '''void Tokenizer::finish(const std::string& token, Common::Position pos)
{
	if ( !token.empty() ) {
		--pos.mColumn;
		addToken(token, pos);
	}

	Token end(Token::Type::ENDOFFILE);
	addToken(end);
}

void Tokenizer::process()
'''))

# parser ---------------------------------------------------------------------------------------------------------
edit('par-constraint-typename',
     (PA, '''	std::string type = name;
	type += "<";
	for ( auto it = constraints.cbegin(); it != constraints.cend(); ++it ) {
		type += it->mRunType.empty() ? _object : it->mRunType;

		if ( std::distance(it, constraints.end()) > 1 ) {
			type += ",";
		}
	}
	type += ">";

	return type;
''', '''	std::string type = name + "<";
	for ( auto it = constraints.cbegin(); it != constraints.cend(); ++it ) {
		if ( it->mRunType.empty() ) {
			type += _object;
		}
		else {
			type += it->mRunType;
		}

		if ( std::distance(it, constraints.end()) > 1 ) {
			type += ",";
		}
	}

	return type + ">";
'''))
edit('par-merge-for',
     (PA, '''	while ( designIt != designtime.end() ) {
		result.emplace_back(
			PrototypeConstraint(designIt->mIndex, designIt->mDesignType, runIt->mRunType, designIt->mConstraint)
		);

		++designIt;
		++runIt;
	}
''', '''	for ( ; designIt != designtime.end(); ++designIt, ++runIt ) {
		PrototypeConstraint merged(designIt->mIndex, designIt->mDesignType, runIt->mRunType, designIt->mConstraint);

		result.push_back(merged);
	}
'''))
edit('par-inherit-helper',
     (PA, whole(PA, '		if ( token->content() == RESERVED_WORD_EXTENDS ) {', '		else if ( token->type() == Token::Type::COMMA ) {\n'), '''		const std::string word = token->content();
		if ( word == RESERVED_WORD_EXTENDS || word == RESERVED_WORD_IMPLEMENTS || word == RESERVED_WORD_REPLICATES ) {
			checkReplication(replicates);

			++token;	// consume token

			if ( word == RESERVED_WORD_EXTENDS ) {
				inheritance = Ancestor::Type::Extends;
			}
			else if ( word == RESERVED_WORD_IMPLEMENTS ) {
				inheritance = Ancestor::Type::Implements;
			}
			else {
				inheritance = Ancestor::Type::Replicates;
				replicates = true;
			}
		}
'''),
     (PA, '''Ancestors Parser::collectInheritance(''', '''static void checkReplication(bool replicates)
{
	if ( replicates ) {
		throw Exceptions::SyntaxError("combinations with 'replicates' are not allowed");
	}
}

Ancestors Parser::collectInheritance('''))
edit('par-scope-tokens',
     (PA, '''	while ( (++token)->type() != Token::Type::BRACKET_CURLY_CLOSE || scope > 0 ) {
		if ( token->type() == Token::Type::BRACKET_CURLY_OPEN ) {
			++scope;
		}
		if ( token->type() == Token::Type::BRACKET_CURLY_CLOSE ) {
			--scope;
		}

		tokens.emplace_back((*token));
	}
''', '''	for ( ; ; ) {
		++token;

		const auto kind = token->type();
		if ( kind == Token::Type::BRACKET_CURLY_CLOSE && scope <= 0 ) {
			break;
		}

		if ( kind == Token::Type::BRACKET_CURLY_OPEN ) {
			scope += 1;
		}
		else if ( kind == Token::Type::BRACKET_CURLY_CLOSE ) {
			scope -= 1;
		}

		tokens.push_back(*token);
	}
'''))
edit('par-identify',
     (PA, '''	while ( (token++)->type() == Token::Type::IDENTIFIER ) {
		if ( token->type() != Token::Type::OPERATOR_SCOPE ) {
			break;
		}

		// add next token to type definition
		type += token->content();
		type += (++token)->content();
	}

	return type;
''', '''	for ( ; ; ) {
		const bool identifier = token->type() == Token::Type::IDENTIFIER;
		++token;

		if ( !identifier || token->type() != Token::Type::OPERATOR_SCOPE ) {
			return type;
		}

		// add next token to type definition
		type += token->content();
		++token;
		type += token->content();
	}
'''))
edit('par-constraints-tail',
     (PA, '''			if ( token->type() == Token::Type::IDENTIFIER ) {
				constraint = token->content();
			}
			else {
				throw Exceptions::SyntaxError("unexpected token '" + token->content() + "' found", token->position());
			}

			++token;
''', '''			if ( token->type() != Token::Type::IDENTIFIER ) {
				throw Exceptions::SyntaxError("unexpected token '" + token->content() + "' found", token->position());
			}

			constraint = token->content();
			++token;
'''),
     (PA, '''		constraints.emplace_back(
			PrototypeConstraint(index, designType, runType, constraint)
		);

		// prepare next iteration
		constraint = "";
		++index;
''', '''		constraints.push_back(
			PrototypeConstraint(index++, designType, runType, constraint)
		);

		// prepare next iteration
		constraint.clear();
'''))
edit('par-value-helper',
     (PA, '''		case Token::Type::CONST_DOUBLE:
			if ( type != _double ) {
				throw Exceptions::DesigntimeException("invalid initialization value type provided: " + type, token->position());
			}
''', '''		case Token::Type::CONST_DOUBLE:
			checkInitialization(type, _double, token);
'''),
     (PA, '''		case Token::Type::CONST_FLOAT:
			if ( type != _float ) {
				throw Exceptions::DesigntimeException("invalid initialization value type provided: " + type, token->position());
			}
''', '''		case Token::Type::CONST_FLOAT:
			checkInitialization(type, _float, token);
'''),
     (PA, '''Runtime::AtomicValue Parser::parseValueInitialization(''', '''static void checkInitialization(const std::string& type, const std::string& expected, const TokenIterator& token)
{
	if ( type == expected ) {
		return;
	}

	throw Exceptions::DesigntimeException("invalid initialization value type provided: " + type, token->position());
}

Runtime::AtomicValue Parser::parseValueInitialization('''))
edit('par-visibility',
     (PA, '''	Visibility::E result = defaultValue;

	if ( token->type() == Token::Type::VISIBILITY ) {
		result = Visibility::convert((*token++).content());
	}

	return result;
''', '''	if ( token->type() != Token::Type::VISIBILITY ) {
		return defaultValue;
	}

	const auto result = Visibility::convert(token->content());
	++token;

	return result;
'''))
edit('par-typedecl',
     (PA, '''	if ( scope && scope->getScopeType() == IScope::IType::NamedScope ) {
		result.mConstraints = collectRuntimePrototypeConstraints(token);
	}
	else {
		result.mConstraints = collectDesigntimePrototypeConstraints(token);
	}
''', '''	const bool runtime = scope != nullptr && scope->getScopeType() == IScope::IType::NamedScope;
	result.mConstraints = runtime ? collectRuntimePrototypeConstraints(token) : collectDesigntimePrototypeConstraints(token);
'''))

# repository -----------------------------------------------------------------------------------------------------
edit('repo-find',
     (RE, '''	auto it = mBluePrintObjects.find(type);

	if ( it != mBluePrintObjects.end() ) {
		return it->second;
	}

	return nullptr;
''', '''	const auto it = mBluePrintObjects.find(type);

	return it == mBluePrintObjects.end() ? nullptr : it->second;
'''))
edit('repo-copy-helper',
     (RE, '''			symbol->setBluePrint(blue);
			symbol->setIsReference(!blue->isEnumeration() && blue->isReference());
			symbol->setLanguageFeatureState(blue->getLanguageFeatureState());
			symbol->setMember(blue->isMember());
			symbol->setMutability(blue->getMutability());
			symbol->setParent(object);
			symbol->setValue(blue->getValue());
			symbol->setVisibility(blue->getVisibility());

			object->defineMember(symbol->getName(), symbol);
''', '''			copyAttributes(symbol, blue);
			symbol->setIsReference(!blue->isEnumeration() && blue->isReference());
			symbol->setParent(object);
			symbol->setValue(blue->getValue());

			object->defineMember(symbol->getName(), symbol);
'''),
     (RE, '''	object->setBluePrint(blueprint);
	object->setIsReference(blueprint->isReference());
	object->setLanguageFeatureState(blueprint->getLanguageFeatureState());
	object->setMember(blueprint->isMember());
	object->setMemoryLayout(blueprint->getMemoryLayout());
	object->setMutability(blueprint->getMutability());
	object->setParent(parent);
	object->setVisibility(blueprint->getVisibility());
''', '''	copyAttributes(object, blueprint);
	object->setIsReference(blueprint->isReference());
	object->setMemoryLayout(blueprint->getMemoryLayout());
	object->setParent(parent);
'''),
     (RE, '''/*
 * creates (and initializes) atomic types and''', '''static void copyAttributes(Runtime::Object* object, Designtime::BluePrintObject* blueprint)
{
	object->setBluePrint(blueprint);
	object->setLanguageFeatureState(blueprint->getLanguageFeatureState());
	object->setMember(blueprint->isMember());
	object->setMutability(blueprint->getMutability());
	object->setVisibility(blueprint->getVisibility());
}

/*
 * creates (and initializes) atomic types and'''))
edit('repo-usertype-early',
     (RE, '''	if ( initialize >= InitilizationType::AllowAbstract ) {
		Designtime::Ancestors ancestors = blueprint->getInheritance();

		if ( !ancestors.empty() ) {
			// walk''', '''	if ( initialize < InitilizationType::AllowAbstract ) {
		return object;
	}

	{
		const Designtime::Ancestors ancestors = blueprint->getInheritance();

		{
			// walk'''))
edit('repo-usertype-methods',
     (RE, '''		for ( const auto& method : blueprint->provideMethods() ) {
			if ( method->isStatic() ) {
				continue;
			}

			// create new method and ...
			auto* newMethod = new Common::Method(object, method->getName(), Common::TypeDeclaration(method->QualifiedTypename()));

			// ... copy its data from our template method
			newMethod->shallowCopy(*method);

			object->defineMethod(method->getName(), newMethod);
		}
''', '''		const auto methods = blueprint->provideMethods();
		for ( auto it = methods.begin(); it != methods.end(); ++it ) {
			Common::Method* method = *it;

			if ( !method->isStatic() ) {
				// create new method and ...
				auto* newMethod = new Common::Method(object, method->getName(), Common::TypeDeclaration(method->QualifiedTypename()));

				// ... copy its data from our template method
				newMethod->shallowCopy(*method);

				object->defineMethod(method->getName(), newMethod);
			}
		}
'''))
edit('repo-usertype-symbols',
     (RE, '''			if ( symbolIt->second->getSymbolType() != Symbol::IType::BluePrintObjectSymbol ) {
				continue;
			}
			if ( symbolIt->first == IDENTIFIER_BASE || symbolIt->first == IDENTIFIER_THIS ) {
				// skip "base" && "this" symbols
				continue;
			}

			auto* blue = dynamic_cast<Designtime::BluePrintObject*>(symbolIt->second);
			if ( blue->isStatic() ) {
				continue;
			}
			if ( blue->getName() == ANONYMOUS_OBJECT ) {
				// this is a type declaration
				continue;
			}
''', '''			if ( symbolIt->second->getSymbolType() != Symbol::IType::BluePrintObjectSymbol
			  || symbolIt->first == IDENTIFIER_THIS || symbolIt->first == IDENTIFIER_BASE ) {
				continue;
			}

			auto* blue = static_cast<Designtime::BluePrintObject*>(symbolIt->second);
			if ( blue->getName() == ANONYMOUS_OBJECT || blue->isStatic() ) {
				continue;
			}
'''.replace('static_cast<', 'dynamic_cast<')))
edit('repo-instance-helper',
     (RE, '''	if ( constraints != blueprint->getPrototypeConstraints() ) {
		if ( constraints.size() < blueprint->getPrototypeConstraints().size() ) {
			constraints = blueprint->getPrototypeConstraints().buildRawConstraints(constraints);
		}
		else {
			throw Common::Exceptions::TypeMismatch("'" + blueprint->QualifiedTypename() + "' prototype constraint mismatch");
		}
	}
''', '''	completeConstraints(blueprint, constraints);
'''),
     (RE, '''	if ( blueprint->QualifiedTypename() != constraintType ) {
		// we have to handle a prototyped blueprint
		auto it = mBluePrintObjects.find(constraintType);
		if ( it == mBluePrintObjects.end() ) {
			// a not yet used prototype has been requested => construct the new type
			blueprint = createBluePrintFromPrototype(blueprint, constraints);
		}
		else {
			blueprint = it->second;
		}
	}
''', '''	if ( blueprint->QualifiedTypename() != constraintType ) {
		// we have to handle a prototyped blueprint
		const auto it = mBluePrintObjects.find(constraintType);
		blueprint = it != mBluePrintObjects.end() ? it->second : createBluePrintFromPrototype(blueprint, constraints);
	}
'''),
     (RE, '''/*
 * Creates an instance of the given blueprint
 */
Runtime::Object* Repository::createInstance(const std::string& type,''', '''static void completeConstraints(Designtime::BluePrintObject* blueprint, PrototypeConstraints& constraints)
{
	const auto& expected = blueprint->getPrototypeConstraints();

	if ( !(constraints != expected) ) {
		return;
	}
	if ( constraints.size() >= expected.size() ) {
		throw Common::Exceptions::TypeMismatch("'" + blueprint->QualifiedTypename() + "' prototype constraint mismatch");
	}

	constraints = expected.buildRawConstraints(constraints);
}

/*
 * Creates an instance of the given blueprint
 */
Runtime::Object* Repository::createInstance(const std::string& type,'''))
edit('repo-final-check',
     (RE, '''	if ( initialize == InitilizationType::Final ) {
		if ( object->isAbstract() ) {
			throw Common::Exceptions::AbstractException("cannot instantiate abstract object '" + constraintType + "'");
		}
	}
''', '''	if ( initialize == InitilizationType::Final && object->isAbstract() ) {
		throw Common::Exceptions::AbstractException("cannot instantiate abstract object '" + constraintType + "'");
	}
'''))
edit('repo-init-lambda',
     (RE, '''	{	// "bool" type
		auto* obj = new Designtime::BoolType();
		addBluePrint(obj);

		scope->define(Designtime::BoolType::TYPENAME, obj);
	}
	{	// "double" type
		auto* obj = new Designtime::DoubleType();
		addBluePrint(obj);

		scope->define(Designtime::DoubleType::TYPENAME, obj);
	}
''', '''	const auto add = [&](const std::string& name, Designtime::BluePrintObject* obj) {
		addBluePrint(obj);
		scope->define(name, obj);
	};

	add(Designtime::BoolType::TYPENAME, new Designtime::BoolType());
	add(Designtime::DoubleType::TYPENAME, new Designtime::DoubleType());
'''))
edit('repo-enum-loop',
     (RE, '''		define(blueprint->QualifiedTypename(), Token::Type::COMPARE_EQUAL,         blueprint->QualifiedTypename(), _bool);
		define(blueprint->QualifiedTypename(), Token::Type::COMPARE_LESS,          blueprint->QualifiedTypename(), _bool);
		define(blueprint->QualifiedTypename(), Token::Type::COMPARE_LESS_EQUAL,    blueprint->QualifiedTypename(), _bool);
		define(blueprint->QualifiedTypename(), Token::Type::COMPARE_GREATER,       blueprint->QualifiedTypename(), _bool);
		define(blueprint->QualifiedTypename(), Token::Type::COMPARE_GREATER_EQUAL, blueprint->QualifiedTypename(), _bool);
		define(blueprint->QualifiedTypename(), Token::Type::COMPARE_UNEQUAL,       blueprint->QualifiedTypename(), _bool);
''', '''		const auto& type = blueprint->QualifiedTypename();
		for ( auto op : { Token::Type::COMPARE_EQUAL, Token::Type::COMPARE_LESS, Token::Type::COMPARE_LESS_EQUAL,
						  Token::Type::COMPARE_GREATER, Token::Type::COMPARE_GREATER_EQUAL, Token::Type::COMPARE_UNEQUAL } ) {
			define(type, op, type, _bool);
		}
'''))
edit('repo-member-helper',
     (RE, '''		if ( baseType->isPrototype() ) {
			Common::TypeDeclaration typeDeclaration(
				member->QualifiedTypename(),
				baseType->getPrototypeConstraints().buildRawConstraints(member->getPrototypeConstraints())
			);

			// prepare type
			prepareType(typeDeclaration);
			// set qualified typename to constraint type
			member->setQualifiedTypename(Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration.mName, typeDeclaration.mConstraints));
			// reset constraints
			member->setPrototypeConstraints(PrototypeConstraints());
		}
''', '''		if ( baseType->isPrototype() ) {
			member->setQualifiedTypename(prepareConstraintType(member->QualifiedTypename(), baseType, member->getPrototypeConstraints()));
			member->setPrototypeConstraints(PrototypeConstraints());
		}
'''),
     (RE, '''		if ( baseType->isPrototype() ) {
			Common::TypeDeclaration typeDeclaration(
				method->QualifiedTypename(),
				baseType->getPrototypeConstraints().buildRawConstraints(method->getPrototypeConstraints())
			);

			// prepare type
			prepareType(typeDeclaration);
			// set qualified typename to constraint type
			method->setQualifiedTypename(Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration.mName, typeDeclaration.mConstraints));
			// reset constraints
			method->setPrototypeConstraints(PrototypeConstraints());
		}
''', '''		if ( baseType->isPrototype() ) {
			method->setQualifiedTypename(prepareConstraintType(method->QualifiedTypename(), baseType, method->getPrototypeConstraints()));
			method->setPrototypeConstraints(PrototypeConstraints());
		}
'''),
     (RE, '''/*
 * initializes type system for given blueprint object
 */''', '''std::string Repository::prepareConstraintType(const std::string& name, Designtime::BluePrintObject* base, const PrototypeConstraints& constraints)
{
	Common::TypeDeclaration typeDeclaration(name, base->getPrototypeConstraints().buildRawConstraints(constraints));

	prepareType(typeDeclaration);

	return Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration.mName, typeDeclaration.mConstraints);
}

/*
 * initializes type system for given blueprint object
 */'''),
     (REH, '''	void prepareType(''', '''	std::string prepareConstraintType(const std::string& name, Designtime::BluePrintObject* base, const PrototypeConstraints& constraints);
	void prepareType('''))
edit('repo-prepare-flip',
     (RE, '''	Designtime::BluePrintObject* blueprint = findBluePrintObject(resolvedType);
	if ( !blueprint ) {
		// lookup pure type without constraints
		blueprint = findBluePrintObject(type.mName);

		if ( !blueprint ) {
			// pure type not available
			throw Common::Exceptions::UnknownIdentifier( "pure type '" + resolvedType + "' not available" );
		}

		// build new prototype from pure type with constraints
		createBluePrintFromPrototype(blueprint, type.mConstraints);
	}
''', '''	if ( findBluePrintObject(resolvedType) ) {
		return;
	}

	// lookup pure type without constraints
	if ( auto* pure = findBluePrintObject(type.mName) ) {
		// build new prototype from pure type with constraints
		createBluePrintFromPrototype(pure, type.mConstraints);
		return;
	}

	throw Common::Exceptions::UnknownIdentifier( "pure type '" + resolvedType + "' not available" );
'''))
edit('repo-typesystem-alias',
     (RE, '''	// add default entries for pointer comparison etc.
	define(blueprint->QualifiedTypename(), Token::Type::COMPARE_EQUAL,   _object,                        _bool);
	define(_object,                        Token::Type::COMPARE_EQUAL,   blueprint->QualifiedTypename(), _bool);

	// add default assignment entry for type system
	define(blueprint->QualifiedTypename(), Token::Type::ASSIGN,   blueprint->QualifiedTypename(), blueprint->QualifiedTypename());

	// add default typecast entry for type system
	define(blueprint->QualifiedTypename(), Token::Type::TYPECAST, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());

	// add equality operator entries for type system
	define(blueprint->QualifiedTypename(), Token::Type::COMPARE_EQUAL,   blueprint->QualifiedTypename(), _bool);
	define(blueprint->QualifiedTypename(), Token::Type::COMPARE_EQUAL_CONTENT, blueprint->QualifiedTypename(), _bool);
''', '''	defineDefaults(blueprint->QualifiedTypename());
'''),
     (RE, '''/*
 * initializes type system for given blueprint object
 */''', '''void Repository::defineDefaults(const std::string& type)
{
	// pointer comparison
	define(type, Token::Type::COMPARE_EQUAL, _object, _bool);
	define(_object, Token::Type::COMPARE_EQUAL, type, _bool);

	define(type, Token::Type::ASSIGN, type, type);
	define(type, Token::Type::TYPECAST, type, type);
	define(type, Token::Type::COMPARE_EQUAL, type, _bool);
	define(type, Token::Type::COMPARE_EQUAL_CONTENT, type, _bool);
}

/*
 * initializes type system for given blueprint object
 */'''),
     (REH, '''	void prepareType(''', '''	void defineDefaults(const std::string& type);
	void prepareType('''))

"""Further edits that keep the behaviour: combinations the mechanical rewrites stumbled over."""

from refactorings import edit, C, EDITS

TG = 'Projects/Core/Core/AST/TreeGenerator.cpp'
TGH = 'Projects/Core/Core/AST/TreeGenerator.h'

edit('g-return-helper', (TG, '''	if ( token->type() != Token::Type::SEMICOLON ) {
		exp = expression(token);
		returnType = dynamic_cast<Expression*>(exp)->getResultType();
	}
''', '''	if ( token->type() != Token::Type::SEMICOLON ) {
		parseReturnValue(token, exp, returnType);
	}
'''), (TG, '''Statement* TreeGenerator::process_return(TokenIterator& token)
{''', '''void TreeGenerator::parseReturnValue(TokenIterator& token, Node*& exp, std::string& returnType)
{
	exp = expression(token);
	returnType = dynamic_cast<Expression*>(exp)->getResultType();
}

Statement* TreeGenerator::process_return(TokenIterator& token)
{'''), (TGH, '''	Statement* process_return(TokenIterator& token);
''', '''	Statement* process_return(TokenIterator& token);
	void parseReturnValue(TokenIterator& token, Node*& exp, std::string& returnType);
'''))
edit('g-return-late', (TG, '''	Node* exp = nullptr;
	std::string returnType = Designtime::VoidType::TYPENAME;
''', '''	Node* exp;
	exp = nullptr;
	std::string returnType;
	returnType = Designtime::VoidType::TYPENAME;
'''))

UT = C + 'Common/Utils.cpp'
BODY = '''	if ( found->type() != expected ) {
		throw Designtime::Exceptions::SyntaxError("unexpected token '" + found->content() + "' found", found->position());
	}
'''
HEAD = '''void expect(Token::Type::E expected, const TokenIterator& found)
{
'''
edit('g-expect-early', (UT, HEAD + BODY, HEAD + '''	if ( found->type() == expected ) {
		return;
	}

	throw Designtime::Exceptions::SyntaxError("unexpected token '" + found->content() + "' found", found->position());
'''))
edit('g-expect-local', (UT, HEAD + BODY, HEAD + '''	const Token& token = *found;
	const bool matches = (token.type() == expected);

	if ( matches ) {
		return;
	}

	const std::string message = "unexpected token '" + token.content() + "' found";

	throw Designtime::Exceptions::SyntaxError(message, token.position());
'''))
edit('g-expect-predicate', (UT, HEAD + BODY, '''namespace {

bool matches(Token::Type::E expected, const Token& token)
{
	return token.type() == expected;
}

}

''' + HEAD + '''	if ( !matches(expected, *found) ) {
		throw Designtime::Exceptions::SyntaxError("unexpected token '" + found->content() + "' found", found->position());
	}
'''))
edit('g-expect-thrower', (UT, HEAD + BODY, '''namespace {

void unexpected(const Token& token)
{
	throw Designtime::Exceptions::SyntaxError("unexpected token '" + token.content() + "' found", token.position());
}

}

''' + HEAD + '''	if ( found->type() != expected ) {
		unexpected(*found);
	}
'''))
edit('g-expect-flag', (UT, HEAD + BODY, HEAD + '''	bool ok = true;

	if ( found->type() != expected ) {
		ok = false;
	}

	if ( !ok ) {
		throw Designtime::Exceptions::SyntaxError("unexpected token '" + found->content() + "' found", found->position());
	}
'''))

# the check and a function that calls it
RETURN = (TG, '''	if ( token->type() != Token::Type::SEMICOLON ) {
		exp = expression(token);
		returnType = dynamic_cast<Expression*>(exp)->getResultType();
	}

	if ( mMethod->QualifiedTypename() != returnType ) {''', '''	const bool hasValue = token->type() != Token::Type::SEMICOLON;
	if ( hasValue ) {
		exp = expression(token);
		returnType = dynamic_cast<Expression*>(exp)->getResultType();
	}

	if ( returnType != mMethod->QualifiedTypename() ) {''')
for _n in ('early', 'local', 'predicate', 'thrower', 'flag'):
    edit('g-both-' + _n, EDITS['g-expect-' + _n][0], RETURN)
edit('g-frame-zero', ('Projects/slang-dbg/LocalClient/LocalClient.cpp', '''	if (  mCurrentFrameId <= 0  ) {
		return;
	}

	// update current frame id
	--mCurrentFrameId;
''', '''	if (  0 == mCurrentFrameId  ) {
		return;
	}

	// update current frame id
	mCurrentFrameId -= 1;
'''))
edit('g-frame-swapped', ('Projects/slang-dbg/LocalClient/LocalClient.cpp', '''	if (  mCurrentFrameId <= 0  ) {
		return;
	}

	// update current frame id
	--mCurrentFrameId;
''', '''	if (  0 >= mCurrentFrameId  ) {
		return;
	}

	// update current frame id
	mCurrentFrameId = mCurrentFrameId - 1;
'''))

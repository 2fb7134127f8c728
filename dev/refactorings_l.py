"""Further edits that keep the behaviour: signatures, initialisers in the class, shared helpers."""
from refactorings import edit

C = 'Projects/Core/Core/'
DB = 'Projects/Core/Debugger/Debugger.cpp'
DBH = 'Projects/Core/Debugger/Debugger.h'
LC = 'Projects/slang-dbg/LocalClient/LocalClient.cpp'
LCH = 'Projects/slang-dbg/LocalClient/LocalClient.h'
TK = C + 'Designtime/Parser/Tokenizer.cpp'
TKH = C + 'Designtime/Parser/Tokenizer.h'
ME = C + 'VirtualMachine/Memory.cpp'
MEH = C + 'VirtualMachine/Memory.h'

edit('l-dbg-inclass', (DB, '''Debugger::Debugger()
: mBreakOnExceptionCatch(false),
  mBreakOnExceptionThrow(false),
  mNextAction(NextAction::WaitForBreakPoint),
  mReceiver(nullptr),
  mUseDebugger(false)
{
}
''', '''Debugger::Debugger() = default;
'''), (DBH, '''	bool mBreakOnExceptionCatch;
	bool mBreakOnExceptionThrow;
	BreakPointCollection mBreakPoints;
	NextAction::E mNextAction;
	IReceiver* mReceiver;
	bool mUseDebugger;
''', '''	bool mBreakOnExceptionCatch{ false };
	bool mBreakOnExceptionThrow{ false };
	BreakPointCollection mBreakPoints;
	NextAction::E mNextAction{ NextAction::WaitForBreakPoint };
	IReceiver* mReceiver{ nullptr };
	bool mUseDebugger{ false };
'''))

edit('l-mem-inclass', (ME, '''Memory::Memory()
: mNextAddress(1)
{
}
''', '''Memory::Memory() = default;
'''), (MEH, '''	Runtime::MemoryId mNextAddress;
''', '''	Runtime::MemoryId mNextAddress = 1;
'''))

edit('l-mem-ref', (ME, '''	it->second.mCount--;
	if ( it->second.mCount == 0 && it->second.mObject ) {
		deleteObject( it->first );
	}
''', '''	RefCount& entry = it->second;

	if ( --entry.mCount != 0 || entry.mObject == nullptr ) {
		return;
	}

	deleteObject( it->first );
'''))

edit('l-mem-lookup', (MEH, '''	void deleteObject(const Runtime::Reference& ref);
''', '''	void deleteObject(const Runtime::Reference& ref);
	MemoryMap::iterator lookup(const Runtime::Reference& ref);
'''), (ME, '''	auto it = mMemory.find(ref);
	if ( it == mMemory.end() ) {
		throw Common::Exceptions::Exception("invalid access for address " + Utils::Tools::toString(ref.getAddress()));
	}

	it->second.mCount++;
}
''', '''	++lookup(ref)->second.mCount;
}

Memory::MemoryMap::iterator Memory::lookup(const Runtime::Reference& ref)
{
	auto it = mMemory.find(ref);
	if ( it == mMemory.end() ) {
		throw Common::Exceptions::Exception("invalid access for address " + Utils::Tools::toString(ref.getAddress()));
	}

	return it;
}
'''), (ME, '''	auto it = mMemory.find(ref);
	if ( it == mMemory.end() ) {
		throw Common::Exceptions::Exception("invalid access for address " + Utils::Tools::toString(ref.getAddress()));
	}

	it->second.mCount--;
''', '''	auto it = lookup(ref);

	it->second.mCount--;
'''))

edit('l-sym-constref', (LCH, '''	Symbol* getSymbol( std::string name ) const;
''', '''	Symbol* getSymbol( const std::string& path ) const;
'''), (LC, '''Symbol* LocalClient::getSymbol( std::string name ) const
{
	std::string child;
''', '''Symbol* LocalClient::getSymbol( const std::string& path ) const
{
	std::string name = path;
	std::string child;
'''))

edit('l-sym-while', (LC, '''	do {
		if (  !scope  ) {
			return nullptr;
		}

		Utils::Tools::split( name, parent, child );

		if (  !parent.empty() && !child.empty()  ) {
			scope = dynamic_cast<Runtime::Object*>( scope->resolve( parent, false, Visibility::Private ) );
		}
		else {
			return scope->resolve( parent, false, Visibility::Private );
		}

		name = child;
	} while (  !name.empty()  );

	return nullptr;
''', '''	while ( scope ) {
		Utils::Tools::split( name, parent, child );

		Symbol* symbol = scope->resolve( parent, false, Visibility::Private );

		if ( parent.empty() || child.empty() ) {
			return symbol;
		}

		scope = dynamic_cast<Runtime::Object*>( symbol );
		name = child;
	}

	return nullptr;
'''))

edit('l-tok-suffix', (TKH, '''	static inline bool isDouble(const std::string& token) ;
''', '''	static bool isDigitsWithSuffix(const std::string& token, char suffix);
	static inline bool isDouble(const std::string& token) ;
'''), (TK, '''bool Tokenizer::isDouble(const std::string& token)
{
	if ( token.size() <= 1 ) {
		return false;
	}

	for ( unsigned int c = 0; c < token.size() - 1; c++ ) {
		switch ( token[c] ) {
			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
			case '0':
				break;
			default:
				return false;
		}
	}

	// the last char of our token has to be a 'd'
	return token[token.size() - 1] == 'd';
}
''', '''bool Tokenizer::isDigitsWithSuffix(const std::string& token, char suffix)
{
	if ( token.size() <= 1 ) {
		return false;
	}

	for ( unsigned int c = 0; c < token.size() - 1; c++ ) {
		switch ( token[c] ) {
			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
			case '0':
				break;
			default:
				return false;
		}
	}

	return token.back() == suffix;
}

bool Tokenizer::isDouble(const std::string& token)
{
	// the last char of our token has to be a 'd'
	return isDigitsWithSuffix(token, 'd');
}
'''))

edit('l-tok-suffix-find', (TK, '''	for ( unsigned int c = 0; c < token.size() - 1; c++ ) {
		switch ( token[c] ) {
			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
			case '0':
				break;
			default:
				return false;
		}
	}

	// the last char of our token has to be a 'd'
	return token[token.size() - 1] == 'd';
''', '''	for ( size_t c = 0; c + 1 < token.size(); ++c ) {
		if ( token[c] < '0' || token[c] > '9' ) {
			return false;
		}
	}

	// the last char of our token has to be a 'd'
	return token.back() == 'd';
'''))

edit('l-lit-one', (TK, '''	if ( token.size() > 1 ) {
		return token.front() == DOUBLE_QUOTE && token.back() == DOUBLE_QUOTE;
	}

	return false;
''', '''	return token.size() >= 2
		&& token[0] == DOUBLE_QUOTE
		&& token[token.size() - 1] == DOUBLE_QUOTE;
'''))

SC = C + 'Scope.cpp'
TO = 'Projects/Utils/Tools/Strings.cpp'

edit('l-dbg-notify-cases', (DB, '''	BreakPoint breakpoint(token.position());
	auto breakIt = mBreakPoints.find(breakpoint);

	bool stop = false;

	switch ( mNextAction ) {
		case NextAction::StepOver:
			stop = true;
			break;
		case NextAction::WaitForBreakPoint:
			if ( breakIt != mBreakPoints.end() ) {
				stop = true;
				breakpoint = *breakIt;
			}
			break;
		default:
			break;
	}

	if ( stop ) {
		mReceiver->notify(scope, breakpoint);
	}
}
''', '''	const BreakPoint reached(token.position());

	if ( mNextAction == NextAction::StepOver ) {
		mReceiver->notify(scope, reached);
	}
	else if ( mNextAction == NextAction::WaitForBreakPoint ) {
		const auto known = mBreakPoints.find(reached);
		if ( known == mBreakPoints.end() ) {
			return;
		}

		mReceiver->notify(scope, *known);
	}
}
'''))

edit('l-dbg-add-erase', (DB, '''	auto it = mBreakPoints.find(breakpoint);

	if ( it != mBreakPoints.end() ) {
		mBreakPoints.erase(it);
	}

	mBreakPoints.insert(breakpoint);

	return true;
''', '''	mBreakPoints.erase(breakpoint);
	mBreakPoints.insert(breakpoint);

	return true;
'''))

edit('l-scope-undefine-key', (SC, '''void SymbolScope::undefine(const std::string& name)
{
	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		mSymbols.erase(it);
	}
}
''', '''void SymbolScope::undefine(const std::string& name)
{
	mSymbols.erase(name);
}
'''))

edit('l-scope-resolve-lambda', (SC, '''Symbol* SymbolScope::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{
	// look up in local symbols
	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in external symbols
	it = mExternalSymbols.find(name);
	if ( it != mExternalSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in parent's symbols
	if ( mParent && !onlyCurrentScope ) {
		return mParent->resolve(name, onlyCurrentScope, visibility);
	}

	return nullptr;
}
''', '''Symbol* SymbolScope::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{
	// look up in local symbols first, in external symbols afterwards
	for ( const auto* symbols : { &mSymbols, &mExternalSymbols } ) {
		const auto it = symbols->find(name);
		if ( it != symbols->end() && it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in parent's symbols
	return ( mParent && !onlyCurrentScope ) ? mParent->resolve(name, onlyCurrentScope, visibility) : nullptr;
}
'''))

edit('l-scope-resolve-static', (SC, '''Symbol* SymbolScope::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{
	// look up in local symbols
	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in external symbols
	it = mExternalSymbols.find(name);
	if ( it != mExternalSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}
''', '''template<class T>
static Symbol* findVisible(const T& symbols, const std::string& name, Visibility::E visibility)
{
	auto it = symbols.find(name);

	return it != symbols.end() && it->second->getVisibility() >= visibility ? it->second : nullptr;
}

Symbol* SymbolScope::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{
	// look up in local symbols
	if ( Symbol* local = findVisible(mSymbols, name, visibility) ) {
		return local;
	}

	// look up in external symbols
	if ( Symbol* external = findVisible(mExternalSymbols, name, visibility) ) {
		return external;
	}
'''))

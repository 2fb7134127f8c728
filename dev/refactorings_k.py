"""Further edits that keep the behaviour: tables, ranges of characters, lookups instead of searches."""
from refactorings import edit

C = 'Projects/Core/Core/'
CO = 'Projects/Core/Debugger/Condition.cpp'
DB = 'Projects/Core/Debugger/Debugger.cpp'
LC = 'Projects/slang-dbg/LocalClient/LocalClient.cpp'
TK = C + 'Designtime/Parser/Tokenizer.cpp'
SC = C + 'Scope.cpp'
BP = C + 'Designtime/BluePrintObject.cpp'
FI = 'Projects/Utils/Tools/Files.cpp'
VI = C + 'Common/Visibility.cpp'

edit('k-cond-map', (CO, '''	if ( type == "==" ) return Type::Equals;
	if ( type == ">" ) return Type::Greater;
	if ( type == ">=" ) return Type::GreaterEqual;
	if ( type == "<" ) return Type::Less;
	if ( type == "<=" ) return Type::LessEqual;
	if ( type == "!=" ) return Type::Unequal;

	return Type::Invalid;
''', '''	static const std::map<std::string, Type::E> types = {
		{ "==", Type::Equals },
		{ ">", Type::Greater },
		{ ">=", Type::GreaterEqual },
		{ "<", Type::Less },
		{ "<=", Type::LessEqual },
		{ "!=", Type::Unequal }
	};

	auto it = types.find(type);

	return it != types.end() ? it->second : Type::Invalid;
'''), (CO, '#include <utility>\n', '#include <map>\n#include <utility>\n'))

edit('k-cond-array', (CO, '''	if ( type == "==" ) return Type::Equals;
	if ( type == ">" ) return Type::Greater;
	if ( type == ">=" ) return Type::GreaterEqual;
	if ( type == "<" ) return Type::Less;
	if ( type == "<=" ) return Type::LessEqual;
	if ( type == "!=" ) return Type::Unequal;

	return Type::Invalid;
''', '''	static const std::pair<const char*, Type::E> types[] = {
		{ "==", Type::Equals },
		{ ">", Type::Greater },
		{ ">=", Type::GreaterEqual },
		{ "<", Type::Less },
		{ "<=", Type::LessEqual },
		{ "!=", Type::Unequal }
	};

	for ( const auto& entry : types ) {
		if ( type == entry.first ) {
			return entry.second;
		}
	}

	return Type::Invalid;
'''))

edit('k-cond-elseif', (CO, '''	if ( type == "==" ) return Type::Equals;
	if ( type == ">" ) return Type::Greater;
	if ( type == ">=" ) return Type::GreaterEqual;
	if ( type == "<" ) return Type::Less;
	if ( type == "<=" ) return Type::LessEqual;
	if ( type == "!=" ) return Type::Unequal;

	return Type::Invalid;
''', '''	Type::E result = Type::Invalid;

	if ( type == "!=" ) {
		result = Type::Unequal;
	}
	else if ( type == "<" ) {
		result = Type::Less;
	}
	else if ( type == "<=" ) {
		result = Type::LessEqual;
	}
	else if ( type == "==" ) {
		result = Type::Equals;
	}
	else if ( type == ">" ) {
		result = Type::Greater;
	}
	else if ( type == ">=" ) {
		result = Type::GreaterEqual;
	}

	return result;
'''))

edit('k-cond-string', (CO, '''	std::string result;

	result += mLeft;
	switch ( mType ) {
		case Type::Equals: result += " == "; break;
		case Type::Greater: result += " > "; break;
		case Type::GreaterEqual: result += " >= "; break;
		case Type::Less: result += " < "; break;
		case Type::LessEqual: result += " <= "; break;
		case Type::Unequal: result += " != "; break;
		case Type::Invalid: result += " "; break;
	}
	result += mRight;

	return result;
''', '''	const char* op = "";
	switch ( mType ) {
		case Type::Equals: op = " == "; break;
		case Type::Greater: op = " > "; break;
		case Type::GreaterEqual: op = " >= "; break;
		case Type::Less: op = " < "; break;
		case Type::LessEqual: op = " <= "; break;
		case Type::Unequal: op = " != "; break;
		case Type::Invalid: op = " "; break;
	}

	return mLeft + op + mRight;
'''))

edit('k-lc-cached', (LC, '''	for (  const auto& it : mSymbolCollection  ) {
		if (  it.first == name  ) {
			return it.second;
		}
	}

	return nullptr;
''', '''	auto it = mSymbolCollection.find( name );

	return it != mSymbolCollection.end() ? it->second : nullptr;
'''))

edit('k-tok-digits', (TK, '''	for ( unsigned int c = 0; c < token.size() - 1; c++ ) {
		switch ( token[c] ) {
			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
			case '0':
				break;
			default:
				return false;
		}
	}

	// the last char of our token has to be a 'd'
''', '''	for ( unsigned int c = 0; c < token.size() - 1; c++ ) {
		if ( token[c] < '0' || token[c] > '9' ) {
			return false;
		}
	}

	// the last char of our token has to be a 'd'
'''))

edit('k-tok-digits-helper', (TK, '''	for ( const char& c : token ) {
		switch ( c ) {
			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
			case '0':
				break;
			default:
				return false;
		}
	}

	return true;
''', '''	return std::all_of(token.begin(), token.end(), [](char c) { return c >= '0' && c <= '9'; });
'''), (TK, '// Library includes\n', '// Library includes\n#include <algorithm>\n'))

edit('k-dbg-notify-if', (DB, '''	switch ( mNextAction ) {
		case NextAction::StepOver:
			stop = true;
			break;
		case NextAction::WaitForBreakPoint:
			if ( breakIt != mBreakPoints.end() ) {
				stop = true;
				breakpoint = *breakIt;
			}
			break;
		default:
			break;
	}

	if ( stop ) {
		mReceiver->notify(scope, breakpoint);
	}
''', '''	if ( mNextAction == NextAction::StepOver ) {
		stop = true;
	}
	else if ( mNextAction == NextAction::WaitForBreakPoint && breakIt != mBreakPoints.end() ) {
		stop = true;
		breakpoint = *breakIt;
	}

	if ( !stop ) {
		return;
	}

	mReceiver->notify(scope, breakpoint);
'''))

edit('k-scope-lambda', (SC, '''	// look up in local symbols
	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in external symbols
	it = mExternalSymbols.find(name);
	if ( it != mExternalSymbols.end() ) {
		if ( it->second->getVisibility() >= visibility ) {
			return it->second;
		}
	}

	// look up in parent's symbols
	if ( mParent && !onlyCurrentScope ) {
		return mParent->resolve(name, onlyCurrentScope, visibility);
	}

	return nullptr;
}

void SymbolScope::undefine''', '''	auto lookup = [&](const Symbols& symbols) -> Symbol* {
		auto it = symbols.find(name);

		return it != symbols.end() && it->second->getVisibility() >= visibility ? it->second : nullptr;
	};

	Symbol* symbol = lookup(mSymbols);
	if ( !symbol ) {
		symbol = lookup(mExternalSymbols);
	}
	if ( !symbol && mParent && !onlyCurrentScope ) {
		symbol = mParent->resolve(name, false, visibility);
	}

	return symbol;
}

void SymbolScope::undefine'''))

edit('k-scope-undefine', (SC, '''	auto it = mSymbols.find(name);
	if ( it != mSymbols.end() ) {
		mSymbols.erase(it);
	}
}


NamedScope::''', '''	mSymbols.erase(name);
}


NamedScope::'''))

edit('k-bp-inherits', (BP, '''	for ( const auto& it : mInheritance ) {
		if ( it.name() == type ) {
			return true;
		}
	}

	return false;
''', '''	return std::find_if(mInheritance.begin(), mInheritance.end(), [&type](const Ancestor& ancestor) {
		return ancestor.name() == type;
	}) != mInheritance.end();
'''), (BP, '// Library includes\n', '// Library includes\n#include <algorithm>\n'))

edit('k-files-ternary', (FI, '''    if ( filename.empty() ) {
        return filename;
    }

    auto lastSeparatorPos = filename.find_last_of(  "\\\\/" );
    if ( lastSeparatorPos == std::string::npos ) {
        return filename;
    }

    return filename.substr( lastSeparatorPos + 1 );
''', '''    auto lastSeparatorPos = filename.find_last_of(  "\\\\/" );

    return lastSeparatorPos == std::string::npos ? filename : filename.substr( lastSeparatorPos + 1 );
'''))

edit('k-files-npos', (FI, '''    if ( filename.empty() ) {
        return filename;
    }

    auto lastSeparatorPos = filename.find_last_of(  "\\\\/" );
    if ( lastSeparatorPos == std::string::npos ) {
        return filename;
    }

    return filename.substr( lastSeparatorPos + 1 );
''', '''    std::string result = filename;

    const size_t lastSeparatorPos = filename.find_last_of( "/\\\\" );
    if ( lastSeparatorPos != std::string::npos ) {
        result = filename.substr( lastSeparatorPos + 1, std::string::npos );
    }

    return result;
'''))

edit('k-files-ext', (FI, '''    if ( filename.empty() ) {
        return "";
    }

    auto fileExtension = ExtractFileExt( filename );
    if ( fileExtension.empty() ) {
        return filename;
    }
''', '''    const auto fileExtension = ExtractFileExt( filename );
    if ( filename.empty() || fileExtension.empty() ) {
        return filename;
    }
'''))

edit('k-vis-switch', (VI, '''	switch ( e ) {
		case Visibility::Designtime: return DesigntimeStr;
		case Visibility::Private: return PrivateStr;
		case Visibility::Protected: return ProtectedStr;
		case Visibility::Public: return PublicStr;
	}
''', '''	if ( e == Visibility::Public ) {
		return PublicStr;
	}
	if ( e == Visibility::Protected ) {
		return ProtectedStr;
	}
	if ( e == Visibility::Private ) {
		return PrivateStr;
	}
	if ( e == Visibility::Designtime ) {
		return DesigntimeStr;
	}
'''))

edit('k-lc-symbol-loop', (LC, '''	do {
		if (  !scope  ) {
			return nullptr;
		}

		Utils::Tools::split( name, parent, child );

		if (  !parent.empty() && !child.empty()  ) {
			scope = dynamic_cast<Runtime::Object*>( scope->resolve( parent, false, Visibility::Private ) );
		}
		else {
			return scope->resolve( parent, false, Visibility::Private );
		}

		name = child;
	} while (  !name.empty()  );

	return nullptr;
''', '''	while (  scope  ) {
		Utils::Tools::split( name, parent, child );

		Symbol* symbol = scope->resolve( parent, false, Visibility::Private );
		if (  parent.empty() || child.empty()  ) {
			return symbol;
		}

		scope = dynamic_cast<Runtime::Object*>( symbol );
		name = child;
	}

	return nullptr;
'''))

edit('k-cond-global', (CO, '''	if ( type == "==" ) return Type::Equals;
	if ( type == ">" ) return Type::Greater;
	if ( type == ">=" ) return Type::GreaterEqual;
	if ( type == "<" ) return Type::Less;
	if ( type == "<=" ) return Type::LessEqual;
	if ( type == "!=" ) return Type::Unequal;

	return Type::Invalid;
''', '''	auto it = CONDITIONS.find(type);
	if ( it == CONDITIONS.end() ) {
		return Type::Invalid;
	}

	return it->second;
'''), (CO, '#include <utility>\n', '#include <map>\n#include <utility>\n'), (CO, '''Condition::Condition()
''', '''namespace {

const std::map<std::string, Condition::Type::E> CONDITIONS = {
	{ "!=", Condition::Type::Unequal },
	{ "<", Condition::Type::Less },
	{ "<=", Condition::Type::LessEqual },
	{ "==", Condition::Type::Equals },
	{ ">", Condition::Type::Greater },
	{ ">=", Condition::Type::GreaterEqual }
};

}

Condition::Condition()
'''))

edit('k-cond-struct', (CO, '''	if ( type == "==" ) return Type::Equals;
	if ( type == ">" ) return Type::Greater;
	if ( type == ">=" ) return Type::GreaterEqual;
	if ( type == "<" ) return Type::Less;
	if ( type == "<=" ) return Type::LessEqual;
	if ( type == "!=" ) return Type::Unequal;

	return Type::Invalid;
''', '''	for ( const auto& entry : CONDITIONS ) {
		if ( type == entry.text ) {
			return entry.type;
		}
	}

	return Type::Invalid;
'''), (CO, '''Condition::Condition()
''', '''namespace {

struct Entry {
	const char* text;
	Condition::Type::E type;
};

const Entry CONDITIONS[] = {
	{ "!=", Condition::Type::Unequal },
	{ "<", Condition::Type::Less },
	{ "<=", Condition::Type::LessEqual },
	{ "==", Condition::Type::Equals },
	{ ">", Condition::Type::Greater },
	{ ">=", Condition::Type::GreaterEqual }
};

}

Condition::Condition()
'''))

edit('k-vis-map', (VI, '''	if ( v == DesigntimeStr ) return Visibility::Designtime;
	if ( v == PrivateStr )    return Visibility::Private;
	if ( v == ProtectedStr )  return Visibility::Protected;
	if ( v == PublicStr )     return Visibility::Public;

	assert(!"invalid visibility!");
	return Visibility::Private;
''', '''	static const std::map<std::string, Visibility::E> values = {
		{ DesigntimeStr, Visibility::Designtime },
		{ PrivateStr, Visibility::Private },
		{ ProtectedStr, Visibility::Protected },
		{ PublicStr, Visibility::Public }
	};

	const auto it = values.find(v);
	if ( it != values.end() ) {
		return it->second;
	}

	assert(!"invalid visibility!");
	return Visibility::Private;
'''), (VI, '// Namespace declarations\n', '#include <map>\n// Namespace declarations\n'))

PO = C + 'Common/Position.cpp'
TH = C + 'VirtualMachine/Threads.cpp'
OB = C + 'Object.cpp'

edit('k-pos-tie', (PO, '''	if ( this->mFile == other.mFile ) {
		if ( this->mLine == other.mLine ) {
			return (this->mColumn < other.mColumn);
		}

		return (this->mLine < other.mLine);
	}

	return (this->mFile < other.mFile);
''', '''	return std::tie(mFile, mLine, mColumn) < std::tie(other.mFile, other.mLine, other.mColumn);
'''), (PO, '// Library includes\n', '// Library includes\n#include <tuple>\n'))

edit('k-pos-eq-tie', (PO, '''	return (this->mFile == other.mFile && this->mLine == other.mLine && this->mColumn == other.mColumn);
''', '''	return std::tie(mFile, mLine, mColumn) == std::tie(other.mFile, other.mLine, other.mColumn);
'''), (PO, '// Library includes\n', '// Library includes\n#include <tuple>\n'))

edit('k-thr-foreach', (TH, '''	for ( auto& thread : mThreads ) {
		thread.second->print();
	}
''', '''	std::for_each(mThreads.begin(), mThreads.end(), [](decltype(mThreads)::value_type& entry) {
		entry.second->print();
	});
'''), (TH, '// Library includes\n', '// Library includes\n#include <algorithm>\n'))

edit('k-thr-iterator', (TH, '''	for ( auto& thread : mThreads) {
		// finalize thread
		thread.second->deinit();

		delete thread.second;
		thread.second = nullptr;
	}
	mThreads.clear();
''', '''	for ( auto it = mThreads.begin(); it != mThreads.end(); ++it ) {
		auto* thread = it->second;

		// finalize thread
		thread->deinit();

		it->second = nullptr;
		delete thread;
	}
	mThreads.clear();
'''))

edit('k-bp-copyif', (BP, '''	Ancestors ancestors;

	for ( const auto& it : mInheritance ) {
		if ( it.ancestorType() == Ancestor::Type::Extends ) {
			ancestors.insert(it);
		}
	}

	return ancestors;
''', '''	Ancestors ancestors;

	std::copy_if(mInheritance.begin(), mInheritance.end(), std::inserter(ancestors, ancestors.end()), [](const Ancestor& it) {
		return it.ancestorType() == Ancestor::Type::Extends;
	});

	return ancestors;
'''), (BP, '// Library includes\n', '// Library includes\n#include <algorithm>\n#include <iterator>\n'))

edit('k-bp-filter', (BP, '''	Ancestors ancestors;

	for ( const auto& it : mInheritance ) {
		if ( it.ancestorType() == Ancestor::Type::Extends ) {
			ancestors.insert(it);
		}
	}

	return ancestors;
''', '''	return filterByType(mInheritance, Ancestor::Type::Extends);
'''), (BP, '''	Ancestors implementations;

	for ( const auto& it : mInheritance ) {
		if ( it.ancestorType() == Ancestor::Type::Implements ) {
			implementations.insert(it);
		}
	}

	return implementations;
''', '''	return filterByType(mInheritance, Ancestor::Type::Implements);
'''), (BP, '''Ancestors BluePrintObject::getAncestors() const
''', '''static Ancestors filterByType(const Ancestors& inheritance, Ancestor::Type::E type)
{
	Ancestors result;

	for ( auto it = inheritance.begin(); it != inheritance.end(); ++it ) {
		if ( it->ancestorType() != type ) {
			continue;
		}

		result.insert(*it);
	}

	return result;
}

Ancestors BluePrintObject::getAncestors() const
'''))

edit('k-obj-instance-anyof', (OB, '''	if ( type.empty() ) {
		return false;
	}

	if ( QualifiedTypename() == type ) {
		return true;
	}

	for ( const auto& it : mInheritance ) {
		if ( it.second->isInstanceOf(type) ) {
			return true;
		}
	}

	return false;
''', '''	if ( type.empty() || QualifiedTypename() == type ) {
		return !type.empty();
	}

	return std::any_of(mInheritance.begin(), mInheritance.end(), [&type](const Inheritance::value_type& parent) {
		return parent.second->isInstanceOf(type);
	});
'''), (OB, '// Library includes\n', '// Library includes\n#include <algorithm>\n'))

edit('k-dbg-notify-struct', (DB, '''	BreakPoint breakpoint(token.position());
	auto breakIt = mBreakPoints.find(breakpoint);

	bool stop = false;
''', '''	struct Decision {
		bool stop;
		int reason;
	};

	BreakPoint breakpoint(token.position());
	auto breakIt = mBreakPoints.find(breakpoint);

	Decision decision{ false, 0 };
'''), (DB, '''		case NextAction::StepOver:
			stop = true;
			break;
		case NextAction::WaitForBreakPoint:
			if ( breakIt != mBreakPoints.end() ) {
				stop = true;
''', '''		case NextAction::StepOver:
			decision.stop = true;
			decision.reason = 1;
			break;
		case NextAction::WaitForBreakPoint:
			if ( breakIt != mBreakPoints.end() ) {
				decision.stop = true;
				decision.reason = 2;
'''), (DB, '''	if ( stop ) {
		mReceiver->notify(scope, breakpoint);
''', '''	if ( decision.stop && decision.reason ) {
		mReceiver->notify(scope, breakpoint);
'''))

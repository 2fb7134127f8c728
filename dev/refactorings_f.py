"""Edits of the built-in types, operators, tools, extensions and helpers around the core, as somebody who knows only the code would make them."""
from refactorings import edit, C
R = C + 'Runtime/'
B = R + 'BuildInTypes/'
OP = R + 'OperatorOverloading.cpp'
D = 'Projects/Core/Debugger/'
E = 'Projects/Extensions/'
PK = 'Projects/slang-pkg/'
DB = 'Projects/slang-dbg/'
M = 'Projects/slang/main.cpp'
TY = C + 'Common/Types.cpp'

# ------------------------------------------------------------------ built-in types
edit('bt-string-helper',
     (B + 'StringType.cpp', '''StringType::StringType( const AtomicValue& value )
''', '''namespace {

bool isConvertible( const Object& object )
{
	const std::string& type = object.QualifiedTypename();

	return object.isEnumerationValue() ||
		   type == StringType::TYPENAME ||
		   type == BoolType::TYPENAME ||
		   type == DoubleType::TYPENAME ||
		   type == EnumerationType::TYPENAME ||
		   type == FloatType::TYPENAME ||
		   type == Int16Type::TYPENAME ||
		   type == Int32Type::TYPENAME ||
		   type == Int64Type::TYPENAME;
}

}


StringType::StringType( const AtomicValue& value )
'''),
     (B + 'StringType.cpp', '''void StringType::operator_plus( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	if ( target == BoolType::TYPENAME ||
		 target == DoubleType::TYPENAME ||
		 target == EnumerationType::TYPENAME ||
		 target == FloatType::TYPENAME ||
		 target == Int16Type::TYPENAME ||
		 target == Int32Type::TYPENAME ||
		 target == Int64Type::TYPENAME ||
		 target == StringType::TYPENAME ||
		 other->isEnumerationValue() ) {
		mValue = mValue.toStdString() + other->getValue().toStdString();
		return;
	}

	throw''', '''void StringType::operator_plus( const Object* other )
{
	if ( isConvertible( *other ) ) {
		mValue = mValue.toStdString() + other->getValue().toStdString();
		return;
	}

	throw'''),
     (B + 'StringType.cpp', '''bool StringType::operator_less( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	if ( target == BoolType::TYPENAME ||
         target == DoubleType::TYPENAME ||
         target == EnumerationType::TYPENAME ||
         target == FloatType::TYPENAME ||
         target == Int16Type::TYPENAME ||
         target == Int32Type::TYPENAME ||
         target == Int64Type::TYPENAME ||
         target == StringType::TYPENAME ||
         other->isEnumerationValue() ) {
		return mValue.toStdString() < other->getValue().toStdString();
	}

	throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator<: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported" );
''', '''bool StringType::operator_less( const Object* other )
{
	if ( !isConvertible( *other ) ) {
		throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator<: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported" );
	}

	return mValue.toStdString() < other->getValue().toStdString();
'''))
edit('bt-string-shift-delegates',
     (B + 'StringType.cpp', '''void StringType::operator_shift_left( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	if ( target == BoolType::TYPENAME ||
		 target == DoubleType::TYPENAME ||
		 target == EnumerationType::TYPENAME ||
		 target == FloatType::TYPENAME ||
		 target == Int16Type::TYPENAME ||
		 target == Int32Type::TYPENAME ||
		 target == Int64Type::TYPENAME ||
		 target == StringType::TYPENAME ||
		 other->isEnumerationValue() ) {
		mValue = mValue.toStdString() + other->getValue().toStdString();
		return;
	}

	throw''', '''void StringType::operator_shift_left( const Object* other )
{
	const auto source = other->QualifiedTypename();
	const bool supported = source == StringType::TYPENAME ||
		 source == BoolType::TYPENAME ||
		 source == DoubleType::TYPENAME ||
		 source == EnumerationType::TYPENAME ||
		 source == FloatType::TYPENAME ||
		 source == Int16Type::TYPENAME ||
		 source == Int32Type::TYPENAME ||
		 source == Int64Type::TYPENAME ||
		 other->isEnumerationValue();

	if ( supported ) {
		auto value = mValue.toStdString();
		value += other->getValue().toStdString();

		mValue = value;
		return;
	}

	throw'''))
edit('bt-string-assign-set',
     (B + 'StringType.cpp', '''void StringType::operator_assign( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	if ( target == BoolType::TYPENAME ||
         target == DoubleType::TYPENAME ||
         target == EnumerationType::TYPENAME ||
         target == FloatType::TYPENAME ||
         target == Int16Type::TYPENAME ||
         target == Int32Type::TYPENAME ||
         target == Int64Type::TYPENAME ||
         target == StringType::TYPENAME ||
         other->isEnumerationValue() ) {
		mValue = other->getValue().toStdString();
	}
	else {
		Object::operator_assign( other );
	}
}''', '''void StringType::operator_assign( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	bool atomic = other->isEnumerationValue();
	for ( const auto& type : { BoolType::TYPENAME, DoubleType::TYPENAME, EnumerationType::TYPENAME, FloatType::TYPENAME,
							   Int16Type::TYPENAME, Int32Type::TYPENAME, Int64Type::TYPENAME, StringType::TYPENAME } ) {
		if ( target == type ) {
			atomic = true;
			break;
		}
	}

	if ( !atomic ) {
		Object::operator_assign( other );
		return;
	}

	mValue = other->getValue().toStdString();
}'''))
edit('bt-int64-divide-locals',
     (B + 'Int64Type.cpp', '''		if ( static_cast<int64_t>( other->getValue().toInt() ) == 0 ) {
			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
		}

		if ( static_cast<int64_t>( other->getValue().toInt() ) == -1 ) {
			// the quotient of the smallest value and -1 is not representable, it wraps around like the other operators
			mValue = static_cast<int64_t>( 0 - static_cast<uint64_t>( mValue.toInt() ) );
			return;
		}

		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
		return;
''', '''		const int64_t dividend = mValue.toInt();
		const int64_t divisor = other->getValue().toInt();

		switch ( divisor ) {
			case 0:
				throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
			case -1:
				// the quotient of the smallest value and -1 is not representable, it wraps around like the other operators
				mValue = static_cast<int64_t>( 0 - static_cast<uint64_t>( dividend ) );
				return;
			default:
				mValue = dividend / divisor;
				return;
		}
'''))
edit('bt-int64-modulo-else',
     (B + 'Int64Type.cpp', '''		if ( static_cast<int64_t>( other->getValue().toInt() ) == 0 ) {
			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
		}

		if ( static_cast<int64_t>( other->getValue().toInt() ) == -1 ) {
			mValue = static_cast<int64_t>( 0 );
			return;
		}

		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
		return;
''', '''		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
		if ( !divisor ) {
			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
		}

		mValue = divisor == -1 ? static_cast<int64_t>( 0 ) : static_cast<int64_t>( mValue.toInt() ) % divisor;
		return;
'''))
edit('bt-int64-greater-guard',
     (B + 'Int64Type.cpp', '''bool Int64Type::operator_greater( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	if ( target == BoolType::TYPENAME ||
		 target == DoubleType::TYPENAME ||
		 target == EnumerationType::TYPENAME ||
		 target == FloatType::TYPENAME ||
		 target == Int16Type::TYPENAME ||
		 target == Int32Type::TYPENAME ||
		 target == Int64Type::TYPENAME ||
		 target == StringType::TYPENAME ||
		 other->isEnumerationValue() ) {
		return static_cast<int64_t>( mValue.toInt() ) > static_cast<int64_t>( other->getValue().toInt() );
	}

	throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator>: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported" );
''', '''bool Int64Type::operator_greater( const Object* other )
{
	const std::string& target = other->QualifiedTypename();

	if ( target != BoolType::TYPENAME &&
		 target != DoubleType::TYPENAME &&
		 target != EnumerationType::TYPENAME &&
		 target != FloatType::TYPENAME &&
		 target != Int16Type::TYPENAME &&
		 target != Int32Type::TYPENAME &&
		 target != Int64Type::TYPENAME &&
		 target != StringType::TYPENAME &&
		 !other->isEnumerationValue() ) {
		throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator>: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported" );
	}

	const int64_t left = mValue.toInt();
	const int64_t right = other->getValue().toInt();

	return right < left;
'''))
edit('bt-int64-unary',
     (B + 'Int64Type.cpp', '''	mValue = static_cast<int64_t>( mValue.toInt() ) - 1;
''', '''	auto value = static_cast<int64_t>( mValue.toInt() );
	mValue = --value;
'''),
     (B + 'Int64Type.cpp', '''	mValue = static_cast<int64_t>( !mValue.toBool() );
''', '''	mValue = static_cast<int64_t>( mValue.toBool() ? 0 : 1 );
'''))
edit('bt-bool-assign-ternary',
     (B + 'BoolType.cpp', '''void BoolType::operator_assign( const Object* rvalue )
{
	const std::string& source = rvalue->QualifiedTypename();

	if ( source == BoolType::TYPENAME ||
		 source == DoubleType::TYPENAME ||
		 source == EnumerationType::TYPENAME ||
		 source == FloatType::TYPENAME ||
		 source == Int16Type::TYPENAME ||
		 source == Int32Type::TYPENAME ||
		 source == Int64Type::TYPENAME ||
		 source == StringType::TYPENAME ||
         rvalue->isEnumerationValue() ) {
		mValue = rvalue->getValue().toBool();
	}
	else {
		mValue = rvalue->isValid();
	}
}''', '''void BoolType::operator_assign( const Object* rvalue )
{
	const std::string& source = rvalue->QualifiedTypename();

	const bool hasValue = rvalue->isEnumerationValue() ||
		 source == BoolType::TYPENAME ||
		 source == DoubleType::TYPENAME ||
		 source == EnumerationType::TYPENAME ||
		 source == FloatType::TYPENAME ||
		 source == Int16Type::TYPENAME ||
		 source == Int32Type::TYPENAME ||
		 source == Int64Type::TYPENAME ||
		 source == StringType::TYPENAME;

	mValue = hasValue ? rvalue->getValue().toBool() : rvalue->isValid();
}'''))
edit('bt-enum-helper',
     (B + 'EnumerationType.cpp', '''EnumerationType::EnumerationType(const''', '''namespace {

bool isSameEnumeration(const Object& left, const Object& right)
{
	return right.isEnumerationValue() && right.QualifiedTypename() == left.QualifiedTypename();
}

}


EnumerationType::EnumerationType(const'''),
     (B + 'EnumerationType.cpp', '''	if ( other->isEnumerationValue() && QualifiedTypename() == other->QualifiedTypename() ) {
		return mValue.toInt() < other->getValue().toInt();
	}
''', '''	if ( isSameEnumeration(*this, *other) ) {
		return mValue.toInt() < other->getValue().toInt();
	}
'''),
     (B + 'EnumerationType.cpp', '''	if ( other->isEnumerationValue() && QualifiedTypename() == other->QualifiedTypename() ) {
		return mValue.toInt() >= other->getValue().toInt();
	}
''', '''	if ( isSameEnumeration(*this, *other) ) {
		return !(mValue.toInt() < other->getValue().toInt());
	}
'''))
edit('bt-enum-ctor-order',
     (B + 'EnumerationType.cpp', '''	mBluePrintType = BlueprintType::Enum;
	mIsAtomicType = true;
	mQualifiedOuterface = type;
	mQualifiedTypename = type;
''', '''	mQualifiedTypename = type;
	mQualifiedOuterface = mQualifiedTypename;

	mIsAtomicType = true;
	mBluePrintType = BlueprintType::Enum;
'''))

# ------------------------------------------------------------------ operators
edit('op-divide-template',
     (OP, '''void operator_binary_assign( Object* lvalue, Object* rvalue )
''', '''namespace {

template<class T>
void divide( Object* lvalue, T tmp, Object* rvalue )
{
	tmp.operator_divide( rvalue );

	lvalue->assign( tmp );
}

}


void operator_binary_assign( Object* lvalue, Object* rvalue )
'''),
     (OP, '''		DoubleType tmp( lvalue->getValue().toDouble() );
		tmp.operator_divide( rvalue );

		lvalue->assign( tmp );
''', '''		divide( lvalue, DoubleType( lvalue->getValue().toDouble() ), rvalue );
'''),
     (OP, '''		FloatType tmp( lvalue->getValue().toFloat() );
		tmp.operator_divide( rvalue );

		lvalue->assign( tmp );
''', '''		divide( lvalue, FloatType( lvalue->getValue().toFloat() ), rvalue );
'''))
edit('op-assign-enum-merge',
     (OP, '''	// special handling for enumeration values
	else if ( lvalue->isEnumerationValue() && rvalue->QualifiedTypename() == _int32 ) {
		lvalue->setValue( rvalue->getValue().toInt() );
	}
	// special handling for enumeration values
	else if ( lvalue->QualifiedTypename() == _int32 && rvalue->isEnumerationValue() ) {
		lvalue->setValue( rvalue->getValue().toInt() );
	}
	// no atomic data type, so we have to look if our assign operator has been overwritten
	else {
		if ( !rvalue->isValid() ) {	// special handling for null object
			lvalue->assign( *rvalue );
			return;
		}

		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) ) {
			lvalue->assign( *rvalue );
			return;
		}

		// invalid''', '''	// special handling for enumeration values
	else if ( ( lvalue->isEnumerationValue() && source == _int32 ) ||
			  ( target == _int32 && rvalue->isEnumerationValue() ) ) {
		lvalue->setValue( rvalue->getValue().toInt() );
	}
	// no atomic data type, so we have to look if our assign operator has been overwritten
	else {
		// special handling for null object
		if ( !rvalue->isValid() || rvalue->isInstanceOf( target ) ) {
			lvalue->assign( *rvalue );
			return;
		}

		// invalid'''))
edit('op-assign-returns',
     (OP, '''		lvalue->assign( *rvalue );
	}
	else if ( target == BoolType::TYPENAME ) {
		lvalue->assign( BoolType( rvalue->getValue().toBool() ) );
	}
	else if ( target == DoubleType::TYPENAME ) {
''', '''		lvalue->assign( *rvalue );
		return;
	}

	if ( target == BoolType::TYPENAME ) {
		BoolType converted( rvalue->getValue().toBool() );

		lvalue->assign( converted );
		return;
	}

	if ( target == DoubleType::TYPENAME ) {
'''))
edit('op-equal-locals',
     (OP, '''	std::string target = lvalue->QualifiedTypename();

	if ( target == BoolType::TYPENAME ) {
		return BoolType( lvalue->isValid() ).operator_equal( rvalue );
	}
	if ( target == DoubleType::TYPENAME ) {
		return DoubleType( lvalue->getValue().toDouble() ).operator_equal( rvalue );
	}
''', '''	const auto& target = lvalue->QualifiedTypename();

	if ( target == DoubleType::TYPENAME ) {
		DoubleType left( lvalue->getValue().toDouble() );
		return left.operator_equal( rvalue );
	}
	if ( target == BoolType::TYPENAME ) {
		BoolType left( lvalue->isValid() );
		return left.operator_equal( rvalue );
	}
'''),
     (OP, '''	if ( lvalue->resolveMethod( "operator==", params, false, Visibility::Public ) ) {
		Object tmp;
		lvalue->execute( &tmp, "operator==", params );
		return isTrue( tmp );
	}

	// no equality operator found, so we have to compare our references
	return lvalue->operator_equal( rvalue );
''', '''	auto* method = lvalue->resolveMethod( "operator==", params, false, Visibility::Public );
	if ( !method ) {
		// no equality operator found, so we have to compare our references
		return lvalue->operator_equal( rvalue );
	}

	Object tmp;
	lvalue->execute( &tmp, "operator==", params );

	return isTrue( &tmp );
'''))
edit('op-istrue-delegates',
     (R + 'Utils.cpp', '''bool isTrue(const Object* object)
{
	if ( object->isAtomicType() ) {
		return object->getValue().toBool();
	}

	return object->isValid();
}''', '''bool isTrue(const Object* object)
{
	return isTrue(*object);
}'''))
edit('op-istrue-ternary',
     (R + 'Utils.cpp', '''bool isTrue(const Object& object)
{
	if ( object.isAtomicType() ) {
		return object.getValue().toBool();
	}

	return object.isValid();
}''', '''bool isTrue(const Object& object)
{
	return object.isAtomicType() ? object.getValue().toBool()
								 : object.isValid();
}'''))

# ------------------------------------------------------------------ values of the core
edit('pos-less-flat',
     (C + 'Common/Position.cpp', '''	if ( this->mFile == other.mFile ) {
		if ( this->mLine == other.mLine ) {
			return (this->mColumn < other.mColumn);
		}

		return (this->mLine < other.mLine);
	}

	return (this->mFile < other.mFile);
''', '''	if ( mFile != other.mFile ) {
		return mFile < other.mFile;
	}
	if ( mLine != other.mLine ) {
		return mLine < other.mLine;
	}

	return mColumn < other.mColumn;
'''))
edit('pos-equal-order',
     (C + 'Common/Position.cpp', '''	return (this->mFile == other.mFile && this->mLine == other.mLine && this->mColumn == other.mColumn);
''', '''	if ( mLine != other.mLine || mColumn != other.mColumn ) {
		return false;
	}

	return mFile == other.mFile;
'''))
edit('pos-tostring-string',
     (C + 'Common/Position.cpp', '''	std::stringstream ss;

	if ( !mFile.empty() ) {
		ss << "file " << mFile;
	}
	if ( mLine != 0 ) {
		ss << ", line " << mLine;

		if ( mColumn != 0 ) {
			ss << ", column " << mColumn;
		}
	}

	return ss.str();
''', '''	std::stringstream ss;

	if ( !mFile.empty() ) {
		ss << "file ";
		ss << mFile;
	}

	if ( mLine == 0 ) {
		return ss.str();
	}

	ss << ", line " << mLine;
	if ( mColumn ) {
		ss << ", column " << mColumn;
	}

	return ss.str();
'''))
edit('vis-switch-variable',
     (C + 'Common/Visibility.cpp', '''	switch ( e ) {
		case Visibility::Designtime: return DesigntimeStr;
		case Visibility::Private: return PrivateStr;
		case Visibility::Protected: return ProtectedStr;
		case Visibility::Public: return PublicStr;
	}
''', '''	if ( e == Visibility::Public ) {
		return PublicStr;
	}
	if ( e == Visibility::Protected ) {
		return ProtectedStr;
	}
	if ( e == Visibility::Private ) {
		return PrivateStr;
	}
	if ( e == Visibility::Designtime ) {
		return DesigntimeStr;
	}
'''))
edit('ref-compare-members',
     (R + 'Reference.cpp', '''	return getAddress() < other.getAddress();
''', '''	return mAddress < other.mAddress;
'''),
     (R + 'Reference.cpp', '''	return mAddress != 0;
''', '''	return mAddress > 0;
'''))
edit('anc-equal-single',
     (C + 'Designtime/Ancestor.cpp', '''	if ( name() != other.name() ) {
		return false;
	}

	return ancestorType() == other.ancestorType() && visibility() == other.visibility();
''', '''	return mAncestorType == other.mAncestorType &&
		   mVisibility == other.mVisibility &&
		   name() == other.name();
'''),
     (C + 'Designtime/Ancestor.cpp', '''	if ( ancestorType() == other.ancestorType() ) {
		if ( name() == other.name() ) {
			if ( visibility() == other.visibility() ) {
				return constraints() == other.constraints();
			}

			return visibility() < other.visibility();
		}

		return name() < other.name();
	}

	return ancestorType() < other.ancestorType();
''', '''	if ( ancestorType() != other.ancestorType() ) {
		return ancestorType() < other.ancestorType();
	}
	if ( name() != other.name() ) {
		return name() < other.name();
	}
	if ( visibility() != other.visibility() ) {
		return visibility() < other.visibility();
	}

	return constraints() == other.constraints();
'''))
edit('types-keywords-list',
     (TY, '''	static StringSet mutability;

	mutability.insert(MUTABILITY_CONST);
	mutability.insert(MUTABILITY_MODIFY);

	return mutability;
''', '''	static StringSet mutability;

	for ( const auto& word : { MUTABILITY_MODIFY, MUTABILITY_CONST } ) {
		mutability.insert(word);
	}

	return mutability;
'''))
edit('types-keywords-order',
     (TY, '''	types.insert(Runtime::BoolType::TYPENAME);
	types.insert(Runtime::DoubleType::TYPENAME);
	types.insert(Runtime::FloatType::TYPENAME);
	types.insert(Runtime::Int16Type::TYPENAME);
''', '''	types.insert(Runtime::Int16Type::TYPENAME);
	types.insert(Runtime::BoolType::TYPENAME);
	types.insert(Runtime::FloatType::TYPENAME);
	types.insert(Runtime::DoubleType::TYPENAME);
'''))
edit('types-join-strings',
     (TY, '''	for ( auto it = list.begin(); it != list.end(); ++it ) {
		result += (*it);

		auto copy = it;
		if ( ++copy != list.end() ) {
			result += ", ";
		}
	}
''', '''	bool first = true;
	for ( const auto& entry : list ) {
		if ( !first ) {
			result += ", ";
		}
		first = false;

		result += entry;
	}
'''))
edit('types-join-std-next',
     (TY, '''		result += toString((*it));

		auto copy = it;
		if ( ++copy != list.end() ) {
			result += ", ";
		}
''', '''		result += toString(*it);

		if ( std::next(it) != list.end() ) {
			result += ", ";
		}
'''))
edit('types-tostring-param',
     (TY, '''	std::string result = param.type();
	if ( !result.empty() ) {
		result += " ";
		result += param.name();
	}
	else {
		result += " ";
		result += ANONYMOUS_OBJECT;
	}

	result += " " + Mutability::convert(param.mutability());
	result += " " + AccessMode::convert(param.access());
''', '''	std::string result = param.type() + " ";
	result += param.type().empty() ? ANONYMOUS_OBJECT : param.name();
	result += " " + Mutability::convert(param.mutability()) + " " + AccessMode::convert(param.access());
'''))
edit('opt-process-range',
     (C + 'AST/TreeOptimizer.cpp', '''		switch ( it->second->getSymbolType() ) {
			case Symbol::IType::MethodSymbol:
				throw Common::Exceptions::Exception("invalid symbol found: " + it->second->getName());
			case Symbol::IType::BluePrintObjectSymbol:
				processBluePrint(dynamic_cast<Designtime::BluePrintObject*>(it->second));
				break;
			case Symbol::IType::NamespaceSymbol:
				processNamespace(dynamic_cast<Common::Namespace*>(it->second));
				break;
			case Symbol::IType::ObjectSymbol:
				break;	// ignore runtime symbols
		}
''', '''		auto* symbol = it->second;
		const auto type = symbol->getSymbolType();

		if ( type == Symbol::IType::MethodSymbol ) {
			throw Common::Exceptions::Exception("invalid symbol found: " + symbol->getName());
		}
		if ( type == Symbol::IType::NamespaceSymbol ) {
			processNamespace(dynamic_cast<Common::Namespace*>(symbol));
		}
		else if ( type == Symbol::IType::BluePrintObjectSymbol ) {
			processBluePrint(dynamic_cast<Designtime::BluePrintObject*>(symbol));
		}
'''))
edit('opt-blueprint-merge',
     (C + 'AST/TreeOptimizer.cpp', '''	if ( object->isInterface() ) {
		// interfaces have no implementation, so there's nothing to optimize; adieu..
		return;
	}
	if ( object->provideMethods().empty() && object->provideSymbols().empty() ) {
		// an object without methods and symbols... maybe a primitive?
		return;
	}
	if ( !object->getPrototypeConstraints().empty() ) {
		// skip prototypes; not optimizing prototypes will hurt us during prototype usage though
		return;
	}

	process( object );
''', '''	// interfaces have no implementation and objects without methods and symbols are maybe primitives
	const bool isEmpty = object->provideMethods().empty() && object->provideSymbols().empty();

	// not optimizing prototypes will hurt us during prototype usage though
	const bool isPrototype = !object->getPrototypeConstraints().empty();

	if ( !object->isInterface() && !isEmpty && !isPrototype ) {
		process( object );
	}
'''))
edit('buf-insert-index',
     (C + 'AST/TreeLineBuffer.cpp', '''	auto it = mTreeLines.find(position);
	if ( it != mTreeLines.end() ) {
		// append content at an existing position
		it->second += content;
		return;
	}

	// insert content at a new position
	mTreeLines.insert(std::make_pair(position, content));
''', '''	auto it = mTreeLines.find(position);
	if ( it == mTreeLines.end() ) {
		// insert content at a new position
		mTreeLines.insert(std::make_pair(position, content));
	}
	else {
		// append content at an existing position
		it->second += content;
	}
'''))
edit('ns-dtor-if',
     (C + 'Common/Namespace.cpp', '''		if ( tmpSymbol.second ) {
			switch ( tmpSymbol.second->getSymbolType() ) {
				case Symbol::IType::NamespaceSymbol:
					delete tmpSymbol.second;
					tmpSymbol.second = nullptr;

					mSymbols.erase(tmpSymbol.first);
					break;
				default:
					break;
			}
		}
''', '''		if ( !tmpSymbol.second || tmpSymbol.second->getSymbolType() != Symbol::IType::NamespaceSymbol ) {
			continue;
		}

		delete tmpSymbol.second;
		tmpSymbol.second = nullptr;

		mSymbols.erase(tmpSymbol.first);
'''))
edit('ns-tostring-if',
     (C + 'Common/Namespace.cpp', '''	std::string result;

	result += Utils::Tools::indent(indent);
	result += Visibility::convert(mVisibility);
	result += " " + LanguageFeatureState::convert(mLanguageFeatureState);
	result += " " + std::string(RESERVED_WORD_NAMESPACE) + " " + getName();
	result += " " + Mutability::convert(mMutability);
	result += " {\\n";
''', '''	std::string result = Utils::Tools::indent(indent) + Visibility::convert(mVisibility);

	result += " " + LanguageFeatureState::convert(mLanguageFeatureState) + " ";
	result += std::string(RESERVED_WORD_NAMESPACE) + " " + getName();
	result += " " + Mutability::convert(mMutability) + " {\\n";
'''),
     (C + 'Common/Namespace.cpp', '''		switch ( symbol.second->getSymbolType() ) {
			case Symbol::IType::BluePrintObjectSymbol:
				continue;
			case Symbol::IType::MethodSymbol:
			case Symbol::IType::NamespaceSymbol:
			case Symbol::IType::ObjectSymbol:
				result += symbol.second->ToString(indent + 1) + "\\n";
				break;
		}
''', '''		if ( symbol.second->getSymbolType() != Symbol::IType::BluePrintObjectSymbol ) {
			result += symbol.second->ToString(indent + 1);
			result += "\\n";
		}
'''))
edit('ctl-deinit-helper',
     (C + 'VirtualMachine/Controller.cpp', '''	delete mThreads;
	mThreads = nullptr;
	delete mMemory;
	mMemory = nullptr;
	delete mRepository;
	mRepository = nullptr;
''', '''	delete mThreads;
	delete mMemory;
	delete mRepository;

	mMemory = nullptr;
	mRepository = nullptr;
	mThreads = nullptr;
'''))
edit('mem-get-ternary',
     (C + 'VirtualMachine/Memory.cpp', '''	auto it = mMemory.find(ref);
	if ( it != mMemory.end() ) {
		return it->second.mObject;
	}

	return nullptr;
''', '''	const auto entry = mMemory.find(ref);

	return entry == mMemory.end() ? nullptr : entry->second.mObject;
'''))
edit('mem-remove-predecrement',
     (C + 'VirtualMachine/Memory.cpp', '''	it->second.mCount--;
	if ( it->second.mCount == 0 && it->second.mObject ) {
		deleteObject( it->first );
	}
''', '''	auto& entry = it->second;
	if ( --entry.mCount != 0 || !entry.mObject ) {
		return;
	}

	deleteObject( it->first );
'''))
edit('mem-delete-local',
     (C + 'VirtualMachine/Memory.cpp', '''	if ( it->second.mObject ) {
		// there is no code left to be executed while we shut down
		if ( Controller::Instance().phase() != Controller::Phase::Shutdown ) {
			it->second.mObject->Destructor();
		}

		delete it->second.mObject;
	}
''', '''	const bool shutdown = Controller::Instance().phase() == Controller::Phase::Shutdown;

	if ( it->second.mObject && !shutdown ) {
		// there is no code left to be executed while we shut down
		it->second.mObject->Destructor();
	}

	delete it->second.mObject;
'''))
edit('token-tostring',
     (C + 'Common/Token.cpp', '''    return "{ Category: " + std::to_string( mCategory ) + "\\tType: " + std::to_string( mType ) + ", \\tContent: \\"" + mContent + "\\" }";
''', '''    std::string result = "{ Category: " + std::to_string( mCategory );
    result += "\\tType: " + std::to_string( mType );
    result += ", \\tContent: \\"" + mContent + "\\" }";

    return result;
'''))

# ------------------------------------------------------------------ debugger
edit('dbg-add-replace',
     (D + 'Debugger.cpp', '''	auto it = mBreakPoints.find(breakpoint);

	if ( it != mBreakPoints.end() ) {
		mBreakPoints.erase(it);
	}

	mBreakPoints.insert(breakpoint);
''', '''	mBreakPoints.erase(breakpoint);
	mBreakPoints.insert(breakpoint);
'''))
edit('dbg-notify-flat',
     (D + 'Debugger.cpp', '''	BreakPoint breakpoint(token.position());
	auto breakIt = mBreakPoints.find(breakpoint);

	bool stop = false;

	switch ( mNextAction ) {
		case NextAction::StepOver:
			stop = true;
			break;
		case NextAction::WaitForBreakPoint:
			if ( breakIt != mBreakPoints.end() ) {
				stop = true;
				breakpoint = *breakIt;
			}
			break;
		default:
			break;
	}

	if ( stop ) {
		mReceiver->notify(scope, breakpoint);
	}
''', '''	const BreakPoint breakpoint(token.position());

	if ( mNextAction == NextAction::StepOver ) {
		mReceiver->notify(scope, breakpoint);
	}
	else if ( mNextAction == NextAction::WaitForBreakPoint ) {
		auto breakIt = mBreakPoints.find(breakpoint);

		if ( breakIt != mBreakPoints.end() ) {
			mReceiver->notify(scope, *breakIt);
		}
	}
'''))
edit('dbg-receiver-early',
     (D + 'Debugger.cpp', '''	if ( !mReceiver ) {
		mReceiver = receiver;
		return true;
	}

	return false;
''', '''	if ( mReceiver ) {
		return false;
	}

	mReceiver = receiver;

	return true;
'''),
     (D + 'Debugger.cpp', '''	return mBreakPoints.erase(breakpoint) > 0;
''', '''	return mBreakPoints.erase(breakpoint) != 0;
'''))
edit('dbg-condition-chain',
     (D + 'Condition.cpp', '''	switch ( mType ) {
		case Type::Equals:
			return operator_binary_equal(left, right);
		case Type::Greater:
			return operator_binary_greater(left, right);
		case Type::GreaterEqual:
			return operator_binary_greater_equal(left, right);
		case Type::Less:
			return operator_binary_less(left, right);
		case Type::LessEqual:
			return operator_binary_less_equal(left, right);
		case Type::Unequal:
			return !operator_binary_equal(left, right);
		case Type::Invalid:
			return true;
	}

	return false;
''', '''	bool result = false;

	switch ( mType ) {
		case Type::Invalid: result = true; break;
		case Type::Equals: result = operator_binary_equal(left, right); break;
		case Type::Unequal: result = !operator_binary_equal(left, right); break;
		case Type::Less: result = operator_binary_less(left, right); break;
		case Type::LessEqual: result = operator_binary_less_equal(left, right); break;
		case Type::Greater: result = operator_binary_greater(left, right); break;
		case Type::GreaterEqual: result = operator_binary_greater_equal(left, right); break;
	}

	return result;
'''))
edit('dbg-condition-text',
     (D + 'Condition.cpp', '''	std::string result;

	result += mLeft;
	switch ( mType ) {
		case Type::Equals: result += " == "; break;
		case Type::Greater: result += " > "; break;
		case Type::GreaterEqual: result += " >= "; break;
		case Type::Less: result += " < "; break;
		case Type::LessEqual: result += " <= "; break;
		case Type::Unequal: result += " != "; break;
		case Type::Invalid: result += " "; break;
	}
	result += mRight;

	return result;
''', '''	const char* separator = "";

	switch ( mType ) {
		case Type::Equals: separator = " == "; break;
		case Type::Greater: separator = " > "; break;
		case Type::GreaterEqual: separator = " >= "; break;
		case Type::Less: separator = " < "; break;
		case Type::LessEqual: separator = " <= "; break;
		case Type::Unequal: separator = " != "; break;
		case Type::Invalid: separator = " "; break;
	}

	return mLeft + separator + mRight;
'''))
edit('dbg-breakpoint-strings',
     (D + 'BreakPoint.cpp', '''	std::stringstream ss;
	ss << mFilename << " " << mLine;
	if ( mCondition.isValid() ) {
		ss << " [" << mCondition.toString() << "]";
	}
	return ss.str();
''', '''	std::stringstream ss;
	ss << mFilename;
	ss << " ";
	ss << mLine;

	if ( !mCondition.isValid() ) {
		return ss.str();
	}

	ss << " [" << mCondition.toString();
	ss << "]";

	return ss.str();
'''))
edit('ldbg-watch-next',
     (DB + 'LocalClient/LocalClient.cpp', '''	auto it = tokens.begin();
	++it;	// skip first token

	mWatches.insert( Watch( ( *it ) ) );

	return true;
''', '''	mWatches.insert( Watch( *std::next( tokens.begin() ) ) );	// skip first token

	return true;
'''))
edit('ldbg-literal-helper',
     (DB + 'LocalClient/LocalClient.cpp', '''	auto it = mSymbolCollection.find( name );
	if (  it != mSymbolCollection.end()  ) {
		// symbol already cached
		return true;
	}

	Tokenizer''', '''	if (  mSymbolCollection.count( name )  ) {
		// symbol already cached
		return true;
	}

	Tokenizer'''),
     (DB + 'LocalClient/LocalClient.cpp', '''	mSymbolCollection.insert( std::make_pair( name, symbol ) );

	return true;
''', '''	mSymbolCollection.emplace( name, symbol );

	return true;
'''))
edit('ldbg-cached-find',
     (DB + 'LocalClient/LocalClient.cpp', '''	for (  const auto& it : mSymbolCollection  ) {
		if (  it.first == name  ) {
			return it.second;
		}
	}

	return nullptr;
''', '''	for (  auto it = mSymbolCollection.begin(); it != mSymbolCollection.end(); ++it  ) {
		if (  it->first == name  ) {
			return it->second;
		}
	}

	return nullptr;
'''))
edit('ldbg-commands-helper',
     (DB + 'LocalClient/LocalClient.cpp', '''	auto it = tokens.begin();

	if (  it != tokens.end()  ) {
		std::string cmd = ( *it++ );

		if (  cmd == "autolist"  ) {
			toggleAutoList();
		}
		else if (  cmd == "autostart"  ) {
			toggleAutoStart();
		}
''', '''	if (  !tokens.empty()  ) {
		const std::string& cmd = tokens.front();

		if (  cmd == "autostart"  ) {
			toggleAutoStart();
		}
		else if (  cmd == "autolist"  ) {
			toggleAutoList();
		}
'''))

# ------------------------------------------------------------------ extensions
edit('ext-substr-size',
     (E + 'System/Strings/SubStr.h', '''		std::string param_value = (*it++).value().toStdString();
		unsigned long param_start = (*it++).value().toInt();
		unsigned long param_end = std::string::npos;

		if ( params.size() >= 3 ) {
			param_end = (*it++).value().toInt();
		}

		std::string result_value = param_value.substr(param_start, param_end);

		*result = Runtime::StringType(result_value);
''', '''		const auto value = it->value().toStdString();
		++it;
		const unsigned long start = it->value().toInt();
		++it;

		const unsigned long length = params.size() < 3 ? std::string::npos : it->value().toInt();

		*result = Runtime::StringType(value.substr(start, length));
'''))
edit('ext-lpad-loop',
     (E + 'System/Strings/StrLPad.h', '''		if ( param_length < 0 ) {
			throw Runtime::Exceptions::SizeException("invalid length");
		}
		if ( param_pattern.size() != 1 ) {
			throw Runtime::Exceptions::SizeException("invalid pattern size");
		}

		if ( static_cast<size_t>( param_length ) > param_value.size() ) {
			param_value.insert(param_value.begin(), param_length - param_value.size(), param_pattern[0]);
		}
''', '''		if ( param_length < 0 || param_pattern.size() != 1 ) {
			throw Runtime::Exceptions::SizeException(param_length < 0 ? "invalid length" : "invalid pattern size");
		}

		const auto length = static_cast<size_t>( param_length );
		if ( param_value.size() < length ) {
			param_value.insert(param_value.begin(), length - param_value.size(), param_pattern.front());
		}
'''))
edit('ext-fopen-early',
     (E + 'LIBC/stdio/fopen.h', '''		if ( fileHandle ) {
			result_handle = stdio_t::FileHandles.empty() ? 1 : stdio_t::FileHandles.rbegin()->first + 1;

			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
		}

		*result = Runtime::Int32Type(result_handle);
		return Runtime::ControlFlow::Normal;
''', '''		if ( !fileHandle ) {
			*result = Runtime::Int32Type(0);
			return Runtime::ControlFlow::Normal;
		}

		if ( stdio_t::FileHandles.empty() ) {
			result_handle = 1;
		}
		else {
			result_handle = stdio_t::FileHandles.rbegin()->first + 1;
		}

		stdio_t::FileHandles.emplace(result_handle, fileHandle);

		*result = Runtime::Int32Type(result_handle);
		return Runtime::ControlFlow::Normal;
'''))
edit('ext-fgets-min',
     (E + 'LIBC/stdio/fgets.h', '''			auto readSize = param_size - remainingSize;
			if ( readSize > READ_SIZE ) {
				readSize = READ_SIZE;
			}

			char stream[READ_SIZE];
			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) == nullptr ) {
				break;
			}
''', '''			auto readSize = param_size - remainingSize > READ_SIZE ? READ_SIZE : param_size - remainingSize;

			char stream[READ_SIZE];
			if ( !fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) ) {
				break;
			}
'''))

# ------------------------------------------------------------------ programs
edit('main-return-status',
     (M, '''		if ( mPrintTokens ) {
			// we are done after printing our tokens
		}
		else if ( mSyntaxCheck ) {
			std::cout << "Syntax check done, no errors found." << std::endl;
		}
		else {
			Runtime::Object result;
			mVirtualMachine.run( script, mParameters, &result );

			if ( result.getValue().type() == Runtime::AtomicValue::Type::INT ) {
				return result.getValue().toInt();
			}
		}

		return 0;
''', '''		if ( mPrintTokens ) {
			// we are done after printing our tokens
			return 0;
		}

		if ( mSyntaxCheck ) {
			std::cout << "Syntax check done, no errors found." << std::endl;
			return 0;
		}

		Runtime::Object result;
		mVirtualMachine.run( script, mParameters, &result );

		const auto& value = result.getValue();

		return value.type() == Runtime::AtomicValue::Type::INT ? value.toInt() : 0;
'''))
edit('main-option-helper',
     (M, '''void processParameters( int argc, const char* argv[] )
{
''', '''bool isOption( const char* argument, const char* shortName, const char* longName )
{
	return Utils::Tools::StringCompare( argument, shortName ) || Utils::Tools::StringCompare( argument, longName );
}

void processParameters( int argc, const char* argv[] )
{
'''),
     (M, '''Utils::Tools::StringCompare( argv[i], "-h" ) || Utils::Tools::StringCompare( argv[i], "--help" ) )''', '''isOption( argv[i], "-h", "--help" ) )'''),
     (M, '''Utils::Tools::StringCompare( argv[i], "-q" ) || Utils::Tools::StringCompare( argv[i], "--quiet" ) )''', '''isOption( argv[i], "-q", "--quiet" ) )'''),
     (M, '''Utils::Tools::StringCompare( argv[i], "-v" ) || Utils::Tools::StringCompare( argv[i], "--verbose" ) )''', '''isOption( argv[i], "-v", "--verbose" ) )'''))
edit('main-script-continue',
     (M, '''	for ( int i = 1; i < argc; i++ ) {
		if ( !scriptParams ) {
''', '''	for ( int i = 1; i < argc; ++i ) {
		if ( scriptParams ) {
			params.emplace_back( argv[i] );
			paramStr += "\\n";
			paramStr += argv[i];
		}
		else {
'''),
     (M, '''				scriptParams = true;
			}
		}
		else {
			params.emplace_back( argv[i] );
			paramStr += "\\n";
			paramStr += argv[i];
		}
	}
''', '''				scriptParams = true;
			}
		}
	}
'''))
edit('main-settings-local',
     (M, '''	mVirtualMachine.settings().DoCollectErrors = true;
	mVirtualMachine.settings().DoSanityCheck = mSanityCheck;
	mVirtualMachine.settings().DoSyntaxCheck = mSyntaxCheck;
	mVirtualMachine.settings().PrintTokens   = mPrintTokens;
''', '''	auto& settings = mVirtualMachine.settings();

	settings.PrintTokens     = mPrintTokens;
	settings.DoCollectErrors = true;
	settings.DoSanityCheck   = mSanityCheck;
	settings.DoSyntaxCheck   = mSyntaxCheck;
'''))
edit('pkg-repo-anyof',
     (PK + 'Common/Repository.cpp', '''	for ( const auto& m : mModules ) {
		if ( m.mShortName == module.mShortName ) {
			return true;
		}
	}

	return false;
''', '''	bool found = false;
	for ( auto it = mModules.begin(); it != mModules.end() && !found; ++it ) {
		found = it->mShortName == module.mShortName;
	}

	return found;
'''),
     (PK + 'Common/Repository.cpp', '''	if ( contains( module ) ) {
		// prevent duplicates
		return;
	}

	mModules.insert( module );
''', '''	// prevent duplicates
	if ( !contains( module ) ) {
		mModules.insert( module );
	}
'''))
edit('pkg-restrictions-continue',
     (PK + 'Application/Application.cpp', '''        if ( mLocalRestriction.mModule == module.mShortName ) {
            // check minimal version
            if ( mLocalRestriction.mMinVersion.isValid() && module.mVersion < mLocalRestriction.mMinVersion ) {
                return false;
            }
            // check maximum version
            if ( mLocalRestriction.mMaxVersion.isValid() && mLocalRestriction.mMaxVersion < module.mVersion ) {
                return false;
            }
        }
''', '''        if ( mLocalRestriction.mModule != module.mShortName ) {
            continue;
        }

        const auto& minimum = mLocalRestriction.mMinVersion;
        const auto& maximum = mLocalRestriction.mMaxVersion;

        const bool tooOld = minimum.isValid() && module.mVersion < minimum;
        const bool tooNew = maximum.isValid() && maximum < module.mVersion;
        if ( tooOld || tooNew ) {
            return false;
        }
'''))
edit('pkg-collect-for',
     (PK + 'Application/Application.cpp', '''    struct dirent* dirEntry = readdir( dir );

    // add Slang''', '''    // add Slang'''),
     (PK + 'Application/Application.cpp', '''    while ( dirEntry ) {
        if ( dirEntry->d_type == DT_DIR ) {
            std::string entry( dirEntry->d_name );

            if ( entry != "." && entry != ".." ) {
                auto filename = "module.json";
                auto path     = mSettings.LibraryFolder + entry + "/";

                if ( Utils::Tools::Files::exists( path + filename ) ) {
                    mLocalRepository.addModule(
                        collectModuleData( path, filename )
                    );
                }
            }
        }

        dirEntry = readdir( dir );
    }
''', '''    while ( struct dirent* dirEntry = readdir( dir ) ) {
        const std::string entry( dirEntry->d_name );
        if ( dirEntry->d_type != DT_DIR || entry == "." || entry == ".." ) {
            continue;
        }

        auto filename = "module.json";
        auto path     = mSettings.LibraryFolder + entry + "/";

        if ( Utils::Tools::Files::exists( path + filename ) ) {
            mLocalRepository.addModule( collectModuleData( path, filename ) );
        }
    }
'''))
edit('pkg-outdated-and',
     (PK + 'Application/Application.cpp', '''    auto local  = mLocalRepository.getModules();
    auto remote = mRemoteRepository.getModules();

    for ( const auto& localModule : local ) {
        for ( const auto& remoteModule : remote ) {
            if ( localModule.mShortName == remoteModule.mShortName && localModule.mVersion < remoteModule.mVersion ) {
                outdatedModules.insert( remoteModule );
            }
        }
    }
''', '''    for ( const auto& localModule : mLocalRepository.getModules() ) {
        for ( const auto& remoteModule : mRemoteRepository.getModules() ) {
            if ( localModule.mShortName != remoteModule.mShortName ) {
                continue;
            }
            if ( localModule.mVersion < remoteModule.mVersion ) {
                outdatedModules.insert( remoteModule );
            }
        }
    }
'''))
edit('pkg-download-early',
     (PK + 'Application/Application.cpp', '''    pagefile = fopen( target.c_str(), "wb" );
    if ( pagefile ) {
        /* write the page body to this file handle */
        curl_easy_setopt( curl_handle, CURLOPT_WRITEDATA, pagefile );

        /* get it! */
        curl_easy_perform( curl_handle );

        /* close the header file */
        fclose( pagefile );

        if ( allowCleanup ) {
            mDownloadedFiles.push_back( target );
        }

        result = true;
    }

    /* cleanup curl stuff */
    curl_easy_cleanup( curl_handle );

    return result;
''', '''    pagefile = fopen( target.c_str(), "wb" );
    if ( !pagefile ) {
        /* cleanup curl stuff */
        curl_easy_cleanup( curl_handle );

        return result;
    }

    /* write the page body to this file handle */
    curl_easy_setopt( curl_handle, CURLOPT_WRITEDATA, pagefile );

    /* get it! */
    curl_easy_perform( curl_handle );

    /* close the header file */
    fclose( pagefile );

    if ( allowCleanup ) {
        mDownloadedFiles.push_back( target );
    }

    /* cleanup curl stuff */
    curl_easy_cleanup( curl_handle );

    return true;
'''))
edit('pkg-trailing-slash-helper',
     (PK + 'Application/Application.cpp', '''namespace Slang {


Application::~Application()
''', '''namespace {

    void requireTrailingSlash( std::string& path )
    {
        if ( path[ path.size() - 1 ] != '/' ) {
            path += '/';
        }
    }

}


namespace Slang {


Application::~Application()
'''),
     (PK + 'Application/Application.cpp', '''        if ( mSettings.CurrentFolder[ mSettings.CurrentFolder.size() - 1 ] != '/' ) {
            mSettings.CurrentFolder += '/';
        }
''', '''        requireTrailingSlash( mSettings.CurrentFolder );
'''),
     (PK + 'Application/Application.cpp', '''    if ( mSettings.LibraryFolder[ mSettings.LibraryFolder.size() - 1 ] != '/' ) {
        mSettings.LibraryFolder += '/';
    }
''', '''    requireTrailingSlash( mSettings.LibraryFolder );
'''))
edit('pkg-module-optional-helper',
     (PK + 'Common/Module.cpp', '''Module::Module()
''', '''namespace {

std::string optionalString( const Json::Value& value, const std::string& key )
{
    if ( !value.isMember( key ) ) {
        return "";
    }

    return value[ key ].asString();
}

}

Module::Module()
'''),
     (PK + 'Common/Module.cpp', '''    mArchitecture = value.isMember( ARCHITECTURE ) ? value[ ARCHITECTURE ].asString() : "";
''', '''    mArchitecture = optionalString( value, ARCHITECTURE );
'''),
     (PK + 'Common/Module.cpp', '''    mSource       = value.isMember( SOURCE ) ? value[ SOURCE ].asString() : "";
''', '''    mSource       = optionalString( value, SOURCE );
'''),
     (PK + 'Common/Module.cpp', '''            auto version_max = dependency.isMember( VERSION_MAX ) ? dependency[ VERSION_MAX ].asString() : "";
            auto version_min = dependency.isMember( VERSION_MIN ) ? dependency[ VERSION_MIN ].asString() : "";
''', '''            auto version_max = optionalString( dependency, VERSION_MAX );
            auto version_min = optionalString( dependency, VERSION_MIN );
'''))

"""Edits of the object model, the virtual machine and the analyser, as somebody who knows only the code would make them."""
from refactorings import edit, C
O = C + 'Object.cpp'
V = C + 'VirtualMachine/VirtualMachine.cpp'
A = C + 'Designtime/Analyser.cpp'
T = C + 'VirtualMachine/Threads.cpp'
S = C + 'VirtualMachine/StackFrame.cpp'
TS = C + 'VirtualMachine/TypeSystem.cpp'
P = C + 'Common/PrototypeConstraint.cpp'
K = C + 'Designtime/SanityChecker.cpp'
U = C + 'Common/Utils.cpp'
R = C + 'Runtime/'

edit('obj-assign-early-return',
     (O, '''void Object::assign(const Object& other)
{
	if ( this != &other ) {
		mBluePrint = other.mBluePrint;
		mBluePrintType = other.mBluePrintType;
		mFilename = other.mFilename;
		mInheritance = other.mInheritance;
		mIsAtomicType = other.mIsAtomicType;
		mMemoryLayout = other.mMemoryLayout;
		IScope* parent = mParent;
		mParent = other.mParent ? other.mParent : mParent;
		mScopeName = other.mScopeName;
		mScopeType = other.mScopeType;

		if ( mQualifiedOuterface == NULL_TYPE ) {
			mQualifiedOuterface = other.mQualifiedOuterface;
		}
		mQualifiedTypename = other.mQualifiedTypename;
		mTypename = other.mTypename;

		mIsReference = other.mIsReference;
		if ( mIsReference && other.mIsReference ) {
			assignReference(other.mReference);
		}
		else {
			setValue(other.getValue());

			if ( !mIsAtomicType && !other.mReference.isValid() ) {
				// the other object has never been set, so we don't refer to our old one any more
				mParent = parent;
				assignReference(Reference());
			}
		}
	}
}''', '''void Object::assign(const Object& other)
{
	if ( this == &other ) {
		return;
	}

	IScope* oldParent = mParent;
	if ( other.mParent ) {
		mParent = other.mParent;
	}
	if ( mQualifiedOuterface == NULL_TYPE ) {
		mQualifiedOuterface = other.mQualifiedOuterface;
	}

	mBluePrint = other.mBluePrint;
	mBluePrintType = other.mBluePrintType;
	mFilename = other.mFilename;
	mInheritance = other.mInheritance;
	mIsAtomicType = other.mIsAtomicType;
	mIsReference = other.mIsReference;
	mMemoryLayout = other.mMemoryLayout;
	mQualifiedTypename = other.mQualifiedTypename;
	mScopeName = other.mScopeName;
	mScopeType = other.mScopeType;
	mTypename = other.mTypename;

	if ( mIsReference ) {
		assignReference(other.mReference);
		return;
	}

	setValue(other.getValue());
	if ( mIsAtomicType || other.mReference.isValid() ) {
		return;
	}

	mParent = oldParent;
	assignReference(Reference());
}'''))
edit('obj-assignreference-ternary',
     (O, '''	mReference = ref;
	Controller::Instance().memory()->add(mReference);

	if ( mReference.isValid() ) {
		mThis = Controller::Instance().memory()->get(mReference);
	}
	else {
		mThis = this;
	}

	if ( old.isValid() ) {
		Controller::Instance().memory()->remove(old);
	}
}''', '''	auto* memory = Controller::Instance().memory();

	mReference = ref;
	memory->add(mReference);

	mThis = mReference.isValid() ? memory->get(mReference) : this;

	if ( !old.isValid() ) {
		return;
	}

	memory->remove(old);
}'''))
edit('obj-constructor-flat',
     (O, '''	ControlFlow::E controlflow = ControlFlow::Normal;

	if ( mIsAtomicType ) {	// hack to initialize atomic types
		if ( !params.empty() ) {
			if ( params.size() != 1 ) {
				throw Common::Exceptions::ParameterCountMismatch("atomic types only support one constructor parameter");
			}

			setValue(params.front().value());
		}

		return controlflow;
	}
''', '''	if ( mIsAtomicType ) {	// hack to initialize atomic types
		if ( params.size() > 1 ) {
			throw Common::Exceptions::ParameterCountMismatch("atomic types only support one constructor parameter");
		}
		if ( !params.empty() ) {
			setValue(params.front().value());
		}

		return ControlFlow::Normal;
	}
'''),
     (O, '''	if ( constructor ) {
		VoidType tmp;

		controlflow = Controller::Instance().thread(0)->execute(mThis, constructor, params, &tmp);

		if ( controlflow != ControlFlow::Normal ) {
			return controlflow;
		}
	}
	else {
		// no appropriate constructor found
		throw Common::Exceptions::Exception(QualifiedTypename() + ": no appropriate constructor found");
	}

	return controlflow;
}''', '''	if ( !constructor ) {
		// no appropriate constructor found
		throw Common::Exceptions::Exception(QualifiedTypename() + ": no appropriate constructor found");
	}

	VoidType tmp;

	return Controller::Instance().thread(0)->execute(mThis, constructor, params, &tmp);
}'''))
edit('obj-destructor-flat',
     (O, '''	ControlFlow::E controlflow = ControlFlow::Normal;

	if ( !mIsAtomicType ) {
		ParameterList params;

		// only execute destructor if one is present
		auto* destructor = dynamic_cast<Common::Method*>(resolveMethod(RESERVED_WORD_DESTRUCTOR, params, true, Visibility::Private));
		if ( destructor ) {
			VoidType tmp;

			controlflow = Controller::Instance().thread(0)->execute(mThis, destructor, params, &tmp);

			if ( controlflow != ControlFlow::Normal ) {
				return controlflow;
			}
		}
	}

	return controlflow;
}''', '''	if ( mIsAtomicType ) {
		return ControlFlow::Normal;
	}

	const ParameterList params;

	auto* destructor = dynamic_cast<Common::Method*>(resolveMethod(RESERVED_WORD_DESTRUCTOR, params, true, Visibility::Private));
	if ( !destructor ) {
		// nothing to execute
		return ControlFlow::Normal;
	}

	VoidType tmp;

	return Controller::Instance().thread(0)->execute(mThis, destructor, params, &tmp);
}'''))
edit('obj-garbage-continue',
     (O, '''		if ( symIt.first == IDENTIFIER_BASE ) {
			auto* obj = dynamic_cast<Object*>( symIt.second );
			if ( obj ) {
				Controller::Instance().memory()->remove(obj->mReference);
			}
		}
		else if ( symIt.first == IDENTIFIER_THIS ) {
			// do nothing
		}
		else if ( symIt.second && symIt.second->getSymbolType() == Symbol::IType::ObjectSymbol ) {
			delete symIt.second;
		}

		mSymbols.erase(symIt.first);
''', '''		const auto& name = symIt.first;
		auto* symbol = symIt.second;

		if ( name == IDENTIFIER_BASE ) {
			if ( auto* base = dynamic_cast<Object*>(symbol) ) {
				Controller::Instance().memory()->remove(base->mReference);
			}
		}
		else if ( name != IDENTIFIER_THIS && symbol && symbol->getSymbolType() == Symbol::IType::ObjectSymbol ) {
			delete symbol;
		}

		mSymbols.erase(name);
'''))
edit('obj-abstract-any-of',
     (O, '''	for ( auto& mMethod : mMethods ) {
		if ( mMethod->isAbstractMethod() ) {
			return true;
		}
	}

	return mBluePrintType == BlueprintType::Interface;''', '''	if ( mBluePrintType == BlueprintType::Interface ) {
		return true;
	}

	return std::any_of(mMethods.begin(), mMethods.end(), [](const Common::Method* method) { return method->isAbstractMethod(); });'''),
     (O, '''namespace Slang {
namespace Runtime {


Object::Object()''', '''#include <algorithm>

namespace Slang {
namespace Runtime {


Object::Object()'''))
edit('obj-instanceof-single-flow',
     (O, '''	if ( type.empty() ) {
		return false;
	}

	if ( QualifiedTypename() == type ) {
		return true;
	}

	for ( const auto& it : mInheritance ) {
		if ( it.second->isInstanceOf(type) ) {
			return true;
		}
	}

	return false;''', '''	bool found = !type.empty() && QualifiedTypename() == type;

	if ( !type.empty() ) {
		for ( auto it = mInheritance.begin(); !found && it != mInheritance.end(); ++it ) {
			found = it->second->isInstanceOf(type);
		}
	}

	return found;'''))
edit('obj-operator-assign-else',
     (O, '''	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, false, Visibility::Public);
	if ( value_operator ) {
		Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
		return;
	}

	throw Exceptions::InvalidOperation(QualifiedTypename() + ".operator=: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported");
}''', '''	auto* valueOperator = other->resolveMethod("=operator", params, false, Visibility::Public);
	if ( !valueOperator ) {
		throw Exceptions::InvalidOperation(QualifiedTypename() + ".operator=: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported");
	}

	auto* method = dynamic_cast<Common::Method*>(valueOperator);

	Controller::Instance().thread(0)->execute(other->getThis(), method, params, this);
}'''))
edit('obj-throw-helper',
     (O, '''void Object::operator_bitand(const Object *other)
{
	throw Exceptions::InvalidOperation(QualifiedTypename() + ".operator&: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported");
}
''', '''namespace {

[[noreturn]] void conversionNotSupported(const Object* self, const std::string& name, const Object* other)
{
	throw Exceptions::InvalidOperation(self->QualifiedTypename() + "." + name + ": conversion from " + other->QualifiedTypename() + " to " + self->QualifiedTypename() + " not supported");
}

}

void Object::operator_bitand(const Object *other)
{
	conversionNotSupported(this, "operator&", other);
}
'''),
     (O, '''	throw Exceptions::InvalidOperation(QualifiedTypename() + ".operator/: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported");
''', '''	conversionNotSupported(this, "operator/", other);
'''),
     (O, '''bool Object::operator_greater(const Object *other)
{
	throw Exceptions::InvalidOperation(QualifiedTypename() + ".operator>: conversion from " + other->QualifiedTypename() + " to " + QualifiedTypename() + " not supported");
''', '''bool Object::operator_greater(const Object *other)
{
	conversionNotSupported(this, "operator>", other);
'''))
edit('obj-equal-named',
     (O, '''	if ( QualifiedTypename() == NULL_TYPE && (other->QualifiedTypename() == NULL_TYPE || other->QualifiedTypename() == _object) ) {
		return isValid() == other->isValid();
	}
''', '''	if ( QualifiedTypename() == NULL_TYPE ) {
		const auto& otherType = other->QualifiedTypename();

		if ( otherType == NULL_TYPE || otherType == _object ) {
			return isValid() == other->isValid();
		}
	}
'''),
     (O, '''	return mValue.toInt() == other->mValue.toInt() && mReference == other->mReference;
''', '''	if ( mReference == other->mReference ) {
		return mValue.toInt() == other->mValue.toInt();
	}

	return false;
'''))
edit('obj-resolve-inherited-visibility',
     (O, '''Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{''', '''namespace {

Visibility::E inheritedVisibility(Visibility::E visibility)
{
	if ( visibility < Visibility::Protected ) {
		return Visibility::Protected;
	}

	return visibility;
}

}

Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibility::E visibility) const
{'''),
     (O, '''	// (2) check inheritance
	if ( !result ) {
		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
			result = base->resolve(name, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);
		}
	}

	// (3) if we still haven't found something also look in other scopes
	if ( !result && !onlyCurrentScope ) {
		result = MethodScope::resolve(name, false, visibility);
	}

	return result;
''', '''	if ( result ) {
		return result;
	}

	// (2) check inheritance
	auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
	if ( onlyCurrentScope ) {
		return nullptr;
	}

	if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol ) {
		result = base->resolve(name, false, inheritedVisibility(visibility));
	}

	// (3) if we still haven't found something also look in other scopes
	if ( !result ) {
		result = MethodScope::resolve(name, false, visibility);
	}

	return result;
'''),
     (O, '''dynamic_cast<Object*>(base)->resolveMethod(name, params, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);''',
      '''dynamic_cast<Object*>(base)->resolveMethod(name, params, onlyCurrentScope, inheritedVisibility(visibility));'''))
edit('obj-resolvemethod-flat',
     (O, '''	if ( !result || !result->isFinalMethod() ) {
		if ( !onlyCurrentScope ) {
			Slang::MethodSymbol *tmp = MethodScope::resolveMethod(name, params, false, visibility);

			if ( tmp ) {
				result = tmp;
			}
		}
	}

	return result;
''', '''	const bool isFinal = result && result->isFinalMethod();
	if ( onlyCurrentScope || isFinal ) {
		return result;
	}

	auto* outer = MethodScope::resolveMethod(name, params, false, visibility);

	return outer ? outer : result;
'''))
edit('obj-tostring-if',
     (O, '''			if ( mSymbol.first == IDENTIFIER_THIS || mSymbol.second->getName() == IDENTIFIER_THIS || !mSymbol.second ) {
				continue;
			}

			switch ( mSymbol.second->getSymbolType() ) {
				case Symbol::IType::BluePrintObjectSymbol:
				case Symbol::IType::MethodSymbol:
				case Symbol::IType::NamespaceSymbol:
					continue;
				case Symbol::IType::ObjectSymbol:
					result += mSymbol.second->ToString(indent + 1) + "\\n";
					break;
			}
''', '''			if ( mSymbol.first == IDENTIFIER_THIS || mSymbol.second->getName() == IDENTIFIER_THIS || !mSymbol.second ) {
				continue;
			}

			if ( mSymbol.second->getSymbolType() == Symbol::IType::ObjectSymbol ) {
				result += mSymbol.second->ToString(indent + 1);
				result += "\\n";
			}
'''))
edit('obj-defaultctor-split',
     (O, '''	return defaultConstructor && (anyConstructor == defaultConstructor);
''', '''	if ( defaultConstructor == nullptr ) {
		return false;
	}

	return defaultConstructor == anyConstructor;
'''))
edit('obj-definemethod-helper',
     (O, '''void Object::defineMethod(const std::string& name, Common::Method* method)
{
	// try to override abstract methods a.k.a. implement an interface method
	auto* old = dynamic_cast<Common::Method*>(resolveMethod(method->getName(), method->provideSignature(), true, Visibility::Designtime));
	if ( old && old->isAbstractMethod() ) {
		auto* base = dynamic_cast<Object*>(resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
		base->undefineMethod(old);

		delete old;
	}

	MethodScope::defineMethod(name, method);
}
''', '''void Object::replaceAbstractMethod(const Common::Method* method)
{
	auto* old = dynamic_cast<Common::Method*>(resolveMethod(method->getName(), method->provideSignature(), true, Visibility::Designtime));
	if ( !old || !old->isAbstractMethod() ) {
		return;
	}

	auto* base = dynamic_cast<Object*>(resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
	base->undefineMethod(old);

	delete old;
}

void Object::defineMethod(const std::string& name, Common::Method* method)
{
	// try to override abstract methods a.k.a. implement an interface method
	replaceAbstractMethod(method);

	MethodScope::defineMethod(name, method);
}
'''),
     (C + 'Object.h', '''	void garbageCollector();
''', '''	void garbageCollector();
	void replaceAbstractMethod(const Common::Method* method);
'''))

edit('vm-readdir-for',
     (V, '''	dirent* dp;

	while ( (dp = readdir(dirp)) != nullptr ) {
		std::string file(dp->d_name);

		if ( file != "." && file != ".." ) {
			files.push_back(dirname + "/" + file);
		}
	}
''', '''	for ( dirent* entry = readdir(dirp); entry; entry = readdir(dirp) ) {
		const std::string file(entry->d_name);

		if ( file == "." || file == ".." ) {
			continue;
		}

		files.emplace_back(dirname + "/" + file);
	}
'''))
edit('vm-import-helper',
     (V, '''	// load all library references
	auto libraryImports = analyser.getLibraryReferences();
	for ( const auto& file : libraryImports ) {
		bool imported{ false };

		for ( const auto& folder : mLibraryFolders ) {
			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
				imported = true;
				break;
			}
		}

		if ( !imported ) {
			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
		}
	}

	auto* globalScope''', '''	// load all library references
	auto libraryImports = analyser.getLibraryReferences();
	for ( const auto& file : libraryImports ) {
		if ( !importFromLibraryFolders( file ) ) {
			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
		}
	}

	auto* globalScope'''),
     (V, '''Script* VirtualMachine::createScriptFromFile(const std::string& filename)
{''', '''bool VirtualMachine::importFromLibraryFolders(const std::string& file)
{
	for ( const auto& folder : mLibraryFolders ) {
		if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
			return true;
		}
	}

	return false;
}

Script* VirtualMachine::createScriptFromFile(const std::string& filename)
{'''),
     (C + 'VirtualMachine/VirtualMachine.h', '''	bool loadLibrary(''', '''	bool importFromLibraryFolders(const std::string& file);
	bool loadLibrary('''))
edit('vm-extension-helper',
     (V, '''	// load all extension references
	auto extensions = analyser.getExtensionReferences();
	for ( const auto& extension : extensions ) {
		if ( !loadExtension( extension, currentFolder ) ) {
			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
		}
	}
''', '''	// load all extension references
	loadExtensions( analyser.getExtensionReferences(), currentFolder );
'''),
     (V, '''bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
{''', '''void VirtualMachine::loadExtensions(const StringList& extensions, const std::string& folder)
{
	for ( const auto& extension : extensions ) {
		if ( loadExtension( extension, folder ) ) {
			continue;
		}

		throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + folder + "'" );
	}
}

bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
{'''),
     (C + 'VirtualMachine/VirtualMachine.h', '''	bool loadLibrary(''', '''	void loadExtensions(const StringList& extensions, const std::string& folder);
	bool loadLibrary('''))
edit('vm-loadlibrary-while',
     (V, '''	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
			libIt = libraryImports.erase( libIt );
		}
		else {
			++libIt;
		}
	}
''', '''	auto import = libraryImports.begin();
	while ( import != libraryImports.end() ) {
		const bool resolved = loadLibrary( buildFilename( currentFolder, *import ), library );

		import = resolved ? libraryImports.erase( import ) : std::next( import );
	}
'''))
edit('vm-loadlibrary-order',
     (V, '''	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
		OSdebug( "Ignoring already imported file '" + library + "'" );
		return true;
	}

	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
	addLibraryFolder( currentFolder );

	mImportedLibraries.insert( library );
''', '''	if ( mImportedLibraries.count( library ) ) {
		OSdebug( "Ignoring already imported file '" + library + "'" );
		return true;
	}

	mImportedLibraries.insert( library );

	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
	addLibraryFolder( currentFolder );
'''))
edit('vm-run-switch',
     (V, '''	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
		throw Runtime::ControlFlow::ExitProgram;
	}
	if ( controlflow == Runtime::ControlFlow::Throw ) {
		throw Runtime::ControlFlow::Throw;
	}
''', '''	switch ( controlflow ) {
		case Runtime::ControlFlow::ExitProgram:
		case Runtime::ControlFlow::Throw:
			throw controlflow;
		default:
			break;
	}
'''))
edit('vm-spec-matches',
     (V, '''	if ( specification.empty() ) {
		for ( const auto& str : mSpecification ) {
			std::cout << str << std::endl;
		}

		return;
	}

	int32_t found{ 0 };
	for ( const auto& str : mSpecification ) {
		if ( str.find( specification ) != std::string::npos ) {
            std::cout << str << std::endl;

            found++;
		}
	}

	if ( found ) {
		//std::cout << std::endl;
		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
	}
	else {
		std::cout << "no result found for '" << specification << "'" << std::endl;
	}
''', '''	const bool printAll = specification.empty();
	bool found = printAll;

	for ( const auto& str : mSpecification ) {
		if ( !printAll && str.find( specification ) == std::string::npos ) {
			continue;
		}

		std::cout << str << std::endl;
		found = true;
	}

	if ( !found ) {
		std::cout << "no result found for '" << specification << "'" << std::endl;
	}
'''))
edit('vm-buildfilename-loop',
     (V, '''		auto path = Utils::Tools::Files::BuildPath( folder, filename );

		// (1) look for a ".slang" file (new standard)
		auto file = path + ".slang";
		if ( Utils::Tools::Files::exists( file ) ) {
			return file;
		}

		// (2) look for a ".os" file (deprecated)
		file = path + ".os";
		if ( Utils::Tools::Files::exists( file ) ) {
			return file;
		}

		// (3) look for an "All.slang" file (new standard)
		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
		if ( Utils::Tools::Files::exists( file ) ) {
			return file;
		}

		// (4) look for an "All.os" file as a last resort (deprecated)
		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
''', '''		const auto path = Utils::Tools::Files::BuildPath( folder, filename );
		const auto all = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) );

		// look for the file itself and for an "All" file below, ".os" is deprecated
		for ( const auto& candidate : { path + ".slang", path + ".os", all + ".slang" } ) {
			if ( Utils::Tools::Files::exists( candidate ) ) {
				return candidate;
			}
		}

		return all + ".os";
'''))
edit('vm-init-split',
     (V, '''	auto* homepath = getenv( SLANG_LIBRARY );
	if ( homepath ) {
		std::string path( homepath );

		while ( !path.empty() ) {
			std::string left;
			std::string right;

			Utils::Tools::splitBy( path, ':', left, right );
			addLibraryFolder( left );

			path = right;
		}
	}
''', '''	const auto* homepath = getenv( SLANG_LIBRARY );

	std::string remaining( homepath ? homepath : "" );
	while ( !remaining.empty() ) {
		std::string folder;
		std::string rest;

		Utils::Tools::splitBy( remaining, ':', folder, rest );
		addLibraryFolder( folder );

		remaining = rest;
	}
'''))
edit('vm-file-fullname-once',
     (V, '''	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
	mScriptFile = Utils::Tools::Files::GetFullname(filename);
''', '''	mScriptFile = Utils::Tools::Files::GetFullname(filename);
	addLibraryFolder(Utils::Tools::Files::ExtractPathname(mScriptFile));
'''))
edit('vm-createscript-cache-controller',
     (V, '''	auto* globalScope = Controller::Instance().globalScope();

	Controller::Instance().repository()->initializeBlueprints();

	Controller::Instance().phase(Controller::Phase::Generation);

	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
	generator.process(globalScope);

	auto errors = generator.hasErrors();
	if ( errors ) {
		throw''', '''	auto& controller = Controller::Instance();
	auto* globalScope = controller.globalScope();
	auto* repository = controller.repository();

	repository->initializeBlueprints();

	controller.phase(Controller::Phase::Generation);

	AST::TreeGenerator generator( repository, mSettings.DoCollectErrors );
	generator.process(globalScope);

	if ( const auto errors = generator.hasErrors() ) {
		throw'''))

edit('thr-frame-index',
     (T, '''	size_t idx = 0;
	for ( auto it = mStackFrames.cbegin(); it != mStackFrames.cend(); ++it, ++idx ) {
		if ( idx == frameId ) {
			return (*it);
		}
	}

	return nullptr;
''', '''	size_t idx = 0;

	for ( auto* frame : mStackFrames ) {
		if ( idx++ == frameId ) {
			return frame;
		}
	}

	return nullptr;
'''))
edit('thr-popframe-order',
     (T, '''	StackFrame* frame = mStackFrames.back();
	frame->popTokens();
	frame->popScope();

	mStackFrames.pop_back();

	delete frame;
''', '''	auto* frame = mStackFrames.back();
	mStackFrames.pop_back();

	frame->popTokens();
	frame->popScope();

	delete frame;
'''))
edit('thr-current-ternary',
     (T, '''	if ( mStackFrames.empty() ) {
		return nullptr;
	}

	return mStackFrames.back();
''', '''	return mStackFrames.empty() ? nullptr : mStackFrames.back();
'''))
edit('thr-getthread-flip',
     (T, '''	auto it = mThreads.find(id);
	if ( it == mThreads.end() ) {
		// queried thread does not exist!
		throw Runtime::Exceptions::RuntimeException("invalid thread id");
	}

	return it->second;
''', '''	const auto thread = mThreads.find(id);
	if ( thread != mThreads.end() ) {
		return thread->second;
	}

	// queried thread does not exist!
	throw Runtime::Exceptions::RuntimeException("invalid thread id");
'''))
edit('thr-create-insert',
     (T, '''	mThreads.insert(std::make_pair(t->getId(), t));
''', '''	mThreads.emplace(t->getId(), t);
'''))
edit('thr-print-range',
     (T, '''	for ( StackFrames::const_iterator it = mStackFrames.begin(); it != mStackFrames.end(); ++it ) {
		std::cout << "Thread " << mId << ": " << (*it)->toString() << std::endl;
	}
''', '''	for ( const auto* frame : mStackFrames ) {
		std::cout << "Thread " << mId << ": " << frame->toString() << std::endl;
	}
'''))
edit('frame-popscope-reference',
     (S, '''	Scope s = mScopeStack.back();

	mScopeStack.pop_back();

	if ( s.mAllowDelete ) {
		delete s.mScope;
	}
''', '''	const bool owned = mScopeStack.back().mAllowDelete;
	IScope* scope = mScopeStack.back().mScope;

	mScopeStack.pop_back();

	if ( !owned ) {
		return;
	}

	delete scope;
'''))
edit('frame-tostring-merge',
     (S, '''	switch ( mScope->getScopeType() ) {
		case IScope::IType::MethodScope:
			result += mScope->getFullScopeName();
			break;
		case IScope::IType::NamedScope:
			result += mScope->getFullScopeName() + "(" + Slang::toString(mParameters) + ")";
			break;
		case IScope::IType::SymbolScope:
			result += mScope->getFullScopeName();
			break;
	}

	return result;
''', '''	result += mScope->getFullScopeName();

	if ( mScope->getScopeType() == IScope::IType::NamedScope ) {
		result += "(" + Slang::toString(mParameters) + ")";
	}

	return result;
'''))

edit('ts-exists-chain',
     (TS, '''	if ( !mTypeMap.contains(left) ) {
		return false;
	}
	if ( !mTypeMap[left].contains(operation) ) {
		return false;
	}
	if ( !mTypeMap[left][operation].contains(right) ) {
		return false;
	}

	return !mTypeMap[left][operation][right].empty();
''', '''	return mTypeMap.contains(left)
		&& mTypeMap[left].contains(operation)
		&& mTypeMap[left][operation].contains(right)
		&& !mTypeMap[left][operation][right].empty();
'''))
edit('ts-gettype-reference',
     (TS, '''	if ( !mTypeMap[left].contains(operation.type()) ) {
		throw''', '''
	auto& operations = mTypeMap[left];
	if ( !operations.contains(operation.type()) ) {
		throw'''),
     (TS, '''	if ( !mTypeMap[left][operation.type()].contains(right) ) {
		throw''', '''
	auto& types = operations[operation.type()];
	if ( !types.contains(right) ) {
		throw'''),
     (TS, '''	return mTypeMap[left][operation.type()][right];
''', '''	return types[right];
'''))
edit('ts-string-loop',
     (TS, '''	define(StringType::TYPENAME, Token::Type::ASSIGN, BoolType::TYPENAME,    StringType::TYPENAME);
	define(StringType::TYPENAME, Token::Type::ASSIGN, DoubleType::TYPENAME,  StringType::TYPENAME);
	define(StringType::TYPENAME, Token::Type::ASSIGN, FloatType::TYPENAME,   StringType::TYPENAME);
	define(StringType::TYPENAME, Token::Type::ASSIGN, Int16Type::TYPENAME,   StringType::TYPENAME);
	define(StringType::TYPENAME, Token::Type::ASSIGN, Int32Type::TYPENAME,   StringType::TYPENAME);
	define(StringType::TYPENAME, Token::Type::ASSIGN, Int64Type::TYPENAME,   StringType::TYPENAME);
	define(StringType::TYPENAME, Token::Type::ASSIGN, StringType::TYPENAME,  StringType::TYPENAME);
''', '''	const std::string types[] = { BoolType::TYPENAME, DoubleType::TYPENAME, FloatType::TYPENAME, Int16Type::TYPENAME, Int32Type::TYPENAME, Int64Type::TYPENAME, StringType::TYPENAME };

	for ( const auto& type : types ) {
		define(StringType::TYPENAME, Token::Type::ASSIGN, type, StringType::TYPENAME);
	}
'''))
edit('ts-init-order',
     (TS, '''	initBool();
	initDouble();
	initEnumeration();
	initFloat();
	initInt16();
	initInt32();
	initInt64();
	initObject();
	initString();
''', '''	// atomic types
	initBool();
	initInt16();
	initInt32();
	initInt64();
	initFloat();
	initDouble();
	initString();

	// complex types
	initEnumeration();
	initObject();
'''))

edit('cast-template',
     (R + 'TypeCast.cpp', '''void typecast(Object *base, const std::string& targetType)
{''', '''namespace {

template <class T>
void convert(Object* base)
{
	T tmp(*base);

	base->assign(tmp);
}

}

void typecast(Object *base, const std::string& targetType)
{'''),
     (R + 'TypeCast.cpp', '''		BoolType tmp(*base);

		base->assign(tmp);
''', '''		convert<BoolType>(base);
'''),
     (R + 'TypeCast.cpp', '''	else if ( targetType == Int64Type::TYPENAME ) {
		Int64Type tmp(*base);

		base->assign(tmp);
	}
''', '''	else if ( targetType == Int64Type::TYPENAME ) {
		convert<Int64Type>(base);
	}
'''))
edit('cast-temporaries',
     (R + 'TypeCast.cpp', '''		FloatType tmp(*base);

		base->assign(tmp);
''', '''		base->assign(FloatType(*base));
'''),
     (R + 'TypeCast.cpp', '''		StringType tmp(*base);

		base->assign(tmp);
''', '''		base->assign(StringType(*base));
'''))
edit('atomic-ifs',
     (R + 'AtomicValue.cpp', '''    switch ( mType ) {
        case Type::BOOL:        return mValue.bool_;
        case Type::DOUBLE:      return mValue.double_ != 0.0;
        case Type::FLOAT:       return mValue.float_ != 0.f;
        case Type::INT:         return mValue.int_ != 0;
        case Type::REFERENCE:   return mValue.reference_ != 0;
        case Type::STRING:      return Utils::Tools::stringToBool( mStringValue );
        case Type::UNKNOWN:     break;
    }

    assert(!"invalid data type");
    return false;
''', '''    if ( mType == Type::STRING ) {
        return Utils::Tools::stringToBool( mStringValue );
    }
    if ( mType == Type::BOOL ) {
        return mValue.bool_;
    }

    switch ( mType ) {
        case Type::DOUBLE:      return !( mValue.double_ == 0.0 );
        case Type::FLOAT:       return !( mValue.float_ == 0.f );
        case Type::INT:         return static_cast<bool>( mValue.int_ );
        case Type::REFERENCE:   return static_cast<bool>( mValue.reference_ );
        default:                break;
    }

    assert(!"invalid data type");
    return false;
'''))
edit('atomic-result',
     (R + 'AtomicValue.cpp', '''   switch ( mType ) {
      case Type::BOOL:        return static_cast<int64_t>( mValue.bool_ );
      case Type::DOUBLE:      return static_cast<int64_t>( mValue.double_ );
      case Type::FLOAT:       return static_cast<int64_t>( mValue.float_ );
      case Type::INT:         return mValue.int_;
      case Type::REFERENCE:   return static_cast<int64_t>( mValue.reference_ != 0 );
      case Type::STRING:      return Utils::Tools::stringToInt( mStringValue );
      case Type::UNKNOWN:     break;
   }

   assert(!"invalid data type");
   return 0;
''', '''   int64_t result = 0;

   switch ( mType ) {
      case Type::BOOL:        result = mValue.bool_ ? 1 : 0; break;
      case Type::DOUBLE:      result = static_cast<int64_t>( mValue.double_ ); break;
      case Type::FLOAT:       result = static_cast<int64_t>( mValue.float_ ); break;
      case Type::INT:         result = mValue.int_; break;
      case Type::REFERENCE:   result = mValue.reference_ != 0 ? 1 : 0; break;
      case Type::STRING:      result = Utils::Tools::stringToInt( mStringValue ); break;
      case Type::UNKNOWN:     assert(!"invalid data type"); break;
   }

   return result;
'''))
edit('atomic-delegate',
     (R + 'AtomicValue.cpp', '''AtomicValue& AtomicValue::operator=(int16_t val)
{
    mStringValue = "";

    mType = Type::INT;
    mValue.int_ = val;

    return *this;
}
''', '''AtomicValue& AtomicValue::operator=(int16_t val)
{
    return *this = static_cast<int64_t>( val );
}
'''))
edit('atomic-clear',
     (R + 'AtomicValue.cpp', '''AtomicValue& AtomicValue::operator=(double val)
{
    mStringValue = "";

    mType = Type::DOUBLE;
    mValue.double_ = val;
''', '''AtomicValue& AtomicValue::operator=(double val)
{
    mType = Type::DOUBLE;
    mValue.double_ = val;
    mStringValue.clear();
'''))

edit('ana-enum-for',
     (A, '''	while ( token != tokens.end() ) {
		expect(Token::Type::IDENTIFIER, token);

		auto name = (token++)->content();

		if ( token->type() == Token::Type::ASSIGN ) {
			expect(Token::Type::ASSIGN, token);
			++token;

			expect(Token::Type::CONST_INTEGER, token);
			value = (token++)->content();
		}
		else {
			value = value.toInt() + 1;
		}
''', '''	while ( token != tokens.end() ) {
		expect(Token::Type::IDENTIFIER, token);

		const auto name = token->content();
		++token;

		if ( token->type() != Token::Type::ASSIGN ) {
			value = value.toInt() + 1;
		}
		else {
			++token;

			expect(Token::Type::CONST_INTEGER, token);
			value = token->content();
			++token;
		}
'''))
edit('ana-enum-entry-helper',
     (A, '''		// define enum entries as parent type
		auto* entry = mRepository->createInstance(symbol->QualifiedTypename(), name);
		entry->setMember(true);
		entry->setMemoryLayout(MemoryLayout::Static);
		entry->setMutability(Mutability::Const);
		entry->setQualifiedOuterface(symbol->QualifiedTypename());
		entry->setValue(value.toInt());
		entry->setVisibility(Visibility::Public);

		// define enum entries in current scope
		entry->setParent(symbol);
		symbol->define(name, entry);
''', '''		defineEnumEntry(symbol, name, value);
'''),
     (A, '''Ancestors Analyser::collectInheritance(TokenIterator& token)
{''', '''void Analyser::defineEnumEntry(BluePrintObject* symbol, const std::string& name, const Runtime::AtomicValue& value)
{
	// define enum entries as parent type
	auto* entry = mRepository->createInstance(symbol->QualifiedTypename(), name);
	entry->setParent(symbol);
	entry->setMember(true);
	entry->setMemoryLayout(MemoryLayout::Static);
	entry->setMutability(Mutability::Const);
	entry->setQualifiedOuterface(symbol->QualifiedTypename());
	entry->setValue(value.toInt());
	entry->setVisibility(Visibility::Public);

	// define enum entries in current scope
	symbol->define(name, entry);
}

Ancestors Analyser::collectInheritance(TokenIterator& token)
{'''),
     (C + 'Designtime/Analyser.h', '''	bool buildEnum(''', '''	void defineEnumEntry(BluePrintObject* symbol, const std::string& name, const Runtime::AtomicValue& value);
	bool buildEnum('''))
edit('ana-scope-predicate',
     (A, '''Ancestors Analyser::collectInheritance(TokenIterator& token)
{''', '''bool Analyser::canDefineTypes() const
{
	if ( !mScope ) {
		return true;
	}

	return dynamic_cast<Common::Namespace*>(mScope) || dynamic_cast<BluePrintObject*>(mScope);
}

Ancestors Analyser::collectInheritance(TokenIterator& token)
{'''),
     (A, '''bool Analyser::createBluePrint(TokenIterator& token)
{
	if ( mScope && (!dynamic_cast<Common::Namespace*>(mScope) && !dynamic_cast<BluePrintObject*>(mScope)) ) {''',
      '''bool Analyser::createBluePrint(TokenIterator& token)
{
	if ( !canDefineTypes() ) {'''),
     (A, '''bool Analyser::createEnum(TokenIterator& token)
{
	if ( mScope && (!dynamic_cast<Common::Namespace*>(mScope) && !dynamic_cast<BluePrintObject*>(mScope)) ) {''',
      '''bool Analyser::createEnum(TokenIterator& token)
{
	if ( !canDefineTypes() ) {'''),
     (A, '''bool Analyser::createInterface(TokenIterator& token)
{
	if ( mScope && (!dynamic_cast<Common::Namespace*>(mScope) && !dynamic_cast<BluePrintObject*>(mScope)) ) {''',
      '''bool Analyser::createInterface(TokenIterator& token)
{
	if ( !canDefineTypes() ) {'''),
     (C + 'Designtime/Analyser.h', '''	bool buildEnum(''', '''	bool canDefineTypes() const;
	bool buildEnum('''))
edit('ana-blueprint-implemented',
     (A, '''	TokenList tokens;

	bool isImplemented = true;
	if ( !inheritance.empty() ) {
		isImplemented = (inheritance.begin()->ancestorType() != Ancestor::Type::Replicates);
	}

	if ( isImplemented ) {
		isImplemented = (token->type() != Token::Type::SEMICOLON);
	}
	if ( isImplemented ) {	// only collect all tokens of this object if it is implemented
		tokens = Parser::collectScopeTokens(token);
	}

	auto* blueprint = new BluePrintObject(type.mName, mFilename);
	bool extends = false;

	// set up inheritance (if present)
	if ( !inheritance.empty() ) {
		for ( const auto& ancestor : inheritance ) {
			if ( ancestor.ancestorType() == Ancestor::Type::Extends ) {
				extends = true;
			}

			blueprint->addInheritance(ancestor);
		}
	}
''', '''	const bool isReplication = !inheritance.empty() && inheritance.begin()->ancestorType() == Ancestor::Type::Replicates;
	const bool isImplemented = !isReplication && token->type() != Token::Type::SEMICOLON;

	TokenList tokens;
	if ( isImplemented ) {	// only collect all tokens of this object if it is implemented
		tokens = Parser::collectScopeTokens(token);
	}

	auto* blueprint = new BluePrintObject(type.mName, mFilename);
	bool extends = false;

	// set up inheritance (if present)
	for ( const auto& ancestor : inheritance ) {
		extends = extends || ancestor.ancestorType() == Ancestor::Type::Extends;

		blueprint->addInheritance(ancestor);
	}
'''))
edit('ana-default-constructor-helper',
     (A, '''		ParameterList params;

		auto* defaultConstructor = new Common::Method(blueprint, RESERVED_WORD_CONSTRUCTOR, Common::TypeDeclaration(_void));
		defaultConstructor->setExceptions(CheckedExceptions::Nothrow);
		defaultConstructor->setLanguageFeatureState(LanguageFeatureState::Stable);
		defaultConstructor->setMemoryLayout(MemoryLayout::Virtual);
		defaultConstructor->setMethodType(MethodType::Constructor);
		defaultConstructor->setMutability(Mutability::Modify);
		defaultConstructor->setParent(blueprint);
		defaultConstructor->setSignature(params);
		defaultConstructor->setVisibility(Visibility::Public);

		blueprint->defineMethod(RESERVED_WORD_CONSTRUCTOR, defaultConstructor);
''', '''		blueprint->defineMethod(RESERVED_WORD_CONSTRUCTOR, createDefaultConstructor(blueprint));
'''),
     (A, '''bool Analyser::createBluePrint(TokenIterator& token)
{''', '''namespace {

Common::Method* createDefaultConstructor(BluePrintObject* blueprint)
{
	auto* method = new Common::Method(blueprint, RESERVED_WORD_CONSTRUCTOR, Common::TypeDeclaration(_void));
	method->setParent(blueprint);
	method->setVisibility(Visibility::Public);
	method->setMethodType(MethodType::Constructor);
	method->setExceptions(CheckedExceptions::Nothrow);
	method->setLanguageFeatureState(LanguageFeatureState::Stable);
	method->setMemoryLayout(MemoryLayout::Virtual);
	method->setMutability(Mutability::Modify);
	method->setSignature(ParameterList());

	return method;
}

}

bool Analyser::createBluePrint(TokenIterator& token)
{'''))
edit('ana-library-reference',
     (A, '''	bool extension = false;
	if ( token->content() == "extension" ) {
		++token;
		extension = true;
	}

	while ( token->type() == Token::Type::IDENTIFIER ) {
		reference += (*token++).content();

		if ( token->type() != Token::Type::OPERATOR_SCOPE ) {
			break;
		}

		reference += ".";
		++token;
	}

	expect(Token::Type::SEMICOLON, token);

	if ( extension ) {
		mExtensions.push_back(reference);
	}
	else {
		mLibraries.push_back(reference);
	}

	return true;
''', '''	const bool isExtension = token->content() == "extension";
	if ( isExtension ) {
		++token;
	}

	while ( token->type() == Token::Type::IDENTIFIER ) {
		reference += token->content();
		++token;

		if ( token->type() != Token::Type::OPERATOR_SCOPE ) {
			break;
		}

		++token;
		reference += ".";
	}

	expect(Token::Type::SEMICOLON, token);

	auto& references = isExtension ? mExtensions : mLibraries;
	references.push_back(reference);

	return true;
'''))
edit('ana-memory-layout-helper',
     (A, '''	MemoryLayout::E memoryLayout;
	if ( isInterface() ) {
		memoryLayout = MemoryLayout::Abstract;
	}
	else if ( isNamespace() ) {
		memoryLayout = MemoryLayout::Static;
	}
	else {
		memoryLayout = Parser::parseMemoryLayout(token, MemoryLayout::Virtual);
	}
''', '''	const MemoryLayout::E memoryLayout = isInterface() ? MemoryLayout::Abstract
										: isNamespace() ? MemoryLayout::Static
										: Parser::parseMemoryLayout(token, MemoryLayout::Virtual);
'''))
edit('ana-member-setter-order',
     (A, '''		member->setIsReference(access == AccessMode::ByReference);
		member->setLanguageFeatureState(languageFeature);
		member->setMember(true);
		member->setMemoryLayout(memoryLayout);
		member->setMutability(mutability);
		member->setParent(nullptr);
		member->setPrototypeConstraints(type.mConstraints);
		member->setQualifiedTypename(type.mName);
		member->setValue(value);
		member->setVisibility(visibility);
''', '''		member->setParent(nullptr);
		member->setQualifiedTypename(type.mName);
		member->setPrototypeConstraints(type.mConstraints);
		member->setMember(true);
		member->setIsReference(access == AccessMode::ByReference);
		member->setVisibility(visibility);
		member->setMutability(mutability);
		member->setMemoryLayout(memoryLayout);
		member->setLanguageFeatureState(languageFeature);
		member->setValue(value);
'''))
edit('ana-methodtype-nest',
     (A, '''	auto* blueprint = dynamic_cast<BluePrintObject*>(mScope);
	if ( blueprint && name == RESERVED_WORD_CONSTRUCTOR ) {
		// constructors can never ever be const
		methodType = MethodType::Constructor;
		mutability = Mutability::Modify;
	}
	else if ( blueprint && name == RESERVED_WORD_DESTRUCTOR ) {
		// destructors can never ever be const
		methodType = MethodType::Destructor;
		mutability = Mutability::Modify;
	}
''', '''	auto* blueprint = dynamic_cast<BluePrintObject*>(mScope);
	if ( blueprint ) {
		if ( name == RESERVED_WORD_CONSTRUCTOR ) {
			methodType = MethodType::Constructor;
		}
		else if ( name == RESERVED_WORD_DESTRUCTOR ) {
			methodType = MethodType::Destructor;
		}
	}

	// constructors and destructors can never ever be const
	if ( methodType != MethodType::Method ) {
		mutability = Mutability::Modify;
	}
'''),
     (A, '''	if ( methodType != MethodType::Constructor && methodType != MethodType::Destructor ) {
		auto* parent = dynamic_cast<BluePrintObject*>(mScope);
		if ( parent && parent->isConst() && mutability != Mutability::Const ) {
			throw Common::Exceptions::ConstCorrectnessViolated("cannot add modifiable method '" + name + "' to const object '" + parent->getFullScopeName() + "'", token->position());
		}
	}
''', '''	if ( methodType == MethodType::Method && mutability != Mutability::Const && blueprint && blueprint->isConst() ) {
		throw Common::Exceptions::ConstCorrectnessViolated("cannot add modifiable method '" + name + "' to const object '" + blueprint->getFullScopeName() + "'", token->position());
	}
'''))
edit('ana-generate-dispatch',
     (A, '''		else if ( createMemberOrMethod(token) ) {
			// nothing to do here
		}
		else {
			throw Exceptions::SyntaxError("invalid token '" + token->content() + "' found", token->position());
		}

		++token;
	}
''', '''		else if ( !createMemberOrMethod(token) ) {
			throw Exceptions::SyntaxError("invalid token '" + token->content() + "' found", token->position());
		}

		++token;
	}
'''),
     (A, '''	auto token = tokens.cbegin();
	auto localEnd = tokens.cend();

	while ( token != localEnd && token->type() != Token::Type::ENDOFFILE ) {
''', '''	auto token = tokens.cbegin();

	while ( token != tokens.cend() ) {
		if ( token->type() == Token::Type::ENDOFFILE ) {
			break;
		}

'''))
edit('ana-resolvetype-for',
     (A, '''	IScope* scope = mScope;

	while ( scope ) {
		Symbol* symbol = scope->resolve(type, false, Visibility::Private);
		if ( symbol ) {
			switch ( symbol->getSymbolType() ) {
				case Symbol::IType::BluePrintObjectSymbol: return dynamic_cast<BluePrintObject*>(symbol)->QualifiedTypename();
				case Symbol::IType::MethodSymbol:
				case Symbol::IType::NamespaceSymbol:
				case Symbol::IType::ObjectSymbol:
					throw Exceptions::SyntaxError("invalid symbol type detected", token->position());
			}
		}

		scope = scope->getEnclosingScope();
	}
''', '''	for ( IScope* scope = mScope; scope; scope = scope->getEnclosingScope() ) {
		auto* symbol = scope->resolve(type, false, Visibility::Private);
		if ( !symbol ) {
			continue;
		}

		if ( symbol->getSymbolType() != Symbol::IType::BluePrintObjectSymbol ) {
			throw Exceptions::SyntaxError("invalid symbol type detected", token->position());
		}

		return dynamic_cast<BluePrintObject*>(symbol)->QualifiedTypename();
	}
'''))
edit('ana-qualified-early',
     (A, '''	auto result = mScope->getFullScopeName();

	if ( !result.empty() && !type.empty() ) {
		result += RESERVED_WORD_SCOPE_OPERATOR;
	}
	result += type;

	return result;
''', '''	const auto scopeName = mScope->getFullScopeName();

	if ( scopeName.empty() ) {
		return type;
	}
	if ( type.empty() ) {
		return scopeName;
	}

	return scopeName + RESERVED_WORD_SCOPE_OPERATOR + type;
'''))
edit('ana-namespace-helper',
     (A, '''		Common::Namespace* space = nullptr;

		// check for an existing namespace with this name
		Symbol* symbol = mScope->resolve(name, true, Visibility::Designtime);
		if ( !symbol ) {
			space = new Common::Namespace(name, mScope);
			space->setLanguageFeatureState(languageFeatureState);
			space->setQualifiedTypename(getQualifiedTypename(name));
			space->setVisibility(visibility);
			space->setSealed(space->getVisibility() == Visibility::Private);		// seal has to be the last attribute to be set

			mScope->define(name, space);
		}
		else {
			switch ( symbol->getSymbolType() ) {
				case Symbol::IType::NamespaceSymbol:
					space = dynamic_cast<Common::Namespace*>(symbol);
					break;
				case Symbol::IType::BluePrintObjectSymbol:
				case Symbol::IType::MethodSymbol:
				case Symbol::IType::ObjectSymbol:
					throw Common::Exceptions::Exception("cannot extend non-namespace symbol '" + symbol->getName() + "'", token->position());
			}
		}

		mScope = space;
''', '''		// check for an existing namespace with this name
		Symbol* symbol = mScope->resolve(name, true, Visibility::Designtime);
		if ( symbol ) {
			if ( symbol->getSymbolType() != Symbol::IType::NamespaceSymbol ) {
				throw Common::Exceptions::Exception("cannot extend non-namespace symbol '" + symbol->getName() + "'", token->position());
			}

			mScope = dynamic_cast<Common::Namespace*>(symbol);
			continue;
		}

		auto* space = new Common::Namespace(name, mScope);
		space->setLanguageFeatureState(languageFeatureState);
		space->setQualifiedTypename(getQualifiedTypename(name));
		space->setVisibility(visibility);
		space->setSealed(space->getVisibility() == Visibility::Private);		// seal has to be the last attribute to be set

		mScope->define(name, space);
		mScope = space;
'''))

edit('proto-equal',
     (P, '''	if ( this->size() == other.size() ) {
		auto thisIt = this->begin();
		for ( auto otherIt = other.begin(); otherIt != other.end(); ++otherIt, ++thisIt ) {
			if ( !((*thisIt) == (*otherIt)) ) {
				return false;
			}
		}

		return true;
	}

	return false;
''', '''	if ( size() != other.size() ) {
		return false;
	}

	auto thisIt = begin();
	auto otherIt = other.begin();

	while ( otherIt != other.end() ) {
		if ( !(*thisIt == *otherIt) ) {
			return false;
		}

		++thisIt;
		++otherIt;
	}

	return true;
'''))
edit('proto-raw-else',
     (P, '''	for ( ; thisIt != this->end(); ++thisIt ) {
		if ( otherIt == other.end() ) {
			result.emplace_back(
				PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, _object, VALUE_NONE)
			);
			continue;
		}

		++otherIt;
	}
''', '''	while ( thisIt != this->end() ) {
		if ( otherIt != other.end() ) {
			++otherIt;
		}
		else {
			result.emplace_back(thisIt->mIndex, thisIt->mDesignType, _object, VALUE_NONE);
		}

		++thisIt;
	}
'''))
edit('proto-runtime-range',
     (P, '''	//PrototypeConstraints::const_iterator otherIt = other.begin();
	auto thisIt = this->begin();

	for ( ; thisIt != this->end(); ++thisIt ) {
		PrototypeConstraint constraint = other.lookupConstraint(thisIt->mDesignType);

		if ( constraint.hasRuntimeType() ) {
			result.emplace_back(constraint);
		}
		else {
			result.emplace_back(PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, _object, VALUE_NONE));
		}
	}
''', '''	for ( const auto& own : *this ) {
		auto constraint = other.lookupConstraint(own.mDesignType);

		if ( !constraint.hasRuntimeType() ) {
			constraint = PrototypeConstraint(own.mIndex, own.mDesignType, _object, VALUE_NONE);
		}

		result.push_back(constraint);
	}
'''))
edit('proto-all-of',
     (P, '''bool PrototypeConstraints::hasDesigntimeTypes() const
{
	for ( const auto& it : *this ) {
		if ( !it.hasDesigntimeType() ) {
			return false;
		}
	}

	return true;
}''', '''bool PrototypeConstraints::hasDesigntimeTypes() const
{
	return std::all_of(begin(), end(), [](const PrototypeConstraint& it) { return it.hasDesigntimeType(); });
}'''),
     (C + 'Common/PrototypeConstraint.h', '''#include <string>
''', '''#include <algorithm>
#include <string>
'''))
edit('proto-lookup-find-if',
     (P, '''PrototypeConstraint PrototypeConstraints::lookupConstraint(const std::string &type) const
{
	for ( const auto& it : *this ) {
		if ( it.mDesignType == type ) {
			return it;
		}
	}

	return PrototypeConstraint();
}''', '''PrototypeConstraint PrototypeConstraints::lookupConstraint(const std::string &type) const
{
	auto it = std::find_if(begin(), end(), [&type](const PrototypeConstraint& constraint) { return constraint.mDesignType == type; });

	return it == end() ? PrototypeConstraint() : *it;
}'''),
     (C + 'Common/PrototypeConstraint.h', '''#include <string>
''', '''#include <algorithm>
#include <string>
'''))
edit('proto-extract-separator',
     (P, '''	std::string result;

	for ( const auto& it : other ) {
		if ( !result.empty() ) {
			result += ",";
		}

		result += lookupType(it.mDesignType);
	}

	return "<" + result + ">";
''', '''	std::string types;

	for ( const auto& constraint : other ) {
		types += types.empty() ? "" : ",";
		types += lookupType(constraint.mDesignType);
	}

	return "<" + types + ">";
'''))

edit('sanity-helper',
     (K, '''bool SanityChecker::checkBalancedBrackets() const
{
	int openBrackets = 0;
	auto token = mTokens.begin();

	while ( token != mTokens.end() ) {
		if ( token->type() == Token::Type::BRACKET_OPEN ) {
			openBrackets++;
		}
		if ( token->type() == Token::Type::BRACKET_CLOSE ) {
			openBrackets--;
		}

		++token;
	}

	return (openBrackets == 0);
}
''', '''namespace {

bool isBalanced(const TokenList& tokens, Token::Type::E open, Token::Type::E close)
{
	int depth = 0;

	for ( const auto& token : tokens ) {
		if ( token.type() == open ) {
			++depth;
		}
		else if ( token.type() == close ) {
			--depth;
		}
	}

	return depth == 0;
}

}

bool SanityChecker::checkBalancedBrackets() const
{
	return isBalanced(mTokens, Token::Type::BRACKET_OPEN, Token::Type::BRACKET_CLOSE);
}
'''),
     (K, '''	int openParenthesis = 0;
	auto token = mTokens.begin();

	while ( token != mTokens.end() ) {
		if ( token->type() == Token::Type::PARENTHESIS_OPEN ) {
			openParenthesis++;
		}
		if ( token->type() == Token::Type::PARENTHESIS_CLOSE ) {
			openParenthesis--;
		}

		++token;
	}

	return (openParenthesis == 0);
''', '''	return isBalanced(mTokens, Token::Type::PARENTHESIS_OPEN, Token::Type::PARENTHESIS_CLOSE);
'''))
edit('sanity-count',
     (K, '''	bool openQuote = false;
	auto token = mTokens.begin();

	while ( token != mTokens.end() ) {
		if ( token->type() == Token::Type::QUOTATION_DOUBLE ) {
			openQuote = !openQuote;
		}

		++token;
	}

	return !openQuote;
''', '''	bool balanced = true;

	for ( const auto& token : mTokens ) {
		if ( token.type() == Token::Type::QUOTATION_DOUBLE ) {
			balanced = !balanced;
		}
	}

	return balanced;
'''))
edit('sanity-process-helper',
     (K, '''	if ( !checkBalancedBrackets() ) {
		throw Exceptions::SanityCheckError("unbalanced brackets detected", mTokens.begin()->position());
	}
	if ( !checkBalancedCurlyBrackets() ) {
		throw Exceptions::SanityCheckError("unbalanced curly brackets detected", mTokens.begin()->position());
	}
	if ( !checkBalancedParenthesis() ) {
		throw Exceptions::SanityCheckError("unbalanced parenthesis detected", mTokens.begin()->position());
	}
	if ( !checkBalancedQuotes() ) {
		throw Exceptions::SanityCheckError("unbalanced quotes detected", mTokens.begin()->position());
	}
''', '''	auto require = [this](bool balanced, const std::string& what) {
		if ( !balanced ) {
			throw Exceptions::SanityCheckError("unbalanced " + what + " detected", mTokens.begin()->position());
		}
	};

	require(checkBalancedBrackets(), "brackets");
	require(checkBalancedCurlyBrackets(), "curly brackets");
	require(checkBalancedParenthesis(), "parenthesis");
	require(checkBalancedQuotes(), "quotes");
'''))
edit('utils-findnext-for',
     (U, '''	auto tmp = start;

	while ( tmp->type() != type ) {
		if ( tmp->type() == terminator ) {
			// we did not find a result before the defined end-token appeared
			return start;
		}

		++tmp;
	}

	return tmp;
''', '''	for ( auto current = start; ; ++current ) {
		if ( current->type() == type ) {
			return current;
		}
		if ( current->type() == terminator ) {
			// we did not find a result before the defined end-token appeared
			return start;
		}
	}
'''))
edit('utils-balanced-shared',
     (U, '''TokenIterator findNextBalancedBracket(TokenIterator start, int generateErrorAfter, Token::Type::E terminator)
{
	int count = 0;
	auto tmp = start;
	int openBrackets = 0;

	while ( start->type() != Token::Type::BRACKET_CLOSE || openBrackets ) {
		if ( start->type() == Token::Type::BRACKET_OPEN ) {
			++openBrackets;
		}
		if ( start->type() == Token::Type::BRACKET_CLOSE ) {
			--openBrackets;
		}

		if ( start->type() == terminator ) {
			// we did not find a result before the defined end-token appeared
			return tmp;
		}
		if ( generateErrorAfter && count >= generateErrorAfter ) {
			throw Designtime::Exceptions::SyntaxError("Closed bracket expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
		}

		++count;
		++start;
	}

	return start;
}
''', '''namespace {

TokenIterator findBalanced(TokenIterator start, Token::Type::E open, Token::Type::E close, int generateErrorAfter, Token::Type::E terminator, const std::string& expected)
{
	const auto begin = start;
	int depth = 0;

	for ( int count = 0; start->type() != close || depth != 0; ++count, ++start ) {
		const auto type = start->type();

		if ( type == open ) {
			++depth;
		}
		if ( type == close ) {
			--depth;
		}

		if ( type == terminator ) {
			// we did not find a result before the defined end-token appeared
			return begin;
		}
		if ( generateErrorAfter && count >= generateErrorAfter ) {
			throw Designtime::Exceptions::SyntaxError(expected + " expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
		}
	}

	return start;
}

}

TokenIterator findNextBalancedBracket(TokenIterator start, int generateErrorAfter, Token::Type::E terminator)
{
	return findBalanced(start, Token::Type::BRACKET_OPEN, Token::Type::BRACKET_CLOSE, generateErrorAfter, terminator, "Closed bracket");
}
'''))
edit('param-create-single',
     (R + 'Parameter.cpp', '''	if ( reference.isValid() ) {
		return Parameter(
				ANONYMOUS_OBJECT,
				Common::TypeDeclaration(type),
				value,
				false,
				Mutability::Modify,
				AccessMode::ByReference,
				reference
		);
	}

	return Parameter(
		ANONYMOUS_OBJECT,
		Common::TypeDeclaration(type),
		value,
		false,
		Mutability::Modify,
		AccessMode::ByValue,
		Runtime::Reference()
	);
''', '''	const bool byReference = reference.isValid();

	return Parameter(
		ANONYMOUS_OBJECT,
		Common::TypeDeclaration(type),
		value,
		false,
		Mutability::Modify,
		byReference ? AccessMode::ByReference : AccessMode::ByValue,
		byReference ? reference : Runtime::Reference()
	);
'''))

"""The properties: what they say, where they are anchored, and which functions carry them.

`fns` lists selectors of the functions whose outcomes decide the property: a selector with a '/' or a
file ending selects all functions of matching files, any other is matched against the qualified name
without the project's namespaces. A leading '-' removes.
`rules` names the property specific rules of sa/rules.py."""

TI = 'TreeInterpreter::'
TG = 'TreeGenerator::'

P = []


def prop(id, title, statement, over, qtext, why, fns, files, mech, rules=(), state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, fns=list(fns),
                  files=list(files), mech=list(mech), rules=list(rules), state=state, observe=observe))


SYNTH = ('~', )

# ------------------------------------------------------------------------------------------ execution of programs
prop('C01', 'Every scope and call frame is left on every way out of it',
     'Whatever way a block, loop, catch handler, member access or method call is left (normally, by break, continue, '
     'return, exit or an exception), exactly the scopes and call frames that it entered are removed. Variables of the '
     'left block are gone and can be declared again, variables of the surrounding block are accessible again.',
     ['programs', 'histories'], 'all scripts and all ways control can leave a construct while it runs',
     'Tests leave a handful of constructs in one or two ways; the balance has to hold for every nesting of constructs and every exit.',
     [TI + 'visit*', TI + 'evaluateScopeExpression', TI + 'evaluateMethodExpression', TI + 'evaluateNewExpression', TI + 'execute', TI + 'initialize', TI + 'finalize',
      TI + 'pushScope', TI + 'popScope', TI + 'getScope', TI + 'process', TI + 'getEnclosing*',
      'StackFrame::*', 'Thread::*', 'Threads::*', 'SymbolScope::*', 'MethodScope::*', 'NamedScope::*',
      TG + 'pushScope', TG + 'popScope', TG + 'process_scope', TG + 'process_for', TG + 'process_foreach', TG + 'process_try', TG + 'process_switch', 'Object::Constructor', 'Object::Destructor'],
     ['Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Core/Core/VirtualMachine/StackFrame.cpp', 'Projects/Core/Core/VirtualMachine/Threads.cpp', 'Projects/Core/Core/Scope.cpp'],
     [('scope stack of a frame', 'StackFrame::pushScope / popScope'), ('frame stack of a thread', 'Thread::pushFrame / popFrame'), ('block, loop, catch and member access scopes', 'TreeInterpreter::visit*, evaluateScopeExpression')],
     rules=[])

prop('C02', 'Control flow statements affect exactly the construct they belong to',
     'break and continue end or repeat the innermost enclosing loop or switch only, return ends the current method only and exit ends the whole program. '
     'No statement after them is executed in the constructs they leave, and a loop, branch or switch executes its body exactly when its condition or case value says so.',
     ['programs'], 'all nestings of loops, branches, switches, blocks and calls',
     'The combinations of nested constructs and jumps are unbounded; the tests contain a few of them.',
     [TI + 'visit*', TI + 'process', TI + 'execute', TI + 'evaluateMethodExpression', TI + 'evaluateNewExpression', TI + 'evaluateAssignmentExpression', 'isTrue',
      'Thread::execute', 'Object::Constructor', 'Object::Destructor', 'Object::execute', 'Script::execute', 'VirtualMachine::run', 'ControlFlow::toString',
      TG + 'process_for', TG + 'process_while', TG + 'process_if', TG + 'process_switch', TG + 'process_break', TG + 'process_continue', TG + 'process_return', TG + 'process_exit', TG + 'process_statement', TG + 'process_scope', TG + 'process',
      TI + 'evaluate*', TG + 'process_foreach', TG + 'process_keyword', 'AST/Statement.h', 'StackFrame::*', 'Thread::*'],
     ['Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/Object.cpp'],
     [('control flow state of the interpreter', 'TreeInterpreter::mControlFlow'), ('loops and switch', 'TreeInterpreter::visitFor/visitForeach/visitWhile/visitSwitch'), ('calls', 'TreeInterpreter::evaluateMethodExpression, evaluateNewExpression')],
     rules=[])

prop('C03', 'Exceptions reach the innermost matching handler and finally always runs',
     'A thrown exception is handled by the first matching catch clause of the innermost enclosing try statement of the running methods, with the thrown value bound to its variable; without one it ends the program. '
     'The finally block runs exactly once whichever way the try statement is left, and an exception is never lost or delivered twice.',
     ['programs', 'histories'], 'all scripts and all points at which an exception can be thrown',
     'An exception can arise at every call and in every kind of expression; tests throw from a few statements.',
     [TI + 'visit*', TI + 'evaluate*', TI + 'execute', TI + 'process', 'Thread::exception', 'Thread::execute', 'Thread::stackTrace', 'ExceptionData::*', 'Object::isInstanceOf', 'Object::Constructor', 'Object::Destructor', 'VirtualMachine::run',
      TG + 'process_try', TG + 'process_throw', 'main@slang/main.cpp', 'BluePrintObject::isOfType', 'BluePrintObject::inheritsFrom',
      'AST/Statement.h', 'StackFrame::*', 'Thread::*', TI + 'initialize', TI + 'finalize', TI + 'pushScope', TI + 'popScope'],
     ['Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Core/Core/VirtualMachine/Threads.cpp', 'Projects/Core/Core/Runtime/ExceptionData.cpp'],
     [('try statement', 'TreeInterpreter::visitTry'), ('raising', 'TreeInterpreter::visitThrow, evaluateMethodExpression'), ('exception data', 'Thread::exception')],
     rules=[])

prop('C04', 'Boolean operators, conditions and the ternary operator follow their truth tables',
     'and, or, nand and nor yield the value of their truth table, a comparison yields the relation it names, and not negates. '
     'The right operand of a boolean operator and the branches of the ternary operator are evaluated only when their value is needed, and a condition holds exactly when its value is true, non-zero, non-empty or a valid object.',
     ['programs', 'inputs'], 'all operand values and expressions',
     'The tests check some rows of the tables for some types.',
     [TI + 'evaluateBinaryExpression', TI + 'evaluateBooleanBinaryExpression', TI + 'evaluateTernaryExpression', TI + 'evaluateUnaryExpression', TI + 'visitIf', TI + 'visitWhile', TI + 'visitFor', TI + 'visitAssert', 'isTrue',
      'Object::isValid', 'Object::operator_bool', '*Type::operator_bool', 'operator_unary_not', 'operator_unary_validate', '*Type::operator_unary_not', 'Object::operator_unary_not', 'AtomicValue::toBool',
      'operator_binary_equal', 'operator_binary_less*', 'operator_binary_greater*', '*Type::operator_equal', '*Type::operator_less*', '*Type::operator_greater*', 'Object::operator_equal', 'Object::operator_less*', 'Object::operator_greater*',
      TG + 'processTernaryOperator', TG + 'parseCondition', TG + 'expression', 'BooleanBinaryExpression::*', 'TernaryExpression::*',
      'Tokenizer::merge*', TG + 'parse*', 'Object::operator_*', 'Runtime/Utils.cpp', 'AtomicValue::*'],
     ['Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Core/Core/Runtime/Utils.cpp', 'Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp'],
     [('boolean and comparison operators', 'TreeInterpreter::evaluateBooleanBinaryExpression'), ('ternary operator', 'TreeInterpreter::evaluateTernaryExpression'), ('truth of values', 'isTrue, Object::isValid')],
     rules=['truth_table'])

prop('C05', 'Each operator applies its own operation to the type of its left operand',
     'The runtime executes for an operator token exactly the operation of that operator, implemented by the built-in type of the left operand, and stores the result only in the operand that the operator changes. '
     'An operator that a type does not support is reported as an error and is never silently replaced by another operation.',
     ['programs', 'inputs'], 'all operators and all operand types',
     'The table of operators times types has several hundred entries; the tests touch the usual ones.',
     [TI + 'evaluateBinaryExpression', TI + 'evaluateBooleanBinaryExpression', TI + 'evaluateUnaryExpression', TI + 'evaluateAssignmentExpression', TI + 'visitAssignment', 'operator_binary_*', 'operator_unary_*', 'Object::operator_*', 'Object::assign', 'Object::operator=', '*Type::operator_*',
      TG + 'process_assignment', TG + 'process_assignment_expression', TG + 'process_incdecrement', TG + 'processPostfixIncDecOperator', TG + 'processPostfixNotOperator', 'Runtime/OperatorOverloading.cpp',
      TI + 'evaluate*', 'Tokenizer::merge*', TG + 'parse*', 'AST/Expression.h', 'AST/Operator.h', 'VirtualMachine/TypeSystem.*', 'Runtime/AtomicValue.*'],
     ['Projects/Core/Core/Runtime/OperatorOverloading.cpp', 'Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Core/Core/Object.cpp'],
     [('token to operator', 'TreeInterpreter::evaluateBinaryExpression, evaluateUnaryExpression'), ('operator to type', 'operator_binary_*, operator_unary_*')],
     rules=[])

prop('C06', 'Built-in types compute and compare with the value of their own type',
     'Arithmetic, bit, shift, increment and comparison operators of the built-in types convert the other operand to the type of the left operand, apply the operator they are named after and keep the type of the left operand. '
     'They accept exactly the documented operand types, reject all others with an error, and an integer division by zero is reported as an error.',
     ['inputs', 'programs'], 'all values of all pairs of built-in types',
     'Ten types, some twenty operators and all operand types: the tests exercise a fraction with a few values.',
     ['Runtime/BuildInTypes/*.cpp', 'Runtime/BuildInTypes/*.h', 'Runtime/AtomicValue.cpp', 'Runtime/AtomicValue.h', 'Object::operator_*', 'Object::setValue', 'Object::getValue',
      'Runtime/OperatorOverloading.cpp', 'VirtualMachine/TypeSystem.*', TI + 'evaluate*Expression', 'typecast'],
     ['Projects/Core/Core/Runtime/BuildInTypes'],
     [('operators per type', 'Runtime::*Type::operator_*'), ('conversions', 'AtomicValue::to*')],
     rules=[])

prop('C07', 'The static type of an expression is the one its evaluation yields',
     'For every operator and pair of operand types the compiler either rejects the expression or assigns the result type that the evaluation produces. '
     'Combinations not known to the type system are always rejected before the program runs.',
     ['programs'], 'all expressions over all types',
     'The type table has several hundred entries of which the tests use a small part.',
     ['VirtualMachine/TypeSystem.cpp', 'VirtualMachine/TypeSystem.h', 'Repository::initTypeSystem', 'Repository::createUserType', 'Repository::initBluePrintObject', 'Repository::init', TG + 'parse*', TG + 'expression', TG + 'process*Operator', TG + 'process_assignment*', TG + 'process_incdecrement', TG + 'process_return', TG + 'process_var', TG + 'process_type', TG + 'process_cast', TG + 'process_switch', TG + 'resolveType',
      'AST/Expression.h', 'Object::isAtomicType', 'Designtime/BuildInTypes/*', TG + 'process_method', TG + 'process_new', TG + 'process_copy', TG + 'process_typeid', TG + 'process_streval', TG + 'process_subscript', TG + 'process_identifier',
      TG + 'process*', TG + 'resolve*', 'typecast', 'isAtomicType', TI + 'evaluate*'],
     ['Projects/Core/Core/VirtualMachine/TypeSystem.cpp', 'Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/AST/Expression.h'],
     [('type table', 'TypeSystem::define / getType'), ('expression types', 'TreeGenerator::parse*, TypedExpression')],
     rules=[])

prop('C08', 'Conversions between values keep the value or report an error',
     'A type cast, an assignment or a promotion converts a value to the target type as the target type defines, keeps the declared type of the variable assigned to, and never yields a value of a different type. '
     'A conversion between incompatible types is reported as an error.',
     ['inputs', 'programs'], 'all values and all pairs of source and target type',
     'Tests convert few sample values between few types.',
     ['typecast', 'operator_binary_assign', 'AtomicValue::*', '*Type::operator_assign', 'Runtime/BuildInTypes/*.cpp', 'Object::operator_assign', 'Object::setValue', 'Object::getValue', 'Object::assign', TI + 'evaluateTypeCastExpression', TI + 'evaluateLiteral', TI + 'evaluateTypeidExpression', TI + 'evaluateIsExpression', TI + 'visitTypeDeclaration', TI + 'visitReturn', TI + 'visitAssignment', TG + 'process_cast', TG + 'processIsOperator',
      'stringTo*', 'toString', 'Object::isInstanceOf', 'Parser::parseValueInitialization', 'Repository::createInstance', 'Repository::createObject', 'Repository::createUserType', 'Repository::createReference',
      'Runtime/OperatorOverloading.cpp', 'Parameter::*', TI + 'initialize', TG + 'process_var', TG + 'process_type', TG + 'process_return', TG + 'process_assignment*', 'Object::operator=', TI + 'evaluate*', 'VirtualMachine/TypeSystem.*', TG + 'resolveType', 'isAtomicType'],
     ['Projects/Core/Core/Runtime/TypeCast.cpp', 'Projects/Core/Core/Runtime/AtomicValue.cpp', 'Projects/Core/Core/Runtime/BuildInTypes', 'Projects/Utils/Tools/Strings.cpp'],
     [('casts', 'typecast'), ('value holder', 'AtomicValue'), ('string conversions', 'Tools::stringTo*, toString')],
     rules=[])

prop('C09', 'Expressions are parsed with the documented precedence and grouping',
     'The tree built for an expression applies postfix operators before multiplication and division, these before addition and subtraction, these before comparisons, and boolean operators last; operators of the same level group from the left and parentheses override. '
     'Every operator token produces the node of that operator with its operands in source order, and nothing of the input is skipped.',
     ['programs'], 'all token sequences that form an expression',
     'The number of expressions is unbounded; tests contain short ones.',
     [TG + 'expression', TG + 'parse*', TG + 'process*Operator', TG + 'process_expression_keyword', TG + 'process_method', TG + 'process_identifier', TG + 'process_cast', TG + 'process_copy', TG + 'process_new', TG + 'process_typeid', TG + 'process_streval', TG + 'process_subscript', TG + 'process_incdecrement', TG + 'process_assignment*', TG + 'collectScopeTokens', TG + 'getTokens', TG + 'pushTokens', TG + 'popTokens', TG + 'TreeGenerator',
      'AST/Expression.h', 'Common/Utils.cpp', 'Common/Utils.h', TI + 'evaluate*',
      'Tokenizer::merge*', 'AST/Operator.h', 'Common/Token.*'],
     ['Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/AST/Expression.h'],
     [('recursive descent', 'TreeGenerator::expression / parseCondition / parseExpression / parseTerm / parseFactor / parseInfix / parsePostfix')],
     rules=[])

# ------------------------------------------------------------------------------------------ compile time guarantees
prop('C10', 'Const data cannot be changed and const methods do not change their object',
     'A program that assigns to, increments, decrements or passes for modification a constant, a constant parameter or a member inside a const method is rejected before it runs. '
     'A const object only accepts calls of const methods, and a const method can only call const methods of its own object.',
     ['programs'], 'all programs and all ways to modify data',
     'Each kind of modification and each kind of constant data combine freely; tests cover single combinations.',
     [TG + 'process_assignment', TG + 'process_assignment_expression', TG + 'process_incdecrement', TG + 'processPostfixIncDecOperator', TG + 'process_method', TG + 'process_var', TG + 'process_type', TG + 'process_identifier', TG + 'process_foreach', TG + 'process_return', TG + 'process_subscript', TG + 'process_copy', TG + 'process_delete', TG + 'processPostfix*', TG + 'resolve*', TG + 'initialize', TG + 'generate', TG + 'parse*', TG + 'process_expression_keyword', TG + 'process_try', TG + 'process_new',
      'GenericAttributes::*', 'MethodAttributes::*', 'Parameter::*', 'Mutability::*', 'Parser::parseMutability', 'Parser::parseParameters', 'Analyser::parseParameters', 'Analyser::createM*', 'Analyser::parseTypeDeclaration', 'Parser::parseTypeDeclaration', 'Common/TypeDeclaration.h', 'Method::*', 'Common/Attributes/Types.cpp', 'Common/Attributes/Attributes.*', TI + 'visitTypeDeclaration', TI + 'visitForeach', TI + 'initialize',
      'SymbolExpression::*', 'DesigntimeSymbolExpression::*', 'MethodExpression::*', 'AST/Expression.h',
      TG + 'process*', 'Object::*Const*', 'Symbol::*', 'Core/Symbol.*', 'Repository::createUserType', 'BluePrintObject::replicate', TI + 'evaluate*', 'isAtomicType', 'Common/Types.cpp'],
     ['Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/Common/Attributes/Attributes.cpp', 'Projects/Core/Core/Common/Method.cpp'],
     [('modification checks', 'TreeGenerator::process_assignment_expression, process_incdecrement, process_method, process_var'), ('const attributes', 'MethodAttributes::isConstMethod, GenericAttributes::isConst')],
     rules=[])

prop('C11', 'Private and protected members are only accessible where allowed',
     'A private member or method can be named only inside its own type, a protected one only inside its own type and types derived from it, a public one everywhere. '
     'Every other access is rejected before the program runs, and inherited members keep the access they were declared with.',
     ['programs'], 'all accesses from all places of a program',
     'Tests contain single accesses; the rule has to hold for each path by which a name is resolved.',
     [TG + 'resolve*', TG + 'process_method', TG + 'process_identifier', TG + 'process_new', TG + 'processPostfix*', TG + 'process_assignment*', TG + 'process_foreach', 'SymbolScope::*', 'MethodScope::*', 'Object::resolve*', 'Visibility::*', 'Symbol::*', 'Parser::parseVisibility', 'BluePrintObject::prepareParents', 'BluePrintObject::hasConstructor', 'BluePrintObject::hasDefaultConstructor', 'BluePrintObject::getInheritance', 'BluePrintObject::replicate', 'Ancestor::*', 'Analyser::createM*', 'Analyser::createBluePrint', 'Analyser::createInterface', 'Analyser::createEnum', 'Analyser::createNamespace', 'Analyser::collectInheritance', 'Parser::collectInheritance', TI + 'resolve*', TI + 'evaluateMethodExpression', TI + 'evaluateSymbolExpression', 'Object::CanExecuteDefaultConstructor', 'Object::Constructor',
      'Repository::createObject', 'Repository::createUserType', 'Repository::initBluePrintObject', 'Script::resolve*', 'Common/Visibility.cpp', 'Common/Attributes/Types.cpp', 'Core/Symbol.*', 'Core/Scope.*',
      'BluePrintObject::*', 'Method::*', 'GenericAttributes::*', TG + 'parse*', 'Parser::isM*', TI + 'evaluateScopeExpression'],
     ['Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/Scope.cpp', 'Projects/Core/Core/Symbol.h', 'Projects/Core/Core/Designtime/BluePrintObject.cpp'],
     [('resolution with visibility', 'SymbolScope::resolve, MethodScope::resolve / resolveMethod'), ('inheritance', 'BluePrintObject::prepareParents')],
     rules=[])

prop('C12', 'A call runs the method whose signature fits and passes the arguments given',
     'A call resolves to the method whose name and parameter types match the arguments, or is rejected; among candidates an own method is preferred over inherited and enclosing ones. '
     'Each parameter receives the argument of its position, atomic values by value and objects by reference unless declared otherwise, and parameters without an argument receive their default value.',
     ['programs', 'inputs'], 'all calls, signatures and argument lists',
     'Overloading, defaults and references combine freely; tests contain single combinations.',
     ['Method::*', 'MethodScope::*', 'Object::resolveMethod', 'Object::defineMethod', 'Object::execute', 'Object::Constructor', 'Parameter::*', 'Common/Method.*', 'Runtime/Parameter.*', TI + 'initialize', TI + 'execute', TI + 'evaluateMethodExpression', TI + 'evaluateNewExpression', TI + 'resolveMethod', TI + 'getEnclosing*', TG + 'process_method', TG + 'process_new', TG + 'resolveMethod', TG + 'provideSimilarMethods', TG + 'initialize', 'Parser::parseParameters', 'Analyser::parseParameters', 'Analyser::createMethodStub', 'Parser::parseAccessMode', 'Common/TypeDeclaration.h', 'Namespace::defineMethod', 'BluePrintObject::defineMethod', 'Script::*', 'VirtualMachine::run', 'Common/Attributes/Types.cpp',
      TI + 'resolve*', TI + 'evaluate*', 'StackFrame::*', 'BluePrintObject::*', 'Repository::create*', 'Object::resolve*', 'Object::set*', TG + 'resolve*', 'Common/PrototypeConstraint.*'],
     ['Projects/Core/Core/Common/Method.cpp', 'Projects/Core/Core/Runtime/Parameter.cpp', 'Projects/Core/Core/Scope.cpp', 'Projects/Core/Core/AST/TreeInterpreter.cpp'],
     [('signature match', 'Method::isSignatureValid, MethodScope::resolveMethod'), ('argument binding', 'Method::mergeParameters, TreeInterpreter::initialize')],
     rules=[])

prop('C13', 'Methods return values of their declared type',
     'A method with a return type is rejected if no return or throw statement is found in its outermost or last nested block, and a value returned anywhere in it has to be of the declared type; a void method returns no value. '
     'The value of a call is the value of the return statement that was executed, or the default value of the declared type if the end of the method is reached without one.',
     ['programs'], 'all method bodies and all paths through them',
     'The paths through a method are unbounded in number; tests contain simple bodies.',
     [TG + 'finalize', TG + 'generate', TG + 'initialize', TG + 'process_return', TG + 'process_throw', TG + 'process_exit', TG + 'process_if', TG + 'process_switch', TG + 'process_try', TG + 'process_while', TG + 'process_for', TG + 'process_foreach', TG + 'process_keyword', TG + 'process_statement', TG + 'process_scope', TG + 'process', TG + 'processMethod', TG + 'process_break', TG + 'process_continue', TI + 'visitReturn', TI + 'execute', 'StackFrame::returnValue', 'Method::QualifiedTypename', 'Method::ReturnType', 'Method::setQualifiedTypename', 'ReturnStatement::*', 'Method::Method', 'Method::operator=',
      TG + 'resolve*', 'Method::*', 'StackFrame::*', TI + 'evaluateMethodExpression', 'Thread::execute', 'Analyser::createMethodStub', 'Parser::parseTypeDeclaration', 'Analyser::parseTypeDeclaration', 'Object::assign', 'Object::operator=', TI + 'visit*', TI + 'process'],
     ['Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/AST/TreeInterpreter.cpp'],
     [('return checks', 'TreeGenerator::process_return, finalize'), ('return value', 'TreeInterpreter::visitReturn, StackFrame::returnValue')],
     rules=[])

prop('C14', 'Exceptions that can leave a method are declared',
     'A method from which an exception can escape, thrown directly or by a method it calls, is rejected unless it declares that it throws; exceptions handled inside need no declaration. '
     'Main is the only place an exception may leave undeclared callers of.',
     ['programs'], 'all call chains and nestings of try statements',
     'Tests contain single chains; nested try statements and rethrows multiply the cases.',
     [TG + 'process_throw', TG + 'process_try', TG + 'process_method', TG + 'process_new', TG + 'finalize', TG + 'initialize', TG + 'generate', TG + 'processMethod', 'MethodAttributes::*', 'Parser::parseExceptions', 'Analyser::createMethodStub', TG + 'process_foreach', 'Common/Attributes/Types.cpp', 'Method::operator=', 'Method::Method', TG + 'process_return',
      TG + 'process*', 'Method::*', 'Tokenizer::is*'],
     ['Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/Designtime/Parser/Parser.cpp'],
     [('escaping exceptions', 'TreeGenerator::process_throw, process_try, process_method, finalize'), ('declaration', 'Parser::parseExceptions')],
     rules=[])

prop('C15', 'Only complete, accessible types can be instantiated',
     'Creating an object of an abstract type, an interface, a type with unimplemented methods or without an accessible matching constructor is rejected. '
     'A new object has all its own and inherited members with their declared type, initial value and constness, and its constructor has run exactly once with the given arguments.',
     ['programs'], 'all types and instantiations',
     'Inheritance and initialisers combine freely; tests instantiate simple types.',
     [TG + 'process_new', TG + 'process_type', TG + 'process_var', 'Repository::*', 'BluePrintObject::*', TI + 'evaluateNewExpression', TI + 'visitTypeDeclaration', 'Object::Object', 'Object::operator=', 'Object::Constructor', 'Object::CanExecuteDefaultConstructor', 'Object::defineM*', 'Object::isAbstract', 'Object::addInheritance', 'Object::resolve*', 'Object::setBluePrint', 'Object::getBluePrint', 'Object::setParent', 'UserType::*', 'VirtualMachine/Repository.*', 'Analyser::createM*',
      'Analyser::create*', 'MethodScope::*', TG + 'resolve*', 'Ancestor::*', 'ObjectAttributes::*', 'Object::set*', 'Common/PrototypeConstraint.*'],
     ['Projects/Core/Core/VirtualMachine/Repository.cpp', 'Projects/Core/Core/Designtime/BluePrintObject.cpp', 'Projects/Core/Core/Object.cpp'],
     [('instantiation', 'Repository::createInstance / createUserType / createReference'), ('checks', 'TreeGenerator::process_new')],
     rules=[])

prop('C16', 'Inheritance and implementation rules hold for every type',
     'A type is rejected when it extends an unknown or sealed type, inherits from itself over any number of steps, implements what it should extend or extends what it should implement, or does not implement an inherited abstract method without being abstract itself. '
     'A type has the public and protected members of all its ancestors, and overriding methods replace inherited ones.',
     ['programs'], 'all inheritance graphs',
     'Tests contain chains of two or three types.',
     ['BluePrintObject::*', 'Designtime/BluePrintObject.*', 'Designtime/Ancestor.*', 'Ancestor::*', 'Analyser::collectInheritance', 'Analyser::create*', 'Analyser::getQualifiedTypename', 'Analyser::is*', 'Parser::collectInheritance', 'Parser::parseBluePrintType', 'Parser::is*', 'Repository::init*', 'Repository::addBluePrint', 'Repository::findBluePrintObject', 'Repository::createUserType', 'Object::isInstanceOf', 'Object::addInheritance', 'Object::defineMethod', 'Object::resolve*', 'ObjectAttributes::*', 'MethodScope::*', 'Common/Attributes/Types.cpp', 'MethodAttributes::*',
      'Analyser::*', TG + 'process_new', 'Method::*', 'Object::*'],
     ['Projects/Core/Core/Designtime/BluePrintObject.cpp', 'Projects/Core/Core/Designtime/Analyser.cpp', 'Projects/Core/Core/Designtime/Ancestor.cpp'],
     [('parents', 'BluePrintObject::prepareParents'), ('declarations', 'Analyser::createBluePrint, collectInheritance')],
     rules=[])

prop('C17', 'Names are unique in their scope and resolve to the innermost declaration',
     'Declaring a name twice in one scope is rejected, an undeclared name is rejected, and a name resolves to the declaration in the nearest enclosing scope. '
     'A declaration becomes invisible when its scope ends, and no other declaration is affected by that.',
     ['programs'], 'all nestings of scopes and declarations',
     'The number of nestings is unbounded; tests contain shallow ones.',
     ['Core/Scope.*', 'IScope::*', 'SymbolScope::*', 'MethodScope::*', 'NamedScope::*', 'Core/Symbol.*', 'Common/Namespace.*', 'Namespace::*', TG + 'resolve*', TG + 'process_var', TG + 'process_type', TG + 'process_identifier', TG + 'process_scope', TG + 'pushScope', TG + 'popScope', TG + 'getScope', TG + 'getMethodScope', TG + 'getEnclosingMethodScope', TG + 'process_for', TG + 'process_foreach', TG + 'process_try', TG + 'initialize', TG + 'finalize', TI + 'resolve*', TI + 'getEnclosing*', TI + 'getScope', TI + 'visitTypeDeclaration', TI + 'evaluateSymbolExpression', 'StackFrame::*', 'Repository::addBluePrint', 'Repository::findBluePrintObject', 'Analyser::create*', 'Object::resolve*', 'Script::resolve*',
      TG + 'process*', TI + 'pushScope', TI + 'popScope', 'Analyser::*', 'BluePrintObject::*', 'Parameter::*', TG + 'parse*', TG + 'expression', TG + 'generate'],
     ['Projects/Core/Core/Scope.cpp', 'Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/Designtime/Analyser.cpp'],
     [('scopes', 'SymbolScope::define / resolve / undefine'), ('compile time lookup', 'TreeGenerator::resolve*')],
     rules=[])

# ------------------------------------------------------------------------------------------ memory
prop('C18', 'Objects live exactly as long as they are referenced',
     'An object stays valid while at least one variable, member, parameter or temporary refers to it. '
     'When the last reference disappears it is destroyed once: its destructor runs and its memory slot is released, and no other object is affected.',
     ['histories', 'programs'], 'all sequences of creating, assigning, copying and dropping references',
     'Reference histories are unbounded; leaks and early frees only show in long ones.',
     ['VirtualMachine/Memory.*', 'Memory::*', 'Runtime/Reference.*', 'Reference::*', 'Object::Object', 'Object::~Object', 'Object::operator=', 'Object::assign*', 'Object::setReference', 'Object::getReference', 'Object::Destructor', 'Object::free', 'Object::garbageCollector', 'Object::setValue', 'Object::setIsReference', 'Object::isValid', 'Object::getValue', 'Repository::createInstance', 'Repository::createReference', 'Repository::createUserType', 'Repository::createObject', TI + 'visitDelete', TI + 'initialize', TI + 'evaluateMethodExpression', TI + 'evaluateNewExpression', TI + 'evaluateLiteral', TI + 'visitTypeDeclaration', 'operator_binary_assign', 'SymbolScope::*', 'MethodScope::deinit', 'MethodScope::undefine*', 'MethodScope::~MethodScope', 'Controller::*', 'StackFrame::*', 'AtomicValue::*', 'UserType::*', 'VoidType::*', 'Core/Object.h',
      'Object::*', 'Repository::*', 'Thread::*', TI + '*', 'Parameter::*', 'MethodScope::*', 'VirtualMachine::*'],
     ['Projects/Core/Core/VirtualMachine/Memory.cpp', 'Projects/Core/Core/Object.cpp', 'Projects/Core/Core/Runtime/Reference.cpp'],
     [('reference counts', 'Memory::add / remove / newObject'), ('holders of references', 'Object constructors, assignment and destructor')],
     rules=[])

prop('C19', 'Assignment shares objects, copies values, and leaves the source alone',
     'Assigning an object makes both variables refer to the same object, assigning an atomic value copies it, and a reference variable writes through to the value it refers to. '
     'Assignment keeps name, declared type and constness of the target, changes nothing else and never changes the source; comparing objects follows the same identity.',
     ['programs', 'histories'], 'all assignments between variables, members, parameters and results',
     'Aliasing effects depend on the history of assignments; tests use short ones.',
     ['Object::Object', 'Object::operator=', 'Object::assign*', 'Object::setReference', 'Object::setValue', 'Object::getValue', 'Object::getReference', 'Object::setIsReference', 'Object::operator_assign', 'Object::operator_equal', 'operator_binary_assign', 'operator_binary_equal', '*Type::operator_assign', '*Type::operator_equal', 'UserType::*', 'EnumerationType::*', 'StringType::StringType', 'AtomicValue::*', 'Reference::*', TI + 'visitAssignment', TI + 'evaluateAssignmentExpression', TI + 'evaluateCopyExpression', TI + 'visitTypeDeclaration', TI + 'visitReturn', TI + 'initialize', TI + 'resolve*', TI + 'evaluateSymbolExpression', TI + 'evaluateScopeExpression', TI + 'visitForeach', 'Parameter::*', TG + 'process_copy', TG + 'process_assignment*', TG + 'process_var', 'Memory::get', 'Core/Object.h',
      'Object::*', 'Repository::create*', 'Runtime/OperatorOverloading.cpp', TI + '*', 'Memory::*', 'isAtomicType'],
     ['Projects/Core/Core/Object.cpp', 'Projects/Core/Core/Runtime/OperatorOverloading.cpp'],
     [('assignment', 'Object::assign, operator_binary_assign'), ('identity', 'UserType::operator_equal')],
     rules=[])

prop('C20', 'Compiled programs are released completely and exactly once',
     'Each part of a compiled program (expressions, statements, scopes, methods, types, symbols) is owned by exactly one other part and is released together with it. '
     'Nothing is released twice, used after its release, or never released.',
     ['programs', 'histories'], 'all programs and all orders of tearing them down',
     'Ownership errors show only under leak or memory checkers and only for the node kinds a test happens to contain.',
     ['AST/Expression.h', 'AST/Statement.h', 'AST/Node.h', 'AST/Operator.h', '*::~*', 'Method::*', 'SymbolScope::*', 'MethodScope::*', 'Namespace::~Namespace', 'BluePrintObject::~BluePrintObject', 'VirtualMachine::~VirtualMachine', 'Repository::deinit', 'Repository::~Repository', 'Controller::deinit', 'Threads::deinit', 'Thread::~Thread', 'StackFrame::popScope', 'Memory::deinit', 'TypeSystem::deinit', 'ExtensionManager::*', '-~*Type', '-slang-*', '-Logger', '-MyUnit', '-Interpreter',
      'TreeOptimizer::*', TG + 'process*', 'Namespace::*', 'BluePrintObject::*', 'Repository::*', TG + 'parse*', 'Memory::*', 'Threads::*', 'Reference::*'],
     ['Projects/Core/Core/AST/Expression.h', 'Projects/Core/Core/AST/Statement.h', 'Projects/Core/Core/Scope.cpp', 'Projects/Core/Core/Common/Method.cpp'],
     [('tree nodes', 'destructors of Expression.h and Statement.h'), ('scopes', 'SymbolScope::deinit, MethodScope::deinit')],
     rules=[])

prop('C21', 'Every pass over a compiled program reaches all of its parts',
     'Passes over the compiled program visit every namespace, type, method and statement exactly once, in source order, and dispatch each kind of node to the handler of that kind. '
     'The interpreter handles every kind of statement and expression the parser can produce.',
     ['programs'], 'all compiled programs and all kinds of nodes',
     'A kind of node that no test contains could be skipped unnoticed.',
     ['AST/TreeVisitor.*', 'AST/TreeOptimizer.*', 'AST/TreeLineBuffer.*', 'AST/PrintVisitor.*', 'TreeVisitor::*', 'TreeOptimizer::*', 'PrintVisitor::*', TG + 'generateAST', TG + 'processBluePrint', TG + 'processMethod', TG + 'processNamespace', TG + 'process', TG + 'generate', TI + 'visit', TI + 'visitStatement', TI + 'visitExpression', TI + 'evaluate', TI + 'process', TI + 'printExpression', 'AST/Statement.h', 'AST/Expression.h', 'AST/Node.h', TI + 'visitStatements', TI + 'visitTypeInference', TI + 'visitOperator',
      TI + 'visit*', TI + 'evaluate*'],
     ['Projects/Core/Core/AST/TreeVisitor.cpp', 'Projects/Core/Core/AST/TreeOptimizer.cpp', 'Projects/Core/Core/AST/PrintVisitor.cpp', 'Projects/Core/Core/AST/TreeInterpreter.cpp'],
     [('dispatch', 'TreeVisitor::visitStatement, TreeInterpreter::visitStatement / evaluate')],
     rules=[])

# ------------------------------------------------------------------------------------------ front end
prop('C22', 'Source text is split into exactly the tokens it contains',
     'Each character of a script outside of comments and whitespace becomes part of exactly one token, in order and with its file, line and column; comments and whitespace produce none, and string literals keep their content with escape sequences replaced. '
     'Keywords, literals and multi-character operators get the type and category the language defines for them, and unknown or malformed input is rejected.',
     ['inputs'], 'all source texts',
     'Source texts are unbounded; tests tokenize a few lines.',
     ['Designtime/Parser/Tokenizer.*', 'Tokenizer::*', 'Common/Token.*', 'Token::*', 'Common/Types.cpp', 'Common/Position.*', 'Position::*', 'provide*', '-Utils/Parsers', '-Utils/', 'Analyser::generateTokens', 'Analyser::processString', 'Analyser::processFile'],
     ['Projects/Core/Core/Designtime/Parser/Tokenizer.cpp', 'Projects/Core/Core/Common/Token.cpp', 'Projects/Core/Core/Common/Types.cpp'],
     [('scanner', 'Tokenizer::process'), ('classification', 'Tokenizer::addToken, is*'), ('operator merging', 'Tokenizer::mergeOperators, mergeAssignments, replace*')],
     rules=[])

prop('C23', 'Unbalanced or malformed programs are rejected before they run',
     'A script with unbalanced brackets, braces, parentheses or quotes, a missing terminator, or a token in a place where the grammar does not allow it is reported as an error with its position and is not executed. '
     'Well-formed scripts are never rejected by these checks.',
     ['inputs', 'programs'], 'all token sequences',
     'The set of malformed scripts is unbounded; tests contain a few.',
     ['Designtime/SanityChecker.*', 'SanityChecker::*', 'Common/Utils.*', 'expect', 'findNext*', 'lookahead', 'Parser::*', 'Designtime/Parser/Parser.cpp', TG + 'expression', TG + 'parse*', TG + 'process*', TG + 'collectScopeTokens', TG + 'generate*', TG + 'hasErrors', 'Analyser::*', 'VirtualMachine::createScript*', '-TreeGenerator::processBluePrint',
      'VirtualMachine::*', 'Tokenizer::*'],
     ['Projects/Core/Core/Designtime/SanityChecker.cpp', 'Projects/Core/Core/Designtime/Parser/Parser.cpp', 'Projects/Core/Core/AST/TreeGenerator.cpp', 'Projects/Core/Core/Common/Utils.cpp'],
     [('balance', 'SanityChecker::process'), ('grammar', 'TreeGenerator::process_*, Parser::*, expect')],
     rules=[])

prop('C24', 'Declarations get exactly the attributes written in the source',
     'Each modifier of a declaration (visibility, constness, static, abstract, final, throws, language feature state, access mode, memory layout) sets the attribute it names and no other, and omitted modifiers get their documented defaults. '
     'Attributes of a finished declaration are sealed: later attempts to change them are rejected.',
     ['programs'], 'all declarations and all combinations of modifiers',
     'The modifiers combine freely; tests contain usual combinations.',
     ['Common/Attributes/*', 'Parser::*', 'Designtime/Parser/Parser.cpp', 'Analyser::*', 'Designtime/Analyser.*', 'Common/Visibility.cpp', 'Common/Types.cpp', 'Method::*', 'Symbol::*', 'Common/TypeDeclaration.h', TG + 'process_var', TG + 'process_type', 'BluePrintObject::replicate', 'BluePrintObject::set*', 'Tokenizer::is*', '-Utils/Parsers',
      'BluePrintObject::*', 'Object::set*', 'Tokenizer::*', 'Parameter::*', 'Common/Token.*', 'Common/Utils.*'],
     ['Projects/Core/Core/Common/Attributes', 'Projects/Core/Core/Designtime/Analyser.cpp', 'Projects/Core/Core/Designtime/Parser/Parser.cpp'],
     [('names of attributes', 'convert functions of Attributes/Types.cpp and Visibility.cpp'), ('declarations', 'Analyser::createMemberOrMethod, createMemberStub, createMethodStub')],
     rules=[])

prop('C25', 'Enumerations are ordered, distinct and typed',
     'Enumeration values without an explicit number continue with the previous value plus one, explicit values must be larger than the ones before, and duplicates are rejected. '
     'An enumeration variable holds values of its own enumeration, and values compare and convert by their number.',
     ['programs'], 'all enumeration declarations and uses',
     'Tests declare a few enumerations.',
     ['Analyser::buildEnum', 'Analyser::createEnum', 'Parser::isEnumDeclaration', 'Parser::parseValueInitialization', 'EnumerationType::*', 'BluePrintObject::isEnumeration', 'Object::isEnumerationValue', 'TypeSystem::initEnumeration', 'TypeSystem::define', 'TypeSystem::getType', 'TypeSystem::exists', 'Repository::init*', 'Repository::create*', 'Repository::prepareType', 'typecast', 'operator_binary_*', TG + 'process_switch', '*Type::operator_*', 'Runtime/BuildInTypes/*.cpp',
      'Analyser::*', TG + 'resolve*', 'AtomicValue::*', 'Runtime/OperatorOverloading.cpp'],
     ['Projects/Core/Core/Designtime/Analyser.cpp', 'Projects/Core/Core/Runtime/BuildInTypes/EnumerationType.cpp'],
     [('declaration', 'Analyser::createEnum, buildEnum'), ('values', 'EnumerationType')],
     rules=[])

prop('C26', 'Each import is loaded exactly once, and missing ones are reported',
     'An imported library is searched in the documented order of places and file endings, each library and extension is loaded at most once however often and in whatever order it is imported, and everything it imports is loaded too. '
     'An import that cannot be found is reported and the program does not run.',
     ['programs', 'configurations'], 'all import graphs and library folder configurations',
     'Import graphs and folder layouts are unbounded; tests import a few libraries.',
     ['VirtualMachine/VirtualMachine.*', 'VirtualMachine::*', '*buildFilename', '*read_directory', 'Analyser::createLibraryReference', 'Analyser::get*References', 'Analyser::process*', 'Analyser::generate*', 'Parser::isLibraryReference', 'ExtensionManager::*', 'Core/Extensions/*', 'Files::*', 'Controller::*', 'Utils/Tools/Files.cpp',
      'Analyser::*', 'slang/main.cpp', 'Parser::*', 'Script::*'],
     ['Projects/Core/Core/VirtualMachine/VirtualMachine.cpp', 'Projects/Core/Core/Designtime/Analyser.cpp', 'Projects/Utils/Tools/Files.cpp'],
     [('library loading', 'VirtualMachine::loadLibrary, loadExtension, createScript'), ('import statement', 'Analyser::createLibraryReference')],
     rules=[])

prop('C27', 'Generic types are instantiated with the types given',
     'An instance of a generic type replaces each of its type parameters by the type given in its place everywhere in the type, with defaults for omitted ones, and different type arguments yield different types. '
     'A missing, superfluous or unknown type argument is rejected.',
     ['programs'], 'all generic types and type arguments',
     'Tests instantiate the collection classes with few types.',
     ['PrototypeConstraint::*', 'PrototypeConstraints::*', 'Common/PrototypeConstraint.*', 'Parser::*Constraint*', 'Repository::createBluePrintFromPrototype', 'Repository::prepareType', 'Repository::findBluePrintObject', 'Repository::createInstance', 'Repository::createReference', 'Repository::create*', 'Repository::initBluePrintObject', 'Repository::initializeBlueprints', 'Repository::initTypeSystem', 'BluePrintObject::fromPrototype', 'BluePrintObject::replicate', 'BluePrintObject::isPrototype', 'BluePrintObject::*PrototypeConstraints', 'Method::*Prototype*', 'Method::initialize', 'Analyser::createBluePrint', 'Analyser::createInterface', 'Analyser::resolveType', 'Analyser::createM*', 'Analyser::parse*', 'Analyser::collectInheritance', 'Parser::parseTypeDeclaration', TG + 'resolveType', TG + 'process_type', TG + 'process_new', TG + 'process_cast', TG + 'processBluePrint', 'Common/TypeDeclaration.h', 'Method::operator=', 'Method::Method', 'Parser::collectInheritance', 'Ancestor::*',
      TG + 'resolve*', 'Method::*', 'BluePrintObject::*'],
     ['Projects/Core/Core/Common/PrototypeConstraint.cpp', 'Projects/Core/Core/VirtualMachine/Repository.cpp', 'Projects/Core/Core/Designtime/Parser/Parser.cpp'],
     [('constraints', 'PrototypeConstraints::buildRuntimeConstraints / lookupType'), ('instantiation', 'Repository::createBluePrintFromPrototype')],
     rules=[])

prop('C28', 'foreach visits each item of a collection once and in order',
     'A foreach loop obtains one iterator of the collection, and while it reports a next item binds that item to a fresh loop variable and runs the body once. '
     'A collection or iterator without the needed methods, or with an item type that does not fit the loop variable, is rejected before the program runs.',
     ['programs', 'histories'], 'all collections, iterators and loop bodies',
     'Tests iterate a few lists.',
     [TI + 'visitForeach', TG + 'process_foreach', 'BluePrintObject::isIterable', TI + 'evaluateMethodExpression', 'ForeachStatement::*', TG + 'processPostfixRangeOperator', TG + 'process_var', TG + 'process_type', TI + 'pushScope', TI + 'popScope', 'isTrue', TI + 'process', TI + 'visit', 'Repository::createInstance', 'StackFrame::*',
      TI + 'evaluateSymbolExpression', TG + 'resolve*', 'SymbolScope::*', 'MethodScope::resolve*', 'Library/System/Collections/*', 'Library/System/*Iterator.os', 'os::*::getIterator', 'os::*::getReverseIterator'],
     ['Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Core/Core/AST/TreeGenerator.cpp'],
     [('iteration', 'TreeInterpreter::visitForeach'), ('checks', 'TreeGenerator::process_foreach')],
     rules=[])

prop('C29', 'The outcome of a program is visible to its caller',
     'A failing assertion, an uncaught exception or a program error is reported with its position and makes the interpreter end with a non-zero status; a program that ends normally yields the value returned by its entry point, or zero. '
     'print writes exactly the given text, command line options select exactly the documented behaviour and the remaining arguments reach the program.',
     ['programs', 'configurations', 'inputs'], 'all programs, options and arguments',
     'Few tests look at exit status and output.',
     ['slang/main.cpp', TI + 'visitAssert', TI + 'visitPrint', TI + 'visitExit', TI + 'printExpression', 'Printer::*', 'Utils/Tools/Printer.*', 'VirtualMachine::run*', 'VirtualMachine::createScript*', 'VirtualMachine::settings', 'VirtualMachine::print*', 'Core/Common/Exceptions.h', 'Core/Runtime/Exceptions.h', 'Core/Designtime/Exceptions.h', 'Position::*', 'Thread::exception', 'ExceptionData::*', 'ControlFlow::*', TG + 'process_assert', TG + 'process_print', TG + 'process_exit', TG + 'hasErrors', TG + 'generateAST', TG + 'generate', 'Object::ToString', TI + 'execute', 'Thread::execute',
      'VirtualMachine::*', TI + 'visit*', TI + 'evaluateMethodExpression', TI + 'evaluateNewExpression', 'Script::*', 'StackFrame::*', 'Object::execute', 'Object::Constructor', 'Thread::*'],
     ['Projects/slang/main.cpp', 'Projects/Core/Core/AST/TreeInterpreter.cpp', 'Projects/Utils/Tools/Printer.cpp'],
     [('entry point', 'slang/main.cpp main'), ('assertions and output', 'TreeInterpreter::visitAssert, visitPrint')],
     rules=[])

# ------------------------------------------------------------------------------------------ native library
prop('C30', 'Mathematical library functions compute the function they are named after',
     'Each mathematical function of the standard library takes its arguments in the declared order and type, returns the value of the C function of the same name for them and has the declared result type. '
     'The variants for different number types agree with each other.',
     ['inputs'], 'all functions, variants and argument values',
     'There are over a hundred functions and variants; tests call a few with one value.',
     ['Extensions/LIBC/math/*', 'Extensions/LIBC/stdlib/*', 'Extensions/LIBC/fenv/*', 'Extensions/LIBC/Extension.*', 'Extensions/LIBC/cassert/*', 'ExtensionMethod::*',
      'AtomicValue::*', 'ExtensionManager::*', 'Method::mergeParameters', 'Library/System/Math/*'],
     ['Projects/Extensions/LIBC/math', 'Projects/Extensions/LIBC/stdlib', 'Projects/Extensions/LIBC/fenv'],
     [('functions', 'Extensions::LIBC::math::*::execute'), ('registration', 'MathExtension::provideMethods')],
     rules=[])

prop('C31', 'File functions act on the file whose handle they are given',
     'Each file function validates the handle it is given, acts on exactly that file and returns the documented result, with an error value for invalid handles and failed operations. '
     'Opening yields a handle of its own for every open file, and a closed handle is not usable any more.',
     ['histories', 'inputs'], 'all sequences of file operations and all handle values',
     'Histories of several open files are unbounded; tests open one file at a time.',
     ['Extensions/LIBC/stdio/*', 'ExtensionMethod::*',
      'Extensions/LIBC/Extension.*', 'AtomicValue::*', 'Method::mergeParameters', 'Library/System/IO/*'],
     ['Projects/Extensions/LIBC/stdio'],
     [('handles', 'FileHandles map'), ('functions', 'Extensions::LIBC::stdio::*::execute')],
     rules=[])

prop('C32', 'String library functions return what their name says for all strings',
     'Each string function (search, compare, concatenate, pad, trim, substring, case conversion, length) takes its arguments in the declared order, returns the documented result for every string, position and length, including empty strings, and does not change its arguments. '
     'Positions and lengths outside of the string never lead to reading outside of it.',
     ['inputs'], 'all strings, positions and lengths',
     'Boundary positions and lengths are rarely tested.',
     ['Extensions/LIBC/cstring/*', 'Extensions/System/Strings/*', 'Extensions/System/Ascii.h', 'ExtensionMethod::*', 'Utils/Tools/Strings.*', 'string*', 'toString', 'split*', 'extract', 'indent', 'toLowerCase', '-Runtime/BuildInTypes/',
      'StringType::*', 'AtomicValue::*', 'Extensions/System/Extension.*', 'Extensions/LIBC/Extension.*', 'Method::mergeParameters', 'Library/System/String*.os', 'Library/System/Character*.os'],
     ['Projects/Extensions/LIBC/cstring', 'Projects/Extensions/System/Strings', 'Projects/Utils/Tools/Strings.cpp'],
     [('functions', 'Extensions::*::execute'), ('helpers', 'Tools::*')],
     rules=[])

prop('C33', 'System functions pass their arguments to the operating system unchanged',
     'Console, environment, process, time, locale, network and reflection functions take their arguments in the declared order, perform exactly the named operation with them and return its result or error. '
     'Output goes to the stream named, and nothing is read or written beyond the requested amount.',
     ['inputs', 'fault_sequences'], 'all arguments and results of the operating system',
     'Most of these functions have no tests because they need a network, a terminal or other processes.',
     ['Extensions/System/*', 'Extensions/System/Console/*', 'Extensions/System/Network/*', 'Extensions/System/Reflection/*', 'Extensions/System/Time/*', 'Extensions/LIBC/locale/*', 'Extensions/LIBC/Extension.*', 'ExtensionMethod::*', '-Extensions/System/Strings/',
      'AtomicValue::*', 'Method::mergeParameters', 'Library/System/Network/*'],
     ['Projects/Extensions/System', 'Projects/Extensions/LIBC/locale'],
     [('functions', 'Extensions::System::*::execute')],
     rules=[])

# ------------------------------------------------------------------------------------------ tools
prop('C34', 'The debugger stops exactly where it was told to',
     'A running program stops before a statement exactly when a breakpoint of that file and line exists and has no condition or its condition holds, a pending step command stops it at the next statement, call or return it names, and exceptions stop it if requested. '
     'Adding, finding and removing breakpoints affects only the breakpoint named, and each registered client is notified once.',
     ['histories', 'programs'], 'all sequences of commands and all executions',
     'Stepping across calls and conditions combine into unbounded histories; tests do not cover the stop decision.',
     ['Core/Debugger/*', 'Debugger::*', 'BreakPoint::*', 'Condition::*', 'Position::*', TI + 'execute', TI + 'visitStatement', TI + 'visitThrow', TI + 'visitTry', TI + 'evaluateMethodExpression', TI + 'evaluateSymbolExpression', TI + 'TreeInterpreter',
      'LocalClient::*', TI + 'process', 'VirtualMachine::run*', 'Watch::*', TI + 'visit*'],
     ['Projects/Core/Debugger/Debugger.cpp', 'Projects/Core/Debugger/BreakPoint.cpp', 'Projects/Core/Debugger/Condition.cpp'],
     [('stop decision', 'Debugger::notify, notifyEnter, notifyExit'), ('breakpoints', 'Debugger::addBreakPoint / removeBreakPoint')],
     rules=[])

prop('C35', 'Debugger front ends execute exactly the command entered',
     'Each command of the interactive debugger, and each request of the remote protocol, performs the action it names with the arguments given and reports its result; unknown commands and requests change nothing. '
     'Settings that are saved are restored by the next start.',
     ['inputs', 'histories'], 'all command sequences and requests',
     'The front ends have no automated tests.',
     ['slang-dbg/*/*', 'slang-dbg/main.cpp', 'LineParser::*', 'Utils/Parsers/*', 'Watch::*', 'Utils/Common/Configuration/*',
      'Core/Debugger/*', 'Utils/Tools/Strings.*'],
     ['Projects/slang-dbg'],
     [('commands', 'LocalClient::executeCommand'), ('protocol', 'RemoteClient::DispatchRequest, MessageConverter')],
     rules=[])

prop('C36', 'Versions are ordered as semantic versions',
     'Parsing a version and printing it again yields the same version, a text without any number, label or build data is no valid version, and two versions compare by major, minor and bugfix number in that order, a labelled version coming before the unlabelled one. '
     'The comparison is a total order: exactly one of less, equal and greater holds.',
     ['inputs'], 'all version strings and pairs of versions',
     'Pairs of versions are unbounded; tests compare a few.',
     ['Utils/SemVer/*', 'SemanticVersionNumber::*', 'Library/libSemVer/*'],
     ['Projects/Utils/SemVer/Version.cpp', 'Projects/Utils/SemVer/Version.h'],
     [('order', 'SemanticVersionNumber::operator<, operator=='), ('text form', 'SemanticVersionNumber::parse, toString')],
     rules=[])

prop('C37', 'The package manager only installs what satisfies all restrictions',
     'A module version is chosen only if it satisfies every version restriction recorded for it, conflicting restrictions are reported, and the dependencies of an installed module are installed too. '
     'Commands change only the named modules, repositories and configuration entries, and failures are reported.',
     ['configurations', 'inputs', 'fault_sequences'], 'all repositories, dependency graphs and restrictions',
     'The package manager has no automated tests because it needs remote repositories.',
     ['slang-pkg/*/*', 'slang-pkg/main.cpp', 'SemanticVersionNumber::*', 'Files::*',
      'Utils/SemVer/*', 'Utils/Tools/*', 'Utils/Common/*'],
     ['Projects/slang-pkg'],
     [('restrictions', 'checkRestrictions, processRestrictions, loadRestrictions'), ('index', 'Repository::processIndex, Module::loadFromJson')],
     rules=[])

prop('C38', 'Path, text and configuration helpers return the documented part',
     'Splitting, joining and normalising paths, splitting and trimming text, and reading configuration lines return exactly the documented part of their input for every input, including empty ones, and never touch anything beyond it. '
     'Converting a parsed value to another type follows its text.',
     ['inputs'], 'all texts, paths and configuration files',
     'Inputs are unbounded; tests use typical ones.',
     ['Utils/Tools/*', 'Utils/Parsers/*', 'Utils/Common/*', 'Utils/Common/Configuration/*', 'Files::*', 'Value::*', 'Valueizer::*', 'LineParser::*',
      'string*', 'split*', 'Utils/SemVer/Version.h'],
     ['Projects/Utils/Tools', 'Projects/Utils/Parsers', 'Projects/Utils/Common'],
     [('paths', 'Files::*'), ('text', 'Tools::*'), ('configuration', 'Configurator, LineParser, Valueizer')],
     rules=[])

prop('C39', 'The application server routes each request to the service configured for it',
     'The application server loads each configured service once, hands every request to the service whose path matches and to no other, runs its script with the environment of that request, and answers requests without a service with not found. '
     'Command line options and configuration entries select exactly the documented setting.',
     ['configurations', 'inputs'], 'all configurations and requests',
     'The application server has no automated tests.',
     ['slang-app/*/*', 'slang-app/main.cpp',
      'Utils/Common/*', 'Utils/Common/Configuration/*', 'Utils/Parsers/*', 'Utils/Tools/*', 'VirtualMachine::*'],
     ['Projects/slang-app'],
     [('services', 'Service, Application::loadServices'), ('requests', 'Service::handleRequest')],
     rules=[])

# ------------------------------------------------------------------------------------------ library written in slang
LIB = 'Projects/Library/'

prop('C40', 'Collections of the library hold exactly the items put into them',
     'After any sequence of operations a list, vector, stack, queue, set, map, double linked list or range contains exactly the items that were inserted and not removed, in the documented order, and its size, first, last, index and lookup methods agree with these contents. '
     'Every index outside of the collection, and every removal from an empty one, throws an out of bounds exception and changes nothing.',
     ['histories', 'inputs'], 'all sequences of operations on a collection and all indices',
     'Sequences of insertions and removals are unbounded; the tests run a few short ones per collection.',
     ['Library/System/Collections/*'],
     [LIB + 'System/Collections'],
     [('linked items', 'mFirst, mLast, mSize of List, Vector, Stack, Set and DoubleLinkedList'), ('built on them', 'Queue, Map'), ('computed', 'Range')])

prop('C41', 'Iterators of the library step through their source in order and end at its end',
     'An iterator starts in front of the first item (a reverse iterator behind the last one), each step yields the next item exactly once, hasNext tells whether such an item exists, peek looks at an item without moving, and reset returns to the start. '
     'Stepping over the end, and asking for a current item before the first step, throws an exception and leaves the iterator where it was.',
     ['histories', 'inputs'], 'all sources and all sequences of steps',
     'The tests step through a few sources from start to end.',
     ['Library/System/Collections/*Iterator.os', 'Library/System/*Iterator.os', 'Library/System/Collections/CollectionItem.os', 'os::*::getIterator', 'os::*::getReverseIterator', 'Library/System/Collections/Range.os'],
     [LIB + 'System/Collections/DoubleLinkedIterator.os', LIB + 'System/Collections/RandomAccessIterator.os', LIB + 'System/CharacterIterator.os', LIB + 'System/StringIterator.os'],
     [('position', 'mCurrentItem, mCurrentIndex, mCurrentPosition and mNextPosition'), ('steps', 'next, previous, peek, reset')])

prop('C42', 'Strings and boxed values of the library behave like the values they hold',
     'String, Character, Integer, Float, Double and Boolean objects compare, combine and convert like the value they hold, keep their stored length in step with it, and leave both operands unchanged unless they are assigned to. '
     'Searching, replacing, trimming and splitting a String give the documented result for every text and position; positions outside of the text throw an exception. The exceptions of the library keep the message they were created with.',
     ['inputs', 'histories'], 'all values, texts, positions and sequences of operations',
     'Values and texts are unbounded; the tests use a few typical ones.',
     ['Library/System/String*.os', 'Library/System/Character*.os', 'Library/System/Integer.os', 'Library/System/Float.os', 'Library/System/Double.os', 'Library/System/Boolean.os', 'Library/System/Types.os', 'Library/System/Exception.os', 'Library/System/Assert.os'],
     [LIB + 'System/String.os', LIB + 'System/Integer.os', LIB + 'System/Character.os', LIB + 'System/Exception.os'],
     [('text and length', 'String.mValue, String.mSize'), ('boxed values', 'mValue of Integer, Float, Double, Boolean, Character')])

prop('C43', 'File, network and mathematical library objects perform the operation they are asked for',
     'A File object opens the named file in the given mode, reads, writes and seeks through its own handle only and reports failures; it never opens a second file over an open one. '
     'Socket objects connect, bind, listen, read and write with the address, port and socket they were given and refuse to transfer data while not connected. Powers and squares are computed for every exponent.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of operations, all files, addresses and numbers',
     'Sockets and failing files have no tests.',
     ['Library/System/IO/*', 'Library/System/Math/*', 'Library/System/Network/*'],
     [LIB + 'System/IO', LIB + 'System/Math', LIB + 'System/Network'],
     [('file handle', 'File.mHandle'), ('sockets', 'ClientSocket.mSocket, ServerSocket.mMasterSocket and mListenerSocket')])

prop('C44', 'Documents read and written by the library keep their structure and values',
     'Reading a JSON, YAML or CSV text yields its objects, arrays and values in the order of the text, or reports an error if the text is malformed. '
     'Writing or building a document yields each key and value once, separated and nested as the format demands, so that reading it again gives the same document.',
     ['inputs', 'histories'], 'all documents and all sequences of building calls',
     'Documents are unbounded; the tests read and write a few small ones.',
     ['Library/libJson/*', 'Library/libJsonBuilder/*', 'Library/libYAML/*', 'Library/libCSVReader/*', 'Library/JsonReader/*'],
     [LIB + 'libJson', LIB + 'libJsonBuilder', LIB + 'libYAML', LIB + 'libCSVReader'],
     [('tokens and grammar', 'libJson Tokenizer, JsonReader; libYAML reader; CSVReader'), ('values', 'JsonValue, JsonObject, JsonArray and their YAML counterparts'), ('output', 'JsonWriter, Builder, StructuredBuilder, StyledBuilder')])

prop('C45', 'Command line parameters, versions and log messages of the library arrive as given',
     'The parameter handler splits the command line into exactly the given keys and values, in their order and with quotes and escapes resolved, and finds, counts and removes exactly the asked for one. '
     'Versions compare by major, minor and bugfix number and label, and a log message is written once to the context of its logger, marked with its level and the key of the logger; a fatal message is thrown as an exception as well.',
     ['inputs', 'histories'], 'all command lines, versions and log configurations',
     'Command lines and versions are unbounded; the tests use a few.',
     ['Library/libParam/*', 'Library/libSemVer/*', 'Library/libLog/*'],
     [LIB + 'libParam', LIB + 'libSemVer', LIB + 'libLog'],
     [('command line', 'ParameterHandler.process, insertParameter'), ('order of versions', 'SemVer.operator<, operator>, operator=='), ('loggers', 'libLog Logger, FileLogger, StdOutLogger')])

prop('C46', 'Behaviour tree nodes combine the results of their children as their kind says',
     'A sequence succeeds only if all its children succeed, a fallback fails only if all its children fail, and both stop at the first child that decides the result; an inverter swaps success and failure of its child, and a running or waiting child makes its parent report the same. '
     'Children are executed in the order they were added, a node which was left at a running child continues there, the reactive variants start with the first child again.',
     ['histories', 'programs'], 'all trees and all sequences of child results',
     'The trees are unbounded; there are no automated tests.',
     ['Library/libBehaviourTree/*'],
     [LIB + 'libBehaviourTree'],
     [('results', 'tick methods in libBehaviourTree Control.os and Decorator.os'), ('position', 'Index of Fallback and Sequence'), ('children', 'pushChild')])

prop('C47', 'Database, message queue and web wrappers pass statements and data on unchanged',
     'Connections, statements, results and rows of the SQLite and MySQL wrappers execute exactly the statement given, bind each value to its placeholder and return the rows and columns of the result in order; web requests and message queues send and return exactly the given data. '
     'A failed operation throws an exception or is reported as failed.',
     ['inputs', 'histories', 'fault_sequences'], 'all statements, results, messages and failures',
     'They need databases, servers and system queues, so there are no automated tests.',
     ['Library/libSQLite3/*', 'Library/libMySQL/*', 'Library/libCurl/*', 'Library/libMsgQueue/*', 'Library/IPCService/*', 'Library/SQLite3/*', 'Library/Telnet/*'],
     [LIB + 'libSQLite3', LIB + 'libMySQL', LIB + 'libCurl', LIB + 'libMsgQueue', LIB + 'IPCService'],
     [('statements', 'libMySQL Statement, Connection; libSQLite3 Connection'), ('results', 'Result, Row'), ('messages', 'MsgQueue, IPCService')])

prop('C48', 'The interpreters written in slang execute their programs and queries as written',
     'The BASIC interpreter runs the lines of a program in order, follows jumps, loops, subroutines and conditions, and evaluates expressions with the usual precedence. '
     'The CSV query tool returns exactly the rows and columns a query selects. Malformed programs and queries are reported with their position.',
     ['programs', 'inputs'], 'all BASIC programs, queries and tables',
     'Programs and queries are unbounded; only a few samples exist.',
     ['Library/Basic-Token/*', 'Library/csvDB/*'],
     [LIB + 'Basic-Token', LIB + 'csvDB'],
     [('BASIC', 'Tokenizer, Parser, Interpreter, Statements and Expressions of Basic-Token'), ('queries', 'Tokenizer, QueryExecutor and Expressions of csvDB')])

prop('C49', 'The sample applications follow their rules',
     'The Sudoku solver only fills in values that are possible for row, column and block, the dispatch steps of the order dispatcher drop exactly the orders and shuttles they are named after and sort the rest by the named criterion, orders, shuttles and stations change their state as the telegrams say, and the repository indexer and file tools list exactly what they find.',
     ['inputs', 'histories'], 'all boards, orders, graphs and folders',
     'The applications have no automated tests.',
     ['Library/Alpen/*', 'Library/SudokuSolver/*', 'Library/RepoIndexer/*', 'Library/FileReader/*', 'Library/DependencyChecker/*', 'Library/SyntaxCheck.os'],
     [LIB + 'Alpen', LIB + 'SudokuSolver', LIB + 'RepoIndexer', LIB + 'FileReader', LIB + 'DependencyChecker'],
     [('Sudoku', 'Board, Cell'), ('dispatching', 'OrderDispatcher, DispatchSteps, Graph'), ('indexer', 'Indexer')])

BYID = {p['id']: p for p in P}

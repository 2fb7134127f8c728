"""More edits of the library written in slang."""
from refactorings import edit
L = 'Projects/Library/'

edit('h-str-last-index',
     (L + 'System/String.os', '''		int index = -1;
		int index2;

		while ( ( index2 = IndexOf( str, index + 1 ) ) != -1 ) {
			index = index2;
		}

		return index;
''', '''		int last = -1;
		int next = IndexOf( str, 0 );

		while ( next != -1 ) {
			last = next;
			next = IndexOf( str, last + 1 );
		}

		return last;
'''))
edit('h-str-assign-helper',
     (L + 'System/String.os', '''			string tmp = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );

			// update members
			mValue = tmp;
			mSize = strlen( mValue );

			return true;
		}

		return false;
	}
''', '''			replaceAt( position, strlen( oldStr ), newStr );

			return true;
		}

		return false;
	}

	private void replaceAt( int position, int length, string newStr ) modify {
		mValue = substr( mValue, 0, position ) + newStr + substr( mValue, position + length );
		mSize = strlen( mValue );
	}
'''))
edit('h-str-replace-guard',
     (L + 'System/String.os', '''		int position = strfind( mValue, oldStr, 0 );

		if ( position >= 0 ) {
			string tmp = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );

			// update members
			mValue = tmp;
			mSize = strlen( mValue );

			return true;
		}

		return false;
''', '''		var position = strfind( mValue, oldStr, 0 );

		if ( position < 0 ) {
			return false;
		}

		var head = substr( mValue, 0, position );
		var tail = substr( mValue, position + strlen( oldStr ) );

		mValue = head + newStr + tail;
		mSize = strlen( mValue );

		return true;
'''))
edit('h-str-replaceall-early',
     (L + 'System/String.os', '''		bool hasFound = false;

		int position = strfind( mValue, oldStr, 0 );

		while ( position >= 0 && strlen( oldStr ) > 0 ) {
			mValue =''', '''		int position = strfind( mValue, oldStr, 0 );
		bool hasFound = false;

		while ( strlen( oldStr ) > 0 && position >= 0 ) {
			mValue ='''))
edit('h-str-endswith',
     (L + 'System/String.os', '''		if ( strlen( str ) > strlen( mValue ) ) {
			return false;
		}

		return str == substr( mValue, strlen( mValue ) - strlen( str ) );
''', '''		int length = strlen( str );
		int total = strlen( mValue );

		if ( length <= total ) {
			return substr( mValue, total - length ) == str;
		}

		return false;
'''))
edit('h-str-removechar',
     (L + 'System/String.os', '''		mSize--;
		mValue = substr( mValue, 0, index ) + substr( mValue, index + 1 );
''', '''		string left = substr( mValue, 0, index );
		string right = substr( mValue, index + 1 );

		mValue = left + right;
		mSize = mSize - 1;
'''))
edit('h-str-trim',
     (L + 'System/String.os', '''		mValue = strltrim( mValue );
		mValue = strrtrim( mValue );
		mSize = strlen( mValue );

		return mValue;
''', '''		mValue = strrtrim( strltrim( mValue ) );
		mSize = strlen( mValue );

		return mValue;
'''))
edit('h-bas-run',
     (L + 'Basic-Token/Interpreter.os', '''			Line line;

			while ( mCurrentLine > 0 ) {
				//print("LINE: " + mCurrentLine);

				line = mLines.get(mCurrentLine);

				mCurrentLine = process(line.mStatement) ?: line.nextLine();
			}
''', '''			while ( mCurrentLine > 0 ) {
				executeLine( mLines.get(mCurrentLine) );
			}
'''), (L + 'Basic-Token/Interpreter.os', '''	protected int process(Statement stmt) modify throws {
''', '''	private void executeLine(Line line) modify throws {
		mCurrentLine = process(line.mStatement) ?: line.nextLine();
	}

	protected int process(Statement stmt) modify throws {
'''))
edit('h-bas-follow',
     (L + 'Basic-Token/Interpreter.os', '''		print(processExpression(stmt.mExpression));

		return stmt.mFollowingStatement ? process(stmt.mFollowingStatement) : 0;
''', '''		print(processExpression(stmt.mExpression));

		return processFollowing(stmt);
'''), (L + 'Basic-Token/Interpreter.os', '''	private int processRETURN(ReturnStatement stmt) modify {
''', '''	private int processFollowing(PrintStatement stmt) modify throws {
		if ( stmt.mFollowingStatement ) {
			return process(stmt.mFollowingStatement);
		}

		return 0;
	}

	private int processRETURN(ReturnStatement stmt) modify {
'''))
edit('h-bas-for-var',
     (L + 'Basic-Token/Interpreter.os', '''		String obj;

		if ( !mForStack.contains(stmt.mLoopVariable.mVariable) ) {
			mForStack.insert(stmt.mLoopVariable.mVariable, mCurrentLine);

			if ( !mVariables.contains(stmt.mLoopVariable.mVariable) ) {
				mVariables.insert(stmt.mLoopVariable.mVariable, new String("0"));
			}

			obj = mVariables.get(stmt.mLoopVariable.mVariable);
			obj = processExpression(stmt.mStartExpression);
		}
		else {
			obj = mVariables.get(stmt.mLoopVariable.mVariable);
			obj = processExpression(stmt.mStepExpression);
		}

		if ( !processBooleanExpression(stmt.mTargetExpression) ) {
			mForStack.remove(stmt.mLoopVariable.mVariable);
		}
''', '''		String obj;
		string name = stmt.mLoopVariable.mVariable;

		if ( mForStack.contains(name) ) {
			obj = mVariables.get(name);
			obj = processExpression(stmt.mStepExpression);
		}
		else {
			mForStack.insert(name, mCurrentLine);

			if ( !mVariables.contains(name) ) {
				mVariables.insert(name, new String("0"));
			}

			obj = mVariables.get(name);
			obj = processExpression(stmt.mStartExpression);
		}

		if ( !processBooleanExpression(stmt.mTargetExpression) ) {
			mForStack.remove(name);
		}
'''))
edit('h-bas-next',
     (L + 'Basic-Token/Interpreter.os', '''		if ( mForStack.contains(stmt.mLoopVariable) ) {
			return mForStack.get(stmt.mLoopVariable);
		}

		return 0;
''', '''		if ( !mForStack.contains(stmt.mLoopVariable) ) {
			return 0;
		}

		return mForStack.get(stmt.mLoopVariable);
'''))
edit('h-bas-next-tern',
     (L + 'Basic-Token/Interpreter.os', '''		if ( mForStack.contains(stmt.mLoopVariable) ) {
			return mForStack.get(stmt.mLoopVariable);
		}

		return 0;
''', '''		return mForStack.contains(stmt.mLoopVariable) ? mForStack.get(stmt.mLoopVariable) : 0;
'''))
edit('h-bas-if',
     (L + 'Basic-Token/Interpreter.os', '''		if ( processBooleanExpression(stmt.mExpression) ) {
			return process(stmt.mThenBlock);
		}

		return stmt.mFollowingStatement ? process(stmt.mFollowingStatement) : 0;
''', '''		bool condition = processBooleanExpression(stmt.mExpression);

		if ( !condition ) {
			return stmt.mFollowingStatement ? process(stmt.mFollowingStatement) : 0;
		}

		return process(stmt.mThenBlock);
'''))
edit('h-bas-arith',
     (L + 'Basic-Token/Interpreter.os', '''			case "+": {
				if ( isStringExp ) {
					return left + right;
				}
				return "" + ((float left) + (float right));
			}
''', '''			case "+": {
				return isStringExp ? (left + right) : ("" + ((float left) + (float right)));
			}
'''))
edit('h-bas-compare-if',
     (L + 'Basic-Token/Interpreter.os', '''		switch ( exp.mOperator ) {
			case "=": {
				return "" + (left == right);
			}
			case "<": {
''', '''		if ( exp.mOperator == "=" ) {
			return "" + (left == right);
		}

		switch ( exp.mOperator ) {
			case "<": {
'''))
edit('h-sem-less',
     (L + 'libSemVer/SemVer.os', '''		if ( Major == other.Major ) {
			if ( Minor == other.Minor ) {
				if ( Bugfix == other.Bugfix ) {
					if ( Label == other.Label ) {
						return BuildNumber < other.BuildNumber;
					}
					else if ( Label && other.Label ) {
						return Label < other.Label;
					}

					return Label && !other.Label;
				}

				return Bugfix < other.Bugfix;
			}

			return Minor < other.Minor;
		}

		return Major < other.Major;
''', '''		if ( Major != other.Major ) {
			return Major < other.Major;
		}
		if ( Minor != other.Minor ) {
			return Minor < other.Minor;
		}
		if ( Bugfix != other.Bugfix ) {
			return Bugfix < other.Bugfix;
		}
		if ( Label == other.Label ) {
			return BuildNumber < other.BuildNumber;
		}
		if ( Label && other.Label ) {
			return Label < other.Label;
		}

		return Label && !other.Label;
'''))
edit('h-sem-equal',
     (L + 'libSemVer/SemVer.os', '''		return Major       == other.Major
		    && Minor       == other.Minor
		    && Bugfix      == other.Bugfix
		    && Label       == other.Label
		    && BuildNumber == other.BuildNumber;
''', '''		if ( Major != other.Major || Minor != other.Minor || Bugfix != other.Bugfix ) {
			return false;
		}

		return Label == other.Label && BuildNumber == other.BuildNumber;
'''))
edit('h-sem-string',
     (L + 'libSemVer/SemVer.os', '''		return cast<string>( Major )
			+ "." + cast<string>( Minor )
			+ "." + cast<string>( Bugfix )
			+ ( Label ? "-" + Label : "" )
			+ ( BuildNumber ? "+" + BuildNumber : "" );
''', '''		string result = cast<string>( Major ) + "." + cast<string>( Minor ) + "." + cast<string>( Bugfix );

		if ( Label ) {
			result += "-" + Label;
		}
		if ( BuildNumber ) {
			result += "+" + BuildNumber;
		}

		return result;
'''))
edit('h-param-contains-loop',
     (L + 'libParam/ParameterHandler.os', '''	public bool contains( string key ) const {
		foreach ( Parameter p : mParameters ) {
			if ( p == key ) {
				return true;
			}
		}

		return false;
	}
''', '''	public bool contains( string key ) const {
		bool found = false;

		foreach ( Parameter p : mParameters ) {
			if ( p == key ) {
				found = true;
				break;
			}
		}

		return found;
	}
'''))
edit('h-param-find',
     (L + 'libParam/ParameterHandler.os', '''		int idx;

		foreach ( Parameter p : mParameters ) {
			if ( p == key ) {
				mParameters.erase( idx );
				return true;
			}

			idx++;
		}

		return false;
''', '''		int idx = indexOf( key );

		if ( idx < 0 ) {
			return false;
		}

		mParameters.erase( idx );
		return true;
'''), (L + 'libParam/ParameterHandler.os', '''	/*
	 * returns the number of held parameters
	 */
''', '''	private int indexOf( string key ) const {
		int idx;

		foreach ( Parameter p : mParameters ) {
			if ( p == key ) {
				return idx;
			}

			idx++;
		}

		return -1;
	}

	/*
	 * returns the number of held parameters
	 */
'''))
edit('h-param-insert',
     (L + 'libParam/ParameterHandler.os', '''		if ( substr( key, 0, 1 ) == "-" ) {
			startPos = 1;
			if ( substr( key, 0, 2 ) == "--" ) {
				startPos = 2;
			}
		}
''', '''		if ( substr( key, 0, 1 ) == "-" ) {
			startPos = ( substr( key, 0, 2 ) == "--" ) ? 2 : 1;
		}
'''))
edit('h-param-add',
     (L + 'libParam/ParameterHandler.os', '''					if ( param || isValue ) {
						insertParameter( isValue ? key : param, isValue ? param : "" );
					}
''', '''					if ( isValue ) {
						insertParameter( key, param );
					}
					else if ( param ) {
						insertParameter( param, "" );
					}
'''))
edit('h-param-dir',
     (L + 'libParam/ParameterHandler.os', '''				var length = strlen( mProgramName );
				while ( length > 0 && substr( mProgramName, length - 1, 1 ) != "/" ) {
					length--;
				}

				mDirectoryName = substr( mProgramName, 0, length );
''', '''				mDirectoryName = directoryOf( mProgramName );
'''), (L + 'libParam/ParameterHandler.os', '''	/*
	 * inserts the parsed parameters
	 */
''', '''	private string directoryOf( string path ) const {
		var length = strlen( path );
		while ( length > 0 && substr( path, length - 1, 1 ) != "/" ) {
			length--;
		}

		return substr( path, 0, length );
	}

	/*
	 * inserts the parsed parameters
	 */
'''))
edit('h-bt-fallback',
     (L + 'libBehaviourTree/Control.os', '''            if ( childStatus == NodeStatus.Running || childStatus == NodeStatus.Waiting ) {
                print( "Fallback: Running or Waiting" );
                return childStatus;
            }
            else if ( childStatus == NodeStatus.Failure ) {
                print( "Fallback: Failure" );
                Index++;
            }
            else if ( childStatus == NodeStatus.Success ) {
                print( "Fallback: Success" );
                Index = 0;
                return NodeStatus.Success;
            }
''', '''            switch ( childStatus ) {
                case NodeStatus.Running: {
                    print( "Fallback: Running or Waiting" );
                    return childStatus;
                }
                case NodeStatus.Waiting: {
                    print( "Fallback: Running or Waiting" );
                    return childStatus;
                }
                case NodeStatus.Failure: {
                    print( "Fallback: Failure" );
                    Index++;
                    break;
                }
                case NodeStatus.Success: {
                    print( "Fallback: Success" );
                    Index = 0;
                    return NodeStatus.Success;
                }
            }
'''))
edit('h-bt-reactive',
     (L + 'libBehaviourTree/Control.os', '''            if ( childStatus == NodeStatus.Running || childStatus == NodeStatus.Waiting ) {
                print( "ReactiveFallback: Running or Waiting" );
                return childStatus;
            }
            else if ( childStatus == NodeStatus.Success ) {
                print( "ReactiveFallback: Success" );
                return NodeStatus.Success;
            }
''', '''            if ( childStatus == NodeStatus.Success ) {
                print( "ReactiveFallback: Success" );
                return childStatus;
            }

            if ( isPending( childStatus ) ) {
                print( "ReactiveFallback: Running or Waiting" );
                return childStatus;
            }
'''), (L + 'libBehaviourTree/Control.os', '''public object ReactiveFallback extends Fallback {
''', '''public object ReactiveFallback extends Fallback {
    private bool isPending( NodeStatus status ) const {
        return status == NodeStatus.Waiting || status == NodeStatus.Running;
    }

'''))
edit('h-bt-print',
     (L + 'libBehaviourTree/Control.os', '''        for ( int idx = 0; idx < Childs.size(); idx++ ) {
            var child = Childs.at( idx );

            child.print();
        }
''', '''        int idx = 0;
        while ( idx < Childs.size() ) {
            Childs.at( idx ).print();
            idx++;
        }
'''))
edit('h-json-consume',
     (L + 'libJson/Tokenizer.os', '''		string c;
		string result;

		while ( length > 0 ) {
			length--;
			mCharIterator.next();
			mColumn++;

			c = mCharIterator.current();
			result += c;

			if ( c == LINEBREAK ) {
				mColumn = 1;
				mLine++;
			}
		}

		return result;
''', '''		string result;

		for ( int idx = 0; idx < length; idx++ ) {
			mCharIterator.next();

			string c = mCharIterator.current();
			if ( c == LINEBREAK ) {
				mLine++;
				mColumn = 1;
			}
			else {
				mColumn++;
			}

			result += c;
		}

		return result;
'''))
edit('h-json-id',
     (L + 'libJson/Tokenizer.os', '''		foreach ( Token token : RESERVED_WORDS ) {
			if ( token == toLower( result ) ) {
				return new Token( token.type, token.value, new Position( mLine, column ) );
			}
		}

		return new Token( TokenType.IDENTIFIER, result, new Position( mLine, column ) );
''', '''		var position = new Position( mLine, column );
		string lower = toLower( result );

		foreach ( Token token : RESERVED_WORDS ) {
			if ( token == lower ) {
				return new Token( token.type, token.value, position );
			}
		}

		return new Token( TokenType.IDENTIFIER, result, position );
'''))
edit('h-json-digit',
     (L + 'libJson/Tokenizer.os', '''		string result;

		while ( isDigit( peek() ) ) {
			result += consume();
		}

		return new Token( TokenType.NUMBER, result, getCurrentPos() );
''', '''		string digits = "";

		while ( true ) {
			if ( !isDigit( peek() ) ) {
				break;
			}

			digits = digits + consume();
		}

		return new Token( TokenType.NUMBER, digits, getCurrentPos() );
'''))
edit('h-json-readstring',
     (L + 'libJson/Tokenizer.os', '''		string ch = consume();		// consume "
		string value;
		while ( /*ch != "\\\\" &&*/ ( ch = mCharIterator.peek( 1 ) ) != "\\"" ) {
			if ( ch == "\\\\" ) {
				ch = consume();
			}

			value += consume();
		}
''', '''		string value;

		consume();			// consume "

		string ch = mCharIterator.peek( 1 );
		while ( ch != "\\"" ) {
			if ( ch == "\\\\" ) {
				consume();
			}

			value += consume();
			ch = mCharIterator.peek( 1 );
		}
'''))
edit('h-csv-comparator',
     (L + 'csvDB/QueryExecutor.os', '''		switch ( token.mType ) {
			case TokenType.EQUAL:		{ return true; }
			case TokenType.GREATER:		{ return true; }
			case TokenType.GREATER_EQUAL:	{ return true; }
			case TokenType.LESS:		{ return true; }
			case TokenType.LESS_EQUAL:	{ return true; }
			case TokenType.UNEQUAL:		{ return true; }
			default:			{ return false; }
		}

		return false;
''', '''		return token.mType == TokenType.EQUAL || token.mType == TokenType.UNEQUAL
		    || token.mType == TokenType.GREATER || token.mType == TokenType.GREATER_EQUAL
		    || token.mType == TokenType.LESS || token.mType == TokenType.LESS_EQUAL;
'''))
edit('h-csv-columns',
     (L + 'csvDB/QueryExecutor.os', '''                var colIdx = header.getIdx( column );
                if ( colIdx == -1 ) {
                    colIdx = header.getIdx( "\\"" + column + "\\"" );
                }

                columnIndices.push_back( colIdx );
''', '''                columnIndices.push_back( findColumn( header, column ) );
'''), (L + 'csvDB/QueryExecutor.os', '''	private Token current() const {
''', '''	private int findColumn( Row header const, string column ) const {
		var colIdx = header.getIdx( column );
		if ( colIdx == -1 ) {
			colIdx = header.getIdx( "\\"" + column + "\\"" );
		}

		return colIdx;
	}

	private Token current() const {
'''))
edit('h-csv-row',
     (L + 'csvDB/QueryExecutor.os', '''                var columnID = columnIndices[ colIdx ];
                if ( columnID == -1 ) {
                    result += " | ";
                    continue;
                }

                var value = row[ columnID ];

                // filter data
                // IMPLEMENT ME

                result += " | " + value;
''', '''                var columnID = columnIndices[ colIdx ];

                if ( columnID != -1 ) {
                    var value = row[ columnID ];

                    result += " | " + value;
                }
                else {
                    result += " | ";
                }
'''))
edit('h-csv-limit',
     (L + 'csvDB/QueryExecutor.os', '''            limit = cast<int>( current().mValue ) + 1;  // add 1 for headers
''', '''            limit = cast<int>( current().mValue );
            limit++;  // add 1 for headers
'''))
edit('h-sud-safe',
     (L + 'SudokuSolver/Board.os', '''		return	!isUsedInBox( x, y, value ) &&
				!isUsedInLine( y, value ) &&
				!isUsedInRow( x, value );
''', '''		if ( isUsedInBox( x, y, value ) ) {
			return false;
		}

		return !( isUsedInLine( y, value ) || isUsedInRow( x, value ) );
'''))
edit('h-sud-getcell',
     (L + 'SudokuSolver/Board.os', '''		foreach ( int x : 1..SizeX * Repeat ) {
			var cell const = Cells.get( cast<string>( x ) + "," + cast<string>( y ) );

			if ( /*cell.Y != y &&*/ cell.Value == value ) {
				return true;
			}
		}
''', '''		foreach ( int x : 1..SizeX * Repeat ) {
			if ( getCell( x, y ).Value == value ) {
				return true;
			}
		}
'''))
edit('h-sud-key',
     (L + 'SudokuSolver/Board.os', '''		var cell = Cells.get( cast<string>( x ) + "," + cast<string>( y ) );
		cell.Value = value;

		Solved = false;
''', '''		Solved = false;

		string key = cast<string>( x ) + "," + cast<string>( y );

		var cell = Cells.get( key );
		cell.Value = value;
'''))
edit('h-sud-validate',
     (L + 'SudokuSolver/Board.os', '''		if ( validate ) {
			if( !isSafe(x, y, value ) ) {
				throw "Invalid value " + value + " in (" + x + " / " + y + ")";
			}
		}
''', '''		if ( validate && !isSafe(x, y, value) ) {
			throw "Invalid value " + value + " in (" + x + " / " + y + ")";
		}
'''))
edit('h-sud-fill',
     (L + 'SudokuSolver/Board.os', '''						cell.PossibleValues.clear();

						foreach ( int value : 1..SizeX * Repeat ) {
							if ( isSafe( x, y, value ) ) {
								cell.PossibleValues.push_back( value );
							}
						}

						missingValues++;
''', '''						fillPossibleValues( cell, x, y );

						missingValues++;
'''), (L + 'SudokuSolver/Board.os', '''	public Cell findEmptyCell() const {
''', '''	private void fillPossibleValues( Cell cell, int x, int y ) const {
		cell.PossibleValues.clear();

		foreach ( int value : 1..SizeX * Repeat ) {
			if ( isSafe( x, y, value ) ) {
				cell.PossibleValues.push_back( value );
			}
		}
	}

	public Cell findEmptyCell() const {
'''))
edit('h-alp-dispatch',
     (L + 'Alpen/OrderDispatcher/OrderDispatcher.os', '''            var order = data.orders.first();
            var shuttle = data.shuttles.first();

            order.shuttleID = shuttle.shuttleID;
            order.stateID = OrderState.Assigned;
            mStorage.Update(order);

            shuttle.stateID = ShuttleState.OCCUPIED;
            mStorage.Update(shuttle);

            notifyShuttleManager(MSG_WORK_RECEIVED);
''', '''            assign( data.orders.first(), data.shuttles.first() );
'''), (L + 'Alpen/OrderDispatcher/OrderDispatcher.os', '''    public void loadOrders() modify throws {
''', '''    private void assign( Order order, Shuttle shuttle ) modify {
        order.stateID = OrderState.Assigned;
        order.shuttleID = shuttle.shuttleID;
        mStorage.Update(order);

        shuttle.stateID = ShuttleState.OCCUPIED;
        mStorage.Update(shuttle);

        notifyShuttleManager(MSG_WORK_RECEIVED);
    }

    public void loadOrders() modify throws {
'''))
edit('h-alp-unoccupied',
     (L + 'Alpen/OrderDispatcher/OrderDispatcher.os', '''            if ( shuttle.hasWork() ) {
                continue;
            }

            if ( shuttle.position != PARKINGPOSITION ) {
                sendToParkingSpot(shuttle);
            }
''', '''            if ( !shuttle.hasWork() && shuttle.position != PARKINGPOSITION ) {
                sendToParkingSpot(shuttle);
            }
'''))
edit('h-alp-charge',
     (L + 'Alpen/OrderDispatcher/OrderDispatcher.os', '''        if ( message ) {
            if ( message.message == "CHARGE" ) {
                ChargeBatteries();
            }
        }
''', '''        if ( message && message.message == "CHARGE" ) {
            ChargeBatteries();
        }
'''))
edit('h-alp-steps',
     (L + 'Alpen/OrderDispatcher/OrderDispatcher.os', '''        mDispatchSteps.push_back( cast<IDispatchStep>( new FilterDispatchableShuttles() ) );
        mDispatchSteps.push_back( cast<IDispatchStep>( new SortShuttlesByBatteryLevel() ) );
''', '''        var first = new FilterDispatchableShuttles();
        mDispatchSteps.push_back( cast<IDispatchStep>( first ) );

        var second = new SortShuttlesByBatteryLevel();
        mDispatchSteps.push_back( cast<IDispatchStep>( second ) );
'''))

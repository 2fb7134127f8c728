"""More edits: the library written in slang."""
from refactorings import edit
L = 'Projects/Library/'
SC = L + 'System/Collections/'

edit('os-list-erase-helper',
     (SC + 'List.os', '''	public void erase( int index ) modify throws {
		if ( index < 0 || index >= mSize ) {
			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
		}
''', '''	private void checkIndex( int index ) const throws {
		if ( index < 0 || index >= mSize ) {
			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
		}
	}

	public void erase( int index ) modify throws {
		checkIndex( index );
'''))
edit('os-list-at-while',
     (SC + 'List.os', '''		CollectionItem<T> item = mFirst;
		for ( int i = 0; i < index; i++ ) {
			item = item.next;
		}

		return item.value;''', '''		var item = mFirst;
		int i = 0;
		while ( i < index ) {
			item = item.next;
			i++;
		}

		return item.value;'''))
edit('os-list-item-helper',
     (SC + 'List.os', '''		CollectionItem<T> item = mFirst;
		for ( int i = 0; i < index; i++ ) {
			item = item.next;
		}

		return item.value;
	}
''', '''		return getItem( index ).value;
	}

	private CollectionItem<T> getItem( int index ) const {
		var item = mFirst;
		for ( int i = 0; i < index; i++ ) {
			item = item.next;
		}

		return item;
	}
'''))
edit('os-stack-peek-order',
     (SC + 'Stack.os', '''		mFirst = CollectionItem<T> null;
		mLast = CollectionItem<T> null;
		mSize = 0;
	}''', '''		mSize = 0;
		mLast = CollectionItem<T> null;
		mFirst = CollectionItem<T> null;
	}'''),
     (SC + 'Stack.os', '''		if ( mSize == 0 ) {			// special handling for 1st item
			mFirst = item;
		}
		else {						// generic handling
			mLast.next = item;
		}
''', '''		if ( mSize != 0 ) {
			mLast.next = item;
		}
		else {
			mFirst = item;
		}
'''))
edit('os-stack-copy-order',
     (SC + 'Stack.os', '''		result.mFirst = mFirst;
		result.mLast = mLast;
		result.mSize = mSize;
''', '''		result.mSize = mSize;
		result.mLast = mLast;
		result.mFirst = mFirst;
'''),
     (SC + 'Stack.os', '''	public bool empty() const {
		return mSize == 0;
	}''', '''	public bool empty() const {
		return !mSize;
	}'''))
edit('os-stack-indexof-while',
     (SC + 'Stack.os', '''		var item = mFirst;

		for ( int i = 0; i < mSize; i++ ) {
			if ( item.value == value ) {
				return i;
			}

			item = item.next;
		}

		return -1;''', '''		int position = 0;
		var current = mFirst;

		while ( position < mSize ) {
			if ( current.value == value ) {
				return position;
			}

			current = current.next;
			position++;
		}

		return -1;'''))
edit('os-queue-peek-local',
     (SC + 'Queue.os', '''		var item = mItems.at( 0 );

		mItems.pop_front();

		return item;''', '''		T front = mItems.at( 0 );
		mItems.pop_front();
		return front;'''),
     (SC + 'Queue.os', '''		if ( mItems.size() <= 0 ) {
			throw''', '''		if ( mItems.size() < 1 ) {
			throw'''))
edit('os-range-locals',
     (SC + 'Range.os', '''		if ( index < 0 || index * mStep > mEnd - mStart ) {
			throw new OutOfBoundsException( "index (" + index + ") is out of bounds" );
		}

		return mStart + index * mStep;''', '''		int offset = index * mStep;

		if ( index < 0 || offset > mEnd - mStart ) {
			throw new OutOfBoundsException( "index (" + index + ") is out of bounds" );
		}

		return mStart + offset;'''))
edit('os-map-helper',
     (SC + 'Map.os', '''		return ( Pair<K, V> mItems.first() ).second;''', '''		var pair = Pair<K, V> mItems.first();

		return pair.second;'''))
edit('os-set-insert-nested',
     (SC + 'Set.os', '''			if ( !item.next ) {			// inserted in last position
				mLast = item;
			}
''', '''			bool isLast = !item.next;
			if ( isLast ) {
				mLast = item;
			}
'''))
edit('os-iterator-next-ternary',
     (SC + 'DoubleLinkedIterator.os', '''		if ( !mCurrentItem ) {
			mCurrentItem = mFirstItem;
		}
		else {
			mCurrentItem = mCurrentItem.next;
		}
''', '''		if ( mCurrentItem ) {
			mCurrentItem = mCurrentItem.next;
		}
		else {
			mCurrentItem = mFirstItem;
		}
'''))
edit('os-rai-local',
     (SC + 'RandomAccessIterator.os', '''		return (mCurrentIndex + 1) < mCollection.size();''', '''		int nextIndex = mCurrentIndex + 1;

		return nextIndex < mCollection.size();'''))
edit('os-string-update-helper',
     (L + 'System/String.os', '''	public bool Replace( string oldStr, string newStr ) modify {
		int position = strfind( mValue, oldStr, 0 );

		if ( position >= 0 ) {
			string tmp = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );

			// update members
			mValue = tmp;
			mSize = strlen( mValue );

			return true;
		}

		return false;
	}
''', '''	public bool Replace( string oldStr, string newStr ) modify {
		int position = strfind( mValue, oldStr, 0 );

		if ( position < 0 ) {
			return false;
		}

		set( substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) ) );

		return true;
	}

	private void set( string value ) modify {
		mValue = value;
		mSize = strlen( mValue );
	}
'''))
edit('os-string-lastindex-for',
     (L + 'System/String.os', '''		int index = -1;
		int index2;

		while ( ( index2 = IndexOf( str, index + 1 ) ) != -1 ) {
			index = index2;
		}

		return index;''', '''		int last = -1;
		int found = IndexOf( str, 0 );

		while ( found != -1 ) {
			last = found;
			found = IndexOf( str, last + 1 );
		}

		return last;'''))
edit('os-string-trim',
     (L + 'System/String.os', '''		mValue = strltrim( mValue );
		mValue = strrtrim( mValue );
		mSize = strlen( mValue );

		return mValue;''', '''		mValue = strrtrim( strltrim( mValue ) );
		mSize = strlen( mValue );

		return mValue;'''))
edit('os-string-contains',
     (L + 'System/String.os', '''		return strfind( mValue, value, 0 ) >= 0;''', '''		int position = strfind( mValue, value, 0 );
		return position >= 0;'''),
     (L + 'System/String.os', '''		if ( strlen( str ) > strlen( mValue ) ) {
			return false;
		}

		return str == substr( mValue, strlen( mValue ) - strlen( str ) );''', '''		int offset = strlen( mValue ) - strlen( str );

		if ( offset < 0 ) {
			return false;
		}

		return str == substr( mValue, offset );'''))
edit('os-file-open-order',
     (L + 'System/IO/File.os', '''			mAccessMode = mode;
			mFilename   = filename;
			mHandle     = fopen( mFilename, mAccessMode );

			fseek( mHandle, 0, SEEK_END );
			mSize = ftell( mHandle );
			fseek( mHandle, 0, SEEK_SET );

			return mHandle != 0;
''', '''			mFilename   = filename;
			mAccessMode = mode;
			mHandle     = fopen( filename, mode );

			determineSize();

			return isOpen();
'''),
     (L + 'System/IO/File.os', '''		public bool readBool() const {''', '''		private void determineSize() modify {
			fseek( mHandle, 0, SEEK_END );
			mSize = ftell( mHandle );
			fseek( mHandle, 0, SEEK_SET );
		}

		public bool readBool() const {'''))
edit('os-file-mode-ifs',
     (L + 'System/IO/File.os', '''		switch ( mode ) {
			case "a" : { return System.IO.File.AccessMode.Append; }
			case "a+": { return System.IO.File.AccessMode.AppendUpdate; }
''', '''		if ( mode == "a" ) {
			return System.IO.File.AccessMode.Append;
		}

		switch ( mode ) {
			case "a+": { return System.IO.File.AccessMode.AppendUpdate; }
'''))
edit('os-client-helper',
     (L + 'System/Network/ClientSocket.os', '''	public void Write(bool data) throws {
		if ( !mIsConnected ) {
			throw new Exception("not connected");
		}

		writeb(mSocket, data);
	}
''', '''	private void requireConnection() const throws {
		if ( !mIsConnected ) {
			throw new Exception("not connected");
		}
	}

	public void Write(bool data) throws {
		requireConnection();

		writeb(mSocket, data);
	}
'''))
edit('os-math-for',
     (L + 'System/Math/Functions.os', '''		int result = 1;

		while ( exp > 0 ) {
			result *= value;
			exp -= 1;
		}

		return result;''', '''		int result = 1;

		for ( int remaining = exp; remaining > 0; remaining-- ) {
			result = result * value;
		}

		return result;'''))
edit('os-semver-flat',
     (L + 'libSemVer/SemVer.os', '''		if ( Major == other.Major ) {
			if ( Minor == other.Minor ) {
				if ( Bugfix == other.Bugfix ) {
					if ( Label == other.Label ) {
						return BuildNumber < other.BuildNumber;
					}
					else if ( Label && other.Label ) {
						return Label < other.Label;
					}

					return Label && !other.Label;
				}

				return Bugfix < other.Bugfix;
			}

			return Minor < other.Minor;
		}

		return Major < other.Major;''', '''		if ( Major != other.Major ) {
			return Major < other.Major;
		}

		if ( Minor != other.Minor ) {
			return Minor < other.Minor;
		}

		if ( Bugfix != other.Bugfix ) {
			return Bugfix < other.Bugfix;
		}

		if ( Label == other.Label ) {
			return BuildNumber < other.BuildNumber;
		}

		if ( Label && other.Label ) {
			return Label < other.Label;
		}

		return Label && !other.Label;'''))
edit('os-json-require',
     (L + 'libJson/Reader.os', '''        if ( t.current().type != type ) {
            throw "required '" + TokenToString( type ) + "' but got '" + TokenToString( t.current().type ) + "' at " + t.current().position.toString();
        }
''', '''        var token = t.current();

        if ( token.type != type ) {
            throw "required '" + TokenToString( type ) + "' but got '" + TokenToString( token.type ) + "' at " + token.position.toString();
        }
'''))
edit('os-json-tokenizer-ifs',
     (L + 'libJson/Tokenizer.os', '''				case c == ":": {
					return new Token( TokenType.COLON, consume(), new Position( mLine, mColumn ) );
				}
				case c == ",": {
					return new Token( TokenType.COMMA, consume(), new Position( mLine, mColumn ) );
				}
''', '''				case c == ",": {
					return new Token( TokenType.COMMA, consume(), new Position( mLine, mColumn ) );
				}
				case c == ":": {
					return new Token( TokenType.COLON, consume(), new Position( mLine, mColumn ) );
				}
'''),
     (L + 'libJson/Tokenizer.os', '''		while ( length > 0 ) {
			length--;
			mCharIterator.next();
			mColumn++;

			c = mCharIterator.current();
''', '''		for ( ; length > 0; length-- ) {
			mColumn++;
			mCharIterator.next();

			c = mCharIterator.current();
'''))
edit('os-json-value-string',
     (L + 'libJson/Value.os', '''		if ( mValueType == JsonValueType.Null ) {
			return "null";
		}

		if ( mValueType != JsonValueType.Array && mValueType != JsonValueType.Object ) {
			return cast<string>( mValue );
		}

		return mObjectValue.asString();''', '''		if ( mValueType == JsonValueType.Null ) {
			return "null";
		}

		if ( isArray() || isObject() ) {
			return mObjectValue.asString();
		}

		return cast<string>( mValue );'''))
edit('os-json-writer-loop',
     (L + 'libJson/Object.os', '''		string members;

		foreach ( Pair<string, JsonValue> p : mMembers ) {
			members += ( members ? ", " : "" ) + "\\"" + p.first + "\\": " + p.second.toString();
		}
''', '''		string members;

		foreach ( Pair<string, JsonValue> p : mMembers ) {
			if ( members ) {
				members += ", ";
			}

			members += "\\"" + p.first + "\\": " + p.second.toString();
		}
'''))
edit('os-builder-separator',
     (L + 'libJsonBuilder/StyledBuilder.os', '''	public void addElement(string key, bool value) modify {
		if ( !mIsFirstElement ) {
			mValue += ", " + ascii(10);
		}

		indent();

		mIsFirstElement = false;
''', '''	private void separate() modify {
		if ( !mIsFirstElement ) {
			mValue += ", " + ascii(10);
		}

		indent();
	}

	public void addElement(string key, bool value) modify {
		separate();

		mIsFirstElement = false;
'''),
     (L + 'libJsonBuilder/StyledBuilder.os', '''		int c;
		while ( c < mIndentationLevel ) {
			mValue += INDENTATION;
			c++;
		}''', '''		for ( int c = 0; c < mIndentationLevel; c++ ) {
			mValue += INDENTATION;
		}'''))
edit('os-param-find-helper',
     (L + 'libParam/ParameterHandler.os', '''		int idx;

		foreach ( Parameter p : mParameters ) {
			if ( p == key ) {
				mParameters.erase( idx );
				return true;
			}

			idx++;
		}

		return false;''', '''		int position = 0;

		foreach ( Parameter param : mParameters ) {
			if ( param == key ) {
				mParameters.erase( position );
				return true;
			}

			position += 1;
		}

		return false;'''))
edit('os-tree-sequence',
     (L + 'libBehaviourTree/Control.os', '''            if ( childStatus == NodeStatus.Success ) {
                print( "Sequence: Success" );
                Index++;
            }
            else if ( childStatus == NodeStatus.Running || childStatus == NodeStatus.Waiting ) {
                print( "Sequence: Running or Waiting" );
                return childStatus;
            }
            else if ( childStatus == NodeStatus.Failure ) {
                print( "Sequence: Failure" );
                Index = 0;
                return NodeStatus.Failure;
            }
''', '''            if ( childStatus == NodeStatus.Running || childStatus == NodeStatus.Waiting ) {
                print( "Sequence: Running or Waiting" );
                return childStatus;
            }

            if ( childStatus == NodeStatus.Failure ) {
                print( "Sequence: Failure" );
                Index = 0;
                return childStatus;
            }

            if ( childStatus == NodeStatus.Success ) {
                print( "Sequence: Success" );
                Index++;
            }
'''))
edit('os-csv-row-loop',
     (L + 'libCSVReader/CSVReader.os', '''                    var columnIt = new StringIterator( line, Settings.SEPARATOR );
                    while ( columnIt.hasNext() ) {
                        row.push_back( columnIt.next() );
                    }
                    line = "";
''', '''                    for ( var it = new StringIterator( line, Settings.SEPARATOR ); it.hasNext(); ) {
                        row.push_back( it.next() );
                    }
                    line = "";
'''))
edit('os-csv-row-helper',
     (L + 'libCSVReader/CSVReader.os', '''                {   // parse row
                    var row = new Row();

                    var columnIt = new StringIterator( line, Settings.SEPARATOR );
                    while ( columnIt.hasNext() ) {
                        row.push_back( columnIt.next() );
                    }
                    line = "";

                    mData.push_back( row );
                }
''', '''                mData.push_back( parseRow( line ) );
                line = "";
'''),
     (L + 'libCSVReader/CSVReader.os', '''    private bool mColumnTitles;
    private Vector''', '''    private Row parseRow( string line ) const {
        var row = new Row();

        var columnIt = new StringIterator( line, Settings.SEPARATOR );
        while ( columnIt.hasNext() ) {
            row.push_back( columnIt.next() );
        }

        return row;
    }

    private bool mColumnTitles;
    private Vector'''))
edit('os-noop',
     (SC + 'Vector.os', '''	public T at( int index ) const throws {
''', '''	public T at( int index ) const throws {
		int unused = 0;
		unused++;
'''),
     (L + 'System/Integer.os', '''	public Integer operator+(int other) const {
''', '''	public Integer operator+(int other) const {
		;
'''))

"""Edits that keep the behaviour: package manager, tools and debugger."""

from refactorings import edit

VER = 'Projects/Utils/SemVer/Version.cpp'
STR = 'Projects/Utils/Tools/Strings.cpp'
FIL = 'Projects/Utils/Tools/Files.cpp'
TOK = 'Projects/Utils/Parsers/Tokenizer.cpp'
LIN = 'Projects/Utils/Parsers/LineParser.cpp'
LOG = 'Projects/Utils/Logger/Logger.cpp'
PKG = 'Projects/slang-pkg/Application/Application.cpp'
MOD = 'Projects/slang-pkg/Common/Module.cpp'
REP = 'Projects/slang-pkg/Common/Repository.cpp'
RC = 'Projects/slang-dbg/VSCodeRemoteClient/RemoteClient.cpp'

edit('i-ver-less-flat', (VER, '''	if ( mMajor == other.mMajor ) {
		if ( mMinor == other.mMinor ) {
			if ( mBugfix == other.mBugfix ) {
				// Semantic Versioning Specification rule #9
				if ( mLabel == other.mLabel ) {
					return mBuildMetadata < other.mBuildMetadata;
				}

				// a version without label comes after all versions with a label
				if ( mLabel.empty() || other.mLabel.empty() ) {
					return !mLabel.empty();
				}

				return mLabel < other.mLabel;
			}

			return mBugfix < other.mBugfix;
		}

		return mMinor < other.mMinor;
	}

	return mMajor < other.mMajor;
''', '''	if ( mMajor != other.mMajor ) {
		return mMajor < other.mMajor;
	}
	if ( mMinor != other.mMinor ) {
		return mMinor < other.mMinor;
	}
	if ( mBugfix != other.mBugfix ) {
		return mBugfix < other.mBugfix;
	}

	// Semantic Versioning Specification rule #9
	if ( mLabel != other.mLabel ) {
		if ( mLabel.empty() ) {
			return false;
		}
		if ( other.mLabel.empty() ) {
			return true;
		}

		return mLabel < other.mLabel;
	}

	return mBuildMetadata < other.mBuildMetadata;
'''))

edit('i-ver-notequal', (VER, '''	return mMajor         != other.mMajor
	    || mMinor         != other.mMinor
	    || mBugfix        != other.mBugfix
	    || mLabel         != other.mLabel
	    || mBuildMetadata != other.mBuildMetadata;
''', '''	return !operator==( other );
'''))

edit('i-ver-parse', (VER, '''	mIsValid = false;

	if ( version.empty() ) {
		return;
	}

	std::string bugfix;
	std::string buildMetadata;
	std::string label;
	std::string major;
	std::string minor;
	// std::string tmp;
''', '''	if ( version.empty() ) {
		mIsValid = false;
		return;
	}

	std::string major;
	std::string minor;
	std::string bugfix;
	std::string label;
	std::string buildMetadata;
'''), (VER, '''	mBugfix        = static_cast<int32_t>( Utils::Tools::stringToInt( bugfix ) );
	mBuildMetadata = buildMetadata;
	mLabel         = label;
	mMajor         = static_cast<int32_t>( Utils::Tools::stringToInt( major ) );
	mMinor         = static_cast<int32_t>( Utils::Tools::stringToInt( minor ) );

	mIsValid = mMajor != 0 || mMinor != 0 || mBugfix != 0 || !mLabel.empty() || !mBuildMetadata.empty();
''', '''	mMajor         = static_cast<int32_t>( Utils::Tools::stringToInt( major ) );
	mMinor         = static_cast<int32_t>( Utils::Tools::stringToInt( minor ) );
	mBugfix        = static_cast<int32_t>( Utils::Tools::stringToInt( bugfix ) );
	mLabel         = label;
	mBuildMetadata = buildMetadata;

	const bool isZero = mMajor == 0 && mMinor == 0 && mBugfix == 0;

	mIsValid = !( isZero && mLabel.empty() && mBuildMetadata.empty() );
'''))

edit('i-ver-tostring', (VER, '''	return Utils::Tools::toString( mMajor ) + "." +
	       Utils::Tools::toString( mMinor ) + "." +
	       Utils::Tools::toString( mBugfix ) +
	       ( !mLabel.empty() ? "-" + mLabel : "" ) +
	       ( !mBuildMetadata.empty() ? "+" + mBuildMetadata : "" );
''', '''	std::string result = Utils::Tools::toString( mMajor );
	result += "." + Utils::Tools::toString( mMinor );
	result += "." + Utils::Tools::toString( mBugfix );

	if ( !mLabel.empty() ) {
		result += "-" + mLabel;
	}
	if ( !mBuildMetadata.empty() ) {
		result += "+" + mBuildMetadata;
	}

	return result;
'''))

edit('i-str-split', (STR, '''	c = "";

	auto pos = str.find_first_of('.');

	p = str.substr(0, pos);
	if ( p.size() != str.size() ) {
		c = str.substr(pos + 1, str.size());
	}
''', '''	const auto separator = str.find_first_of('.');

	p = str.substr(0, separator);

	if ( p.size() == str.size() ) {
		c = "";
		return;
	}

	c = str.substr(separator + 1, str.size());
'''))

edit('i-str-splitby', (STR, '''	if ( p.size() != str.size() ) {
		c = str.substr(pos + 1, str.size() - pos - 1);
	}
	else {
		c = "";
	}
''', '''	c = p.size() == str.size() ? std::string() : str.substr(pos + 1, str.size() - pos - 1);
'''))

edit('i-str-extract', (STR, '''    if ( source.front() == DOUBLE_QUOTE ) {
        return stripQuotes( source, DOUBLE_QUOTE );
    }
    if ( source.front() == SINGLE_QUOTE ) {
        return stripQuotes( source, SINGLE_QUOTE );
    }

    return "";
''', '''    const char quote = source.front();

    if ( quote != DOUBLE_QUOTE && quote != SINGLE_QUOTE ) {
        return "";
    }

    return stripQuotes( source, quote );
'''))

edit('i-str-bool', (STR, '''    return !normalizedStr.empty() &&
           normalizedStr != NEWLINE &&
           normalizedStr != FALSE_VALUE;
''', '''    if ( normalizedStr.empty() || normalizedStr == NEWLINE ) {
        return false;
    }

    return normalizedStr != FALSE_VALUE;
'''))

edit('i-str-comparei', (STR, '''    if ( s1.size() != s2.size() ) {
        return false;
    }

    return std::equal( s1.begin(), s1.end(), s2.begin(),
        [](char a, char b) { return ::toupper( a ) == ::toupper( b ); } );
''', '''    return s1.size() == s2.size()
        && std::equal( s1.begin(), s1.end(), s2.begin(),
               []( char lhs, char rhs ) { return ::toupper( lhs ) == ::toupper( rhs ); } );
'''))

edit('i-fil-ext', (FIL, '''    auto separatorPos = filename.find_last_of( '.' );
    if ( separatorPos == std::string::npos ) {
        return "";
    }

    return filename.substr( separatorPos + 1 );
''', '''    const auto dot = filename.find_last_of( '.' );

    return dot != std::string::npos ? filename.substr( dot + 1 ) : "";
'''))

edit('i-fil-helper', (FIL, '''std::string ExtractFilename(const std::string& filename)
{
    if ( filename.empty() ) {
        return filename;
    }

    auto lastSeparatorPos = filename.find_last_of(  "\\\\/" );
    if ( lastSeparatorPos == std::string::npos ) {
        return filename;
    }

    return filename.substr( lastSeparatorPos + 1 );
}
''', '''static std::string::size_type findLastSeparator(const std::string& name)
{
    return name.find_last_of( "\\\\/" );
}

std::string ExtractFilename(const std::string& filename)
{
    if ( filename.empty() ) {
        return filename;
    }

    const auto position = findLastSeparator( filename );
    if ( position == std::string::npos ) {
        return filename;
    }

    return filename.substr( position + 1 );
}
'''), (FIL, '''    auto lastSeparatorPos = pathname.find_last_of( "\\\\/" );
    if ( lastSeparatorPos == std::string::npos ) {
        return pathname;
    }

    return pathname.substr( 0, lastSeparatorPos + 1 );
''', '''    const auto position = findLastSeparator( pathname );
    if ( position != std::string::npos ) {
        return pathname.substr( 0, position + 1 );
    }

    return pathname;
'''))

edit('i-fil-removeext', (FIL, '''    if ( filename.empty() ) {
        return "";
    }

    auto fileExtension = ExtractFileExt( filename );
    if ( fileExtension.empty() ) {
        return filename;
    }

    return filename.substr( 0, filename.length() - fileExtension.length() - 1 );
''', '''    if ( !filename.empty() ) {
        const auto extensionLength = ExtractFileExt( filename ).length();
        if ( extensionLength > 0 ) {
            return filename.substr( 0, filename.length() - extensionLength - 1 );
        }

        return filename;
    }

    return "";
'''))

edit('i-tok-next', (TOK, '''    const size_t j = mString.find_first_of(delimiters, i);

    if ( std::string::npos == j ) {
        mToken = mString.substr(i);
        mOffset = mString.length();

        return true;
    }

    mToken = mString.substr(i, j - i);
    mOffset = j;

    return true;
''', '''    const size_t j = mString.find_first_of(delimiters, i);

    if ( j != std::string::npos ) {
        mOffset = j;
        mToken = mString.substr(i, j - i);
    }
    else {
        mOffset = mString.length();
        mToken = mString.substr(i);
    }

    return true;
'''))

edit('i-line-parse', (LIN, '''	std::string value;

	while ( t.hasNext() ) {
		if ( !value.empty() ) {
			value += " ";
		}

		value += t.getToken();
	}

	return Value(name, type, value);
''', '''	return Value(name, type, joinRemaining(t));
'''), (LIN, '''Value LineParser::parse(''', '''static std::string joinRemaining(Tokenizer& tokens)
{
	std::string result;

	for ( ; tokens.hasNext(); ) {
		const std::string token = tokens.getToken();

		if ( result.empty() ) {
			result = token;
		}
		else {
			result += " " + token;
		}
	}

	return result;
}

Value LineParser::parse('''))

edit('i-log-guard', (LOG, '''	if ( mLoudness < LoudnessDebug ) {
		return;
	}

	Log( "DEBUG", message, file, line );
''', '''	if ( mLoudness >= LoudnessDebug ) {
		Log( "DEBUG", message, file, line );
	}
'''))

edit('i-log-message', (LOG, '''	if ( !mClassName.empty() ) {
		msg += mClassName;
		if ( !mKey.empty() ) {
			msg += "[" + mKey + "]";
		}
		msg += ": ";
	}
	msg += message;
	msg += "   [" + file + ":" + toString( line ) + "]";

	mContext->write( msg );
''', '''	if ( !mClassName.empty() ) {
		const std::string key = mKey.empty() ? std::string() : "[" + mKey + "]";

		msg += mClassName + key + ": ";
	}

	mContext->write( msg + message + "   [" + file + ":" + toString( line ) + "]" );
'''))

edit('i-pkg-outdated', (PKG, '''    for ( const auto& localModule : local ) {
        for ( const auto& remoteModule : remote ) {
            if ( localModule.mShortName == remoteModule.mShortName && localModule.mVersion < remoteModule.mVersion ) {
                outdatedModules.insert( remoteModule );
            }
        }
    }
''', '''    for ( const auto& installed : local ) {
        for ( const auto& available : remote ) {
            if ( installed.mShortName != available.mShortName ) {
                continue;
            }

            const bool isOutdated = installed.mVersion < available.mVersion;
            if ( isOutdated ) {
                outdatedModules.insert( available );
            }
        }
    }
'''))

edit('i-pkg-restrictions', (PKG, '''        if ( mLocalRestriction.mModule == module.mShortName ) {
            // check minimal version
            if ( mLocalRestriction.mMinVersion.isValid() && module.mVersion < mLocalRestriction.mMinVersion ) {
                return false;
            }
            // check maximum version
            if ( mLocalRestriction.mMaxVersion.isValid() && mLocalRestriction.mMaxVersion < module.mVersion ) {
                return false;
            }
        }
''', '''        if ( mLocalRestriction.mModule != module.mShortName ) {
            continue;
        }

        const bool tooOld = mLocalRestriction.mMinVersion.isValid() && module.mVersion < mLocalRestriction.mMinVersion;
        const bool tooNew = mLocalRestriction.mMaxVersion.isValid() && mLocalRestriction.mMaxVersion < module.mVersion;

        if ( tooOld || tooNew ) {
            return false;
        }
'''))

edit('i-pkg-restrictions-helper', (PKG, '''bool checkRestrictions( const Module& module )
{
    for ( const auto& mLocalRestriction : mSettings.LocalRestrictions ) {
        if ( mLocalRestriction.mModule == module.mShortName ) {
            // check minimal version
            if ( mLocalRestriction.mMinVersion.isValid() && module.mVersion < mLocalRestriction.mMinVersion ) {
                return false;
            }
            // check maximum version
            if ( mLocalRestriction.mMaxVersion.isValid() && mLocalRestriction.mMaxVersion < module.mVersion ) {
                return false;
            }
        }
    }

    return true;
}
''', '''bool isAllowed( const Restriction& restriction, const SemanticVersionNumber& version )
{
    if ( restriction.mMinVersion.isValid() && version < restriction.mMinVersion ) {
        return false;
    }

    return !restriction.mMaxVersion.isValid() || !( restriction.mMaxVersion < version );
}

bool checkRestrictions( const Module& module )
{
    for ( auto it = mSettings.LocalRestrictions.begin(); it != mSettings.LocalRestrictions.end(); ++it ) {
        if ( it->mModule == module.mShortName && !isAllowed( *it, module.mVersion ) ) {
            return false;
        }
    }

    return true;
}
'''))

edit('i-pkg-cleancache', (PKG, '''    for ( StringList::const_iterator it = mDownloadedFiles.begin(); it != mDownloadedFiles.end(); ++it ) {
        execute( "rm " + ( *it ) );
    }
''', '''    for ( const auto& file : mDownloadedFiles ) {
        execute( "rm " + file );
    }
'''))

edit('i-pkg-collect', (PKG, '''    while ( dirEntry ) {
        if ( dirEntry->d_type == DT_DIR ) {
            std::string entry( dirEntry->d_name );

            if ( entry != "." && entry != ".." ) {
                auto filename = "module.json";
                auto path     = mSettings.LibraryFolder + entry + "/";

                if ( Utils::Tools::Files::exists( path + filename ) ) {
                    mLocalRepository.addModule(
                        collectModuleData( path, filename )
                    );
                }
            }
        }

        dirEntry = readdir( dir );
    }
''', '''    for ( ; dirEntry; dirEntry = readdir( dir ) ) {
        if ( dirEntry->d_type != DT_DIR ) {
            continue;
        }

        const std::string entry( dirEntry->d_name );
        if ( entry == "." || entry == ".." ) {
            continue;
        }

        const std::string filename = "module.json";
        const std::string path     = mSettings.LibraryFolder + entry + "/";

        if ( !Utils::Tools::Files::exists( path + filename ) ) {
            continue;
        }

        auto module = collectModuleData( path, filename );
        mLocalRepository.addModule( module );
    }
'''))

edit('i-pkg-contains', (PKG, '''    for ( const auto& it : list ) {
        if ( it == value ) {
            return true;
        }
    }

    return false;
''', '''    return std::find( list.begin(), list.end(), value ) != list.end();
'''))

edit('i-pkg-create', (PKG, '''    if ( params.empty() || params.size() != 1 ) {''',
     '''    if ( params.size() != 1 ) {'''))

edit('i-pkg-createname', (PKG, '''    {   // create version specific module information ( "<module>_<version>.json" )
        std::cout << "Creating module information \\"" << module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json\\"" << std::endl;

        execute( "cp " + path + "/" + filename + " " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" );
    }
    {   // create package ( "<module>_<version>.tar.gz" )
        std::cout << "Creating module package \\"" << module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz\\"" << std::endl;

        execute( "tar --exclude-vcs -cjf " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz " + path );
    }
''', '''    const auto name = module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString();

    // create version specific module information ( "<module>_<version>.json" )
    std::cout << "Creating module information \\"" << name << ".json\\"" << std::endl;
    execute( "cp " + path + "/" + filename + " " + name + ".json" );

    // create package ( "<module>_<version>.tar.gz" )
    std::cout << "Creating module package \\"" << name << ".tar.gz\\"" << std::endl;
    execute( "tar --exclude-vcs -cjf " + name + ".tar.gz " + path );
'''))

edit('i-pkg-library-helper', (PKG, '''    // .slang/cache/modules" folder
    if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_CACHE_MODULES ) ) {
        execute( "mkdir -p " + mSettings.CurrentFolder + CONFIG_CACHE_MODULES );
    }

    // .slang/cache/repositories" folder
    if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES ) ) {
        execute( "mkdir -p " + mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES );
    }
''', '''    ensureFolder( mSettings.CurrentFolder + CONFIG_CACHE_MODULES );
    ensureFolder( mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES );
'''), (PKG, '''void createLocalLibrary()
{
''', '''void ensureFolder( const std::string& folder )
{
    if ( Utils::Tools::Files::exists( folder ) ) {
        return;
    }

    execute( "mkdir -p " + folder );
}

void createLocalLibrary()
{
'''))

edit('i-pkg-library-url', (PKG, '''        Json::Value repository;
        repository[ "authentication" ] = "Bearer";    // user needs to fill in his preferred method of authentication (Basic|Bearer)
        repository[ "authorization" ]  = "<get-your-token-from-https://modules.slang-lang.org>";   // user needs to fill in his authorization token here
        repository[ "name" ]           = REMOTE_REPOSITORY_NAME;
        repository[ "url" ]            = REMOTE_REPOSITORY_URL;
''', '''        Json::Value repository;
        repository[ "name" ]           = REMOTE_REPOSITORY_NAME;
        repository[ "url" ]            = REMOTE_REPOSITORY_URL;
        repository[ "authentication" ] = "Bearer";    // user needs to fill in his preferred method of authentication (Basic|Bearer)
        repository[ "authorization" ]  = "<get-your-token-from-https://modules.slang-lang.org>";   // user needs to fill in his authorization token here
'''))

edit('i-pkg-install-helper', (PKG, '''    for ( const auto& param : params ) {
        std::string moduleName;
        std::string source;
        std::string version;

        Utils::Tools::splitBy( param, VERSION_SEPARATOR, moduleName, version );

        if ( version.empty() ) {
            Module tmpModule;

            if ( mRemoteRepository.getModule( moduleName, tmpModule ) ) {
                source  = tmpModule.mSource;
                version = tmpModule.mVersion.toString();
            }
        }
        else {
            forceVersion = true;
        }

        prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) );
    }
''', '''    for ( const auto& param : params ) {
        const auto requested = resolveRequest( param, forceVersion );

        prepareModuleInstallation( mRemoteRepository.getURL(), requested );
    }
'''), (PKG, '''    for ( const auto& param : params ) {
        std::string moduleName;
        std::string source;
        std::string version;

        Utils::Tools::splitBy( param, VERSION_SEPARATOR, moduleName, version );

        if ( version.empty() ) {
            Module tmpModule;

            if ( mRemoteRepository.getModule( moduleName, tmpModule ) ) {
                source = tmpModule.mSource;
                version = tmpModule.mVersion.toString();
            }
        }
        else {
            forceVersion = true;
        }

        Module missingModule( moduleName, version, source );
''', '''    for ( const auto& param : params ) {
        auto missingModule = resolveRequest( param, forceVersion );
'''), (PKG, '''void install( const StringList& params )
{
''', '''Module resolveRequest( const std::string& param, bool& forceVersion )
{
    std::string moduleName;
    std::string source;
    std::string version;

    Utils::Tools::splitBy( param, VERSION_SEPARATOR, moduleName, version );

    if ( !version.empty() ) {
        forceVersion = true;
    }
    else {
        Module tmpModule;

        if ( mRemoteRepository.getModule( moduleName, tmpModule ) ) {
            version = tmpModule.mVersion.toString();
            source  = tmpModule.mSource;
        }
    }

    return Module( moduleName, version, source );
}

void install( const StringList& params )
{
'''))

edit('i-pkg-install-early', (PKG, '''    if ( allowInstall ) {
        for ( const auto& moduleIt : missing ) {
            Module tmp;

            if ( mLocalRepository.getModule( moduleIt.mShortName, tmp ) ) {
                if ( !forceVersion && !( tmp.mVersion < moduleIt.mVersion ) ) {
                    std::cout << "Same or newer version ( " << tmp.mVersion.toString() << " vs " << moduleIt.mVersion.toString() << " ) of module \\"" << moduleIt.mShortName << "\\" already installed" << std::endl;
                    continue;
                }
            }

            installModule( mRemoteRepository.getURL(), moduleIt.mShortName );
        }
    }
''', '''    if ( !allowInstall ) {
        return;
    }

    for ( const auto& moduleIt : missing ) {
        Module tmp;

        const bool installed = mLocalRepository.getModule( moduleIt.mShortName, tmp );
        if ( installed && !forceVersion && !( tmp.mVersion < moduleIt.mVersion ) ) {
            std::cout << "Same or newer version ( " << tmp.mVersion.toString() << " vs " << moduleIt.mVersion.toString() << " ) of module \\"" << moduleIt.mShortName << "\\" already installed" << std::endl;
        }
        else {
            installModule( mRemoteRepository.getURL(), moduleIt.mShortName );
        }
    }
'''))

edit('i-pkg-target', (PKG, '''    if ( !config.isMember( "target" ) ) {
        std::cerr << "!!! No target entry found in module information" << std::endl;
        return;
    }
    if ( !config[ "target" ].isMember( "type" ) ) {
        std::cerr << "!!! No type entry found in target module information" << std::endl;
        return;
    }

    std::string type = config[ "target" ][ "type" ].asString();
    std::string url;

    if ( type == "external" ) {
        // target is located on a different server
        url = config[ "target" ][ "url" ].asString();
    }
''', '''    if ( !config.isMember( "target" ) ) {
        std::cerr << "!!! No target entry found in module information" << std::endl;
        return;
    }

    auto& target = config[ "target" ];

    if ( !target.isMember( "type" ) ) {
        std::cerr << "!!! No type entry found in target module information" << std::endl;
        return;
    }

    const auto type = target[ "type" ].asString();
    std::string url;

    if ( type == "external" ) {
        // target is located on a different server
        url = target[ "url" ].asString();
    }
'''))

edit('i-pkg-loadrestrictions', (PKG, '''        std::string versionMin;
        if ( restriction.isMember( "version_min" ) ) {
            versionMin = restriction[ "version_min" ].asString();
        }
        std::string versionMax;
        if ( restriction.isMember( "version_max" ) ) {
            versionMax = restriction[ "version_max" ].asString();
        }

        mSettings.LocalRestrictions.insert(
            Restriction( restrictionName, versionMin, versionMax )
        );
''', '''        const std::string versionMin = restriction.isMember( "version_min" ) ? restriction[ "version_min" ].asString() : std::string();
        const std::string versionMax = restriction.isMember( "version_max" ) ? restriction[ "version_max" ].asString() : std::string();

        const Restriction entry( restrictionName, versionMin, versionMax );
        mSettings.LocalRestrictions.insert( entry );
'''))

edit('i-pkg-prepare', (PKG, '''        bool found = false;

        // look up dependency in already installed modules
        for ( const auto& module : localModules ) {
            if ( module.mShortName == dependency.Module && !( module.mVersion < dependency.MinVersion ) ) {
                found = true;
                break;
            }
        }

        if ( !found ) {
            // dependent module is not yet installed
            std::cout << "Need to install dependent module \\"" << dependency.Module << "\\"" << std::endl;

            Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );

            mMissingDependencies.addModule( dependent );

            prepareModuleInstallation( repo, dependent );
        }
''', '''        if ( isInstalled( localModules, dependency ) ) {
            continue;
        }

        // dependent module is not yet installed
        std::cout << "Need to install dependent module \\"" << dependency.Module << "\\"" << std::endl;

        const Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );

        mMissingDependencies.addModule( dependent );

        prepareModuleInstallation( repo, dependent );
'''), (PKG, '''void prepareModuleInstallation( const std::string& repo, const Module& installModule )
{
''', '''bool isInstalled( const Modules& modules, const Dependency& dependency )
{
    for ( const auto& module : modules ) {
        if ( module.mShortName != dependency.Module ) {
            continue;
        }

        const bool tooOld = module.mVersion < dependency.MinVersion;
        if ( !tooOld ) {
            return true;
        }
    }

    return false;
}

void prepareModuleInstallation( const std::string& repo, const Module& installModule )
{
'''))

edit('i-pkg-arch', (PKG, '''    if ( !module.mArchitecture.empty() ) {
        if ( module.mArchitecture != mSettings.Architecture ) {
            std::cerr << "!!! module architecture " << module.mArchitecture << " does not match system architecture" << std::endl;
            exit( ERROR_ARCHITECTURE );
        }
    }
''', '''    const bool anyArchitecture = module.mArchitecture.empty();
    if ( !anyArchitecture && module.mArchitecture != mSettings.Architecture ) {
        std::cerr << "!!! module architecture " << module.mArchitecture << " does not match system architecture" << std::endl;
        exit( ERROR_ARCHITECTURE );
    }
'''))

edit('i-pkg-process', (PKG, '''    auto& restrictions = mSettings.Config[ "restrictions" ];
    auto paramIt       = params.begin();
    auto module        = ( *paramIt );

    // reset restrictions for module
    restrictions.removeMember( module );

    // add new restrictions
    Json::Value value;

    if ( params.size() == 2 ) {
        ++paramIt;

        std::string maxVersion;
        std::string minVersion;
        Utils::Tools::splitBy( *paramIt, VERSION_SEPARATOR, minVersion, maxVersion );
''', '''    auto& restrictions = mSettings.Config[ "restrictions" ];
    auto paramIt       = params.begin();
    const auto module  = *paramIt;

    // reset restrictions for module
    restrictions.removeMember( module );

    if ( params.size() == 2 ) {
        // add new restrictions
        Json::Value value;

        std::string maxVersion;
        std::string minVersion;
        Utils::Tools::splitBy( *( ++paramIt ), VERSION_SEPARATOR, minVersion, maxVersion );
'''))

edit('i-pkg-push', (PKG, '''        if ( result ) {
            std::cerr << "!!! Error " << result << " while uploading module to repository '" << mRemoteRepository.getURL() << "'" << std::endl;
        }
        else {
            result = upload(
                module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz",
                mRemoteRepository.getURL() + UPLOAD_PATH,
                "application/tar+gzip"
            );

            if ( result ) {
                std::cerr << "!!! Error " << result << " while uploading module to repository '" << mRemoteRepository.getURL() << "'" << std::endl;
            }
        }

        if ( !result ) {
            std::cout << "Successfully uploaded module '" << param << "' to repository '" << mRemoteRepository.getURL() << "'" << std::endl;
        }
''', '''        if ( !result ) {
            result = upload(
                module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz",
                mRemoteRepository.getURL() + UPLOAD_PATH,
                "application/tar+gzip"
            );
        }

        if ( result ) {
            std::cerr << "!!! Error " << result << " while uploading module to repository '" << mRemoteRepository.getURL() << "'" << std::endl;
        }
        else {
            std::cout << "Successfully uploaded module '" << param << "' to repository '" << mRemoteRepository.getURL() << "'" << std::endl;
        }
'''))

edit('i-pkg-remove', (PKG, '''        bool found = false;

        for ( const auto& localIt : local ) {
            if ( localIt.mShortName == param ) {
                found = true;

                std::cout << "Removing module \\"" << localIt.mShortName << "\\" from \\"" << localIt.mTarget.Directory << "\\"..." << std::endl;

                execute( CONFIG_SCRIPTS + "removeLinks.sh \\"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\\" \\"" + mSettings.LibraryFolder + "/" + localIt.mShortName + "\\"" );
                execute( "rm -r " + localIt.mTarget.Directory );
            }
        }
''', '''        bool found = false;

        for ( const auto& localIt : local ) {
            if ( localIt.mShortName != param ) {
                continue;
            }

            const auto apps   = mSettings.LibraryFolder + "/" + CONFIG_APPS;
            const auto folder = mSettings.LibraryFolder + "/" + localIt.mShortName;

            std::cout << "Removing module \\"" << localIt.mShortName << "\\" from \\"" << localIt.mTarget.Directory << "\\"..." << std::endl;

            execute( CONFIG_SCRIPTS + "removeLinks.sh \\"" + apps + "\\" \\"" + folder + "\\"" );
            execute( "rm -r " + localIt.mTarget.Directory );

            found = true;
        }
'''))

edit('i-pkg-params', (PKG, '''    for ( int i = 2; i < argc; ++i ) {
        if ( Utils::Tools::StringCompare( argv[ i ], "--force" ) ) {
            mSettings.Force = true;
        }
        else if ( Utils::Tools::StringCompare( argv[ i ], "--skip-dependencies" ) ) {
            mSettings.SkipDependencies = true;
        }
        else if ( Utils::Tools::StringCompare( argv[ i ], "--verbose" ) ) {
            mSettings.Verbose = true;
        }
        else {
            mParameters.emplace_back( argv[ i ] );
        }
    }
''', '''    for ( int i = 2; i < argc; ++i ) {
        const std::string arg = argv[ i ];

        if ( arg == "--verbose" ) {
            mSettings.Verbose = true;
        }
        else if ( arg == "--force" ) {
            mSettings.Force = true;
        }
        else if ( arg == "--skip-dependencies" ) {
            mSettings.SkipDependencies = true;
        }
        else {
            mParameters.push_back( arg );
        }
    }
'''))

edit('i-mod-load', (MOD, '''            auto moduleName  = dependency[ MODULE ].asString();
            auto source      = dependency.isMember( SOURCE )      ? dependency[ SOURCE ].asString()      : "";
            auto version_max = dependency.isMember( VERSION_MAX ) ? dependency[ VERSION_MAX ].asString() : "";
            auto version_min = dependency.isMember( VERSION_MIN ) ? dependency[ VERSION_MIN ].asString() : "";

            mDependencies.insert(
                Dependency( moduleName, version_min, version_max, source )
            );
''', '''            const auto moduleName = dependency[ MODULE ].asString();
            const auto source     = optionalString( dependency, SOURCE );
            const auto versionMax = optionalString( dependency, VERSION_MAX );
            const auto versionMin = optionalString( dependency, VERSION_MIN );

            mDependencies.insert( Dependency( moduleName, versionMin, versionMax, source ) );
'''), (MOD, '''bool Module::loadFromJson( const Json::Value& value )
{
''', '''static std::string optionalString( const Json::Value& value, const std::string& key )
{
    if ( !value.isMember( key ) ) {
        return "";
    }

    return value[ key ].asString();
}

bool Module::loadFromJson( const Json::Value& value )
{
'''))

edit('i-mod-target', (MOD, '''    // short name is the default value for the target directory
    mTarget.Directory = value[ SHORTNAME ].asString();

    if ( value.isMember( TARGET ) ) {
        const auto& target = value[ TARGET ];

        // override directory if present
        if ( target.isMember( DIRECTORY ) ) {
            mTarget.Directory = target[ DIRECTORY ].asString();
        }
''', '''    // short name is the default value for the target directory
    mTarget.Directory = mShortName;

    if ( value.isMember( TARGET ) ) {
        const auto& target = value[ TARGET ];

        // override directory if present
        if ( target.isMember( DIRECTORY ) ) {
            mTarget.Directory = target[ DIRECTORY ].asString();
        }
'''))

edit('i-rep-contains', (REP, '''	for ( const auto& m : mModules ) {
		if ( m.mShortName == module.mShortName ) {
			return true;
		}
	}

	return false;
}

bool Repository::getModule( const std::string& shortName, Module& module ) const
{
''', '''	Module ignored;

	return getModule( module.mShortName, ignored );
}

bool Repository::getModule( const std::string& shortName, Module& module ) const
{
'''))

edit('i-rep-add', (REP, '''	if ( contains( module ) ) {
		// prevent duplicates
		return;
	}

	mModules.insert( module );
''', '''	// prevent duplicates
	if ( !contains( module ) ) {
		mModules.insert( module );
	}
'''))

edit('i-rep-get', (REP, '''	for ( const auto& m : mModules ) {
		if ( m.mShortName == shortName ) {
			module = m;
			return true;
		}
	}

	return false;
}

bool Repository::processIndex''', '''	auto it = mModules.begin();
	while ( it != mModules.end() && it->mShortName != shortName ) {
		++it;
	}

	if ( it == mModules.end() ) {
		return false;
	}

	module = *it;
	return true;
}

bool Repository::processIndex'''))

edit('i-rc-answer', (RC, '''	mDebugger->stepInto();

	mContinue = true;

	VSCodeDebug::Response response(request);
	response.success = true;

	SendMessage(&response);
''', '''	VSCodeDebug::Response response(request);
	response.success = true;

	mContinue = true;
	mDebugger->stepInto();

	SendMessage(&response);
'''))

edit('i-rc-symbol', (RC, '''	do {
		if ( !scope ) {
			return nullptr;
		}

		Utils::Tools::split(name, parent, child);

		if ( !parent.empty() && !child.empty() ) {
			scope = dynamic_cast<Runtime::Object*>(scope->resolve(parent, false, Visibility::Private));
		}
		else {
			return scope->resolve(parent, false, Visibility::Private);
		}

		name = child;
	} while ( !name.empty() );

	return nullptr;
''', '''	while ( scope ) {
		Utils::Tools::split(name, parent, child);

		Symbol* symbol = scope->resolve(parent, false, Visibility::Private);

		if ( parent.empty() || child.empty() ) {
			return symbol;
		}

		scope = dynamic_cast<Runtime::Object*>(symbol);
		name = child;
	}

	return nullptr;
'''))

edit('i-rc-stop', (RC, '''	if ( mVirtualMachine ) {
		delete mVirtualMachine;
		mVirtualMachine = nullptr;
	}
''', '''	delete mVirtualMachine;
	mVirtualMachine = nullptr;
'''))

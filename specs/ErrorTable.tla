------------------------------- MODULE ErrorTable -------------------------------
(* P22.  The declared exceptions: the code of each, and the classes it belongs to.  *)
(* Conditions of the SQL standard and of PostgreSQL (appendix "Error Codes").        *)
(* A group has no code of its own: it gathers conditions of one class of codes.      *)
D(kind, code, name, parents) == [kind |-> kind, code |-> code, name |-> name, parents |-> parents]
Declared == {
  D("error", "", "Error", {"Exception"}),
  D("error", "", "NameError", {"Error"}),
  D("error", "", "TransactionError", {"Error"}),
  D("error", "--000", "DriverError", {"Error"}),
  D("error", "--AUT", "AuthenticationMethodError", {"DriverError", "Disconnection"}),
  D("error", "--CIO", "ColumnError", {"TypeIOError"}),
  D("error", "--OPE", "OperationError", {"DriverError"}),
  D("error", "--PIO", "ParameterError", {"TypeIOError"}),
  D("error", "--SEC", "InsecurityError", {"DriverError", "Disconnection"}),
  D("error", "--TIO", "TypeIOError", {"DriverError"}),
  D("error", "--TOE", "ConnectTimeoutError", {"DriverError", "Disconnection"}),
  D("error", "--cIO", "CompositeError", {"TypeIOError"}),
  D("warning", "01-00", "DriverWarning", {"Warning"}),
  D("warning", "01-CP", "IgnoredClientParameterWarning", {"DriverWarning"}),
  D("warning", "01-TP", "TypeConversionWarning", {"DriverWarning"}),
  D("warning", "01000", "Warning", {}),
  D("warning", "01003", "NullValueEliminatedInSetFunctionWarning", {"Warning"}),
  D("warning", "01004", "StringDataRightTruncationWarning", {"Warning"}),
  D("warning", "01006", "PrivilegeNotRevokedWarning", {"Warning"}),
  D("warning", "01007", "PrivilegeNotGrantedWarning", {"Warning"}),
  D("warning", "01008", "ImplicitZeroBitPaddingWarning", {"Warning"}),
  D("warning", "0100C", "DynamicResultSetsReturnedWarning", {"Warning"}),
  D("warning", "01P01", "DeprecationWarning", {"Warning"}),
  D("warning", "02000", "NoDataWarning", {"Warning"}),
  D("warning", "02001", "NoMoreSetsReturned", {"NoDataWarning"}),
  D("error", "03000", "SQLNotYetCompleteError", {"Error"}),
  D("error", "08000", "ConnectionError", {"Error", "Disconnection"}),
  D("error", "08001", "ClientCannotConnectError", {"ConnectionError"}),
  D("error", "08003", "ConnectionDoesNotExistError", {"ConnectionError"}),
  D("error", "08004", "ConnectionRejectionError", {"ConnectionError"}),
  D("error", "08006", "ConnectionFailureError", {"ConnectionError"}),
  D("error", "08007", "TransactionResolutionUnknownError", {"ConnectionError"}),
  D("error", "08P01", "ProtocolError", {"ConnectionError"}),
  D("error", "09000", "TriggeredActionError", {"Error"}),
  D("error", "0A000", "FeatureError", {"Error"}),
  D("error", "0B000", "TransactionInitiationError", {"TransactionError"}),
  D("error", "0F000", "LocatorError", {"Error"}),
  D("error", "0F001", "LocatorSpecificationError", {"LocatorError"}),
  D("error", "0L000", "GrantorError", {"Error"}),
  D("error", "0LP01", "GrantorOperationError", {"GrantorError"}),
  D("error", "0P000", "RoleSpecificationError", {"Error"}),
  D("error", "20000", "CaseNotFoundError", {"Error"}),
  D("error", "21000", "CardinalityError", {"Error"}),
  D("error", "22000", "DataError", {"Error"}),
  D("error", "22001", "StringRightTruncationError", {"DataError"}),
  D("error", "22002", "NullValueNoIndicatorParameter", {"DataError"}),
  D("error", "22003", "NumericRangeError", {"DataError"}),
  D("error", "22004", "NullValueNotAllowedError", {"DataError"}),
  D("error", "22005", "AssignmentError", {"DataError"}),
  D("error", "22007", "DateTimeFormatError", {"DataError"}),
  D("error", "22008", "DateTimeFieldOverflowError", {"DataError"}),
  D("error", "22009", "TimeZoneDisplacementValueError", {"DataError"}),
  D("error", "2200B", "EscapeCharacterConflictError", {"DataError"}),
  D("error", "2200C", "EscapeCharacterError", {"DataError"}),
  D("error", "2200D", "EscapeOctetError", {"DataError"}),
  D("error", "2200F", "ZeroLengthString", {"DataError"}),
  D("error", "2200G", "SpecificTypeMismatch", {"DataError"}),
  D("error", "2200L", "NotXMLError", {"DataError"}),
  D("error", "2200M", "XMLDocumentError", {"DataError"}),
  D("error", "2200N", "XMLContentError", {"DataError"}),
  D("error", "2200S", "XMLCommentError", {"DataError"}),
  D("error", "2200T", "XMLProcessingInstructionError", {"DataError"}),
  D("error", "22010", "IndicatorParameterValueError", {"DataError"}),
  D("error", "22011", "SubstringError", {"DataError"}),
  D("error", "22012", "ZeroDivisionError", {"DataError"}),
  D("error", "22015", "IntervalFieldOverflowError", {"DataError"}),
  D("error", "22018", "CastCharacterValueError", {"DataError"}),
  D("error", "2201B", "RegularExpressionError", {"DataError"}),
  D("error", "2201E", "LogArgumentError", {"DataError"}),
  D("error", "2201F", "PowerFunctionArgumentError", {"DataError"}),
  D("error", "2201G", "WidthBucketFunctionArgumentError", {"DataError"}),
  D("error", "2201W", "LimitValueError", {"DataError"}),
  D("error", "2201X", "OffsetValueError", {"DataError"}),
  D("error", "22021", "EncodingError", {"DataError"}),
  D("error", "22022", "IndicatorOverflowError", {"DataError"}),
  D("error", "22023", "ParameterValueError", {"DataError"}),
  D("error", "22024", "UnterminatedCStringError", {"DataError"}),
  D("error", "22025", "EscapeSequenceError", {"DataError"}),
  D("error", "22026", "StringDataLengthError", {"DataError"}),
  D("error", "22027", "TrimError", {"DataError"}),
  D("error", "2202E", "ArrayElementError", {"DataError"}),
  D("error", "22P01", "FloatingPointError", {"DataError"}),
  D("error", "22P02", "TextRepresentationError", {"DataError"}),
  D("error", "22P03", "BinaryRepresentationError", {"DataError"}),
  D("error", "22P04", "BadCopyError", {"DataError"}),
  D("error", "22P05", "UntranslatableCharacterError", {"DataError"}),
  D("error", "22P06", "NonstandardUseOfEscapeCharacterError", {"DataError"}),
  D("error", "23000", "ICVError", {"Error"}),
  D("error", "23001", "RestrictError", {"ICVError"}),
  D("error", "23502", "NotNullError", {"ICVError"}),
  D("error", "23503", "ForeignKeyError", {"ICVError"}),
  D("error", "23505", "UniqueError", {"ICVError"}),
  D("error", "23514", "CheckError", {"ICVError"}),
  D("error", "24000", "CursorStateError", {"Error"}),
  D("error", "25000", "ITSError", {"TransactionError"}),
  D("error", "25001", "ActiveTransactionError", {"ITSError"}),
  D("error", "25002", "BranchAlreadyActiveError", {"ITSError"}),
  D("error", "25003", "BadAccessModeForBranchError", {"ITSError"}),
  D("error", "25004", "BadIsolationForBranchError", {"ITSError"}),
  D("error", "25005", "NoActiveTransactionForBranchError", {"ITSError"}),
  D("error", "25006", "ReadOnlyTransactionError", {"ITSError"}),
  D("error", "25007", "SchemaAndDataStatementsError", {"ITSError"}),
  D("error", "25008", "InconsistentCursorIsolationError", {"ITSError"}),
  D("error", "25P01", "NoActiveTransactionError", {"ITSError"}),
  D("error", "25P02", "InFailedTransactionError", {"ITSError"}),
  D("error", "26000", "StatementNameError", {"NameError"}),
  D("error", "27000", "TriggeredDataChangeViolation", {"Error"}),
  D("error", "28000", "AuthenticationSpecificationError", {"Error", "Disconnection"}),
  D("error", "2B000", "DPDSEError", {"Error"}),
  D("error", "2BP01", "DPDSEObjectError", {"DPDSEError"}),
  D("error", "2D000", "TransactionTerminationError", {"TransactionError"}),
  D("error", "2F000", "SREError", {"Error"}),
  D("error", "2F002", "DataModificationProhibitedError", {"SREError"}),
  D("error", "2F003", "StatementProhibitedError", {"SREError"}),
  D("error", "2F004", "ReadingDataProhibitedError", {"SREError"}),
  D("error", "2F005", "FunctionExecutedNoReturnStatementError", {"SREError"}),
  D("error", "34000", "CursorNameError", {"NameError"}),
  D("error", "38000", "EREError", {"Error"}),
  D("error", "38001", "ContainingSQLNotPermittedError", {"EREError"}),
  D("error", "38002", "ModifyingSQLDataNotPermittedError", {"EREError"}),
  D("error", "38003", "ProhibitedSQLStatementError", {"EREError"}),
  D("error", "38004", "ReadingSQLDataNotPermittedError", {"EREError"}),
  D("error", "39000", "ERIEError", {"Error"}),
  D("error", "39001", "InvalidSQLState", {"ERIEError"}),
  D("error", "39004", "NullValueNotAllowed", {"ERIEError"}),
  D("error", "39P01", "TriggerProtocolError", {"ERIEError"}),
  D("error", "39P02", "SRFProtocolError", {"ERIEError"}),
  D("error", "3B000", "SavepointError", {"TransactionError"}),
  D("error", "3B001", "InvalidSavepointSpecificationError", {"SavepointError"}),
  D("error", "3D000", "CatalogNameError", {"NameError"}),
  D("error", "3F000", "SchemaNameError", {"NameError"}),
  D("error", "40000", "TRError", {"TransactionError"}),
  D("error", "40001", "SerializationError", {"TRError"}),
  D("error", "40002", "IntegrityConstraintViolationError", {"TRError"}),
  D("error", "40003", "StatementCompletionUnknownError", {"TRError"}),
  D("error", "40P01", "DeadlockError", {"TRError"}),
  D("error", "", "AmbiguityError", {"SEARVError"}),
  D("error", "", "DefinitionError", {"SEARVError"}),
  D("error", "", "DuplicateError", {"SEARVError"}),
  D("error", "42000", "SEARVError", {"Error"}),
  D("error", "", "TypeError", {"SEARVError"}),
  D("error", "", "UndefinedError", {"SEARVError"}),
  D("error", "42501", "InsufficientPrivilegeError", {"SEARVError"}),
  D("error", "42601", "SyntaxError", {"SEARVError"}),
  D("error", "42602", "SEARVNameError", {"SEARVError"}),
  D("error", "42611", "ColumnDefinitionError", {"DefinitionError"}),
  D("error", "42622", "NameTooLongError", {"SEARVError"}),
  D("error", "42701", "DuplicateColumnError", {"DuplicateError"}),
  D("error", "42702", "AmbiguousColumnError", {"AmbiguityError"}),
  D("error", "42703", "UndefinedColumnError", {"UndefinedError"}),
  D("error", "42704", "UndefinedObjectError", {"UndefinedError"}),
  D("error", "42710", "DuplicateObjectError", {"DuplicateError"}),
  D("error", "42712", "DuplicateAliasError", {"DuplicateError"}),
  D("error", "42723", "DuplicateFunctionError", {"DuplicateError"}),
  D("error", "42725", "AmbiguousFunctionError", {"AmbiguityError"}),
  D("error", "42803", "GroupingError", {"SEARVError"}),
  D("error", "42804", "TypeMismatchError", {"TypeError"}),
  D("error", "42809", "WrongObjectTypeError", {"TypeError"}),
  D("error", "42830", "ForeignKeyCreationError", {"SEARVError"}),
  D("error", "42846", "CoercionError", {"TypeError"}),
  D("error", "42883", "UndefinedFunctionError", {"UndefinedError"}),
  D("error", "42939", "ReservedNameError", {"SEARVError"}),
  D("error", "42P01", "UndefinedTableError", {"UndefinedError"}),
  D("error", "42P02", "UndefinedParameterError", {"UndefinedError"}),
  D("error", "42P03", "DuplicateCursorError", {"DuplicateError"}),
  D("error", "42P04", "DuplicateDatabaseError", {"DuplicateError"}),
  D("error", "42P05", "DuplicatePreparedStatementError", {"DuplicateError"}),
  D("error", "42P06", "DuplicateSchemaError", {"DuplicateError"}),
  D("error", "42P07", "DuplicateTableError", {"DuplicateError"}),
  D("error", "42P08", "AmbiguousParameterError", {"AmbiguityError"}),
  D("error", "42P09", "AmbiguousAliasError", {"AmbiguityError"}),
  D("error", "42P10", "ColumnReferenceError", {"SEARVError"}),
  D("error", "42P11", "CursorDefinitionError", {"DefinitionError"}),
  D("error", "42P12", "DatabaseDefinitionError", {"DefinitionError"}),
  D("error", "42P13", "FunctionDefinitionError", {"DefinitionError"}),
  D("error", "42P14", "PreparedStatementDefinitionError", {"DefinitionError"}),
  D("error", "42P15", "SchemaDefinitionError", {"DefinitionError"}),
  D("error", "42P16", "TableDefinitionError", {"DefinitionError"}),
  D("error", "42P17", "ObjectDefinitionError", {"DefinitionError"}),
  D("error", "42P18", "IndeterminateTypeError", {"TypeError"}),
  D("error", "42P19", "RecursionError", {"SEARVError"}),
  D("error", "42P20", "WindowError", {"SEARVError"}),
  D("error", "44000", "WithCheckOptionError", {"Error"}),
  D("error", "53000", "IRError", {"Error"}),
  D("error", "53100", "DiskFullError", {"IRError"}),
  D("error", "53200", "MemoryError", {"IRError"}),
  D("error", "53300", "TooManyConnectionsError", {"IRError"}),
  D("error", "55000", "ONIPSError", {"Error"}),
  D("error", "55006", "ObjectInUseError", {"ONIPSError"}),
  D("error", "55P02", "ImmutableRuntimeParameterError", {"ONIPSError"}),
  D("error", "55P03", "UnavailableLockError", {"ONIPSError"}),
  D("error", "57000", "OIError", {"Error"}),
  D("error", "57014", "QueryCanceledError", {"OIError"}),
  D("error", "57P01", "AdminShutdownError", {"OIError", "Disconnection"}),
  D("error", "57P02", "CrashShutdownError", {"OIError", "Disconnection"}),
  D("error", "57P03", "ServerNotReadyError", {"OIError", "Disconnection"}),
  D("error", "58000", "SIOError", {"Error"}),
  D("error", "58P01", "UndefinedFileError", {"SIOError"}),
  D("error", "58P02", "DuplicateFileError", {"SIOError"}),
  D("error", "F0000", "CFError", {"Error"}),
  D("error", "F0001", "LockFileExistsError", {"CFError"}),
  D("error", "P0000", "PLPGSQLError", {"Error"}),
  D("error", "P0001", "PLPGSQLRaiseError", {"PLPGSQLError"}),
  D("error", "P0002", "PLPGSQLNoDataFoundError", {"PLPGSQLError"}),
  D("error", "P0003", "PLPGSQLTooManyRowsError", {"PLPGSQLError"}),
  D("error", "XX000", "InternalError", {"Error"}),
  D("error", "XX001", "DataCorruptedError", {"InternalError"}),
  D("error", "XX002", "IndexCorruptedError", {"InternalError"})
}
\* older servers use another code
Older == [c \in {"22020"} |-> "2201W"]
=================================================================================

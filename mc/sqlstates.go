package main

import "github.com/cybergarage/go-sqlparser/sql/errors"

// The SQLSTATE codes of appendix A of the PostgreSQL documentation, with the words of their condition names.
var sqlStates = []struct {
	got  errors.Code
	code string
	text string
}{
	{errors.SuccessfulCompletion, "00000", "Successful Completion"},
	{errors.Warning, "01000", "Warning"},
	{errors.DynamicResultSetsReturned, "0100C", "Dynamic Result Sets Returned"},
	{errors.ImplicitZeroBitPadding, "01008", "Implicit Zero Bit Padding"},
	{errors.NullValueEliminatedInSetFunction, "01003", "Null Value Eliminated In Set Function"},
	{errors.PrivilegeNotGranted, "01007", "Privilege Not Granted"},
	{errors.PrivilegeNotRevoked, "01006", "Privilege Not Revoked"},
	{errors.StringDataRightTruncationWarning, "01004", "String Data Right Truncation Warning"},
	{errors.DeprecatedFeature, "01P01", "Deprecated Feature"},
	{errors.NoData, "02000", "No Data"},
	{errors.NoAdditionalDynamicResultSetsReturned, "02001", "No Additional Dynamic Result Sets Returned"},
	{errors.SQLStatementNotYetComplete, "03000", "SQL Statement Not Yet Complete"},
	{errors.ConnectionException, "08000", "Connection Exception"},
	{errors.ConnectionDoesNotExist, "08003", "Connection Does Not Exist"},
	{errors.ConnectionFailure, "08006", "Connection Failure"},
	{errors.SQLClientUnableToEstablishSQLConnection, "08001", "SQL Client Unable To Establish SQL Connection"},
	{errors.SQLServerRejectedEstablishmentOfSQLConnection, "08004", "SQL Server Rejected Establishment Of SQL Connection"},
	{errors.TransactionResolutionUnknown, "08007", "Transaction Resolution Unknown"},
	{errors.ProtocolViolation, "08P01", "Protocol Violation"},
	{errors.TriggeredActionException, "09000", "Triggered Action Exception"},
	{errors.FeatureNotSupported, "0A000", "Feature Not Supported"},
	{errors.InvalidTransactionInitiation, "0B000", "Invalid Transaction Initiation"},
	{errors.LocatorException, "0F000", "Locator Exception"},
	{errors.InvalidLocatorSpecification, "0F001", "Invalid Locator Specification"},
	{errors.InvalidGrantor, "0L000", "Invalid Grantor"},
	{errors.InvalidGrantOperation, "0LP01", "Invalid Grant Operation"},
	{errors.InvalidRoleSpecification, "0P000", "Invalid Role Specification"},
	{errors.DiagnosticsException, "0Z000", "Diagnostics Exception"},
	{errors.StackedDiagnosticsAccessedWithoutActiveHandler, "0Z002", "Stacked Diagnostics Accessed Without Active Handler"},
	{errors.CaseNotFound, "20000", "Case Not Found"},
	{errors.CardinalityViolation, "21000", "Cardinality Violation"},
	{errors.DataException, "22000", "Data Exception"},
	{errors.ArraySubscriptError, "2202E", "Array Subscript Error"},
	{errors.CharacterNotInRepertoire, "22021", "Character Not In Repertoire"},
	{errors.DatetimeFieldOverflow, "22008", "Datetime Field Overflow"},
	{errors.DivisionByZero, "22012", "Division By Zero"},
	{errors.ErrorInAssignment, "22005", "Error In Assignment"},
	{errors.EscapeCharacterConflict, "2200B", "Escape Character Conflict"},
	{errors.IndicatorOverflow, "22022", "Indicator Overflow"},
	{errors.IntervalFieldOverflow, "22015", "Interval Field Overflow"},
	{errors.InvalidArgumentForLogarithm, "2201E", "Invalid Argument For Logarithm"},
	{errors.InvalidArgumentForNtileFunction, "22014", "Invalid Argument For Ntile Function"},
	{errors.InvalidArgumentForNthValueFunction, "22016", "Invalid Argument For Nth Value Function"},
	{errors.InvalidArgumentForPowerFunction, "2201F", "Invalid Argument For Power Function"},
	{errors.InvalidArgumentForWidthBucketFunction, "2201G", "Invalid Argument For Width Bucket Function"},
	{errors.InvalidCharacterValueForCast, "22018", "Invalid Character Value For Cast"},
	{errors.InvalidDatetimeFormat, "22007", "Invalid Datetime Format"},
	{errors.InvalidEscapeCharacter, "22019", "Invalid Escape Character"},
	{errors.InvalidEscapeOctet, "2200D", "Invalid Escape Octet"},
	{errors.InvalidEscapeSequence, "22025", "Invalid Escape Sequence"},
	{errors.NonstandardUseOfEscapeCharacter, "22P06", "Nonstandard Use Of Escape Character"},
	{errors.InvalidIndicatorParameterValue, "22010", "Invalid Indicator Parameter Value"},
	{errors.InvalidParameterValue, "22023", "Invalid Parameter Value"},
	{errors.InvalidPrecedingOrFollowingSize, "22013", "Invalid Preceding Or Following Size"},
	{errors.InvalidRegularExpression, "2201B", "Invalid Regular Expression"},
	{errors.InvalidRowCountInLimitClause, "2201W", "Invalid Row Count In Limit Clause"},
	{errors.InvalidRowCountInResultOffsetClause, "2201X", "Invalid Row Count In Result Offset Clause"},
	{errors.InvalidTablesampleArgument, "2202H", "Invalid Tablesample Argument"},
	{errors.InvalidTablesampleRepeat, "2202G", "Invalid Tablesample Repeat"},
	{errors.InvalidTimeZoneDisplacementValue, "22009", "Invalid Time Zone Displacement Value"},
	{errors.InvalidUseOfEscapeCharacter, "2200C", "Invalid Use Of Escape Character"},
	{errors.MostSpecificTypeMismatch, "2200G", "Most Specific Type Mismatch"},
	{errors.NullDataValueNotAllowed, "22004", "Null Data Value Not Allowed"},
	{errors.NullDataValueNoIndicatorParameter, "22002", "Null Data Value No Indicator Parameter"},
	{errors.NumericValueOutOfRange, "22003", "Numeric Value Out Of Range"},
	{errors.SequenceGeneratorLimitExceeded, "2200H", "Sequence Generator Limit Exceeded"},
	{errors.StringDataLengthMismatch, "22026", "String Data Length Mismatch"},
	{errors.StringDataRightTruncation, "22001", "String Data Right Truncation"},
	{errors.SubstringError, "22011", "Substring Error"},
	{errors.TrimError, "22027", "Trim Error"},
	{errors.UnterminatedCString, "22024", "Unterminated C String"},
	{errors.ZeroLengthCharacterString, "2200F", "Zero Length Character String"},
	{errors.FloatingPointException, "22P01", "Floating Point Exception"},
	{errors.InvalidTextRepresentation, "22P02", "Invalid Text Representation"},
	{errors.InvalidBinaryRepresentation, "22P03", "Invalid Binary Representation"},
	{errors.BadCopyFileFormat, "22P04", "Bad Copy File Format"},
	{errors.UntranslatableCharacter, "22P05", "Untranslatable Character"},
	{errors.NotAnXMLDocument, "2200L", "Not An XML Document"},
	{errors.InvalidXMLDocument, "2200M", "Invalid XML Document"},
	{errors.InvalidXMLContent, "2200N", "Invalid XML Content"},
	{errors.InvalidXMLComment, "2200S", "Invalid XML Comment"},
	{errors.InvalidXMLProcessingInstruction, "2200T", "Invalid XML Processing Instruction"},
	{errors.DuplicateJSONObjectKeyValue, "22030", "Duplicate JSON Object Key Value"},
	{errors.InvalidArgumentForSQLJSONDatetimeFunction, "22031", "Invalid Argument For SQL/JSON Datetime Function"},
	{errors.InvalidJSONText, "22032", "Invalid JSON Text"},
	{errors.InvalidSQLJSONSubscript, "22033", "Invalid SQL/JSON Subscript"},
	{errors.MoreThanOneSQLJSONItem, "22034", "More Than One SQL/JSON Item"},
	{errors.NoSQLJSONItem, "22035", "No SQL/JSON Item"},
	{errors.NonNumericSQLJSONItem, "22036", "Non Numeric SQL/JSON Item"},
	{errors.NonUniqueKeysInAJSONObject, "22037", "Non Unique Keys In A JSON Object"},
	{errors.SingletonSQLJSONItemRequired, "22038", "Singleton SQL/JSON Item Required"},
	{errors.SQLJSONArrayNotFound, "22039", "SQL/JSON Array Not Found"},
	{errors.SQLJSONMemberNotFound, "2203A", "SQL/JSON Member Not Found"},
	{errors.SQLJSONNumberNotFound, "2203B", "SQL/JSON Number Not Found"},
	{errors.SQLJSONObjectNotFound, "2203C", "SQL/JSON Object Not Found"},
	{errors.TooManyJSONArrayElements, "2203D", "Too Many JSON Array Elements"},
	{errors.TooManyJSONObjectMembers, "2203E", "Too Many JSON Object Members"},
	{errors.SQLJSONScalarRequired, "2203F", "SQL/JSON Scalar Required"},
	{errors.SQLJSONItemCannotBeCastToTargetType, "2203G", "SQL/JSON Item Cannot Be Cast To Target Type"},
	{errors.IntegrityConstraintViolation, "23000", "Integrity Constraint Violation"},
	{errors.RestrictViolation, "23001", "Restrict Violation"},
	{errors.NotNullViolation, "23502", "Not Null Violation"},
	{errors.ForeignKeyViolation, "23503", "Foreign Key Violation"},
	{errors.UniqueViolation, "23505", "Unique Violation"},
	{errors.CheckViolation, "23514", "Check Violation"},
	{errors.ExclusionViolation, "23P01", "Exclusion Violation"},
	{errors.InvalidCursorState, "24000", "Invalid Cursor State"},
	{errors.InvalidTransactionState, "25000", "Invalid Transaction State"},
	{errors.ActiveSQLTransaction, "25001", "Active SQL Transaction"},
	{errors.BranchTransactionAlreadyActive, "25002", "Branch Transaction Already Active"},
	{errors.HeldCursorRequiresSameIsolationLevel, "25008", "Held Cursor Requires Same Isolation Level"},
	{errors.InappropriateAccessModeForBranchTransaction, "25003", "Inappropriate Access Mode For Branch Transaction"},
	{errors.InappropriateIsolationLevelForBranchTransaction, "25004", "Inappropriate Isolation Level For Branch Transaction"},
	{errors.NoActiveSQLTransactionForBranchTransaction, "25005", "No Active SQL Transaction For Branch Transaction"},
	{errors.ReadOnlySQLTransaction, "25006", "Read Only SQL Transaction"},
	{errors.SchemaAndDataStatementMixingNotSupported, "25007", "Schema And Data Statement Mixing Not Supported"},
	{errors.NoActiveSQLTransaction, "25P01", "No Active SQL Transaction"},
	{errors.InFailedSQLTransaction, "25P02", "In Failed SQL Transaction"},
	{errors.IdleInTransactionSessionTimeout, "25P03", "Idle In Transaction Session Timeout"},
	{errors.TransactionTimeout, "25P04", "Transaction Timeout"},
	{errors.InvalidSQLStatementName, "26000", "Invalid SQL Statement Name"},
	{errors.TriggeredDataChangeViolation, "27000", "Triggered Data Change Violation"},
	{errors.InvalidAuthorizationSpecification, "28000", "Invalid Authorization Specification"},
	{errors.InvalidPassword, "28P01", "Invalid Password"},
	{errors.DependentPrivilegeDescriptorsStillExist, "2B000", "Dependent Privilege Descriptors Still Exist"},
	{errors.DependentObjectsStillExist, "2BP01", "Dependent Objects Still Exist"},
	{errors.InvalidTransactionTermination, "2D000", "Invalid Transaction Termination"},
	{errors.SQLRoutineException, "2F000", "SQL Routine Exception"},
	{errors.FunctionExecutedNoReturnStatement, "2F005", "Function Executed No Return Statement"},
	{errors.SQLRoutineModifyingSQLDataNotPermitted, "2F002", "SQL Routine Modifying SQL Data Not Permitted"},
	{errors.SQLRoutineProhibitedSQLStatementAttempted, "2F003", "SQL Routine Prohibited SQL Statement Attempted"},
	{errors.SQLRoutineReadingSQLDataNotPermitted, "2F004", "SQL Routine Reading SQL Data Not Permitted"},
	{errors.InvalidCursorName, "34000", "Invalid Cursor Name"},
	{errors.ExternalRoutineException, "38000", "External Routine Exception"},
	{errors.ContainingSQLNotPermitted, "38001", "Containing SQL Not Permitted"},
	{errors.ExternalRoutineModifyingSQLDataNotPermitted, "38002", "External Routine Modifying SQL Data Not Permitted"},
	{errors.ExternalRoutineProhibitedSQLStatementAttempted, "38003", "External Routine Prohibited SQL Statement Attempted"},
	{errors.ExternalRoutineReadingSQLDataNotPermitted, "38004", "External Routine Reading SQL Data Not Permitted"},
	{errors.ExternalRoutineInvocationException, "39000", "External Routine Invocation Exception"},
	{errors.InvalidSQLStateReturned, "39001", "Invalid SQL State Returned"},
	{errors.NullValueNotAllowed, "39004", "Null Value Not Allowed"},
	{errors.TriggerProtocolViolated, "39P01", "Trigger Protocol Violated"},
	{errors.SRFProtocolViolated, "39P02", "SRF Protocol Violated"},
	{errors.EventTriggerProtocolViolated, "39P03", "Event Trigger Protocol Violated"},
	{errors.SavepointException, "3B000", "Savepoint Exception"},
	{errors.InvalidSavepointSpecification, "3B001", "Invalid Savepoint Specification"},
	{errors.InvalidCatalogName, "3D000", "Invalid Catalog Name"},
	{errors.InvalidSchemaName, "3F000", "Invalid Schema Name"},
	{errors.TransactionRollback, "40000", "Transaction Rollback"},
	{errors.TransactionIntegrityConstraintViolation, "40002", "Transaction Integrity Constraint Violation"},
	{errors.SerializationFailure, "40001", "Serialization Failure"},
	{errors.StatementCompletionUnknown, "40003", "Statement Completion Unknown"},
	{errors.DeadlockDetected, "40P01", "Deadlock Detected"},
	{errors.SyntaxErrorOrAccessRuleViolation, "42000", "Syntax Error Or Access Rule Violation"},
	{errors.SyntaxError, "42601", "Syntax Error"},
	{errors.InsufficientPrivilege, "42501", "Insufficient Privilege"},
	{errors.CannotCoerce, "42846", "Cannot Coerce"},
	{errors.GroupingError, "42803", "Grouping Error"},
	{errors.WindowingError, "42P20", "Windowing Error"},
	{errors.InvalidRecursion, "42P19", "Invalid Recursion"},
	{errors.InvalidForeignKey, "42830", "Invalid Foreign Key"},
	{errors.InvalidName, "42602", "Invalid Name"},
	{errors.NameTooLong, "42622", "Name Too Long"},
	{errors.ReservedName, "42939", "Reserved Name"},
	{errors.DatatypeMismatch, "42804", "Datatype Mismatch"},
	{errors.IndeterminateDatatype, "42P18", "Indeterminate Datatype"},
	{errors.CollationMismatch, "42P21", "Collation Mismatch"},
	{errors.IndeterminateCollation, "42P22", "Indeterminate Collation"},
	{errors.WrongObjectType, "42809", "Wrong Object Type"},
	{errors.GeneratedAlways, "428C9", "Generated Always"},
	{errors.UndefinedColumn, "42703", "Undefined Column"},
	{errors.UndefinedFunction, "42883", "Undefined Function"},
	{errors.UndefinedTable, "42P01", "Undefined Table"},
	{errors.UndefinedParameter, "42P02", "Undefined Parameter"},
	{errors.UndefinedObject, "42704", "Undefined Object"},
	{errors.DuplicateColumn, "42701", "Duplicate Column"},
	{errors.DuplicateCursor, "42P03", "Duplicate Cursor"},
	{errors.DuplicateDatabase, "42P04", "Duplicate Database"},
	{errors.DuplicateFunction, "42723", "Duplicate Function"},
	{errors.DuplicatePreparedStatement, "42P05", "Duplicate Prepared Statement"},
	{errors.DuplicateSchema, "42P06", "Duplicate Schema"},
	{errors.DuplicateTable, "42P07", "Duplicate Table"},
	{errors.DuplicateAlias, "42712", "Duplicate Alias"},
	{errors.DuplicateObject, "42710", "Duplicate Object"},
	{errors.AmbiguousColumn, "42702", "Ambiguous Column"},
	{errors.AmbiguousFunction, "42725", "Ambiguous Function"},
	{errors.AmbiguousParameter, "42P08", "Ambiguous Parameter"},
	{errors.AmbiguousAlias, "42P09", "Ambiguous Alias"},
	{errors.InvalidColumnReference, "42P10", "Invalid Column Reference"},
	{errors.InvalidColumnDefinition, "42611", "Invalid Column Definition"},
	{errors.InvalidCursorDefinition, "42P11", "Invalid Cursor Definition"},
	{errors.InvalidDatabaseDefinition, "42P12", "Invalid Database Definition"},
	{errors.InvalidFunctionDefinition, "42P13", "Invalid Function Definition"},
	{errors.InvalidPreparedStatementDefinition, "42P14", "Invalid Prepared Statement Definition"},
	{errors.InvalidSchemaDefinition, "42P15", "Invalid Schema Definition"},
	{errors.InvalidTableDefinition, "42P16", "Invalid Table Definition"},
	{errors.InvalidObjectDefinition, "42P17", "Invalid Object Definition"},
	{errors.WithCheckOptionViolation, "44000", "With Check Option Violation"},
	{errors.InsufficientResources, "53000", "Insufficient Resources"},
	{errors.DiskFull, "53100", "Disk Full"},
	{errors.OutOfMemory, "53200", "Out Of Memory"},
	{errors.TooManyConnections, "53300", "Too Many Connections"},
	{errors.ConfigurationLimitExceeded, "53400", "Configuration Limit Exceeded"},
	{errors.ProgramLimitExceeded, "54000", "Program Limit Exceeded"},
	{errors.StatementTooComplex, "54001", "Statement Too Complex"},
	{errors.TooManyColumns, "54011", "Too Many Columns"},
	{errors.TooManyArguments, "54023", "Too Many Arguments"},
	{errors.ObjectNotInPrerequisiteState, "55000", "Object Not In Prerequisite State"},
	{errors.ObjectInUse, "55006", "Object In Use"},
	{errors.CantChangeRuntimeParam, "55P02", "Can't Change Runtime Param"},
	{errors.LockNotAvailable, "55P03", "Lock Not Available"},
	{errors.UnsafeNewEnumValueUsage, "55P04", "Unsafe New Enum Value Usage"},
	{errors.OperatorIntervention, "57000", "Operator Intervention"},
	{errors.QueryCanceled, "57014", "Query Canceled"},
	{errors.AdminShutdown, "57P01", "Admin Shutdown"},
	{errors.CrashShutdown, "57P02", "Crash Shutdown"},
	{errors.CannotConnectNow, "57P03", "Cannot Connect Now"},
	{errors.DatabaseDropped, "57P04", "Database Dropped"},
	{errors.IdleSessionTimeout, "57P05", "Idle Session Timeout"},
	{errors.SystemError, "58000", "System Error"},
	{errors.IOError, "58030", "IO Error"},
	{errors.UndefinedFile, "58P01", "Undefined File"},
	{errors.DuplicateFile, "58P02", "Duplicate File"},
	{errors.ConfigFileError, "F0000", "Config File Error"},
	{errors.LockFileExists, "F0001", "Lock File Exists"},
	{errors.FDWError, "HV000", "FDW Error"},
	{errors.FDWColumnNameNotFound, "HV005", "FDW Column Name Not Found"},
	{errors.FDWDynamicParameterValueNeeded, "HV002", "FDW Dynamic Parameter Value Needed"},
	{errors.FDWFunctionSequenceError, "HV010", "FDW Function Sequence Error"},
	{errors.FDWInconsistentDescriptorInformation, "HV021", "FDW Inconsistent Descriptor Information"},
	{errors.FDWInvalidAttributeValue, "HV024", "FDW Invalid Attribute Value"},
	{errors.FDWInvalidColumnName, "HV007", "FDW Invalid Column Name"},
	{errors.FDWInvalidColumnNumber, "HV008", "FDW Invalid Column Number"},
	{errors.FDWInvalidDataType, "HV004", "FDW Invalid Data Type"},
	{errors.FDWInvalidDataTypeDescriptors, "HV006", "FDW Invalid Data Type Descriptors"},
	{errors.FDWInvalidDescriptorFieldIdentifier, "HV091", "FDW Invalid Descriptor Field Identifier"},
	{errors.FDWInvalidHandle, "HV00B", "FDW Invalid Handle"},
	{errors.FDWInvalidOptionIndex, "HV00C", "FDW Invalid Option Index"},
	{errors.FDWInvalidOptionName, "HV00D", "FDW Invalid Option Name"},
	{errors.FDWInvalidStringLength, "HV090", "FDW Invalid String Length"},
	{errors.FDWInvalidStringFormat, "HV00A", "FDW Invalid String Format"},
	{errors.FDWInvalidUseOfNullPointer, "HV009", "FDW Invalid Use Of Null Pointer"},
	{errors.FDWTooManyHandles, "HV014", "FDW Too Many Handles"},
	{errors.FDWOutOfMemory, "HV001", "FDW Out Of Memory"},
	{errors.FDWNoSchemas, "HV00P", "FDW No Schemas"},
	{errors.FDWOptionNameNotFound, "HV00J", "FDW Option Name Not Found"},
	{errors.FDWReplyHandle, "HV00K", "FDW Reply Handle"},
	{errors.FDWSchemaNotFound, "HV00Q", "FDW Schema Not Found"},
	{errors.FDWTableNotFound, "HV00R", "FDW Table Not Found"},
	{errors.FDWUnableToCreateExecution, "HV00L", "FDW Unable To Create Execution"},
	{errors.FDWUnableToCreateReply, "HV00M", "FDW Unable To Create Reply"},
	{errors.FDWUnableToEstablishConnection, "HV00N", "FDW Unable To Establish Connection"},
	{errors.PLPGSQLError, "P0000", "PL/PGSQL Error"},
	{errors.RaiseException, "P0001", "Raise Exception"},
	{errors.NoDataFound, "P0002", "No Data Found"},
	{errors.TooManyRows, "P0003", "Too Many Rows"},
	{errors.AssertFailure, "P0004", "Assert Failure"},
	{errors.InternalError, "XX000", "Internal Error"},
	{errors.DataCorrupted, "XX001", "Data Corrupted"},
	{errors.IndexCorrupted, "XX002", "Index Corrupted"},
}

var sqlClasses = []struct {
	got   errors.Class
	class string
	text  string
}{
	{errors.Class00, "00", "Successful Completion"},
	{errors.Class01, "01", "Warning"},
	{errors.Class02, "02", "No Data"},
	{errors.Class03, "03", "SQL Statement Not Yet Complete"},
	{errors.Class08, "08", "Connection Exception"},
	{errors.Class09, "09", "Triggered Action Exception"},
	{errors.Class0A, "0A", "Feature Not Supported"},
	{errors.Class0B, "0B", "Invalid Transaction Initiation"},
	{errors.Class0F, "0F", "Locator Exception"},
	{errors.Class0L, "0L", "Invalid Grantor"},
	{errors.Class0P, "0P", "Invalid Role Specification"},
	{errors.Class0Z, "0Z", "Diagnostics Exception"},
	{errors.Class20, "20", "Case Not Found"},
	{errors.Class21, "21", "Cardinality Violation"},
	{errors.Class22, "22", "Data Exception"},
	{errors.Class23, "23", "Integrity Constraint Violation"},
	{errors.Class24, "24", "Invalid Cursor State"},
	{errors.Class25, "25", "Invalid Transaction State"},
	{errors.Class26, "26", "Invalid SQL Statement Name"},
	{errors.Class27, "27", "Triggered Data Change Violation"},
	{errors.Class28, "28", "Invalid Authorization Specification"},
	{errors.Class2B, "2B", "Dependent Privilege Descriptors Still Exist"},
	{errors.Class2D, "2D", "Invalid Transaction Termination"},
	{errors.Class2F, "2F", "SQL Routine Exception"},
	{errors.Class34, "34", "Invalid Cursor Name"},
	{errors.Class38, "38", "External Routine Exception"},
	{errors.Class39, "39", "External Routine Invocation Exception"},
	{errors.Class3B, "3B", "Savepoint Exception"},
	{errors.Class3D, "3D", "Invalid Catalog Name"},
	{errors.Class3F, "3F", "Invalid Schema Name"},
	{errors.Class40, "40", "Transaction Rollback"},
	{errors.Class42, "42", "Syntax Error or Access Rule Violation"},
	{errors.Class44, "44", "WITH CHECK OPTION Violation"},
	{errors.Class53, "53", "Insufficient Resources"},
	{errors.Class54, "54", "Program Limit Exceeded"},
	{errors.Class55, "55", "Object Not In Prerequisite State"},
	{errors.Class57, "57", "Operator Intervention"},
	{errors.Class58, "58", "System Error"},
	{errors.ClassF0, "F0", "Configuration File Error"},
	{errors.ClassHV, "HV", "Foreign Data Wrapper Error (SQL/MED)"},
	{errors.ClassP0, "P0", "PL/pgSQL Error"},
	{errors.ClassXX, "XX", "Internal Error"},
}

package harness

import (
	"regexp"
	"strconv"
)

// The names of the error classes and codes, as numbers (ASHRAE 135 clause 18)
var errClassNum = map[string]int{
	"DeviceError":        0,
	"ObjectError":        1,
	"PropertyError":      2,
	"ResourcesError":     3,
	"SecurityError":      4,
	"ServicesError":      5,
	"VTError":            6,
	"CommunicationError": 7,
}

var errCodeNum = map[string]int{
	"Other":                              0,
	"DeviceBusy":                         3,
	"ConfigurationInProgress":            2,
	"OperationalProblem":                 25,
	"DynamicCreationNotSupported":        4,
	"NoObjectsOfSpecifiedType":           17,
	"ObjectDeletionNotPermitted":         23,
	"ObjectIdentifierAlreadyExists":      24,
	"ReadAccessDenied":                   27,
	"UnknownObject":                      31,
	"UnsupportedObjectType":              36,
	"CharacterSetNotSupported":           41,
	"DatatypeNotSupported":               47,
	"InconsistentSelectionCriterion":     8,
	"InvalidArrayIndex":                  42,
	"InvalidDataType":                    9,
	"NotCovProperty":                     44,
	"OptionalFunctionalityNotSupported":  45,
	"PropertyIsNotAnArray":               50,
	"UnknownProperty":                    32,
	"ValueOutOfRange":                    37,
	"WriteAccessDenied":                  40,
	"NoSpaceForObject":                   18,
	"NoSpaceToAddListElement":            19,
	"NoSpaceToWriteProperty":             20,
	"AuthenticationFailed":               1,
	"IncompatibleSecurityLevels":         6,
	"InvalidOperatorName":                12,
	"KeyGenerationError":                 15,
	"PasswordFailure":                    26,
	"SecurityNotSupported":               28,
	"Timeout":                            30,
	"CovSubscriptionFailed":              43,
	"DuplicateName":                      48,
	"DuplicateObjectID":                  49,
	"FileAccessDenied":                   5,
	"InconsistentParameters":             7,
	"InvalidConfigurationData":           46,
	"InvalidFileAccessMethod":            10,
	"InvalidFileStartPosition":           11,
	"InvalidParameterDataType":           13,
	"InvalidTimeStamp":                   14,
	"MissingRequiredParameter":           16,
	"PropertyIsNotAList":                 22,
	"ServiceRequestDenied":               29,
	"UnknownVtClass":                     34,
	"UnknownVtSession":                   35,
	"NoVtSessionsAvailable":              21,
	"VtSessionAlreadyClosed":             38,
	"VtSessionTerminationFailure":        39,
	"AbortBufferOverflow":                51,
	"AbortInvalidApduInThisState":        52,
	"AbortPreemptedByHigherPriorityTask": 53,
	"AbortSegmentationNotSupported":      54,
	"AbortProprietary":                   55,
	"AbortOther":                         56,
	"InvalidTag":                         57,
	"NetworkDown":                        58,
	"RejectBufferOverflow":               59,
	"RejectInconsistentParameters":       60,
	"RejectInvalidParameterDataType":     61,
	"RejectInvalidTag":                   62,
	"RejectMissingRequiredParameter":     63,
	"RejectParameterOutOfRange":          64,
	"RejectTooManyArguments":             65,
	"RejectUndefinedEnumeration":         66,
	"RejectUnrecognizedService":          67,
	"RejectProprietary":                  68,
	"RejectOther":                        69,
	"UnknownDevice":                      70,
	"UnknownRoute":                       71,
	"ValueNotInitialized":                72,
	"InvalidEventState":                  73,
	"NoAlarmConfigured":                  74,
	"LogBufferFull":                      75,
	"LoggedValuePurged":                  76,
	"NoPropertySpecified":                77,
	"NotConfiguredForTriggeredLogging":   78,
	"UnknownSubscription":                79,
	"ParameterOutOfRange":                80,
	"ListElementNotFound":                81,
	"Busy":                               82,
	"CommunicationDisabled":              83,
	"Success":                            84,
	"AccessDenied":                       85,
	"BadDestinationAddress":              86,
	"BadDestinationDeviceID":             87,
	"BadSignature":                       88,
	"BadSourceAddress":                   89,
	"BadTimestamp":                       90,
	"CannotUseKey":                       91,
	"CannotVerifyMessageID":              92,
	"CorrectKeyRevision":                 93,
	"DestinationDeviceIDRequired":        94,
	"DuplicateMessage":                   95,
	"EncryptionNotConfigured":            96,
	"EncryptionRequired":                 97,
	"IncorrectKey":                       98,
	"InvalidKeyData":                     99,
	"KeyUpdateInProgress":                100,
	"MalformedMessage":                   101,
	"NotKeyServer":                       102,
	"SecurityNotConfigured":              103,
	"SourceSecurityRequired":             104,
	"TooManyKeys":                        105,
	"UnknownAuthenticationType":          106,
	"UnknownKey":                         107,
	"UnknownKeyRevision":                 108,
	"UnknownSourceMessage":               109,
	"NotRouterToDnet":                    110,
	"RouterBusy":                         111,
	"UnknownNetworkMessage":              112,
	"MessageTooLong":                     113,
	"SecurityErrorCode":                  114,
	"AddressingError":                    115,
	"WriteBdtFailed":                     116,
	"ReadBdtFailed":                      117,
	"RegisterForeignDeviceFailed":        118,
	"ReadFdtFailed":                      119,
	"DeleteFdtEntryFailed":               120,
	"DistributeBroadcastFailed":          121,
	"UnknownFileSize":                    122,
	"AbortApduTooLong":                   123,
	"AbortApplicationExceededReplyTime":  124,
	"AbortOutOfResources":                125,
	"AbortTsmTimeout":                    126,
	"AbortWindowSizeOutOfRange":          127,
	"FileFull":                           128,
	"InconsistentConfiguration":          129,
	"InconsistentObjectType":             130,
	"InternalError":                      131,
	"NotConfigured":                      132,
	"OutOfMemory":                        133,
	"ValueTooLong":                       134,
	"AbortInsufficientSecurity":          135,
	"AbortSecurityError":                 136,
}

var wordRe = regexp.MustCompile(`\w+(\(\d+\))?`)
var numRe = regexp.MustCompile(`^Error(Class|Code)\((\d+)\)$`)
var plainRe = regexp.MustCompile(`class:? (\d+),? code:? (\d+)`)

// errNumbers finds the error class and code that an error text names, -1 if there is none
func errNumbers(s string) (class, code int) {
	class, code = -1, -1
	for _, w := range wordRe.FindAllString(s, -1) {
		if n, ok := errClassNum[w]; ok {
			class = n
		}
		if n, ok := errCodeNum[w]; ok {
			code = n
		}
		if m := numRe.FindStringSubmatch(w); m != nil {
			n, _ := strconv.Atoi(m[2])
			if m[1] == "Class" {
				class = n
			} else {
				code = n
			}
		}
	}
	if m := plainRe.FindStringSubmatch(s); m != nil {
		class, _ = strconv.Atoi(m[1])
		code, _ = strconv.Atoi(m[2])
	}
	return class, code
}

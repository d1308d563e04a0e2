package h

// Registry lists the harnesses by name.
var Registry = map[string]func(){
	"C01_Long":              C01_Long,
	"C01_Pack":              C01_Pack,
	"C01_RoundTrip":         C01_RoundTrip,
	"C01_Unpack":            C01_Unpack,
	"C02_Long":              C02_Long,
	"C02_Pack":              C02_Pack,
	"C02_RoundTrip":         C02_RoundTrip,
	"C02_Unpack":            C02_Unpack,
	"C03_Decode":            C03_Decode,
	"C03_DecodeLong":        C03_DecodeLong,
	"C03_Invalid":           C03_Invalid,
	"C03_Long":              C03_Long,
	"C03_RoundTrip":         C03_RoundTrip,
	"C04_Signed":            C04_Signed,
	"C04_Unsigned":          C04_Unsigned,
	"C05_Alpha":             C05_Alpha,
	"C05_AlphaReject":       C05_AlphaReject,
	"C05_AlphaSpare":        C05_AlphaSpare,
	"C05_Arbitrary":         C05_Arbitrary,
	"C05_Long":              C05_Long,
	"C05_Names":             C05_Names,
	"C05_Number":            C05_Number,
	"C05_NumberReject":      C05_NumberReject,
	"C05_NumberText":        C05_NumberText,
	"C05_Numeric":           C05_Numeric,
	"C05_Options":           C05_Options,
	"C06_Arbitrary":         C06_Arbitrary,
	"C06_Octets":            C06_Octets,
	"C06_Time":              C06_Time,
	"C07_Absolute":          C07_Absolute,
	"C07_Enhanced":          C07_Enhanced,
	"C07_EnhancedArbitrary": C07_EnhancedArbitrary,
	"C07_EnhancedDuration":  C07_EnhancedDuration,
	"C07_Format":            C07_Format,
	"C07_Near":              C07_Near,
	"C07_NearRelative":      C07_NearRelative,
	"C07_RelativeDuration":  C07_RelativeDuration,
	"C07_RelativeOctet":     C07_RelativeOctet,
	"C07_Set":               C07_Set,
	"C08_Arbitrary":         C08_Arbitrary,
	"C08_Long":              C08_Long,
	"C08_Many":              C08_Many,
	"C08_RoundTrip":         C08_RoundTrip,
	"C09_IE":                C09_IE,
	"C09_Info":              C09_Info,
	"C09_Many":              C09_Many,
	"C10_Read":              C10_Read,
	"C10_WithAlphabet":      C10_WithAlphabet,
	"C10_WithClass":         C10_WithClass,
	"C11_Command":           C11_Command,
	"C11_Deliver":           C11_Deliver,
	"C11_DeliverReport":     C11_DeliverReport,
	"C11_Long":              C11_Long,
	"C11_StatusReport":      C11_StatusReport,
	"C11_Submit":            C11_Submit,
	"C11_SubmitReport":      C11_SubmitReport,
	"C11_Unsupported":       C11_Unsupported,
	"C12_Eight":             C12_Eight,
	"C12_EmptyHeader":       C12_EmptyHeader,
	"C12_EscapeRun":         C12_EscapeRun,
	"C12_Full":              C12_Full,
	"C12_Many":              C12_Many,
	"C12_NoRoom":            C12_NoRoom,
	"C12_Reports":           C12_Reports,
	"C12_Seven":             C12_Seven,
	"C12_TooMany":           C12_TooMany,
	"C12_UCS2":              C12_UCS2,
	"C13_Bytes":             C13_Bytes,
	"C13_Custom":            C13_Custom,
	"C13_Decode":            C13_Decode,
	"C13_DecodeStrict":      C13_DecodeStrict,
	"C13_Encode":            C13_Encode,
	"C13_Escapes":           C13_Escapes,
	"C13_Long":              C13_Long,
	"C13_NoExt":             C13_NoExt,
	"C13_RoundTrip":         C13_RoundTrip,
	"C13_Select":            C13_Select,
	"C14_Bytes":             C14_Bytes,
	"C14_Long":              C14_Long,
	"C14_Repeated":          C14_Repeated,
	"C14_RoundTrip":         C14_RoundTrip,
	"C14_Select":            C14_Select,
	"C15_Decode":            C15_Decode,
	"C15_Encode":            C15_Encode,
	"C15_Long":              C15_Long,
	"C16_Coding":            C16_Coding,
	"C16_Many":              C16_Many,
	"C16_Mixed":             C16_Mixed,
	"C16_Odd":               C16_Odd,
	"C16_UCS2":              C16_UCS2,
	"C17_Binary":            C17_Binary,
	"C17_Dcs":               C17_Dcs,
	"C17_Long":              C17_Long,
	"C17_Many":              C17_Many,
	"C17_Options":           C17_Options,
	"C17_Short":             C17_Short,
	"C18_Closing":           C18_Closing,
	"C18_Expiry":            C18_Expiry,
	"C18_Handler":           C18_Handler,
	"C18_History":           C18_History,
	"C18_Keys":              C18_Keys,
	"C18_Many":              C18_Many,
	"C18_Orders":            C18_Orders,
	"C18_Others":            C18_Others,
	"C18_Refs":              C18_Refs,
	"C18_Snapshot":          C18_Snapshot,
	"C18_TwoSenders":        C18_TwoSenders,
	"C19_Concurrent":        C19_Concurrent,
	"C19_History":           C19_History,
	"C19_Kinds":             C19_Kinds,
	"C19_Many":              C19_Many,
	"C19_Shared":            C19_Shared,
	"C19_TooLong":           C19_TooLong,
	"C20_Arbitrary":         C20_Arbitrary,
	"C20_Digits":            C20_Digits,
	"C20_Frames":            C20_Frames,
	"C20_Hex":               C20_Hex,
	"C20_Long":              C20_Long,
	"C20_Refuse":            C20_Refuse,
	"C20_RoundTrip":         C20_RoundTrip,
	"C21_Complete":          C21_Complete,
	"C21_Many":              C21_Many,
	"C23_FirstOctet":        C23_FirstOctet,
	"C23_New":               C23_New,
	"C23_Setters":           C23_Setters,
	"C24_Command":           C24_Command,
	"C24_Deliver":           C24_Deliver,
	"C24_DeliverReport":     C24_DeliverReport,
	"C24_Direction":         C24_Direction,
	"C24_StatusReport":      C24_StatusReport,
	"C24_Submit":            C24_Submit,
	"C24_SubmitReport":      C24_SubmitReport,
	"C24_UserData":          C24_UserData,
	"C25_SharedInput":       C25_SharedInput,
	"C25_SharedOptions":     C25_SharedOptions,
	"C25_SharedTPDU":        C25_SharedTPDU,
	"C25_Tables":            C25_Tables,
	"C25_Text":              C25_Text,
	"C26_Command":           C26_Command,
	"C26_Deliver":           C26_Deliver,
	"C26_DeliverReport":     C26_DeliverReport,
	"C26_StatusReport":      C26_StatusReport,
	"C26_Submit":            C26_Submit,
	"C26_SubmitReport":      C26_SubmitReport,
	"C27_Filled":            C27_Filled,
	"C27_Room":              C27_Room,
	"C28_Many":              C28_Many,
	"C28_Permitted":         C28_Permitted,
	"C29_Content":           C29_Content,
	"C29_CutCommand":        C29_CutCommand,
	"C29_CutDeliver":        C29_CutDeliver,
	"C29_CutReports":        C29_CutReports,
	"C29_CutStatusReport":   C29_CutStatusReport,
	"C29_CutSubmit":         C29_CutSubmit,
	"C29_Encode":            C29_Encode,
	"C30_Other":             C30_Other,
	"C30_Same":              C30_Same,
}

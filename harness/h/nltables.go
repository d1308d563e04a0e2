package h

// The national language tables of 3GPP TS 23.038 annex A, by identifier: the
// code point of each septet, 0 where none is defined.  These are data of the
// checks, not read from the code under test.

var lockTables = [14][128]rune{
	0: {
		0x40, 0xa3, 0x24, 0xa5, 0xe8, 0xe9, 0xf9, 0xec, 0xf2, 0xc7, 0xa, 0xd8, 0xf8, 0xd, 0xc5, 0xe5,
		0x394, 0x5f, 0x3a6, 0x393, 0x39b, 0x3a9, 0x3a0, 0x3a8, 0x3a3, 0x398, 0x39e, 0x1b, 0xc6, 0xe6, 0xdf, 0xc9,
		0x20, 0x21, 0x22, 0x23, 0xa4, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
		0xa1, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0xc4, 0xd6, 0xd1, 0xdc, 0xa7,
		0xbf, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xe4, 0xf6, 0xf1, 0xfc, 0xe0,
	},
	1: {
		0x40, 0xa3, 0x24, 0xa5, 0x20ac, 0xe9, 0xf9, 0x131, 0xf2, 0xc7, 0xa, 0x11e, 0x11f, 0xd, 0xc5, 0xe5,
		0x394, 0x5f, 0x3a6, 0x393, 0x39b, 0x3a9, 0x3a0, 0x3a8, 0x3a3, 0x398, 0x39e, 0x1b, 0x15e, 0x15f, 0xdf, 0xc9,
		0x20, 0x21, 0x22, 0x23, 0xa4, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
		0x130, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0xc4, 0xd6, 0xd1, 0xdc, 0xa7,
		0xe7, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xe4, 0xf6, 0xf1, 0xfc, 0xe0,
	},
	2: {
		0x40, 0xa3, 0x24, 0xa5, 0xe8, 0xe9, 0xf9, 0xec, 0xf2, 0xc7, 0xa, 0xd8, 0xf8, 0xd, 0xc5, 0xe5,
		0x394, 0x5f, 0x3a6, 0x393, 0x39b, 0x3a9, 0x3a0, 0x3a8, 0x3a3, 0x398, 0x39e, 0x1b, 0xc6, 0xe6, 0xdf, 0xc9,
		0x20, 0x21, 0x22, 0x23, 0xa4, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
		0xa1, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0xc4, 0xd6, 0xd1, 0xdc, 0xa7,
		0xbf, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xe4, 0xf6, 0xf1, 0xfc, 0xe0,
	},
	3: {
		0x40, 0xa3, 0x24, 0xa5, 0xea, 0xe9, 0xfa, 0xed, 0xf3, 0xe7, 0xa, 0xd4, 0xf4, 0xd, 0xc1, 0xe1,
		0x394, 0x5f, 0xaa, 0xc7, 0xc0, 0x221e, 0x5e, 0x5c, 0x20ac, 0xd3, 0x7c, 0x1b, 0xc2, 0xe2, 0xca, 0xc9,
		0x20, 0x21, 0x22, 0x23, 0xba, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
		0xcd, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0xc3, 0xd5, 0xda, 0xdc, 0xa7,
		0x7e, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xe3, 0xf5, 0x60, 0xfc, 0xe0,
	},
	4: {
		0x981, 0x982, 0x983, 0x985, 0x986, 0x987, 0x988, 0x989, 0x98a, 0x98b, 0xa, 0x98c, 0x0, 0xd, 0x0, 0x98f,
		0x990, 0x0, 0x0, 0x993, 0x994, 0x995, 0x996, 0x997, 0x998, 0x999, 0x99a, 0x1b, 0x99b, 0x99c, 0x99d, 0x99e,
		0x20, 0x21, 0x99f, 0x9a0, 0x9a1, 0x9a2, 0x9a3, 0x9a4, 0x29, 0x28, 0x9a5, 0x9a6, 0x2c, 0x9a7, 0x2e, 0x9a8,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0x9aa, 0x9ab, 0x3f,
		0x9ac, 0x9ad, 0x9ae, 0x9af, 0x9b0, 0x0, 0x9b2, 0x0, 0x0, 0x0, 0x9b6, 0x9b7, 0x9b8, 0x9b9, 0x9bc, 0x9bd,
		0x9be, 0x9bf, 0x9c0, 0x9c1, 0x9c2, 0x9c3, 0x9c4, 0x0, 0x0, 0x9c7, 0x9c8, 0x0, 0x0, 0x9cb, 0x9cc, 0x9cd,
		0x9ce, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x9d7, 0x9dc, 0x9dd, 0x9f0, 0x9f1,
	},
	5: {
		0xa81, 0xa82, 0xa83, 0xa85, 0xa86, 0xa87, 0xa88, 0xa89, 0xa8a, 0xa8b, 0xa, 0xa8c, 0xa8d, 0xd, 0x0, 0xa8f,
		0xa90, 0xa91, 0x0, 0xa93, 0xa94, 0xa95, 0xa96, 0xa97, 0xa98, 0xa99, 0xa9a, 0x1b, 0xa9b, 0xa9c, 0xa9d, 0xa9e,
		0x20, 0x21, 0xa9f, 0xaa0, 0xaa1, 0xaa2, 0xaa3, 0xaa4, 0x29, 0x28, 0xaa5, 0xaa6, 0x2c, 0xaa7, 0x2e, 0xaa8,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0xaaa, 0xaab, 0x3f,
		0xaac, 0xaad, 0xaae, 0xaaf, 0xab0, 0x0, 0xab2, 0xab3, 0x0, 0xab5, 0xab6, 0xab7, 0xab8, 0xab9, 0xabc, 0xabd,
		0xabe, 0xabf, 0xac0, 0xac1, 0xac2, 0xac3, 0xac4, 0xac5, 0x0, 0xac7, 0xac8, 0xac9, 0x0, 0xacb, 0xacc, 0xacd,
		0xad0, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xae0, 0xae1, 0xae2, 0xae3, 0xaf1,
	},
	6: {
		0x901, 0x902, 0x903, 0x905, 0x906, 0x907, 0x908, 0x909, 0x90a, 0x90b, 0xa, 0x90c, 0x90d, 0xd, 0x90e, 0x90f,
		0x910, 0x911, 0x912, 0x913, 0x914, 0x915, 0x916, 0x917, 0x918, 0x919, 0x91a, 0x1b, 0x91b, 0x91c, 0x91d, 0x91e,
		0x20, 0x21, 0x91f, 0x920, 0x921, 0x922, 0x923, 0x924, 0x29, 0x28, 0x925, 0x926, 0x2c, 0x927, 0x2e, 0x928,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x929, 0x92a, 0x92b, 0x3f,
		0x92c, 0x92d, 0x92e, 0x92f, 0x930, 0x931, 0x932, 0x933, 0x934, 0x935, 0x936, 0x937, 0x938, 0x939, 0x93c, 0x93d,
		0x93e, 0x93f, 0x940, 0x941, 0x942, 0x943, 0x944, 0x945, 0x946, 0x947, 0x948, 0x949, 0x94a, 0x94b, 0x94c, 0x94d,
		0x950, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x972, 0x97b, 0x97c, 0x97e, 0x97f,
	},
	7: {
		0x0, 0xc82, 0xc83, 0xc85, 0xc86, 0xc87, 0xc88, 0xc89, 0xc8a, 0xc8b, 0xa, 0xc8c, 0x0, 0xd, 0xc8e, 0xc8f,
		0xc90, 0x0, 0xc92, 0xc93, 0xc94, 0xc95, 0xc96, 0xc97, 0xc98, 0xc99, 0xc9a, 0x1b, 0xc9b, 0xc9c, 0xc9d, 0xc9e,
		0x20, 0x21, 0xc9f, 0xca0, 0xca1, 0xca2, 0xca3, 0xca4, 0x29, 0x28, 0xca5, 0xca6, 0x2c, 0xca7, 0x2e, 0xca8,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0xcaa, 0xcab, 0x3f,
		0xcac, 0xcad, 0xcae, 0xcaf, 0xcb0, 0xcb1, 0xcb2, 0xcb3, 0x0, 0xcb5, 0xcb6, 0xcb7, 0xcb8, 0xcb9, 0xcbc, 0xcbd,
		0xcbe, 0xcbf, 0xcc0, 0xcc1, 0xcc2, 0xcc3, 0xcc4, 0x0, 0xcc6, 0xcc7, 0xcc8, 0x0, 0xcca, 0xccb, 0xccc, 0xccd,
		0xcd5, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xcd6, 0xce0, 0xce1, 0xce2, 0xce3,
	},
	8: {
		0x0, 0xd02, 0xd03, 0xd05, 0xd06, 0xd07, 0xd08, 0xd09, 0xd0a, 0xd0b, 0xa, 0xd0c, 0x0, 0xd, 0xd0e, 0xd0f,
		0xd10, 0x0, 0xd12, 0xd13, 0xd14, 0xd15, 0xd16, 0xd17, 0xd18, 0xd19, 0xd1a, 0x1b, 0xd1b, 0xd1c, 0xd1d, 0xd1e,
		0x20, 0x21, 0xd1f, 0xd20, 0xd21, 0xd22, 0xd23, 0xd24, 0x29, 0x28, 0xd25, 0xd26, 0x2c, 0xd27, 0x2e, 0xd28,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0xd2a, 0xd2b, 0x3f,
		0xd2c, 0xd2d, 0xd2e, 0xd2f, 0xd30, 0xd31, 0xd32, 0xd33, 0xd34, 0xd35, 0xd36, 0xd37, 0xd38, 0xd39, 0x0, 0xd3d,
		0xd3e, 0xd3f, 0xd40, 0xd41, 0xd42, 0xd43, 0xd44, 0x0, 0xd46, 0xd47, 0xd48, 0x0, 0xd4a, 0xd4b, 0xd4c, 0xd4d,
		0xd57, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xd60, 0xd61, 0xd62, 0xd63, 0xd79,
	},
	9: {
		0xb01, 0xb02, 0xb03, 0xb05, 0xb06, 0xb07, 0xb08, 0xb09, 0xb0a, 0xb0b, 0xa, 0xb0c, 0x0, 0xd, 0x0, 0xb0f,
		0xb10, 0x0, 0x0, 0xb13, 0xb14, 0xb15, 0xb16, 0xb17, 0xb18, 0xb19, 0xb1a, 0x1b, 0xb1b, 0xb1c, 0xb1d, 0xb1e,
		0x20, 0x21, 0xb1f, 0xb20, 0xb21, 0xb22, 0xb23, 0xb24, 0x29, 0x28, 0xb25, 0xb26, 0x2c, 0xb27, 0x2e, 0xb28,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0xb2a, 0xb2b, 0x3f,
		0xb2c, 0xb2d, 0xb2e, 0xb2f, 0xb30, 0x0, 0xb32, 0xb33, 0x0, 0xb35, 0xb36, 0xb37, 0xb38, 0xb39, 0xb3c, 0xb3d,
		0xb3e, 0xb3f, 0xb40, 0xb41, 0xb42, 0xb43, 0xb44, 0x0, 0x0, 0xb47, 0xb48, 0x0, 0x0, 0xb4b, 0xb4c, 0xb4d,
		0xb56, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xb57, 0xb60, 0xb61, 0xb62, 0xb63,
	},
	10: {
		0xa01, 0xa02, 0xa03, 0xa05, 0xa06, 0xa07, 0xa08, 0xa09, 0xa0a, 0x0, 0xa, 0x0, 0x0, 0xd, 0x0, 0xa0f,
		0xa10, 0x0, 0x0, 0xa13, 0xa14, 0xa15, 0xa16, 0xa17, 0xa18, 0xa19, 0xa1a, 0x1b, 0xa1b, 0xa1c, 0xa1d, 0xa1e,
		0x20, 0x21, 0xa1f, 0xa20, 0xa21, 0xa22, 0xa23, 0xa24, 0x29, 0x28, 0xa25, 0xa26, 0x2c, 0xa27, 0x2e, 0xa28,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0xa2a, 0xa2b, 0x3f,
		0xa2c, 0xa2d, 0xa2e, 0xa2f, 0xa30, 0x0, 0xa32, 0xa33, 0x0, 0xa35, 0xa36, 0x0, 0xa38, 0xa39, 0xa3c, 0x0,
		0xa3e, 0xa3f, 0xa40, 0xa41, 0xa42, 0x0, 0x0, 0x0, 0x0, 0xa47, 0xa48, 0x0, 0x0, 0xa4b, 0xa4c, 0xa4d,
		0xa51, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xa70, 0xa71, 0xa72, 0xa73, 0xa74,
	},
	11: {
		0x0, 0xb82, 0xb83, 0xb85, 0xb86, 0xb87, 0xb88, 0xb89, 0xb8a, 0x0, 0xa, 0x0, 0x0, 0xd, 0xb8e, 0xb8f,
		0xb90, 0x0, 0xb92, 0xb93, 0xb94, 0xb95, 0x0, 0x0, 0x0, 0xb99, 0xb9a, 0x1b, 0x0, 0xb9c, 0x0, 0xb9e,
		0x20, 0x21, 0xb9f, 0x0, 0x0, 0x0, 0xba3, 0xba4, 0x29, 0x28, 0x0, 0x0, 0x2c, 0x0, 0x2e, 0xba8,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0xba9, 0xbaa, 0x0, 0x3f,
		0x0, 0x0, 0xbae, 0xbaf, 0xbb0, 0xbb1, 0xbb2, 0xbb3, 0xbb4, 0xbb5, 0xbb6, 0xbb7, 0xbb8, 0xbb9, 0x0, 0x0,
		0xbbe, 0xbbf, 0xbc0, 0xbc1, 0xbc2, 0x0, 0x0, 0x0, 0xbc6, 0xbc7, 0xbc8, 0x0, 0xbca, 0xbcb, 0xbcc, 0xbcd,
		0xbd0, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xbd7, 0xbf0, 0xbf1, 0xbf2, 0xbf9,
	},
	12: {
		0xc01, 0xc02, 0xc03, 0xc05, 0xc06, 0xc07, 0xc08, 0xc09, 0xc0a, 0xc0b, 0xa, 0xc0c, 0x0, 0xd, 0xc0e, 0xc0f,
		0xc10, 0x0, 0xc12, 0xc13, 0xc14, 0xc15, 0xc16, 0xc17, 0xc18, 0xc19, 0xc1a, 0x1b, 0xc1b, 0xc1c, 0xc1d, 0xc1e,
		0x20, 0x21, 0xc1f, 0xc20, 0xc21, 0xc22, 0xc23, 0xc24, 0x29, 0x28, 0xc25, 0xc26, 0x2c, 0xc27, 0x2e, 0xc28,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x0, 0xc2a, 0xc2b, 0x3f,
		0xc2c, 0xc2d, 0xc2e, 0xc2f, 0xc30, 0xc31, 0xc32, 0xc33, 0x0, 0xc35, 0xc36, 0xc37, 0xc38, 0xc39, 0x0, 0xc3d,
		0xc3e, 0xc3f, 0xc40, 0xc41, 0xc42, 0xc43, 0xc44, 0x0, 0xc46, 0xc47, 0xc48, 0x0, 0xc4a, 0xc4b, 0xc4c, 0xc4d,
		0xc55, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0xc56, 0xc60, 0xc61, 0xc62, 0xc63,
	},
	13: {
		0x627, 0x622, 0x628, 0x67b, 0x680, 0x67e, 0x6a6, 0x62a, 0x6c2, 0x67f, 0xa, 0x679, 0x67d, 0xd, 0x67a, 0x67c,
		0x62b, 0x62c, 0x681, 0x684, 0x683, 0x685, 0x686, 0x687, 0x62d, 0x62e, 0x62f, 0x1b, 0x68c, 0x688, 0x689, 0x68a,
		0x20, 0x21, 0x68f, 0x68d, 0x630, 0x631, 0x691, 0x693, 0x29, 0x28, 0x699, 0x632, 0x2c, 0x696, 0x2e, 0x698,
		0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x69a, 0x633, 0x634, 0x3f,
		0x635, 0x636, 0x637, 0x638, 0x639, 0x641, 0x642, 0x6a9, 0x6aa, 0x6ab, 0x6af, 0x6b3, 0x6b1, 0x644, 0x645, 0x646,
		0x6ba, 0x6bb, 0x6bc, 0x648, 0x6c4, 0x6d5, 0x6c1, 0x6be, 0x621, 0x6cc, 0x6d0, 0x6d2, 0x64d, 0x650, 0x64f, 0x657,
		0x654, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
		0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x655, 0x651, 0x653, 0x656, 0x670,
	},
}

var shiftTables = [14][128]rune{
	0: {
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0xc, 0x0, 0x0, 0xa, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x5e, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x7b, 0x7d, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	1: {
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0xc, 0x0, 0x0, 0xa, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x5e, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x7b, 0x7d, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x11e, 0x0, 0x130, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x15e, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0xe7, 0x0, 0x20ac, 0x0, 0x11f, 0x0, 0x131, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x15f, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	2: {
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0xe7, 0xc, 0x0, 0x0, 0xa, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x5e, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x7b, 0x7d, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0xc1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0xcd, 0x0, 0x0, 0x0, 0x0, 0x0, 0xd3,
		0x0, 0x0, 0x0, 0x0, 0x0, 0xda, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0xe1, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0xed, 0x0, 0x0, 0x0, 0x0, 0x0, 0xf3,
		0x0, 0x0, 0x0, 0x0, 0x0, 0xfa, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	3: {
		0x0, 0x0, 0x0, 0x0, 0x0, 0xea, 0x0, 0x0, 0x0, 0xe7, 0xc, 0xd4, 0xf4, 0xa, 0xc1, 0xe1,
		0x0, 0x0, 0x3a6, 0x393, 0x5e, 0x3a9, 0x3a0, 0x3a8, 0x3a3, 0x398, 0x0, 0x0, 0x0, 0x0, 0x0, 0xca,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x7b, 0x7d, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0xc0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0xcd, 0x0, 0x0, 0x0, 0x0, 0x0, 0xd3,
		0x0, 0x0, 0x0, 0x0, 0x0, 0xda, 0x0, 0x0, 0x0, 0x0, 0x0, 0xc3, 0xd5, 0x0, 0x0, 0x0,
		0x0, 0xc2, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0xed, 0x0, 0x0, 0x0, 0x0, 0x0, 0xf3,
		0x0, 0x0, 0x0, 0x0, 0x0, 0xfa, 0x0, 0x0, 0x0, 0x0, 0x0, 0xe3, 0xf5, 0x0, 0x0, 0xe2,
	},
	4: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x9e6, 0x9e7, 0x1b, 0x9e8, 0x9e9, 0x9ea, 0x9eb,
		0x9ec, 0x9ed, 0x9ee, 0x9ef, 0x9df, 0x9e0, 0x9e1, 0x9e2, 0x7b, 0x7d, 0x9e3, 0x9f2, 0x9f3, 0x9f4, 0x9f5, 0x5c,
		0x9f6, 0x9f7, 0x9f8, 0x9f9, 0x9fa, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	5: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0xae6, 0xae7, 0xae8, 0xae9,
		0xaea, 0xaeb, 0xaec, 0xaed, 0xaee, 0xaef, 0x0, 0x0, 0x7b, 0x7d, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	6: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0x966, 0x967, 0x968, 0x969,
		0x96a, 0x96b, 0x96c, 0x96d, 0x96e, 0x96f, 0x951, 0x952, 0x7b, 0x7d, 0x953, 0x954, 0x958, 0x959, 0x95a, 0x5c,
		0x95b, 0x95c, 0x95d, 0x95e, 0x95f, 0x960, 0x961, 0x962, 0x963, 0x970, 0x971, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	7: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0xce6, 0xce7, 0xce8, 0xce9,
		0xcea, 0xceb, 0xcec, 0xced, 0xcee, 0xcef, 0xcde, 0xcf1, 0x7b, 0x7d, 0xcf2, 0x0, 0x0, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	8: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0xd66, 0xd67, 0xd68, 0xd69,
		0xd6a, 0xd6b, 0xd6c, 0xd6d, 0xd6e, 0xd6f, 0xd70, 0xd71, 0x7b, 0x7d, 0xd72, 0xd73, 0xd74, 0xd75, 0xd7a, 0x5c,
		0xd7b, 0xd7c, 0xd7d, 0xd7e, 0xd7f, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	9: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0xb66, 0xb67, 0xb68, 0xb69,
		0xb6a, 0xb6b, 0xb6c, 0xb6d, 0xb6e, 0xb6f, 0xb5c, 0xb5d, 0x7b, 0x7d, 0xb5f, 0xb70, 0xb71, 0x0, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	10: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0xa66, 0xa67, 0xa68, 0xa69,
		0xa6a, 0xa6b, 0xa6c, 0xa6d, 0xa6e, 0xa6f, 0xa59, 0xa5a, 0x7b, 0x7d, 0xa5b, 0xa5c, 0xa5e, 0xa75, 0x0, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	11: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x964, 0x965, 0x1b, 0xbe6, 0xbe7, 0xbe8, 0xbe9,
		0xbea, 0xbeb, 0xbec, 0xbed, 0xbee, 0xbef, 0xbf3, 0xbf4, 0x7b, 0x7d, 0xbf5, 0xbf6, 0xbf7, 0xbf8, 0xbfa, 0x5c,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	12: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x0, 0x0, 0x1b, 0xc66, 0xc67, 0xc68, 0xc69,
		0xc6a, 0xc6b, 0xc6c, 0xc6d, 0xc6e, 0xc6f, 0xc58, 0xc59, 0x7b, 0x7d, 0xc78, 0xc79, 0xc7a, 0xc7b, 0xc7c, 0x5c,
		0xc7d, 0xc7e, 0xc7f, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x5b, 0x7e, 0x5d, 0x0,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
	13: {
		0x40, 0xa3, 0x24, 0xa5, 0xbf, 0x22, 0xa4, 0x25, 0x26, 0x27, 0xc, 0x2a, 0x2b, 0xd, 0x2d, 0x2f,
		0x3c, 0x3d, 0x3e, 0xa1, 0x5e, 0xa1, 0x5f, 0x23, 0x2a, 0x600, 0x601, 0x1b, 0x6f0, 0x6f1, 0x6f2, 0x6f3,
		0x6f4, 0x6f5, 0x6f6, 0x6f7, 0x6f8, 0x6f9, 0x60c, 0x60d, 0x7b, 0x7d, 0x60e, 0x60f, 0x610, 0x611, 0x612, 0x5c,
		0x613, 0x614, 0x61b, 0x61f, 0x640, 0x652, 0x658, 0x66b, 0x66c, 0x672, 0x673, 0x6cd, 0x5b, 0x7e, 0x5d, 0x6d4,
		0x7c, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x20ac, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
		0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
	},
}

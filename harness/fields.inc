// generated by tools/mkfields.py
{5, 3},
{5, 4, 3, 1},
{5, 3, 2, 1},
{7, 1},
{7, 6, 4, 1},
{7, 3, 2, 1},
{9, 8},
{9, 8, 7, 5},
{9, 7, 2, 1},
{11, 2},
{11, 4, 2, 1},
{11, 4, 2, 1},
{13, 11, 5, 4},
{13, 12, 11, 2},
{15, 1},
{15, 7, 2, 1},
{15, 4, 2, 1},
{17, 12},
{17, 13, 5, 1},
{17, 3, 2, 1},
{19, 9, 7, 1},
{19, 14, 10, 3},
{21, 2},
{21, 5, 2, 1},
{21, 5, 2, 1},
{23, 5},
{23, 17, 9, 4},
{23, 17, 7, 1},
{25, 3},
{25, 21, 13, 5},
{25, 17, 5, 1},
{27, 24, 8, 2},
{27, 20, 18, 17},
{29, 2},
{29, 10, 3, 2},
{29, 17, 7, 6},
{31, 13},
{31, 6, 2, 1},
{31, 11, 2, 1},
{33, 10},
{33, 24, 6, 4},
{33, 19, 10, 5},
{35, 33},
{35, 29, 19, 4},
{35, 34, 10, 6},
{37, 21, 12, 6},
{37, 34, 9, 5},
{39, 35},
{39, 13, 10, 4},
{39, 16, 15, 9},
{41, 20},
{41, 17, 16, 12},
{41, 26, 5, 3},
{43, 30, 8, 5},
{43, 26, 2, 1},
{45, 26, 14, 4},
{45, 37, 25, 14},
{47, 20},
{47, 35, 33, 14},
{47, 18, 10, 8},
{49, 37},
{49, 31, 27, 21},
{49, 40, 22, 3},
{51, 33, 10, 4},
{51, 42, 28, 15},
{53, 34, 10, 2},
{53, 52, 2, 1},
{55, 31},
{55, 10, 7, 6},
{55, 32, 12, 4},
{57, 50},
{57, 28, 13, 6},
{57, 5, 3, 2},
{59, 54, 4, 2},
{59, 12, 4, 1},
{61, 42, 8, 2},
{61, 14, 5, 4},
{63, 1},
{63, 56, 31, 19},
{63, 32, 3, 2},
{65, 18},
{65, 22, 14, 10},
{65, 24, 18, 5},
{67, 44, 5, 3},
{67, 24, 9, 7},
{69, 63, 3, 1},
{69, 14, 9, 2},
{71, 6},
{71, 8, 7, 3},
{71, 55, 31, 12},
{73, 25},
{73, 33, 15, 9},
{73, 62, 57, 26},
{75, 26, 17, 7},
{75, 52, 30, 3},
{77, 75, 39, 24},
{77, 64, 5, 3},
{79, 9},
{79, 59, 53, 42},
{79, 39, 16, 7},
{81, 4},
{81, 30, 19, 10},
{81, 21, 16, 3},
{83, 28, 13, 9},
{83, 44, 26, 24},
{85, 60, 24, 10},
{85, 52, 22, 6},
{87, 13},
{87, 81, 51, 2},
{87, 55, 25, 5},
{89, 38},
{89, 87, 14, 8},
{89, 18, 15, 14},
{91, 32, 18, 17},
{91, 39, 20, 2},
{93, 2},
{93, 12, 3, 2},
{93, 88, 72, 15},
{95, 11},
{95, 73, 23, 19},
{95, 76, 61, 23},
{97, 6},
{97, 76, 7, 3},
{97, 6, 4, 2},
{99, 96, 29, 21},
{99, 46, 10, 3},
{101, 95, 87, 59},
{101, 63, 45, 2},
{103, 9},
{103, 100, 76, 52},
{103, 82, 42, 11},
{105, 4},
{105, 81, 53, 42},
{105, 7, 2, 1},
{107, 63, 14, 5},
{107, 39, 3, 2},
{109, 106, 45, 37},
{109, 78, 25, 7},
{111, 10},
{111, 98, 67, 13},
{111, 103, 85, 26},
{113, 9},
{113, 23, 19, 12},
{113, 108, 55, 32},
{115, 77, 64, 51},
{115, 26, 12, 7},
{117, 79, 41, 2},
{117, 98, 16, 1},
{119, 8},
{119, 29, 6, 4},
{119, 9, 7, 4},
{121, 18},
{121, 106, 11, 8},
{121, 29, 25, 23},
{123, 2},
{123, 15, 10, 3},
{123, 35, 20, 1},
{125, 11, 7, 6},
{125, 41, 26, 12},
{127, 1},
{127, 119, 51, 29},
{127, 61, 6, 1},
{129, 5},
{129, 89, 64, 11},
{129, 69, 6, 5},
{131, 42, 38, 31},
{131, 79, 42, 35},
{133, 113, 93, 38},
{133, 87, 13, 8},
{135, 11},
{135, 110, 98, 29},
{135, 30, 12, 10},
{137, 21},
{137, 45, 34, 19},
{137, 63, 53, 40},
{139, 61, 27, 26},
{139, 133, 131, 86},
{141, 84, 68, 66},
{141, 131, 129, 51},
{143, 44, 25, 21},
{143, 57, 35, 12},
{145, 52},
{145, 105, 64, 22},
{145, 93, 27, 24},
{147, 14},
{147, 102, 41, 2},
{147, 36, 30, 2},
{149, 58, 8, 7},
{149, 114, 12, 9},
{151, 3},
{151, 33, 11, 5},
{151, 108, 81, 28},
{153, 1},
{153, 108, 76, 3},
{153, 74, 42, 5},
{155, 62},
{155, 134, 59, 6},
{155, 7, 5, 4},
{157, 134, 19, 14},
{157, 79, 21, 16},
{159, 31},
{159, 82, 67, 51},
{159, 52, 5, 4},
{161, 18},
{161, 130, 32, 4},
{161, 107, 99, 19},
{163, 125, 99, 58},
{163, 28, 24, 10},
{165, 37, 27, 12},
{165, 82, 63, 40},
{167, 6},
{167, 23, 11, 3},
{167, 80, 15, 3},
{169, 34},
{169, 11, 9, 2},
{169, 78, 13, 5},
{171, 71, 36, 26},
{171, 73, 49, 38},
{173, 31, 10, 9},
{173, 10, 2, 1},
{175, 6},
{175, 111, 20, 2},
{175, 95, 21, 1},
{177, 8},
{177, 173, 123, 110},
{177, 146, 113, 26},
{179, 33, 20, 9},
{179, 101, 26, 2},
{181, 110, 80, 25},
{181, 133, 34, 15},
{183, 56},
{183, 50, 38, 19},
{183, 164, 113, 19},
{185, 24},
{185, 50, 17, 15},
{185, 107, 54, 41},
{187, 29, 16, 12},
{187, 105, 46, 36},
{189, 94, 43, 15},
{189, 169, 55, 18},
{191, 9},
{191, 66, 44, 40},
{191, 158, 144, 28},
{193, 15},
{193, 90, 84, 19},
{193, 163, 41, 6},
{195, 54, 8, 2},
{195, 155, 86, 38},
{197, 49, 44, 19},
{197, 108, 54, 2},
{199, 34},
{199, 11, 4, 3},
{199, 175, 15, 13},
{201, 14},
{201, 124, 49, 17},
{211, 170, 117, 59},
{221, 182, 105, 11},
{231, 26},
{231, 95, 56, 16},
{233, 74},
{233, 140, 82, 13},
{239, 36},
{239, 15, 2, 1},
{241, 70},
{241, 226, 216, 177},
{251, 102, 5, 4},
{257, 12},
{257, 134, 109, 33},
{261, 156, 44, 30},
{271, 58},
{271, 76, 54, 12},
{281, 93},
{281, 96, 28, 10},
{283, 250, 27, 16},
{291, 175, 102, 24},
{301, 64, 16, 15},
{307, 234, 190, 122},
{311, 277, 15, 5},
{321, 31},
{321, 149, 54, 48},
{331, 306, 36, 15},
{341, 164, 142, 39},
{351, 34},
{351, 37, 31, 11},
{361, 221, 75, 23},
{367, 21},
{367, 216, 211, 187},
{371, 110, 100, 28},
{381, 274, 47, 7},
{391, 28},
{391, 342, 261, 253},
{401, 152},
{401, 350, 298, 39},
{409, 87},
{409, 172, 159, 83},
{411, 384, 305, 102},
{421, 257, 114, 35},
{431, 120},
{431, 49, 45, 37},
{441, 7},
{441, 292, 270, 214},
{451, 409, 357, 52},
{461, 36, 34, 20},
{471, 1},
{471, 300, 246, 65},
{481, 138},
{481, 173, 92, 63},
{491, 50, 29, 18},
{501, 336, 295, 4},
{511, 10},
{511, 451, 98, 26},
{521, 32},
{521, 124, 28, 8},
{531, 469, 136, 3},
{541, 82, 39, 26},
{551, 135},
{551, 386, 98, 60},
{561, 71},
{561, 80, 46, 26},
{571, 110, 98, 87},

// generated by tools/mktoys.py: m, exponents, a, b, n, Gx, Gy
{-1, {5, 2}, 0, "01", "0b", "04", "12"},
{-1, {5, 2}, 0, "1a", "07", "10", "0f"},
{-1, {5, 2}, 1, "0b", "0d", "11", "0a"},
{-1, {5, 2}, 1, "11", "13", "1a", "07"},
{-1, {5, 3, 2, 1}, 0, "0c", "07", "1d", "1c"},
{-1, {5, 3, 2, 1}, 0, "01", "0b", "0f", "09"},
{-1, {5, 3, 2, 1}, 1, "1d", "0d", "08", "16"},
{-1, {5, 3, 2, 1}, 1, "1a", "13", "11", "02"},
{-1, {7, 1}, 0, "43", "25", "66", "3f"},
{-1, {7, 1}, 0, "5f", "25", "42", "4e"},
{-1, {7, 1}, 1, "45", "3b", "3f", "4c"},
{-1, {7, 1}, 1, "07", "47", "3b", "5f"},
{-1, {7, 3, 2, 1}, 0, "26", "1f", "0e", "40"},
{-1, {7, 3, 2, 1}, 0, "32", "1d", "21", "40"},
{-1, {7, 3, 2, 1}, 1, "32", "47", "74", "66"},
{-1, {7, 3, 2, 1}, 1, "2e", "43", "2e", "4e"},
{-1, {9, 1}, 0, "0017", "007f", "0196", "012e"},
{-1, {9, 1}, 0, "0167", "0089", "0128", "009c"},
{-1, {9, 1}, 1, "0109", "00fb", "00a1", "0181"},
{-1, {9, 1}, 1, "01e3", "010f", "0153", "0026"},
{-1, {9, 4, 2, 1}, 0, "0015", "0083", "00e6", "011f"},
{-1, {9, 4, 2, 1}, 0, "0045", "0083", "00c9", "01d0"},
{-1, {9, 4, 2, 1}, 1, "004d", "00fb", "009a", "01a8"},
{-1, {9, 4, 2, 1}, 1, "01a3", "010f", "004f", "01c7"},
{-1, {11, 2}, 0, "03ae", "020b", "000e", "04a0"},
{-1, {11, 2}, 0, "05cd", "01fd", "00e6", "01e0"},
{-1, {11, 2}, 1, "016e", "0419", "0350", "043e"},
{-1, {11, 2}, 1, "06b0", "041b", "0200", "0207"},
{-1, {11, 4, 2, 1}, 0, "0664", "01eb", "0349", "028c"},
{-1, {11, 4, 2, 1}, 0, "01e0", "020b", "0261", "05a2"},
{-1, {11, 4, 2, 1}, 1, "01c3", "03f5", "0133", "00b5"},
{-1, {11, 4, 2, 1}, 1, "0039", "03fb", "052b", "06d5"},
{-1, {13, 4, 3, 1}, 0, "0ccb", "0823", "14ac", "155b"},
{-1, {13, 4, 3, 1}, 1, "0d88", "0fd9", "01f3", "1313"},
{-1, {15, 1}, 0, "334d", "1fff", "2508", "296c"},
{-1, {15, 1}, 1, "5238", "4091", "595b", "7c39"},
{-1, {15, 4, 2, 1}, 0, "3da5", "2027", "1ef9", "338c"},
{-1, {15, 4, 2, 1}, 1, "5fb4", "3fbf", "0045", "0df4"},

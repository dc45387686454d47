// generated by tools/gen_gcb.pl from the Unicode 15.0.0 database of perl v5.38.2; do not edit
enum Gcb : unsigned char { G_Other, G_CR, G_LF, G_Control, G_Extend, G_ZWJ, G_Regional_Indicator, G_Prepend, G_SpacingMark, G_L, G_V, G_T, G_LV, G_LVT, G_ExtPict };
struct GcbRange { char32_t first, last; Gcb g; bool in13; /* same class in Unicode 13 */ };
static const GcbRange gcb_ranges[] = {
    {0x0, 0x9, G_Control, true},
    {0xA, 0xA, G_LF, true},
    {0xB, 0xC, G_Control, true},
    {0xD, 0xD, G_CR, true},
    {0xE, 0x1F, G_Control, true},
    {0x20, 0x7E, G_Other, true},
    {0x7F, 0x9F, G_Control, true},
    {0xA0, 0xA8, G_Other, true},
    {0xA9, 0xA9, G_ExtPict, true},
    {0xAA, 0xAC, G_Other, true},
    {0xAD, 0xAD, G_Control, true},
    {0xAE, 0xAE, G_ExtPict, true},
    {0xAF, 0x2FF, G_Other, true},
    {0x300, 0x36F, G_Extend, true},
    {0x370, 0x482, G_Other, true},
    {0x483, 0x489, G_Extend, true},
    {0x48A, 0x590, G_Other, true},
    {0x591, 0x5BD, G_Extend, true},
    {0x5BE, 0x5BE, G_Other, true},
    {0x5BF, 0x5BF, G_Extend, true},
    {0x5C0, 0x5C0, G_Other, true},
    {0x5C1, 0x5C2, G_Extend, true},
    {0x5C3, 0x5C3, G_Other, true},
    {0x5C4, 0x5C5, G_Extend, true},
    {0x5C6, 0x5C6, G_Other, true},
    {0x5C7, 0x5C7, G_Extend, true},
    {0x5C8, 0x5FF, G_Other, true},
    {0x600, 0x605, G_Prepend, true},
    {0x606, 0x60F, G_Other, true},
    {0x610, 0x61A, G_Extend, true},
    {0x61B, 0x61B, G_Other, true},
    {0x61C, 0x61C, G_Control, true},
    {0x61D, 0x64A, G_Other, true},
    {0x64B, 0x65F, G_Extend, true},
    {0x660, 0x66F, G_Other, true},
    {0x670, 0x670, G_Extend, true},
    {0x671, 0x6D5, G_Other, true},
    {0x6D6, 0x6DC, G_Extend, true},
    {0x6DD, 0x6DD, G_Prepend, true},
    {0x6DE, 0x6DE, G_Other, true},
    {0x6DF, 0x6E4, G_Extend, true},
    {0x6E5, 0x6E6, G_Other, true},
    {0x6E7, 0x6E8, G_Extend, true},
    {0x6E9, 0x6E9, G_Other, true},
    {0x6EA, 0x6ED, G_Extend, true},
    {0x6EE, 0x70E, G_Other, true},
    {0x70F, 0x70F, G_Prepend, true},
    {0x710, 0x710, G_Other, true},
    {0x711, 0x711, G_Extend, true},
    {0x712, 0x72F, G_Other, true},
    {0x730, 0x74A, G_Extend, true},
    {0x74B, 0x7A5, G_Other, true},
    {0x7A6, 0x7B0, G_Extend, true},
    {0x7B1, 0x7EA, G_Other, true},
    {0x7EB, 0x7F3, G_Extend, true},
    {0x7F4, 0x7FC, G_Other, true},
    {0x7FD, 0x7FD, G_Extend, true},
    {0x7FE, 0x815, G_Other, true},
    {0x816, 0x819, G_Extend, true},
    {0x81A, 0x81A, G_Other, true},
    {0x81B, 0x823, G_Extend, true},
    {0x824, 0x824, G_Other, true},
    {0x825, 0x827, G_Extend, true},
    {0x828, 0x828, G_Other, true},
    {0x829, 0x82D, G_Extend, true},
    {0x82E, 0x858, G_Other, true},
    {0x859, 0x85B, G_Extend, true},
    {0x85C, 0x88F, G_Other, true},
    {0x890, 0x891, G_Prepend, false},
    {0x892, 0x897, G_Other, true},
    {0x898, 0x89F, G_Extend, false},
    {0x8A0, 0x8C9, G_Other, true},
    {0x8CA, 0x8D2, G_Extend, false},
    {0x8D3, 0x8E1, G_Extend, true},
    {0x8E2, 0x8E2, G_Prepend, true},
    {0x8E3, 0x902, G_Extend, true},
    {0x903, 0x903, G_SpacingMark, true},
    {0x904, 0x939, G_Other, true},
    {0x93A, 0x93A, G_Extend, true},
    {0x93B, 0x93B, G_SpacingMark, true},
    {0x93C, 0x93C, G_Extend, true},
    {0x93D, 0x93D, G_Other, true},
    {0x93E, 0x940, G_SpacingMark, true},
    {0x941, 0x948, G_Extend, true},
    {0x949, 0x94C, G_SpacingMark, true},
    {0x94D, 0x94D, G_Extend, true},
    {0x94E, 0x94F, G_SpacingMark, true},
    {0x950, 0x950, G_Other, true},
    {0x951, 0x957, G_Extend, true},
    {0x958, 0x961, G_Other, true},
    {0x962, 0x963, G_Extend, true},
    {0x964, 0x980, G_Other, true},
    {0x981, 0x981, G_Extend, true},
    {0x982, 0x983, G_SpacingMark, true},
    {0x984, 0x9BB, G_Other, true},
    {0x9BC, 0x9BC, G_Extend, true},
    {0x9BD, 0x9BD, G_Other, true},
    {0x9BE, 0x9BE, G_Extend, true},
    {0x9BF, 0x9C0, G_SpacingMark, true},
    {0x9C1, 0x9C4, G_Extend, true},
    {0x9C5, 0x9C6, G_Other, true},
    {0x9C7, 0x9C8, G_SpacingMark, true},
    {0x9C9, 0x9CA, G_Other, true},
    {0x9CB, 0x9CC, G_SpacingMark, true},
    {0x9CD, 0x9CD, G_Extend, true},
    {0x9CE, 0x9D6, G_Other, true},
    {0x9D7, 0x9D7, G_Extend, true},
    {0x9D8, 0x9E1, G_Other, true},
    {0x9E2, 0x9E3, G_Extend, true},
    {0x9E4, 0x9FD, G_Other, true},
    {0x9FE, 0x9FE, G_Extend, true},
    {0x9FF, 0xA00, G_Other, true},
    {0xA01, 0xA02, G_Extend, true},
    {0xA03, 0xA03, G_SpacingMark, true},
    {0xA04, 0xA3B, G_Other, true},
    {0xA3C, 0xA3C, G_Extend, true},
    {0xA3D, 0xA3D, G_Other, true},
    {0xA3E, 0xA40, G_SpacingMark, true},
    {0xA41, 0xA42, G_Extend, true},
    {0xA43, 0xA46, G_Other, true},
    {0xA47, 0xA48, G_Extend, true},
    {0xA49, 0xA4A, G_Other, true},
    {0xA4B, 0xA4D, G_Extend, true},
    {0xA4E, 0xA50, G_Other, true},
    {0xA51, 0xA51, G_Extend, true},
    {0xA52, 0xA6F, G_Other, true},
    {0xA70, 0xA71, G_Extend, true},
    {0xA72, 0xA74, G_Other, true},
    {0xA75, 0xA75, G_Extend, true},
    {0xA76, 0xA80, G_Other, true},
    {0xA81, 0xA82, G_Extend, true},
    {0xA83, 0xA83, G_SpacingMark, true},
    {0xA84, 0xABB, G_Other, true},
    {0xABC, 0xABC, G_Extend, true},
    {0xABD, 0xABD, G_Other, true},
    {0xABE, 0xAC0, G_SpacingMark, true},
    {0xAC1, 0xAC5, G_Extend, true},
    {0xAC6, 0xAC6, G_Other, true},
    {0xAC7, 0xAC8, G_Extend, true},
    {0xAC9, 0xAC9, G_SpacingMark, true},
    {0xACA, 0xACA, G_Other, true},
    {0xACB, 0xACC, G_SpacingMark, true},
    {0xACD, 0xACD, G_Extend, true},
    {0xACE, 0xAE1, G_Other, true},
    {0xAE2, 0xAE3, G_Extend, true},
    {0xAE4, 0xAF9, G_Other, true},
    {0xAFA, 0xAFF, G_Extend, true},
    {0xB00, 0xB00, G_Other, true},
    {0xB01, 0xB01, G_Extend, true},
    {0xB02, 0xB03, G_SpacingMark, true},
    {0xB04, 0xB3B, G_Other, true},
    {0xB3C, 0xB3C, G_Extend, true},
    {0xB3D, 0xB3D, G_Other, true},
    {0xB3E, 0xB3F, G_Extend, true},
    {0xB40, 0xB40, G_SpacingMark, true},
    {0xB41, 0xB44, G_Extend, true},
    {0xB45, 0xB46, G_Other, true},
    {0xB47, 0xB48, G_SpacingMark, true},
    {0xB49, 0xB4A, G_Other, true},
    {0xB4B, 0xB4C, G_SpacingMark, true},
    {0xB4D, 0xB4D, G_Extend, true},
    {0xB4E, 0xB54, G_Other, true},
    {0xB55, 0xB57, G_Extend, true},
    {0xB58, 0xB61, G_Other, true},
    {0xB62, 0xB63, G_Extend, true},
    {0xB64, 0xB81, G_Other, true},
    {0xB82, 0xB82, G_Extend, true},
    {0xB83, 0xBBD, G_Other, true},
    {0xBBE, 0xBBE, G_Extend, true},
    {0xBBF, 0xBBF, G_SpacingMark, true},
    {0xBC0, 0xBC0, G_Extend, true},
    {0xBC1, 0xBC2, G_SpacingMark, true},
    {0xBC3, 0xBC5, G_Other, true},
    {0xBC6, 0xBC8, G_SpacingMark, true},
    {0xBC9, 0xBC9, G_Other, true},
    {0xBCA, 0xBCC, G_SpacingMark, true},
    {0xBCD, 0xBCD, G_Extend, true},
    {0xBCE, 0xBD6, G_Other, true},
    {0xBD7, 0xBD7, G_Extend, true},
    {0xBD8, 0xBFF, G_Other, true},
    {0xC00, 0xC00, G_Extend, true},
    {0xC01, 0xC03, G_SpacingMark, true},
    {0xC04, 0xC04, G_Extend, true},
    {0xC05, 0xC3B, G_Other, true},
    {0xC3C, 0xC3C, G_Extend, false},
    {0xC3D, 0xC3D, G_Other, true},
    {0xC3E, 0xC40, G_Extend, true},
    {0xC41, 0xC44, G_SpacingMark, true},
    {0xC45, 0xC45, G_Other, true},
    {0xC46, 0xC48, G_Extend, true},
    {0xC49, 0xC49, G_Other, true},
    {0xC4A, 0xC4D, G_Extend, true},
    {0xC4E, 0xC54, G_Other, true},
    {0xC55, 0xC56, G_Extend, true},
    {0xC57, 0xC61, G_Other, true},
    {0xC62, 0xC63, G_Extend, true},
    {0xC64, 0xC80, G_Other, true},
    {0xC81, 0xC81, G_Extend, true},
    {0xC82, 0xC83, G_SpacingMark, true},
    {0xC84, 0xCBB, G_Other, true},
    {0xCBC, 0xCBC, G_Extend, true},
    {0xCBD, 0xCBD, G_Other, true},
    {0xCBE, 0xCBE, G_SpacingMark, true},
    {0xCBF, 0xCBF, G_Extend, true},
    {0xCC0, 0xCC1, G_SpacingMark, true},
    {0xCC2, 0xCC2, G_Extend, true},
    {0xCC3, 0xCC4, G_SpacingMark, true},
    {0xCC5, 0xCC5, G_Other, true},
    {0xCC6, 0xCC6, G_Extend, true},
    {0xCC7, 0xCC8, G_SpacingMark, true},
    {0xCC9, 0xCC9, G_Other, true},
    {0xCCA, 0xCCB, G_SpacingMark, true},
    {0xCCC, 0xCCD, G_Extend, true},
    {0xCCE, 0xCD4, G_Other, true},
    {0xCD5, 0xCD6, G_Extend, true},
    {0xCD7, 0xCE1, G_Other, true},
    {0xCE2, 0xCE3, G_Extend, true},
    {0xCE4, 0xCF2, G_Other, true},
    {0xCF3, 0xCF3, G_SpacingMark, false},
    {0xCF4, 0xCFF, G_Other, true},
    {0xD00, 0xD01, G_Extend, true},
    {0xD02, 0xD03, G_SpacingMark, true},
    {0xD04, 0xD3A, G_Other, true},
    {0xD3B, 0xD3C, G_Extend, true},
    {0xD3D, 0xD3D, G_Other, true},
    {0xD3E, 0xD3E, G_Extend, true},
    {0xD3F, 0xD40, G_SpacingMark, true},
    {0xD41, 0xD44, G_Extend, true},
    {0xD45, 0xD45, G_Other, true},
    {0xD46, 0xD48, G_SpacingMark, true},
    {0xD49, 0xD49, G_Other, true},
    {0xD4A, 0xD4C, G_SpacingMark, true},
    {0xD4D, 0xD4D, G_Extend, true},
    {0xD4E, 0xD4E, G_Prepend, true},
    {0xD4F, 0xD56, G_Other, true},
    {0xD57, 0xD57, G_Extend, true},
    {0xD58, 0xD61, G_Other, true},
    {0xD62, 0xD63, G_Extend, true},
    {0xD64, 0xD80, G_Other, true},
    {0xD81, 0xD81, G_Extend, true},
    {0xD82, 0xD83, G_SpacingMark, true},
    {0xD84, 0xDC9, G_Other, true},
    {0xDCA, 0xDCA, G_Extend, true},
    {0xDCB, 0xDCE, G_Other, true},
    {0xDCF, 0xDCF, G_Extend, true},
    {0xDD0, 0xDD1, G_SpacingMark, true},
    {0xDD2, 0xDD4, G_Extend, true},
    {0xDD5, 0xDD5, G_Other, true},
    {0xDD6, 0xDD6, G_Extend, true},
    {0xDD7, 0xDD7, G_Other, true},
    {0xDD8, 0xDDE, G_SpacingMark, true},
    {0xDDF, 0xDDF, G_Extend, true},
    {0xDE0, 0xDF1, G_Other, true},
    {0xDF2, 0xDF3, G_SpacingMark, true},
    {0xDF4, 0xE30, G_Other, true},
    {0xE31, 0xE31, G_Extend, true},
    {0xE32, 0xE32, G_Other, true},
    {0xE33, 0xE33, G_SpacingMark, true},
    {0xE34, 0xE3A, G_Extend, true},
    {0xE3B, 0xE46, G_Other, true},
    {0xE47, 0xE4E, G_Extend, true},
    {0xE4F, 0xEB0, G_Other, true},
    {0xEB1, 0xEB1, G_Extend, true},
    {0xEB2, 0xEB2, G_Other, true},
    {0xEB3, 0xEB3, G_SpacingMark, true},
    {0xEB4, 0xEBC, G_Extend, true},
    {0xEBD, 0xEC7, G_Other, true},
    {0xEC8, 0xECD, G_Extend, true},
    {0xECE, 0xECE, G_Extend, false},
    {0xECF, 0xF17, G_Other, true},
    {0xF18, 0xF19, G_Extend, true},
    {0xF1A, 0xF34, G_Other, true},
    {0xF35, 0xF35, G_Extend, true},
    {0xF36, 0xF36, G_Other, true},
    {0xF37, 0xF37, G_Extend, true},
    {0xF38, 0xF38, G_Other, true},
    {0xF39, 0xF39, G_Extend, true},
    {0xF3A, 0xF3D, G_Other, true},
    {0xF3E, 0xF3F, G_SpacingMark, true},
    {0xF40, 0xF70, G_Other, true},
    {0xF71, 0xF7E, G_Extend, true},
    {0xF7F, 0xF7F, G_SpacingMark, true},
    {0xF80, 0xF84, G_Extend, true},
    {0xF85, 0xF85, G_Other, true},
    {0xF86, 0xF87, G_Extend, true},
    {0xF88, 0xF8C, G_Other, true},
    {0xF8D, 0xF97, G_Extend, true},
    {0xF98, 0xF98, G_Other, true},
    {0xF99, 0xFBC, G_Extend, true},
    {0xFBD, 0xFC5, G_Other, true},
    {0xFC6, 0xFC6, G_Extend, true},
    {0xFC7, 0x102C, G_Other, true},
    {0x102D, 0x1030, G_Extend, true},
    {0x1031, 0x1031, G_SpacingMark, true},
    {0x1032, 0x1037, G_Extend, true},
    {0x1038, 0x1038, G_Other, true},
    {0x1039, 0x103A, G_Extend, true},
    {0x103B, 0x103C, G_SpacingMark, true},
    {0x103D, 0x103E, G_Extend, true},
    {0x103F, 0x1055, G_Other, true},
    {0x1056, 0x1057, G_SpacingMark, true},
    {0x1058, 0x1059, G_Extend, true},
    {0x105A, 0x105D, G_Other, true},
    {0x105E, 0x1060, G_Extend, true},
    {0x1061, 0x1070, G_Other, true},
    {0x1071, 0x1074, G_Extend, true},
    {0x1075, 0x1081, G_Other, true},
    {0x1082, 0x1082, G_Extend, true},
    {0x1083, 0x1083, G_Other, true},
    {0x1084, 0x1084, G_SpacingMark, true},
    {0x1085, 0x1086, G_Extend, true},
    {0x1087, 0x108C, G_Other, true},
    {0x108D, 0x108D, G_Extend, true},
    {0x108E, 0x109C, G_Other, true},
    {0x109D, 0x109D, G_Extend, true},
    {0x109E, 0x10FF, G_Other, true},
    {0x1100, 0x115F, G_L, true},
    {0x1160, 0x11A7, G_V, true},
    {0x11A8, 0x11FF, G_T, true},
    {0x1200, 0x135C, G_Other, true},
    {0x135D, 0x135F, G_Extend, true},
    {0x1360, 0x1711, G_Other, true},
    {0x1712, 0x1714, G_Extend, true},
    {0x1715, 0x1715, G_SpacingMark, false},
    {0x1716, 0x1731, G_Other, true},
    {0x1732, 0x1734, G_Extend, true},
    {0x1735, 0x1751, G_Other, true},
    {0x1752, 0x1753, G_Extend, true},
    {0x1754, 0x1771, G_Other, true},
    {0x1772, 0x1773, G_Extend, true},
    {0x1774, 0x17B3, G_Other, true},
    {0x17B4, 0x17B5, G_Extend, true},
    {0x17B6, 0x17B6, G_SpacingMark, true},
    {0x17B7, 0x17BD, G_Extend, true},
    {0x17BE, 0x17C5, G_SpacingMark, true},
    {0x17C6, 0x17C6, G_Extend, true},
    {0x17C7, 0x17C8, G_SpacingMark, true},
    {0x17C9, 0x17D3, G_Extend, true},
    {0x17D4, 0x17DC, G_Other, true},
    {0x17DD, 0x17DD, G_Extend, true},
    {0x17DE, 0x180A, G_Other, true},
    {0x180B, 0x180D, G_Extend, true},
    {0x180E, 0x180E, G_Control, true},
    {0x180F, 0x180F, G_Extend, false},
    {0x1810, 0x1884, G_Other, true},
    {0x1885, 0x1886, G_Extend, true},
    {0x1887, 0x18A8, G_Other, true},
    {0x18A9, 0x18A9, G_Extend, true},
    {0x18AA, 0x191F, G_Other, true},
    {0x1920, 0x1922, G_Extend, true},
    {0x1923, 0x1926, G_SpacingMark, true},
    {0x1927, 0x1928, G_Extend, true},
    {0x1929, 0x192B, G_SpacingMark, true},
    {0x192C, 0x192F, G_Other, true},
    {0x1930, 0x1931, G_SpacingMark, true},
    {0x1932, 0x1932, G_Extend, true},
    {0x1933, 0x1938, G_SpacingMark, true},
    {0x1939, 0x193B, G_Extend, true},
    {0x193C, 0x1A16, G_Other, true},
    {0x1A17, 0x1A18, G_Extend, true},
    {0x1A19, 0x1A1A, G_SpacingMark, true},
    {0x1A1B, 0x1A1B, G_Extend, true},
    {0x1A1C, 0x1A54, G_Other, true},
    {0x1A55, 0x1A55, G_SpacingMark, true},
    {0x1A56, 0x1A56, G_Extend, true},
    {0x1A57, 0x1A57, G_SpacingMark, true},
    {0x1A58, 0x1A5E, G_Extend, true},
    {0x1A5F, 0x1A5F, G_Other, true},
    {0x1A60, 0x1A60, G_Extend, true},
    {0x1A61, 0x1A61, G_Other, true},
    {0x1A62, 0x1A62, G_Extend, true},
    {0x1A63, 0x1A64, G_Other, true},
    {0x1A65, 0x1A6C, G_Extend, true},
    {0x1A6D, 0x1A72, G_SpacingMark, true},
    {0x1A73, 0x1A7C, G_Extend, true},
    {0x1A7D, 0x1A7E, G_Other, true},
    {0x1A7F, 0x1A7F, G_Extend, true},
    {0x1A80, 0x1AAF, G_Other, true},
    {0x1AB0, 0x1AC0, G_Extend, true},
    {0x1AC1, 0x1ACE, G_Extend, false},
    {0x1ACF, 0x1AFF, G_Other, true},
    {0x1B00, 0x1B03, G_Extend, true},
    {0x1B04, 0x1B04, G_SpacingMark, true},
    {0x1B05, 0x1B33, G_Other, true},
    {0x1B34, 0x1B3A, G_Extend, true},
    {0x1B3B, 0x1B3B, G_SpacingMark, true},
    {0x1B3C, 0x1B3C, G_Extend, true},
    {0x1B3D, 0x1B41, G_SpacingMark, true},
    {0x1B42, 0x1B42, G_Extend, true},
    {0x1B43, 0x1B44, G_SpacingMark, true},
    {0x1B45, 0x1B6A, G_Other, true},
    {0x1B6B, 0x1B73, G_Extend, true},
    {0x1B74, 0x1B7F, G_Other, true},
    {0x1B80, 0x1B81, G_Extend, true},
    {0x1B82, 0x1B82, G_SpacingMark, true},
    {0x1B83, 0x1BA0, G_Other, true},
    {0x1BA1, 0x1BA1, G_SpacingMark, true},
    {0x1BA2, 0x1BA5, G_Extend, true},
    {0x1BA6, 0x1BA7, G_SpacingMark, true},
    {0x1BA8, 0x1BA9, G_Extend, true},
    {0x1BAA, 0x1BAA, G_SpacingMark, true},
    {0x1BAB, 0x1BAD, G_Extend, true},
    {0x1BAE, 0x1BE5, G_Other, true},
    {0x1BE6, 0x1BE6, G_Extend, true},
    {0x1BE7, 0x1BE7, G_SpacingMark, true},
    {0x1BE8, 0x1BE9, G_Extend, true},
    {0x1BEA, 0x1BEC, G_SpacingMark, true},
    {0x1BED, 0x1BED, G_Extend, true},
    {0x1BEE, 0x1BEE, G_SpacingMark, true},
    {0x1BEF, 0x1BF1, G_Extend, true},
    {0x1BF2, 0x1BF3, G_SpacingMark, true},
    {0x1BF4, 0x1C23, G_Other, true},
    {0x1C24, 0x1C2B, G_SpacingMark, true},
    {0x1C2C, 0x1C33, G_Extend, true},
    {0x1C34, 0x1C35, G_SpacingMark, true},
    {0x1C36, 0x1C37, G_Extend, true},
    {0x1C38, 0x1CCF, G_Other, true},
    {0x1CD0, 0x1CD2, G_Extend, true},
    {0x1CD3, 0x1CD3, G_Other, true},
    {0x1CD4, 0x1CE0, G_Extend, true},
    {0x1CE1, 0x1CE1, G_SpacingMark, true},
    {0x1CE2, 0x1CE8, G_Extend, true},
    {0x1CE9, 0x1CEC, G_Other, true},
    {0x1CED, 0x1CED, G_Extend, true},
    {0x1CEE, 0x1CF3, G_Other, true},
    {0x1CF4, 0x1CF4, G_Extend, true},
    {0x1CF5, 0x1CF6, G_Other, true},
    {0x1CF7, 0x1CF7, G_SpacingMark, true},
    {0x1CF8, 0x1CF9, G_Extend, true},
    {0x1CFA, 0x1DBF, G_Other, true},
    {0x1DC0, 0x1DF9, G_Extend, true},
    {0x1DFA, 0x1DFA, G_Extend, false},
    {0x1DFB, 0x1DFF, G_Extend, true},
    {0x1E00, 0x200A, G_Other, true},
    {0x200B, 0x200B, G_Control, true},
    {0x200C, 0x200C, G_Extend, true},
    {0x200D, 0x200D, G_ZWJ, true},
    {0x200E, 0x200F, G_Control, true},
    {0x2010, 0x2027, G_Other, true},
    {0x2028, 0x202E, G_Control, true},
    {0x202F, 0x203B, G_Other, true},
    {0x203C, 0x203C, G_ExtPict, true},
    {0x203D, 0x2048, G_Other, true},
    {0x2049, 0x2049, G_ExtPict, true},
    {0x204A, 0x205F, G_Other, true},
    {0x2060, 0x206F, G_Control, true},
    {0x2070, 0x20CF, G_Other, true},
    {0x20D0, 0x20F0, G_Extend, true},
    {0x20F1, 0x2121, G_Other, true},
    {0x2122, 0x2122, G_ExtPict, true},
    {0x2123, 0x2138, G_Other, true},
    {0x2139, 0x2139, G_ExtPict, true},
    {0x213A, 0x2193, G_Other, true},
    {0x2194, 0x2199, G_ExtPict, true},
    {0x219A, 0x21A8, G_Other, true},
    {0x21A9, 0x21AA, G_ExtPict, true},
    {0x21AB, 0x2319, G_Other, true},
    {0x231A, 0x231B, G_ExtPict, true},
    {0x231C, 0x2327, G_Other, true},
    {0x2328, 0x2328, G_ExtPict, true},
    {0x2329, 0x2387, G_Other, true},
    {0x2388, 0x2388, G_ExtPict, true},
    {0x2389, 0x23CE, G_Other, true},
    {0x23CF, 0x23CF, G_ExtPict, true},
    {0x23D0, 0x23E8, G_Other, true},
    {0x23E9, 0x23F3, G_ExtPict, true},
    {0x23F4, 0x23F7, G_Other, true},
    {0x23F8, 0x23FA, G_ExtPict, true},
    {0x23FB, 0x24C1, G_Other, true},
    {0x24C2, 0x24C2, G_ExtPict, true},
    {0x24C3, 0x25A9, G_Other, true},
    {0x25AA, 0x25AB, G_ExtPict, true},
    {0x25AC, 0x25B5, G_Other, true},
    {0x25B6, 0x25B6, G_ExtPict, true},
    {0x25B7, 0x25BF, G_Other, true},
    {0x25C0, 0x25C0, G_ExtPict, true},
    {0x25C1, 0x25FA, G_Other, true},
    {0x25FB, 0x25FE, G_ExtPict, true},
    {0x25FF, 0x25FF, G_Other, true},
    {0x2600, 0x2605, G_ExtPict, true},
    {0x2606, 0x2606, G_Other, true},
    {0x2607, 0x2612, G_ExtPict, true},
    {0x2613, 0x2613, G_Other, true},
    {0x2614, 0x2685, G_ExtPict, true},
    {0x2686, 0x268F, G_Other, true},
    {0x2690, 0x2705, G_ExtPict, true},
    {0x2706, 0x2707, G_Other, true},
    {0x2708, 0x2712, G_ExtPict, true},
    {0x2713, 0x2713, G_Other, true},
    {0x2714, 0x2714, G_ExtPict, true},
    {0x2715, 0x2715, G_Other, true},
    {0x2716, 0x2716, G_ExtPict, true},
    {0x2717, 0x271C, G_Other, true},
    {0x271D, 0x271D, G_ExtPict, true},
    {0x271E, 0x2720, G_Other, true},
    {0x2721, 0x2721, G_ExtPict, true},
    {0x2722, 0x2727, G_Other, true},
    {0x2728, 0x2728, G_ExtPict, true},
    {0x2729, 0x2732, G_Other, true},
    {0x2733, 0x2734, G_ExtPict, true},
    {0x2735, 0x2743, G_Other, true},
    {0x2744, 0x2744, G_ExtPict, true},
    {0x2745, 0x2746, G_Other, true},
    {0x2747, 0x2747, G_ExtPict, true},
    {0x2748, 0x274B, G_Other, true},
    {0x274C, 0x274C, G_ExtPict, true},
    {0x274D, 0x274D, G_Other, true},
    {0x274E, 0x274E, G_ExtPict, true},
    {0x274F, 0x2752, G_Other, true},
    {0x2753, 0x2755, G_ExtPict, true},
    {0x2756, 0x2756, G_Other, true},
    {0x2757, 0x2757, G_ExtPict, true},
    {0x2758, 0x2762, G_Other, true},
    {0x2763, 0x2767, G_ExtPict, true},
    {0x2768, 0x2794, G_Other, true},
    {0x2795, 0x2797, G_ExtPict, true},
    {0x2798, 0x27A0, G_Other, true},
    {0x27A1, 0x27A1, G_ExtPict, true},
    {0x27A2, 0x27AF, G_Other, true},
    {0x27B0, 0x27B0, G_ExtPict, true},
    {0x27B1, 0x27BE, G_Other, true},
    {0x27BF, 0x27BF, G_ExtPict, true},
    {0x27C0, 0x2933, G_Other, true},
    {0x2934, 0x2935, G_ExtPict, true},
    {0x2936, 0x2B04, G_Other, true},
    {0x2B05, 0x2B07, G_ExtPict, true},
    {0x2B08, 0x2B1A, G_Other, true},
    {0x2B1B, 0x2B1C, G_ExtPict, true},
    {0x2B1D, 0x2B4F, G_Other, true},
    {0x2B50, 0x2B50, G_ExtPict, true},
    {0x2B51, 0x2B54, G_Other, true},
    {0x2B55, 0x2B55, G_ExtPict, true},
    {0x2B56, 0x2CEE, G_Other, true},
    {0x2CEF, 0x2CF1, G_Extend, true},
    {0x2CF2, 0x2D7E, G_Other, true},
    {0x2D7F, 0x2D7F, G_Extend, true},
    {0x2D80, 0x2DDF, G_Other, true},
    {0x2DE0, 0x2DFF, G_Extend, true},
    {0x2E00, 0x3029, G_Other, true},
    {0x302A, 0x302F, G_Extend, true},
    {0x3030, 0x3030, G_ExtPict, true},
    {0x3031, 0x303C, G_Other, true},
    {0x303D, 0x303D, G_ExtPict, true},
    {0x303E, 0x3098, G_Other, true},
    {0x3099, 0x309A, G_Extend, true},
    {0x309B, 0x3296, G_Other, true},
    {0x3297, 0x3297, G_ExtPict, true},
    {0x3298, 0x3298, G_Other, true},
    {0x3299, 0x3299, G_ExtPict, true},
    {0x329A, 0xA66E, G_Other, true},
    {0xA66F, 0xA672, G_Extend, true},
    {0xA673, 0xA673, G_Other, true},
    {0xA674, 0xA67D, G_Extend, true},
    {0xA67E, 0xA69D, G_Other, true},
    {0xA69E, 0xA69F, G_Extend, true},
    {0xA6A0, 0xA6EF, G_Other, true},
    {0xA6F0, 0xA6F1, G_Extend, true},
    {0xA6F2, 0xA801, G_Other, true},
    {0xA802, 0xA802, G_Extend, true},
    {0xA803, 0xA805, G_Other, true},
    {0xA806, 0xA806, G_Extend, true},
    {0xA807, 0xA80A, G_Other, true},
    {0xA80B, 0xA80B, G_Extend, true},
    {0xA80C, 0xA822, G_Other, true},
    {0xA823, 0xA824, G_SpacingMark, true},
    {0xA825, 0xA826, G_Extend, true},
    {0xA827, 0xA827, G_SpacingMark, true},
    {0xA828, 0xA82B, G_Other, true},
    {0xA82C, 0xA82C, G_Extend, true},
    {0xA82D, 0xA87F, G_Other, true},
    {0xA880, 0xA881, G_SpacingMark, true},
    {0xA882, 0xA8B3, G_Other, true},
    {0xA8B4, 0xA8C3, G_SpacingMark, true},
    {0xA8C4, 0xA8C5, G_Extend, true},
    {0xA8C6, 0xA8DF, G_Other, true},
    {0xA8E0, 0xA8F1, G_Extend, true},
    {0xA8F2, 0xA8FE, G_Other, true},
    {0xA8FF, 0xA8FF, G_Extend, true},
    {0xA900, 0xA925, G_Other, true},
    {0xA926, 0xA92D, G_Extend, true},
    {0xA92E, 0xA946, G_Other, true},
    {0xA947, 0xA951, G_Extend, true},
    {0xA952, 0xA953, G_SpacingMark, true},
    {0xA954, 0xA95F, G_Other, true},
    {0xA960, 0xA97C, G_L, true},
    {0xA97D, 0xA97F, G_Other, true},
    {0xA980, 0xA982, G_Extend, true},
    {0xA983, 0xA983, G_SpacingMark, true},
    {0xA984, 0xA9B2, G_Other, true},
    {0xA9B3, 0xA9B3, G_Extend, true},
    {0xA9B4, 0xA9B5, G_SpacingMark, true},
    {0xA9B6, 0xA9B9, G_Extend, true},
    {0xA9BA, 0xA9BB, G_SpacingMark, true},
    {0xA9BC, 0xA9BD, G_Extend, true},
    {0xA9BE, 0xA9C0, G_SpacingMark, true},
    {0xA9C1, 0xA9E4, G_Other, true},
    {0xA9E5, 0xA9E5, G_Extend, true},
    {0xA9E6, 0xAA28, G_Other, true},
    {0xAA29, 0xAA2E, G_Extend, true},
    {0xAA2F, 0xAA30, G_SpacingMark, true},
    {0xAA31, 0xAA32, G_Extend, true},
    {0xAA33, 0xAA34, G_SpacingMark, true},
    {0xAA35, 0xAA36, G_Extend, true},
    {0xAA37, 0xAA42, G_Other, true},
    {0xAA43, 0xAA43, G_Extend, true},
    {0xAA44, 0xAA4B, G_Other, true},
    {0xAA4C, 0xAA4C, G_Extend, true},
    {0xAA4D, 0xAA4D, G_SpacingMark, true},
    {0xAA4E, 0xAA7B, G_Other, true},
    {0xAA7C, 0xAA7C, G_Extend, true},
    {0xAA7D, 0xAAAF, G_Other, true},
    {0xAAB0, 0xAAB0, G_Extend, true},
    {0xAAB1, 0xAAB1, G_Other, true},
    {0xAAB2, 0xAAB4, G_Extend, true},
    {0xAAB5, 0xAAB6, G_Other, true},
    {0xAAB7, 0xAAB8, G_Extend, true},
    {0xAAB9, 0xAABD, G_Other, true},
    {0xAABE, 0xAABF, G_Extend, true},
    {0xAAC0, 0xAAC0, G_Other, true},
    {0xAAC1, 0xAAC1, G_Extend, true},
    {0xAAC2, 0xAAEA, G_Other, true},
    {0xAAEB, 0xAAEB, G_SpacingMark, true},
    {0xAAEC, 0xAAED, G_Extend, true},
    {0xAAEE, 0xAAEF, G_SpacingMark, true},
    {0xAAF0, 0xAAF4, G_Other, true},
    {0xAAF5, 0xAAF5, G_SpacingMark, true},
    {0xAAF6, 0xAAF6, G_Extend, true},
    {0xAAF7, 0xABE2, G_Other, true},
    {0xABE3, 0xABE4, G_SpacingMark, true},
    {0xABE5, 0xABE5, G_Extend, true},
    {0xABE6, 0xABE7, G_SpacingMark, true},
    {0xABE8, 0xABE8, G_Extend, true},
    {0xABE9, 0xABEA, G_SpacingMark, true},
    {0xABEB, 0xABEB, G_Other, true},
    {0xABEC, 0xABEC, G_SpacingMark, true},
    {0xABED, 0xABED, G_Extend, true},
    {0xABEE, 0xABFF, G_Other, true},
    {0xAC00, 0xAC00, G_LV, true},
    {0xAC01, 0xAC1B, G_LVT, true},
    {0xAC1C, 0xAC1C, G_LV, true},
    {0xAC1D, 0xAC37, G_LVT, true},
    {0xAC38, 0xAC38, G_LV, true},
    {0xAC39, 0xAC53, G_LVT, true},
    {0xAC54, 0xAC54, G_LV, true},
    {0xAC55, 0xAC6F, G_LVT, true},
    {0xAC70, 0xAC70, G_LV, true},
    {0xAC71, 0xAC8B, G_LVT, true},
    {0xAC8C, 0xAC8C, G_LV, true},
    {0xAC8D, 0xACA7, G_LVT, true},
    {0xACA8, 0xACA8, G_LV, true},
    {0xACA9, 0xACC3, G_LVT, true},
    {0xACC4, 0xACC4, G_LV, true},
    {0xACC5, 0xACDF, G_LVT, true},
    {0xACE0, 0xACE0, G_LV, true},
    {0xACE1, 0xACFB, G_LVT, true},
    {0xACFC, 0xACFC, G_LV, true},
    {0xACFD, 0xAD17, G_LVT, true},
    {0xAD18, 0xAD18, G_LV, true},
    {0xAD19, 0xAD33, G_LVT, true},
    {0xAD34, 0xAD34, G_LV, true},
    {0xAD35, 0xAD4F, G_LVT, true},
    {0xAD50, 0xAD50, G_LV, true},
    {0xAD51, 0xAD6B, G_LVT, true},
    {0xAD6C, 0xAD6C, G_LV, true},
    {0xAD6D, 0xAD87, G_LVT, true},
    {0xAD88, 0xAD88, G_LV, true},
    {0xAD89, 0xADA3, G_LVT, true},
    {0xADA4, 0xADA4, G_LV, true},
    {0xADA5, 0xADBF, G_LVT, true},
    {0xADC0, 0xADC0, G_LV, true},
    {0xADC1, 0xADDB, G_LVT, true},
    {0xADDC, 0xADDC, G_LV, true},
    {0xADDD, 0xADF7, G_LVT, true},
    {0xADF8, 0xADF8, G_LV, true},
    {0xADF9, 0xAE13, G_LVT, true},
    {0xAE14, 0xAE14, G_LV, true},
    {0xAE15, 0xAE2F, G_LVT, true},
    {0xAE30, 0xAE30, G_LV, true},
    {0xAE31, 0xAE4B, G_LVT, true},
    {0xAE4C, 0xAE4C, G_LV, true},
    {0xAE4D, 0xAE67, G_LVT, true},
    {0xAE68, 0xAE68, G_LV, true},
    {0xAE69, 0xAE83, G_LVT, true},
    {0xAE84, 0xAE84, G_LV, true},
    {0xAE85, 0xAE9F, G_LVT, true},
    {0xAEA0, 0xAEA0, G_LV, true},
    {0xAEA1, 0xAEBB, G_LVT, true},
    {0xAEBC, 0xAEBC, G_LV, true},
    {0xAEBD, 0xAED7, G_LVT, true},
    {0xAED8, 0xAED8, G_LV, true},
    {0xAED9, 0xAEF3, G_LVT, true},
    {0xAEF4, 0xAEF4, G_LV, true},
    {0xAEF5, 0xAF0F, G_LVT, true},
    {0xAF10, 0xAF10, G_LV, true},
    {0xAF11, 0xAF2B, G_LVT, true},
    {0xAF2C, 0xAF2C, G_LV, true},
    {0xAF2D, 0xAF47, G_LVT, true},
    {0xAF48, 0xAF48, G_LV, true},
    {0xAF49, 0xAF63, G_LVT, true},
    {0xAF64, 0xAF64, G_LV, true},
    {0xAF65, 0xAF7F, G_LVT, true},
    {0xAF80, 0xAF80, G_LV, true},
    {0xAF81, 0xAF9B, G_LVT, true},
    {0xAF9C, 0xAF9C, G_LV, true},
    {0xAF9D, 0xAFB7, G_LVT, true},
    {0xAFB8, 0xAFB8, G_LV, true},
    {0xAFB9, 0xAFD3, G_LVT, true},
    {0xAFD4, 0xAFD4, G_LV, true},
    {0xAFD5, 0xAFEF, G_LVT, true},
    {0xAFF0, 0xAFF0, G_LV, true},
    {0xAFF1, 0xB00B, G_LVT, true},
    {0xB00C, 0xB00C, G_LV, true},
    {0xB00D, 0xB027, G_LVT, true},
    {0xB028, 0xB028, G_LV, true},
    {0xB029, 0xB043, G_LVT, true},
    {0xB044, 0xB044, G_LV, true},
    {0xB045, 0xB05F, G_LVT, true},
    {0xB060, 0xB060, G_LV, true},
    {0xB061, 0xB07B, G_LVT, true},
    {0xB07C, 0xB07C, G_LV, true},
    {0xB07D, 0xB097, G_LVT, true},
    {0xB098, 0xB098, G_LV, true},
    {0xB099, 0xB0B3, G_LVT, true},
    {0xB0B4, 0xB0B4, G_LV, true},
    {0xB0B5, 0xB0CF, G_LVT, true},
    {0xB0D0, 0xB0D0, G_LV, true},
    {0xB0D1, 0xB0EB, G_LVT, true},
    {0xB0EC, 0xB0EC, G_LV, true},
    {0xB0ED, 0xB107, G_LVT, true},
    {0xB108, 0xB108, G_LV, true},
    {0xB109, 0xB123, G_LVT, true},
    {0xB124, 0xB124, G_LV, true},
    {0xB125, 0xB13F, G_LVT, true},
    {0xB140, 0xB140, G_LV, true},
    {0xB141, 0xB15B, G_LVT, true},
    {0xB15C, 0xB15C, G_LV, true},
    {0xB15D, 0xB177, G_LVT, true},
    {0xB178, 0xB178, G_LV, true},
    {0xB179, 0xB193, G_LVT, true},
    {0xB194, 0xB194, G_LV, true},
    {0xB195, 0xB1AF, G_LVT, true},
    {0xB1B0, 0xB1B0, G_LV, true},
    {0xB1B1, 0xB1CB, G_LVT, true},
    {0xB1CC, 0xB1CC, G_LV, true},
    {0xB1CD, 0xB1E7, G_LVT, true},
    {0xB1E8, 0xB1E8, G_LV, true},
    {0xB1E9, 0xB203, G_LVT, true},
    {0xB204, 0xB204, G_LV, true},
    {0xB205, 0xB21F, G_LVT, true},
    {0xB220, 0xB220, G_LV, true},
    {0xB221, 0xB23B, G_LVT, true},
    {0xB23C, 0xB23C, G_LV, true},
    {0xB23D, 0xB257, G_LVT, true},
    {0xB258, 0xB258, G_LV, true},
    {0xB259, 0xB273, G_LVT, true},
    {0xB274, 0xB274, G_LV, true},
    {0xB275, 0xB28F, G_LVT, true},
    {0xB290, 0xB290, G_LV, true},
    {0xB291, 0xB2AB, G_LVT, true},
    {0xB2AC, 0xB2AC, G_LV, true},
    {0xB2AD, 0xB2C7, G_LVT, true},
    {0xB2C8, 0xB2C8, G_LV, true},
    {0xB2C9, 0xB2E3, G_LVT, true},
    {0xB2E4, 0xB2E4, G_LV, true},
    {0xB2E5, 0xB2FF, G_LVT, true},
    {0xB300, 0xB300, G_LV, true},
    {0xB301, 0xB31B, G_LVT, true},
    {0xB31C, 0xB31C, G_LV, true},
    {0xB31D, 0xB337, G_LVT, true},
    {0xB338, 0xB338, G_LV, true},
    {0xB339, 0xB353, G_LVT, true},
    {0xB354, 0xB354, G_LV, true},
    {0xB355, 0xB36F, G_LVT, true},
    {0xB370, 0xB370, G_LV, true},
    {0xB371, 0xB38B, G_LVT, true},
    {0xB38C, 0xB38C, G_LV, true},
    {0xB38D, 0xB3A7, G_LVT, true},
    {0xB3A8, 0xB3A8, G_LV, true},
    {0xB3A9, 0xB3C3, G_LVT, true},
    {0xB3C4, 0xB3C4, G_LV, true},
    {0xB3C5, 0xB3DF, G_LVT, true},
    {0xB3E0, 0xB3E0, G_LV, true},
    {0xB3E1, 0xB3FB, G_LVT, true},
    {0xB3FC, 0xB3FC, G_LV, true},
    {0xB3FD, 0xB417, G_LVT, true},
    {0xB418, 0xB418, G_LV, true},
    {0xB419, 0xB433, G_LVT, true},
    {0xB434, 0xB434, G_LV, true},
    {0xB435, 0xB44F, G_LVT, true},
    {0xB450, 0xB450, G_LV, true},
    {0xB451, 0xB46B, G_LVT, true},
    {0xB46C, 0xB46C, G_LV, true},
    {0xB46D, 0xB487, G_LVT, true},
    {0xB488, 0xB488, G_LV, true},
    {0xB489, 0xB4A3, G_LVT, true},
    {0xB4A4, 0xB4A4, G_LV, true},
    {0xB4A5, 0xB4BF, G_LVT, true},
    {0xB4C0, 0xB4C0, G_LV, true},
    {0xB4C1, 0xB4DB, G_LVT, true},
    {0xB4DC, 0xB4DC, G_LV, true},
    {0xB4DD, 0xB4F7, G_LVT, true},
    {0xB4F8, 0xB4F8, G_LV, true},
    {0xB4F9, 0xB513, G_LVT, true},
    {0xB514, 0xB514, G_LV, true},
    {0xB515, 0xB52F, G_LVT, true},
    {0xB530, 0xB530, G_LV, true},
    {0xB531, 0xB54B, G_LVT, true},
    {0xB54C, 0xB54C, G_LV, true},
    {0xB54D, 0xB567, G_LVT, true},
    {0xB568, 0xB568, G_LV, true},
    {0xB569, 0xB583, G_LVT, true},
    {0xB584, 0xB584, G_LV, true},
    {0xB585, 0xB59F, G_LVT, true},
    {0xB5A0, 0xB5A0, G_LV, true},
    {0xB5A1, 0xB5BB, G_LVT, true},
    {0xB5BC, 0xB5BC, G_LV, true},
    {0xB5BD, 0xB5D7, G_LVT, true},
    {0xB5D8, 0xB5D8, G_LV, true},
    {0xB5D9, 0xB5F3, G_LVT, true},
    {0xB5F4, 0xB5F4, G_LV, true},
    {0xB5F5, 0xB60F, G_LVT, true},
    {0xB610, 0xB610, G_LV, true},
    {0xB611, 0xB62B, G_LVT, true},
    {0xB62C, 0xB62C, G_LV, true},
    {0xB62D, 0xB647, G_LVT, true},
    {0xB648, 0xB648, G_LV, true},
    {0xB649, 0xB663, G_LVT, true},
    {0xB664, 0xB664, G_LV, true},
    {0xB665, 0xB67F, G_LVT, true},
    {0xB680, 0xB680, G_LV, true},
    {0xB681, 0xB69B, G_LVT, true},
    {0xB69C, 0xB69C, G_LV, true},
    {0xB69D, 0xB6B7, G_LVT, true},
    {0xB6B8, 0xB6B8, G_LV, true},
    {0xB6B9, 0xB6D3, G_LVT, true},
    {0xB6D4, 0xB6D4, G_LV, true},
    {0xB6D5, 0xB6EF, G_LVT, true},
    {0xB6F0, 0xB6F0, G_LV, true},
    {0xB6F1, 0xB70B, G_LVT, true},
    {0xB70C, 0xB70C, G_LV, true},
    {0xB70D, 0xB727, G_LVT, true},
    {0xB728, 0xB728, G_LV, true},
    {0xB729, 0xB743, G_LVT, true},
    {0xB744, 0xB744, G_LV, true},
    {0xB745, 0xB75F, G_LVT, true},
    {0xB760, 0xB760, G_LV, true},
    {0xB761, 0xB77B, G_LVT, true},
    {0xB77C, 0xB77C, G_LV, true},
    {0xB77D, 0xB797, G_LVT, true},
    {0xB798, 0xB798, G_LV, true},
    {0xB799, 0xB7B3, G_LVT, true},
    {0xB7B4, 0xB7B4, G_LV, true},
    {0xB7B5, 0xB7CF, G_LVT, true},
    {0xB7D0, 0xB7D0, G_LV, true},
    {0xB7D1, 0xB7EB, G_LVT, true},
    {0xB7EC, 0xB7EC, G_LV, true},
    {0xB7ED, 0xB807, G_LVT, true},
    {0xB808, 0xB808, G_LV, true},
    {0xB809, 0xB823, G_LVT, true},
    {0xB824, 0xB824, G_LV, true},
    {0xB825, 0xB83F, G_LVT, true},
    {0xB840, 0xB840, G_LV, true},
    {0xB841, 0xB85B, G_LVT, true},
    {0xB85C, 0xB85C, G_LV, true},
    {0xB85D, 0xB877, G_LVT, true},
    {0xB878, 0xB878, G_LV, true},
    {0xB879, 0xB893, G_LVT, true},
    {0xB894, 0xB894, G_LV, true},
    {0xB895, 0xB8AF, G_LVT, true},
    {0xB8B0, 0xB8B0, G_LV, true},
    {0xB8B1, 0xB8CB, G_LVT, true},
    {0xB8CC, 0xB8CC, G_LV, true},
    {0xB8CD, 0xB8E7, G_LVT, true},
    {0xB8E8, 0xB8E8, G_LV, true},
    {0xB8E9, 0xB903, G_LVT, true},
    {0xB904, 0xB904, G_LV, true},
    {0xB905, 0xB91F, G_LVT, true},
    {0xB920, 0xB920, G_LV, true},
    {0xB921, 0xB93B, G_LVT, true},
    {0xB93C, 0xB93C, G_LV, true},
    {0xB93D, 0xB957, G_LVT, true},
    {0xB958, 0xB958, G_LV, true},
    {0xB959, 0xB973, G_LVT, true},
    {0xB974, 0xB974, G_LV, true},
    {0xB975, 0xB98F, G_LVT, true},
    {0xB990, 0xB990, G_LV, true},
    {0xB991, 0xB9AB, G_LVT, true},
    {0xB9AC, 0xB9AC, G_LV, true},
    {0xB9AD, 0xB9C7, G_LVT, true},
    {0xB9C8, 0xB9C8, G_LV, true},
    {0xB9C9, 0xB9E3, G_LVT, true},
    {0xB9E4, 0xB9E4, G_LV, true},
    {0xB9E5, 0xB9FF, G_LVT, true},
    {0xBA00, 0xBA00, G_LV, true},
    {0xBA01, 0xBA1B, G_LVT, true},
    {0xBA1C, 0xBA1C, G_LV, true},
    {0xBA1D, 0xBA37, G_LVT, true},
    {0xBA38, 0xBA38, G_LV, true},
    {0xBA39, 0xBA53, G_LVT, true},
    {0xBA54, 0xBA54, G_LV, true},
    {0xBA55, 0xBA6F, G_LVT, true},
    {0xBA70, 0xBA70, G_LV, true},
    {0xBA71, 0xBA8B, G_LVT, true},
    {0xBA8C, 0xBA8C, G_LV, true},
    {0xBA8D, 0xBAA7, G_LVT, true},
    {0xBAA8, 0xBAA8, G_LV, true},
    {0xBAA9, 0xBAC3, G_LVT, true},
    {0xBAC4, 0xBAC4, G_LV, true},
    {0xBAC5, 0xBADF, G_LVT, true},
    {0xBAE0, 0xBAE0, G_LV, true},
    {0xBAE1, 0xBAFB, G_LVT, true},
    {0xBAFC, 0xBAFC, G_LV, true},
    {0xBAFD, 0xBB17, G_LVT, true},
    {0xBB18, 0xBB18, G_LV, true},
    {0xBB19, 0xBB33, G_LVT, true},
    {0xBB34, 0xBB34, G_LV, true},
    {0xBB35, 0xBB4F, G_LVT, true},
    {0xBB50, 0xBB50, G_LV, true},
    {0xBB51, 0xBB6B, G_LVT, true},
    {0xBB6C, 0xBB6C, G_LV, true},
    {0xBB6D, 0xBB87, G_LVT, true},
    {0xBB88, 0xBB88, G_LV, true},
    {0xBB89, 0xBBA3, G_LVT, true},
    {0xBBA4, 0xBBA4, G_LV, true},
    {0xBBA5, 0xBBBF, G_LVT, true},
    {0xBBC0, 0xBBC0, G_LV, true},
    {0xBBC1, 0xBBDB, G_LVT, true},
    {0xBBDC, 0xBBDC, G_LV, true},
    {0xBBDD, 0xBBF7, G_LVT, true},
    {0xBBF8, 0xBBF8, G_LV, true},
    {0xBBF9, 0xBC13, G_LVT, true},
    {0xBC14, 0xBC14, G_LV, true},
    {0xBC15, 0xBC2F, G_LVT, true},
    {0xBC30, 0xBC30, G_LV, true},
    {0xBC31, 0xBC4B, G_LVT, true},
    {0xBC4C, 0xBC4C, G_LV, true},
    {0xBC4D, 0xBC67, G_LVT, true},
    {0xBC68, 0xBC68, G_LV, true},
    {0xBC69, 0xBC83, G_LVT, true},
    {0xBC84, 0xBC84, G_LV, true},
    {0xBC85, 0xBC9F, G_LVT, true},
    {0xBCA0, 0xBCA0, G_LV, true},
    {0xBCA1, 0xBCBB, G_LVT, true},
    {0xBCBC, 0xBCBC, G_LV, true},
    {0xBCBD, 0xBCD7, G_LVT, true},
    {0xBCD8, 0xBCD8, G_LV, true},
    {0xBCD9, 0xBCF3, G_LVT, true},
    {0xBCF4, 0xBCF4, G_LV, true},
    {0xBCF5, 0xBD0F, G_LVT, true},
    {0xBD10, 0xBD10, G_LV, true},
    {0xBD11, 0xBD2B, G_LVT, true},
    {0xBD2C, 0xBD2C, G_LV, true},
    {0xBD2D, 0xBD47, G_LVT, true},
    {0xBD48, 0xBD48, G_LV, true},
    {0xBD49, 0xBD63, G_LVT, true},
    {0xBD64, 0xBD64, G_LV, true},
    {0xBD65, 0xBD7F, G_LVT, true},
    {0xBD80, 0xBD80, G_LV, true},
    {0xBD81, 0xBD9B, G_LVT, true},
    {0xBD9C, 0xBD9C, G_LV, true},
    {0xBD9D, 0xBDB7, G_LVT, true},
    {0xBDB8, 0xBDB8, G_LV, true},
    {0xBDB9, 0xBDD3, G_LVT, true},
    {0xBDD4, 0xBDD4, G_LV, true},
    {0xBDD5, 0xBDEF, G_LVT, true},
    {0xBDF0, 0xBDF0, G_LV, true},
    {0xBDF1, 0xBE0B, G_LVT, true},
    {0xBE0C, 0xBE0C, G_LV, true},
    {0xBE0D, 0xBE27, G_LVT, true},
    {0xBE28, 0xBE28, G_LV, true},
    {0xBE29, 0xBE43, G_LVT, true},
    {0xBE44, 0xBE44, G_LV, true},
    {0xBE45, 0xBE5F, G_LVT, true},
    {0xBE60, 0xBE60, G_LV, true},
    {0xBE61, 0xBE7B, G_LVT, true},
    {0xBE7C, 0xBE7C, G_LV, true},
    {0xBE7D, 0xBE97, G_LVT, true},
    {0xBE98, 0xBE98, G_LV, true},
    {0xBE99, 0xBEB3, G_LVT, true},
    {0xBEB4, 0xBEB4, G_LV, true},
    {0xBEB5, 0xBECF, G_LVT, true},
    {0xBED0, 0xBED0, G_LV, true},
    {0xBED1, 0xBEEB, G_LVT, true},
    {0xBEEC, 0xBEEC, G_LV, true},
    {0xBEED, 0xBF07, G_LVT, true},
    {0xBF08, 0xBF08, G_LV, true},
    {0xBF09, 0xBF23, G_LVT, true},
    {0xBF24, 0xBF24, G_LV, true},
    {0xBF25, 0xBF3F, G_LVT, true},
    {0xBF40, 0xBF40, G_LV, true},
    {0xBF41, 0xBF5B, G_LVT, true},
    {0xBF5C, 0xBF5C, G_LV, true},
    {0xBF5D, 0xBF77, G_LVT, true},
    {0xBF78, 0xBF78, G_LV, true},
    {0xBF79, 0xBF93, G_LVT, true},
    {0xBF94, 0xBF94, G_LV, true},
    {0xBF95, 0xBFAF, G_LVT, true},
    {0xBFB0, 0xBFB0, G_LV, true},
    {0xBFB1, 0xBFCB, G_LVT, true},
    {0xBFCC, 0xBFCC, G_LV, true},
    {0xBFCD, 0xBFE7, G_LVT, true},
    {0xBFE8, 0xBFE8, G_LV, true},
    {0xBFE9, 0xC003, G_LVT, true},
    {0xC004, 0xC004, G_LV, true},
    {0xC005, 0xC01F, G_LVT, true},
    {0xC020, 0xC020, G_LV, true},
    {0xC021, 0xC03B, G_LVT, true},
    {0xC03C, 0xC03C, G_LV, true},
    {0xC03D, 0xC057, G_LVT, true},
    {0xC058, 0xC058, G_LV, true},
    {0xC059, 0xC073, G_LVT, true},
    {0xC074, 0xC074, G_LV, true},
    {0xC075, 0xC08F, G_LVT, true},
    {0xC090, 0xC090, G_LV, true},
    {0xC091, 0xC0AB, G_LVT, true},
    {0xC0AC, 0xC0AC, G_LV, true},
    {0xC0AD, 0xC0C7, G_LVT, true},
    {0xC0C8, 0xC0C8, G_LV, true},
    {0xC0C9, 0xC0E3, G_LVT, true},
    {0xC0E4, 0xC0E4, G_LV, true},
    {0xC0E5, 0xC0FF, G_LVT, true},
    {0xC100, 0xC100, G_LV, true},
    {0xC101, 0xC11B, G_LVT, true},
    {0xC11C, 0xC11C, G_LV, true},
    {0xC11D, 0xC137, G_LVT, true},
    {0xC138, 0xC138, G_LV, true},
    {0xC139, 0xC153, G_LVT, true},
    {0xC154, 0xC154, G_LV, true},
    {0xC155, 0xC16F, G_LVT, true},
    {0xC170, 0xC170, G_LV, true},
    {0xC171, 0xC18B, G_LVT, true},
    {0xC18C, 0xC18C, G_LV, true},
    {0xC18D, 0xC1A7, G_LVT, true},
    {0xC1A8, 0xC1A8, G_LV, true},
    {0xC1A9, 0xC1C3, G_LVT, true},
    {0xC1C4, 0xC1C4, G_LV, true},
    {0xC1C5, 0xC1DF, G_LVT, true},
    {0xC1E0, 0xC1E0, G_LV, true},
    {0xC1E1, 0xC1FB, G_LVT, true},
    {0xC1FC, 0xC1FC, G_LV, true},
    {0xC1FD, 0xC217, G_LVT, true},
    {0xC218, 0xC218, G_LV, true},
    {0xC219, 0xC233, G_LVT, true},
    {0xC234, 0xC234, G_LV, true},
    {0xC235, 0xC24F, G_LVT, true},
    {0xC250, 0xC250, G_LV, true},
    {0xC251, 0xC26B, G_LVT, true},
    {0xC26C, 0xC26C, G_LV, true},
    {0xC26D, 0xC287, G_LVT, true},
    {0xC288, 0xC288, G_LV, true},
    {0xC289, 0xC2A3, G_LVT, true},
    {0xC2A4, 0xC2A4, G_LV, true},
    {0xC2A5, 0xC2BF, G_LVT, true},
    {0xC2C0, 0xC2C0, G_LV, true},
    {0xC2C1, 0xC2DB, G_LVT, true},
    {0xC2DC, 0xC2DC, G_LV, true},
    {0xC2DD, 0xC2F7, G_LVT, true},
    {0xC2F8, 0xC2F8, G_LV, true},
    {0xC2F9, 0xC313, G_LVT, true},
    {0xC314, 0xC314, G_LV, true},
    {0xC315, 0xC32F, G_LVT, true},
    {0xC330, 0xC330, G_LV, true},
    {0xC331, 0xC34B, G_LVT, true},
    {0xC34C, 0xC34C, G_LV, true},
    {0xC34D, 0xC367, G_LVT, true},
    {0xC368, 0xC368, G_LV, true},
    {0xC369, 0xC383, G_LVT, true},
    {0xC384, 0xC384, G_LV, true},
    {0xC385, 0xC39F, G_LVT, true},
    {0xC3A0, 0xC3A0, G_LV, true},
    {0xC3A1, 0xC3BB, G_LVT, true},
    {0xC3BC, 0xC3BC, G_LV, true},
    {0xC3BD, 0xC3D7, G_LVT, true},
    {0xC3D8, 0xC3D8, G_LV, true},
    {0xC3D9, 0xC3F3, G_LVT, true},
    {0xC3F4, 0xC3F4, G_LV, true},
    {0xC3F5, 0xC40F, G_LVT, true},
    {0xC410, 0xC410, G_LV, true},
    {0xC411, 0xC42B, G_LVT, true},
    {0xC42C, 0xC42C, G_LV, true},
    {0xC42D, 0xC447, G_LVT, true},
    {0xC448, 0xC448, G_LV, true},
    {0xC449, 0xC463, G_LVT, true},
    {0xC464, 0xC464, G_LV, true},
    {0xC465, 0xC47F, G_LVT, true},
    {0xC480, 0xC480, G_LV, true},
    {0xC481, 0xC49B, G_LVT, true},
    {0xC49C, 0xC49C, G_LV, true},
    {0xC49D, 0xC4B7, G_LVT, true},
    {0xC4B8, 0xC4B8, G_LV, true},
    {0xC4B9, 0xC4D3, G_LVT, true},
    {0xC4D4, 0xC4D4, G_LV, true},
    {0xC4D5, 0xC4EF, G_LVT, true},
    {0xC4F0, 0xC4F0, G_LV, true},
    {0xC4F1, 0xC50B, G_LVT, true},
    {0xC50C, 0xC50C, G_LV, true},
    {0xC50D, 0xC527, G_LVT, true},
    {0xC528, 0xC528, G_LV, true},
    {0xC529, 0xC543, G_LVT, true},
    {0xC544, 0xC544, G_LV, true},
    {0xC545, 0xC55F, G_LVT, true},
    {0xC560, 0xC560, G_LV, true},
    {0xC561, 0xC57B, G_LVT, true},
    {0xC57C, 0xC57C, G_LV, true},
    {0xC57D, 0xC597, G_LVT, true},
    {0xC598, 0xC598, G_LV, true},
    {0xC599, 0xC5B3, G_LVT, true},
    {0xC5B4, 0xC5B4, G_LV, true},
    {0xC5B5, 0xC5CF, G_LVT, true},
    {0xC5D0, 0xC5D0, G_LV, true},
    {0xC5D1, 0xC5EB, G_LVT, true},
    {0xC5EC, 0xC5EC, G_LV, true},
    {0xC5ED, 0xC607, G_LVT, true},
    {0xC608, 0xC608, G_LV, true},
    {0xC609, 0xC623, G_LVT, true},
    {0xC624, 0xC624, G_LV, true},
    {0xC625, 0xC63F, G_LVT, true},
    {0xC640, 0xC640, G_LV, true},
    {0xC641, 0xC65B, G_LVT, true},
    {0xC65C, 0xC65C, G_LV, true},
    {0xC65D, 0xC677, G_LVT, true},
    {0xC678, 0xC678, G_LV, true},
    {0xC679, 0xC693, G_LVT, true},
    {0xC694, 0xC694, G_LV, true},
    {0xC695, 0xC6AF, G_LVT, true},
    {0xC6B0, 0xC6B0, G_LV, true},
    {0xC6B1, 0xC6CB, G_LVT, true},
    {0xC6CC, 0xC6CC, G_LV, true},
    {0xC6CD, 0xC6E7, G_LVT, true},
    {0xC6E8, 0xC6E8, G_LV, true},
    {0xC6E9, 0xC703, G_LVT, true},
    {0xC704, 0xC704, G_LV, true},
    {0xC705, 0xC71F, G_LVT, true},
    {0xC720, 0xC720, G_LV, true},
    {0xC721, 0xC73B, G_LVT, true},
    {0xC73C, 0xC73C, G_LV, true},
    {0xC73D, 0xC757, G_LVT, true},
    {0xC758, 0xC758, G_LV, true},
    {0xC759, 0xC773, G_LVT, true},
    {0xC774, 0xC774, G_LV, true},
    {0xC775, 0xC78F, G_LVT, true},
    {0xC790, 0xC790, G_LV, true},
    {0xC791, 0xC7AB, G_LVT, true},
    {0xC7AC, 0xC7AC, G_LV, true},
    {0xC7AD, 0xC7C7, G_LVT, true},
    {0xC7C8, 0xC7C8, G_LV, true},
    {0xC7C9, 0xC7E3, G_LVT, true},
    {0xC7E4, 0xC7E4, G_LV, true},
    {0xC7E5, 0xC7FF, G_LVT, true},
    {0xC800, 0xC800, G_LV, true},
    {0xC801, 0xC81B, G_LVT, true},
    {0xC81C, 0xC81C, G_LV, true},
    {0xC81D, 0xC837, G_LVT, true},
    {0xC838, 0xC838, G_LV, true},
    {0xC839, 0xC853, G_LVT, true},
    {0xC854, 0xC854, G_LV, true},
    {0xC855, 0xC86F, G_LVT, true},
    {0xC870, 0xC870, G_LV, true},
    {0xC871, 0xC88B, G_LVT, true},
    {0xC88C, 0xC88C, G_LV, true},
    {0xC88D, 0xC8A7, G_LVT, true},
    {0xC8A8, 0xC8A8, G_LV, true},
    {0xC8A9, 0xC8C3, G_LVT, true},
    {0xC8C4, 0xC8C4, G_LV, true},
    {0xC8C5, 0xC8DF, G_LVT, true},
    {0xC8E0, 0xC8E0, G_LV, true},
    {0xC8E1, 0xC8FB, G_LVT, true},
    {0xC8FC, 0xC8FC, G_LV, true},
    {0xC8FD, 0xC917, G_LVT, true},
    {0xC918, 0xC918, G_LV, true},
    {0xC919, 0xC933, G_LVT, true},
    {0xC934, 0xC934, G_LV, true},
    {0xC935, 0xC94F, G_LVT, true},
    {0xC950, 0xC950, G_LV, true},
    {0xC951, 0xC96B, G_LVT, true},
    {0xC96C, 0xC96C, G_LV, true},
    {0xC96D, 0xC987, G_LVT, true},
    {0xC988, 0xC988, G_LV, true},
    {0xC989, 0xC9A3, G_LVT, true},
    {0xC9A4, 0xC9A4, G_LV, true},
    {0xC9A5, 0xC9BF, G_LVT, true},
    {0xC9C0, 0xC9C0, G_LV, true},
    {0xC9C1, 0xC9DB, G_LVT, true},
    {0xC9DC, 0xC9DC, G_LV, true},
    {0xC9DD, 0xC9F7, G_LVT, true},
    {0xC9F8, 0xC9F8, G_LV, true},
    {0xC9F9, 0xCA13, G_LVT, true},
    {0xCA14, 0xCA14, G_LV, true},
    {0xCA15, 0xCA2F, G_LVT, true},
    {0xCA30, 0xCA30, G_LV, true},
    {0xCA31, 0xCA4B, G_LVT, true},
    {0xCA4C, 0xCA4C, G_LV, true},
    {0xCA4D, 0xCA67, G_LVT, true},
    {0xCA68, 0xCA68, G_LV, true},
    {0xCA69, 0xCA83, G_LVT, true},
    {0xCA84, 0xCA84, G_LV, true},
    {0xCA85, 0xCA9F, G_LVT, true},
    {0xCAA0, 0xCAA0, G_LV, true},
    {0xCAA1, 0xCABB, G_LVT, true},
    {0xCABC, 0xCABC, G_LV, true},
    {0xCABD, 0xCAD7, G_LVT, true},
    {0xCAD8, 0xCAD8, G_LV, true},
    {0xCAD9, 0xCAF3, G_LVT, true},
    {0xCAF4, 0xCAF4, G_LV, true},
    {0xCAF5, 0xCB0F, G_LVT, true},
    {0xCB10, 0xCB10, G_LV, true},
    {0xCB11, 0xCB2B, G_LVT, true},
    {0xCB2C, 0xCB2C, G_LV, true},
    {0xCB2D, 0xCB47, G_LVT, true},
    {0xCB48, 0xCB48, G_LV, true},
    {0xCB49, 0xCB63, G_LVT, true},
    {0xCB64, 0xCB64, G_LV, true},
    {0xCB65, 0xCB7F, G_LVT, true},
    {0xCB80, 0xCB80, G_LV, true},
    {0xCB81, 0xCB9B, G_LVT, true},
    {0xCB9C, 0xCB9C, G_LV, true},
    {0xCB9D, 0xCBB7, G_LVT, true},
    {0xCBB8, 0xCBB8, G_LV, true},
    {0xCBB9, 0xCBD3, G_LVT, true},
    {0xCBD4, 0xCBD4, G_LV, true},
    {0xCBD5, 0xCBEF, G_LVT, true},
    {0xCBF0, 0xCBF0, G_LV, true},
    {0xCBF1, 0xCC0B, G_LVT, true},
    {0xCC0C, 0xCC0C, G_LV, true},
    {0xCC0D, 0xCC27, G_LVT, true},
    {0xCC28, 0xCC28, G_LV, true},
    {0xCC29, 0xCC43, G_LVT, true},
    {0xCC44, 0xCC44, G_LV, true},
    {0xCC45, 0xCC5F, G_LVT, true},
    {0xCC60, 0xCC60, G_LV, true},
    {0xCC61, 0xCC7B, G_LVT, true},
    {0xCC7C, 0xCC7C, G_LV, true},
    {0xCC7D, 0xCC97, G_LVT, true},
    {0xCC98, 0xCC98, G_LV, true},
    {0xCC99, 0xCCB3, G_LVT, true},
    {0xCCB4, 0xCCB4, G_LV, true},
    {0xCCB5, 0xCCCF, G_LVT, true},
    {0xCCD0, 0xCCD0, G_LV, true},
    {0xCCD1, 0xCCEB, G_LVT, true},
    {0xCCEC, 0xCCEC, G_LV, true},
    {0xCCED, 0xCD07, G_LVT, true},
    {0xCD08, 0xCD08, G_LV, true},
    {0xCD09, 0xCD23, G_LVT, true},
    {0xCD24, 0xCD24, G_LV, true},
    {0xCD25, 0xCD3F, G_LVT, true},
    {0xCD40, 0xCD40, G_LV, true},
    {0xCD41, 0xCD5B, G_LVT, true},
    {0xCD5C, 0xCD5C, G_LV, true},
    {0xCD5D, 0xCD77, G_LVT, true},
    {0xCD78, 0xCD78, G_LV, true},
    {0xCD79, 0xCD93, G_LVT, true},
    {0xCD94, 0xCD94, G_LV, true},
    {0xCD95, 0xCDAF, G_LVT, true},
    {0xCDB0, 0xCDB0, G_LV, true},
    {0xCDB1, 0xCDCB, G_LVT, true},
    {0xCDCC, 0xCDCC, G_LV, true},
    {0xCDCD, 0xCDE7, G_LVT, true},
    {0xCDE8, 0xCDE8, G_LV, true},
    {0xCDE9, 0xCE03, G_LVT, true},
    {0xCE04, 0xCE04, G_LV, true},
    {0xCE05, 0xCE1F, G_LVT, true},
    {0xCE20, 0xCE20, G_LV, true},
    {0xCE21, 0xCE3B, G_LVT, true},
    {0xCE3C, 0xCE3C, G_LV, true},
    {0xCE3D, 0xCE57, G_LVT, true},
    {0xCE58, 0xCE58, G_LV, true},
    {0xCE59, 0xCE73, G_LVT, true},
    {0xCE74, 0xCE74, G_LV, true},
    {0xCE75, 0xCE8F, G_LVT, true},
    {0xCE90, 0xCE90, G_LV, true},
    {0xCE91, 0xCEAB, G_LVT, true},
    {0xCEAC, 0xCEAC, G_LV, true},
    {0xCEAD, 0xCEC7, G_LVT, true},
    {0xCEC8, 0xCEC8, G_LV, true},
    {0xCEC9, 0xCEE3, G_LVT, true},
    {0xCEE4, 0xCEE4, G_LV, true},
    {0xCEE5, 0xCEFF, G_LVT, true},
    {0xCF00, 0xCF00, G_LV, true},
    {0xCF01, 0xCF1B, G_LVT, true},
    {0xCF1C, 0xCF1C, G_LV, true},
    {0xCF1D, 0xCF37, G_LVT, true},
    {0xCF38, 0xCF38, G_LV, true},
    {0xCF39, 0xCF53, G_LVT, true},
    {0xCF54, 0xCF54, G_LV, true},
    {0xCF55, 0xCF6F, G_LVT, true},
    {0xCF70, 0xCF70, G_LV, true},
    {0xCF71, 0xCF8B, G_LVT, true},
    {0xCF8C, 0xCF8C, G_LV, true},
    {0xCF8D, 0xCFA7, G_LVT, true},
    {0xCFA8, 0xCFA8, G_LV, true},
    {0xCFA9, 0xCFC3, G_LVT, true},
    {0xCFC4, 0xCFC4, G_LV, true},
    {0xCFC5, 0xCFDF, G_LVT, true},
    {0xCFE0, 0xCFE0, G_LV, true},
    {0xCFE1, 0xCFFB, G_LVT, true},
    {0xCFFC, 0xCFFC, G_LV, true},
    {0xCFFD, 0xD017, G_LVT, true},
    {0xD018, 0xD018, G_LV, true},
    {0xD019, 0xD033, G_LVT, true},
    {0xD034, 0xD034, G_LV, true},
    {0xD035, 0xD04F, G_LVT, true},
    {0xD050, 0xD050, G_LV, true},
    {0xD051, 0xD06B, G_LVT, true},
    {0xD06C, 0xD06C, G_LV, true},
    {0xD06D, 0xD087, G_LVT, true},
    {0xD088, 0xD088, G_LV, true},
    {0xD089, 0xD0A3, G_LVT, true},
    {0xD0A4, 0xD0A4, G_LV, true},
    {0xD0A5, 0xD0BF, G_LVT, true},
    {0xD0C0, 0xD0C0, G_LV, true},
    {0xD0C1, 0xD0DB, G_LVT, true},
    {0xD0DC, 0xD0DC, G_LV, true},
    {0xD0DD, 0xD0F7, G_LVT, true},
    {0xD0F8, 0xD0F8, G_LV, true},
    {0xD0F9, 0xD113, G_LVT, true},
    {0xD114, 0xD114, G_LV, true},
    {0xD115, 0xD12F, G_LVT, true},
    {0xD130, 0xD130, G_LV, true},
    {0xD131, 0xD14B, G_LVT, true},
    {0xD14C, 0xD14C, G_LV, true},
    {0xD14D, 0xD167, G_LVT, true},
    {0xD168, 0xD168, G_LV, true},
    {0xD169, 0xD183, G_LVT, true},
    {0xD184, 0xD184, G_LV, true},
    {0xD185, 0xD19F, G_LVT, true},
    {0xD1A0, 0xD1A0, G_LV, true},
    {0xD1A1, 0xD1BB, G_LVT, true},
    {0xD1BC, 0xD1BC, G_LV, true},
    {0xD1BD, 0xD1D7, G_LVT, true},
    {0xD1D8, 0xD1D8, G_LV, true},
    {0xD1D9, 0xD1F3, G_LVT, true},
    {0xD1F4, 0xD1F4, G_LV, true},
    {0xD1F5, 0xD20F, G_LVT, true},
    {0xD210, 0xD210, G_LV, true},
    {0xD211, 0xD22B, G_LVT, true},
    {0xD22C, 0xD22C, G_LV, true},
    {0xD22D, 0xD247, G_LVT, true},
    {0xD248, 0xD248, G_LV, true},
    {0xD249, 0xD263, G_LVT, true},
    {0xD264, 0xD264, G_LV, true},
    {0xD265, 0xD27F, G_LVT, true},
    {0xD280, 0xD280, G_LV, true},
    {0xD281, 0xD29B, G_LVT, true},
    {0xD29C, 0xD29C, G_LV, true},
    {0xD29D, 0xD2B7, G_LVT, true},
    {0xD2B8, 0xD2B8, G_LV, true},
    {0xD2B9, 0xD2D3, G_LVT, true},
    {0xD2D4, 0xD2D4, G_LV, true},
    {0xD2D5, 0xD2EF, G_LVT, true},
    {0xD2F0, 0xD2F0, G_LV, true},
    {0xD2F1, 0xD30B, G_LVT, true},
    {0xD30C, 0xD30C, G_LV, true},
    {0xD30D, 0xD327, G_LVT, true},
    {0xD328, 0xD328, G_LV, true},
    {0xD329, 0xD343, G_LVT, true},
    {0xD344, 0xD344, G_LV, true},
    {0xD345, 0xD35F, G_LVT, true},
    {0xD360, 0xD360, G_LV, true},
    {0xD361, 0xD37B, G_LVT, true},
    {0xD37C, 0xD37C, G_LV, true},
    {0xD37D, 0xD397, G_LVT, true},
    {0xD398, 0xD398, G_LV, true},
    {0xD399, 0xD3B3, G_LVT, true},
    {0xD3B4, 0xD3B4, G_LV, true},
    {0xD3B5, 0xD3CF, G_LVT, true},
    {0xD3D0, 0xD3D0, G_LV, true},
    {0xD3D1, 0xD3EB, G_LVT, true},
    {0xD3EC, 0xD3EC, G_LV, true},
    {0xD3ED, 0xD407, G_LVT, true},
    {0xD408, 0xD408, G_LV, true},
    {0xD409, 0xD423, G_LVT, true},
    {0xD424, 0xD424, G_LV, true},
    {0xD425, 0xD43F, G_LVT, true},
    {0xD440, 0xD440, G_LV, true},
    {0xD441, 0xD45B, G_LVT, true},
    {0xD45C, 0xD45C, G_LV, true},
    {0xD45D, 0xD477, G_LVT, true},
    {0xD478, 0xD478, G_LV, true},
    {0xD479, 0xD493, G_LVT, true},
    {0xD494, 0xD494, G_LV, true},
    {0xD495, 0xD4AF, G_LVT, true},
    {0xD4B0, 0xD4B0, G_LV, true},
    {0xD4B1, 0xD4CB, G_LVT, true},
    {0xD4CC, 0xD4CC, G_LV, true},
    {0xD4CD, 0xD4E7, G_LVT, true},
    {0xD4E8, 0xD4E8, G_LV, true},
    {0xD4E9, 0xD503, G_LVT, true},
    {0xD504, 0xD504, G_LV, true},
    {0xD505, 0xD51F, G_LVT, true},
    {0xD520, 0xD520, G_LV, true},
    {0xD521, 0xD53B, G_LVT, true},
    {0xD53C, 0xD53C, G_LV, true},
    {0xD53D, 0xD557, G_LVT, true},
    {0xD558, 0xD558, G_LV, true},
    {0xD559, 0xD573, G_LVT, true},
    {0xD574, 0xD574, G_LV, true},
    {0xD575, 0xD58F, G_LVT, true},
    {0xD590, 0xD590, G_LV, true},
    {0xD591, 0xD5AB, G_LVT, true},
    {0xD5AC, 0xD5AC, G_LV, true},
    {0xD5AD, 0xD5C7, G_LVT, true},
    {0xD5C8, 0xD5C8, G_LV, true},
    {0xD5C9, 0xD5E3, G_LVT, true},
    {0xD5E4, 0xD5E4, G_LV, true},
    {0xD5E5, 0xD5FF, G_LVT, true},
    {0xD600, 0xD600, G_LV, true},
    {0xD601, 0xD61B, G_LVT, true},
    {0xD61C, 0xD61C, G_LV, true},
    {0xD61D, 0xD637, G_LVT, true},
    {0xD638, 0xD638, G_LV, true},
    {0xD639, 0xD653, G_LVT, true},
    {0xD654, 0xD654, G_LV, true},
    {0xD655, 0xD66F, G_LVT, true},
    {0xD670, 0xD670, G_LV, true},
    {0xD671, 0xD68B, G_LVT, true},
    {0xD68C, 0xD68C, G_LV, true},
    {0xD68D, 0xD6A7, G_LVT, true},
    {0xD6A8, 0xD6A8, G_LV, true},
    {0xD6A9, 0xD6C3, G_LVT, true},
    {0xD6C4, 0xD6C4, G_LV, true},
    {0xD6C5, 0xD6DF, G_LVT, true},
    {0xD6E0, 0xD6E0, G_LV, true},
    {0xD6E1, 0xD6FB, G_LVT, true},
    {0xD6FC, 0xD6FC, G_LV, true},
    {0xD6FD, 0xD717, G_LVT, true},
    {0xD718, 0xD718, G_LV, true},
    {0xD719, 0xD733, G_LVT, true},
    {0xD734, 0xD734, G_LV, true},
    {0xD735, 0xD74F, G_LVT, true},
    {0xD750, 0xD750, G_LV, true},
    {0xD751, 0xD76B, G_LVT, true},
    {0xD76C, 0xD76C, G_LV, true},
    {0xD76D, 0xD787, G_LVT, true},
    {0xD788, 0xD788, G_LV, true},
    {0xD789, 0xD7A3, G_LVT, true},
    {0xD7A4, 0xD7AF, G_Other, true},
    {0xD7B0, 0xD7C6, G_V, true},
    {0xD7C7, 0xD7CA, G_Other, true},
    {0xD7CB, 0xD7FB, G_T, true},
    {0xD7FC, 0xD7FF, G_Other, true},
    {0xD800, 0xDFFF, G_Control, true},
    {0xE000, 0xFB1D, G_Other, true},
    {0xFB1E, 0xFB1E, G_Extend, true},
    {0xFB1F, 0xFDFF, G_Other, true},
    {0xFE00, 0xFE0F, G_Extend, true},
    {0xFE10, 0xFE1F, G_Other, true},
    {0xFE20, 0xFE2F, G_Extend, true},
    {0xFE30, 0xFEFE, G_Other, true},
    {0xFEFF, 0xFEFF, G_Control, true},
    {0xFF00, 0xFF9D, G_Other, true},
    {0xFF9E, 0xFF9F, G_Extend, true},
    {0xFFA0, 0xFFEF, G_Other, true},
    {0xFFF0, 0xFFFB, G_Control, true},
    {0xFFFC, 0x101FC, G_Other, true},
    {0x101FD, 0x101FD, G_Extend, true},
    {0x101FE, 0x102DF, G_Other, true},
    {0x102E0, 0x102E0, G_Extend, true},
    {0x102E1, 0x10375, G_Other, true},
    {0x10376, 0x1037A, G_Extend, true},
    {0x1037B, 0x10A00, G_Other, true},
    {0x10A01, 0x10A03, G_Extend, true},
    {0x10A04, 0x10A04, G_Other, true},
    {0x10A05, 0x10A06, G_Extend, true},
    {0x10A07, 0x10A0B, G_Other, true},
    {0x10A0C, 0x10A0F, G_Extend, true},
    {0x10A10, 0x10A37, G_Other, true},
    {0x10A38, 0x10A3A, G_Extend, true},
    {0x10A3B, 0x10A3E, G_Other, true},
    {0x10A3F, 0x10A3F, G_Extend, true},
    {0x10A40, 0x10AE4, G_Other, true},
    {0x10AE5, 0x10AE6, G_Extend, true},
    {0x10AE7, 0x10D23, G_Other, true},
    {0x10D24, 0x10D27, G_Extend, true},
    {0x10D28, 0x10EAA, G_Other, true},
    {0x10EAB, 0x10EAC, G_Extend, true},
    {0x10EAD, 0x10EFC, G_Other, true},
    {0x10EFD, 0x10EFF, G_Extend, false},
    {0x10F00, 0x10F45, G_Other, true},
    {0x10F46, 0x10F50, G_Extend, true},
    {0x10F51, 0x10F81, G_Other, true},
    {0x10F82, 0x10F85, G_Extend, false},
    {0x10F86, 0x10FFF, G_Other, true},
    {0x11000, 0x11000, G_SpacingMark, true},
    {0x11001, 0x11001, G_Extend, true},
    {0x11002, 0x11002, G_SpacingMark, true},
    {0x11003, 0x11037, G_Other, true},
    {0x11038, 0x11046, G_Extend, true},
    {0x11047, 0x1106F, G_Other, true},
    {0x11070, 0x11070, G_Extend, false},
    {0x11071, 0x11072, G_Other, true},
    {0x11073, 0x11074, G_Extend, false},
    {0x11075, 0x1107E, G_Other, true},
    {0x1107F, 0x11081, G_Extend, true},
    {0x11082, 0x11082, G_SpacingMark, true},
    {0x11083, 0x110AF, G_Other, true},
    {0x110B0, 0x110B2, G_SpacingMark, true},
    {0x110B3, 0x110B6, G_Extend, true},
    {0x110B7, 0x110B8, G_SpacingMark, true},
    {0x110B9, 0x110BA, G_Extend, true},
    {0x110BB, 0x110BC, G_Other, true},
    {0x110BD, 0x110BD, G_Prepend, true},
    {0x110BE, 0x110C1, G_Other, true},
    {0x110C2, 0x110C2, G_Extend, false},
    {0x110C3, 0x110CC, G_Other, true},
    {0x110CD, 0x110CD, G_Prepend, true},
    {0x110CE, 0x110FF, G_Other, true},
    {0x11100, 0x11102, G_Extend, true},
    {0x11103, 0x11126, G_Other, true},
    {0x11127, 0x1112B, G_Extend, true},
    {0x1112C, 0x1112C, G_SpacingMark, true},
    {0x1112D, 0x11134, G_Extend, true},
    {0x11135, 0x11144, G_Other, true},
    {0x11145, 0x11146, G_SpacingMark, true},
    {0x11147, 0x11172, G_Other, true},
    {0x11173, 0x11173, G_Extend, true},
    {0x11174, 0x1117F, G_Other, true},
    {0x11180, 0x11181, G_Extend, true},
    {0x11182, 0x11182, G_SpacingMark, true},
    {0x11183, 0x111B2, G_Other, true},
    {0x111B3, 0x111B5, G_SpacingMark, true},
    {0x111B6, 0x111BE, G_Extend, true},
    {0x111BF, 0x111C0, G_SpacingMark, true},
    {0x111C1, 0x111C1, G_Other, true},
    {0x111C2, 0x111C3, G_Prepend, true},
    {0x111C4, 0x111C8, G_Other, true},
    {0x111C9, 0x111CC, G_Extend, true},
    {0x111CD, 0x111CD, G_Other, true},
    {0x111CE, 0x111CE, G_SpacingMark, true},
    {0x111CF, 0x111CF, G_Extend, true},
    {0x111D0, 0x1122B, G_Other, true},
    {0x1122C, 0x1122E, G_SpacingMark, true},
    {0x1122F, 0x11231, G_Extend, true},
    {0x11232, 0x11233, G_SpacingMark, true},
    {0x11234, 0x11234, G_Extend, true},
    {0x11235, 0x11235, G_SpacingMark, true},
    {0x11236, 0x11237, G_Extend, true},
    {0x11238, 0x1123D, G_Other, true},
    {0x1123E, 0x1123E, G_Extend, true},
    {0x1123F, 0x11240, G_Other, true},
    {0x11241, 0x11241, G_Extend, false},
    {0x11242, 0x112DE, G_Other, true},
    {0x112DF, 0x112DF, G_Extend, true},
    {0x112E0, 0x112E2, G_SpacingMark, true},
    {0x112E3, 0x112EA, G_Extend, true},
    {0x112EB, 0x112FF, G_Other, true},
    {0x11300, 0x11301, G_Extend, true},
    {0x11302, 0x11303, G_SpacingMark, true},
    {0x11304, 0x1133A, G_Other, true},
    {0x1133B, 0x1133C, G_Extend, true},
    {0x1133D, 0x1133D, G_Other, true},
    {0x1133E, 0x1133E, G_Extend, true},
    {0x1133F, 0x1133F, G_SpacingMark, true},
    {0x11340, 0x11340, G_Extend, true},
    {0x11341, 0x11344, G_SpacingMark, true},
    {0x11345, 0x11346, G_Other, true},
    {0x11347, 0x11348, G_SpacingMark, true},
    {0x11349, 0x1134A, G_Other, true},
    {0x1134B, 0x1134D, G_SpacingMark, true},
    {0x1134E, 0x11356, G_Other, true},
    {0x11357, 0x11357, G_Extend, true},
    {0x11358, 0x11361, G_Other, true},
    {0x11362, 0x11363, G_SpacingMark, true},
    {0x11364, 0x11365, G_Other, true},
    {0x11366, 0x1136C, G_Extend, true},
    {0x1136D, 0x1136F, G_Other, true},
    {0x11370, 0x11374, G_Extend, true},
    {0x11375, 0x11434, G_Other, true},
    {0x11435, 0x11437, G_SpacingMark, true},
    {0x11438, 0x1143F, G_Extend, true},
    {0x11440, 0x11441, G_SpacingMark, true},
    {0x11442, 0x11444, G_Extend, true},
    {0x11445, 0x11445, G_SpacingMark, true},
    {0x11446, 0x11446, G_Extend, true},
    {0x11447, 0x1145D, G_Other, true},
    {0x1145E, 0x1145E, G_Extend, true},
    {0x1145F, 0x114AF, G_Other, true},
    {0x114B0, 0x114B0, G_Extend, true},
    {0x114B1, 0x114B2, G_SpacingMark, true},
    {0x114B3, 0x114B8, G_Extend, true},
    {0x114B9, 0x114B9, G_SpacingMark, true},
    {0x114BA, 0x114BA, G_Extend, true},
    {0x114BB, 0x114BC, G_SpacingMark, true},
    {0x114BD, 0x114BD, G_Extend, true},
    {0x114BE, 0x114BE, G_SpacingMark, true},
    {0x114BF, 0x114C0, G_Extend, true},
    {0x114C1, 0x114C1, G_SpacingMark, true},
    {0x114C2, 0x114C3, G_Extend, true},
    {0x114C4, 0x115AE, G_Other, true},
    {0x115AF, 0x115AF, G_Extend, true},
    {0x115B0, 0x115B1, G_SpacingMark, true},
    {0x115B2, 0x115B5, G_Extend, true},
    {0x115B6, 0x115B7, G_Other, true},
    {0x115B8, 0x115BB, G_SpacingMark, true},
    {0x115BC, 0x115BD, G_Extend, true},
    {0x115BE, 0x115BE, G_SpacingMark, true},
    {0x115BF, 0x115C0, G_Extend, true},
    {0x115C1, 0x115DB, G_Other, true},
    {0x115DC, 0x115DD, G_Extend, true},
    {0x115DE, 0x1162F, G_Other, true},
    {0x11630, 0x11632, G_SpacingMark, true},
    {0x11633, 0x1163A, G_Extend, true},
    {0x1163B, 0x1163C, G_SpacingMark, true},
    {0x1163D, 0x1163D, G_Extend, true},
    {0x1163E, 0x1163E, G_SpacingMark, true},
    {0x1163F, 0x11640, G_Extend, true},
    {0x11641, 0x116AA, G_Other, true},
    {0x116AB, 0x116AB, G_Extend, true},
    {0x116AC, 0x116AC, G_SpacingMark, true},
    {0x116AD, 0x116AD, G_Extend, true},
    {0x116AE, 0x116AF, G_SpacingMark, true},
    {0x116B0, 0x116B5, G_Extend, true},
    {0x116B6, 0x116B6, G_SpacingMark, true},
    {0x116B7, 0x116B7, G_Extend, true},
    {0x116B8, 0x1171C, G_Other, true},
    {0x1171D, 0x1171F, G_Extend, true},
    {0x11720, 0x11721, G_Other, true},
    {0x11722, 0x11725, G_Extend, true},
    {0x11726, 0x11726, G_SpacingMark, true},
    {0x11727, 0x1172B, G_Extend, true},
    {0x1172C, 0x1182B, G_Other, true},
    {0x1182C, 0x1182E, G_SpacingMark, true},
    {0x1182F, 0x11837, G_Extend, true},
    {0x11838, 0x11838, G_SpacingMark, true},
    {0x11839, 0x1183A, G_Extend, true},
    {0x1183B, 0x1192F, G_Other, true},
    {0x11930, 0x11930, G_Extend, true},
    {0x11931, 0x11935, G_SpacingMark, true},
    {0x11936, 0x11936, G_Other, true},
    {0x11937, 0x11938, G_SpacingMark, true},
    {0x11939, 0x1193A, G_Other, true},
    {0x1193B, 0x1193C, G_Extend, true},
    {0x1193D, 0x1193D, G_SpacingMark, true},
    {0x1193E, 0x1193E, G_Extend, true},
    {0x1193F, 0x1193F, G_Prepend, true},
    {0x11940, 0x11940, G_SpacingMark, true},
    {0x11941, 0x11941, G_Prepend, true},
    {0x11942, 0x11942, G_SpacingMark, true},
    {0x11943, 0x11943, G_Extend, true},
    {0x11944, 0x119D0, G_Other, true},
    {0x119D1, 0x119D3, G_SpacingMark, true},
    {0x119D4, 0x119D7, G_Extend, true},
    {0x119D8, 0x119D9, G_Other, true},
    {0x119DA, 0x119DB, G_Extend, true},
    {0x119DC, 0x119DF, G_SpacingMark, true},
    {0x119E0, 0x119E0, G_Extend, true},
    {0x119E1, 0x119E3, G_Other, true},
    {0x119E4, 0x119E4, G_SpacingMark, true},
    {0x119E5, 0x11A00, G_Other, true},
    {0x11A01, 0x11A0A, G_Extend, true},
    {0x11A0B, 0x11A32, G_Other, true},
    {0x11A33, 0x11A38, G_Extend, true},
    {0x11A39, 0x11A39, G_SpacingMark, true},
    {0x11A3A, 0x11A3A, G_Prepend, true},
    {0x11A3B, 0x11A3E, G_Extend, true},
    {0x11A3F, 0x11A46, G_Other, true},
    {0x11A47, 0x11A47, G_Extend, true},
    {0x11A48, 0x11A50, G_Other, true},
    {0x11A51, 0x11A56, G_Extend, true},
    {0x11A57, 0x11A58, G_SpacingMark, true},
    {0x11A59, 0x11A5B, G_Extend, true},
    {0x11A5C, 0x11A83, G_Other, true},
    {0x11A84, 0x11A89, G_Prepend, true},
    {0x11A8A, 0x11A96, G_Extend, true},
    {0x11A97, 0x11A97, G_SpacingMark, true},
    {0x11A98, 0x11A99, G_Extend, true},
    {0x11A9A, 0x11C2E, G_Other, true},
    {0x11C2F, 0x11C2F, G_SpacingMark, true},
    {0x11C30, 0x11C36, G_Extend, true},
    {0x11C37, 0x11C37, G_Other, true},
    {0x11C38, 0x11C3D, G_Extend, true},
    {0x11C3E, 0x11C3E, G_SpacingMark, true},
    {0x11C3F, 0x11C3F, G_Extend, true},
    {0x11C40, 0x11C91, G_Other, true},
    {0x11C92, 0x11CA7, G_Extend, true},
    {0x11CA8, 0x11CA8, G_Other, true},
    {0x11CA9, 0x11CA9, G_SpacingMark, true},
    {0x11CAA, 0x11CB0, G_Extend, true},
    {0x11CB1, 0x11CB1, G_SpacingMark, true},
    {0x11CB2, 0x11CB3, G_Extend, true},
    {0x11CB4, 0x11CB4, G_SpacingMark, true},
    {0x11CB5, 0x11CB6, G_Extend, true},
    {0x11CB7, 0x11D30, G_Other, true},
    {0x11D31, 0x11D36, G_Extend, true},
    {0x11D37, 0x11D39, G_Other, true},
    {0x11D3A, 0x11D3A, G_Extend, true},
    {0x11D3B, 0x11D3B, G_Other, true},
    {0x11D3C, 0x11D3D, G_Extend, true},
    {0x11D3E, 0x11D3E, G_Other, true},
    {0x11D3F, 0x11D45, G_Extend, true},
    {0x11D46, 0x11D46, G_Prepend, true},
    {0x11D47, 0x11D47, G_Extend, true},
    {0x11D48, 0x11D89, G_Other, true},
    {0x11D8A, 0x11D8E, G_SpacingMark, true},
    {0x11D8F, 0x11D8F, G_Other, true},
    {0x11D90, 0x11D91, G_Extend, true},
    {0x11D92, 0x11D92, G_Other, true},
    {0x11D93, 0x11D94, G_SpacingMark, true},
    {0x11D95, 0x11D95, G_Extend, true},
    {0x11D96, 0x11D96, G_SpacingMark, true},
    {0x11D97, 0x11D97, G_Extend, true},
    {0x11D98, 0x11EF2, G_Other, true},
    {0x11EF3, 0x11EF4, G_Extend, true},
    {0x11EF5, 0x11EF6, G_SpacingMark, true},
    {0x11EF7, 0x11EFF, G_Other, true},
    {0x11F00, 0x11F01, G_Extend, false},
    {0x11F02, 0x11F02, G_Prepend, false},
    {0x11F03, 0x11F03, G_SpacingMark, false},
    {0x11F04, 0x11F33, G_Other, true},
    {0x11F34, 0x11F35, G_SpacingMark, false},
    {0x11F36, 0x11F3A, G_Extend, false},
    {0x11F3B, 0x11F3D, G_Other, true},
    {0x11F3E, 0x11F3F, G_SpacingMark, false},
    {0x11F40, 0x11F40, G_Extend, false},
    {0x11F41, 0x11F41, G_SpacingMark, false},
    {0x11F42, 0x11F42, G_Extend, false},
    {0x11F43, 0x1342F, G_Other, true},
    {0x13430, 0x13438, G_Control, true},
    {0x13439, 0x1343F, G_Control, false},
    {0x13440, 0x13440, G_Extend, false},
    {0x13441, 0x13446, G_Other, true},
    {0x13447, 0x13455, G_Extend, false},
    {0x13456, 0x16AEF, G_Other, true},
    {0x16AF0, 0x16AF4, G_Extend, true},
    {0x16AF5, 0x16B2F, G_Other, true},
    {0x16B30, 0x16B36, G_Extend, true},
    {0x16B37, 0x16F4E, G_Other, true},
    {0x16F4F, 0x16F4F, G_Extend, true},
    {0x16F50, 0x16F50, G_Other, true},
    {0x16F51, 0x16F87, G_SpacingMark, true},
    {0x16F88, 0x16F8E, G_Other, true},
    {0x16F8F, 0x16F92, G_Extend, true},
    {0x16F93, 0x16FE3, G_Other, true},
    {0x16FE4, 0x16FE4, G_Extend, true},
    {0x16FE5, 0x16FEF, G_Other, true},
    {0x16FF0, 0x16FF1, G_SpacingMark, true},
    {0x16FF2, 0x1BC9C, G_Other, true},
    {0x1BC9D, 0x1BC9E, G_Extend, true},
    {0x1BC9F, 0x1BC9F, G_Other, true},
    {0x1BCA0, 0x1BCA3, G_Control, true},
    {0x1BCA4, 0x1CEFF, G_Other, true},
    {0x1CF00, 0x1CF2D, G_Extend, false},
    {0x1CF2E, 0x1CF2F, G_Other, true},
    {0x1CF30, 0x1CF46, G_Extend, false},
    {0x1CF47, 0x1D164, G_Other, true},
    {0x1D165, 0x1D165, G_Extend, true},
    {0x1D166, 0x1D166, G_SpacingMark, true},
    {0x1D167, 0x1D169, G_Extend, true},
    {0x1D16A, 0x1D16C, G_Other, true},
    {0x1D16D, 0x1D16D, G_SpacingMark, true},
    {0x1D16E, 0x1D172, G_Extend, true},
    {0x1D173, 0x1D17A, G_Control, true},
    {0x1D17B, 0x1D182, G_Extend, true},
    {0x1D183, 0x1D184, G_Other, true},
    {0x1D185, 0x1D18B, G_Extend, true},
    {0x1D18C, 0x1D1A9, G_Other, true},
    {0x1D1AA, 0x1D1AD, G_Extend, true},
    {0x1D1AE, 0x1D241, G_Other, true},
    {0x1D242, 0x1D244, G_Extend, true},
    {0x1D245, 0x1D9FF, G_Other, true},
    {0x1DA00, 0x1DA36, G_Extend, true},
    {0x1DA37, 0x1DA3A, G_Other, true},
    {0x1DA3B, 0x1DA6C, G_Extend, true},
    {0x1DA6D, 0x1DA74, G_Other, true},
    {0x1DA75, 0x1DA75, G_Extend, true},
    {0x1DA76, 0x1DA83, G_Other, true},
    {0x1DA84, 0x1DA84, G_Extend, true},
    {0x1DA85, 0x1DA9A, G_Other, true},
    {0x1DA9B, 0x1DA9F, G_Extend, true},
    {0x1DAA0, 0x1DAA0, G_Other, true},
    {0x1DAA1, 0x1DAAF, G_Extend, true},
    {0x1DAB0, 0x1DFFF, G_Other, true},
    {0x1E000, 0x1E006, G_Extend, true},
    {0x1E007, 0x1E007, G_Other, true},
    {0x1E008, 0x1E018, G_Extend, true},
    {0x1E019, 0x1E01A, G_Other, true},
    {0x1E01B, 0x1E021, G_Extend, true},
    {0x1E022, 0x1E022, G_Other, true},
    {0x1E023, 0x1E024, G_Extend, true},
    {0x1E025, 0x1E025, G_Other, true},
    {0x1E026, 0x1E02A, G_Extend, true},
    {0x1E02B, 0x1E08E, G_Other, true},
    {0x1E08F, 0x1E08F, G_Extend, false},
    {0x1E090, 0x1E12F, G_Other, true},
    {0x1E130, 0x1E136, G_Extend, true},
    {0x1E137, 0x1E2AD, G_Other, true},
    {0x1E2AE, 0x1E2AE, G_Extend, false},
    {0x1E2AF, 0x1E2EB, G_Other, true},
    {0x1E2EC, 0x1E2EF, G_Extend, true},
    {0x1E2F0, 0x1E4EB, G_Other, true},
    {0x1E4EC, 0x1E4EF, G_Extend, false},
    {0x1E4F0, 0x1E8CF, G_Other, true},
    {0x1E8D0, 0x1E8D6, G_Extend, true},
    {0x1E8D7, 0x1E943, G_Other, true},
    {0x1E944, 0x1E94A, G_Extend, true},
    {0x1E94B, 0x1EFFF, G_Other, true},
    {0x1F000, 0x1F0FF, G_ExtPict, true},
    {0x1F100, 0x1F10C, G_Other, true},
    {0x1F10D, 0x1F10F, G_ExtPict, true},
    {0x1F110, 0x1F12E, G_Other, true},
    {0x1F12F, 0x1F12F, G_ExtPict, true},
    {0x1F130, 0x1F16B, G_Other, true},
    {0x1F16C, 0x1F171, G_ExtPict, true},
    {0x1F172, 0x1F17D, G_Other, true},
    {0x1F17E, 0x1F17F, G_ExtPict, true},
    {0x1F180, 0x1F18D, G_Other, true},
    {0x1F18E, 0x1F18E, G_ExtPict, true},
    {0x1F18F, 0x1F190, G_Other, true},
    {0x1F191, 0x1F19A, G_ExtPict, true},
    {0x1F19B, 0x1F1AC, G_Other, true},
    {0x1F1AD, 0x1F1E5, G_ExtPict, true},
    {0x1F1E6, 0x1F1FF, G_Regional_Indicator, true},
    {0x1F200, 0x1F200, G_Other, true},
    {0x1F201, 0x1F20F, G_ExtPict, true},
    {0x1F210, 0x1F219, G_Other, true},
    {0x1F21A, 0x1F21A, G_ExtPict, true},
    {0x1F21B, 0x1F22E, G_Other, true},
    {0x1F22F, 0x1F22F, G_ExtPict, true},
    {0x1F230, 0x1F231, G_Other, true},
    {0x1F232, 0x1F23A, G_ExtPict, true},
    {0x1F23B, 0x1F23B, G_Other, true},
    {0x1F23C, 0x1F23F, G_ExtPict, true},
    {0x1F240, 0x1F248, G_Other, true},
    {0x1F249, 0x1F3FA, G_ExtPict, true},
    {0x1F3FB, 0x1F3FF, G_Extend, true},
    {0x1F400, 0x1F53D, G_ExtPict, true},
    {0x1F53E, 0x1F545, G_Other, true},
    {0x1F546, 0x1F64F, G_ExtPict, true},
    {0x1F650, 0x1F67F, G_Other, true},
    {0x1F680, 0x1F6FF, G_ExtPict, true},
    {0x1F700, 0x1F773, G_Other, true},
    {0x1F774, 0x1F77F, G_ExtPict, true},
    {0x1F780, 0x1F7D4, G_Other, true},
    {0x1F7D5, 0x1F7FF, G_ExtPict, true},
    {0x1F800, 0x1F80B, G_Other, true},
    {0x1F80C, 0x1F80F, G_ExtPict, true},
    {0x1F810, 0x1F847, G_Other, true},
    {0x1F848, 0x1F84F, G_ExtPict, true},
    {0x1F850, 0x1F859, G_Other, true},
    {0x1F85A, 0x1F85F, G_ExtPict, true},
    {0x1F860, 0x1F887, G_Other, true},
    {0x1F888, 0x1F88F, G_ExtPict, true},
    {0x1F890, 0x1F8AD, G_Other, true},
    {0x1F8AE, 0x1F8FF, G_ExtPict, true},
    {0x1F900, 0x1F90B, G_Other, true},
    {0x1F90C, 0x1F93A, G_ExtPict, true},
    {0x1F93B, 0x1F93B, G_Other, true},
    {0x1F93C, 0x1F945, G_ExtPict, true},
    {0x1F946, 0x1F946, G_Other, true},
    {0x1F947, 0x1FAFF, G_ExtPict, true},
    {0x1FB00, 0x1FBFF, G_Other, true},
    {0x1FC00, 0x1FFFD, G_ExtPict, true},
    {0x1FFFE, 0xDFFFF, G_Other, true},
    {0xE0000, 0xE001F, G_Control, true},
    {0xE0020, 0xE007F, G_Extend, true},
    {0xE0080, 0xE00FF, G_Control, true},
    {0xE0100, 0xE01EF, G_Extend, true},
    {0xE01F0, 0xE0FFF, G_Control, true},
    {0xE1000, 0x10FFFF, G_Other, true},
};

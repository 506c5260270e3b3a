// cp1250, cp1251, cp1252: Unicode of bytes 0x80-0xff, 0: undefined. Generated from Python's codecs.
static const uint16_t codepages[3][128] = {
{0x20ac,0x0,0x201a,0x0,0x201e,0x2026,0x2020,0x2021,0x0,0x2030,0x160,0x2039,0x15a,0x164,0x17d,0x179,0x0,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x0,0x2122,0x161,0x203a,0x15b,0x165,0x17e,0x17a,0xa0,0x2c7,0x2d8,0x141,0xa4,0x104,0xa6,0xa7,0xa8,0xa9,0x15e,0xab,0xac,0xad,0xae,0x17b,0xb0,0xb1,0x2db,0x142,0xb4,0xb5,0xb6,0xb7,0xb8,0x105,0x15f,0xbb,0x13d,0x2dd,0x13e,0x17c,0x154,0xc1,0xc2,0x102,0xc4,0x139,0x106,0xc7,0x10c,0xc9,0x118,0xcb,0x11a,0xcd,0xce,0x10e,0x110,0x143,0x147,0xd3,0xd4,0x150,0xd6,0xd7,0x158,0x16e,0xda,0x170,0xdc,0xdd,0x162,0xdf,0x155,0xe1,0xe2,0x103,0xe4,0x13a,0x107,0xe7,0x10d,0xe9,0x119,0xeb,0x11b,0xed,0xee,0x10f,0x111,0x144,0x148,0xf3,0xf4,0x151,0xf6,0xf7,0x159,0x16f,0xfa,0x171,0xfc,0xfd,0x163,0x2d9},
{0x402,0x403,0x201a,0x453,0x201e,0x2026,0x2020,0x2021,0x20ac,0x2030,0x409,0x2039,0x40a,0x40c,0x40b,0x40f,0x452,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x0,0x2122,0x459,0x203a,0x45a,0x45c,0x45b,0x45f,0xa0,0x40e,0x45e,0x408,0xa4,0x490,0xa6,0xa7,0x401,0xa9,0x404,0xab,0xac,0xad,0xae,0x407,0xb0,0xb1,0x406,0x456,0x491,0xb5,0xb6,0xb7,0x451,0x2116,0x454,0xbb,0x458,0x405,0x455,0x457,0x410,0x411,0x412,0x413,0x414,0x415,0x416,0x417,0x418,0x419,0x41a,0x41b,0x41c,0x41d,0x41e,0x41f,0x420,0x421,0x422,0x423,0x424,0x425,0x426,0x427,0x428,0x429,0x42a,0x42b,0x42c,0x42d,0x42e,0x42f,0x430,0x431,0x432,0x433,0x434,0x435,0x436,0x437,0x438,0x439,0x43a,0x43b,0x43c,0x43d,0x43e,0x43f,0x440,0x441,0x442,0x443,0x444,0x445,0x446,0x447,0x448,0x449,0x44a,0x44b,0x44c,0x44d,0x44e,0x44f},
{0x20ac,0x0,0x201a,0x192,0x201e,0x2026,0x2020,0x2021,0x2c6,0x2030,0x160,0x2039,0x152,0x0,0x17d,0x0,0x0,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x2dc,0x2122,0x161,0x203a,0x153,0x0,0x17e,0x178,0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff},
};

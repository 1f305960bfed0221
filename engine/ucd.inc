{0x0,0x8,3,7,1,0},
{0x9,0x9,3,1,1,1},
{0xa,0xa,2,24,1,1},
{0xb,0xc,3,4,1,1},
{0xd,0xd,1,9,1,1},
{0xe,0x1f,3,7,1,0},
{0x20,0x20,0,33,1,1},
{0x21,0x21,0,12,1,0},
{0x22,0x22,0,31,1,0},
{0x23,0x23,0,0,1,0},
{0x24,0x24,0,30,1,0},
{0x25,0x25,0,29,1,0},
{0x26,0x26,0,0,1,0},
{0x27,0x27,0,31,1,0},
{0x28,0x28,0,28,1,0},
{0x29,0x29,0,8,1,0},
{0x2a,0x2a,0,0,1,0},
{0x2b,0x2b,0,30,1,0},
{0x2c,0x2c,0,20,1,0},
{0x2d,0x2d,0,16,1,0},
{0x2e,0x2e,0,20,1,0},
{0x2f,0x2f,0,34,1,0},
{0x30,0x39,0,27,1,0},
{0x3a,0x3b,0,20,1,0},
{0x3c,0x3e,0,0,1,0},
{0x3f,0x3f,0,12,1,0},
{0x40,0x5a,0,0,1,0},
{0x5b,0x5b,0,28,1,0},
{0x5c,0x5c,0,30,1,0},
{0x5d,0x5d,0,8,1,0},
{0x5e,0x7a,0,0,1,0},
{0x7b,0x7b,0,28,1,0},
{0x7c,0x7c,0,1,1,0},
{0x7d,0x7d,0,6,1,0},
{0x7e,0x7e,0,0,1,0},
{0x7f,0x84,3,7,1,0},
{0x85,0x85,3,25,1,1},
{0x86,0x9f,3,7,1,0},
{0xa0,0xa0,0,13,1,1},
{0xa1,0xa1,0,28,1,0},
{0xa2,0xa2,0,29,1,0},
{0xa3,0xa5,0,30,1,0},
{0xa6,0xa8,0,0,1,0},
{0xa9,0xa9,0,0,1,2},
{0xaa,0xaa,0,0,1,0},
{0xab,0xab,0,31,1,0},
{0xac,0xac,0,0,1,0},
{0xad,0xad,3,1,1,0},
{0xae,0xae,0,0,1,2},
{0xaf,0xaf,0,0,1,0},
{0xb0,0xb0,0,29,1,0},
{0xb1,0xb1,0,30,1,0},
{0xb2,0xb3,0,0,1,0},
{0xb4,0xb4,0,2,1,0},
{0xb5,0xba,0,0,1,0},
{0xbb,0xbb,0,31,1,0},
{0xbc,0xbe,0,0,1,0},
{0xbf,0xbf,0,28,1,0},
{0xc0,0x2c7,0,0,1,0},
{0x2c8,0x2c8,0,2,1,0},
{0x2c9,0x2cb,0,0,1,0},
{0x2cc,0x2cc,0,2,1,0},
{0x2cd,0x2de,0,0,1,0},
{0x2df,0x2df,0,2,1,0},
{0x2e0,0x2ff,0,0,1,0},
{0x300,0x34e,4,7,0,0},
{0x34f,0x34f,4,13,0,0},
{0x350,0x35b,4,7,0,0},
{0x35c,0x362,4,13,0,0},
{0x363,0x36f,4,7,0,0},
{0x370,0x377,0,0,1,0},
{0x378,0x379,0,0,1,4},
{0x37a,0x37d,0,0,1,0},
{0x37e,0x37e,0,20,1,0},
{0x37f,0x37f,0,0,1,0},
{0x380,0x383,0,0,1,4},
{0x384,0x38a,0,0,1,0},
{0x38b,0x38b,0,0,1,4},
{0x38c,0x38c,0,0,1,0},
{0x38d,0x38d,0,0,1,4},
{0x38e,0x3a1,0,0,1,0},
{0x3a2,0x3a2,0,0,1,4},
{0x3a3,0x482,0,0,1,0},
{0x483,0x489,4,7,0,0},
{0x48a,0x52f,0,0,1,0},
{0x530,0x530,0,0,1,4},
{0x531,0x556,0,0,1,0},
{0x557,0x558,0,0,1,4},
{0x559,0x588,0,0,1,0},
{0x589,0x589,0,20,1,0},
{0x58a,0x58a,0,1,1,0},
{0x58b,0x58c,0,0,1,4},
{0x58d,0x58e,0,0,1,0},
{0x58f,0x58f,0,30,1,0},
{0x590,0x590,0,0,1,4},
{0x591,0x5bd,4,7,0,0},
{0x5be,0x5be,0,1,1,0},
{0x5bf,0x5bf,4,7,0,0},
{0x5c0,0x5c0,0,0,1,0},
{0x5c1,0x5c2,4,7,0,0},
{0x5c3,0x5c3,0,0,1,0},
{0x5c4,0x5c5,4,7,0,0},
{0x5c6,0x5c6,0,12,1,0},
{0x5c7,0x5c7,4,7,0,0},
{0x5c8,0x5cf,0,0,1,4},
{0x5d0,0x5ea,0,18,1,0},
{0x5eb,0x5ee,0,0,1,4},
{0x5ef,0x5f2,0,18,1,0},
{0x5f3,0x5f4,0,0,1,0},
{0x5f5,0x5ff,0,0,1,4},
{0x600,0x605,7,0,1,0},
{0x606,0x608,0,0,1,0},
{0x609,0x60b,0,29,1,0},
{0x60c,0x60d,0,20,1,0},
{0x60e,0x60f,0,0,1,0},
{0x610,0x61a,4,7,0,0},
{0x61b,0x61b,0,12,1,0},
{0x61c,0x61c,3,7,1,0},
{0x61d,0x61f,0,12,1,0},
{0x620,0x64a,0,0,1,0},
{0x64b,0x65f,4,7,0,0},
{0x660,0x669,0,27,1,0},
{0x66a,0x66a,0,29,1,0},
{0x66b,0x66c,0,27,1,0},
{0x66d,0x66f,0,0,1,0},
{0x670,0x670,4,7,0,0},
{0x671,0x6d3,0,0,1,0},
{0x6d4,0x6d4,0,12,1,0},
{0x6d5,0x6d5,0,0,1,0},
{0x6d6,0x6dc,4,7,0,0},
{0x6dd,0x6dd,7,0,1,0},
{0x6de,0x6de,0,0,1,0},
{0x6df,0x6e4,4,7,0,0},
{0x6e5,0x6e6,0,0,1,0},
{0x6e7,0x6e8,4,7,0,0},
{0x6e9,0x6e9,0,0,1,0},
{0x6ea,0x6ed,4,7,0,0},
{0x6ee,0x6ef,0,0,1,0},
{0x6f0,0x6f9,0,27,1,0},
{0x6fa,0x70d,0,0,1,0},
{0x70e,0x70e,0,0,1,4},
{0x70f,0x70f,7,0,1,0},
{0x710,0x710,0,0,1,0},
{0x711,0x711,4,7,0,0},
{0x712,0x72f,0,0,1,0},
{0x730,0x74a,4,7,0,0},
{0x74b,0x74c,0,0,1,4},
{0x74d,0x7a5,0,0,1,0},
{0x7a6,0x7b0,4,7,0,0},
{0x7b1,0x7b1,0,0,1,0},
{0x7b2,0x7bf,0,0,1,4},
{0x7c0,0x7c9,0,27,1,0},
{0x7ca,0x7ea,0,0,1,0},
{0x7eb,0x7f3,4,7,0,0},
{0x7f4,0x7f7,0,0,1,0},
{0x7f8,0x7f8,0,20,1,0},
{0x7f9,0x7f9,0,12,1,0},
{0x7fa,0x7fa,0,0,1,0},
{0x7fb,0x7fc,0,0,1,4},
{0x7fd,0x7fd,4,7,0,0},
{0x7fe,0x7ff,0,30,1,0},
{0x800,0x815,0,0,1,0},
{0x816,0x819,4,7,0,0},
{0x81a,0x81a,0,0,1,0},
{0x81b,0x823,4,7,0,0},
{0x824,0x824,0,0,1,0},
{0x825,0x827,4,7,0,0},
{0x828,0x828,0,0,1,0},
{0x829,0x82d,4,7,0,0},
{0x82e,0x82f,0,0,1,4},
{0x830,0x83e,0,0,1,0},
{0x83f,0x83f,0,0,1,4},
{0x840,0x858,0,0,1,0},
{0x859,0x85b,4,7,0,0},
{0x85c,0x85d,0,0,1,4},
{0x85e,0x85e,0,0,1,0},
{0x85f,0x85f,0,0,1,4},
{0x860,0x86a,0,0,1,0},
{0x86b,0x86f,0,0,1,4},
{0x870,0x88e,0,0,1,0},
{0x88f,0x88f,0,0,1,4},
{0x890,0x891,7,0,1,0},
{0x892,0x897,0,0,1,4},
{0x898,0x89f,4,7,0,0},
{0x8a0,0x8c9,0,0,1,0},
{0x8ca,0x8e1,4,7,0,0},
{0x8e2,0x8e2,7,0,1,0},
{0x8e3,0x902,4,7,0,0},
{0x903,0x903,8,7,1,0},
{0x904,0x939,0,0,1,0},
{0x93a,0x93a,4,7,0,0},
{0x93b,0x93b,8,7,1,0},
{0x93c,0x93c,4,7,0,0},
{0x93d,0x93d,0,0,1,0},
{0x93e,0x940,8,7,1,0},
{0x941,0x948,4,7,0,0},
{0x949,0x94c,8,7,1,0},
{0x94d,0x94d,4,7,0,0},
{0x94e,0x94f,8,7,1,0},
{0x950,0x950,0,0,1,0},
{0x951,0x957,4,7,0,0},
{0x958,0x961,0,0,1,0},
{0x962,0x963,4,7,0,0},
{0x964,0x965,0,1,1,0},
{0x966,0x96f,0,27,1,0},
{0x970,0x980,0,0,1,0},
{0x981,0x981,4,7,0,0},
{0x982,0x983,8,7,1,0},
{0x984,0x984,0,0,1,4},
{0x985,0x98c,0,0,1,0},
{0x98d,0x98e,0,0,1,4},
{0x98f,0x990,0,0,1,0},
{0x991,0x992,0,0,1,4},
{0x993,0x9a8,0,0,1,0},
{0x9a9,0x9a9,0,0,1,4},
{0x9aa,0x9b0,0,0,1,0},
{0x9b1,0x9b1,0,0,1,4},
{0x9b2,0x9b2,0,0,1,0},
{0x9b3,0x9b5,0,0,1,4},
{0x9b6,0x9b9,0,0,1,0},
{0x9ba,0x9bb,0,0,1,4},
{0x9bc,0x9bc,4,7,0,0},
{0x9bd,0x9bd,0,0,1,0},
{0x9be,0x9be,4,7,1,0},
{0x9bf,0x9c0,8,7,1,0},
{0x9c1,0x9c4,4,7,0,0},
{0x9c5,0x9c6,0,0,1,4},
{0x9c7,0x9c8,8,7,1,0},
{0x9c9,0x9ca,0,0,1,4},
{0x9cb,0x9cc,8,7,1,0},
{0x9cd,0x9cd,4,7,0,0},
{0x9ce,0x9ce,0,0,1,0},
{0x9cf,0x9d6,0,0,1,4},
{0x9d7,0x9d7,4,7,1,0},
{0x9d8,0x9db,0,0,1,4},
{0x9dc,0x9dd,0,0,1,0},
{0x9de,0x9de,0,0,1,4},
{0x9df,0x9e1,0,0,1,0},
{0x9e2,0x9e3,4,7,0,0},
{0x9e4,0x9e5,0,0,1,4},
{0x9e6,0x9ef,0,27,1,0},
{0x9f0,0x9f1,0,0,1,0},
{0x9f2,0x9f3,0,29,1,0},
{0x9f4,0x9f8,0,0,1,0},
{0x9f9,0x9f9,0,29,1,0},
{0x9fa,0x9fa,0,0,1,0},
{0x9fb,0x9fb,0,30,1,0},
{0x9fc,0x9fd,0,0,1,0},
{0x9fe,0x9fe,4,7,0,0},
{0x9ff,0xa00,0,0,1,4},
{0xa01,0xa02,4,7,0,0},
{0xa03,0xa03,8,7,1,0},
{0xa04,0xa04,0,0,1,4},
{0xa05,0xa0a,0,0,1,0},
{0xa0b,0xa0e,0,0,1,4},
{0xa0f,0xa10,0,0,1,0},
{0xa11,0xa12,0,0,1,4},
{0xa13,0xa28,0,0,1,0},
{0xa29,0xa29,0,0,1,4},
{0xa2a,0xa30,0,0,1,0},
{0xa31,0xa31,0,0,1,4},
{0xa32,0xa33,0,0,1,0},
{0xa34,0xa34,0,0,1,4},
{0xa35,0xa36,0,0,1,0},
{0xa37,0xa37,0,0,1,4},
{0xa38,0xa39,0,0,1,0},
{0xa3a,0xa3b,0,0,1,4},
{0xa3c,0xa3c,4,7,0,0},
{0xa3d,0xa3d,0,0,1,4},
{0xa3e,0xa40,8,7,1,0},
{0xa41,0xa42,4,7,0,0},
{0xa43,0xa46,0,0,1,4},
{0xa47,0xa48,4,7,0,0},
{0xa49,0xa4a,0,0,1,4},
{0xa4b,0xa4d,4,7,0,0},
{0xa4e,0xa50,0,0,1,4},
{0xa51,0xa51,4,7,0,0},
{0xa52,0xa58,0,0,1,4},
{0xa59,0xa5c,0,0,1,0},
{0xa5d,0xa5d,0,0,1,4},
{0xa5e,0xa5e,0,0,1,0},
{0xa5f,0xa65,0,0,1,4},
{0xa66,0xa6f,0,27,1,0},
{0xa70,0xa71,4,7,0,0},
{0xa72,0xa74,0,0,1,0},
{0xa75,0xa75,4,7,0,0},
{0xa76,0xa76,0,0,1,0},
{0xa77,0xa80,0,0,1,4},
{0xa81,0xa82,4,7,0,0},
{0xa83,0xa83,8,7,1,0},
{0xa84,0xa84,0,0,1,4},
{0xa85,0xa8d,0,0,1,0},
{0xa8e,0xa8e,0,0,1,4},
{0xa8f,0xa91,0,0,1,0},
{0xa92,0xa92,0,0,1,4},
{0xa93,0xaa8,0,0,1,0},
{0xaa9,0xaa9,0,0,1,4},
{0xaaa,0xab0,0,0,1,0},
{0xab1,0xab1,0,0,1,4},
{0xab2,0xab3,0,0,1,0},
{0xab4,0xab4,0,0,1,4},
{0xab5,0xab9,0,0,1,0},
{0xaba,0xabb,0,0,1,4},
{0xabc,0xabc,4,7,0,0},
{0xabd,0xabd,0,0,1,0},
{0xabe,0xac0,8,7,1,0},
{0xac1,0xac5,4,7,0,0},
{0xac6,0xac6,0,0,1,4},
{0xac7,0xac8,4,7,0,0},
{0xac9,0xac9,8,7,1,0},
{0xaca,0xaca,0,0,1,4},
{0xacb,0xacc,8,7,1,0},
{0xacd,0xacd,4,7,0,0},
{0xace,0xacf,0,0,1,4},
{0xad0,0xad0,0,0,1,0},
{0xad1,0xadf,0,0,1,4},
{0xae0,0xae1,0,0,1,0},
{0xae2,0xae3,4,7,0,0},
{0xae4,0xae5,0,0,1,4},
{0xae6,0xaef,0,27,1,0},
{0xaf0,0xaf0,0,0,1,0},
{0xaf1,0xaf1,0,30,1,0},
{0xaf2,0xaf8,0,0,1,4},
{0xaf9,0xaf9,0,0,1,0},
{0xafa,0xaff,4,7,0,0},
{0xb00,0xb00,0,0,1,4},
{0xb01,0xb01,4,7,0,0},
{0xb02,0xb03,8,7,1,0},
{0xb04,0xb04,0,0,1,4},
{0xb05,0xb0c,0,0,1,0},
{0xb0d,0xb0e,0,0,1,4},
{0xb0f,0xb10,0,0,1,0},
{0xb11,0xb12,0,0,1,4},
{0xb13,0xb28,0,0,1,0},
{0xb29,0xb29,0,0,1,4},
{0xb2a,0xb30,0,0,1,0},
{0xb31,0xb31,0,0,1,4},
{0xb32,0xb33,0,0,1,0},
{0xb34,0xb34,0,0,1,4},
{0xb35,0xb39,0,0,1,0},
{0xb3a,0xb3b,0,0,1,4},
{0xb3c,0xb3c,4,7,0,0},
{0xb3d,0xb3d,0,0,1,0},
{0xb3e,0xb3e,4,7,1,0},
{0xb3f,0xb3f,4,7,0,0},
{0xb40,0xb40,8,7,1,0},
{0xb41,0xb44,4,7,0,0},
{0xb45,0xb46,0,0,1,4},
{0xb47,0xb48,8,7,1,0},
{0xb49,0xb4a,0,0,1,4},
{0xb4b,0xb4c,8,7,1,0},
{0xb4d,0xb4d,4,7,0,0},
{0xb4e,0xb54,0,0,1,4},
{0xb55,0xb56,4,7,0,0},
{0xb57,0xb57,4,7,1,0},
{0xb58,0xb5b,0,0,1,4},
{0xb5c,0xb5d,0,0,1,0},
{0xb5e,0xb5e,0,0,1,4},
{0xb5f,0xb61,0,0,1,0},
{0xb62,0xb63,4,7,0,0},
{0xb64,0xb65,0,0,1,4},
{0xb66,0xb6f,0,27,1,0},
{0xb70,0xb77,0,0,1,0},
{0xb78,0xb81,0,0,1,4},
{0xb82,0xb82,4,7,0,0},
{0xb83,0xb83,0,0,1,0},
{0xb84,0xb84,0,0,1,4},
{0xb85,0xb8a,0,0,1,0},
{0xb8b,0xb8d,0,0,1,4},
{0xb8e,0xb90,0,0,1,0},
{0xb91,0xb91,0,0,1,4},
{0xb92,0xb95,0,0,1,0},
{0xb96,0xb98,0,0,1,4},
{0xb99,0xb9a,0,0,1,0},
{0xb9b,0xb9b,0,0,1,4},
{0xb9c,0xb9c,0,0,1,0},
{0xb9d,0xb9d,0,0,1,4},
{0xb9e,0xb9f,0,0,1,0},
{0xba0,0xba2,0,0,1,4},
{0xba3,0xba4,0,0,1,0},
{0xba5,0xba7,0,0,1,4},
{0xba8,0xbaa,0,0,1,0},
{0xbab,0xbad,0,0,1,4},
{0xbae,0xbb9,0,0,1,0},
{0xbba,0xbbd,0,0,1,4},
{0xbbe,0xbbe,4,7,1,0},
{0xbbf,0xbbf,8,7,1,0},
{0xbc0,0xbc0,4,7,0,0},
{0xbc1,0xbc2,8,7,1,0},
{0xbc3,0xbc5,0,0,1,4},
{0xbc6,0xbc8,8,7,1,0},
{0xbc9,0xbc9,0,0,1,4},
{0xbca,0xbcc,8,7,1,0},
{0xbcd,0xbcd,4,7,0,0},
{0xbce,0xbcf,0,0,1,4},
{0xbd0,0xbd0,0,0,1,0},
{0xbd1,0xbd6,0,0,1,4},
{0xbd7,0xbd7,4,7,1,0},
{0xbd8,0xbe5,0,0,1,4},
{0xbe6,0xbef,0,27,1,0},
{0xbf0,0xbf8,0,0,1,0},
{0xbf9,0xbf9,0,30,1,0},
{0xbfa,0xbfa,0,0,1,0},
{0xbfb,0xbff,0,0,1,4},
{0xc00,0xc00,4,7,0,0},
{0xc01,0xc03,8,7,1,0},
{0xc04,0xc04,4,7,0,0},
{0xc05,0xc0c,0,0,1,0},
{0xc0d,0xc0d,0,0,1,4},
{0xc0e,0xc10,0,0,1,0},
{0xc11,0xc11,0,0,1,4},
{0xc12,0xc28,0,0,1,0},
{0xc29,0xc29,0,0,1,4},
{0xc2a,0xc39,0,0,1,0},
{0xc3a,0xc3b,0,0,1,4},
{0xc3c,0xc3c,4,7,0,0},
{0xc3d,0xc3d,0,0,1,0},
{0xc3e,0xc40,4,7,0,0},
{0xc41,0xc44,8,7,1,0},
{0xc45,0xc45,0,0,1,4},
{0xc46,0xc48,4,7,0,0},
{0xc49,0xc49,0,0,1,4},
{0xc4a,0xc4d,4,7,0,0},
{0xc4e,0xc54,0,0,1,4},
{0xc55,0xc56,4,7,0,0},
{0xc57,0xc57,0,0,1,4},
{0xc58,0xc5a,0,0,1,0},
{0xc5b,0xc5c,0,0,1,4},
{0xc5d,0xc5d,0,0,1,0},
{0xc5e,0xc5f,0,0,1,4},
{0xc60,0xc61,0,0,1,0},
{0xc62,0xc63,4,7,0,0},
{0xc64,0xc65,0,0,1,4},
{0xc66,0xc6f,0,27,1,0},
{0xc70,0xc76,0,0,1,4},
{0xc77,0xc77,0,2,1,0},
{0xc78,0xc80,0,0,1,0},
{0xc81,0xc81,4,7,0,0},
{0xc82,0xc83,8,7,1,0},
{0xc84,0xc84,0,2,1,0},
{0xc85,0xc8c,0,0,1,0},
{0xc8d,0xc8d,0,0,1,4},
{0xc8e,0xc90,0,0,1,0},
{0xc91,0xc91,0,0,1,4},
{0xc92,0xca8,0,0,1,0},
{0xca9,0xca9,0,0,1,4},
{0xcaa,0xcb3,0,0,1,0},
{0xcb4,0xcb4,0,0,1,4},
{0xcb5,0xcb9,0,0,1,0},
{0xcba,0xcbb,0,0,1,4},
{0xcbc,0xcbc,4,7,0,0},
{0xcbd,0xcbd,0,0,1,0},
{0xcbe,0xcbe,8,7,1,0},
{0xcbf,0xcbf,4,7,0,0},
{0xcc0,0xcc1,8,7,1,0},
{0xcc2,0xcc2,4,7,1,0},
{0xcc3,0xcc4,8,7,1,0},
{0xcc5,0xcc5,0,0,1,4},
{0xcc6,0xcc6,4,7,0,0},
{0xcc7,0xcc8,8,7,1,0},
{0xcc9,0xcc9,0,0,1,4},
{0xcca,0xccb,8,7,1,0},
{0xccc,0xccd,4,7,0,0},
{0xcce,0xcd4,0,0,1,4},
{0xcd5,0xcd6,4,7,1,0},
{0xcd7,0xcdc,0,0,1,4},
{0xcdd,0xcde,0,0,1,0},
{0xcdf,0xcdf,0,0,1,4},
{0xce0,0xce1,0,0,1,0},
{0xce2,0xce3,4,7,0,0},
{0xce4,0xce5,0,0,1,4},
{0xce6,0xcef,0,27,1,0},
{0xcf0,0xcf0,0,0,1,4},
{0xcf1,0xcf2,0,0,1,0},
{0xcf3,0xcf3,8,7,1,4},
{0xcf4,0xcff,0,0,1,4},
{0xd00,0xd01,4,7,0,0},
{0xd02,0xd03,8,7,1,0},
{0xd04,0xd0c,0,0,1,0},
{0xd0d,0xd0d,0,0,1,4},
{0xd0e,0xd10,0,0,1,0},
{0xd11,0xd11,0,0,1,4},
{0xd12,0xd3a,0,0,1,0},
{0xd3b,0xd3c,4,7,0,0},
{0xd3d,0xd3d,0,0,1,0},
{0xd3e,0xd3e,4,7,1,0},
{0xd3f,0xd40,8,7,1,0},
{0xd41,0xd44,4,7,0,0},
{0xd45,0xd45,0,0,1,4},
{0xd46,0xd48,8,7,1,0},
{0xd49,0xd49,0,0,1,4},
{0xd4a,0xd4c,8,7,1,0},
{0xd4d,0xd4d,4,7,0,0},
{0xd4e,0xd4e,7,0,1,0},
{0xd4f,0xd4f,0,0,1,0},
{0xd50,0xd53,0,0,1,4},
{0xd54,0xd56,0,0,1,0},
{0xd57,0xd57,4,7,1,0},
{0xd58,0xd61,0,0,1,0},
{0xd62,0xd63,4,7,0,0},
{0xd64,0xd65,0,0,1,4},
{0xd66,0xd6f,0,27,1,0},
{0xd70,0xd78,0,0,1,0},
{0xd79,0xd79,0,29,1,0},
{0xd7a,0xd7f,0,0,1,0},
{0xd80,0xd80,0,0,1,4},
{0xd81,0xd81,4,7,0,0},
{0xd82,0xd83,8,7,1,0},
{0xd84,0xd84,0,0,1,4},
{0xd85,0xd96,0,0,1,0},
{0xd97,0xd99,0,0,1,4},
{0xd9a,0xdb1,0,0,1,0},
{0xdb2,0xdb2,0,0,1,4},
{0xdb3,0xdbb,0,0,1,0},
{0xdbc,0xdbc,0,0,1,4},
{0xdbd,0xdbd,0,0,1,0},
{0xdbe,0xdbf,0,0,1,4},
{0xdc0,0xdc6,0,0,1,0},
{0xdc7,0xdc9,0,0,1,4},
{0xdca,0xdca,4,7,0,0},
{0xdcb,0xdce,0,0,1,4},
{0xdcf,0xdcf,4,7,1,0},
{0xdd0,0xdd1,8,7,1,0},
{0xdd2,0xdd4,4,7,0,0},
{0xdd5,0xdd5,0,0,1,4},
{0xdd6,0xdd6,4,7,0,0},
{0xdd7,0xdd7,0,0,1,4},
{0xdd8,0xdde,8,7,1,0},
{0xddf,0xddf,4,7,1,0},
{0xde0,0xde5,0,0,1,4},
{0xde6,0xdef,0,27,1,0},
{0xdf0,0xdf1,0,0,1,4},
{0xdf2,0xdf3,8,7,1,0},
{0xdf4,0xdf4,0,0,1,0},
{0xdf5,0xe00,0,0,1,4},
{0xe01,0xe30,0,0,1,0},
{0xe31,0xe31,4,7,0,0},
{0xe32,0xe32,0,0,1,0},
{0xe33,0xe33,8,0,1,0},
{0xe34,0xe3a,4,7,0,0},
{0xe3b,0xe3e,0,0,1,4},
{0xe3f,0xe3f,0,30,1,0},
{0xe40,0xe46,0,0,1,0},
{0xe47,0xe4e,4,7,0,0},
{0xe4f,0xe4f,0,0,1,0},
{0xe50,0xe59,0,27,1,0},
{0xe5a,0xe5b,0,1,1,0},
{0xe5c,0xe80,0,0,1,4},
{0xe81,0xe82,0,0,1,0},
{0xe83,0xe83,0,0,1,4},
{0xe84,0xe84,0,0,1,0},
{0xe85,0xe85,0,0,1,4},
{0xe86,0xe8a,0,0,1,0},
{0xe8b,0xe8b,0,0,1,4},
{0xe8c,0xea3,0,0,1,0},
{0xea4,0xea4,0,0,1,4},
{0xea5,0xea5,0,0,1,0},
{0xea6,0xea6,0,0,1,4},
{0xea7,0xeb0,0,0,1,0},
{0xeb1,0xeb1,4,7,0,0},
{0xeb2,0xeb2,0,0,1,0},
{0xeb3,0xeb3,8,0,1,0},
{0xeb4,0xebc,4,7,0,0},
{0xebd,0xebd,0,0,1,0},
{0xebe,0xebf,0,0,1,4},
{0xec0,0xec4,0,0,1,0},
{0xec5,0xec5,0,0,1,4},
{0xec6,0xec6,0,0,1,0},
{0xec7,0xec7,0,0,1,4},
{0xec8,0xecd,4,7,0,0},
{0xece,0xece,4,7,0,4},
{0xecf,0xecf,0,0,1,4},
{0xed0,0xed9,0,27,1,0},
{0xeda,0xedb,0,0,1,4},
{0xedc,0xedf,0,0,1,0},
{0xee0,0xeff,0,0,1,4},
{0xf00,0xf00,0,0,1,0},
{0xf01,0xf04,0,2,1,0},
{0xf05,0xf05,0,0,1,0},
{0xf06,0xf07,0,2,1,0},
{0xf08,0xf08,0,13,1,0},
{0xf09,0xf0a,0,2,1,0},
{0xf0b,0xf0b,0,1,1,0},
{0xf0c,0xf0c,0,13,1,0},
{0xf0d,0xf11,0,12,1,0},
{0xf12,0xf12,0,13,1,0},
{0xf13,0xf13,0,0,1,0},
{0xf14,0xf14,0,12,1,0},
{0xf15,0xf17,0,0,1,0},
{0xf18,0xf19,4,7,0,0},
{0xf1a,0xf1f,0,0,1,0},
{0xf20,0xf29,0,27,1,0},
{0xf2a,0xf33,0,0,1,0},
{0xf34,0xf34,0,1,1,0},
{0xf35,0xf35,4,7,0,0},
{0xf36,0xf36,0,0,1,0},
{0xf37,0xf37,4,7,0,0},
{0xf38,0xf38,0,0,1,0},
{0xf39,0xf39,4,7,0,0},
{0xf3a,0xf3a,0,28,1,0},
{0xf3b,0xf3b,0,6,1,0},
{0xf3c,0xf3c,0,28,1,0},
{0xf3d,0xf3d,0,6,1,0},
{0xf3e,0xf3f,8,7,1,0},
{0xf40,0xf47,0,0,1,0},
{0xf48,0xf48,0,0,1,4},
{0xf49,0xf6c,0,0,1,0},
{0xf6d,0xf70,0,0,1,4},
{0xf71,0xf7e,4,7,0,0},
{0xf7f,0xf7f,8,1,1,0},
{0xf80,0xf84,4,7,0,0},
{0xf85,0xf85,0,1,1,0},
{0xf86,0xf87,4,7,0,0},
{0xf88,0xf8c,0,0,1,0},
{0xf8d,0xf97,4,7,0,0},
{0xf98,0xf98,0,0,1,4},
{0xf99,0xfbc,4,7,0,0},
{0xfbd,0xfbd,0,0,1,4},
{0xfbe,0xfbf,0,1,1,0},
{0xfc0,0xfc5,0,0,1,0},
{0xfc6,0xfc6,4,7,0,0},
{0xfc7,0xfcc,0,0,1,0},
{0xfcd,0xfcd,0,0,1,4},
{0xfce,0xfcf,0,0,1,0},
{0xfd0,0xfd1,0,2,1,0},
{0xfd2,0xfd2,0,1,1,0},
{0xfd3,0xfd3,0,2,1,0},
{0xfd4,0xfd8,0,0,1,0},
{0xfd9,0xfda,0,13,1,0},
{0xfdb,0xfff,0,0,1,4},
{0x1000,0x102a,0,0,1,0},
{0x102b,0x102c,0,7,1,0},
{0x102d,0x1030,4,7,0,0},
{0x1031,0x1031,8,7,1,0},
{0x1032,0x1037,4,7,0,0},
{0x1038,0x1038,0,7,1,0},
{0x1039,0x103a,4,7,0,0},
{0x103b,0x103c,8,7,1,0},
{0x103d,0x103e,4,7,0,0},
{0x103f,0x103f,0,0,1,0},
{0x1040,0x1049,0,27,1,0},
{0x104a,0x104b,0,1,1,0},
{0x104c,0x1055,0,0,1,0},
{0x1056,0x1057,8,7,1,0},
{0x1058,0x1059,4,7,0,0},
{0x105a,0x105d,0,0,1,0},
{0x105e,0x1060,4,7,0,0},
{0x1061,0x1061,0,0,1,0},
{0x1062,0x1064,0,7,1,0},
{0x1065,0x1066,0,0,1,0},
{0x1067,0x106d,0,7,1,0},
{0x106e,0x1070,0,0,1,0},
{0x1071,0x1074,4,7,0,0},
{0x1075,0x1081,0,0,1,0},
{0x1082,0x1082,4,7,0,0},
{0x1083,0x1083,0,7,1,0},
{0x1084,0x1084,8,7,1,0},
{0x1085,0x1086,4,7,0,0},
{0x1087,0x108c,0,7,1,0},
{0x108d,0x108d,4,7,0,0},
{0x108e,0x108e,0,0,1,0},
{0x108f,0x108f,0,7,1,0},
{0x1090,0x1099,0,27,1,0},
{0x109a,0x109c,0,7,1,0},
{0x109d,0x109d,4,7,0,0},
{0x109e,0x10c5,0,0,1,0},
{0x10c6,0x10c6,0,0,1,4},
{0x10c7,0x10c7,0,0,1,0},
{0x10c8,0x10cc,0,0,1,4},
{0x10cd,0x10cd,0,0,1,0},
{0x10ce,0x10cf,0,0,1,4},
{0x10d0,0x10ff,0,0,1,0},
{0x1100,0x115f,9,21,2,0},
{0x1160,0x11a7,10,23,1,0},
{0x11a8,0x11ff,11,22,1,0},
{0x1200,0x1248,0,0,1,0},
{0x1249,0x1249,0,0,1,4},
{0x124a,0x124d,0,0,1,0},
{0x124e,0x124f,0,0,1,4},
{0x1250,0x1256,0,0,1,0},
{0x1257,0x1257,0,0,1,4},
{0x1258,0x1258,0,0,1,0},
{0x1259,0x1259,0,0,1,4},
{0x125a,0x125d,0,0,1,0},
{0x125e,0x125f,0,0,1,4},
{0x1260,0x1288,0,0,1,0},
{0x1289,0x1289,0,0,1,4},
{0x128a,0x128d,0,0,1,0},
{0x128e,0x128f,0,0,1,4},
{0x1290,0x12b0,0,0,1,0},
{0x12b1,0x12b1,0,0,1,4},
{0x12b2,0x12b5,0,0,1,0},
{0x12b6,0x12b7,0,0,1,4},
{0x12b8,0x12be,0,0,1,0},
{0x12bf,0x12bf,0,0,1,4},
{0x12c0,0x12c0,0,0,1,0},
{0x12c1,0x12c1,0,0,1,4},
{0x12c2,0x12c5,0,0,1,0},
{0x12c6,0x12c7,0,0,1,4},
{0x12c8,0x12d6,0,0,1,0},
{0x12d7,0x12d7,0,0,1,4},
{0x12d8,0x1310,0,0,1,0},
{0x1311,0x1311,0,0,1,4},
{0x1312,0x1315,0,0,1,0},
{0x1316,0x1317,0,0,1,4},
{0x1318,0x135a,0,0,1,0},
{0x135b,0x135c,0,0,1,4},
{0x135d,0x135f,4,7,0,0},
{0x1360,0x1360,0,0,1,0},
{0x1361,0x1361,0,1,1,0},
{0x1362,0x137c,0,0,1,0},
{0x137d,0x137f,0,0,1,4},
{0x1380,0x1399,0,0,1,0},
{0x139a,0x139f,0,0,1,4},
{0x13a0,0x13f5,0,0,1,0},
{0x13f6,0x13f7,0,0,1,4},
{0x13f8,0x13fd,0,0,1,0},
{0x13fe,0x13ff,0,0,1,4},
{0x1400,0x1400,0,1,1,0},
{0x1401,0x167f,0,0,1,0},
{0x1680,0x1680,0,1,1,1},
{0x1681,0x169a,0,0,1,0},
{0x169b,0x169b,0,28,1,0},
{0x169c,0x169c,0,6,1,0},
{0x169d,0x169f,0,0,1,4},
{0x16a0,0x16ea,0,0,1,0},
{0x16eb,0x16ed,0,1,1,0},
{0x16ee,0x16f8,0,0,1,0},
{0x16f9,0x16ff,0,0,1,4},
{0x1700,0x1711,0,0,1,0},
{0x1712,0x1714,4,7,0,0},
{0x1715,0x1715,8,7,1,0},
{0x1716,0x171e,0,0,1,4},
{0x171f,0x1731,0,0,1,0},
{0x1732,0x1733,4,7,0,0},
{0x1734,0x1734,8,7,1,0},
{0x1735,0x1736,0,1,1,0},
{0x1737,0x173f,0,0,1,4},
{0x1740,0x1751,0,0,1,0},
{0x1752,0x1753,4,7,0,0},
{0x1754,0x175f,0,0,1,4},
{0x1760,0x176c,0,0,1,0},
{0x176d,0x176d,0,0,1,4},
{0x176e,0x1770,0,0,1,0},
{0x1771,0x1771,0,0,1,4},
{0x1772,0x1773,4,7,0,0},
{0x1774,0x177f,0,0,1,4},
{0x1780,0x17b3,0,0,1,0},
{0x17b4,0x17b5,4,7,0,0},
{0x17b6,0x17b6,8,7,1,0},
{0x17b7,0x17bd,4,7,0,0},
{0x17be,0x17c5,8,7,1,0},
{0x17c6,0x17c6,4,7,0,0},
{0x17c7,0x17c8,8,7,1,0},
{0x17c9,0x17d3,4,7,0,0},
{0x17d4,0x17d5,0,1,1,0},
{0x17d6,0x17d6,0,26,1,0},
{0x17d7,0x17d7,0,0,1,0},
{0x17d8,0x17d8,0,1,1,0},
{0x17d9,0x17d9,0,0,1,0},
{0x17da,0x17da,0,1,1,0},
{0x17db,0x17db,0,30,1,0},
{0x17dc,0x17dc,0,0,1,0},
{0x17dd,0x17dd,4,7,0,0},
{0x17de,0x17df,0,0,1,4},
{0x17e0,0x17e9,0,27,1,0},
{0x17ea,0x17ef,0,0,1,4},
{0x17f0,0x17f9,0,0,1,0},
{0x17fa,0x17ff,0,0,1,4},
{0x1800,0x1801,0,0,1,0},
{0x1802,0x1803,0,12,1,0},
{0x1804,0x1805,0,1,1,0},
{0x1806,0x1806,0,2,1,0},
{0x1807,0x1807,0,0,1,0},
{0x1808,0x1809,0,12,1,0},
{0x180a,0x180a,0,0,1,0},
{0x180b,0x180d,4,7,0,0},
{0x180e,0x180e,3,13,1,0},
{0x180f,0x180f,4,7,0,0},
{0x1810,0x1819,0,27,1,0},
{0x181a,0x181f,0,0,1,4},
{0x1820,0x1878,0,0,1,0},
{0x1879,0x187f,0,0,1,4},
{0x1880,0x1884,0,0,1,0},
{0x1885,0x1886,4,7,0,0},
{0x1887,0x18a8,0,0,1,0},
{0x18a9,0x18a9,4,7,0,0},
{0x18aa,0x18aa,0,0,1,0},
{0x18ab,0x18af,0,0,1,4},
{0x18b0,0x18f5,0,0,1,0},
{0x18f6,0x18ff,0,0,1,4},
{0x1900,0x191e,0,0,1,0},
{0x191f,0x191f,0,0,1,4},
{0x1920,0x1922,4,7,0,0},
{0x1923,0x1926,8,7,1,0},
{0x1927,0x1928,4,7,0,0},
{0x1929,0x192b,8,7,1,0},
{0x192c,0x192f,0,0,1,4},
{0x1930,0x1931,8,7,1,0},
{0x1932,0x1932,4,7,0,0},
{0x1933,0x1938,8,7,1,0},
{0x1939,0x193b,4,7,0,0},
{0x193c,0x193f,0,0,1,4},
{0x1940,0x1940,0,0,1,0},
{0x1941,0x1943,0,0,1,4},
{0x1944,0x1945,0,12,1,0},
{0x1946,0x194f,0,27,1,0},
{0x1950,0x196d,0,0,1,0},
{0x196e,0x196f,0,0,1,4},
{0x1970,0x1974,0,0,1,0},
{0x1975,0x197f,0,0,1,4},
{0x1980,0x19ab,0,0,1,0},
{0x19ac,0x19af,0,0,1,4},
{0x19b0,0x19c9,0,0,1,0},
{0x19ca,0x19cf,0,0,1,4},
{0x19d0,0x19d9,0,27,1,0},
{0x19da,0x19da,0,0,1,0},
{0x19db,0x19dd,0,0,1,4},
{0x19de,0x1a16,0,0,1,0},
{0x1a17,0x1a18,4,7,0,0},
{0x1a19,0x1a1a,8,7,1,0},
{0x1a1b,0x1a1b,4,7,0,0},
{0x1a1c,0x1a1d,0,0,1,4},
{0x1a1e,0x1a54,0,0,1,0},
{0x1a55,0x1a55,8,7,1,0},
{0x1a56,0x1a56,4,7,0,0},
{0x1a57,0x1a57,8,7,1,0},
{0x1a58,0x1a5e,4,7,0,0},
{0x1a5f,0x1a5f,0,0,1,4},
{0x1a60,0x1a60,4,7,0,0},
{0x1a61,0x1a61,0,7,1,0},
{0x1a62,0x1a62,4,7,0,0},
{0x1a63,0x1a64,0,7,1,0},
{0x1a65,0x1a6c,4,7,0,0},
{0x1a6d,0x1a72,8,7,1,0},
{0x1a73,0x1a7c,4,7,0,0},
{0x1a7d,0x1a7e,0,0,1,4},
{0x1a7f,0x1a7f,4,7,0,0},
{0x1a80,0x1a89,0,27,1,0},
{0x1a8a,0x1a8f,0,0,1,4},
{0x1a90,0x1a99,0,27,1,0},
{0x1a9a,0x1a9f,0,0,1,4},
{0x1aa0,0x1aad,0,0,1,0},
{0x1aae,0x1aaf,0,0,1,4},
{0x1ab0,0x1ace,4,7,0,0},
{0x1acf,0x1aff,0,0,1,4},
{0x1b00,0x1b03,4,7,0,0},
{0x1b04,0x1b04,8,7,1,0},
{0x1b05,0x1b33,0,0,1,0},
{0x1b34,0x1b34,4,7,0,0},
{0x1b35,0x1b35,4,7,1,0},
{0x1b36,0x1b3a,4,7,0,0},
{0x1b3b,0x1b3b,8,7,1,0},
{0x1b3c,0x1b3c,4,7,0,0},
{0x1b3d,0x1b41,8,7,1,0},
{0x1b42,0x1b42,4,7,0,0},
{0x1b43,0x1b44,8,7,1,0},
{0x1b45,0x1b4c,0,0,1,0},
{0x1b4d,0x1b4f,0,0,1,4},
{0x1b50,0x1b59,0,27,1,0},
{0x1b5a,0x1b5b,0,1,1,0},
{0x1b5c,0x1b5c,0,0,1,0},
{0x1b5d,0x1b60,0,1,1,0},
{0x1b61,0x1b6a,0,0,1,0},
{0x1b6b,0x1b73,4,7,0,0},
{0x1b74,0x1b7c,0,0,1,0},
{0x1b7d,0x1b7e,0,1,1,0},
{0x1b7f,0x1b7f,0,0,1,4},
{0x1b80,0x1b81,4,7,0,0},
{0x1b82,0x1b82,8,7,1,0},
{0x1b83,0x1ba0,0,0,1,0},
{0x1ba1,0x1ba1,8,7,1,0},
{0x1ba2,0x1ba5,4,7,0,0},
{0x1ba6,0x1ba7,8,7,1,0},
{0x1ba8,0x1ba9,4,7,0,0},
{0x1baa,0x1baa,8,7,1,0},
{0x1bab,0x1bad,4,7,0,0},
{0x1bae,0x1baf,0,0,1,0},
{0x1bb0,0x1bb9,0,27,1,0},
{0x1bba,0x1be5,0,0,1,0},
{0x1be6,0x1be6,4,7,0,0},
{0x1be7,0x1be7,8,7,1,0},
{0x1be8,0x1be9,4,7,0,0},
{0x1bea,0x1bec,8,7,1,0},
{0x1bed,0x1bed,4,7,0,0},
{0x1bee,0x1bee,8,7,1,0},
{0x1bef,0x1bf1,4,7,0,0},
{0x1bf2,0x1bf3,8,7,1,0},
{0x1bf4,0x1bfb,0,0,1,4},
{0x1bfc,0x1c23,0,0,1,0},
{0x1c24,0x1c2b,8,7,1,0},
{0x1c2c,0x1c33,4,7,0,0},
{0x1c34,0x1c35,8,7,1,0},
{0x1c36,0x1c37,4,7,0,0},
{0x1c38,0x1c3a,0,0,1,4},
{0x1c3b,0x1c3f,0,1,1,0},
{0x1c40,0x1c49,0,27,1,0},
{0x1c4a,0x1c4c,0,0,1,4},
{0x1c4d,0x1c4f,0,0,1,0},
{0x1c50,0x1c59,0,27,1,0},
{0x1c5a,0x1c7d,0,0,1,0},
{0x1c7e,0x1c7f,0,1,1,0},
{0x1c80,0x1c88,0,0,1,0},
{0x1c89,0x1c8f,0,0,1,4},
{0x1c90,0x1cba,0,0,1,0},
{0x1cbb,0x1cbc,0,0,1,4},
{0x1cbd,0x1cc7,0,0,1,0},
{0x1cc8,0x1ccf,0,0,1,4},
{0x1cd0,0x1cd2,4,7,0,0},
{0x1cd3,0x1cd3,0,0,1,0},
{0x1cd4,0x1ce0,4,7,0,0},
{0x1ce1,0x1ce1,8,7,1,0},
{0x1ce2,0x1ce8,4,7,0,0},
{0x1ce9,0x1cec,0,0,1,0},
{0x1ced,0x1ced,4,7,0,0},
{0x1cee,0x1cf3,0,0,1,0},
{0x1cf4,0x1cf4,4,7,0,0},
{0x1cf5,0x1cf6,0,0,1,0},
{0x1cf7,0x1cf7,8,7,1,0},
{0x1cf8,0x1cf9,4,7,0,0},
{0x1cfa,0x1cfa,0,0,1,0},
{0x1cfb,0x1cff,0,0,1,4},
{0x1d00,0x1dbf,0,0,1,0},
{0x1dc0,0x1dcc,4,7,0,0},
{0x1dcd,0x1dcd,4,13,0,4},
{0x1dce,0x1dfb,4,7,0,0},
{0x1dfc,0x1dfc,4,13,0,4},
{0x1dfd,0x1dff,4,7,0,0},
{0x1e00,0x1f15,0,0,1,0},
{0x1f16,0x1f17,0,0,1,4},
{0x1f18,0x1f1d,0,0,1,0},
{0x1f1e,0x1f1f,0,0,1,4},
{0x1f20,0x1f45,0,0,1,0},
{0x1f46,0x1f47,0,0,1,4},
{0x1f48,0x1f4d,0,0,1,0},
{0x1f4e,0x1f4f,0,0,1,4},
{0x1f50,0x1f57,0,0,1,0},
{0x1f58,0x1f58,0,0,1,4},
{0x1f59,0x1f59,0,0,1,0},
{0x1f5a,0x1f5a,0,0,1,4},
{0x1f5b,0x1f5b,0,0,1,0},
{0x1f5c,0x1f5c,0,0,1,4},
{0x1f5d,0x1f5d,0,0,1,0},
{0x1f5e,0x1f5e,0,0,1,4},
{0x1f5f,0x1f7d,0,0,1,0},
{0x1f7e,0x1f7f,0,0,1,4},
{0x1f80,0x1fb4,0,0,1,0},
{0x1fb5,0x1fb5,0,0,1,4},
{0x1fb6,0x1fc4,0,0,1,0},
{0x1fc5,0x1fc5,0,0,1,4},
{0x1fc6,0x1fd3,0,0,1,0},
{0x1fd4,0x1fd5,0,0,1,4},
{0x1fd6,0x1fdb,0,0,1,0},
{0x1fdc,0x1fdc,0,0,1,4},
{0x1fdd,0x1fef,0,0,1,0},
{0x1ff0,0x1ff1,0,0,1,4},
{0x1ff2,0x1ff4,0,0,1,0},
{0x1ff5,0x1ff5,0,0,1,4},
{0x1ff6,0x1ffc,0,0,1,0},
{0x1ffd,0x1ffd,0,2,1,0},
{0x1ffe,0x1ffe,0,0,1,0},
{0x1fff,0x1fff,0,0,1,4},
{0x2000,0x2006,0,1,1,1},
{0x2007,0x2007,0,13,1,1},
{0x2008,0x200a,0,1,1,1},
{0x200b,0x200b,3,36,1,0},
{0x200c,0x200c,4,7,1,0},
{0x200d,0x200d,5,37,1,0},
{0x200e,0x200f,3,7,1,0},
{0x2010,0x2010,0,1,1,0},
{0x2011,0x2011,0,13,1,0},
{0x2012,0x2013,0,1,1,0},
{0x2014,0x2014,0,3,1,0},
{0x2015,0x2017,0,0,1,0},
{0x2018,0x2019,0,31,1,0},
{0x201a,0x201a,0,28,1,0},
{0x201b,0x201d,0,31,1,0},
{0x201e,0x201e,0,28,1,0},
{0x201f,0x201f,0,31,1,0},
{0x2020,0x2023,0,0,1,0},
{0x2024,0x2026,0,19,1,0},
{0x2027,0x2027,0,1,1,0},
{0x2028,0x2029,3,4,1,1},
{0x202a,0x202e,3,7,1,0},
{0x202f,0x202f,0,13,1,1},
{0x2030,0x2037,0,29,1,0},
{0x2038,0x2038,0,0,1,0},
{0x2039,0x203a,0,31,1,0},
{0x203b,0x203b,0,0,1,0},
{0x203c,0x203c,0,26,1,2},
{0x203d,0x203d,0,26,1,0},
{0x203e,0x2043,0,0,1,0},
{0x2044,0x2044,0,20,1,0},
{0x2045,0x2045,0,28,1,0},
{0x2046,0x2046,0,6,1,0},
{0x2047,0x2048,0,26,1,0},
{0x2049,0x2049,0,26,1,2},
{0x204a,0x2055,0,0,1,0},
{0x2056,0x2056,0,1,1,0},
{0x2057,0x2057,0,29,1,4},
{0x2058,0x205b,0,1,1,0},
{0x205c,0x205c,0,0,1,0},
{0x205d,0x205e,0,1,1,0},
{0x205f,0x205f,0,1,1,1},
{0x2060,0x2060,3,35,1,0},
{0x2061,0x2064,3,0,1,0},
{0x2065,0x2065,3,0,1,4},
{0x2066,0x206f,3,7,1,0},
{0x2070,0x2071,0,0,1,0},
{0x2072,0x2073,0,0,1,4},
{0x2074,0x207c,0,0,1,0},
{0x207d,0x207d,0,28,1,0},
{0x207e,0x207e,0,6,1,0},
{0x207f,0x208c,0,0,1,0},
{0x208d,0x208d,0,28,1,0},
{0x208e,0x208e,0,6,1,0},
{0x208f,0x208f,0,0,1,4},
{0x2090,0x209c,0,0,1,0},
{0x209d,0x209f,0,0,1,4},
{0x20a0,0x20a6,0,30,1,0},
{0x20a7,0x20a7,0,29,1,0},
{0x20a8,0x20b5,0,30,1,0},
{0x20b6,0x20b6,0,29,1,0},
{0x20b7,0x20ba,0,30,1,0},
{0x20bb,0x20bb,0,29,1,0},
{0x20bc,0x20bd,0,30,1,0},
{0x20be,0x20be,0,29,1,0},
{0x20bf,0x20bf,0,30,1,0},
{0x20c0,0x20c0,0,29,1,0},
{0x20c1,0x20cf,0,30,1,4},
{0x20d0,0x20f0,4,7,0,0},
{0x20f1,0x20ff,0,0,1,4},
{0x2100,0x2102,0,0,1,0},
{0x2103,0x2103,0,29,1,0},
{0x2104,0x2108,0,0,1,0},
{0x2109,0x2109,0,29,1,0},
{0x210a,0x2115,0,0,1,0},
{0x2116,0x2116,0,30,1,0},
{0x2117,0x2121,0,0,1,0},
{0x2122,0x2122,0,0,1,2},
{0x2123,0x2138,0,0,1,0},
{0x2139,0x2139,0,0,1,2},
{0x213a,0x218b,0,0,1,0},
{0x218c,0x218f,0,0,1,4},
{0x2190,0x2193,0,0,1,0},
{0x2194,0x2199,0,0,1,2},
{0x219a,0x21a8,0,0,1,0},
{0x21a9,0x21aa,0,0,1,2},
{0x21ab,0x2211,0,0,1,0},
{0x2212,0x2213,0,30,1,0},
{0x2214,0x22ee,0,0,1,0},
{0x22ef,0x22ef,0,19,1,0},
{0x22f0,0x2307,0,0,1,0},
{0x2308,0x2308,0,28,1,0},
{0x2309,0x2309,0,6,1,0},
{0x230a,0x230a,0,28,1,0},
{0x230b,0x230b,0,6,1,0},
{0x230c,0x2319,0,0,1,0},
{0x231a,0x231b,0,17,2,2},
{0x231c,0x2327,0,0,1,0},
{0x2328,0x2328,0,0,1,2},
{0x2329,0x2329,0,28,2,0},
{0x232a,0x232a,0,6,2,0},
{0x232b,0x2387,0,0,1,0},
{0x2388,0x2388,0,0,1,2},
{0x2389,0x23ce,0,0,1,0},
{0x23cf,0x23cf,0,0,1,2},
{0x23d0,0x23e8,0,0,1,0},
{0x23e9,0x23ec,0,0,2,2},
{0x23ed,0x23ef,0,0,1,2},
{0x23f0,0x23f0,0,17,2,2},
{0x23f1,0x23f2,0,17,1,2},
{0x23f3,0x23f3,0,17,2,2},
{0x23f4,0x23f7,0,0,1,0},
{0x23f8,0x23fa,0,0,1,2},
{0x23fb,0x2426,0,0,1,0},
{0x2427,0x243f,0,0,1,4},
{0x2440,0x244a,0,0,1,0},
{0x244b,0x245f,0,0,1,4},
{0x2460,0x24c1,0,0,1,0},
{0x24c2,0x24c2,0,0,1,2},
{0x24c3,0x25a9,0,0,1,0},
{0x25aa,0x25ab,0,0,1,2},
{0x25ac,0x25b5,0,0,1,0},
{0x25b6,0x25b6,0,0,1,2},
{0x25b7,0x25bf,0,0,1,0},
{0x25c0,0x25c0,0,0,1,2},
{0x25c1,0x25fa,0,0,1,0},
{0x25fb,0x25fc,0,0,1,2},
{0x25fd,0x25fe,0,0,2,2},
{0x25ff,0x25ff,0,0,1,0},
{0x2600,0x2603,0,17,1,2},
{0x2604,0x2605,0,0,1,2},
{0x2606,0x2606,0,0,1,0},
{0x2607,0x2612,0,0,1,2},
{0x2613,0x2613,0,0,1,0},
{0x2614,0x2615,0,17,2,2},
{0x2616,0x2617,0,0,1,2},
{0x2618,0x2618,0,17,1,2},
{0x2619,0x2619,0,0,1,2},
{0x261a,0x261c,0,17,1,2},
{0x261d,0x261d,0,10,1,2},
{0x261e,0x261f,0,17,1,2},
{0x2620,0x2638,0,0,1,2},
{0x2639,0x263b,0,17,1,2},
{0x263c,0x2647,0,0,1,2},
{0x2648,0x2653,0,0,2,2},
{0x2654,0x2667,0,0,1,2},
{0x2668,0x2668,0,17,1,2},
{0x2669,0x267e,0,0,1,2},
{0x267f,0x267f,0,17,2,2},
{0x2680,0x2685,0,0,1,2},
{0x2686,0x268f,0,0,1,0},
{0x2690,0x2692,0,0,1,2},
{0x2693,0x2693,0,0,2,2},
{0x2694,0x26a0,0,0,1,2},
{0x26a1,0x26a1,0,0,2,2},
{0x26a2,0x26a9,0,0,1,2},
{0x26aa,0x26ab,0,0,2,2},
{0x26ac,0x26bc,0,0,1,2},
{0x26bd,0x26be,0,17,2,2},
{0x26bf,0x26c3,0,17,1,2},
{0x26c4,0x26c5,0,17,2,2},
{0x26c6,0x26c8,0,17,1,2},
{0x26c9,0x26cc,0,0,1,2},
{0x26cd,0x26cd,0,17,1,2},
{0x26ce,0x26ce,0,0,2,2},
{0x26cf,0x26d1,0,17,1,2},
{0x26d2,0x26d2,0,0,1,2},
{0x26d3,0x26d3,0,17,1,2},
{0x26d4,0x26d4,0,17,2,2},
{0x26d5,0x26d7,0,0,1,2},
{0x26d8,0x26d9,0,17,1,2},
{0x26da,0x26db,0,0,1,2},
{0x26dc,0x26dc,0,17,1,2},
{0x26dd,0x26de,0,0,1,2},
{0x26df,0x26e1,0,17,1,2},
{0x26e2,0x26e9,0,0,1,2},
{0x26ea,0x26ea,0,17,2,2},
{0x26eb,0x26f0,0,0,1,2},
{0x26f1,0x26f1,0,17,1,2},
{0x26f2,0x26f3,0,17,2,2},
{0x26f4,0x26f4,0,17,1,2},
{0x26f5,0x26f5,0,17,2,2},
{0x26f6,0x26f6,0,0,1,2},
{0x26f7,0x26f8,0,17,1,2},
{0x26f9,0x26f9,0,10,1,2},
{0x26fa,0x26fa,0,17,2,2},
{0x26fb,0x26fc,0,0,1,2},
{0x26fd,0x26fd,0,17,2,2},
{0x26fe,0x2704,0,17,1,2},
{0x2705,0x2705,0,0,2,2},
{0x2706,0x2707,0,0,1,0},
{0x2708,0x2709,0,17,1,2},
{0x270a,0x270b,0,10,2,2},
{0x270c,0x270d,0,10,1,2},
{0x270e,0x2712,0,0,1,2},
{0x2713,0x2713,0,0,1,0},
{0x2714,0x2714,0,0,1,2},
{0x2715,0x2715,0,0,1,0},
{0x2716,0x2716,0,0,1,2},
{0x2717,0x271c,0,0,1,0},
{0x271d,0x271d,0,0,1,2},
{0x271e,0x2720,0,0,1,0},
{0x2721,0x2721,0,0,1,2},
{0x2722,0x2727,0,0,1,0},
{0x2728,0x2728,0,0,2,2},
{0x2729,0x2732,0,0,1,0},
{0x2733,0x2734,0,0,1,2},
{0x2735,0x2743,0,0,1,0},
{0x2744,0x2744,0,0,1,2},
{0x2745,0x2746,0,0,1,0},
{0x2747,0x2747,0,0,1,2},
{0x2748,0x274b,0,0,1,0},
{0x274c,0x274c,0,0,2,2},
{0x274d,0x274d,0,0,1,0},
{0x274e,0x274e,0,0,2,2},
{0x274f,0x2752,0,0,1,0},
{0x2753,0x2755,0,0,2,2},
{0x2756,0x2756,0,0,1,0},
{0x2757,0x2757,0,0,2,2},
{0x2758,0x275a,0,0,1,0},
{0x275b,0x2760,0,31,1,0},
{0x2761,0x2761,0,0,1,0},
{0x2762,0x2762,0,12,1,0},
{0x2763,0x2763,0,12,1,2},
{0x2764,0x2764,0,17,1,2},
{0x2765,0x2767,0,0,1,2},
{0x2768,0x2768,0,28,1,0},
{0x2769,0x2769,0,6,1,0},
{0x276a,0x276a,0,28,1,0},
{0x276b,0x276b,0,6,1,0},
{0x276c,0x276c,0,28,1,0},
{0x276d,0x276d,0,6,1,0},
{0x276e,0x276e,0,28,1,0},
{0x276f,0x276f,0,6,1,0},
{0x2770,0x2770,0,28,1,0},
{0x2771,0x2771,0,6,1,0},
{0x2772,0x2772,0,28,1,0},
{0x2773,0x2773,0,6,1,0},
{0x2774,0x2774,0,28,1,0},
{0x2775,0x2775,0,6,1,0},
{0x2776,0x2794,0,0,1,0},
{0x2795,0x2797,0,0,2,2},
{0x2798,0x27a0,0,0,1,0},
{0x27a1,0x27a1,0,0,1,2},
{0x27a2,0x27af,0,0,1,0},
{0x27b0,0x27b0,0,0,2,2},
{0x27b1,0x27be,0,0,1,0},
{0x27bf,0x27bf,0,0,2,2},
{0x27c0,0x27c4,0,0,1,0},
{0x27c5,0x27c5,0,28,1,0},
{0x27c6,0x27c6,0,6,1,0},
{0x27c7,0x27e5,0,0,1,0},
{0x27e6,0x27e6,0,28,1,0},
{0x27e7,0x27e7,0,6,1,0},
{0x27e8,0x27e8,0,28,1,0},
{0x27e9,0x27e9,0,6,1,0},
{0x27ea,0x27ea,0,28,1,0},
{0x27eb,0x27eb,0,6,1,0},
{0x27ec,0x27ec,0,28,1,0},
{0x27ed,0x27ed,0,6,1,0},
{0x27ee,0x27ee,0,28,1,0},
{0x27ef,0x27ef,0,6,1,0},
{0x27f0,0x2933,0,0,1,0},
{0x2934,0x2935,0,0,1,2},
{0x2936,0x2982,0,0,1,0},
{0x2983,0x2983,0,28,1,0},
{0x2984,0x2984,0,6,1,0},
{0x2985,0x2985,0,28,1,0},
{0x2986,0x2986,0,6,1,0},
{0x2987,0x2987,0,28,1,0},
{0x2988,0x2988,0,6,1,0},
{0x2989,0x2989,0,28,1,0},
{0x298a,0x298a,0,6,1,0},
{0x298b,0x298b,0,28,1,0},
{0x298c,0x298c,0,6,1,0},
{0x298d,0x298d,0,28,1,0},
{0x298e,0x298e,0,6,1,0},
{0x298f,0x298f,0,28,1,0},
{0x2990,0x2990,0,6,1,0},
{0x2991,0x2991,0,28,1,0},
{0x2992,0x2992,0,6,1,0},
{0x2993,0x2993,0,28,1,0},
{0x2994,0x2994,0,6,1,0},
{0x2995,0x2995,0,28,1,0},
{0x2996,0x2996,0,6,1,0},
{0x2997,0x2997,0,28,1,0},
{0x2998,0x2998,0,6,1,0},
{0x2999,0x29d7,0,0,1,0},
{0x29d8,0x29d8,0,28,1,0},
{0x29d9,0x29d9,0,6,1,0},
{0x29da,0x29da,0,28,1,0},
{0x29db,0x29db,0,6,1,0},
{0x29dc,0x29fb,0,0,1,0},
{0x29fc,0x29fc,0,28,1,0},
{0x29fd,0x29fd,0,6,1,0},
{0x29fe,0x2b04,0,0,1,0},
{0x2b05,0x2b07,0,0,1,2},
{0x2b08,0x2b1a,0,0,1,0},
{0x2b1b,0x2b1c,0,0,2,2},
{0x2b1d,0x2b4f,0,0,1,0},
{0x2b50,0x2b50,0,0,2,2},
{0x2b51,0x2b54,0,0,1,0},
{0x2b55,0x2b55,0,0,2,2},
{0x2b56,0x2b73,0,0,1,0},
{0x2b74,0x2b75,0,0,1,4},
{0x2b76,0x2b95,0,0,1,0},
{0x2b96,0x2b96,0,0,1,4},
{0x2b97,0x2cee,0,0,1,0},
{0x2cef,0x2cf1,4,7,0,0},
{0x2cf2,0x2cf3,0,0,1,0},
{0x2cf4,0x2cf8,0,0,1,4},
{0x2cf9,0x2cf9,0,12,1,0},
{0x2cfa,0x2cfc,0,1,1,0},
{0x2cfd,0x2cfd,0,0,1,0},
{0x2cfe,0x2cfe,0,12,1,0},
{0x2cff,0x2cff,0,1,1,0},
{0x2d00,0x2d25,0,0,1,0},
{0x2d26,0x2d26,0,0,1,4},
{0x2d27,0x2d27,0,0,1,0},
{0x2d28,0x2d2c,0,0,1,4},
{0x2d2d,0x2d2d,0,0,1,0},
{0x2d2e,0x2d2f,0,0,1,4},
{0x2d30,0x2d67,0,0,1,0},
{0x2d68,0x2d6e,0,0,1,4},
{0x2d6f,0x2d6f,0,0,1,0},
{0x2d70,0x2d70,0,1,1,0},
{0x2d71,0x2d7e,0,0,1,4},
{0x2d7f,0x2d7f,4,7,0,0},
{0x2d80,0x2d96,0,0,1,0},
{0x2d97,0x2d9f,0,0,1,4},
{0x2da0,0x2da6,0,0,1,0},
{0x2da7,0x2da7,0,0,1,4},
{0x2da8,0x2dae,0,0,1,0},
{0x2daf,0x2daf,0,0,1,4},
{0x2db0,0x2db6,0,0,1,0},
{0x2db7,0x2db7,0,0,1,4},
{0x2db8,0x2dbe,0,0,1,0},
{0x2dbf,0x2dbf,0,0,1,4},
{0x2dc0,0x2dc6,0,0,1,0},
{0x2dc7,0x2dc7,0,0,1,4},
{0x2dc8,0x2dce,0,0,1,0},
{0x2dcf,0x2dcf,0,0,1,4},
{0x2dd0,0x2dd6,0,0,1,0},
{0x2dd7,0x2dd7,0,0,1,4},
{0x2dd8,0x2dde,0,0,1,0},
{0x2ddf,0x2ddf,0,0,1,4},
{0x2de0,0x2dff,4,7,0,0},
{0x2e00,0x2e0d,0,31,1,0},
{0x2e0e,0x2e15,0,1,1,0},
{0x2e16,0x2e16,0,0,1,0},
{0x2e17,0x2e17,0,1,1,0},
{0x2e18,0x2e18,0,28,1,0},
{0x2e19,0x2e19,0,1,1,0},
{0x2e1a,0x2e1b,0,0,1,0},
{0x2e1c,0x2e1d,0,31,1,0},
{0x2e1e,0x2e1f,0,0,1,0},
{0x2e20,0x2e21,0,31,1,0},
{0x2e22,0x2e22,0,28,1,0},
{0x2e23,0x2e23,0,6,1,0},
{0x2e24,0x2e24,0,28,1,0},
{0x2e25,0x2e25,0,6,1,0},
{0x2e26,0x2e26,0,28,1,0},
{0x2e27,0x2e27,0,6,1,0},
{0x2e28,0x2e28,0,28,1,0},
{0x2e29,0x2e29,0,6,1,0},
{0x2e2a,0x2e2d,0,1,1,0},
{0x2e2e,0x2e2e,0,12,1,0},
{0x2e2f,0x2e2f,0,0,1,0},
{0x2e30,0x2e31,0,1,1,0},
{0x2e32,0x2e32,0,0,1,0},
{0x2e33,0x2e34,0,1,1,0},
{0x2e35,0x2e39,0,0,1,0},
{0x2e3a,0x2e3b,0,3,1,0},
{0x2e3c,0x2e3e,0,1,1,0},
{0x2e3f,0x2e3f,0,0,1,0},
{0x2e40,0x2e41,0,1,1,0},
{0x2e42,0x2e42,0,28,1,0},
{0x2e43,0x2e4a,0,1,1,0},
{0x2e4b,0x2e4b,0,0,1,0},
{0x2e4c,0x2e4c,0,1,1,0},
{0x2e4d,0x2e4d,0,0,1,0},
{0x2e4e,0x2e4f,0,1,1,0},
{0x2e50,0x2e52,0,0,1,0},
{0x2e53,0x2e54,0,12,1,0},
{0x2e55,0x2e55,0,28,1,0},
{0x2e56,0x2e56,0,6,1,0},
{0x2e57,0x2e57,0,28,1,0},
{0x2e58,0x2e58,0,6,1,0},
{0x2e59,0x2e59,0,28,1,0},
{0x2e5a,0x2e5a,0,6,1,0},
{0x2e5b,0x2e5b,0,28,1,0},
{0x2e5c,0x2e5c,0,6,1,0},
{0x2e5d,0x2e5d,0,1,1,0},
{0x2e5e,0x2e7f,0,0,1,4},
{0x2e80,0x2e99,0,17,2,0},
{0x2e9a,0x2e9a,0,0,1,4},
{0x2e9b,0x2ef3,0,17,2,0},
{0x2ef4,0x2eff,0,0,1,4},
{0x2f00,0x2fd5,0,17,2,0},
{0x2fd6,0x2fef,0,0,1,4},
{0x2ff0,0x2ffb,0,17,2,0},
{0x2ffc,0x2fff,0,0,1,4},
{0x3000,0x3000,0,1,2,1},
{0x3001,0x3002,0,6,2,0},
{0x3003,0x3004,0,17,2,0},
{0x3005,0x3005,0,26,2,0},
{0x3006,0x3007,0,17,2,0},
{0x3008,0x3008,0,28,2,0},
{0x3009,0x3009,0,6,2,0},
{0x300a,0x300a,0,28,2,0},
{0x300b,0x300b,0,6,2,0},
{0x300c,0x300c,0,28,2,0},
{0x300d,0x300d,0,6,2,0},
{0x300e,0x300e,0,28,2,0},
{0x300f,0x300f,0,6,2,0},
{0x3010,0x3010,0,28,2,0},
{0x3011,0x3011,0,6,2,0},
{0x3012,0x3013,0,17,2,0},
{0x3014,0x3014,0,28,2,0},
{0x3015,0x3015,0,6,2,0},
{0x3016,0x3016,0,28,2,0},
{0x3017,0x3017,0,6,2,0},
{0x3018,0x3018,0,28,2,0},
{0x3019,0x3019,0,6,2,0},
{0x301a,0x301a,0,28,2,0},
{0x301b,0x301b,0,6,2,0},
{0x301c,0x301c,0,26,2,0},
{0x301d,0x301d,0,28,2,0},
{0x301e,0x301f,0,6,2,0},
{0x3020,0x3029,0,17,2,0},
{0x302a,0x302f,4,7,2,0},
{0x3030,0x3030,0,17,2,2},
{0x3031,0x3034,0,17,2,0},
{0x3035,0x3035,0,7,2,0},
{0x3036,0x303a,0,17,2,0},
{0x303b,0x303c,0,26,2,0},
{0x303d,0x303d,0,17,2,2},
{0x303e,0x303e,0,17,2,0},
{0x303f,0x303f,0,17,1,0},
{0x3040,0x3040,0,0,1,4},
{0x3041,0x3041,0,38,2,0},
{0x3042,0x3042,0,17,2,0},
{0x3043,0x3043,0,38,2,0},
{0x3044,0x3044,0,17,2,0},
{0x3045,0x3045,0,38,2,0},
{0x3046,0x3046,0,17,2,0},
{0x3047,0x3047,0,38,2,0},
{0x3048,0x3048,0,17,2,0},
{0x3049,0x3049,0,38,2,0},
{0x304a,0x3062,0,17,2,0},
{0x3063,0x3063,0,38,2,0},
{0x3064,0x3082,0,17,2,0},
{0x3083,0x3083,0,38,2,0},
{0x3084,0x3084,0,17,2,0},
{0x3085,0x3085,0,38,2,0},
{0x3086,0x3086,0,17,2,0},
{0x3087,0x3087,0,38,2,0},
{0x3088,0x308d,0,17,2,0},
{0x308e,0x308e,0,38,2,0},
{0x308f,0x3094,0,17,2,0},
{0x3095,0x3096,0,38,2,0},
{0x3097,0x3098,0,0,1,4},
{0x3099,0x309a,4,7,2,0},
{0x309b,0x309e,0,26,2,0},
{0x309f,0x309f,0,17,2,0},
{0x30a0,0x30a0,0,26,2,0},
{0x30a1,0x30a1,0,38,2,0},
{0x30a2,0x30a2,0,17,2,0},
{0x30a3,0x30a3,0,38,2,0},
{0x30a4,0x30a4,0,17,2,0},
{0x30a5,0x30a5,0,38,2,0},
{0x30a6,0x30a6,0,17,2,0},
{0x30a7,0x30a7,0,38,2,0},
{0x30a8,0x30a8,0,17,2,0},
{0x30a9,0x30a9,0,38,2,0},
{0x30aa,0x30c2,0,17,2,0},
{0x30c3,0x30c3,0,38,2,0},
{0x30c4,0x30e2,0,17,2,0},
{0x30e3,0x30e3,0,38,2,0},
{0x30e4,0x30e4,0,17,2,0},
{0x30e5,0x30e5,0,38,2,0},
{0x30e6,0x30e6,0,17,2,0},
{0x30e7,0x30e7,0,38,2,0},
{0x30e8,0x30ed,0,17,2,0},
{0x30ee,0x30ee,0,38,2,0},
{0x30ef,0x30f4,0,17,2,0},
{0x30f5,0x30f6,0,38,2,0},
{0x30f7,0x30fa,0,17,2,0},
{0x30fb,0x30fb,0,26,2,0},
{0x30fc,0x30fc,0,38,2,0},
{0x30fd,0x30fe,0,26,2,0},
{0x30ff,0x30ff,0,17,2,0},
{0x3100,0x3104,0,0,1,4},
{0x3105,0x312f,0,17,2,0},
{0x3130,0x3130,0,0,1,4},
{0x3131,0x318e,0,17,2,0},
{0x318f,0x318f,0,0,1,4},
{0x3190,0x31e3,0,17,2,0},
{0x31e4,0x31ef,0,0,1,4},
{0x31f0,0x31ff,0,38,2,0},
{0x3200,0x321e,0,17,2,0},
{0x321f,0x321f,0,0,1,4},
{0x3220,0x3247,0,17,2,0},
{0x3248,0x324f,0,0,1,0},
{0x3250,0x3296,0,17,2,0},
{0x3297,0x3297,0,17,2,2},
{0x3298,0x3298,0,17,2,0},
{0x3299,0x3299,0,17,2,2},
{0x329a,0x4dbf,0,17,2,0},
{0x4dc0,0x4dff,0,0,1,0},
{0x4e00,0xa014,0,17,2,0},
{0xa015,0xa015,0,26,2,0},
{0xa016,0xa48c,0,17,2,0},
{0xa48d,0xa48f,0,0,1,4},
{0xa490,0xa4c6,0,17,2,0},
{0xa4c7,0xa4cf,0,0,1,4},
{0xa4d0,0xa4fd,0,0,1,0},
{0xa4fe,0xa4ff,0,1,1,0},
{0xa500,0xa60c,0,0,1,0},
{0xa60d,0xa60d,0,1,1,0},
{0xa60e,0xa60e,0,12,1,0},
{0xa60f,0xa60f,0,1,1,0},
{0xa610,0xa61f,0,0,1,0},
{0xa620,0xa629,0,27,1,0},
{0xa62a,0xa62b,0,0,1,0},
{0xa62c,0xa63f,0,0,1,4},
{0xa640,0xa66e,0,0,1,0},
{0xa66f,0xa672,4,7,0,0},
{0xa673,0xa673,0,0,1,0},
{0xa674,0xa67d,4,7,0,0},
{0xa67e,0xa69d,0,0,1,0},
{0xa69e,0xa69f,4,7,0,0},
{0xa6a0,0xa6ef,0,0,1,0},
{0xa6f0,0xa6f1,4,7,0,0},
{0xa6f2,0xa6f2,0,0,1,0},
{0xa6f3,0xa6f7,0,1,1,0},
{0xa6f8,0xa6ff,0,0,1,4},
{0xa700,0xa7ca,0,0,1,0},
{0xa7cb,0xa7cf,0,0,1,4},
{0xa7d0,0xa7d1,0,0,1,0},
{0xa7d2,0xa7d2,0,0,1,4},
{0xa7d3,0xa7d3,0,0,1,0},
{0xa7d4,0xa7d4,0,0,1,4},
{0xa7d5,0xa7d9,0,0,1,0},
{0xa7da,0xa7f1,0,0,1,4},
{0xa7f2,0xa801,0,0,1,0},
{0xa802,0xa802,4,7,0,0},
{0xa803,0xa805,0,0,1,0},
{0xa806,0xa806,4,7,0,0},
{0xa807,0xa80a,0,0,1,0},
{0xa80b,0xa80b,4,7,0,0},
{0xa80c,0xa822,0,0,1,0},
{0xa823,0xa824,8,7,1,0},
{0xa825,0xa826,4,7,0,0},
{0xa827,0xa827,8,7,1,0},
{0xa828,0xa82b,0,0,1,0},
{0xa82c,0xa82c,4,7,0,0},
{0xa82d,0xa82f,0,0,1,4},
{0xa830,0xa837,0,0,1,0},
{0xa838,0xa838,0,29,1,0},
{0xa839,0xa839,0,0,1,0},
{0xa83a,0xa83f,0,0,1,4},
{0xa840,0xa873,0,0,1,0},
{0xa874,0xa875,0,2,1,0},
{0xa876,0xa877,0,12,1,0},
{0xa878,0xa87f,0,0,1,4},
{0xa880,0xa881,8,7,1,0},
{0xa882,0xa8b3,0,0,1,0},
{0xa8b4,0xa8c3,8,7,1,0},
{0xa8c4,0xa8c5,4,7,0,0},
{0xa8c6,0xa8cd,0,0,1,4},
{0xa8ce,0xa8cf,0,1,1,0},
{0xa8d0,0xa8d9,0,27,1,0},
{0xa8da,0xa8df,0,0,1,4},
{0xa8e0,0xa8f1,4,7,0,0},
{0xa8f2,0xa8fb,0,0,1,0},
{0xa8fc,0xa8fc,0,2,1,0},
{0xa8fd,0xa8fe,0,0,1,0},
{0xa8ff,0xa8ff,4,7,0,0},
{0xa900,0xa909,0,27,1,0},
{0xa90a,0xa925,0,0,1,0},
{0xa926,0xa92d,4,7,0,0},
{0xa92e,0xa92f,0,1,1,0},
{0xa930,0xa946,0,0,1,0},
{0xa947,0xa951,4,7,0,0},
{0xa952,0xa953,8,7,1,0},
{0xa954,0xa95e,0,0,1,4},
{0xa95f,0xa95f,0,0,1,0},
{0xa960,0xa97c,9,21,2,0},
{0xa97d,0xa97f,0,0,1,4},
{0xa980,0xa982,4,7,0,0},
{0xa983,0xa983,8,7,1,0},
{0xa984,0xa9b2,0,0,1,0},
{0xa9b3,0xa9b3,4,7,0,0},
{0xa9b4,0xa9b5,8,7,1,0},
{0xa9b6,0xa9b9,4,7,0,0},
{0xa9ba,0xa9bb,8,7,1,0},
{0xa9bc,0xa9bd,4,7,0,0},
{0xa9be,0xa9c0,8,7,1,0},
{0xa9c1,0xa9c6,0,0,1,0},
{0xa9c7,0xa9c9,0,1,1,0},
{0xa9ca,0xa9cd,0,0,1,0},
{0xa9ce,0xa9ce,0,0,1,4},
{0xa9cf,0xa9cf,0,0,1,0},
{0xa9d0,0xa9d9,0,27,1,0},
{0xa9da,0xa9dd,0,0,1,4},
{0xa9de,0xa9e4,0,0,1,0},
{0xa9e5,0xa9e5,4,7,0,0},
{0xa9e6,0xa9ef,0,0,1,0},
{0xa9f0,0xa9f9,0,27,1,0},
{0xa9fa,0xa9fe,0,0,1,0},
{0xa9ff,0xa9ff,0,0,1,4},
{0xaa00,0xaa28,0,0,1,0},
{0xaa29,0xaa2e,4,7,0,0},
{0xaa2f,0xaa30,8,7,1,0},
{0xaa31,0xaa32,4,7,0,0},
{0xaa33,0xaa34,8,7,1,0},
{0xaa35,0xaa36,4,7,0,0},
{0xaa37,0xaa3f,0,0,1,4},
{0xaa40,0xaa42,0,0,1,0},
{0xaa43,0xaa43,4,7,0,0},
{0xaa44,0xaa4b,0,0,1,0},
{0xaa4c,0xaa4c,4,7,0,0},
{0xaa4d,0xaa4d,8,7,1,0},
{0xaa4e,0xaa4f,0,0,1,4},
{0xaa50,0xaa59,0,27,1,0},
{0xaa5a,0xaa5b,0,0,1,4},
{0xaa5c,0xaa5c,0,0,1,0},
{0xaa5d,0xaa5f,0,1,1,0},
{0xaa60,0xaa7a,0,0,1,0},
{0xaa7b,0xaa7b,0,7,1,0},
{0xaa7c,0xaa7c,4,7,0,0},
{0xaa7d,0xaa7d,0,7,1,0},
{0xaa7e,0xaaaf,0,0,1,0},
{0xaab0,0xaab0,4,7,0,0},
{0xaab1,0xaab1,0,0,1,0},
{0xaab2,0xaab4,4,7,0,0},
{0xaab5,0xaab6,0,0,1,0},
{0xaab7,0xaab8,4,7,0,0},
{0xaab9,0xaabd,0,0,1,0},
{0xaabe,0xaabf,4,7,0,0},
{0xaac0,0xaac0,0,0,1,0},
{0xaac1,0xaac1,4,7,0,0},
{0xaac2,0xaac2,0,0,1,0},
{0xaac3,0xaada,0,0,1,4},
{0xaadb,0xaaea,0,0,1,0},
{0xaaeb,0xaaeb,8,7,1,0},
{0xaaec,0xaaed,4,7,0,0},
{0xaaee,0xaaef,8,7,1,0},
{0xaaf0,0xaaf1,0,1,1,0},
{0xaaf2,0xaaf4,0,0,1,0},
{0xaaf5,0xaaf5,8,7,1,0},
{0xaaf6,0xaaf6,4,7,0,0},
{0xaaf7,0xab00,0,0,1,4},
{0xab01,0xab06,0,0,1,0},
{0xab07,0xab08,0,0,1,4},
{0xab09,0xab0e,0,0,1,0},
{0xab0f,0xab10,0,0,1,4},
{0xab11,0xab16,0,0,1,0},
{0xab17,0xab1f,0,0,1,4},
{0xab20,0xab26,0,0,1,0},
{0xab27,0xab27,0,0,1,4},
{0xab28,0xab2e,0,0,1,0},
{0xab2f,0xab2f,0,0,1,4},
{0xab30,0xab6b,0,0,1,0},
{0xab6c,0xab6f,0,0,1,4},
{0xab70,0xabe2,0,0,1,0},
{0xabe3,0xabe4,8,7,1,0},
{0xabe5,0xabe5,4,7,0,0},
{0xabe6,0xabe7,8,7,1,0},
{0xabe8,0xabe8,4,7,0,0},
{0xabe9,0xabea,8,7,1,0},
{0xabeb,0xabeb,0,1,1,0},
{0xabec,0xabec,8,7,1,0},
{0xabed,0xabed,4,7,0,0},
{0xabee,0xabef,0,0,1,4},
{0xabf0,0xabf9,0,27,1,0},
{0xabfa,0xabff,0,0,1,4},
{0xac00,0xac00,12,14,2,0},
{0xac01,0xac1b,13,15,2,0},
{0xac1c,0xac1c,12,14,2,0},
{0xac1d,0xac37,13,15,2,0},
{0xac38,0xac38,12,14,2,0},
{0xac39,0xac53,13,15,2,0},
{0xac54,0xac54,12,14,2,0},
{0xac55,0xac6f,13,15,2,0},
{0xac70,0xac70,12,14,2,0},
{0xac71,0xac8b,13,15,2,0},
{0xac8c,0xac8c,12,14,2,0},
{0xac8d,0xaca7,13,15,2,0},
{0xaca8,0xaca8,12,14,2,0},
{0xaca9,0xacc3,13,15,2,0},
{0xacc4,0xacc4,12,14,2,0},
{0xacc5,0xacdf,13,15,2,0},
{0xace0,0xace0,12,14,2,0},
{0xace1,0xacfb,13,15,2,0},
{0xacfc,0xacfc,12,14,2,0},
{0xacfd,0xad17,13,15,2,0},
{0xad18,0xad18,12,14,2,0},
{0xad19,0xad33,13,15,2,0},
{0xad34,0xad34,12,14,2,0},
{0xad35,0xad4f,13,15,2,0},
{0xad50,0xad50,12,14,2,0},
{0xad51,0xad6b,13,15,2,0},
{0xad6c,0xad6c,12,14,2,0},
{0xad6d,0xad87,13,15,2,0},
{0xad88,0xad88,12,14,2,0},
{0xad89,0xada3,13,15,2,0},
{0xada4,0xada4,12,14,2,0},
{0xada5,0xadbf,13,15,2,0},
{0xadc0,0xadc0,12,14,2,0},
{0xadc1,0xaddb,13,15,2,0},
{0xaddc,0xaddc,12,14,2,0},
{0xaddd,0xadf7,13,15,2,0},
{0xadf8,0xadf8,12,14,2,0},
{0xadf9,0xae13,13,15,2,0},
{0xae14,0xae14,12,14,2,0},
{0xae15,0xae2f,13,15,2,0},
{0xae30,0xae30,12,14,2,0},
{0xae31,0xae4b,13,15,2,0},
{0xae4c,0xae4c,12,14,2,0},
{0xae4d,0xae67,13,15,2,0},
{0xae68,0xae68,12,14,2,0},
{0xae69,0xae83,13,15,2,0},
{0xae84,0xae84,12,14,2,0},
{0xae85,0xae9f,13,15,2,0},
{0xaea0,0xaea0,12,14,2,0},
{0xaea1,0xaebb,13,15,2,0},
{0xaebc,0xaebc,12,14,2,0},
{0xaebd,0xaed7,13,15,2,0},
{0xaed8,0xaed8,12,14,2,0},
{0xaed9,0xaef3,13,15,2,0},
{0xaef4,0xaef4,12,14,2,0},
{0xaef5,0xaf0f,13,15,2,0},
{0xaf10,0xaf10,12,14,2,0},
{0xaf11,0xaf2b,13,15,2,0},
{0xaf2c,0xaf2c,12,14,2,0},
{0xaf2d,0xaf47,13,15,2,0},
{0xaf48,0xaf48,12,14,2,0},
{0xaf49,0xaf63,13,15,2,0},
{0xaf64,0xaf64,12,14,2,0},
{0xaf65,0xaf7f,13,15,2,0},
{0xaf80,0xaf80,12,14,2,0},
{0xaf81,0xaf9b,13,15,2,0},
{0xaf9c,0xaf9c,12,14,2,0},
{0xaf9d,0xafb7,13,15,2,0},
{0xafb8,0xafb8,12,14,2,0},
{0xafb9,0xafd3,13,15,2,0},
{0xafd4,0xafd4,12,14,2,0},
{0xafd5,0xafef,13,15,2,0},
{0xaff0,0xaff0,12,14,2,0},
{0xaff1,0xb00b,13,15,2,0},
{0xb00c,0xb00c,12,14,2,0},
{0xb00d,0xb027,13,15,2,0},
{0xb028,0xb028,12,14,2,0},
{0xb029,0xb043,13,15,2,0},
{0xb044,0xb044,12,14,2,0},
{0xb045,0xb05f,13,15,2,0},
{0xb060,0xb060,12,14,2,0},
{0xb061,0xb07b,13,15,2,0},
{0xb07c,0xb07c,12,14,2,0},
{0xb07d,0xb097,13,15,2,0},
{0xb098,0xb098,12,14,2,0},
{0xb099,0xb0b3,13,15,2,0},
{0xb0b4,0xb0b4,12,14,2,0},
{0xb0b5,0xb0cf,13,15,2,0},
{0xb0d0,0xb0d0,12,14,2,0},
{0xb0d1,0xb0eb,13,15,2,0},
{0xb0ec,0xb0ec,12,14,2,0},
{0xb0ed,0xb107,13,15,2,0},
{0xb108,0xb108,12,14,2,0},
{0xb109,0xb123,13,15,2,0},
{0xb124,0xb124,12,14,2,0},
{0xb125,0xb13f,13,15,2,0},
{0xb140,0xb140,12,14,2,0},
{0xb141,0xb15b,13,15,2,0},
{0xb15c,0xb15c,12,14,2,0},
{0xb15d,0xb177,13,15,2,0},
{0xb178,0xb178,12,14,2,0},
{0xb179,0xb193,13,15,2,0},
{0xb194,0xb194,12,14,2,0},
{0xb195,0xb1af,13,15,2,0},
{0xb1b0,0xb1b0,12,14,2,0},
{0xb1b1,0xb1cb,13,15,2,0},
{0xb1cc,0xb1cc,12,14,2,0},
{0xb1cd,0xb1e7,13,15,2,0},
{0xb1e8,0xb1e8,12,14,2,0},
{0xb1e9,0xb203,13,15,2,0},
{0xb204,0xb204,12,14,2,0},
{0xb205,0xb21f,13,15,2,0},
{0xb220,0xb220,12,14,2,0},
{0xb221,0xb23b,13,15,2,0},
{0xb23c,0xb23c,12,14,2,0},
{0xb23d,0xb257,13,15,2,0},
{0xb258,0xb258,12,14,2,0},
{0xb259,0xb273,13,15,2,0},
{0xb274,0xb274,12,14,2,0},
{0xb275,0xb28f,13,15,2,0},
{0xb290,0xb290,12,14,2,0},
{0xb291,0xb2ab,13,15,2,0},
{0xb2ac,0xb2ac,12,14,2,0},
{0xb2ad,0xb2c7,13,15,2,0},
{0xb2c8,0xb2c8,12,14,2,0},
{0xb2c9,0xb2e3,13,15,2,0},
{0xb2e4,0xb2e4,12,14,2,0},
{0xb2e5,0xb2ff,13,15,2,0},
{0xb300,0xb300,12,14,2,0},
{0xb301,0xb31b,13,15,2,0},
{0xb31c,0xb31c,12,14,2,0},
{0xb31d,0xb337,13,15,2,0},
{0xb338,0xb338,12,14,2,0},
{0xb339,0xb353,13,15,2,0},
{0xb354,0xb354,12,14,2,0},
{0xb355,0xb36f,13,15,2,0},
{0xb370,0xb370,12,14,2,0},
{0xb371,0xb38b,13,15,2,0},
{0xb38c,0xb38c,12,14,2,0},
{0xb38d,0xb3a7,13,15,2,0},
{0xb3a8,0xb3a8,12,14,2,0},
{0xb3a9,0xb3c3,13,15,2,0},
{0xb3c4,0xb3c4,12,14,2,0},
{0xb3c5,0xb3df,13,15,2,0},
{0xb3e0,0xb3e0,12,14,2,0},
{0xb3e1,0xb3fb,13,15,2,0},
{0xb3fc,0xb3fc,12,14,2,0},
{0xb3fd,0xb417,13,15,2,0},
{0xb418,0xb418,12,14,2,0},
{0xb419,0xb433,13,15,2,0},
{0xb434,0xb434,12,14,2,0},
{0xb435,0xb44f,13,15,2,0},
{0xb450,0xb450,12,14,2,0},
{0xb451,0xb46b,13,15,2,0},
{0xb46c,0xb46c,12,14,2,0},
{0xb46d,0xb487,13,15,2,0},
{0xb488,0xb488,12,14,2,0},
{0xb489,0xb4a3,13,15,2,0},
{0xb4a4,0xb4a4,12,14,2,0},
{0xb4a5,0xb4bf,13,15,2,0},
{0xb4c0,0xb4c0,12,14,2,0},
{0xb4c1,0xb4db,13,15,2,0},
{0xb4dc,0xb4dc,12,14,2,0},
{0xb4dd,0xb4f7,13,15,2,0},
{0xb4f8,0xb4f8,12,14,2,0},
{0xb4f9,0xb513,13,15,2,0},
{0xb514,0xb514,12,14,2,0},
{0xb515,0xb52f,13,15,2,0},
{0xb530,0xb530,12,14,2,0},
{0xb531,0xb54b,13,15,2,0},
{0xb54c,0xb54c,12,14,2,0},
{0xb54d,0xb567,13,15,2,0},
{0xb568,0xb568,12,14,2,0},
{0xb569,0xb583,13,15,2,0},
{0xb584,0xb584,12,14,2,0},
{0xb585,0xb59f,13,15,2,0},
{0xb5a0,0xb5a0,12,14,2,0},
{0xb5a1,0xb5bb,13,15,2,0},
{0xb5bc,0xb5bc,12,14,2,0},
{0xb5bd,0xb5d7,13,15,2,0},
{0xb5d8,0xb5d8,12,14,2,0},
{0xb5d9,0xb5f3,13,15,2,0},
{0xb5f4,0xb5f4,12,14,2,0},
{0xb5f5,0xb60f,13,15,2,0},
{0xb610,0xb610,12,14,2,0},
{0xb611,0xb62b,13,15,2,0},
{0xb62c,0xb62c,12,14,2,0},
{0xb62d,0xb647,13,15,2,0},
{0xb648,0xb648,12,14,2,0},
{0xb649,0xb663,13,15,2,0},
{0xb664,0xb664,12,14,2,0},
{0xb665,0xb67f,13,15,2,0},
{0xb680,0xb680,12,14,2,0},
{0xb681,0xb69b,13,15,2,0},
{0xb69c,0xb69c,12,14,2,0},
{0xb69d,0xb6b7,13,15,2,0},
{0xb6b8,0xb6b8,12,14,2,0},
{0xb6b9,0xb6d3,13,15,2,0},
{0xb6d4,0xb6d4,12,14,2,0},
{0xb6d5,0xb6ef,13,15,2,0},
{0xb6f0,0xb6f0,12,14,2,0},
{0xb6f1,0xb70b,13,15,2,0},
{0xb70c,0xb70c,12,14,2,0},
{0xb70d,0xb727,13,15,2,0},
{0xb728,0xb728,12,14,2,0},
{0xb729,0xb743,13,15,2,0},
{0xb744,0xb744,12,14,2,0},
{0xb745,0xb75f,13,15,2,0},
{0xb760,0xb760,12,14,2,0},
{0xb761,0xb77b,13,15,2,0},
{0xb77c,0xb77c,12,14,2,0},
{0xb77d,0xb797,13,15,2,0},
{0xb798,0xb798,12,14,2,0},
{0xb799,0xb7b3,13,15,2,0},
{0xb7b4,0xb7b4,12,14,2,0},
{0xb7b5,0xb7cf,13,15,2,0},
{0xb7d0,0xb7d0,12,14,2,0},
{0xb7d1,0xb7eb,13,15,2,0},
{0xb7ec,0xb7ec,12,14,2,0},
{0xb7ed,0xb807,13,15,2,0},
{0xb808,0xb808,12,14,2,0},
{0xb809,0xb823,13,15,2,0},
{0xb824,0xb824,12,14,2,0},
{0xb825,0xb83f,13,15,2,0},
{0xb840,0xb840,12,14,2,0},
{0xb841,0xb85b,13,15,2,0},
{0xb85c,0xb85c,12,14,2,0},
{0xb85d,0xb877,13,15,2,0},
{0xb878,0xb878,12,14,2,0},
{0xb879,0xb893,13,15,2,0},
{0xb894,0xb894,12,14,2,0},
{0xb895,0xb8af,13,15,2,0},
{0xb8b0,0xb8b0,12,14,2,0},
{0xb8b1,0xb8cb,13,15,2,0},
{0xb8cc,0xb8cc,12,14,2,0},
{0xb8cd,0xb8e7,13,15,2,0},
{0xb8e8,0xb8e8,12,14,2,0},
{0xb8e9,0xb903,13,15,2,0},
{0xb904,0xb904,12,14,2,0},
{0xb905,0xb91f,13,15,2,0},
{0xb920,0xb920,12,14,2,0},
{0xb921,0xb93b,13,15,2,0},
{0xb93c,0xb93c,12,14,2,0},
{0xb93d,0xb957,13,15,2,0},
{0xb958,0xb958,12,14,2,0},
{0xb959,0xb973,13,15,2,0},
{0xb974,0xb974,12,14,2,0},
{0xb975,0xb98f,13,15,2,0},
{0xb990,0xb990,12,14,2,0},
{0xb991,0xb9ab,13,15,2,0},
{0xb9ac,0xb9ac,12,14,2,0},
{0xb9ad,0xb9c7,13,15,2,0},
{0xb9c8,0xb9c8,12,14,2,0},
{0xb9c9,0xb9e3,13,15,2,0},
{0xb9e4,0xb9e4,12,14,2,0},
{0xb9e5,0xb9ff,13,15,2,0},
{0xba00,0xba00,12,14,2,0},
{0xba01,0xba1b,13,15,2,0},
{0xba1c,0xba1c,12,14,2,0},
{0xba1d,0xba37,13,15,2,0},
{0xba38,0xba38,12,14,2,0},
{0xba39,0xba53,13,15,2,0},
{0xba54,0xba54,12,14,2,0},
{0xba55,0xba6f,13,15,2,0},
{0xba70,0xba70,12,14,2,0},
{0xba71,0xba8b,13,15,2,0},
{0xba8c,0xba8c,12,14,2,0},
{0xba8d,0xbaa7,13,15,2,0},
{0xbaa8,0xbaa8,12,14,2,0},
{0xbaa9,0xbac3,13,15,2,0},
{0xbac4,0xbac4,12,14,2,0},
{0xbac5,0xbadf,13,15,2,0},
{0xbae0,0xbae0,12,14,2,0},
{0xbae1,0xbafb,13,15,2,0},
{0xbafc,0xbafc,12,14,2,0},
{0xbafd,0xbb17,13,15,2,0},
{0xbb18,0xbb18,12,14,2,0},
{0xbb19,0xbb33,13,15,2,0},
{0xbb34,0xbb34,12,14,2,0},
{0xbb35,0xbb4f,13,15,2,0},
{0xbb50,0xbb50,12,14,2,0},
{0xbb51,0xbb6b,13,15,2,0},
{0xbb6c,0xbb6c,12,14,2,0},
{0xbb6d,0xbb87,13,15,2,0},
{0xbb88,0xbb88,12,14,2,0},
{0xbb89,0xbba3,13,15,2,0},
{0xbba4,0xbba4,12,14,2,0},
{0xbba5,0xbbbf,13,15,2,0},
{0xbbc0,0xbbc0,12,14,2,0},
{0xbbc1,0xbbdb,13,15,2,0},
{0xbbdc,0xbbdc,12,14,2,0},
{0xbbdd,0xbbf7,13,15,2,0},
{0xbbf8,0xbbf8,12,14,2,0},
{0xbbf9,0xbc13,13,15,2,0},
{0xbc14,0xbc14,12,14,2,0},
{0xbc15,0xbc2f,13,15,2,0},
{0xbc30,0xbc30,12,14,2,0},
{0xbc31,0xbc4b,13,15,2,0},
{0xbc4c,0xbc4c,12,14,2,0},
{0xbc4d,0xbc67,13,15,2,0},
{0xbc68,0xbc68,12,14,2,0},
{0xbc69,0xbc83,13,15,2,0},
{0xbc84,0xbc84,12,14,2,0},
{0xbc85,0xbc9f,13,15,2,0},
{0xbca0,0xbca0,12,14,2,0},
{0xbca1,0xbcbb,13,15,2,0},
{0xbcbc,0xbcbc,12,14,2,0},
{0xbcbd,0xbcd7,13,15,2,0},
{0xbcd8,0xbcd8,12,14,2,0},
{0xbcd9,0xbcf3,13,15,2,0},
{0xbcf4,0xbcf4,12,14,2,0},
{0xbcf5,0xbd0f,13,15,2,0},
{0xbd10,0xbd10,12,14,2,0},
{0xbd11,0xbd2b,13,15,2,0},
{0xbd2c,0xbd2c,12,14,2,0},
{0xbd2d,0xbd47,13,15,2,0},
{0xbd48,0xbd48,12,14,2,0},
{0xbd49,0xbd63,13,15,2,0},
{0xbd64,0xbd64,12,14,2,0},
{0xbd65,0xbd7f,13,15,2,0},
{0xbd80,0xbd80,12,14,2,0},
{0xbd81,0xbd9b,13,15,2,0},
{0xbd9c,0xbd9c,12,14,2,0},
{0xbd9d,0xbdb7,13,15,2,0},
{0xbdb8,0xbdb8,12,14,2,0},
{0xbdb9,0xbdd3,13,15,2,0},
{0xbdd4,0xbdd4,12,14,2,0},
{0xbdd5,0xbdef,13,15,2,0},
{0xbdf0,0xbdf0,12,14,2,0},
{0xbdf1,0xbe0b,13,15,2,0},
{0xbe0c,0xbe0c,12,14,2,0},
{0xbe0d,0xbe27,13,15,2,0},
{0xbe28,0xbe28,12,14,2,0},
{0xbe29,0xbe43,13,15,2,0},
{0xbe44,0xbe44,12,14,2,0},
{0xbe45,0xbe5f,13,15,2,0},
{0xbe60,0xbe60,12,14,2,0},
{0xbe61,0xbe7b,13,15,2,0},
{0xbe7c,0xbe7c,12,14,2,0},
{0xbe7d,0xbe97,13,15,2,0},
{0xbe98,0xbe98,12,14,2,0},
{0xbe99,0xbeb3,13,15,2,0},
{0xbeb4,0xbeb4,12,14,2,0},
{0xbeb5,0xbecf,13,15,2,0},
{0xbed0,0xbed0,12,14,2,0},
{0xbed1,0xbeeb,13,15,2,0},
{0xbeec,0xbeec,12,14,2,0},
{0xbeed,0xbf07,13,15,2,0},
{0xbf08,0xbf08,12,14,2,0},
{0xbf09,0xbf23,13,15,2,0},
{0xbf24,0xbf24,12,14,2,0},
{0xbf25,0xbf3f,13,15,2,0},
{0xbf40,0xbf40,12,14,2,0},
{0xbf41,0xbf5b,13,15,2,0},
{0xbf5c,0xbf5c,12,14,2,0},
{0xbf5d,0xbf77,13,15,2,0},
{0xbf78,0xbf78,12,14,2,0},
{0xbf79,0xbf93,13,15,2,0},
{0xbf94,0xbf94,12,14,2,0},
{0xbf95,0xbfaf,13,15,2,0},
{0xbfb0,0xbfb0,12,14,2,0},
{0xbfb1,0xbfcb,13,15,2,0},
{0xbfcc,0xbfcc,12,14,2,0},
{0xbfcd,0xbfe7,13,15,2,0},
{0xbfe8,0xbfe8,12,14,2,0},
{0xbfe9,0xc003,13,15,2,0},
{0xc004,0xc004,12,14,2,0},
{0xc005,0xc01f,13,15,2,0},
{0xc020,0xc020,12,14,2,0},
{0xc021,0xc03b,13,15,2,0},
{0xc03c,0xc03c,12,14,2,0},
{0xc03d,0xc057,13,15,2,0},
{0xc058,0xc058,12,14,2,0},
{0xc059,0xc073,13,15,2,0},
{0xc074,0xc074,12,14,2,0},
{0xc075,0xc08f,13,15,2,0},
{0xc090,0xc090,12,14,2,0},
{0xc091,0xc0ab,13,15,2,0},
{0xc0ac,0xc0ac,12,14,2,0},
{0xc0ad,0xc0c7,13,15,2,0},
{0xc0c8,0xc0c8,12,14,2,0},
{0xc0c9,0xc0e3,13,15,2,0},
{0xc0e4,0xc0e4,12,14,2,0},
{0xc0e5,0xc0ff,13,15,2,0},
{0xc100,0xc100,12,14,2,0},
{0xc101,0xc11b,13,15,2,0},
{0xc11c,0xc11c,12,14,2,0},
{0xc11d,0xc137,13,15,2,0},
{0xc138,0xc138,12,14,2,0},
{0xc139,0xc153,13,15,2,0},
{0xc154,0xc154,12,14,2,0},
{0xc155,0xc16f,13,15,2,0},
{0xc170,0xc170,12,14,2,0},
{0xc171,0xc18b,13,15,2,0},
{0xc18c,0xc18c,12,14,2,0},
{0xc18d,0xc1a7,13,15,2,0},
{0xc1a8,0xc1a8,12,14,2,0},
{0xc1a9,0xc1c3,13,15,2,0},
{0xc1c4,0xc1c4,12,14,2,0},
{0xc1c5,0xc1df,13,15,2,0},
{0xc1e0,0xc1e0,12,14,2,0},
{0xc1e1,0xc1fb,13,15,2,0},
{0xc1fc,0xc1fc,12,14,2,0},
{0xc1fd,0xc217,13,15,2,0},
{0xc218,0xc218,12,14,2,0},
{0xc219,0xc233,13,15,2,0},
{0xc234,0xc234,12,14,2,0},
{0xc235,0xc24f,13,15,2,0},
{0xc250,0xc250,12,14,2,0},
{0xc251,0xc26b,13,15,2,0},
{0xc26c,0xc26c,12,14,2,0},
{0xc26d,0xc287,13,15,2,0},
{0xc288,0xc288,12,14,2,0},
{0xc289,0xc2a3,13,15,2,0},
{0xc2a4,0xc2a4,12,14,2,0},
{0xc2a5,0xc2bf,13,15,2,0},
{0xc2c0,0xc2c0,12,14,2,0},
{0xc2c1,0xc2db,13,15,2,0},
{0xc2dc,0xc2dc,12,14,2,0},
{0xc2dd,0xc2f7,13,15,2,0},
{0xc2f8,0xc2f8,12,14,2,0},
{0xc2f9,0xc313,13,15,2,0},
{0xc314,0xc314,12,14,2,0},
{0xc315,0xc32f,13,15,2,0},
{0xc330,0xc330,12,14,2,0},
{0xc331,0xc34b,13,15,2,0},
{0xc34c,0xc34c,12,14,2,0},
{0xc34d,0xc367,13,15,2,0},
{0xc368,0xc368,12,14,2,0},
{0xc369,0xc383,13,15,2,0},
{0xc384,0xc384,12,14,2,0},
{0xc385,0xc39f,13,15,2,0},
{0xc3a0,0xc3a0,12,14,2,0},
{0xc3a1,0xc3bb,13,15,2,0},
{0xc3bc,0xc3bc,12,14,2,0},
{0xc3bd,0xc3d7,13,15,2,0},
{0xc3d8,0xc3d8,12,14,2,0},
{0xc3d9,0xc3f3,13,15,2,0},
{0xc3f4,0xc3f4,12,14,2,0},
{0xc3f5,0xc40f,13,15,2,0},
{0xc410,0xc410,12,14,2,0},
{0xc411,0xc42b,13,15,2,0},
{0xc42c,0xc42c,12,14,2,0},
{0xc42d,0xc447,13,15,2,0},
{0xc448,0xc448,12,14,2,0},
{0xc449,0xc463,13,15,2,0},
{0xc464,0xc464,12,14,2,0},
{0xc465,0xc47f,13,15,2,0},
{0xc480,0xc480,12,14,2,0},
{0xc481,0xc49b,13,15,2,0},
{0xc49c,0xc49c,12,14,2,0},
{0xc49d,0xc4b7,13,15,2,0},
{0xc4b8,0xc4b8,12,14,2,0},
{0xc4b9,0xc4d3,13,15,2,0},
{0xc4d4,0xc4d4,12,14,2,0},
{0xc4d5,0xc4ef,13,15,2,0},
{0xc4f0,0xc4f0,12,14,2,0},
{0xc4f1,0xc50b,13,15,2,0},
{0xc50c,0xc50c,12,14,2,0},
{0xc50d,0xc527,13,15,2,0},
{0xc528,0xc528,12,14,2,0},
{0xc529,0xc543,13,15,2,0},
{0xc544,0xc544,12,14,2,0},
{0xc545,0xc55f,13,15,2,0},
{0xc560,0xc560,12,14,2,0},
{0xc561,0xc57b,13,15,2,0},
{0xc57c,0xc57c,12,14,2,0},
{0xc57d,0xc597,13,15,2,0},
{0xc598,0xc598,12,14,2,0},
{0xc599,0xc5b3,13,15,2,0},
{0xc5b4,0xc5b4,12,14,2,0},
{0xc5b5,0xc5cf,13,15,2,0},
{0xc5d0,0xc5d0,12,14,2,0},
{0xc5d1,0xc5eb,13,15,2,0},
{0xc5ec,0xc5ec,12,14,2,0},
{0xc5ed,0xc607,13,15,2,0},
{0xc608,0xc608,12,14,2,0},
{0xc609,0xc623,13,15,2,0},
{0xc624,0xc624,12,14,2,0},
{0xc625,0xc63f,13,15,2,0},
{0xc640,0xc640,12,14,2,0},
{0xc641,0xc65b,13,15,2,0},
{0xc65c,0xc65c,12,14,2,0},
{0xc65d,0xc677,13,15,2,0},
{0xc678,0xc678,12,14,2,0},
{0xc679,0xc693,13,15,2,0},
{0xc694,0xc694,12,14,2,0},
{0xc695,0xc6af,13,15,2,0},
{0xc6b0,0xc6b0,12,14,2,0},
{0xc6b1,0xc6cb,13,15,2,0},
{0xc6cc,0xc6cc,12,14,2,0},
{0xc6cd,0xc6e7,13,15,2,0},
{0xc6e8,0xc6e8,12,14,2,0},
{0xc6e9,0xc703,13,15,2,0},
{0xc704,0xc704,12,14,2,0},
{0xc705,0xc71f,13,15,2,0},
{0xc720,0xc720,12,14,2,0},
{0xc721,0xc73b,13,15,2,0},
{0xc73c,0xc73c,12,14,2,0},
{0xc73d,0xc757,13,15,2,0},
{0xc758,0xc758,12,14,2,0},
{0xc759,0xc773,13,15,2,0},
{0xc774,0xc774,12,14,2,0},
{0xc775,0xc78f,13,15,2,0},
{0xc790,0xc790,12,14,2,0},
{0xc791,0xc7ab,13,15,2,0},
{0xc7ac,0xc7ac,12,14,2,0},
{0xc7ad,0xc7c7,13,15,2,0},
{0xc7c8,0xc7c8,12,14,2,0},
{0xc7c9,0xc7e3,13,15,2,0},
{0xc7e4,0xc7e4,12,14,2,0},
{0xc7e5,0xc7ff,13,15,2,0},
{0xc800,0xc800,12,14,2,0},
{0xc801,0xc81b,13,15,2,0},
{0xc81c,0xc81c,12,14,2,0},
{0xc81d,0xc837,13,15,2,0},
{0xc838,0xc838,12,14,2,0},
{0xc839,0xc853,13,15,2,0},
{0xc854,0xc854,12,14,2,0},
{0xc855,0xc86f,13,15,2,0},
{0xc870,0xc870,12,14,2,0},
{0xc871,0xc88b,13,15,2,0},
{0xc88c,0xc88c,12,14,2,0},
{0xc88d,0xc8a7,13,15,2,0},
{0xc8a8,0xc8a8,12,14,2,0},
{0xc8a9,0xc8c3,13,15,2,0},
{0xc8c4,0xc8c4,12,14,2,0},
{0xc8c5,0xc8df,13,15,2,0},
{0xc8e0,0xc8e0,12,14,2,0},
{0xc8e1,0xc8fb,13,15,2,0},
{0xc8fc,0xc8fc,12,14,2,0},
{0xc8fd,0xc917,13,15,2,0},
{0xc918,0xc918,12,14,2,0},
{0xc919,0xc933,13,15,2,0},
{0xc934,0xc934,12,14,2,0},
{0xc935,0xc94f,13,15,2,0},
{0xc950,0xc950,12,14,2,0},
{0xc951,0xc96b,13,15,2,0},
{0xc96c,0xc96c,12,14,2,0},
{0xc96d,0xc987,13,15,2,0},
{0xc988,0xc988,12,14,2,0},
{0xc989,0xc9a3,13,15,2,0},
{0xc9a4,0xc9a4,12,14,2,0},
{0xc9a5,0xc9bf,13,15,2,0},
{0xc9c0,0xc9c0,12,14,2,0},
{0xc9c1,0xc9db,13,15,2,0},
{0xc9dc,0xc9dc,12,14,2,0},
{0xc9dd,0xc9f7,13,15,2,0},
{0xc9f8,0xc9f8,12,14,2,0},
{0xc9f9,0xca13,13,15,2,0},
{0xca14,0xca14,12,14,2,0},
{0xca15,0xca2f,13,15,2,0},
{0xca30,0xca30,12,14,2,0},
{0xca31,0xca4b,13,15,2,0},
{0xca4c,0xca4c,12,14,2,0},
{0xca4d,0xca67,13,15,2,0},
{0xca68,0xca68,12,14,2,0},
{0xca69,0xca83,13,15,2,0},
{0xca84,0xca84,12,14,2,0},
{0xca85,0xca9f,13,15,2,0},
{0xcaa0,0xcaa0,12,14,2,0},
{0xcaa1,0xcabb,13,15,2,0},
{0xcabc,0xcabc,12,14,2,0},
{0xcabd,0xcad7,13,15,2,0},
{0xcad8,0xcad8,12,14,2,0},
{0xcad9,0xcaf3,13,15,2,0},
{0xcaf4,0xcaf4,12,14,2,0},
{0xcaf5,0xcb0f,13,15,2,0},
{0xcb10,0xcb10,12,14,2,0},
{0xcb11,0xcb2b,13,15,2,0},
{0xcb2c,0xcb2c,12,14,2,0},
{0xcb2d,0xcb47,13,15,2,0},
{0xcb48,0xcb48,12,14,2,0},
{0xcb49,0xcb63,13,15,2,0},
{0xcb64,0xcb64,12,14,2,0},
{0xcb65,0xcb7f,13,15,2,0},
{0xcb80,0xcb80,12,14,2,0},
{0xcb81,0xcb9b,13,15,2,0},
{0xcb9c,0xcb9c,12,14,2,0},
{0xcb9d,0xcbb7,13,15,2,0},
{0xcbb8,0xcbb8,12,14,2,0},
{0xcbb9,0xcbd3,13,15,2,0},
{0xcbd4,0xcbd4,12,14,2,0},
{0xcbd5,0xcbef,13,15,2,0},
{0xcbf0,0xcbf0,12,14,2,0},
{0xcbf1,0xcc0b,13,15,2,0},
{0xcc0c,0xcc0c,12,14,2,0},
{0xcc0d,0xcc27,13,15,2,0},
{0xcc28,0xcc28,12,14,2,0},
{0xcc29,0xcc43,13,15,2,0},
{0xcc44,0xcc44,12,14,2,0},
{0xcc45,0xcc5f,13,15,2,0},
{0xcc60,0xcc60,12,14,2,0},
{0xcc61,0xcc7b,13,15,2,0},
{0xcc7c,0xcc7c,12,14,2,0},
{0xcc7d,0xcc97,13,15,2,0},
{0xcc98,0xcc98,12,14,2,0},
{0xcc99,0xccb3,13,15,2,0},
{0xccb4,0xccb4,12,14,2,0},
{0xccb5,0xcccf,13,15,2,0},
{0xccd0,0xccd0,12,14,2,0},
{0xccd1,0xcceb,13,15,2,0},
{0xccec,0xccec,12,14,2,0},
{0xcced,0xcd07,13,15,2,0},
{0xcd08,0xcd08,12,14,2,0},
{0xcd09,0xcd23,13,15,2,0},
{0xcd24,0xcd24,12,14,2,0},
{0xcd25,0xcd3f,13,15,2,0},
{0xcd40,0xcd40,12,14,2,0},
{0xcd41,0xcd5b,13,15,2,0},
{0xcd5c,0xcd5c,12,14,2,0},
{0xcd5d,0xcd77,13,15,2,0},
{0xcd78,0xcd78,12,14,2,0},
{0xcd79,0xcd93,13,15,2,0},
{0xcd94,0xcd94,12,14,2,0},
{0xcd95,0xcdaf,13,15,2,0},
{0xcdb0,0xcdb0,12,14,2,0},
{0xcdb1,0xcdcb,13,15,2,0},
{0xcdcc,0xcdcc,12,14,2,0},
{0xcdcd,0xcde7,13,15,2,0},
{0xcde8,0xcde8,12,14,2,0},
{0xcde9,0xce03,13,15,2,0},
{0xce04,0xce04,12,14,2,0},
{0xce05,0xce1f,13,15,2,0},
{0xce20,0xce20,12,14,2,0},
{0xce21,0xce3b,13,15,2,0},
{0xce3c,0xce3c,12,14,2,0},
{0xce3d,0xce57,13,15,2,0},
{0xce58,0xce58,12,14,2,0},
{0xce59,0xce73,13,15,2,0},
{0xce74,0xce74,12,14,2,0},
{0xce75,0xce8f,13,15,2,0},
{0xce90,0xce90,12,14,2,0},
{0xce91,0xceab,13,15,2,0},
{0xceac,0xceac,12,14,2,0},
{0xcead,0xcec7,13,15,2,0},
{0xcec8,0xcec8,12,14,2,0},
{0xcec9,0xcee3,13,15,2,0},
{0xcee4,0xcee4,12,14,2,0},
{0xcee5,0xceff,13,15,2,0},
{0xcf00,0xcf00,12,14,2,0},
{0xcf01,0xcf1b,13,15,2,0},
{0xcf1c,0xcf1c,12,14,2,0},
{0xcf1d,0xcf37,13,15,2,0},
{0xcf38,0xcf38,12,14,2,0},
{0xcf39,0xcf53,13,15,2,0},
{0xcf54,0xcf54,12,14,2,0},
{0xcf55,0xcf6f,13,15,2,0},
{0xcf70,0xcf70,12,14,2,0},
{0xcf71,0xcf8b,13,15,2,0},
{0xcf8c,0xcf8c,12,14,2,0},
{0xcf8d,0xcfa7,13,15,2,0},
{0xcfa8,0xcfa8,12,14,2,0},
{0xcfa9,0xcfc3,13,15,2,0},
{0xcfc4,0xcfc4,12,14,2,0},
{0xcfc5,0xcfdf,13,15,2,0},
{0xcfe0,0xcfe0,12,14,2,0},
{0xcfe1,0xcffb,13,15,2,0},
{0xcffc,0xcffc,12,14,2,0},
{0xcffd,0xd017,13,15,2,0},
{0xd018,0xd018,12,14,2,0},
{0xd019,0xd033,13,15,2,0},
{0xd034,0xd034,12,14,2,0},
{0xd035,0xd04f,13,15,2,0},
{0xd050,0xd050,12,14,2,0},
{0xd051,0xd06b,13,15,2,0},
{0xd06c,0xd06c,12,14,2,0},
{0xd06d,0xd087,13,15,2,0},
{0xd088,0xd088,12,14,2,0},
{0xd089,0xd0a3,13,15,2,0},
{0xd0a4,0xd0a4,12,14,2,0},
{0xd0a5,0xd0bf,13,15,2,0},
{0xd0c0,0xd0c0,12,14,2,0},
{0xd0c1,0xd0db,13,15,2,0},
{0xd0dc,0xd0dc,12,14,2,0},
{0xd0dd,0xd0f7,13,15,2,0},
{0xd0f8,0xd0f8,12,14,2,0},
{0xd0f9,0xd113,13,15,2,0},
{0xd114,0xd114,12,14,2,0},
{0xd115,0xd12f,13,15,2,0},
{0xd130,0xd130,12,14,2,0},
{0xd131,0xd14b,13,15,2,0},
{0xd14c,0xd14c,12,14,2,0},
{0xd14d,0xd167,13,15,2,0},
{0xd168,0xd168,12,14,2,0},
{0xd169,0xd183,13,15,2,0},
{0xd184,0xd184,12,14,2,0},
{0xd185,0xd19f,13,15,2,0},
{0xd1a0,0xd1a0,12,14,2,0},
{0xd1a1,0xd1bb,13,15,2,0},
{0xd1bc,0xd1bc,12,14,2,0},
{0xd1bd,0xd1d7,13,15,2,0},
{0xd1d8,0xd1d8,12,14,2,0},
{0xd1d9,0xd1f3,13,15,2,0},
{0xd1f4,0xd1f4,12,14,2,0},
{0xd1f5,0xd20f,13,15,2,0},
{0xd210,0xd210,12,14,2,0},
{0xd211,0xd22b,13,15,2,0},
{0xd22c,0xd22c,12,14,2,0},
{0xd22d,0xd247,13,15,2,0},
{0xd248,0xd248,12,14,2,0},
{0xd249,0xd263,13,15,2,0},
{0xd264,0xd264,12,14,2,0},
{0xd265,0xd27f,13,15,2,0},
{0xd280,0xd280,12,14,2,0},
{0xd281,0xd29b,13,15,2,0},
{0xd29c,0xd29c,12,14,2,0},
{0xd29d,0xd2b7,13,15,2,0},
{0xd2b8,0xd2b8,12,14,2,0},
{0xd2b9,0xd2d3,13,15,2,0},
{0xd2d4,0xd2d4,12,14,2,0},
{0xd2d5,0xd2ef,13,15,2,0},
{0xd2f0,0xd2f0,12,14,2,0},
{0xd2f1,0xd30b,13,15,2,0},
{0xd30c,0xd30c,12,14,2,0},
{0xd30d,0xd327,13,15,2,0},
{0xd328,0xd328,12,14,2,0},
{0xd329,0xd343,13,15,2,0},
{0xd344,0xd344,12,14,2,0},
{0xd345,0xd35f,13,15,2,0},
{0xd360,0xd360,12,14,2,0},
{0xd361,0xd37b,13,15,2,0},
{0xd37c,0xd37c,12,14,2,0},
{0xd37d,0xd397,13,15,2,0},
{0xd398,0xd398,12,14,2,0},
{0xd399,0xd3b3,13,15,2,0},
{0xd3b4,0xd3b4,12,14,2,0},
{0xd3b5,0xd3cf,13,15,2,0},
{0xd3d0,0xd3d0,12,14,2,0},
{0xd3d1,0xd3eb,13,15,2,0},
{0xd3ec,0xd3ec,12,14,2,0},
{0xd3ed,0xd407,13,15,2,0},
{0xd408,0xd408,12,14,2,0},
{0xd409,0xd423,13,15,2,0},
{0xd424,0xd424,12,14,2,0},
{0xd425,0xd43f,13,15,2,0},
{0xd440,0xd440,12,14,2,0},
{0xd441,0xd45b,13,15,2,0},
{0xd45c,0xd45c,12,14,2,0},
{0xd45d,0xd477,13,15,2,0},
{0xd478,0xd478,12,14,2,0},
{0xd479,0xd493,13,15,2,0},
{0xd494,0xd494,12,14,2,0},
{0xd495,0xd4af,13,15,2,0},
{0xd4b0,0xd4b0,12,14,2,0},
{0xd4b1,0xd4cb,13,15,2,0},
{0xd4cc,0xd4cc,12,14,2,0},
{0xd4cd,0xd4e7,13,15,2,0},
{0xd4e8,0xd4e8,12,14,2,0},
{0xd4e9,0xd503,13,15,2,0},
{0xd504,0xd504,12,14,2,0},
{0xd505,0xd51f,13,15,2,0},
{0xd520,0xd520,12,14,2,0},
{0xd521,0xd53b,13,15,2,0},
{0xd53c,0xd53c,12,14,2,0},
{0xd53d,0xd557,13,15,2,0},
{0xd558,0xd558,12,14,2,0},
{0xd559,0xd573,13,15,2,0},
{0xd574,0xd574,12,14,2,0},
{0xd575,0xd58f,13,15,2,0},
{0xd590,0xd590,12,14,2,0},
{0xd591,0xd5ab,13,15,2,0},
{0xd5ac,0xd5ac,12,14,2,0},
{0xd5ad,0xd5c7,13,15,2,0},
{0xd5c8,0xd5c8,12,14,2,0},
{0xd5c9,0xd5e3,13,15,2,0},
{0xd5e4,0xd5e4,12,14,2,0},
{0xd5e5,0xd5ff,13,15,2,0},
{0xd600,0xd600,12,14,2,0},
{0xd601,0xd61b,13,15,2,0},
{0xd61c,0xd61c,12,14,2,0},
{0xd61d,0xd637,13,15,2,0},
{0xd638,0xd638,12,14,2,0},
{0xd639,0xd653,13,15,2,0},
{0xd654,0xd654,12,14,2,0},
{0xd655,0xd66f,13,15,2,0},
{0xd670,0xd670,12,14,2,0},
{0xd671,0xd68b,13,15,2,0},
{0xd68c,0xd68c,12,14,2,0},
{0xd68d,0xd6a7,13,15,2,0},
{0xd6a8,0xd6a8,12,14,2,0},
{0xd6a9,0xd6c3,13,15,2,0},
{0xd6c4,0xd6c4,12,14,2,0},
{0xd6c5,0xd6df,13,15,2,0},
{0xd6e0,0xd6e0,12,14,2,0},
{0xd6e1,0xd6fb,13,15,2,0},
{0xd6fc,0xd6fc,12,14,2,0},
{0xd6fd,0xd717,13,15,2,0},
{0xd718,0xd718,12,14,2,0},
{0xd719,0xd733,13,15,2,0},
{0xd734,0xd734,12,14,2,0},
{0xd735,0xd74f,13,15,2,0},
{0xd750,0xd750,12,14,2,0},
{0xd751,0xd76b,13,15,2,0},
{0xd76c,0xd76c,12,14,2,0},
{0xd76d,0xd787,13,15,2,0},
{0xd788,0xd788,12,14,2,0},
{0xd789,0xd7a3,13,15,2,0},
{0xd7a4,0xd7af,0,0,1,4},
{0xd7b0,0xd7c6,10,23,1,0},
{0xd7c7,0xd7ca,0,0,1,4},
{0xd7cb,0xd7fb,11,22,1,0},
{0xd7fc,0xd7ff,0,0,1,4},
{0xd800,0xf8ff,0,0,1,0},
{0xf900,0xfa6d,0,17,2,0},
{0xfa6e,0xfa6f,0,17,2,4},
{0xfa70,0xfad9,0,17,2,0},
{0xfada,0xfaff,0,17,2,4},
{0xfb00,0xfb06,0,0,1,0},
{0xfb07,0xfb12,0,0,1,4},
{0xfb13,0xfb17,0,0,1,0},
{0xfb18,0xfb1c,0,0,1,4},
{0xfb1d,0xfb1d,0,18,1,0},
{0xfb1e,0xfb1e,4,7,0,0},
{0xfb1f,0xfb28,0,18,1,0},
{0xfb29,0xfb29,0,0,1,0},
{0xfb2a,0xfb36,0,18,1,0},
{0xfb37,0xfb37,0,0,1,4},
{0xfb38,0xfb3c,0,18,1,0},
{0xfb3d,0xfb3d,0,0,1,4},
{0xfb3e,0xfb3e,0,18,1,0},
{0xfb3f,0xfb3f,0,0,1,4},
{0xfb40,0xfb41,0,18,1,0},
{0xfb42,0xfb42,0,0,1,4},
{0xfb43,0xfb44,0,18,1,0},
{0xfb45,0xfb45,0,0,1,4},
{0xfb46,0xfb4f,0,18,1,0},
{0xfb50,0xfbc2,0,0,1,0},
{0xfbc3,0xfbd2,0,0,1,4},
{0xfbd3,0xfd3d,0,0,1,0},
{0xfd3e,0xfd3e,0,6,1,0},
{0xfd3f,0xfd3f,0,28,1,0},
{0xfd40,0xfd8f,0,0,1,0},
{0xfd90,0xfd91,0,0,1,4},
{0xfd92,0xfdc7,0,0,1,0},
{0xfdc8,0xfdce,0,0,1,4},
{0xfdcf,0xfdfb,0,0,1,0},
{0xfdfc,0xfdfc,0,29,1,0},
{0xfdfd,0xfdff,0,0,1,0},
{0xfe00,0xfe0f,4,7,0,0},
{0xfe10,0xfe10,0,20,2,0},
{0xfe11,0xfe12,0,6,2,0},
{0xfe13,0xfe14,0,20,2,0},
{0xfe15,0xfe16,0,12,2,0},
{0xfe17,0xfe17,0,28,2,0},
{0xfe18,0xfe18,0,6,2,0},
{0xfe19,0xfe19,0,19,2,0},
{0xfe1a,0xfe1f,0,0,1,4},
{0xfe20,0xfe2f,4,7,0,0},
{0xfe30,0xfe34,0,17,2,0},
{0xfe35,0xfe35,0,28,2,0},
{0xfe36,0xfe36,0,6,2,0},
{0xfe37,0xfe37,0,28,2,0},
{0xfe38,0xfe38,0,6,2,0},
{0xfe39,0xfe39,0,28,2,0},
{0xfe3a,0xfe3a,0,6,2,0},
{0xfe3b,0xfe3b,0,28,2,0},
{0xfe3c,0xfe3c,0,6,2,0},
{0xfe3d,0xfe3d,0,28,2,0},
{0xfe3e,0xfe3e,0,6,2,0},
{0xfe3f,0xfe3f,0,28,2,0},
{0xfe40,0xfe40,0,6,2,0},
{0xfe41,0xfe41,0,28,2,0},
{0xfe42,0xfe42,0,6,2,0},
{0xfe43,0xfe43,0,28,2,0},
{0xfe44,0xfe44,0,6,2,0},
{0xfe45,0xfe46,0,17,2,0},
{0xfe47,0xfe47,0,28,2,0},
{0xfe48,0xfe48,0,6,2,0},
{0xfe49,0xfe4f,0,17,2,0},
{0xfe50,0xfe50,0,6,2,0},
{0xfe51,0xfe51,0,17,2,0},
{0xfe52,0xfe52,0,6,2,0},
{0xfe53,0xfe53,0,0,1,4},
{0xfe54,0xfe55,0,26,2,0},
{0xfe56,0xfe57,0,12,2,0},
{0xfe58,0xfe58,0,17,2,0},
{0xfe59,0xfe59,0,28,2,0},
{0xfe5a,0xfe5a,0,6,2,0},
{0xfe5b,0xfe5b,0,28,2,0},
{0xfe5c,0xfe5c,0,6,2,0},
{0xfe5d,0xfe5d,0,28,2,0},
{0xfe5e,0xfe5e,0,6,2,0},
{0xfe5f,0xfe66,0,17,2,0},
{0xfe67,0xfe67,0,0,1,4},
{0xfe68,0xfe68,0,17,2,0},
{0xfe69,0xfe69,0,30,2,0},
{0xfe6a,0xfe6a,0,29,2,0},
{0xfe6b,0xfe6b,0,17,2,0},
{0xfe6c,0xfe6f,0,0,1,4},
{0xfe70,0xfe74,0,0,1,0},
{0xfe75,0xfe75,0,0,1,4},
{0xfe76,0xfefc,0,0,1,0},
{0xfefd,0xfefe,0,0,1,4},
{0xfeff,0xfeff,3,35,1,0},
{0xff00,0xff00,0,0,1,4},
{0xff01,0xff01,0,12,2,0},
{0xff02,0xff03,0,17,2,0},
{0xff04,0xff04,0,30,2,0},
{0xff05,0xff05,0,29,2,0},
{0xff06,0xff07,0,17,2,0},
{0xff08,0xff08,0,28,2,0},
{0xff09,0xff09,0,6,2,0},
{0xff0a,0xff0b,0,17,2,0},
{0xff0c,0xff0c,0,6,2,0},
{0xff0d,0xff0d,0,17,2,0},
{0xff0e,0xff0e,0,6,2,0},
{0xff0f,0xff19,0,17,2,0},
{0xff1a,0xff1b,0,26,2,0},
{0xff1c,0xff1e,0,17,2,0},
{0xff1f,0xff1f,0,12,2,0},
{0xff20,0xff3a,0,17,2,0},
{0xff3b,0xff3b,0,28,2,0},
{0xff3c,0xff3c,0,17,2,0},
{0xff3d,0xff3d,0,6,2,0},
{0xff3e,0xff5a,0,17,2,0},
{0xff5b,0xff5b,0,28,2,0},
{0xff5c,0xff5c,0,17,2,0},
{0xff5d,0xff5d,0,6,2,0},
{0xff5e,0xff5e,0,17,2,0},
{0xff5f,0xff5f,0,28,2,0},
{0xff60,0xff60,0,6,2,0},
{0xff61,0xff61,0,6,1,0},
{0xff62,0xff62,0,28,1,0},
{0xff63,0xff64,0,6,1,0},
{0xff65,0xff65,0,26,1,0},
{0xff66,0xff66,0,17,1,0},
{0xff67,0xff70,0,38,1,0},
{0xff71,0xff9d,0,17,1,0},
{0xff9e,0xff9f,4,26,1,0},
{0xffa0,0xffbe,0,17,1,0},
{0xffbf,0xffc1,0,0,1,4},
{0xffc2,0xffc7,0,17,1,0},
{0xffc8,0xffc9,0,0,1,4},
{0xffca,0xffcf,0,17,1,0},
{0xffd0,0xffd1,0,0,1,4},
{0xffd2,0xffd7,0,17,1,0},
{0xffd8,0xffd9,0,0,1,4},
{0xffda,0xffdc,0,17,1,0},
{0xffdd,0xffdf,0,0,1,4},
{0xffe0,0xffe0,0,29,2,0},
{0xffe1,0xffe1,0,30,2,0},
{0xffe2,0xffe4,0,17,2,0},
{0xffe5,0xffe6,0,30,2,0},
{0xffe7,0xffe7,0,0,1,4},
{0xffe8,0xffee,0,0,1,0},
{0xffef,0xffef,0,0,1,4},
{0xfff0,0xfff8,3,0,1,4},
{0xfff9,0xfffb,3,7,1,0},
{0xfffc,0xfffc,0,5,1,0},
{0xfffd,0x1000b,0,0,1,0},
{0x1000c,0x1000c,0,0,1,4},
{0x1000d,0x10026,0,0,1,0},
{0x10027,0x10027,0,0,1,4},
{0x10028,0x1003a,0,0,1,0},
{0x1003b,0x1003b,0,0,1,4},
{0x1003c,0x1003d,0,0,1,0},
{0x1003e,0x1003e,0,0,1,4},
{0x1003f,0x1004d,0,0,1,0},
{0x1004e,0x1004f,0,0,1,4},
{0x10050,0x1005d,0,0,1,0},
{0x1005e,0x1007f,0,0,1,4},
{0x10080,0x100fa,0,0,1,0},
{0x100fb,0x100ff,0,0,1,4},
{0x10100,0x10102,0,1,1,0},
{0x10103,0x10106,0,0,1,4},
{0x10107,0x10133,0,0,1,0},
{0x10134,0x10136,0,0,1,4},
{0x10137,0x1018e,0,0,1,0},
{0x1018f,0x1018f,0,0,1,4},
{0x10190,0x1019c,0,0,1,0},
{0x1019d,0x1019f,0,0,1,4},
{0x101a0,0x101a0,0,0,1,0},
{0x101a1,0x101cf,0,0,1,4},
{0x101d0,0x101fc,0,0,1,0},
{0x101fd,0x101fd,4,7,0,0},
{0x101fe,0x1027f,0,0,1,4},
{0x10280,0x1029c,0,0,1,0},
{0x1029d,0x1029f,0,0,1,4},
{0x102a0,0x102d0,0,0,1,0},
{0x102d1,0x102df,0,0,1,4},
{0x102e0,0x102e0,4,7,0,0},
{0x102e1,0x102fb,0,0,1,0},
{0x102fc,0x102ff,0,0,1,4},
{0x10300,0x10323,0,0,1,0},
{0x10324,0x1032c,0,0,1,4},
{0x1032d,0x1034a,0,0,1,0},
{0x1034b,0x1034f,0,0,1,4},
{0x10350,0x10375,0,0,1,0},
{0x10376,0x1037a,4,7,0,0},
{0x1037b,0x1037f,0,0,1,4},
{0x10380,0x1039d,0,0,1,0},
{0x1039e,0x1039e,0,0,1,4},
{0x1039f,0x1039f,0,1,1,0},
{0x103a0,0x103c3,0,0,1,0},
{0x103c4,0x103c7,0,0,1,4},
{0x103c8,0x103cf,0,0,1,0},
{0x103d0,0x103d0,0,1,1,0},
{0x103d1,0x103d5,0,0,1,0},
{0x103d6,0x103ff,0,0,1,4},
{0x10400,0x1049d,0,0,1,0},
{0x1049e,0x1049f,0,0,1,4},
{0x104a0,0x104a9,0,27,1,0},
{0x104aa,0x104af,0,0,1,4},
{0x104b0,0x104d3,0,0,1,0},
{0x104d4,0x104d7,0,0,1,4},
{0x104d8,0x104fb,0,0,1,0},
{0x104fc,0x104ff,0,0,1,4},
{0x10500,0x10527,0,0,1,0},
{0x10528,0x1052f,0,0,1,4},
{0x10530,0x10563,0,0,1,0},
{0x10564,0x1056e,0,0,1,4},
{0x1056f,0x1057a,0,0,1,0},
{0x1057b,0x1057b,0,0,1,4},
{0x1057c,0x1058a,0,0,1,0},
{0x1058b,0x1058b,0,0,1,4},
{0x1058c,0x10592,0,0,1,0},
{0x10593,0x10593,0,0,1,4},
{0x10594,0x10595,0,0,1,0},
{0x10596,0x10596,0,0,1,4},
{0x10597,0x105a1,0,0,1,0},
{0x105a2,0x105a2,0,0,1,4},
{0x105a3,0x105b1,0,0,1,0},
{0x105b2,0x105b2,0,0,1,4},
{0x105b3,0x105b9,0,0,1,0},
{0x105ba,0x105ba,0,0,1,4},
{0x105bb,0x105bc,0,0,1,0},
{0x105bd,0x105ff,0,0,1,4},
{0x10600,0x10736,0,0,1,0},
{0x10737,0x1073f,0,0,1,4},
{0x10740,0x10755,0,0,1,0},
{0x10756,0x1075f,0,0,1,4},
{0x10760,0x10767,0,0,1,0},
{0x10768,0x1077f,0,0,1,4},
{0x10780,0x10785,0,0,1,0},
{0x10786,0x10786,0,0,1,4},
{0x10787,0x107b0,0,0,1,0},
{0x107b1,0x107b1,0,0,1,4},
{0x107b2,0x107ba,0,0,1,0},
{0x107bb,0x107ff,0,0,1,4},
{0x10800,0x10805,0,0,1,0},
{0x10806,0x10807,0,0,1,4},
{0x10808,0x10808,0,0,1,0},
{0x10809,0x10809,0,0,1,4},
{0x1080a,0x10835,0,0,1,0},
{0x10836,0x10836,0,0,1,4},
{0x10837,0x10838,0,0,1,0},
{0x10839,0x1083b,0,0,1,4},
{0x1083c,0x1083c,0,0,1,0},
{0x1083d,0x1083e,0,0,1,4},
{0x1083f,0x10855,0,0,1,0},
{0x10856,0x10856,0,0,1,4},
{0x10857,0x10857,0,1,1,0},
{0x10858,0x1089e,0,0,1,0},
{0x1089f,0x108a6,0,0,1,4},
{0x108a7,0x108af,0,0,1,0},
{0x108b0,0x108df,0,0,1,4},
{0x108e0,0x108f2,0,0,1,0},
{0x108f3,0x108f3,0,0,1,4},
{0x108f4,0x108f5,0,0,1,0},
{0x108f6,0x108fa,0,0,1,4},
{0x108fb,0x1091b,0,0,1,0},
{0x1091c,0x1091e,0,0,1,4},
{0x1091f,0x1091f,0,1,1,0},
{0x10920,0x10939,0,0,1,0},
{0x1093a,0x1093e,0,0,1,4},
{0x1093f,0x1093f,0,0,1,0},
{0x10940,0x1097f,0,0,1,4},
{0x10980,0x109b7,0,0,1,0},
{0x109b8,0x109bb,0,0,1,4},
{0x109bc,0x109cf,0,0,1,0},
{0x109d0,0x109d1,0,0,1,4},
{0x109d2,0x10a00,0,0,1,0},
{0x10a01,0x10a03,4,7,0,0},
{0x10a04,0x10a04,0,0,1,4},
{0x10a05,0x10a06,4,7,0,0},
{0x10a07,0x10a0b,0,0,1,4},
{0x10a0c,0x10a0f,4,7,0,0},
{0x10a10,0x10a13,0,0,1,0},
{0x10a14,0x10a14,0,0,1,4},
{0x10a15,0x10a17,0,0,1,0},
{0x10a18,0x10a18,0,0,1,4},
{0x10a19,0x10a35,0,0,1,0},
{0x10a36,0x10a37,0,0,1,4},
{0x10a38,0x10a3a,4,7,0,0},
{0x10a3b,0x10a3e,0,0,1,4},
{0x10a3f,0x10a3f,4,7,0,0},
{0x10a40,0x10a48,0,0,1,0},
{0x10a49,0x10a4f,0,0,1,4},
{0x10a50,0x10a57,0,1,1,0},
{0x10a58,0x10a58,0,0,1,0},
{0x10a59,0x10a5f,0,0,1,4},
{0x10a60,0x10a9f,0,0,1,0},
{0x10aa0,0x10abf,0,0,1,4},
{0x10ac0,0x10ae4,0,0,1,0},
{0x10ae5,0x10ae6,4,7,0,0},
{0x10ae7,0x10aea,0,0,1,4},
{0x10aeb,0x10aef,0,0,1,0},
{0x10af0,0x10af5,0,1,1,0},
{0x10af6,0x10af6,0,19,1,0},
{0x10af7,0x10aff,0,0,1,4},
{0x10b00,0x10b35,0,0,1,0},
{0x10b36,0x10b38,0,0,1,4},
{0x10b39,0x10b3f,0,1,1,0},
{0x10b40,0x10b55,0,0,1,0},
{0x10b56,0x10b57,0,0,1,4},
{0x10b58,0x10b72,0,0,1,0},
{0x10b73,0x10b77,0,0,1,4},
{0x10b78,0x10b91,0,0,1,0},
{0x10b92,0x10b98,0,0,1,4},
{0x10b99,0x10b9c,0,0,1,0},
{0x10b9d,0x10ba8,0,0,1,4},
{0x10ba9,0x10baf,0,0,1,0},
{0x10bb0,0x10bff,0,0,1,4},
{0x10c00,0x10c48,0,0,1,0},
{0x10c49,0x10c7f,0,0,1,4},
{0x10c80,0x10cb2,0,0,1,0},
{0x10cb3,0x10cbf,0,0,1,4},
{0x10cc0,0x10cf2,0,0,1,0},
{0x10cf3,0x10cf9,0,0,1,4},
{0x10cfa,0x10d23,0,0,1,0},
{0x10d24,0x10d27,4,7,0,0},
{0x10d28,0x10d2f,0,0,1,4},
{0x10d30,0x10d39,0,27,1,0},
{0x10d3a,0x10e5f,0,0,1,4},
{0x10e60,0x10e7e,0,0,1,0},
{0x10e7f,0x10e7f,0,0,1,4},
{0x10e80,0x10ea9,0,0,1,0},
{0x10eaa,0x10eaa,0,0,1,4},
{0x10eab,0x10eac,4,7,0,0},
{0x10ead,0x10ead,0,1,1,0},
{0x10eae,0x10eaf,0,0,1,4},
{0x10eb0,0x10eb1,0,0,1,0},
{0x10eb2,0x10efc,0,0,1,4},
{0x10efd,0x10eff,4,7,0,4},
{0x10f00,0x10f27,0,0,1,0},
{0x10f28,0x10f2f,0,0,1,4},
{0x10f30,0x10f45,0,0,1,0},
{0x10f46,0x10f50,4,7,0,0},
{0x10f51,0x10f59,0,0,1,0},
{0x10f5a,0x10f6f,0,0,1,4},
{0x10f70,0x10f81,0,0,1,0},
{0x10f82,0x10f85,4,7,0,0},
{0x10f86,0x10f89,0,0,1,0},
{0x10f8a,0x10faf,0,0,1,4},
{0x10fb0,0x10fcb,0,0,1,0},
{0x10fcc,0x10fdf,0,0,1,4},
{0x10fe0,0x10ff6,0,0,1,0},
{0x10ff7,0x10fff,0,0,1,4},
{0x11000,0x11000,8,7,1,0},
{0x11001,0x11001,4,7,0,0},
{0x11002,0x11002,8,7,1,0},
{0x11003,0x11037,0,0,1,0},
{0x11038,0x11046,4,7,0,0},
{0x11047,0x11048,0,1,1,0},
{0x11049,0x1104d,0,0,1,0},
{0x1104e,0x11051,0,0,1,4},
{0x11052,0x11065,0,0,1,0},
{0x11066,0x1106f,0,27,1,0},
{0x11070,0x11070,4,7,0,0},
{0x11071,0x11072,0,0,1,0},
{0x11073,0x11074,4,7,0,0},
{0x11075,0x11075,0,0,1,0},
{0x11076,0x1107e,0,0,1,4},
{0x1107f,0x11081,4,7,0,0},
{0x11082,0x11082,8,7,1,0},
{0x11083,0x110af,0,0,1,0},
{0x110b0,0x110b2,8,7,1,0},
{0x110b3,0x110b6,4,7,0,0},
{0x110b7,0x110b8,8,7,1,0},
{0x110b9,0x110ba,4,7,0,0},
{0x110bb,0x110bc,0,0,1,0},
{0x110bd,0x110bd,7,0,1,0},
{0x110be,0x110c1,0,1,1,0},
{0x110c2,0x110c2,4,7,0,0},
{0x110c3,0x110cc,0,0,1,4},
{0x110cd,0x110cd,7,0,1,0},
{0x110ce,0x110cf,0,0,1,4},
{0x110d0,0x110e8,0,0,1,0},
{0x110e9,0x110ef,0,0,1,4},
{0x110f0,0x110f9,0,27,1,0},
{0x110fa,0x110ff,0,0,1,4},
{0x11100,0x11102,4,7,0,0},
{0x11103,0x11126,0,0,1,0},
{0x11127,0x1112b,4,7,0,0},
{0x1112c,0x1112c,8,7,1,0},
{0x1112d,0x11134,4,7,0,0},
{0x11135,0x11135,0,0,1,4},
{0x11136,0x1113f,0,27,1,0},
{0x11140,0x11143,0,1,1,0},
{0x11144,0x11144,0,0,1,0},
{0x11145,0x11146,8,7,1,0},
{0x11147,0x11147,0,0,1,0},
{0x11148,0x1114f,0,0,1,4},
{0x11150,0x11172,0,0,1,0},
{0x11173,0x11173,4,7,0,0},
{0x11174,0x11174,0,0,1,0},
{0x11175,0x11175,0,2,1,0},
{0x11176,0x11176,0,0,1,0},
{0x11177,0x1117f,0,0,1,4},
{0x11180,0x11181,4,7,0,0},
{0x11182,0x11182,8,7,1,0},
{0x11183,0x111b2,0,0,1,0},
{0x111b3,0x111b5,8,7,1,0},
{0x111b6,0x111be,4,7,0,0},
{0x111bf,0x111c0,8,7,1,0},
{0x111c1,0x111c1,0,0,1,0},
{0x111c2,0x111c3,7,0,1,0},
{0x111c4,0x111c4,0,0,1,0},
{0x111c5,0x111c6,0,1,1,0},
{0x111c7,0x111c7,0,0,1,0},
{0x111c8,0x111c8,0,1,1,0},
{0x111c9,0x111cc,4,7,0,0},
{0x111cd,0x111cd,0,0,1,0},
{0x111ce,0x111ce,8,7,1,0},
{0x111cf,0x111cf,4,7,0,0},
{0x111d0,0x111d9,0,27,1,0},
{0x111da,0x111da,0,0,1,0},
{0x111db,0x111db,0,2,1,0},
{0x111dc,0x111dc,0,0,1,0},
{0x111dd,0x111df,0,1,1,0},
{0x111e0,0x111e0,0,0,1,4},
{0x111e1,0x111f4,0,0,1,0},
{0x111f5,0x111ff,0,0,1,4},
{0x11200,0x11211,0,0,1,0},
{0x11212,0x11212,0,0,1,4},
{0x11213,0x1122b,0,0,1,0},
{0x1122c,0x1122e,8,7,1,0},
{0x1122f,0x11231,4,7,0,0},
{0x11232,0x11233,8,7,1,0},
{0x11234,0x11234,4,7,0,0},
{0x11235,0x11235,8,7,1,0},
{0x11236,0x11237,4,7,0,0},
{0x11238,0x11239,0,1,1,0},
{0x1123a,0x1123a,0,0,1,0},
{0x1123b,0x1123c,0,1,1,0},
{0x1123d,0x1123d,0,0,1,0},
{0x1123e,0x1123e,4,7,0,0},
{0x1123f,0x11240,0,0,1,4},
{0x11241,0x11241,4,7,0,4},
{0x11242,0x1127f,0,0,1,4},
{0x11280,0x11286,0,0,1,0},
{0x11287,0x11287,0,0,1,4},
{0x11288,0x11288,0,0,1,0},
{0x11289,0x11289,0,0,1,4},
{0x1128a,0x1128d,0,0,1,0},
{0x1128e,0x1128e,0,0,1,4},
{0x1128f,0x1129d,0,0,1,0},
{0x1129e,0x1129e,0,0,1,4},
{0x1129f,0x112a8,0,0,1,0},
{0x112a9,0x112a9,0,1,1,0},
{0x112aa,0x112af,0,0,1,4},
{0x112b0,0x112de,0,0,1,0},
{0x112df,0x112df,4,7,0,0},
{0x112e0,0x112e2,8,7,1,0},
{0x112e3,0x112ea,4,7,0,0},
{0x112eb,0x112ef,0,0,1,4},
{0x112f0,0x112f9,0,27,1,0},
{0x112fa,0x112ff,0,0,1,4},
{0x11300,0x11301,4,7,0,0},
{0x11302,0x11303,8,7,1,0},
{0x11304,0x11304,0,0,1,4},
{0x11305,0x1130c,0,0,1,0},
{0x1130d,0x1130e,0,0,1,4},
{0x1130f,0x11310,0,0,1,0},
{0x11311,0x11312,0,0,1,4},
{0x11313,0x11328,0,0,1,0},
{0x11329,0x11329,0,0,1,4},
{0x1132a,0x11330,0,0,1,0},
{0x11331,0x11331,0,0,1,4},
{0x11332,0x11333,0,0,1,0},
{0x11334,0x11334,0,0,1,4},
{0x11335,0x11339,0,0,1,0},
{0x1133a,0x1133a,0,0,1,4},
{0x1133b,0x1133c,4,7,0,0},
{0x1133d,0x1133d,0,0,1,0},
{0x1133e,0x1133e,4,7,1,0},
{0x1133f,0x1133f,8,7,1,0},
{0x11340,0x11340,4,7,0,0},
{0x11341,0x11344,8,7,1,0},
{0x11345,0x11346,0,0,1,4},
{0x11347,0x11348,8,7,1,0},
{0x11349,0x1134a,0,0,1,4},
{0x1134b,0x1134d,8,7,1,0},
{0x1134e,0x1134f,0,0,1,4},
{0x11350,0x11350,0,0,1,0},
{0x11351,0x11356,0,0,1,4},
{0x11357,0x11357,4,7,1,0},
{0x11358,0x1135c,0,0,1,4},
{0x1135d,0x11361,0,0,1,0},
{0x11362,0x11363,8,7,1,0},
{0x11364,0x11365,0,0,1,4},
{0x11366,0x1136c,4,7,0,0},
{0x1136d,0x1136f,0,0,1,4},
{0x11370,0x11374,4,7,0,0},
{0x11375,0x113ff,0,0,1,4},
{0x11400,0x11434,0,0,1,0},
{0x11435,0x11437,8,7,1,0},
{0x11438,0x1143f,4,7,0,0},
{0x11440,0x11441,8,7,1,0},
{0x11442,0x11444,4,7,0,0},
{0x11445,0x11445,8,7,1,0},
{0x11446,0x11446,4,7,0,0},
{0x11447,0x1144a,0,0,1,0},
{0x1144b,0x1144e,0,1,1,0},
{0x1144f,0x1144f,0,0,1,0},
{0x11450,0x11459,0,27,1,0},
{0x1145a,0x1145b,0,1,1,0},
{0x1145c,0x1145c,0,0,1,4},
{0x1145d,0x1145d,0,0,1,0},
{0x1145e,0x1145e,4,7,0,0},
{0x1145f,0x11461,0,0,1,0},
{0x11462,0x1147f,0,0,1,4},
{0x11480,0x114af,0,0,1,0},
{0x114b0,0x114b0,4,7,1,0},
{0x114b1,0x114b2,8,7,1,0},
{0x114b3,0x114b8,4,7,0,0},
{0x114b9,0x114b9,8,7,1,0},
{0x114ba,0x114ba,4,7,0,0},
{0x114bb,0x114bc,8,7,1,0},
{0x114bd,0x114bd,4,7,1,0},
{0x114be,0x114be,8,7,1,0},
{0x114bf,0x114c0,4,7,0,0},
{0x114c1,0x114c1,8,7,1,0},
{0x114c2,0x114c3,4,7,0,0},
{0x114c4,0x114c7,0,0,1,0},
{0x114c8,0x114cf,0,0,1,4},
{0x114d0,0x114d9,0,27,1,0},
{0x114da,0x1157f,0,0,1,4},
{0x11580,0x115ae,0,0,1,0},
{0x115af,0x115af,4,7,1,0},
{0x115b0,0x115b1,8,7,1,0},
{0x115b2,0x115b5,4,7,0,0},
{0x115b6,0x115b7,0,0,1,4},
{0x115b8,0x115bb,8,7,1,0},
{0x115bc,0x115bd,4,7,0,0},
{0x115be,0x115be,8,7,1,0},
{0x115bf,0x115c0,4,7,0,0},
{0x115c1,0x115c1,0,2,1,0},
{0x115c2,0x115c3,0,1,1,0},
{0x115c4,0x115c5,0,12,1,0},
{0x115c6,0x115c8,0,0,1,0},
{0x115c9,0x115d7,0,1,1,0},
{0x115d8,0x115db,0,0,1,0},
{0x115dc,0x115dd,4,7,0,0},
{0x115de,0x115ff,0,0,1,4},
{0x11600,0x1162f,0,0,1,0},
{0x11630,0x11632,8,7,1,0},
{0x11633,0x1163a,4,7,0,0},
{0x1163b,0x1163c,8,7,1,0},
{0x1163d,0x1163d,4,7,0,0},
{0x1163e,0x1163e,8,7,1,0},
{0x1163f,0x11640,4,7,0,0},
{0x11641,0x11642,0,1,1,0},
{0x11643,0x11644,0,0,1,0},
{0x11645,0x1164f,0,0,1,4},
{0x11650,0x11659,0,27,1,0},
{0x1165a,0x1165f,0,0,1,4},
{0x11660,0x1166c,0,2,1,0},
{0x1166d,0x1167f,0,0,1,4},
{0x11680,0x116aa,0,0,1,0},
{0x116ab,0x116ab,4,7,0,0},
{0x116ac,0x116ac,8,7,1,0},
{0x116ad,0x116ad,4,7,0,0},
{0x116ae,0x116af,8,7,1,0},
{0x116b0,0x116b5,4,7,0,0},
{0x116b6,0x116b6,8,7,1,0},
{0x116b7,0x116b7,4,7,0,0},
{0x116b8,0x116b9,0,0,1,0},
{0x116ba,0x116bf,0,0,1,4},
{0x116c0,0x116c9,0,27,1,0},
{0x116ca,0x116ff,0,0,1,4},
{0x11700,0x1171a,0,0,1,0},
{0x1171b,0x1171c,0,0,1,4},
{0x1171d,0x1171f,4,7,0,0},
{0x11720,0x11721,0,7,1,0},
{0x11722,0x11725,4,7,0,0},
{0x11726,0x11726,8,7,1,0},
{0x11727,0x1172b,4,7,0,0},
{0x1172c,0x1172f,0,0,1,4},
{0x11730,0x11739,0,27,1,0},
{0x1173a,0x1173b,0,0,1,0},
{0x1173c,0x1173e,0,1,1,0},
{0x1173f,0x11746,0,0,1,0},
{0x11747,0x117ff,0,0,1,4},
{0x11800,0x1182b,0,0,1,0},
{0x1182c,0x1182e,8,7,1,0},
{0x1182f,0x11837,4,7,0,0},
{0x11838,0x11838,8,7,1,0},
{0x11839,0x1183a,4,7,0,0},
{0x1183b,0x1183b,0,0,1,0},
{0x1183c,0x1189f,0,0,1,4},
{0x118a0,0x118df,0,0,1,0},
{0x118e0,0x118e9,0,27,1,0},
{0x118ea,0x118f2,0,0,1,0},
{0x118f3,0x118fe,0,0,1,4},
{0x118ff,0x11906,0,0,1,0},
{0x11907,0x11908,0,0,1,4},
{0x11909,0x11909,0,0,1,0},
{0x1190a,0x1190b,0,0,1,4},
{0x1190c,0x11913,0,0,1,0},
{0x11914,0x11914,0,0,1,4},
{0x11915,0x11916,0,0,1,0},
{0x11917,0x11917,0,0,1,4},
{0x11918,0x1192f,0,0,1,0},
{0x11930,0x11930,4,7,1,0},
{0x11931,0x11935,8,7,1,0},
{0x11936,0x11936,0,0,1,4},
{0x11937,0x11938,8,7,1,0},
{0x11939,0x1193a,0,0,1,4},
{0x1193b,0x1193c,4,7,0,0},
{0x1193d,0x1193d,8,7,1,0},
{0x1193e,0x1193e,4,7,0,0},
{0x1193f,0x1193f,7,0,1,0},
{0x11940,0x11940,8,7,1,0},
{0x11941,0x11941,7,0,1,0},
{0x11942,0x11942,8,7,1,0},
{0x11943,0x11943,4,7,0,0},
{0x11944,0x11946,0,1,1,0},
{0x11947,0x1194f,0,0,1,4},
{0x11950,0x11959,0,27,1,0},
{0x1195a,0x1199f,0,0,1,4},
{0x119a0,0x119a7,0,0,1,0},
{0x119a8,0x119a9,0,0,1,4},
{0x119aa,0x119d0,0,0,1,0},
{0x119d1,0x119d3,8,7,1,0},
{0x119d4,0x119d7,4,7,0,0},
{0x119d8,0x119d9,0,0,1,4},
{0x119da,0x119db,4,7,0,0},
{0x119dc,0x119df,8,7,1,0},
{0x119e0,0x119e0,4,7,0,0},
{0x119e1,0x119e1,0,0,1,0},
{0x119e2,0x119e2,0,2,1,0},
{0x119e3,0x119e3,0,0,1,0},
{0x119e4,0x119e4,8,7,1,0},
{0x119e5,0x119ff,0,0,1,4},
{0x11a00,0x11a00,0,0,1,0},
{0x11a01,0x11a0a,4,7,0,0},
{0x11a0b,0x11a32,0,0,1,0},
{0x11a33,0x11a38,4,7,0,0},
{0x11a39,0x11a39,8,7,1,0},
{0x11a3a,0x11a3a,7,0,1,0},
{0x11a3b,0x11a3e,4,7,0,0},
{0x11a3f,0x11a3f,0,2,1,0},
{0x11a40,0x11a40,0,0,1,0},
{0x11a41,0x11a44,0,1,1,0},
{0x11a45,0x11a45,0,2,1,0},
{0x11a46,0x11a46,0,0,1,0},
{0x11a47,0x11a47,4,7,0,0},
{0x11a48,0x11a4f,0,0,1,4},
{0x11a50,0x11a50,0,0,1,0},
{0x11a51,0x11a56,4,7,0,0},
{0x11a57,0x11a58,8,7,1,0},
{0x11a59,0x11a5b,4,7,0,0},
{0x11a5c,0x11a83,0,0,1,0},
{0x11a84,0x11a89,7,0,1,0},
{0x11a8a,0x11a96,4,7,0,0},
{0x11a97,0x11a97,8,7,1,0},
{0x11a98,0x11a99,4,7,0,0},
{0x11a9a,0x11a9c,0,1,1,0},
{0x11a9d,0x11a9d,0,0,1,0},
{0x11a9e,0x11aa0,0,2,1,0},
{0x11aa1,0x11aa2,0,1,1,0},
{0x11aa3,0x11aaf,0,0,1,4},
{0x11ab0,0x11af8,0,0,1,0},
{0x11af9,0x11aff,0,0,1,4},
{0x11b00,0x11b09,0,2,1,4},
{0x11b0a,0x11bff,0,0,1,4},
{0x11c00,0x11c08,0,0,1,0},
{0x11c09,0x11c09,0,0,1,4},
{0x11c0a,0x11c2e,0,0,1,0},
{0x11c2f,0x11c2f,8,7,1,0},
{0x11c30,0x11c36,4,7,0,0},
{0x11c37,0x11c37,0,0,1,4},
{0x11c38,0x11c3d,4,7,0,0},
{0x11c3e,0x11c3e,8,7,1,0},
{0x11c3f,0x11c3f,4,7,0,0},
{0x11c40,0x11c40,0,0,1,0},
{0x11c41,0x11c45,0,1,1,0},
{0x11c46,0x11c4f,0,0,1,4},
{0x11c50,0x11c59,0,27,1,0},
{0x11c5a,0x11c6c,0,0,1,0},
{0x11c6d,0x11c6f,0,0,1,4},
{0x11c70,0x11c70,0,2,1,0},
{0x11c71,0x11c71,0,12,1,0},
{0x11c72,0x11c8f,0,0,1,0},
{0x11c90,0x11c91,0,0,1,4},
{0x11c92,0x11ca7,4,7,0,0},
{0x11ca8,0x11ca8,0,0,1,4},
{0x11ca9,0x11ca9,8,7,1,0},
{0x11caa,0x11cb0,4,7,0,0},
{0x11cb1,0x11cb1,8,7,1,0},
{0x11cb2,0x11cb3,4,7,0,0},
{0x11cb4,0x11cb4,8,7,1,0},
{0x11cb5,0x11cb6,4,7,0,0},
{0x11cb7,0x11cff,0,0,1,4},
{0x11d00,0x11d06,0,0,1,0},
{0x11d07,0x11d07,0,0,1,4},
{0x11d08,0x11d09,0,0,1,0},
{0x11d0a,0x11d0a,0,0,1,4},
{0x11d0b,0x11d30,0,0,1,0},
{0x11d31,0x11d36,4,7,0,0},
{0x11d37,0x11d39,0,0,1,4},
{0x11d3a,0x11d3a,4,7,0,0},
{0x11d3b,0x11d3b,0,0,1,4},
{0x11d3c,0x11d3d,4,7,0,0},
{0x11d3e,0x11d3e,0,0,1,4},
{0x11d3f,0x11d45,4,7,0,0},
{0x11d46,0x11d46,7,0,1,0},
{0x11d47,0x11d47,4,7,0,0},
{0x11d48,0x11d4f,0,0,1,4},
{0x11d50,0x11d59,0,27,1,0},
{0x11d5a,0x11d5f,0,0,1,4},
{0x11d60,0x11d65,0,0,1,0},
{0x11d66,0x11d66,0,0,1,4},
{0x11d67,0x11d68,0,0,1,0},
{0x11d69,0x11d69,0,0,1,4},
{0x11d6a,0x11d89,0,0,1,0},
{0x11d8a,0x11d8e,8,7,1,0},
{0x11d8f,0x11d8f,0,0,1,4},
{0x11d90,0x11d91,4,7,0,0},
{0x11d92,0x11d92,0,0,1,4},
{0x11d93,0x11d94,8,7,1,0},
{0x11d95,0x11d95,4,7,0,0},
{0x11d96,0x11d96,8,7,1,0},
{0x11d97,0x11d97,4,7,0,0},
{0x11d98,0x11d98,0,0,1,0},
{0x11d99,0x11d9f,0,0,1,4},
{0x11da0,0x11da9,0,27,1,0},
{0x11daa,0x11edf,0,0,1,4},
{0x11ee0,0x11ef2,0,0,1,0},
{0x11ef3,0x11ef4,4,7,0,0},
{0x11ef5,0x11ef6,8,7,1,0},
{0x11ef7,0x11ef8,0,0,1,0},
{0x11ef9,0x11eff,0,0,1,4},
{0x11f00,0x11f01,4,7,0,4},
{0x11f02,0x11f02,7,0,1,4},
{0x11f03,0x11f03,8,7,1,4},
{0x11f04,0x11f33,0,0,1,4},
{0x11f34,0x11f35,8,7,1,4},
{0x11f36,0x11f3a,4,7,0,4},
{0x11f3b,0x11f3d,0,0,1,4},
{0x11f3e,0x11f3f,8,7,1,4},
{0x11f40,0x11f40,4,7,0,4},
{0x11f41,0x11f41,8,7,1,4},
{0x11f42,0x11f42,4,7,0,4},
{0x11f43,0x11f44,0,1,1,4},
{0x11f45,0x11f4f,0,17,1,4},
{0x11f50,0x11f59,0,27,1,4},
{0x11f5a,0x11faf,0,0,1,4},
{0x11fb0,0x11fb0,0,0,1,0},
{0x11fb1,0x11fbf,0,0,1,4},
{0x11fc0,0x11fdc,0,0,1,0},
{0x11fdd,0x11fe0,0,29,1,0},
{0x11fe1,0x11ff1,0,0,1,0},
{0x11ff2,0x11ffe,0,0,1,4},
{0x11fff,0x11fff,0,1,1,0},
{0x12000,0x12399,0,0,1,0},
{0x1239a,0x123ff,0,0,1,4},
{0x12400,0x1246e,0,0,1,0},
{0x1246f,0x1246f,0,0,1,4},
{0x12470,0x12474,0,1,1,0},
{0x12475,0x1247f,0,0,1,4},
{0x12480,0x12543,0,0,1,0},
{0x12544,0x12f8f,0,0,1,4},
{0x12f90,0x12ff2,0,0,1,0},
{0x12ff3,0x12fff,0,0,1,4},
{0x13000,0x13257,0,0,1,0},
{0x13258,0x1325a,0,28,1,0},
{0x1325b,0x1325d,0,6,1,0},
{0x1325e,0x13281,0,0,1,0},
{0x13282,0x13282,0,6,1,0},
{0x13283,0x13285,0,0,1,0},
{0x13286,0x13286,0,28,1,0},
{0x13287,0x13287,0,6,1,0},
{0x13288,0x13288,0,28,1,0},
{0x13289,0x13289,0,6,1,0},
{0x1328a,0x13378,0,0,1,0},
{0x13379,0x13379,0,28,1,0},
{0x1337a,0x1337b,0,6,1,0},
{0x1337c,0x1342e,0,0,1,0},
{0x1342f,0x1342f,0,0,1,4},
{0x13430,0x13436,3,13,1,0},
{0x13437,0x13437,3,28,1,0},
{0x13438,0x13438,3,6,1,0},
{0x13439,0x1343b,3,13,1,4},
{0x1343c,0x1343c,3,28,1,4},
{0x1343d,0x1343d,3,6,1,4},
{0x1343e,0x1343e,3,28,1,4},
{0x1343f,0x1343f,3,6,1,4},
{0x13440,0x13440,4,7,0,4},
{0x13441,0x13446,0,0,1,4},
{0x13447,0x13455,4,7,0,4},
{0x13456,0x143ff,0,0,1,4},
{0x14400,0x145cd,0,0,1,0},
{0x145ce,0x145ce,0,28,1,0},
{0x145cf,0x145cf,0,6,1,0},
{0x145d0,0x14646,0,0,1,0},
{0x14647,0x167ff,0,0,1,4},
{0x16800,0x16a38,0,0,1,0},
{0x16a39,0x16a3f,0,0,1,4},
{0x16a40,0x16a5e,0,0,1,0},
{0x16a5f,0x16a5f,0,0,1,4},
{0x16a60,0x16a69,0,27,1,0},
{0x16a6a,0x16a6d,0,0,1,4},
{0x16a6e,0x16a6f,0,1,1,0},
{0x16a70,0x16abe,0,0,1,0},
{0x16abf,0x16abf,0,0,1,4},
{0x16ac0,0x16ac9,0,27,1,0},
{0x16aca,0x16acf,0,0,1,4},
{0x16ad0,0x16aed,0,0,1,0},
{0x16aee,0x16aef,0,0,1,4},
{0x16af0,0x16af4,4,7,0,0},
{0x16af5,0x16af5,0,1,1,0},
{0x16af6,0x16aff,0,0,1,4},
{0x16b00,0x16b2f,0,0,1,0},
{0x16b30,0x16b36,4,7,0,0},
{0x16b37,0x16b39,0,1,1,0},
{0x16b3a,0x16b43,0,0,1,0},
{0x16b44,0x16b44,0,1,1,0},
{0x16b45,0x16b45,0,0,1,0},
{0x16b46,0x16b4f,0,0,1,4},
{0x16b50,0x16b59,0,27,1,0},
{0x16b5a,0x16b5a,0,0,1,4},
{0x16b5b,0x16b61,0,0,1,0},
{0x16b62,0x16b62,0,0,1,4},
{0x16b63,0x16b77,0,0,1,0},
{0x16b78,0x16b7c,0,0,1,4},
{0x16b7d,0x16b8f,0,0,1,0},
{0x16b90,0x16e3f,0,0,1,4},
{0x16e40,0x16e96,0,0,1,0},
{0x16e97,0x16e98,0,1,1,0},
{0x16e99,0x16e9a,0,0,1,0},
{0x16e9b,0x16eff,0,0,1,4},
{0x16f00,0x16f4a,0,0,1,0},
{0x16f4b,0x16f4e,0,0,1,4},
{0x16f4f,0x16f4f,4,7,0,0},
{0x16f50,0x16f50,0,0,1,0},
{0x16f51,0x16f87,8,7,1,0},
{0x16f88,0x16f8e,0,0,1,4},
{0x16f8f,0x16f92,4,7,0,0},
{0x16f93,0x16f9f,0,0,1,0},
{0x16fa0,0x16fdf,0,0,1,4},
{0x16fe0,0x16fe3,0,26,2,0},
{0x16fe4,0x16fe4,4,13,2,0},
{0x16fe5,0x16fef,0,0,1,4},
{0x16ff0,0x16ff1,8,7,2,0},
{0x16ff2,0x16fff,0,0,1,4},
{0x17000,0x187f7,0,17,2,0},
{0x187f8,0x187ff,0,0,1,4},
{0x18800,0x18aff,0,17,2,0},
{0x18b00,0x18cd5,0,0,2,0},
{0x18cd6,0x18cff,0,0,1,4},
{0x18d00,0x18d08,0,17,2,0},
{0x18d09,0x1afef,0,0,1,4},
{0x1aff0,0x1aff3,0,0,2,0},
{0x1aff4,0x1aff4,0,0,1,4},
{0x1aff5,0x1affb,0,0,2,0},
{0x1affc,0x1affc,0,0,1,4},
{0x1affd,0x1affe,0,0,2,0},
{0x1afff,0x1afff,0,0,1,4},
{0x1b000,0x1b122,0,17,2,0},
{0x1b123,0x1b131,0,0,1,4},
{0x1b132,0x1b132,0,38,2,4},
{0x1b133,0x1b14f,0,0,1,4},
{0x1b150,0x1b152,0,38,2,0},
{0x1b153,0x1b154,0,0,1,4},
{0x1b155,0x1b155,0,38,2,4},
{0x1b156,0x1b163,0,0,1,4},
{0x1b164,0x1b167,0,38,2,0},
{0x1b168,0x1b16f,0,0,1,4},
{0x1b170,0x1b2fb,0,17,2,0},
{0x1b2fc,0x1bbff,0,0,1,4},
{0x1bc00,0x1bc6a,0,0,1,0},
{0x1bc6b,0x1bc6f,0,0,1,4},
{0x1bc70,0x1bc7c,0,0,1,0},
{0x1bc7d,0x1bc7f,0,0,1,4},
{0x1bc80,0x1bc88,0,0,1,0},
{0x1bc89,0x1bc8f,0,0,1,4},
{0x1bc90,0x1bc99,0,0,1,0},
{0x1bc9a,0x1bc9b,0,0,1,4},
{0x1bc9c,0x1bc9c,0,0,1,0},
{0x1bc9d,0x1bc9e,4,7,0,0},
{0x1bc9f,0x1bc9f,0,1,1,0},
{0x1bca0,0x1bca3,3,7,1,0},
{0x1bca4,0x1ceff,0,0,1,4},
{0x1cf00,0x1cf2d,4,7,0,0},
{0x1cf2e,0x1cf2f,0,0,1,4},
{0x1cf30,0x1cf46,4,7,0,0},
{0x1cf47,0x1cf4f,0,0,1,4},
{0x1cf50,0x1cfc3,0,0,1,0},
{0x1cfc4,0x1cfff,0,0,1,4},
{0x1d000,0x1d0f5,0,0,1,0},
{0x1d0f6,0x1d0ff,0,0,1,4},
{0x1d100,0x1d126,0,0,1,0},
{0x1d127,0x1d128,0,0,1,4},
{0x1d129,0x1d164,0,0,1,0},
{0x1d165,0x1d165,4,7,1,0},
{0x1d166,0x1d166,8,7,1,0},
{0x1d167,0x1d169,4,7,0,0},
{0x1d16a,0x1d16c,0,0,1,0},
{0x1d16d,0x1d16d,8,7,1,0},
{0x1d16e,0x1d172,4,7,1,0},
{0x1d173,0x1d17a,3,7,1,0},
{0x1d17b,0x1d182,4,7,0,0},
{0x1d183,0x1d184,0,0,1,0},
{0x1d185,0x1d18b,4,7,0,0},
{0x1d18c,0x1d1a9,0,0,1,0},
{0x1d1aa,0x1d1ad,4,7,0,0},
{0x1d1ae,0x1d1ea,0,0,1,0},
{0x1d1eb,0x1d1ff,0,0,1,4},
{0x1d200,0x1d241,0,0,1,0},
{0x1d242,0x1d244,4,7,0,0},
{0x1d245,0x1d245,0,0,1,0},
{0x1d246,0x1d2df,0,0,1,4},
{0x1d2e0,0x1d2f3,0,0,1,0},
{0x1d2f4,0x1d2ff,0,0,1,4},
{0x1d300,0x1d356,0,0,1,0},
{0x1d357,0x1d35f,0,0,1,4},
{0x1d360,0x1d378,0,0,1,0},
{0x1d379,0x1d3ff,0,0,1,4},
{0x1d400,0x1d454,0,0,1,0},
{0x1d455,0x1d455,0,0,1,4},
{0x1d456,0x1d49c,0,0,1,0},
{0x1d49d,0x1d49d,0,0,1,4},
{0x1d49e,0x1d49f,0,0,1,0},
{0x1d4a0,0x1d4a1,0,0,1,4},
{0x1d4a2,0x1d4a2,0,0,1,0},
{0x1d4a3,0x1d4a4,0,0,1,4},
{0x1d4a5,0x1d4a6,0,0,1,0},
{0x1d4a7,0x1d4a8,0,0,1,4},
{0x1d4a9,0x1d4ac,0,0,1,0},
{0x1d4ad,0x1d4ad,0,0,1,4},
{0x1d4ae,0x1d4b9,0,0,1,0},
{0x1d4ba,0x1d4ba,0,0,1,4},
{0x1d4bb,0x1d4bb,0,0,1,0},
{0x1d4bc,0x1d4bc,0,0,1,4},
{0x1d4bd,0x1d4c3,0,0,1,0},
{0x1d4c4,0x1d4c4,0,0,1,4},
{0x1d4c5,0x1d505,0,0,1,0},
{0x1d506,0x1d506,0,0,1,4},
{0x1d507,0x1d50a,0,0,1,0},
{0x1d50b,0x1d50c,0,0,1,4},
{0x1d50d,0x1d514,0,0,1,0},
{0x1d515,0x1d515,0,0,1,4},
{0x1d516,0x1d51c,0,0,1,0},
{0x1d51d,0x1d51d,0,0,1,4},
{0x1d51e,0x1d539,0,0,1,0},
{0x1d53a,0x1d53a,0,0,1,4},
{0x1d53b,0x1d53e,0,0,1,0},
{0x1d53f,0x1d53f,0,0,1,4},
{0x1d540,0x1d544,0,0,1,0},
{0x1d545,0x1d545,0,0,1,4},
{0x1d546,0x1d546,0,0,1,0},
{0x1d547,0x1d549,0,0,1,4},
{0x1d54a,0x1d550,0,0,1,0},
{0x1d551,0x1d551,0,0,1,4},
{0x1d552,0x1d6a5,0,0,1,0},
{0x1d6a6,0x1d6a7,0,0,1,4},
{0x1d6a8,0x1d7cb,0,0,1,0},
{0x1d7cc,0x1d7cd,0,0,1,4},
{0x1d7ce,0x1d7ff,0,27,1,0},
{0x1d800,0x1d9ff,0,0,1,0},
{0x1da00,0x1da36,4,7,0,0},
{0x1da37,0x1da3a,0,0,1,0},
{0x1da3b,0x1da6c,4,7,0,0},
{0x1da6d,0x1da74,0,0,1,0},
{0x1da75,0x1da75,4,7,0,0},
{0x1da76,0x1da83,0,0,1,0},
{0x1da84,0x1da84,4,7,0,0},
{0x1da85,0x1da86,0,0,1,0},
{0x1da87,0x1da8a,0,1,1,0},
{0x1da8b,0x1da8b,0,0,1,0},
{0x1da8c,0x1da9a,0,0,1,4},
{0x1da9b,0x1da9f,4,7,0,0},
{0x1daa0,0x1daa0,0,0,1,4},
{0x1daa1,0x1daaf,4,7,0,0},
{0x1dab0,0x1deff,0,0,1,4},
{0x1df00,0x1df1e,0,0,1,0},
{0x1df1f,0x1dfff,0,0,1,4},
{0x1e000,0x1e006,4,7,0,0},
{0x1e007,0x1e007,0,0,1,4},
{0x1e008,0x1e018,4,7,0,0},
{0x1e019,0x1e01a,0,0,1,4},
{0x1e01b,0x1e021,4,7,0,0},
{0x1e022,0x1e022,0,0,1,4},
{0x1e023,0x1e024,4,7,0,0},
{0x1e025,0x1e025,0,0,1,4},
{0x1e026,0x1e02a,4,7,0,0},
{0x1e02b,0x1e08e,0,0,1,4},
{0x1e08f,0x1e08f,4,7,0,4},
{0x1e090,0x1e0ff,0,0,1,4},
{0x1e100,0x1e12c,0,0,1,0},
{0x1e12d,0x1e12f,0,0,1,4},
{0x1e130,0x1e136,4,7,0,0},
{0x1e137,0x1e13d,0,0,1,0},
{0x1e13e,0x1e13f,0,0,1,4},
{0x1e140,0x1e149,0,27,1,0},
{0x1e14a,0x1e14d,0,0,1,4},
{0x1e14e,0x1e14f,0,0,1,0},
{0x1e150,0x1e28f,0,0,1,4},
{0x1e290,0x1e2ad,0,0,1,0},
{0x1e2ae,0x1e2ae,4,7,0,0},
{0x1e2af,0x1e2bf,0,0,1,4},
{0x1e2c0,0x1e2eb,0,0,1,0},
{0x1e2ec,0x1e2ef,4,7,0,0},
{0x1e2f0,0x1e2f9,0,27,1,0},
{0x1e2fa,0x1e2fe,0,0,1,4},
{0x1e2ff,0x1e2ff,0,30,1,0},
{0x1e300,0x1e4eb,0,0,1,4},
{0x1e4ec,0x1e4ef,4,7,0,4},
{0x1e4f0,0x1e4f9,0,27,1,4},
{0x1e4fa,0x1e7df,0,0,1,4},
{0x1e7e0,0x1e7e6,0,0,1,0},
{0x1e7e7,0x1e7e7,0,0,1,4},
{0x1e7e8,0x1e7eb,0,0,1,0},
{0x1e7ec,0x1e7ec,0,0,1,4},
{0x1e7ed,0x1e7ee,0,0,1,0},
{0x1e7ef,0x1e7ef,0,0,1,4},
{0x1e7f0,0x1e7fe,0,0,1,0},
{0x1e7ff,0x1e7ff,0,0,1,4},
{0x1e800,0x1e8c4,0,0,1,0},
{0x1e8c5,0x1e8c6,0,0,1,4},
{0x1e8c7,0x1e8cf,0,0,1,0},
{0x1e8d0,0x1e8d6,4,7,0,0},
{0x1e8d7,0x1e8ff,0,0,1,4},
{0x1e900,0x1e943,0,0,1,0},
{0x1e944,0x1e94a,4,7,0,0},
{0x1e94b,0x1e94b,0,0,1,0},
{0x1e94c,0x1e94f,0,0,1,4},
{0x1e950,0x1e959,0,27,1,0},
{0x1e95a,0x1e95d,0,0,1,4},
{0x1e95e,0x1e95f,0,28,1,0},
{0x1e960,0x1ec70,0,0,1,4},
{0x1ec71,0x1ecab,0,0,1,0},
{0x1ecac,0x1ecac,0,29,1,0},
{0x1ecad,0x1ecaf,0,0,1,0},
{0x1ecb0,0x1ecb0,0,29,1,0},
{0x1ecb1,0x1ecb4,0,0,1,0},
{0x1ecb5,0x1ed00,0,0,1,4},
{0x1ed01,0x1ed3d,0,0,1,0},
{0x1ed3e,0x1edff,0,0,1,4},
{0x1ee00,0x1ee03,0,0,1,0},
{0x1ee04,0x1ee04,0,0,1,4},
{0x1ee05,0x1ee1f,0,0,1,0},
{0x1ee20,0x1ee20,0,0,1,4},
{0x1ee21,0x1ee22,0,0,1,0},
{0x1ee23,0x1ee23,0,0,1,4},
{0x1ee24,0x1ee24,0,0,1,0},
{0x1ee25,0x1ee26,0,0,1,4},
{0x1ee27,0x1ee27,0,0,1,0},
{0x1ee28,0x1ee28,0,0,1,4},
{0x1ee29,0x1ee32,0,0,1,0},
{0x1ee33,0x1ee33,0,0,1,4},
{0x1ee34,0x1ee37,0,0,1,0},
{0x1ee38,0x1ee38,0,0,1,4},
{0x1ee39,0x1ee39,0,0,1,0},
{0x1ee3a,0x1ee3a,0,0,1,4},
{0x1ee3b,0x1ee3b,0,0,1,0},
{0x1ee3c,0x1ee41,0,0,1,4},
{0x1ee42,0x1ee42,0,0,1,0},
{0x1ee43,0x1ee46,0,0,1,4},
{0x1ee47,0x1ee47,0,0,1,0},
{0x1ee48,0x1ee48,0,0,1,4},
{0x1ee49,0x1ee49,0,0,1,0},
{0x1ee4a,0x1ee4a,0,0,1,4},
{0x1ee4b,0x1ee4b,0,0,1,0},
{0x1ee4c,0x1ee4c,0,0,1,4},
{0x1ee4d,0x1ee4f,0,0,1,0},
{0x1ee50,0x1ee50,0,0,1,4},
{0x1ee51,0x1ee52,0,0,1,0},
{0x1ee53,0x1ee53,0,0,1,4},
{0x1ee54,0x1ee54,0,0,1,0},
{0x1ee55,0x1ee56,0,0,1,4},
{0x1ee57,0x1ee57,0,0,1,0},
{0x1ee58,0x1ee58,0,0,1,4},
{0x1ee59,0x1ee59,0,0,1,0},
{0x1ee5a,0x1ee5a,0,0,1,4},
{0x1ee5b,0x1ee5b,0,0,1,0},
{0x1ee5c,0x1ee5c,0,0,1,4},
{0x1ee5d,0x1ee5d,0,0,1,0},
{0x1ee5e,0x1ee5e,0,0,1,4},
{0x1ee5f,0x1ee5f,0,0,1,0},
{0x1ee60,0x1ee60,0,0,1,4},
{0x1ee61,0x1ee62,0,0,1,0},
{0x1ee63,0x1ee63,0,0,1,4},
{0x1ee64,0x1ee64,0,0,1,0},
{0x1ee65,0x1ee66,0,0,1,4},
{0x1ee67,0x1ee6a,0,0,1,0},
{0x1ee6b,0x1ee6b,0,0,1,4},
{0x1ee6c,0x1ee72,0,0,1,0},
{0x1ee73,0x1ee73,0,0,1,4},
{0x1ee74,0x1ee77,0,0,1,0},
{0x1ee78,0x1ee78,0,0,1,4},
{0x1ee79,0x1ee7c,0,0,1,0},
{0x1ee7d,0x1ee7d,0,0,1,4},
{0x1ee7e,0x1ee7e,0,0,1,0},
{0x1ee7f,0x1ee7f,0,0,1,4},
{0x1ee80,0x1ee89,0,0,1,0},
{0x1ee8a,0x1ee8a,0,0,1,4},
{0x1ee8b,0x1ee9b,0,0,1,0},
{0x1ee9c,0x1eea0,0,0,1,4},
{0x1eea1,0x1eea3,0,0,1,0},
{0x1eea4,0x1eea4,0,0,1,4},
{0x1eea5,0x1eea9,0,0,1,0},
{0x1eeaa,0x1eeaa,0,0,1,4},
{0x1eeab,0x1eebb,0,0,1,0},
{0x1eebc,0x1eeef,0,0,1,4},
{0x1eef0,0x1eef1,0,0,1,0},
{0x1eef2,0x1efff,0,0,1,4},
{0x1f000,0x1f003,0,17,1,2},
{0x1f004,0x1f004,0,17,2,2},
{0x1f005,0x1f02b,0,17,1,2},
{0x1f02c,0x1f02f,0,17,1,6},
{0x1f030,0x1f093,0,17,1,2},
{0x1f094,0x1f09f,0,17,1,6},
{0x1f0a0,0x1f0ae,0,17,1,2},
{0x1f0af,0x1f0b0,0,17,1,6},
{0x1f0b1,0x1f0bf,0,17,1,2},
{0x1f0c0,0x1f0c0,0,17,1,6},
{0x1f0c1,0x1f0ce,0,17,1,2},
{0x1f0cf,0x1f0cf,0,17,2,2},
{0x1f0d0,0x1f0d0,0,17,1,6},
{0x1f0d1,0x1f0f5,0,17,1,2},
{0x1f0f6,0x1f0ff,0,17,1,6},
{0x1f100,0x1f10c,0,0,1,0},
{0x1f10d,0x1f10f,0,17,1,2},
{0x1f110,0x1f12e,0,0,1,0},
{0x1f12f,0x1f12f,0,0,1,2},
{0x1f130,0x1f16b,0,0,1,0},
{0x1f16c,0x1f16c,0,0,1,2},
{0x1f16d,0x1f16f,0,17,1,2},
{0x1f170,0x1f171,0,0,1,2},
{0x1f172,0x1f17d,0,0,1,0},
{0x1f17e,0x1f17f,0,0,1,2},
{0x1f180,0x1f18d,0,0,1,0},
{0x1f18e,0x1f18e,0,0,2,2},
{0x1f18f,0x1f190,0,0,1,0},
{0x1f191,0x1f19a,0,0,2,2},
{0x1f19b,0x1f1ac,0,0,1,0},
{0x1f1ad,0x1f1ad,0,17,1,2},
{0x1f1ae,0x1f1e5,0,17,1,6},
{0x1f1e6,0x1f1ff,6,32,1,0},
{0x1f200,0x1f200,0,17,2,0},
{0x1f201,0x1f202,0,17,2,2},
{0x1f203,0x1f20f,0,17,1,6},
{0x1f210,0x1f219,0,17,2,0},
{0x1f21a,0x1f21a,0,17,2,2},
{0x1f21b,0x1f22e,0,17,2,0},
{0x1f22f,0x1f22f,0,17,2,2},
{0x1f230,0x1f231,0,17,2,0},
{0x1f232,0x1f23a,0,17,2,2},
{0x1f23b,0x1f23b,0,17,2,0},
{0x1f23c,0x1f23f,0,17,1,6},
{0x1f240,0x1f248,0,17,2,0},
{0x1f249,0x1f24f,0,17,1,6},
{0x1f250,0x1f251,0,17,2,2},
{0x1f252,0x1f25f,0,17,1,6},
{0x1f260,0x1f265,0,17,2,2},
{0x1f266,0x1f2ff,0,17,1,6},
{0x1f300,0x1f320,0,17,2,2},
{0x1f321,0x1f32c,0,17,1,2},
{0x1f32d,0x1f335,0,17,2,2},
{0x1f336,0x1f336,0,17,1,2},
{0x1f337,0x1f37c,0,17,2,2},
{0x1f37d,0x1f37d,0,17,1,2},
{0x1f37e,0x1f384,0,17,2,2},
{0x1f385,0x1f385,0,10,2,2},
{0x1f386,0x1f393,0,17,2,2},
{0x1f394,0x1f39b,0,17,1,2},
{0x1f39c,0x1f39d,0,0,1,2},
{0x1f39e,0x1f39f,0,17,1,2},
{0x1f3a0,0x1f3b4,0,17,2,2},
{0x1f3b5,0x1f3b6,0,0,2,2},
{0x1f3b7,0x1f3bb,0,17,2,2},
{0x1f3bc,0x1f3bc,0,0,2,2},
{0x1f3bd,0x1f3c1,0,17,2,2},
{0x1f3c2,0x1f3c4,0,10,2,2},
{0x1f3c5,0x1f3c6,0,17,2,2},
{0x1f3c7,0x1f3c7,0,10,2,2},
{0x1f3c8,0x1f3c9,0,17,2,2},
{0x1f3ca,0x1f3ca,0,10,2,2},
{0x1f3cb,0x1f3cc,0,10,1,2},
{0x1f3cd,0x1f3ce,0,17,1,2},
{0x1f3cf,0x1f3d3,0,17,2,2},
{0x1f3d4,0x1f3df,0,17,1,2},
{0x1f3e0,0x1f3f0,0,17,2,2},
{0x1f3f1,0x1f3f3,0,17,1,2},
{0x1f3f4,0x1f3f4,0,17,2,2},
{0x1f3f5,0x1f3f7,0,17,1,2},
{0x1f3f8,0x1f3fa,0,17,2,2},
{0x1f3fb,0x1f3ff,4,11,2,0},
{0x1f400,0x1f43e,0,17,2,2},
{0x1f43f,0x1f43f,0,17,1,2},
{0x1f440,0x1f440,0,17,2,2},
{0x1f441,0x1f441,0,17,1,2},
{0x1f442,0x1f443,0,10,2,2},
{0x1f444,0x1f445,0,17,2,2},
{0x1f446,0x1f450,0,10,2,2},
{0x1f451,0x1f465,0,17,2,2},
{0x1f466,0x1f478,0,10,2,2},
{0x1f479,0x1f47b,0,17,2,2},
{0x1f47c,0x1f47c,0,10,2,2},
{0x1f47d,0x1f480,0,17,2,2},
{0x1f481,0x1f483,0,10,2,2},
{0x1f484,0x1f484,0,17,2,2},
{0x1f485,0x1f487,0,10,2,2},
{0x1f488,0x1f48e,0,17,2,2},
{0x1f48f,0x1f48f,0,10,2,2},
{0x1f490,0x1f490,0,17,2,2},
{0x1f491,0x1f491,0,10,2,2},
{0x1f492,0x1f49f,0,17,2,2},
{0x1f4a0,0x1f4a0,0,0,2,2},
{0x1f4a1,0x1f4a1,0,17,2,2},
{0x1f4a2,0x1f4a2,0,0,2,2},
{0x1f4a3,0x1f4a3,0,17,2,2},
{0x1f4a4,0x1f4a4,0,0,2,2},
{0x1f4a5,0x1f4a9,0,17,2,2},
{0x1f4aa,0x1f4aa,0,10,2,2},
{0x1f4ab,0x1f4ae,0,17,2,2},
{0x1f4af,0x1f4af,0,0,2,2},
{0x1f4b0,0x1f4b0,0,17,2,2},
{0x1f4b1,0x1f4b2,0,0,2,2},
{0x1f4b3,0x1f4fc,0,17,2,2},
{0x1f4fd,0x1f4fe,0,17,1,2},
{0x1f4ff,0x1f4ff,0,17,2,2},
{0x1f500,0x1f506,0,0,2,2},
{0x1f507,0x1f516,0,17,2,2},
{0x1f517,0x1f524,0,0,2,2},
{0x1f525,0x1f531,0,17,2,2},
{0x1f532,0x1f53d,0,0,2,2},
{0x1f53e,0x1f545,0,0,1,0},
{0x1f546,0x1f549,0,0,1,2},
{0x1f54a,0x1f54a,0,17,1,2},
{0x1f54b,0x1f54e,0,17,2,2},
{0x1f54f,0x1f54f,0,17,1,2},
{0x1f550,0x1f567,0,17,2,2},
{0x1f568,0x1f573,0,17,1,2},
{0x1f574,0x1f575,0,10,1,2},
{0x1f576,0x1f579,0,17,1,2},
{0x1f57a,0x1f57a,0,10,2,2},
{0x1f57b,0x1f58f,0,17,1,2},
{0x1f590,0x1f590,0,10,1,2},
{0x1f591,0x1f594,0,17,1,2},
{0x1f595,0x1f596,0,10,2,2},
{0x1f597,0x1f5a3,0,17,1,2},
{0x1f5a4,0x1f5a4,0,17,2,2},
{0x1f5a5,0x1f5d3,0,17,1,2},
{0x1f5d4,0x1f5db,0,0,1,2},
{0x1f5dc,0x1f5f3,0,17,1,2},
{0x1f5f4,0x1f5f9,0,0,1,2},
{0x1f5fa,0x1f5fa,0,17,1,2},
{0x1f5fb,0x1f644,0,17,2,2},
{0x1f645,0x1f647,0,10,2,2},
{0x1f648,0x1f64a,0,17,2,2},
{0x1f64b,0x1f64f,0,10,2,2},
{0x1f650,0x1f675,0,0,1,0},
{0x1f676,0x1f678,0,31,1,0},
{0x1f679,0x1f67b,0,26,1,0},
{0x1f67c,0x1f67f,0,0,1,0},
{0x1f680,0x1f6a2,0,17,2,2},
{0x1f6a3,0x1f6a3,0,10,2,2},
{0x1f6a4,0x1f6b3,0,17,2,2},
{0x1f6b4,0x1f6b6,0,10,2,2},
{0x1f6b7,0x1f6bf,0,17,2,2},
{0x1f6c0,0x1f6c0,0,10,2,2},
{0x1f6c1,0x1f6c5,0,17,2,2},
{0x1f6c6,0x1f6cb,0,17,1,2},
{0x1f6cc,0x1f6cc,0,10,2,2},
{0x1f6cd,0x1f6cf,0,17,1,2},
{0x1f6d0,0x1f6d2,0,17,2,2},
{0x1f6d3,0x1f6d4,0,17,1,2},
{0x1f6d5,0x1f6d7,0,17,2,2},
{0x1f6d8,0x1f6db,0,17,1,6},
{0x1f6dc,0x1f6dc,0,17,2,6},
{0x1f6dd,0x1f6df,0,17,2,2},
{0x1f6e0,0x1f6ea,0,17,1,2},
{0x1f6eb,0x1f6ec,0,17,2,2},
{0x1f6ed,0x1f6ef,0,17,1,6},
{0x1f6f0,0x1f6f3,0,17,1,2},
{0x1f6f4,0x1f6fc,0,17,2,2},
{0x1f6fd,0x1f6ff,0,17,1,6},
{0x1f700,0x1f773,0,0,1,0},
{0x1f774,0x1f77f,0,17,1,6},
{0x1f780,0x1f7d4,0,0,1,0},
{0x1f7d5,0x1f7d8,0,17,1,2},
{0x1f7d9,0x1f7df,0,17,1,6},
{0x1f7e0,0x1f7eb,0,17,2,2},
{0x1f7ec,0x1f7ef,0,17,1,6},
{0x1f7f0,0x1f7f0,0,17,2,2},
{0x1f7f1,0x1f7ff,0,17,1,6},
{0x1f800,0x1f80b,0,0,1,0},
{0x1f80c,0x1f80f,0,17,1,6},
{0x1f810,0x1f847,0,0,1,0},
{0x1f848,0x1f84f,0,17,1,6},
{0x1f850,0x1f859,0,0,1,0},
{0x1f85a,0x1f85f,0,17,1,6},
{0x1f860,0x1f887,0,0,1,0},
{0x1f888,0x1f88f,0,17,1,6},
{0x1f890,0x1f8ad,0,0,1,0},
{0x1f8ae,0x1f8af,0,17,1,6},
{0x1f8b0,0x1f8b1,0,17,1,2},
{0x1f8b2,0x1f8ff,0,17,1,6},
{0x1f900,0x1f90b,0,0,1,0},
{0x1f90c,0x1f90c,0,10,2,2},
{0x1f90d,0x1f90e,0,17,2,2},
{0x1f90f,0x1f90f,0,10,2,2},
{0x1f910,0x1f917,0,17,2,2},
{0x1f918,0x1f91f,0,10,2,2},
{0x1f920,0x1f925,0,17,2,2},
{0x1f926,0x1f926,0,10,2,2},
{0x1f927,0x1f92f,0,17,2,2},
{0x1f930,0x1f939,0,10,2,2},
{0x1f93a,0x1f93a,0,17,2,2},
{0x1f93b,0x1f93b,0,17,1,0},
{0x1f93c,0x1f93e,0,10,2,2},
{0x1f93f,0x1f945,0,17,2,2},
{0x1f946,0x1f946,0,17,1,0},
{0x1f947,0x1f976,0,17,2,2},
{0x1f977,0x1f977,0,10,2,2},
{0x1f978,0x1f9b4,0,17,2,2},
{0x1f9b5,0x1f9b6,0,10,2,2},
{0x1f9b7,0x1f9b7,0,17,2,2},
{0x1f9b8,0x1f9b9,0,10,2,2},
{0x1f9ba,0x1f9ba,0,17,2,2},
{0x1f9bb,0x1f9bb,0,10,2,2},
{0x1f9bc,0x1f9cc,0,17,2,2},
{0x1f9cd,0x1f9cf,0,10,2,2},
{0x1f9d0,0x1f9d0,0,17,2,2},
{0x1f9d1,0x1f9dd,0,10,2,2},
{0x1f9de,0x1f9ff,0,17,2,2},
{0x1fa00,0x1fa53,0,0,1,2},
{0x1fa54,0x1fa5f,0,17,1,6},
{0x1fa60,0x1fa6d,0,17,1,2},
{0x1fa6e,0x1fa6f,0,17,1,6},
{0x1fa70,0x1fa74,0,17,2,2},
{0x1fa75,0x1fa77,0,17,2,6},
{0x1fa78,0x1fa7c,0,17,2,2},
{0x1fa7d,0x1fa7f,0,17,1,6},
{0x1fa80,0x1fa86,0,17,2,2},
{0x1fa87,0x1fa88,0,17,2,6},
{0x1fa89,0x1fa8f,0,17,1,6},
{0x1fa90,0x1faac,0,17,2,2},
{0x1faad,0x1faaf,0,17,2,6},
{0x1fab0,0x1faba,0,17,2,2},
{0x1fabb,0x1fabd,0,17,2,6},
{0x1fabe,0x1fabe,0,17,1,6},
{0x1fabf,0x1fabf,0,17,2,6},
{0x1fac0,0x1fac2,0,17,2,2},
{0x1fac3,0x1fac5,0,10,2,2},
{0x1fac6,0x1facd,0,17,1,6},
{0x1face,0x1facf,0,17,2,6},
{0x1fad0,0x1fad9,0,17,2,2},
{0x1fada,0x1fadb,0,17,2,6},
{0x1fadc,0x1fadf,0,17,1,6},
{0x1fae0,0x1fae7,0,17,2,2},
{0x1fae8,0x1fae8,0,17,2,6},
{0x1fae9,0x1faef,0,17,1,6},
{0x1faf0,0x1faf6,0,10,2,2},
{0x1faf7,0x1faf8,0,10,2,6},
{0x1faf9,0x1faff,0,17,1,6},
{0x1fb00,0x1fb92,0,0,1,0},
{0x1fb93,0x1fb93,0,0,1,4},
{0x1fb94,0x1fbca,0,0,1,0},
{0x1fbcb,0x1fbef,0,0,1,4},
{0x1fbf0,0x1fbf9,0,27,1,0},
{0x1fbfa,0x1fbff,0,0,1,4},
{0x1fc00,0x1fffd,0,17,1,6},
{0x1fffe,0x1ffff,0,0,1,0},
{0x20000,0x2a6df,0,17,2,0},
{0x2a6e0,0x2a6ff,0,17,2,4},
{0x2a700,0x2b738,0,17,2,0},
{0x2b739,0x2b73f,0,17,2,4},
{0x2b740,0x2b81d,0,17,2,0},
{0x2b81e,0x2b81f,0,17,2,4},
{0x2b820,0x2cea1,0,17,2,0},
{0x2cea2,0x2ceaf,0,17,2,4},
{0x2ceb0,0x2ebe0,0,17,2,0},
{0x2ebe1,0x2f7ff,0,17,2,4},
{0x2f800,0x2fa1d,0,17,2,0},
{0x2fa1e,0x2fffd,0,17,2,4},
{0x2fffe,0x2ffff,0,0,1,0},
{0x30000,0x3134a,0,17,2,0},
{0x3134b,0x3fffd,0,17,2,4},
{0x3fffe,0x3ffff,0,0,1,0},
{0x40000,0x4fffd,0,0,1,4},
{0x4fffe,0x4ffff,0,0,1,0},
{0x50000,0x5fffd,0,0,1,4},
{0x5fffe,0x5ffff,0,0,1,0},
{0x60000,0x6fffd,0,0,1,4},
{0x6fffe,0x6ffff,0,0,1,0},
{0x70000,0x7fffd,0,0,1,4},
{0x7fffe,0x7ffff,0,0,1,0},
{0x80000,0x8fffd,0,0,1,4},
{0x8fffe,0x8ffff,0,0,1,0},
{0x90000,0x9fffd,0,0,1,4},
{0x9fffe,0x9ffff,0,0,1,0},
{0xa0000,0xafffd,0,0,1,4},
{0xafffe,0xaffff,0,0,1,0},
{0xb0000,0xbfffd,0,0,1,4},
{0xbfffe,0xbffff,0,0,1,0},
{0xc0000,0xcfffd,0,0,1,4},
{0xcfffe,0xcffff,0,0,1,0},
{0xd0000,0xdfffd,0,0,1,4},
{0xdfffe,0xdffff,0,0,1,0},
{0xe0000,0xe0000,3,0,1,4},
{0xe0001,0xe0001,3,7,1,0},
{0xe0002,0xe001f,3,0,1,4},
{0xe0020,0xe007f,4,7,1,0},
{0xe0080,0xe00ff,3,0,1,4},
{0xe0100,0xe01ef,4,7,0,0},
{0xe01f0,0xe0fff,3,0,1,4},
{0xe1000,0xefffd,0,0,1,4},
{0xefffe,0x10ffff,0,0,1,0},

// Generated from Python unicodedata 15.0.0: code point, simple upper, simple lower, kind (1 Lu 2 Ll 3 Lt), decimal digit or -1
#ifndef PBT_UNIDATA_H_
#define PBT_UNIDATA_H_
#include <cstdint>
struct UniRow { uint32_t cp, upper, lower; int8_t kind, digit; };
static const UniRow UniRows[] = {
{0x30,0x30,0x30,0,0},{0x31,0x31,0x31,0,1},{0x32,0x32,0x32,0,2},{0x33,0x33,0x33,0,3},{0x34,0x34,0x34,0,4},{0x35,0x35,0x35,0,5},
{0x36,0x36,0x36,0,6},{0x37,0x37,0x37,0,7},{0x38,0x38,0x38,0,8},{0x39,0x39,0x39,0,9},{0x41,0x41,0x61,1,-1},{0x42,0x42,0x62,1,-1},
{0x43,0x43,0x63,1,-1},{0x44,0x44,0x64,1,-1},{0x45,0x45,0x65,1,-1},{0x46,0x46,0x66,1,-1},{0x47,0x47,0x67,1,-1},{0x48,0x48,0x68,1,-1},
{0x49,0x49,0x69,1,-1},{0x4A,0x4A,0x6A,1,-1},{0x4B,0x4B,0x6B,1,-1},{0x4C,0x4C,0x6C,1,-1},{0x4D,0x4D,0x6D,1,-1},{0x4E,0x4E,0x6E,1,-1},
{0x4F,0x4F,0x6F,1,-1},{0x50,0x50,0x70,1,-1},{0x51,0x51,0x71,1,-1},{0x52,0x52,0x72,1,-1},{0x53,0x53,0x73,1,-1},{0x54,0x54,0x74,1,-1},
{0x55,0x55,0x75,1,-1},{0x56,0x56,0x76,1,-1},{0x57,0x57,0x77,1,-1},{0x58,0x58,0x78,1,-1},{0x59,0x59,0x79,1,-1},{0x5A,0x5A,0x7A,1,-1},
{0x61,0x41,0x61,2,-1},{0x62,0x42,0x62,2,-1},{0x63,0x43,0x63,2,-1},{0x64,0x44,0x64,2,-1},{0x65,0x45,0x65,2,-1},{0x66,0x46,0x66,2,-1},
{0x67,0x47,0x67,2,-1},{0x68,0x48,0x68,2,-1},{0x69,0x49,0x69,2,-1},{0x6A,0x4A,0x6A,2,-1},{0x6B,0x4B,0x6B,2,-1},{0x6C,0x4C,0x6C,2,-1},
{0x6D,0x4D,0x6D,2,-1},{0x6E,0x4E,0x6E,2,-1},{0x6F,0x4F,0x6F,2,-1},{0x70,0x50,0x70,2,-1},{0x71,0x51,0x71,2,-1},{0x72,0x52,0x72,2,-1},
{0x73,0x53,0x73,2,-1},{0x74,0x54,0x74,2,-1},{0x75,0x55,0x75,2,-1},{0x76,0x56,0x76,2,-1},{0x77,0x57,0x77,2,-1},{0x78,0x58,0x78,2,-1},
{0x79,0x59,0x79,2,-1},{0x7A,0x5A,0x7A,2,-1},{0xB5,0x39C,0xB5,2,-1},{0xC0,0xC0,0xE0,1,-1},{0xC1,0xC1,0xE1,1,-1},{0xC2,0xC2,0xE2,1,-1},
{0xC3,0xC3,0xE3,1,-1},{0xC4,0xC4,0xE4,1,-1},{0xC5,0xC5,0xE5,1,-1},{0xC6,0xC6,0xE6,1,-1},{0xC7,0xC7,0xE7,1,-1},{0xC8,0xC8,0xE8,1,-1},
{0xC9,0xC9,0xE9,1,-1},{0xCA,0xCA,0xEA,1,-1},{0xCB,0xCB,0xEB,1,-1},{0xCC,0xCC,0xEC,1,-1},{0xCD,0xCD,0xED,1,-1},{0xCE,0xCE,0xEE,1,-1},
{0xCF,0xCF,0xEF,1,-1},{0xD0,0xD0,0xF0,1,-1},{0xD1,0xD1,0xF1,1,-1},{0xD2,0xD2,0xF2,1,-1},{0xD3,0xD3,0xF3,1,-1},{0xD4,0xD4,0xF4,1,-1},
{0xD5,0xD5,0xF5,1,-1},{0xD6,0xD6,0xF6,1,-1},{0xD8,0xD8,0xF8,1,-1},{0xD9,0xD9,0xF9,1,-1},{0xDA,0xDA,0xFA,1,-1},{0xDB,0xDB,0xFB,1,-1},
{0xDC,0xDC,0xFC,1,-1},{0xDD,0xDD,0xFD,1,-1},{0xDE,0xDE,0xFE,1,-1},{0xDF,0xDF,0xDF,2,-1},{0xE0,0xC0,0xE0,2,-1},{0xE1,0xC1,0xE1,2,-1},
{0xE2,0xC2,0xE2,2,-1},{0xE3,0xC3,0xE3,2,-1},{0xE4,0xC4,0xE4,2,-1},{0xE5,0xC5,0xE5,2,-1},{0xE6,0xC6,0xE6,2,-1},{0xE7,0xC7,0xE7,2,-1},
{0xE8,0xC8,0xE8,2,-1},{0xE9,0xC9,0xE9,2,-1},{0xEA,0xCA,0xEA,2,-1},{0xEB,0xCB,0xEB,2,-1},{0xEC,0xCC,0xEC,2,-1},{0xED,0xCD,0xED,2,-1},
{0xEE,0xCE,0xEE,2,-1},{0xEF,0xCF,0xEF,2,-1},{0xF0,0xD0,0xF0,2,-1},{0xF1,0xD1,0xF1,2,-1},{0xF2,0xD2,0xF2,2,-1},{0xF3,0xD3,0xF3,2,-1},
{0xF4,0xD4,0xF4,2,-1},{0xF5,0xD5,0xF5,2,-1},{0xF6,0xD6,0xF6,2,-1},{0xF8,0xD8,0xF8,2,-1},{0xF9,0xD9,0xF9,2,-1},{0xFA,0xDA,0xFA,2,-1},
{0xFB,0xDB,0xFB,2,-1},{0xFC,0xDC,0xFC,2,-1},{0xFD,0xDD,0xFD,2,-1},{0xFE,0xDE,0xFE,2,-1},{0xFF,0x178,0xFF,2,-1},{0x100,0x100,0x101,1,-1},
{0x101,0x100,0x101,2,-1},{0x102,0x102,0x103,1,-1},{0x103,0x102,0x103,2,-1},{0x104,0x104,0x105,1,-1},{0x105,0x104,0x105,2,-1},{0x106,0x106,0x107,1,-1},
{0x107,0x106,0x107,2,-1},{0x108,0x108,0x109,1,-1},{0x109,0x108,0x109,2,-1},{0x10A,0x10A,0x10B,1,-1},{0x10B,0x10A,0x10B,2,-1},{0x10C,0x10C,0x10D,1,-1},
{0x10D,0x10C,0x10D,2,-1},{0x10E,0x10E,0x10F,1,-1},{0x10F,0x10E,0x10F,2,-1},{0x110,0x110,0x111,1,-1},{0x111,0x110,0x111,2,-1},{0x112,0x112,0x113,1,-1},
{0x113,0x112,0x113,2,-1},{0x114,0x114,0x115,1,-1},{0x115,0x114,0x115,2,-1},{0x116,0x116,0x117,1,-1},{0x117,0x116,0x117,2,-1},{0x118,0x118,0x119,1,-1},
{0x119,0x118,0x119,2,-1},{0x11A,0x11A,0x11B,1,-1},{0x11B,0x11A,0x11B,2,-1},{0x11C,0x11C,0x11D,1,-1},{0x11D,0x11C,0x11D,2,-1},{0x11E,0x11E,0x11F,1,-1},
{0x11F,0x11E,0x11F,2,-1},{0x120,0x120,0x121,1,-1},{0x121,0x120,0x121,2,-1},{0x122,0x122,0x123,1,-1},{0x123,0x122,0x123,2,-1},{0x124,0x124,0x125,1,-1},
{0x125,0x124,0x125,2,-1},{0x126,0x126,0x127,1,-1},{0x127,0x126,0x127,2,-1},{0x128,0x128,0x129,1,-1},{0x129,0x128,0x129,2,-1},{0x12A,0x12A,0x12B,1,-1},
{0x12B,0x12A,0x12B,2,-1},{0x12C,0x12C,0x12D,1,-1},{0x12D,0x12C,0x12D,2,-1},{0x12E,0x12E,0x12F,1,-1},{0x12F,0x12E,0x12F,2,-1},{0x130,0x130,0x69,1,-1},
{0x131,0x49,0x131,2,-1},{0x132,0x132,0x133,1,-1},{0x133,0x132,0x133,2,-1},{0x134,0x134,0x135,1,-1},{0x135,0x134,0x135,2,-1},{0x136,0x136,0x137,1,-1},
{0x137,0x136,0x137,2,-1},{0x138,0x138,0x138,2,-1},{0x139,0x139,0x13A,1,-1},{0x13A,0x139,0x13A,2,-1},{0x13B,0x13B,0x13C,1,-1},{0x13C,0x13B,0x13C,2,-1},
{0x13D,0x13D,0x13E,1,-1},{0x13E,0x13D,0x13E,2,-1},{0x13F,0x13F,0x140,1,-1},{0x140,0x13F,0x140,2,-1},{0x141,0x141,0x142,1,-1},{0x142,0x141,0x142,2,-1},
{0x143,0x143,0x144,1,-1},{0x144,0x143,0x144,2,-1},{0x145,0x145,0x146,1,-1},{0x146,0x145,0x146,2,-1},{0x147,0x147,0x148,1,-1},{0x148,0x147,0x148,2,-1},
{0x149,0x149,0x149,2,-1},{0x14A,0x14A,0x14B,1,-1},{0x14B,0x14A,0x14B,2,-1},{0x14C,0x14C,0x14D,1,-1},{0x14D,0x14C,0x14D,2,-1},{0x14E,0x14E,0x14F,1,-1},
{0x14F,0x14E,0x14F,2,-1},{0x150,0x150,0x151,1,-1},{0x151,0x150,0x151,2,-1},{0x152,0x152,0x153,1,-1},{0x153,0x152,0x153,2,-1},{0x154,0x154,0x155,1,-1},
{0x155,0x154,0x155,2,-1},{0x156,0x156,0x157,1,-1},{0x157,0x156,0x157,2,-1},{0x158,0x158,0x159,1,-1},{0x159,0x158,0x159,2,-1},{0x15A,0x15A,0x15B,1,-1},
{0x15B,0x15A,0x15B,2,-1},{0x15C,0x15C,0x15D,1,-1},{0x15D,0x15C,0x15D,2,-1},{0x15E,0x15E,0x15F,1,-1},{0x15F,0x15E,0x15F,2,-1},{0x160,0x160,0x161,1,-1},
{0x161,0x160,0x161,2,-1},{0x162,0x162,0x163,1,-1},{0x163,0x162,0x163,2,-1},{0x164,0x164,0x165,1,-1},{0x165,0x164,0x165,2,-1},{0x166,0x166,0x167,1,-1},
{0x167,0x166,0x167,2,-1},{0x168,0x168,0x169,1,-1},{0x169,0x168,0x169,2,-1},{0x16A,0x16A,0x16B,1,-1},{0x16B,0x16A,0x16B,2,-1},{0x16C,0x16C,0x16D,1,-1},
{0x16D,0x16C,0x16D,2,-1},{0x16E,0x16E,0x16F,1,-1},{0x16F,0x16E,0x16F,2,-1},{0x170,0x170,0x171,1,-1},{0x171,0x170,0x171,2,-1},{0x172,0x172,0x173,1,-1},
{0x173,0x172,0x173,2,-1},{0x174,0x174,0x175,1,-1},{0x175,0x174,0x175,2,-1},{0x176,0x176,0x177,1,-1},{0x177,0x176,0x177,2,-1},{0x178,0x178,0xFF,1,-1},
{0x179,0x179,0x17A,1,-1},{0x17A,0x179,0x17A,2,-1},{0x17B,0x17B,0x17C,1,-1},{0x17C,0x17B,0x17C,2,-1},{0x17D,0x17D,0x17E,1,-1},{0x17E,0x17D,0x17E,2,-1},
{0x17F,0x53,0x17F,2,-1},{0x180,0x243,0x180,2,-1},{0x181,0x181,0x253,1,-1},{0x182,0x182,0x183,1,-1},{0x183,0x182,0x183,2,-1},{0x184,0x184,0x185,1,-1},
{0x185,0x184,0x185,2,-1},{0x186,0x186,0x254,1,-1},{0x187,0x187,0x188,1,-1},{0x188,0x187,0x188,2,-1},{0x189,0x189,0x256,1,-1},{0x18A,0x18A,0x257,1,-1},
{0x18B,0x18B,0x18C,1,-1},{0x18C,0x18B,0x18C,2,-1},{0x18D,0x18D,0x18D,2,-1},{0x18E,0x18E,0x1DD,1,-1},{0x18F,0x18F,0x259,1,-1},{0x190,0x190,0x25B,1,-1},
{0x191,0x191,0x192,1,-1},{0x192,0x191,0x192,2,-1},{0x193,0x193,0x260,1,-1},{0x194,0x194,0x263,1,-1},{0x195,0x1F6,0x195,2,-1},{0x196,0x196,0x269,1,-1},
{0x197,0x197,0x268,1,-1},{0x198,0x198,0x199,1,-1},{0x199,0x198,0x199,2,-1},{0x19A,0x23D,0x19A,2,-1},{0x19B,0x19B,0x19B,2,-1},{0x19C,0x19C,0x26F,1,-1},
{0x19D,0x19D,0x272,1,-1},{0x19E,0x220,0x19E,2,-1},{0x19F,0x19F,0x275,1,-1},{0x1A0,0x1A0,0x1A1,1,-1},{0x1A1,0x1A0,0x1A1,2,-1},{0x1A2,0x1A2,0x1A3,1,-1},
{0x1A3,0x1A2,0x1A3,2,-1},{0x1A4,0x1A4,0x1A5,1,-1},{0x1A5,0x1A4,0x1A5,2,-1},{0x1A6,0x1A6,0x280,1,-1},{0x1A7,0x1A7,0x1A8,1,-1},{0x1A8,0x1A7,0x1A8,2,-1},
{0x1A9,0x1A9,0x283,1,-1},{0x1AA,0x1AA,0x1AA,2,-1},{0x1AB,0x1AB,0x1AB,2,-1},{0x1AC,0x1AC,0x1AD,1,-1},{0x1AD,0x1AC,0x1AD,2,-1},{0x1AE,0x1AE,0x288,1,-1},
{0x1AF,0x1AF,0x1B0,1,-1},{0x1B0,0x1AF,0x1B0,2,-1},{0x1B1,0x1B1,0x28A,1,-1},{0x1B2,0x1B2,0x28B,1,-1},{0x1B3,0x1B3,0x1B4,1,-1},{0x1B4,0x1B3,0x1B4,2,-1},
{0x1B5,0x1B5,0x1B6,1,-1},{0x1B6,0x1B5,0x1B6,2,-1},{0x1B7,0x1B7,0x292,1,-1},{0x1B8,0x1B8,0x1B9,1,-1},{0x1B9,0x1B8,0x1B9,2,-1},{0x1BA,0x1BA,0x1BA,2,-1},
{0x1BC,0x1BC,0x1BD,1,-1},{0x1BD,0x1BC,0x1BD,2,-1},{0x1BE,0x1BE,0x1BE,2,-1},{0x1BF,0x1F7,0x1BF,2,-1},{0x1C4,0x1C4,0x1C6,1,-1},{0x1C5,0x1C4,0x1C6,3,-1},
{0x1C6,0x1C4,0x1C6,2,-1},{0x1C7,0x1C7,0x1C9,1,-1},{0x1C8,0x1C7,0x1C9,3,-1},{0x1C9,0x1C7,0x1C9,2,-1},{0x1CA,0x1CA,0x1CC,1,-1},{0x1CB,0x1CA,0x1CC,3,-1},
{0x1CC,0x1CA,0x1CC,2,-1},{0x1CD,0x1CD,0x1CE,1,-1},{0x1CE,0x1CD,0x1CE,2,-1},{0x1CF,0x1CF,0x1D0,1,-1},{0x1D0,0x1CF,0x1D0,2,-1},{0x1D1,0x1D1,0x1D2,1,-1},
{0x1D2,0x1D1,0x1D2,2,-1},{0x1D3,0x1D3,0x1D4,1,-1},{0x1D4,0x1D3,0x1D4,2,-1},{0x1D5,0x1D5,0x1D6,1,-1},{0x1D6,0x1D5,0x1D6,2,-1},{0x1D7,0x1D7,0x1D8,1,-1},
{0x1D8,0x1D7,0x1D8,2,-1},{0x1D9,0x1D9,0x1DA,1,-1},{0x1DA,0x1D9,0x1DA,2,-1},{0x1DB,0x1DB,0x1DC,1,-1},{0x1DC,0x1DB,0x1DC,2,-1},{0x1DD,0x18E,0x1DD,2,-1},
{0x1DE,0x1DE,0x1DF,1,-1},{0x1DF,0x1DE,0x1DF,2,-1},{0x1E0,0x1E0,0x1E1,1,-1},{0x1E1,0x1E0,0x1E1,2,-1},{0x1E2,0x1E2,0x1E3,1,-1},{0x1E3,0x1E2,0x1E3,2,-1},
{0x1E4,0x1E4,0x1E5,1,-1},{0x1E5,0x1E4,0x1E5,2,-1},{0x1E6,0x1E6,0x1E7,1,-1},{0x1E7,0x1E6,0x1E7,2,-1},{0x1E8,0x1E8,0x1E9,1,-1},{0x1E9,0x1E8,0x1E9,2,-1},
{0x1EA,0x1EA,0x1EB,1,-1},{0x1EB,0x1EA,0x1EB,2,-1},{0x1EC,0x1EC,0x1ED,1,-1},{0x1ED,0x1EC,0x1ED,2,-1},{0x1EE,0x1EE,0x1EF,1,-1},{0x1EF,0x1EE,0x1EF,2,-1},
{0x1F0,0x1F0,0x1F0,2,-1},{0x1F1,0x1F1,0x1F3,1,-1},{0x1F2,0x1F1,0x1F3,3,-1},{0x1F3,0x1F1,0x1F3,2,-1},{0x1F4,0x1F4,0x1F5,1,-1},{0x1F5,0x1F4,0x1F5,2,-1},
{0x1F6,0x1F6,0x195,1,-1},{0x1F7,0x1F7,0x1BF,1,-1},{0x1F8,0x1F8,0x1F9,1,-1},{0x1F9,0x1F8,0x1F9,2,-1},{0x1FA,0x1FA,0x1FB,1,-1},{0x1FB,0x1FA,0x1FB,2,-1},
{0x1FC,0x1FC,0x1FD,1,-1},{0x1FD,0x1FC,0x1FD,2,-1},{0x1FE,0x1FE,0x1FF,1,-1},{0x1FF,0x1FE,0x1FF,2,-1},{0x200,0x200,0x201,1,-1},{0x201,0x200,0x201,2,-1},
{0x202,0x202,0x203,1,-1},{0x203,0x202,0x203,2,-1},{0x204,0x204,0x205,1,-1},{0x205,0x204,0x205,2,-1},{0x206,0x206,0x207,1,-1},{0x207,0x206,0x207,2,-1},
{0x208,0x208,0x209,1,-1},{0x209,0x208,0x209,2,-1},{0x20A,0x20A,0x20B,1,-1},{0x20B,0x20A,0x20B,2,-1},{0x20C,0x20C,0x20D,1,-1},{0x20D,0x20C,0x20D,2,-1},
{0x20E,0x20E,0x20F,1,-1},{0x20F,0x20E,0x20F,2,-1},{0x210,0x210,0x211,1,-1},{0x211,0x210,0x211,2,-1},{0x212,0x212,0x213,1,-1},{0x213,0x212,0x213,2,-1},
{0x214,0x214,0x215,1,-1},{0x215,0x214,0x215,2,-1},{0x216,0x216,0x217,1,-1},{0x217,0x216,0x217,2,-1},{0x218,0x218,0x219,1,-1},{0x219,0x218,0x219,2,-1},
{0x21A,0x21A,0x21B,1,-1},{0x21B,0x21A,0x21B,2,-1},{0x21C,0x21C,0x21D,1,-1},{0x21D,0x21C,0x21D,2,-1},{0x21E,0x21E,0x21F,1,-1},{0x21F,0x21E,0x21F,2,-1},
{0x220,0x220,0x19E,1,-1},{0x221,0x221,0x221,2,-1},{0x222,0x222,0x223,1,-1},{0x223,0x222,0x223,2,-1},{0x224,0x224,0x225,1,-1},{0x225,0x224,0x225,2,-1},
{0x226,0x226,0x227,1,-1},{0x227,0x226,0x227,2,-1},{0x228,0x228,0x229,1,-1},{0x229,0x228,0x229,2,-1},{0x22A,0x22A,0x22B,1,-1},{0x22B,0x22A,0x22B,2,-1},
{0x22C,0x22C,0x22D,1,-1},{0x22D,0x22C,0x22D,2,-1},{0x22E,0x22E,0x22F,1,-1},{0x22F,0x22E,0x22F,2,-1},{0x230,0x230,0x231,1,-1},{0x231,0x230,0x231,2,-1},
{0x232,0x232,0x233,1,-1},{0x233,0x232,0x233,2,-1},{0x234,0x234,0x234,2,-1},{0x235,0x235,0x235,2,-1},{0x236,0x236,0x236,2,-1},{0x237,0x237,0x237,2,-1},
{0x238,0x238,0x238,2,-1},{0x239,0x239,0x239,2,-1},{0x23A,0x23A,0x2C65,1,-1},{0x23B,0x23B,0x23C,1,-1},{0x23C,0x23B,0x23C,2,-1},{0x23D,0x23D,0x19A,1,-1},
{0x23E,0x23E,0x2C66,1,-1},{0x23F,0x2C7E,0x23F,2,-1},{0x240,0x2C7F,0x240,2,-1},{0x241,0x241,0x242,1,-1},{0x242,0x241,0x242,2,-1},{0x243,0x243,0x180,1,-1},
{0x244,0x244,0x289,1,-1},{0x245,0x245,0x28C,1,-1},{0x246,0x246,0x247,1,-1},{0x247,0x246,0x247,2,-1},{0x248,0x248,0x249,1,-1},{0x249,0x248,0x249,2,-1},
{0x24A,0x24A,0x24B,1,-1},{0x24B,0x24A,0x24B,2,-1},{0x24C,0x24C,0x24D,1,-1},{0x24D,0x24C,0x24D,2,-1},{0x24E,0x24E,0x24F,1,-1},{0x24F,0x24E,0x24F,2,-1},
{0x250,0x2C6F,0x250,2,-1},{0x251,0x2C6D,0x251,2,-1},{0x252,0x2C70,0x252,2,-1},{0x253,0x181,0x253,2,-1},{0x254,0x186,0x254,2,-1},{0x255,0x255,0x255,2,-1},
{0x256,0x189,0x256,2,-1},{0x257,0x18A,0x257,2,-1},{0x258,0x258,0x258,2,-1},{0x259,0x18F,0x259,2,-1},{0x25A,0x25A,0x25A,2,-1},{0x25B,0x190,0x25B,2,-1},
{0x25C,0xA7AB,0x25C,2,-1},{0x25D,0x25D,0x25D,2,-1},{0x25E,0x25E,0x25E,2,-1},{0x25F,0x25F,0x25F,2,-1},{0x260,0x193,0x260,2,-1},{0x261,0xA7AC,0x261,2,-1},
{0x262,0x262,0x262,2,-1},{0x263,0x194,0x263,2,-1},{0x264,0x264,0x264,2,-1},{0x265,0xA78D,0x265,2,-1},{0x266,0xA7AA,0x266,2,-1},{0x267,0x267,0x267,2,-1},
{0x268,0x197,0x268,2,-1},{0x269,0x196,0x269,2,-1},{0x26A,0xA7AE,0x26A,2,-1},{0x26B,0x2C62,0x26B,2,-1},{0x26C,0xA7AD,0x26C,2,-1},{0x26D,0x26D,0x26D,2,-1},
{0x26E,0x26E,0x26E,2,-1},{0x26F,0x19C,0x26F,2,-1},{0x270,0x270,0x270,2,-1},{0x271,0x2C6E,0x271,2,-1},{0x272,0x19D,0x272,2,-1},{0x273,0x273,0x273,2,-1},
{0x274,0x274,0x274,2,-1},{0x275,0x19F,0x275,2,-1},{0x276,0x276,0x276,2,-1},{0x277,0x277,0x277,2,-1},{0x278,0x278,0x278,2,-1},{0x279,0x279,0x279,2,-1},
{0x27A,0x27A,0x27A,2,-1},{0x27B,0x27B,0x27B,2,-1},{0x27C,0x27C,0x27C,2,-1},{0x27D,0x2C64,0x27D,2,-1},{0x27E,0x27E,0x27E,2,-1},{0x27F,0x27F,0x27F,2,-1},
{0x280,0x1A6,0x280,2,-1},{0x281,0x281,0x281,2,-1},{0x282,0xA7C5,0x282,2,-1},{0x283,0x1A9,0x283,2,-1},{0x284,0x284,0x284,2,-1},{0x285,0x285,0x285,2,-1},
{0x286,0x286,0x286,2,-1},{0x287,0xA7B1,0x287,2,-1},{0x288,0x1AE,0x288,2,-1},{0x289,0x244,0x289,2,-1},{0x28A,0x1B1,0x28A,2,-1},{0x28B,0x1B2,0x28B,2,-1},
{0x28C,0x245,0x28C,2,-1},{0x28D,0x28D,0x28D,2,-1},{0x28E,0x28E,0x28E,2,-1},{0x28F,0x28F,0x28F,2,-1},{0x290,0x290,0x290,2,-1},{0x291,0x291,0x291,2,-1},
{0x292,0x1B7,0x292,2,-1},{0x293,0x293,0x293,2,-1},{0x295,0x295,0x295,2,-1},{0x296,0x296,0x296,2,-1},{0x297,0x297,0x297,2,-1},{0x298,0x298,0x298,2,-1},
{0x299,0x299,0x299,2,-1},{0x29A,0x29A,0x29A,2,-1},{0x29B,0x29B,0x29B,2,-1},{0x29C,0x29C,0x29C,2,-1},{0x29D,0xA7B2,0x29D,2,-1},{0x29E,0xA7B0,0x29E,2,-1},
{0x29F,0x29F,0x29F,2,-1},{0x2A0,0x2A0,0x2A0,2,-1},{0x2A1,0x2A1,0x2A1,2,-1},{0x2A2,0x2A2,0x2A2,2,-1},{0x2A3,0x2A3,0x2A3,2,-1},{0x2A4,0x2A4,0x2A4,2,-1},
{0x2A5,0x2A5,0x2A5,2,-1},{0x2A6,0x2A6,0x2A6,2,-1},{0x2A7,0x2A7,0x2A7,2,-1},{0x2A8,0x2A8,0x2A8,2,-1},{0x2A9,0x2A9,0x2A9,2,-1},{0x2AA,0x2AA,0x2AA,2,-1},
{0x2AB,0x2AB,0x2AB,2,-1},{0x2AC,0x2AC,0x2AC,2,-1},{0x2AD,0x2AD,0x2AD,2,-1},{0x2AE,0x2AE,0x2AE,2,-1},{0x2AF,0x2AF,0x2AF,2,-1},{0x345,0x399,0x345,0,-1},
{0x370,0x370,0x371,1,-1},{0x371,0x370,0x371,2,-1},{0x372,0x372,0x373,1,-1},{0x373,0x372,0x373,2,-1},{0x376,0x376,0x377,1,-1},{0x377,0x376,0x377,2,-1},
{0x37B,0x3FD,0x37B,2,-1},{0x37C,0x3FE,0x37C,2,-1},{0x37D,0x3FF,0x37D,2,-1},{0x37F,0x37F,0x3F3,1,-1},{0x386,0x386,0x3AC,1,-1},{0x388,0x388,0x3AD,1,-1},
{0x389,0x389,0x3AE,1,-1},{0x38A,0x38A,0x3AF,1,-1},{0x38C,0x38C,0x3CC,1,-1},{0x38E,0x38E,0x3CD,1,-1},{0x38F,0x38F,0x3CE,1,-1},{0x390,0x390,0x390,2,-1},
{0x391,0x391,0x3B1,1,-1},{0x392,0x392,0x3B2,1,-1},{0x393,0x393,0x3B3,1,-1},{0x394,0x394,0x3B4,1,-1},{0x395,0x395,0x3B5,1,-1},{0x396,0x396,0x3B6,1,-1},
{0x397,0x397,0x3B7,1,-1},{0x398,0x398,0x3B8,1,-1},{0x399,0x399,0x3B9,1,-1},{0x39A,0x39A,0x3BA,1,-1},{0x39B,0x39B,0x3BB,1,-1},{0x39C,0x39C,0x3BC,1,-1},
{0x39D,0x39D,0x3BD,1,-1},{0x39E,0x39E,0x3BE,1,-1},{0x39F,0x39F,0x3BF,1,-1},{0x3A0,0x3A0,0x3C0,1,-1},{0x3A1,0x3A1,0x3C1,1,-1},{0x3A3,0x3A3,0x3C3,1,-1},
{0x3A4,0x3A4,0x3C4,1,-1},{0x3A5,0x3A5,0x3C5,1,-1},{0x3A6,0x3A6,0x3C6,1,-1},{0x3A7,0x3A7,0x3C7,1,-1},{0x3A8,0x3A8,0x3C8,1,-1},{0x3A9,0x3A9,0x3C9,1,-1},
{0x3AA,0x3AA,0x3CA,1,-1},{0x3AB,0x3AB,0x3CB,1,-1},{0x3AC,0x386,0x3AC,2,-1},{0x3AD,0x388,0x3AD,2,-1},{0x3AE,0x389,0x3AE,2,-1},{0x3AF,0x38A,0x3AF,2,-1},
{0x3B0,0x3B0,0x3B0,2,-1},{0x3B1,0x391,0x3B1,2,-1},{0x3B2,0x392,0x3B2,2,-1},{0x3B3,0x393,0x3B3,2,-1},{0x3B4,0x394,0x3B4,2,-1},{0x3B5,0x395,0x3B5,2,-1},
{0x3B6,0x396,0x3B6,2,-1},{0x3B7,0x397,0x3B7,2,-1},{0x3B8,0x398,0x3B8,2,-1},{0x3B9,0x399,0x3B9,2,-1},{0x3BA,0x39A,0x3BA,2,-1},{0x3BB,0x39B,0x3BB,2,-1},
{0x3BC,0x39C,0x3BC,2,-1},{0x3BD,0x39D,0x3BD,2,-1},{0x3BE,0x39E,0x3BE,2,-1},{0x3BF,0x39F,0x3BF,2,-1},{0x3C0,0x3A0,0x3C0,2,-1},{0x3C1,0x3A1,0x3C1,2,-1},
{0x3C2,0x3A3,0x3C2,2,-1},{0x3C3,0x3A3,0x3C3,2,-1},{0x3C4,0x3A4,0x3C4,2,-1},{0x3C5,0x3A5,0x3C5,2,-1},{0x3C6,0x3A6,0x3C6,2,-1},{0x3C7,0x3A7,0x3C7,2,-1},
{0x3C8,0x3A8,0x3C8,2,-1},{0x3C9,0x3A9,0x3C9,2,-1},{0x3CA,0x3AA,0x3CA,2,-1},{0x3CB,0x3AB,0x3CB,2,-1},{0x3CC,0x38C,0x3CC,2,-1},{0x3CD,0x38E,0x3CD,2,-1},
{0x3CE,0x38F,0x3CE,2,-1},{0x3CF,0x3CF,0x3D7,1,-1},{0x3D0,0x392,0x3D0,2,-1},{0x3D1,0x398,0x3D1,2,-1},{0x3D2,0x3D2,0x3D2,1,-1},{0x3D3,0x3D3,0x3D3,1,-1},
{0x3D4,0x3D4,0x3D4,1,-1},{0x3D5,0x3A6,0x3D5,2,-1},{0x3D6,0x3A0,0x3D6,2,-1},{0x3D7,0x3CF,0x3D7,2,-1},{0x3D8,0x3D8,0x3D9,1,-1},{0x3D9,0x3D8,0x3D9,2,-1},
{0x3DA,0x3DA,0x3DB,1,-1},{0x3DB,0x3DA,0x3DB,2,-1},{0x3DC,0x3DC,0x3DD,1,-1},{0x3DD,0x3DC,0x3DD,2,-1},{0x3DE,0x3DE,0x3DF,1,-1},{0x3DF,0x3DE,0x3DF,2,-1},
{0x3E0,0x3E0,0x3E1,1,-1},{0x3E1,0x3E0,0x3E1,2,-1},{0x3E2,0x3E2,0x3E3,1,-1},{0x3E3,0x3E2,0x3E3,2,-1},{0x3E4,0x3E4,0x3E5,1,-1},{0x3E5,0x3E4,0x3E5,2,-1},
{0x3E6,0x3E6,0x3E7,1,-1},{0x3E7,0x3E6,0x3E7,2,-1},{0x3E8,0x3E8,0x3E9,1,-1},{0x3E9,0x3E8,0x3E9,2,-1},{0x3EA,0x3EA,0x3EB,1,-1},{0x3EB,0x3EA,0x3EB,2,-1},
{0x3EC,0x3EC,0x3ED,1,-1},{0x3ED,0x3EC,0x3ED,2,-1},{0x3EE,0x3EE,0x3EF,1,-1},{0x3EF,0x3EE,0x3EF,2,-1},{0x3F0,0x39A,0x3F0,2,-1},{0x3F1,0x3A1,0x3F1,2,-1},
{0x3F2,0x3F9,0x3F2,2,-1},{0x3F3,0x37F,0x3F3,2,-1},{0x3F4,0x3F4,0x3B8,1,-1},{0x3F5,0x395,0x3F5,2,-1},{0x3F7,0x3F7,0x3F8,1,-1},{0x3F8,0x3F7,0x3F8,2,-1},
{0x3F9,0x3F9,0x3F2,1,-1},{0x3FA,0x3FA,0x3FB,1,-1},{0x3FB,0x3FA,0x3FB,2,-1},{0x3FC,0x3FC,0x3FC,2,-1},{0x3FD,0x3FD,0x37B,1,-1},{0x3FE,0x3FE,0x37C,1,-1},
{0x3FF,0x3FF,0x37D,1,-1},{0x400,0x400,0x450,1,-1},{0x401,0x401,0x451,1,-1},{0x402,0x402,0x452,1,-1},{0x403,0x403,0x453,1,-1},{0x404,0x404,0x454,1,-1},
{0x405,0x405,0x455,1,-1},{0x406,0x406,0x456,1,-1},{0x407,0x407,0x457,1,-1},{0x408,0x408,0x458,1,-1},{0x409,0x409,0x459,1,-1},{0x40A,0x40A,0x45A,1,-1},
{0x40B,0x40B,0x45B,1,-1},{0x40C,0x40C,0x45C,1,-1},{0x40D,0x40D,0x45D,1,-1},{0x40E,0x40E,0x45E,1,-1},{0x40F,0x40F,0x45F,1,-1},{0x410,0x410,0x430,1,-1},
{0x411,0x411,0x431,1,-1},{0x412,0x412,0x432,1,-1},{0x413,0x413,0x433,1,-1},{0x414,0x414,0x434,1,-1},{0x415,0x415,0x435,1,-1},{0x416,0x416,0x436,1,-1},
{0x417,0x417,0x437,1,-1},{0x418,0x418,0x438,1,-1},{0x419,0x419,0x439,1,-1},{0x41A,0x41A,0x43A,1,-1},{0x41B,0x41B,0x43B,1,-1},{0x41C,0x41C,0x43C,1,-1},
{0x41D,0x41D,0x43D,1,-1},{0x41E,0x41E,0x43E,1,-1},{0x41F,0x41F,0x43F,1,-1},{0x420,0x420,0x440,1,-1},{0x421,0x421,0x441,1,-1},{0x422,0x422,0x442,1,-1},
{0x423,0x423,0x443,1,-1},{0x424,0x424,0x444,1,-1},{0x425,0x425,0x445,1,-1},{0x426,0x426,0x446,1,-1},{0x427,0x427,0x447,1,-1},{0x428,0x428,0x448,1,-1},
{0x429,0x429,0x449,1,-1},{0x42A,0x42A,0x44A,1,-1},{0x42B,0x42B,0x44B,1,-1},{0x42C,0x42C,0x44C,1,-1},{0x42D,0x42D,0x44D,1,-1},{0x42E,0x42E,0x44E,1,-1},
{0x42F,0x42F,0x44F,1,-1},{0x430,0x410,0x430,2,-1},{0x431,0x411,0x431,2,-1},{0x432,0x412,0x432,2,-1},{0x433,0x413,0x433,2,-1},{0x434,0x414,0x434,2,-1},
{0x435,0x415,0x435,2,-1},{0x436,0x416,0x436,2,-1},{0x437,0x417,0x437,2,-1},{0x438,0x418,0x438,2,-1},{0x439,0x419,0x439,2,-1},{0x43A,0x41A,0x43A,2,-1},
{0x43B,0x41B,0x43B,2,-1},{0x43C,0x41C,0x43C,2,-1},{0x43D,0x41D,0x43D,2,-1},{0x43E,0x41E,0x43E,2,-1},{0x43F,0x41F,0x43F,2,-1},{0x440,0x420,0x440,2,-1},
{0x441,0x421,0x441,2,-1},{0x442,0x422,0x442,2,-1},{0x443,0x423,0x443,2,-1},{0x444,0x424,0x444,2,-1},{0x445,0x425,0x445,2,-1},{0x446,0x426,0x446,2,-1},
{0x447,0x427,0x447,2,-1},{0x448,0x428,0x448,2,-1},{0x449,0x429,0x449,2,-1},{0x44A,0x42A,0x44A,2,-1},{0x44B,0x42B,0x44B,2,-1},{0x44C,0x42C,0x44C,2,-1},
{0x44D,0x42D,0x44D,2,-1},{0x44E,0x42E,0x44E,2,-1},{0x44F,0x42F,0x44F,2,-1},{0x450,0x400,0x450,2,-1},{0x451,0x401,0x451,2,-1},{0x452,0x402,0x452,2,-1},
{0x453,0x403,0x453,2,-1},{0x454,0x404,0x454,2,-1},{0x455,0x405,0x455,2,-1},{0x456,0x406,0x456,2,-1},{0x457,0x407,0x457,2,-1},{0x458,0x408,0x458,2,-1},
{0x459,0x409,0x459,2,-1},{0x45A,0x40A,0x45A,2,-1},{0x45B,0x40B,0x45B,2,-1},{0x45C,0x40C,0x45C,2,-1},{0x45D,0x40D,0x45D,2,-1},{0x45E,0x40E,0x45E,2,-1},
{0x45F,0x40F,0x45F,2,-1},{0x460,0x460,0x461,1,-1},{0x461,0x460,0x461,2,-1},{0x462,0x462,0x463,1,-1},{0x463,0x462,0x463,2,-1},{0x464,0x464,0x465,1,-1},
{0x465,0x464,0x465,2,-1},{0x466,0x466,0x467,1,-1},{0x467,0x466,0x467,2,-1},{0x468,0x468,0x469,1,-1},{0x469,0x468,0x469,2,-1},{0x46A,0x46A,0x46B,1,-1},
{0x46B,0x46A,0x46B,2,-1},{0x46C,0x46C,0x46D,1,-1},{0x46D,0x46C,0x46D,2,-1},{0x46E,0x46E,0x46F,1,-1},{0x46F,0x46E,0x46F,2,-1},{0x470,0x470,0x471,1,-1},
{0x471,0x470,0x471,2,-1},{0x472,0x472,0x473,1,-1},{0x473,0x472,0x473,2,-1},{0x474,0x474,0x475,1,-1},{0x475,0x474,0x475,2,-1},{0x476,0x476,0x477,1,-1},
{0x477,0x476,0x477,2,-1},{0x478,0x478,0x479,1,-1},{0x479,0x478,0x479,2,-1},{0x47A,0x47A,0x47B,1,-1},{0x47B,0x47A,0x47B,2,-1},{0x47C,0x47C,0x47D,1,-1},
{0x47D,0x47C,0x47D,2,-1},{0x47E,0x47E,0x47F,1,-1},{0x47F,0x47E,0x47F,2,-1},{0x480,0x480,0x481,1,-1},{0x481,0x480,0x481,2,-1},{0x48A,0x48A,0x48B,1,-1},
{0x48B,0x48A,0x48B,2,-1},{0x48C,0x48C,0x48D,1,-1},{0x48D,0x48C,0x48D,2,-1},{0x48E,0x48E,0x48F,1,-1},{0x48F,0x48E,0x48F,2,-1},{0x490,0x490,0x491,1,-1},
{0x491,0x490,0x491,2,-1},{0x492,0x492,0x493,1,-1},{0x493,0x492,0x493,2,-1},{0x494,0x494,0x495,1,-1},{0x495,0x494,0x495,2,-1},{0x496,0x496,0x497,1,-1},
{0x497,0x496,0x497,2,-1},{0x498,0x498,0x499,1,-1},{0x499,0x498,0x499,2,-1},{0x49A,0x49A,0x49B,1,-1},{0x49B,0x49A,0x49B,2,-1},{0x49C,0x49C,0x49D,1,-1},
{0x49D,0x49C,0x49D,2,-1},{0x49E,0x49E,0x49F,1,-1},{0x49F,0x49E,0x49F,2,-1},{0x4A0,0x4A0,0x4A1,1,-1},{0x4A1,0x4A0,0x4A1,2,-1},{0x4A2,0x4A2,0x4A3,1,-1},
{0x4A3,0x4A2,0x4A3,2,-1},{0x4A4,0x4A4,0x4A5,1,-1},{0x4A5,0x4A4,0x4A5,2,-1},{0x4A6,0x4A6,0x4A7,1,-1},{0x4A7,0x4A6,0x4A7,2,-1},{0x4A8,0x4A8,0x4A9,1,-1},
{0x4A9,0x4A8,0x4A9,2,-1},{0x4AA,0x4AA,0x4AB,1,-1},{0x4AB,0x4AA,0x4AB,2,-1},{0x4AC,0x4AC,0x4AD,1,-1},{0x4AD,0x4AC,0x4AD,2,-1},{0x4AE,0x4AE,0x4AF,1,-1},
{0x4AF,0x4AE,0x4AF,2,-1},{0x4B0,0x4B0,0x4B1,1,-1},{0x4B1,0x4B0,0x4B1,2,-1},{0x4B2,0x4B2,0x4B3,1,-1},{0x4B3,0x4B2,0x4B3,2,-1},{0x4B4,0x4B4,0x4B5,1,-1},
{0x4B5,0x4B4,0x4B5,2,-1},{0x4B6,0x4B6,0x4B7,1,-1},{0x4B7,0x4B6,0x4B7,2,-1},{0x4B8,0x4B8,0x4B9,1,-1},{0x4B9,0x4B8,0x4B9,2,-1},{0x4BA,0x4BA,0x4BB,1,-1},
{0x4BB,0x4BA,0x4BB,2,-1},{0x4BC,0x4BC,0x4BD,1,-1},{0x4BD,0x4BC,0x4BD,2,-1},{0x4BE,0x4BE,0x4BF,1,-1},{0x4BF,0x4BE,0x4BF,2,-1},{0x4C0,0x4C0,0x4CF,1,-1},
{0x4C1,0x4C1,0x4C2,1,-1},{0x4C2,0x4C1,0x4C2,2,-1},{0x4C3,0x4C3,0x4C4,1,-1},{0x4C4,0x4C3,0x4C4,2,-1},{0x4C5,0x4C5,0x4C6,1,-1},{0x4C6,0x4C5,0x4C6,2,-1},
{0x4C7,0x4C7,0x4C8,1,-1},{0x4C8,0x4C7,0x4C8,2,-1},{0x4C9,0x4C9,0x4CA,1,-1},{0x4CA,0x4C9,0x4CA,2,-1},{0x4CB,0x4CB,0x4CC,1,-1},{0x4CC,0x4CB,0x4CC,2,-1},
{0x4CD,0x4CD,0x4CE,1,-1},{0x4CE,0x4CD,0x4CE,2,-1},{0x4CF,0x4C0,0x4CF,2,-1},{0x4D0,0x4D0,0x4D1,1,-1},{0x4D1,0x4D0,0x4D1,2,-1},{0x4D2,0x4D2,0x4D3,1,-1},
{0x4D3,0x4D2,0x4D3,2,-1},{0x4D4,0x4D4,0x4D5,1,-1},{0x4D5,0x4D4,0x4D5,2,-1},{0x4D6,0x4D6,0x4D7,1,-1},{0x4D7,0x4D6,0x4D7,2,-1},{0x4D8,0x4D8,0x4D9,1,-1},
{0x4D9,0x4D8,0x4D9,2,-1},{0x4DA,0x4DA,0x4DB,1,-1},{0x4DB,0x4DA,0x4DB,2,-1},{0x4DC,0x4DC,0x4DD,1,-1},{0x4DD,0x4DC,0x4DD,2,-1},{0x4DE,0x4DE,0x4DF,1,-1},
{0x4DF,0x4DE,0x4DF,2,-1},{0x4E0,0x4E0,0x4E1,1,-1},{0x4E1,0x4E0,0x4E1,2,-1},{0x4E2,0x4E2,0x4E3,1,-1},{0x4E3,0x4E2,0x4E3,2,-1},{0x4E4,0x4E4,0x4E5,1,-1},
{0x4E5,0x4E4,0x4E5,2,-1},{0x4E6,0x4E6,0x4E7,1,-1},{0x4E7,0x4E6,0x4E7,2,-1},{0x4E8,0x4E8,0x4E9,1,-1},{0x4E9,0x4E8,0x4E9,2,-1},{0x4EA,0x4EA,0x4EB,1,-1},
{0x4EB,0x4EA,0x4EB,2,-1},{0x4EC,0x4EC,0x4ED,1,-1},{0x4ED,0x4EC,0x4ED,2,-1},{0x4EE,0x4EE,0x4EF,1,-1},{0x4EF,0x4EE,0x4EF,2,-1},{0x4F0,0x4F0,0x4F1,1,-1},
{0x4F1,0x4F0,0x4F1,2,-1},{0x4F2,0x4F2,0x4F3,1,-1},{0x4F3,0x4F2,0x4F3,2,-1},{0x4F4,0x4F4,0x4F5,1,-1},{0x4F5,0x4F4,0x4F5,2,-1},{0x4F6,0x4F6,0x4F7,1,-1},
{0x4F7,0x4F6,0x4F7,2,-1},{0x4F8,0x4F8,0x4F9,1,-1},{0x4F9,0x4F8,0x4F9,2,-1},{0x4FA,0x4FA,0x4FB,1,-1},{0x4FB,0x4FA,0x4FB,2,-1},{0x4FC,0x4FC,0x4FD,1,-1},
{0x4FD,0x4FC,0x4FD,2,-1},{0x4FE,0x4FE,0x4FF,1,-1},{0x4FF,0x4FE,0x4FF,2,-1},{0x500,0x500,0x501,1,-1},{0x501,0x500,0x501,2,-1},{0x502,0x502,0x503,1,-1},
{0x503,0x502,0x503,2,-1},{0x504,0x504,0x505,1,-1},{0x505,0x504,0x505,2,-1},{0x506,0x506,0x507,1,-1},{0x507,0x506,0x507,2,-1},{0x508,0x508,0x509,1,-1},
{0x509,0x508,0x509,2,-1},{0x50A,0x50A,0x50B,1,-1},{0x50B,0x50A,0x50B,2,-1},{0x50C,0x50C,0x50D,1,-1},{0x50D,0x50C,0x50D,2,-1},{0x50E,0x50E,0x50F,1,-1},
{0x50F,0x50E,0x50F,2,-1},{0x510,0x510,0x511,1,-1},{0x511,0x510,0x511,2,-1},{0x512,0x512,0x513,1,-1},{0x513,0x512,0x513,2,-1},{0x514,0x514,0x515,1,-1},
{0x515,0x514,0x515,2,-1},{0x516,0x516,0x517,1,-1},{0x517,0x516,0x517,2,-1},{0x518,0x518,0x519,1,-1},{0x519,0x518,0x519,2,-1},{0x51A,0x51A,0x51B,1,-1},
{0x51B,0x51A,0x51B,2,-1},{0x51C,0x51C,0x51D,1,-1},{0x51D,0x51C,0x51D,2,-1},{0x51E,0x51E,0x51F,1,-1},{0x51F,0x51E,0x51F,2,-1},{0x520,0x520,0x521,1,-1},
{0x521,0x520,0x521,2,-1},{0x522,0x522,0x523,1,-1},{0x523,0x522,0x523,2,-1},{0x524,0x524,0x525,1,-1},{0x525,0x524,0x525,2,-1},{0x526,0x526,0x527,1,-1},
{0x527,0x526,0x527,2,-1},{0x528,0x528,0x529,1,-1},{0x529,0x528,0x529,2,-1},{0x52A,0x52A,0x52B,1,-1},{0x52B,0x52A,0x52B,2,-1},{0x52C,0x52C,0x52D,1,-1},
{0x52D,0x52C,0x52D,2,-1},{0x52E,0x52E,0x52F,1,-1},{0x52F,0x52E,0x52F,2,-1},{0x531,0x531,0x561,1,-1},{0x532,0x532,0x562,1,-1},{0x533,0x533,0x563,1,-1},
{0x534,0x534,0x564,1,-1},{0x535,0x535,0x565,1,-1},{0x536,0x536,0x566,1,-1},{0x537,0x537,0x567,1,-1},{0x538,0x538,0x568,1,-1},{0x539,0x539,0x569,1,-1},
{0x53A,0x53A,0x56A,1,-1},{0x53B,0x53B,0x56B,1,-1},{0x53C,0x53C,0x56C,1,-1},{0x53D,0x53D,0x56D,1,-1},{0x53E,0x53E,0x56E,1,-1},{0x53F,0x53F,0x56F,1,-1},
{0x540,0x540,0x570,1,-1},{0x541,0x541,0x571,1,-1},{0x542,0x542,0x572,1,-1},{0x543,0x543,0x573,1,-1},{0x544,0x544,0x574,1,-1},{0x545,0x545,0x575,1,-1},
{0x546,0x546,0x576,1,-1},{0x547,0x547,0x577,1,-1},{0x548,0x548,0x578,1,-1},{0x549,0x549,0x579,1,-1},{0x54A,0x54A,0x57A,1,-1},{0x54B,0x54B,0x57B,1,-1},
{0x54C,0x54C,0x57C,1,-1},{0x54D,0x54D,0x57D,1,-1},{0x54E,0x54E,0x57E,1,-1},{0x54F,0x54F,0x57F,1,-1},{0x550,0x550,0x580,1,-1},{0x551,0x551,0x581,1,-1},
{0x552,0x552,0x582,1,-1},{0x553,0x553,0x583,1,-1},{0x554,0x554,0x584,1,-1},{0x555,0x555,0x585,1,-1},{0x556,0x556,0x586,1,-1},{0x560,0x560,0x560,2,-1},
{0x561,0x531,0x561,2,-1},{0x562,0x532,0x562,2,-1},{0x563,0x533,0x563,2,-1},{0x564,0x534,0x564,2,-1},{0x565,0x535,0x565,2,-1},{0x566,0x536,0x566,2,-1},
{0x567,0x537,0x567,2,-1},{0x568,0x538,0x568,2,-1},{0x569,0x539,0x569,2,-1},{0x56A,0x53A,0x56A,2,-1},{0x56B,0x53B,0x56B,2,-1},{0x56C,0x53C,0x56C,2,-1},
{0x56D,0x53D,0x56D,2,-1},{0x56E,0x53E,0x56E,2,-1},{0x56F,0x53F,0x56F,2,-1},{0x570,0x540,0x570,2,-1},{0x571,0x541,0x571,2,-1},{0x572,0x542,0x572,2,-1},
{0x573,0x543,0x573,2,-1},{0x574,0x544,0x574,2,-1},{0x575,0x545,0x575,2,-1},{0x576,0x546,0x576,2,-1},{0x577,0x547,0x577,2,-1},{0x578,0x548,0x578,2,-1},
{0x579,0x549,0x579,2,-1},{0x57A,0x54A,0x57A,2,-1},{0x57B,0x54B,0x57B,2,-1},{0x57C,0x54C,0x57C,2,-1},{0x57D,0x54D,0x57D,2,-1},{0x57E,0x54E,0x57E,2,-1},
{0x57F,0x54F,0x57F,2,-1},{0x580,0x550,0x580,2,-1},{0x581,0x551,0x581,2,-1},{0x582,0x552,0x582,2,-1},{0x583,0x553,0x583,2,-1},{0x584,0x554,0x584,2,-1},
{0x585,0x555,0x585,2,-1},{0x586,0x556,0x586,2,-1},{0x587,0x587,0x587,2,-1},{0x588,0x588,0x588,2,-1},{0x660,0x660,0x660,0,0},{0x661,0x661,0x661,0,1},
{0x662,0x662,0x662,0,2},{0x663,0x663,0x663,0,3},{0x664,0x664,0x664,0,4},{0x665,0x665,0x665,0,5},{0x666,0x666,0x666,0,6},{0x667,0x667,0x667,0,7},
{0x668,0x668,0x668,0,8},{0x669,0x669,0x669,0,9},{0x6F0,0x6F0,0x6F0,0,0},{0x6F1,0x6F1,0x6F1,0,1},{0x6F2,0x6F2,0x6F2,0,2},{0x6F3,0x6F3,0x6F3,0,3},
{0x6F4,0x6F4,0x6F4,0,4},{0x6F5,0x6F5,0x6F5,0,5},{0x6F6,0x6F6,0x6F6,0,6},{0x6F7,0x6F7,0x6F7,0,7},{0x6F8,0x6F8,0x6F8,0,8},{0x6F9,0x6F9,0x6F9,0,9},
{0x7C0,0x7C0,0x7C0,0,0},{0x7C1,0x7C1,0x7C1,0,1},{0x7C2,0x7C2,0x7C2,0,2},{0x7C3,0x7C3,0x7C3,0,3},{0x7C4,0x7C4,0x7C4,0,4},{0x7C5,0x7C5,0x7C5,0,5},
{0x7C6,0x7C6,0x7C6,0,6},{0x7C7,0x7C7,0x7C7,0,7},{0x7C8,0x7C8,0x7C8,0,8},{0x7C9,0x7C9,0x7C9,0,9},{0x966,0x966,0x966,0,0},{0x967,0x967,0x967,0,1},
{0x968,0x968,0x968,0,2},{0x969,0x969,0x969,0,3},{0x96A,0x96A,0x96A,0,4},{0x96B,0x96B,0x96B,0,5},{0x96C,0x96C,0x96C,0,6},{0x96D,0x96D,0x96D,0,7},
{0x96E,0x96E,0x96E,0,8},{0x96F,0x96F,0x96F,0,9},{0x9E6,0x9E6,0x9E6,0,0},{0x9E7,0x9E7,0x9E7,0,1},{0x9E8,0x9E8,0x9E8,0,2},{0x9E9,0x9E9,0x9E9,0,3},
{0x9EA,0x9EA,0x9EA,0,4},{0x9EB,0x9EB,0x9EB,0,5},{0x9EC,0x9EC,0x9EC,0,6},{0x9ED,0x9ED,0x9ED,0,7},{0x9EE,0x9EE,0x9EE,0,8},{0x9EF,0x9EF,0x9EF,0,9},
{0xA66,0xA66,0xA66,0,0},{0xA67,0xA67,0xA67,0,1},{0xA68,0xA68,0xA68,0,2},{0xA69,0xA69,0xA69,0,3},{0xA6A,0xA6A,0xA6A,0,4},{0xA6B,0xA6B,0xA6B,0,5},
{0xA6C,0xA6C,0xA6C,0,6},{0xA6D,0xA6D,0xA6D,0,7},{0xA6E,0xA6E,0xA6E,0,8},{0xA6F,0xA6F,0xA6F,0,9},{0xAE6,0xAE6,0xAE6,0,0},{0xAE7,0xAE7,0xAE7,0,1},
{0xAE8,0xAE8,0xAE8,0,2},{0xAE9,0xAE9,0xAE9,0,3},{0xAEA,0xAEA,0xAEA,0,4},{0xAEB,0xAEB,0xAEB,0,5},{0xAEC,0xAEC,0xAEC,0,6},{0xAED,0xAED,0xAED,0,7},
{0xAEE,0xAEE,0xAEE,0,8},{0xAEF,0xAEF,0xAEF,0,9},{0xB66,0xB66,0xB66,0,0},{0xB67,0xB67,0xB67,0,1},{0xB68,0xB68,0xB68,0,2},{0xB69,0xB69,0xB69,0,3},
{0xB6A,0xB6A,0xB6A,0,4},{0xB6B,0xB6B,0xB6B,0,5},{0xB6C,0xB6C,0xB6C,0,6},{0xB6D,0xB6D,0xB6D,0,7},{0xB6E,0xB6E,0xB6E,0,8},{0xB6F,0xB6F,0xB6F,0,9},
{0xBE6,0xBE6,0xBE6,0,0},{0xBE7,0xBE7,0xBE7,0,1},{0xBE8,0xBE8,0xBE8,0,2},{0xBE9,0xBE9,0xBE9,0,3},{0xBEA,0xBEA,0xBEA,0,4},{0xBEB,0xBEB,0xBEB,0,5},
{0xBEC,0xBEC,0xBEC,0,6},{0xBED,0xBED,0xBED,0,7},{0xBEE,0xBEE,0xBEE,0,8},{0xBEF,0xBEF,0xBEF,0,9},{0xC66,0xC66,0xC66,0,0},{0xC67,0xC67,0xC67,0,1},
{0xC68,0xC68,0xC68,0,2},{0xC69,0xC69,0xC69,0,3},{0xC6A,0xC6A,0xC6A,0,4},{0xC6B,0xC6B,0xC6B,0,5},{0xC6C,0xC6C,0xC6C,0,6},{0xC6D,0xC6D,0xC6D,0,7},
{0xC6E,0xC6E,0xC6E,0,8},{0xC6F,0xC6F,0xC6F,0,9},{0xCE6,0xCE6,0xCE6,0,0},{0xCE7,0xCE7,0xCE7,0,1},{0xCE8,0xCE8,0xCE8,0,2},{0xCE9,0xCE9,0xCE9,0,3},
{0xCEA,0xCEA,0xCEA,0,4},{0xCEB,0xCEB,0xCEB,0,5},{0xCEC,0xCEC,0xCEC,0,6},{0xCED,0xCED,0xCED,0,7},{0xCEE,0xCEE,0xCEE,0,8},{0xCEF,0xCEF,0xCEF,0,9},
{0xD66,0xD66,0xD66,0,0},{0xD67,0xD67,0xD67,0,1},{0xD68,0xD68,0xD68,0,2},{0xD69,0xD69,0xD69,0,3},{0xD6A,0xD6A,0xD6A,0,4},{0xD6B,0xD6B,0xD6B,0,5},
{0xD6C,0xD6C,0xD6C,0,6},{0xD6D,0xD6D,0xD6D,0,7},{0xD6E,0xD6E,0xD6E,0,8},{0xD6F,0xD6F,0xD6F,0,9},{0xDE6,0xDE6,0xDE6,0,0},{0xDE7,0xDE7,0xDE7,0,1},
{0xDE8,0xDE8,0xDE8,0,2},{0xDE9,0xDE9,0xDE9,0,3},{0xDEA,0xDEA,0xDEA,0,4},{0xDEB,0xDEB,0xDEB,0,5},{0xDEC,0xDEC,0xDEC,0,6},{0xDED,0xDED,0xDED,0,7},
{0xDEE,0xDEE,0xDEE,0,8},{0xDEF,0xDEF,0xDEF,0,9},{0xE50,0xE50,0xE50,0,0},{0xE51,0xE51,0xE51,0,1},{0xE52,0xE52,0xE52,0,2},{0xE53,0xE53,0xE53,0,3},
{0xE54,0xE54,0xE54,0,4},{0xE55,0xE55,0xE55,0,5},{0xE56,0xE56,0xE56,0,6},{0xE57,0xE57,0xE57,0,7},{0xE58,0xE58,0xE58,0,8},{0xE59,0xE59,0xE59,0,9},
{0xED0,0xED0,0xED0,0,0},{0xED1,0xED1,0xED1,0,1},{0xED2,0xED2,0xED2,0,2},{0xED3,0xED3,0xED3,0,3},{0xED4,0xED4,0xED4,0,4},{0xED5,0xED5,0xED5,0,5},
{0xED6,0xED6,0xED6,0,6},{0xED7,0xED7,0xED7,0,7},{0xED8,0xED8,0xED8,0,8},{0xED9,0xED9,0xED9,0,9},{0xF20,0xF20,0xF20,0,0},{0xF21,0xF21,0xF21,0,1},
{0xF22,0xF22,0xF22,0,2},{0xF23,0xF23,0xF23,0,3},{0xF24,0xF24,0xF24,0,4},{0xF25,0xF25,0xF25,0,5},{0xF26,0xF26,0xF26,0,6},{0xF27,0xF27,0xF27,0,7},
{0xF28,0xF28,0xF28,0,8},{0xF29,0xF29,0xF29,0,9},{0x1040,0x1040,0x1040,0,0},{0x1041,0x1041,0x1041,0,1},{0x1042,0x1042,0x1042,0,2},{0x1043,0x1043,0x1043,0,3},
{0x1044,0x1044,0x1044,0,4},{0x1045,0x1045,0x1045,0,5},{0x1046,0x1046,0x1046,0,6},{0x1047,0x1047,0x1047,0,7},{0x1048,0x1048,0x1048,0,8},{0x1049,0x1049,0x1049,0,9},
{0x1090,0x1090,0x1090,0,0},{0x1091,0x1091,0x1091,0,1},{0x1092,0x1092,0x1092,0,2},{0x1093,0x1093,0x1093,0,3},{0x1094,0x1094,0x1094,0,4},{0x1095,0x1095,0x1095,0,5},
{0x1096,0x1096,0x1096,0,6},{0x1097,0x1097,0x1097,0,7},{0x1098,0x1098,0x1098,0,8},{0x1099,0x1099,0x1099,0,9},{0x10A0,0x10A0,0x2D00,1,-1},{0x10A1,0x10A1,0x2D01,1,-1},
{0x10A2,0x10A2,0x2D02,1,-1},{0x10A3,0x10A3,0x2D03,1,-1},{0x10A4,0x10A4,0x2D04,1,-1},{0x10A5,0x10A5,0x2D05,1,-1},{0x10A6,0x10A6,0x2D06,1,-1},{0x10A7,0x10A7,0x2D07,1,-1},
{0x10A8,0x10A8,0x2D08,1,-1},{0x10A9,0x10A9,0x2D09,1,-1},{0x10AA,0x10AA,0x2D0A,1,-1},{0x10AB,0x10AB,0x2D0B,1,-1},{0x10AC,0x10AC,0x2D0C,1,-1},{0x10AD,0x10AD,0x2D0D,1,-1},
{0x10AE,0x10AE,0x2D0E,1,-1},{0x10AF,0x10AF,0x2D0F,1,-1},{0x10B0,0x10B0,0x2D10,1,-1},{0x10B1,0x10B1,0x2D11,1,-1},{0x10B2,0x10B2,0x2D12,1,-1},{0x10B3,0x10B3,0x2D13,1,-1},
{0x10B4,0x10B4,0x2D14,1,-1},{0x10B5,0x10B5,0x2D15,1,-1},{0x10B6,0x10B6,0x2D16,1,-1},{0x10B7,0x10B7,0x2D17,1,-1},{0x10B8,0x10B8,0x2D18,1,-1},{0x10B9,0x10B9,0x2D19,1,-1},
{0x10BA,0x10BA,0x2D1A,1,-1},{0x10BB,0x10BB,0x2D1B,1,-1},{0x10BC,0x10BC,0x2D1C,1,-1},{0x10BD,0x10BD,0x2D1D,1,-1},{0x10BE,0x10BE,0x2D1E,1,-1},{0x10BF,0x10BF,0x2D1F,1,-1},
{0x10C0,0x10C0,0x2D20,1,-1},{0x10C1,0x10C1,0x2D21,1,-1},{0x10C2,0x10C2,0x2D22,1,-1},{0x10C3,0x10C3,0x2D23,1,-1},{0x10C4,0x10C4,0x2D24,1,-1},{0x10C5,0x10C5,0x2D25,1,-1},
{0x10C7,0x10C7,0x2D27,1,-1},{0x10CD,0x10CD,0x2D2D,1,-1},{0x10D0,0x1C90,0x10D0,2,-1},{0x10D1,0x1C91,0x10D1,2,-1},{0x10D2,0x1C92,0x10D2,2,-1},{0x10D3,0x1C93,0x10D3,2,-1},
{0x10D4,0x1C94,0x10D4,2,-1},{0x10D5,0x1C95,0x10D5,2,-1},{0x10D6,0x1C96,0x10D6,2,-1},{0x10D7,0x1C97,0x10D7,2,-1},{0x10D8,0x1C98,0x10D8,2,-1},{0x10D9,0x1C99,0x10D9,2,-1},
{0x10DA,0x1C9A,0x10DA,2,-1},{0x10DB,0x1C9B,0x10DB,2,-1},{0x10DC,0x1C9C,0x10DC,2,-1},{0x10DD,0x1C9D,0x10DD,2,-1},{0x10DE,0x1C9E,0x10DE,2,-1},{0x10DF,0x1C9F,0x10DF,2,-1},
{0x10E0,0x1CA0,0x10E0,2,-1},{0x10E1,0x1CA1,0x10E1,2,-1},{0x10E2,0x1CA2,0x10E2,2,-1},{0x10E3,0x1CA3,0x10E3,2,-1},{0x10E4,0x1CA4,0x10E4,2,-1},{0x10E5,0x1CA5,0x10E5,2,-1},
{0x10E6,0x1CA6,0x10E6,2,-1},{0x10E7,0x1CA7,0x10E7,2,-1},{0x10E8,0x1CA8,0x10E8,2,-1},{0x10E9,0x1CA9,0x10E9,2,-1},{0x10EA,0x1CAA,0x10EA,2,-1},{0x10EB,0x1CAB,0x10EB,2,-1},
{0x10EC,0x1CAC,0x10EC,2,-1},{0x10ED,0x1CAD,0x10ED,2,-1},{0x10EE,0x1CAE,0x10EE,2,-1},{0x10EF,0x1CAF,0x10EF,2,-1},{0x10F0,0x1CB0,0x10F0,2,-1},{0x10F1,0x1CB1,0x10F1,2,-1},
{0x10F2,0x1CB2,0x10F2,2,-1},{0x10F3,0x1CB3,0x10F3,2,-1},{0x10F4,0x1CB4,0x10F4,2,-1},{0x10F5,0x1CB5,0x10F5,2,-1},{0x10F6,0x1CB6,0x10F6,2,-1},{0x10F7,0x1CB7,0x10F7,2,-1},
{0x10F8,0x1CB8,0x10F8,2,-1},{0x10F9,0x1CB9,0x10F9,2,-1},{0x10FA,0x1CBA,0x10FA,2,-1},{0x10FD,0x1CBD,0x10FD,2,-1},{0x10FE,0x1CBE,0x10FE,2,-1},{0x10FF,0x1CBF,0x10FF,2,-1},
{0x13A0,0x13A0,0xAB70,1,-1},{0x13A1,0x13A1,0xAB71,1,-1},{0x13A2,0x13A2,0xAB72,1,-1},{0x13A3,0x13A3,0xAB73,1,-1},{0x13A4,0x13A4,0xAB74,1,-1},{0x13A5,0x13A5,0xAB75,1,-1},
{0x13A6,0x13A6,0xAB76,1,-1},{0x13A7,0x13A7,0xAB77,1,-1},{0x13A8,0x13A8,0xAB78,1,-1},{0x13A9,0x13A9,0xAB79,1,-1},{0x13AA,0x13AA,0xAB7A,1,-1},{0x13AB,0x13AB,0xAB7B,1,-1},
{0x13AC,0x13AC,0xAB7C,1,-1},{0x13AD,0x13AD,0xAB7D,1,-1},{0x13AE,0x13AE,0xAB7E,1,-1},{0x13AF,0x13AF,0xAB7F,1,-1},{0x13B0,0x13B0,0xAB80,1,-1},{0x13B1,0x13B1,0xAB81,1,-1},
{0x13B2,0x13B2,0xAB82,1,-1},{0x13B3,0x13B3,0xAB83,1,-1},{0x13B4,0x13B4,0xAB84,1,-1},{0x13B5,0x13B5,0xAB85,1,-1},{0x13B6,0x13B6,0xAB86,1,-1},{0x13B7,0x13B7,0xAB87,1,-1},
{0x13B8,0x13B8,0xAB88,1,-1},{0x13B9,0x13B9,0xAB89,1,-1},{0x13BA,0x13BA,0xAB8A,1,-1},{0x13BB,0x13BB,0xAB8B,1,-1},{0x13BC,0x13BC,0xAB8C,1,-1},{0x13BD,0x13BD,0xAB8D,1,-1},
{0x13BE,0x13BE,0xAB8E,1,-1},{0x13BF,0x13BF,0xAB8F,1,-1},{0x13C0,0x13C0,0xAB90,1,-1},{0x13C1,0x13C1,0xAB91,1,-1},{0x13C2,0x13C2,0xAB92,1,-1},{0x13C3,0x13C3,0xAB93,1,-1},
{0x13C4,0x13C4,0xAB94,1,-1},{0x13C5,0x13C5,0xAB95,1,-1},{0x13C6,0x13C6,0xAB96,1,-1},{0x13C7,0x13C7,0xAB97,1,-1},{0x13C8,0x13C8,0xAB98,1,-1},{0x13C9,0x13C9,0xAB99,1,-1},
{0x13CA,0x13CA,0xAB9A,1,-1},{0x13CB,0x13CB,0xAB9B,1,-1},{0x13CC,0x13CC,0xAB9C,1,-1},{0x13CD,0x13CD,0xAB9D,1,-1},{0x13CE,0x13CE,0xAB9E,1,-1},{0x13CF,0x13CF,0xAB9F,1,-1},
{0x13D0,0x13D0,0xABA0,1,-1},{0x13D1,0x13D1,0xABA1,1,-1},{0x13D2,0x13D2,0xABA2,1,-1},{0x13D3,0x13D3,0xABA3,1,-1},{0x13D4,0x13D4,0xABA4,1,-1},{0x13D5,0x13D5,0xABA5,1,-1},
{0x13D6,0x13D6,0xABA6,1,-1},{0x13D7,0x13D7,0xABA7,1,-1},{0x13D8,0x13D8,0xABA8,1,-1},{0x13D9,0x13D9,0xABA9,1,-1},{0x13DA,0x13DA,0xABAA,1,-1},{0x13DB,0x13DB,0xABAB,1,-1},
{0x13DC,0x13DC,0xABAC,1,-1},{0x13DD,0x13DD,0xABAD,1,-1},{0x13DE,0x13DE,0xABAE,1,-1},{0x13DF,0x13DF,0xABAF,1,-1},{0x13E0,0x13E0,0xABB0,1,-1},{0x13E1,0x13E1,0xABB1,1,-1},
{0x13E2,0x13E2,0xABB2,1,-1},{0x13E3,0x13E3,0xABB3,1,-1},{0x13E4,0x13E4,0xABB4,1,-1},{0x13E5,0x13E5,0xABB5,1,-1},{0x13E6,0x13E6,0xABB6,1,-1},{0x13E7,0x13E7,0xABB7,1,-1},
{0x13E8,0x13E8,0xABB8,1,-1},{0x13E9,0x13E9,0xABB9,1,-1},{0x13EA,0x13EA,0xABBA,1,-1},{0x13EB,0x13EB,0xABBB,1,-1},{0x13EC,0x13EC,0xABBC,1,-1},{0x13ED,0x13ED,0xABBD,1,-1},
{0x13EE,0x13EE,0xABBE,1,-1},{0x13EF,0x13EF,0xABBF,1,-1},{0x13F0,0x13F0,0x13F8,1,-1},{0x13F1,0x13F1,0x13F9,1,-1},{0x13F2,0x13F2,0x13FA,1,-1},{0x13F3,0x13F3,0x13FB,1,-1},
{0x13F4,0x13F4,0x13FC,1,-1},{0x13F5,0x13F5,0x13FD,1,-1},{0x13F8,0x13F0,0x13F8,2,-1},{0x13F9,0x13F1,0x13F9,2,-1},{0x13FA,0x13F2,0x13FA,2,-1},{0x13FB,0x13F3,0x13FB,2,-1},
{0x13FC,0x13F4,0x13FC,2,-1},{0x13FD,0x13F5,0x13FD,2,-1},{0x17E0,0x17E0,0x17E0,0,0},{0x17E1,0x17E1,0x17E1,0,1},{0x17E2,0x17E2,0x17E2,0,2},{0x17E3,0x17E3,0x17E3,0,3},
{0x17E4,0x17E4,0x17E4,0,4},{0x17E5,0x17E5,0x17E5,0,5},{0x17E6,0x17E6,0x17E6,0,6},{0x17E7,0x17E7,0x17E7,0,7},{0x17E8,0x17E8,0x17E8,0,8},{0x17E9,0x17E9,0x17E9,0,9},
{0x1810,0x1810,0x1810,0,0},{0x1811,0x1811,0x1811,0,1},{0x1812,0x1812,0x1812,0,2},{0x1813,0x1813,0x1813,0,3},{0x1814,0x1814,0x1814,0,4},{0x1815,0x1815,0x1815,0,5},
{0x1816,0x1816,0x1816,0,6},{0x1817,0x1817,0x1817,0,7},{0x1818,0x1818,0x1818,0,8},{0x1819,0x1819,0x1819,0,9},{0x1946,0x1946,0x1946,0,0},{0x1947,0x1947,0x1947,0,1},
{0x1948,0x1948,0x1948,0,2},{0x1949,0x1949,0x1949,0,3},{0x194A,0x194A,0x194A,0,4},{0x194B,0x194B,0x194B,0,5},{0x194C,0x194C,0x194C,0,6},{0x194D,0x194D,0x194D,0,7},
{0x194E,0x194E,0x194E,0,8},{0x194F,0x194F,0x194F,0,9},{0x19D0,0x19D0,0x19D0,0,0},{0x19D1,0x19D1,0x19D1,0,1},{0x19D2,0x19D2,0x19D2,0,2},{0x19D3,0x19D3,0x19D3,0,3},
{0x19D4,0x19D4,0x19D4,0,4},{0x19D5,0x19D5,0x19D5,0,5},{0x19D6,0x19D6,0x19D6,0,6},{0x19D7,0x19D7,0x19D7,0,7},{0x19D8,0x19D8,0x19D8,0,8},{0x19D9,0x19D9,0x19D9,0,9},
{0x1A80,0x1A80,0x1A80,0,0},{0x1A81,0x1A81,0x1A81,0,1},{0x1A82,0x1A82,0x1A82,0,2},{0x1A83,0x1A83,0x1A83,0,3},{0x1A84,0x1A84,0x1A84,0,4},{0x1A85,0x1A85,0x1A85,0,5},
{0x1A86,0x1A86,0x1A86,0,6},{0x1A87,0x1A87,0x1A87,0,7},{0x1A88,0x1A88,0x1A88,0,8},{0x1A89,0x1A89,0x1A89,0,9},{0x1A90,0x1A90,0x1A90,0,0},{0x1A91,0x1A91,0x1A91,0,1},
{0x1A92,0x1A92,0x1A92,0,2},{0x1A93,0x1A93,0x1A93,0,3},{0x1A94,0x1A94,0x1A94,0,4},{0x1A95,0x1A95,0x1A95,0,5},{0x1A96,0x1A96,0x1A96,0,6},{0x1A97,0x1A97,0x1A97,0,7},
{0x1A98,0x1A98,0x1A98,0,8},{0x1A99,0x1A99,0x1A99,0,9},{0x1B50,0x1B50,0x1B50,0,0},{0x1B51,0x1B51,0x1B51,0,1},{0x1B52,0x1B52,0x1B52,0,2},{0x1B53,0x1B53,0x1B53,0,3},
{0x1B54,0x1B54,0x1B54,0,4},{0x1B55,0x1B55,0x1B55,0,5},{0x1B56,0x1B56,0x1B56,0,6},{0x1B57,0x1B57,0x1B57,0,7},{0x1B58,0x1B58,0x1B58,0,8},{0x1B59,0x1B59,0x1B59,0,9},
{0x1BB0,0x1BB0,0x1BB0,0,0},{0x1BB1,0x1BB1,0x1BB1,0,1},{0x1BB2,0x1BB2,0x1BB2,0,2},{0x1BB3,0x1BB3,0x1BB3,0,3},{0x1BB4,0x1BB4,0x1BB4,0,4},{0x1BB5,0x1BB5,0x1BB5,0,5},
{0x1BB6,0x1BB6,0x1BB6,0,6},{0x1BB7,0x1BB7,0x1BB7,0,7},{0x1BB8,0x1BB8,0x1BB8,0,8},{0x1BB9,0x1BB9,0x1BB9,0,9},{0x1C40,0x1C40,0x1C40,0,0},{0x1C41,0x1C41,0x1C41,0,1},
{0x1C42,0x1C42,0x1C42,0,2},{0x1C43,0x1C43,0x1C43,0,3},{0x1C44,0x1C44,0x1C44,0,4},{0x1C45,0x1C45,0x1C45,0,5},{0x1C46,0x1C46,0x1C46,0,6},{0x1C47,0x1C47,0x1C47,0,7},
{0x1C48,0x1C48,0x1C48,0,8},{0x1C49,0x1C49,0x1C49,0,9},{0x1C50,0x1C50,0x1C50,0,0},{0x1C51,0x1C51,0x1C51,0,1},{0x1C52,0x1C52,0x1C52,0,2},{0x1C53,0x1C53,0x1C53,0,3},
{0x1C54,0x1C54,0x1C54,0,4},{0x1C55,0x1C55,0x1C55,0,5},{0x1C56,0x1C56,0x1C56,0,6},{0x1C57,0x1C57,0x1C57,0,7},{0x1C58,0x1C58,0x1C58,0,8},{0x1C59,0x1C59,0x1C59,0,9},
{0x1C80,0x412,0x1C80,2,-1},{0x1C81,0x414,0x1C81,2,-1},{0x1C82,0x41E,0x1C82,2,-1},{0x1C83,0x421,0x1C83,2,-1},{0x1C84,0x422,0x1C84,2,-1},{0x1C85,0x422,0x1C85,2,-1},
{0x1C86,0x42A,0x1C86,2,-1},{0x1C87,0x462,0x1C87,2,-1},{0x1C88,0xA64A,0x1C88,2,-1},{0x1C90,0x1C90,0x10D0,1,-1},{0x1C91,0x1C91,0x10D1,1,-1},{0x1C92,0x1C92,0x10D2,1,-1},
{0x1C93,0x1C93,0x10D3,1,-1},{0x1C94,0x1C94,0x10D4,1,-1},{0x1C95,0x1C95,0x10D5,1,-1},{0x1C96,0x1C96,0x10D6,1,-1},{0x1C97,0x1C97,0x10D7,1,-1},{0x1C98,0x1C98,0x10D8,1,-1},
{0x1C99,0x1C99,0x10D9,1,-1},{0x1C9A,0x1C9A,0x10DA,1,-1},{0x1C9B,0x1C9B,0x10DB,1,-1},{0x1C9C,0x1C9C,0x10DC,1,-1},{0x1C9D,0x1C9D,0x10DD,1,-1},{0x1C9E,0x1C9E,0x10DE,1,-1},
{0x1C9F,0x1C9F,0x10DF,1,-1},{0x1CA0,0x1CA0,0x10E0,1,-1},{0x1CA1,0x1CA1,0x10E1,1,-1},{0x1CA2,0x1CA2,0x10E2,1,-1},{0x1CA3,0x1CA3,0x10E3,1,-1},{0x1CA4,0x1CA4,0x10E4,1,-1},
{0x1CA5,0x1CA5,0x10E5,1,-1},{0x1CA6,0x1CA6,0x10E6,1,-1},{0x1CA7,0x1CA7,0x10E7,1,-1},{0x1CA8,0x1CA8,0x10E8,1,-1},{0x1CA9,0x1CA9,0x10E9,1,-1},{0x1CAA,0x1CAA,0x10EA,1,-1},
{0x1CAB,0x1CAB,0x10EB,1,-1},{0x1CAC,0x1CAC,0x10EC,1,-1},{0x1CAD,0x1CAD,0x10ED,1,-1},{0x1CAE,0x1CAE,0x10EE,1,-1},{0x1CAF,0x1CAF,0x10EF,1,-1},{0x1CB0,0x1CB0,0x10F0,1,-1},
{0x1CB1,0x1CB1,0x10F1,1,-1},{0x1CB2,0x1CB2,0x10F2,1,-1},{0x1CB3,0x1CB3,0x10F3,1,-1},{0x1CB4,0x1CB4,0x10F4,1,-1},{0x1CB5,0x1CB5,0x10F5,1,-1},{0x1CB6,0x1CB6,0x10F6,1,-1},
{0x1CB7,0x1CB7,0x10F7,1,-1},{0x1CB8,0x1CB8,0x10F8,1,-1},{0x1CB9,0x1CB9,0x10F9,1,-1},{0x1CBA,0x1CBA,0x10FA,1,-1},{0x1CBD,0x1CBD,0x10FD,1,-1},{0x1CBE,0x1CBE,0x10FE,1,-1},
{0x1CBF,0x1CBF,0x10FF,1,-1},{0x1D00,0x1D00,0x1D00,2,-1},{0x1D01,0x1D01,0x1D01,2,-1},{0x1D02,0x1D02,0x1D02,2,-1},{0x1D03,0x1D03,0x1D03,2,-1},{0x1D04,0x1D04,0x1D04,2,-1},
{0x1D05,0x1D05,0x1D05,2,-1},{0x1D06,0x1D06,0x1D06,2,-1},{0x1D07,0x1D07,0x1D07,2,-1},{0x1D08,0x1D08,0x1D08,2,-1},{0x1D09,0x1D09,0x1D09,2,-1},{0x1D0A,0x1D0A,0x1D0A,2,-1},
{0x1D0B,0x1D0B,0x1D0B,2,-1},{0x1D0C,0x1D0C,0x1D0C,2,-1},{0x1D0D,0x1D0D,0x1D0D,2,-1},{0x1D0E,0x1D0E,0x1D0E,2,-1},{0x1D0F,0x1D0F,0x1D0F,2,-1},{0x1D10,0x1D10,0x1D10,2,-1},
{0x1D11,0x1D11,0x1D11,2,-1},{0x1D12,0x1D12,0x1D12,2,-1},{0x1D13,0x1D13,0x1D13,2,-1},{0x1D14,0x1D14,0x1D14,2,-1},{0x1D15,0x1D15,0x1D15,2,-1},{0x1D16,0x1D16,0x1D16,2,-1},
{0x1D17,0x1D17,0x1D17,2,-1},{0x1D18,0x1D18,0x1D18,2,-1},{0x1D19,0x1D19,0x1D19,2,-1},{0x1D1A,0x1D1A,0x1D1A,2,-1},{0x1D1B,0x1D1B,0x1D1B,2,-1},{0x1D1C,0x1D1C,0x1D1C,2,-1},
{0x1D1D,0x1D1D,0x1D1D,2,-1},{0x1D1E,0x1D1E,0x1D1E,2,-1},{0x1D1F,0x1D1F,0x1D1F,2,-1},{0x1D20,0x1D20,0x1D20,2,-1},{0x1D21,0x1D21,0x1D21,2,-1},{0x1D22,0x1D22,0x1D22,2,-1},
{0x1D23,0x1D23,0x1D23,2,-1},{0x1D24,0x1D24,0x1D24,2,-1},{0x1D25,0x1D25,0x1D25,2,-1},{0x1D26,0x1D26,0x1D26,2,-1},{0x1D27,0x1D27,0x1D27,2,-1},{0x1D28,0x1D28,0x1D28,2,-1},
{0x1D29,0x1D29,0x1D29,2,-1},{0x1D2A,0x1D2A,0x1D2A,2,-1},{0x1D2B,0x1D2B,0x1D2B,2,-1},{0x1D6B,0x1D6B,0x1D6B,2,-1},{0x1D6C,0x1D6C,0x1D6C,2,-1},{0x1D6D,0x1D6D,0x1D6D,2,-1},
{0x1D6E,0x1D6E,0x1D6E,2,-1},{0x1D6F,0x1D6F,0x1D6F,2,-1},{0x1D70,0x1D70,0x1D70,2,-1},{0x1D71,0x1D71,0x1D71,2,-1},{0x1D72,0x1D72,0x1D72,2,-1},{0x1D73,0x1D73,0x1D73,2,-1},
{0x1D74,0x1D74,0x1D74,2,-1},{0x1D75,0x1D75,0x1D75,2,-1},{0x1D76,0x1D76,0x1D76,2,-1},{0x1D77,0x1D77,0x1D77,2,-1},{0x1D79,0xA77D,0x1D79,2,-1},{0x1D7A,0x1D7A,0x1D7A,2,-1},
{0x1D7B,0x1D7B,0x1D7B,2,-1},{0x1D7C,0x1D7C,0x1D7C,2,-1},{0x1D7D,0x2C63,0x1D7D,2,-1},{0x1D7E,0x1D7E,0x1D7E,2,-1},{0x1D7F,0x1D7F,0x1D7F,2,-1},{0x1D80,0x1D80,0x1D80,2,-1},
{0x1D81,0x1D81,0x1D81,2,-1},{0x1D82,0x1D82,0x1D82,2,-1},{0x1D83,0x1D83,0x1D83,2,-1},{0x1D84,0x1D84,0x1D84,2,-1},{0x1D85,0x1D85,0x1D85,2,-1},{0x1D86,0x1D86,0x1D86,2,-1},
{0x1D87,0x1D87,0x1D87,2,-1},{0x1D88,0x1D88,0x1D88,2,-1},{0x1D89,0x1D89,0x1D89,2,-1},{0x1D8A,0x1D8A,0x1D8A,2,-1},{0x1D8B,0x1D8B,0x1D8B,2,-1},{0x1D8C,0x1D8C,0x1D8C,2,-1},
{0x1D8D,0x1D8D,0x1D8D,2,-1},{0x1D8E,0xA7C6,0x1D8E,2,-1},{0x1D8F,0x1D8F,0x1D8F,2,-1},{0x1D90,0x1D90,0x1D90,2,-1},{0x1D91,0x1D91,0x1D91,2,-1},{0x1D92,0x1D92,0x1D92,2,-1},
{0x1D93,0x1D93,0x1D93,2,-1},{0x1D94,0x1D94,0x1D94,2,-1},{0x1D95,0x1D95,0x1D95,2,-1},{0x1D96,0x1D96,0x1D96,2,-1},{0x1D97,0x1D97,0x1D97,2,-1},{0x1D98,0x1D98,0x1D98,2,-1},
{0x1D99,0x1D99,0x1D99,2,-1},{0x1D9A,0x1D9A,0x1D9A,2,-1},{0x1E00,0x1E00,0x1E01,1,-1},{0x1E01,0x1E00,0x1E01,2,-1},{0x1E02,0x1E02,0x1E03,1,-1},{0x1E03,0x1E02,0x1E03,2,-1},
{0x1E04,0x1E04,0x1E05,1,-1},{0x1E05,0x1E04,0x1E05,2,-1},{0x1E06,0x1E06,0x1E07,1,-1},{0x1E07,0x1E06,0x1E07,2,-1},{0x1E08,0x1E08,0x1E09,1,-1},{0x1E09,0x1E08,0x1E09,2,-1},
{0x1E0A,0x1E0A,0x1E0B,1,-1},{0x1E0B,0x1E0A,0x1E0B,2,-1},{0x1E0C,0x1E0C,0x1E0D,1,-1},{0x1E0D,0x1E0C,0x1E0D,2,-1},{0x1E0E,0x1E0E,0x1E0F,1,-1},{0x1E0F,0x1E0E,0x1E0F,2,-1},
{0x1E10,0x1E10,0x1E11,1,-1},{0x1E11,0x1E10,0x1E11,2,-1},{0x1E12,0x1E12,0x1E13,1,-1},{0x1E13,0x1E12,0x1E13,2,-1},{0x1E14,0x1E14,0x1E15,1,-1},{0x1E15,0x1E14,0x1E15,2,-1},
{0x1E16,0x1E16,0x1E17,1,-1},{0x1E17,0x1E16,0x1E17,2,-1},{0x1E18,0x1E18,0x1E19,1,-1},{0x1E19,0x1E18,0x1E19,2,-1},{0x1E1A,0x1E1A,0x1E1B,1,-1},{0x1E1B,0x1E1A,0x1E1B,2,-1},
{0x1E1C,0x1E1C,0x1E1D,1,-1},{0x1E1D,0x1E1C,0x1E1D,2,-1},{0x1E1E,0x1E1E,0x1E1F,1,-1},{0x1E1F,0x1E1E,0x1E1F,2,-1},{0x1E20,0x1E20,0x1E21,1,-1},{0x1E21,0x1E20,0x1E21,2,-1},
{0x1E22,0x1E22,0x1E23,1,-1},{0x1E23,0x1E22,0x1E23,2,-1},{0x1E24,0x1E24,0x1E25,1,-1},{0x1E25,0x1E24,0x1E25,2,-1},{0x1E26,0x1E26,0x1E27,1,-1},{0x1E27,0x1E26,0x1E27,2,-1},
{0x1E28,0x1E28,0x1E29,1,-1},{0x1E29,0x1E28,0x1E29,2,-1},{0x1E2A,0x1E2A,0x1E2B,1,-1},{0x1E2B,0x1E2A,0x1E2B,2,-1},{0x1E2C,0x1E2C,0x1E2D,1,-1},{0x1E2D,0x1E2C,0x1E2D,2,-1},
{0x1E2E,0x1E2E,0x1E2F,1,-1},{0x1E2F,0x1E2E,0x1E2F,2,-1},{0x1E30,0x1E30,0x1E31,1,-1},{0x1E31,0x1E30,0x1E31,2,-1},{0x1E32,0x1E32,0x1E33,1,-1},{0x1E33,0x1E32,0x1E33,2,-1},
{0x1E34,0x1E34,0x1E35,1,-1},{0x1E35,0x1E34,0x1E35,2,-1},{0x1E36,0x1E36,0x1E37,1,-1},{0x1E37,0x1E36,0x1E37,2,-1},{0x1E38,0x1E38,0x1E39,1,-1},{0x1E39,0x1E38,0x1E39,2,-1},
{0x1E3A,0x1E3A,0x1E3B,1,-1},{0x1E3B,0x1E3A,0x1E3B,2,-1},{0x1E3C,0x1E3C,0x1E3D,1,-1},{0x1E3D,0x1E3C,0x1E3D,2,-1},{0x1E3E,0x1E3E,0x1E3F,1,-1},{0x1E3F,0x1E3E,0x1E3F,2,-1},
{0x1E40,0x1E40,0x1E41,1,-1},{0x1E41,0x1E40,0x1E41,2,-1},{0x1E42,0x1E42,0x1E43,1,-1},{0x1E43,0x1E42,0x1E43,2,-1},{0x1E44,0x1E44,0x1E45,1,-1},{0x1E45,0x1E44,0x1E45,2,-1},
{0x1E46,0x1E46,0x1E47,1,-1},{0x1E47,0x1E46,0x1E47,2,-1},{0x1E48,0x1E48,0x1E49,1,-1},{0x1E49,0x1E48,0x1E49,2,-1},{0x1E4A,0x1E4A,0x1E4B,1,-1},{0x1E4B,0x1E4A,0x1E4B,2,-1},
{0x1E4C,0x1E4C,0x1E4D,1,-1},{0x1E4D,0x1E4C,0x1E4D,2,-1},{0x1E4E,0x1E4E,0x1E4F,1,-1},{0x1E4F,0x1E4E,0x1E4F,2,-1},{0x1E50,0x1E50,0x1E51,1,-1},{0x1E51,0x1E50,0x1E51,2,-1},
{0x1E52,0x1E52,0x1E53,1,-1},{0x1E53,0x1E52,0x1E53,2,-1},{0x1E54,0x1E54,0x1E55,1,-1},{0x1E55,0x1E54,0x1E55,2,-1},{0x1E56,0x1E56,0x1E57,1,-1},{0x1E57,0x1E56,0x1E57,2,-1},
{0x1E58,0x1E58,0x1E59,1,-1},{0x1E59,0x1E58,0x1E59,2,-1},{0x1E5A,0x1E5A,0x1E5B,1,-1},{0x1E5B,0x1E5A,0x1E5B,2,-1},{0x1E5C,0x1E5C,0x1E5D,1,-1},{0x1E5D,0x1E5C,0x1E5D,2,-1},
{0x1E5E,0x1E5E,0x1E5F,1,-1},{0x1E5F,0x1E5E,0x1E5F,2,-1},{0x1E60,0x1E60,0x1E61,1,-1},{0x1E61,0x1E60,0x1E61,2,-1},{0x1E62,0x1E62,0x1E63,1,-1},{0x1E63,0x1E62,0x1E63,2,-1},
{0x1E64,0x1E64,0x1E65,1,-1},{0x1E65,0x1E64,0x1E65,2,-1},{0x1E66,0x1E66,0x1E67,1,-1},{0x1E67,0x1E66,0x1E67,2,-1},{0x1E68,0x1E68,0x1E69,1,-1},{0x1E69,0x1E68,0x1E69,2,-1},
{0x1E6A,0x1E6A,0x1E6B,1,-1},{0x1E6B,0x1E6A,0x1E6B,2,-1},{0x1E6C,0x1E6C,0x1E6D,1,-1},{0x1E6D,0x1E6C,0x1E6D,2,-1},{0x1E6E,0x1E6E,0x1E6F,1,-1},{0x1E6F,0x1E6E,0x1E6F,2,-1},
{0x1E70,0x1E70,0x1E71,1,-1},{0x1E71,0x1E70,0x1E71,2,-1},{0x1E72,0x1E72,0x1E73,1,-1},{0x1E73,0x1E72,0x1E73,2,-1},{0x1E74,0x1E74,0x1E75,1,-1},{0x1E75,0x1E74,0x1E75,2,-1},
{0x1E76,0x1E76,0x1E77,1,-1},{0x1E77,0x1E76,0x1E77,2,-1},{0x1E78,0x1E78,0x1E79,1,-1},{0x1E79,0x1E78,0x1E79,2,-1},{0x1E7A,0x1E7A,0x1E7B,1,-1},{0x1E7B,0x1E7A,0x1E7B,2,-1},
{0x1E7C,0x1E7C,0x1E7D,1,-1},{0x1E7D,0x1E7C,0x1E7D,2,-1},{0x1E7E,0x1E7E,0x1E7F,1,-1},{0x1E7F,0x1E7E,0x1E7F,2,-1},{0x1E80,0x1E80,0x1E81,1,-1},{0x1E81,0x1E80,0x1E81,2,-1},
{0x1E82,0x1E82,0x1E83,1,-1},{0x1E83,0x1E82,0x1E83,2,-1},{0x1E84,0x1E84,0x1E85,1,-1},{0x1E85,0x1E84,0x1E85,2,-1},{0x1E86,0x1E86,0x1E87,1,-1},{0x1E87,0x1E86,0x1E87,2,-1},
{0x1E88,0x1E88,0x1E89,1,-1},{0x1E89,0x1E88,0x1E89,2,-1},{0x1E8A,0x1E8A,0x1E8B,1,-1},{0x1E8B,0x1E8A,0x1E8B,2,-1},{0x1E8C,0x1E8C,0x1E8D,1,-1},{0x1E8D,0x1E8C,0x1E8D,2,-1},
{0x1E8E,0x1E8E,0x1E8F,1,-1},{0x1E8F,0x1E8E,0x1E8F,2,-1},{0x1E90,0x1E90,0x1E91,1,-1},{0x1E91,0x1E90,0x1E91,2,-1},{0x1E92,0x1E92,0x1E93,1,-1},{0x1E93,0x1E92,0x1E93,2,-1},
{0x1E94,0x1E94,0x1E95,1,-1},{0x1E95,0x1E94,0x1E95,2,-1},{0x1E96,0x1E96,0x1E96,2,-1},{0x1E97,0x1E97,0x1E97,2,-1},{0x1E98,0x1E98,0x1E98,2,-1},{0x1E99,0x1E99,0x1E99,2,-1},
{0x1E9A,0x1E9A,0x1E9A,2,-1},{0x1E9B,0x1E60,0x1E9B,2,-1},{0x1E9C,0x1E9C,0x1E9C,2,-1},{0x1E9D,0x1E9D,0x1E9D,2,-1},{0x1E9E,0x1E9E,0xDF,1,-1},{0x1E9F,0x1E9F,0x1E9F,2,-1},
{0x1EA0,0x1EA0,0x1EA1,1,-1},{0x1EA1,0x1EA0,0x1EA1,2,-1},{0x1EA2,0x1EA2,0x1EA3,1,-1},{0x1EA3,0x1EA2,0x1EA3,2,-1},{0x1EA4,0x1EA4,0x1EA5,1,-1},{0x1EA5,0x1EA4,0x1EA5,2,-1},
{0x1EA6,0x1EA6,0x1EA7,1,-1},{0x1EA7,0x1EA6,0x1EA7,2,-1},{0x1EA8,0x1EA8,0x1EA9,1,-1},{0x1EA9,0x1EA8,0x1EA9,2,-1},{0x1EAA,0x1EAA,0x1EAB,1,-1},{0x1EAB,0x1EAA,0x1EAB,2,-1},
{0x1EAC,0x1EAC,0x1EAD,1,-1},{0x1EAD,0x1EAC,0x1EAD,2,-1},{0x1EAE,0x1EAE,0x1EAF,1,-1},{0x1EAF,0x1EAE,0x1EAF,2,-1},{0x1EB0,0x1EB0,0x1EB1,1,-1},{0x1EB1,0x1EB0,0x1EB1,2,-1},
{0x1EB2,0x1EB2,0x1EB3,1,-1},{0x1EB3,0x1EB2,0x1EB3,2,-1},{0x1EB4,0x1EB4,0x1EB5,1,-1},{0x1EB5,0x1EB4,0x1EB5,2,-1},{0x1EB6,0x1EB6,0x1EB7,1,-1},{0x1EB7,0x1EB6,0x1EB7,2,-1},
{0x1EB8,0x1EB8,0x1EB9,1,-1},{0x1EB9,0x1EB8,0x1EB9,2,-1},{0x1EBA,0x1EBA,0x1EBB,1,-1},{0x1EBB,0x1EBA,0x1EBB,2,-1},{0x1EBC,0x1EBC,0x1EBD,1,-1},{0x1EBD,0x1EBC,0x1EBD,2,-1},
{0x1EBE,0x1EBE,0x1EBF,1,-1},{0x1EBF,0x1EBE,0x1EBF,2,-1},{0x1EC0,0x1EC0,0x1EC1,1,-1},{0x1EC1,0x1EC0,0x1EC1,2,-1},{0x1EC2,0x1EC2,0x1EC3,1,-1},{0x1EC3,0x1EC2,0x1EC3,2,-1},
{0x1EC4,0x1EC4,0x1EC5,1,-1},{0x1EC5,0x1EC4,0x1EC5,2,-1},{0x1EC6,0x1EC6,0x1EC7,1,-1},{0x1EC7,0x1EC6,0x1EC7,2,-1},{0x1EC8,0x1EC8,0x1EC9,1,-1},{0x1EC9,0x1EC8,0x1EC9,2,-1},
{0x1ECA,0x1ECA,0x1ECB,1,-1},{0x1ECB,0x1ECA,0x1ECB,2,-1},{0x1ECC,0x1ECC,0x1ECD,1,-1},{0x1ECD,0x1ECC,0x1ECD,2,-1},{0x1ECE,0x1ECE,0x1ECF,1,-1},{0x1ECF,0x1ECE,0x1ECF,2,-1},
{0x1ED0,0x1ED0,0x1ED1,1,-1},{0x1ED1,0x1ED0,0x1ED1,2,-1},{0x1ED2,0x1ED2,0x1ED3,1,-1},{0x1ED3,0x1ED2,0x1ED3,2,-1},{0x1ED4,0x1ED4,0x1ED5,1,-1},{0x1ED5,0x1ED4,0x1ED5,2,-1},
{0x1ED6,0x1ED6,0x1ED7,1,-1},{0x1ED7,0x1ED6,0x1ED7,2,-1},{0x1ED8,0x1ED8,0x1ED9,1,-1},{0x1ED9,0x1ED8,0x1ED9,2,-1},{0x1EDA,0x1EDA,0x1EDB,1,-1},{0x1EDB,0x1EDA,0x1EDB,2,-1},
{0x1EDC,0x1EDC,0x1EDD,1,-1},{0x1EDD,0x1EDC,0x1EDD,2,-1},{0x1EDE,0x1EDE,0x1EDF,1,-1},{0x1EDF,0x1EDE,0x1EDF,2,-1},{0x1EE0,0x1EE0,0x1EE1,1,-1},{0x1EE1,0x1EE0,0x1EE1,2,-1},
{0x1EE2,0x1EE2,0x1EE3,1,-1},{0x1EE3,0x1EE2,0x1EE3,2,-1},{0x1EE4,0x1EE4,0x1EE5,1,-1},{0x1EE5,0x1EE4,0x1EE5,2,-1},{0x1EE6,0x1EE6,0x1EE7,1,-1},{0x1EE7,0x1EE6,0x1EE7,2,-1},
{0x1EE8,0x1EE8,0x1EE9,1,-1},{0x1EE9,0x1EE8,0x1EE9,2,-1},{0x1EEA,0x1EEA,0x1EEB,1,-1},{0x1EEB,0x1EEA,0x1EEB,2,-1},{0x1EEC,0x1EEC,0x1EED,1,-1},{0x1EED,0x1EEC,0x1EED,2,-1},
{0x1EEE,0x1EEE,0x1EEF,1,-1},{0x1EEF,0x1EEE,0x1EEF,2,-1},{0x1EF0,0x1EF0,0x1EF1,1,-1},{0x1EF1,0x1EF0,0x1EF1,2,-1},{0x1EF2,0x1EF2,0x1EF3,1,-1},{0x1EF3,0x1EF2,0x1EF3,2,-1},
{0x1EF4,0x1EF4,0x1EF5,1,-1},{0x1EF5,0x1EF4,0x1EF5,2,-1},{0x1EF6,0x1EF6,0x1EF7,1,-1},{0x1EF7,0x1EF6,0x1EF7,2,-1},{0x1EF8,0x1EF8,0x1EF9,1,-1},{0x1EF9,0x1EF8,0x1EF9,2,-1},
{0x1EFA,0x1EFA,0x1EFB,1,-1},{0x1EFB,0x1EFA,0x1EFB,2,-1},{0x1EFC,0x1EFC,0x1EFD,1,-1},{0x1EFD,0x1EFC,0x1EFD,2,-1},{0x1EFE,0x1EFE,0x1EFF,1,-1},{0x1EFF,0x1EFE,0x1EFF,2,-1},
{0x1F00,0x1F08,0x1F00,2,-1},{0x1F01,0x1F09,0x1F01,2,-1},{0x1F02,0x1F0A,0x1F02,2,-1},{0x1F03,0x1F0B,0x1F03,2,-1},{0x1F04,0x1F0C,0x1F04,2,-1},{0x1F05,0x1F0D,0x1F05,2,-1},
{0x1F06,0x1F0E,0x1F06,2,-1},{0x1F07,0x1F0F,0x1F07,2,-1},{0x1F08,0x1F08,0x1F00,1,-1},{0x1F09,0x1F09,0x1F01,1,-1},{0x1F0A,0x1F0A,0x1F02,1,-1},{0x1F0B,0x1F0B,0x1F03,1,-1},
{0x1F0C,0x1F0C,0x1F04,1,-1},{0x1F0D,0x1F0D,0x1F05,1,-1},{0x1F0E,0x1F0E,0x1F06,1,-1},{0x1F0F,0x1F0F,0x1F07,1,-1},{0x1F10,0x1F18,0x1F10,2,-1},{0x1F11,0x1F19,0x1F11,2,-1},
{0x1F12,0x1F1A,0x1F12,2,-1},{0x1F13,0x1F1B,0x1F13,2,-1},{0x1F14,0x1F1C,0x1F14,2,-1},{0x1F15,0x1F1D,0x1F15,2,-1},{0x1F18,0x1F18,0x1F10,1,-1},{0x1F19,0x1F19,0x1F11,1,-1},
{0x1F1A,0x1F1A,0x1F12,1,-1},{0x1F1B,0x1F1B,0x1F13,1,-1},{0x1F1C,0x1F1C,0x1F14,1,-1},{0x1F1D,0x1F1D,0x1F15,1,-1},{0x1F20,0x1F28,0x1F20,2,-1},{0x1F21,0x1F29,0x1F21,2,-1},
{0x1F22,0x1F2A,0x1F22,2,-1},{0x1F23,0x1F2B,0x1F23,2,-1},{0x1F24,0x1F2C,0x1F24,2,-1},{0x1F25,0x1F2D,0x1F25,2,-1},{0x1F26,0x1F2E,0x1F26,2,-1},{0x1F27,0x1F2F,0x1F27,2,-1},
{0x1F28,0x1F28,0x1F20,1,-1},{0x1F29,0x1F29,0x1F21,1,-1},{0x1F2A,0x1F2A,0x1F22,1,-1},{0x1F2B,0x1F2B,0x1F23,1,-1},{0x1F2C,0x1F2C,0x1F24,1,-1},{0x1F2D,0x1F2D,0x1F25,1,-1},
{0x1F2E,0x1F2E,0x1F26,1,-1},{0x1F2F,0x1F2F,0x1F27,1,-1},{0x1F30,0x1F38,0x1F30,2,-1},{0x1F31,0x1F39,0x1F31,2,-1},{0x1F32,0x1F3A,0x1F32,2,-1},{0x1F33,0x1F3B,0x1F33,2,-1},
{0x1F34,0x1F3C,0x1F34,2,-1},{0x1F35,0x1F3D,0x1F35,2,-1},{0x1F36,0x1F3E,0x1F36,2,-1},{0x1F37,0x1F3F,0x1F37,2,-1},{0x1F38,0x1F38,0x1F30,1,-1},{0x1F39,0x1F39,0x1F31,1,-1},
{0x1F3A,0x1F3A,0x1F32,1,-1},{0x1F3B,0x1F3B,0x1F33,1,-1},{0x1F3C,0x1F3C,0x1F34,1,-1},{0x1F3D,0x1F3D,0x1F35,1,-1},{0x1F3E,0x1F3E,0x1F36,1,-1},{0x1F3F,0x1F3F,0x1F37,1,-1},
{0x1F40,0x1F48,0x1F40,2,-1},{0x1F41,0x1F49,0x1F41,2,-1},{0x1F42,0x1F4A,0x1F42,2,-1},{0x1F43,0x1F4B,0x1F43,2,-1},{0x1F44,0x1F4C,0x1F44,2,-1},{0x1F45,0x1F4D,0x1F45,2,-1},
{0x1F48,0x1F48,0x1F40,1,-1},{0x1F49,0x1F49,0x1F41,1,-1},{0x1F4A,0x1F4A,0x1F42,1,-1},{0x1F4B,0x1F4B,0x1F43,1,-1},{0x1F4C,0x1F4C,0x1F44,1,-1},{0x1F4D,0x1F4D,0x1F45,1,-1},
{0x1F50,0x1F50,0x1F50,2,-1},{0x1F51,0x1F59,0x1F51,2,-1},{0x1F52,0x1F52,0x1F52,2,-1},{0x1F53,0x1F5B,0x1F53,2,-1},{0x1F54,0x1F54,0x1F54,2,-1},{0x1F55,0x1F5D,0x1F55,2,-1},
{0x1F56,0x1F56,0x1F56,2,-1},{0x1F57,0x1F5F,0x1F57,2,-1},{0x1F59,0x1F59,0x1F51,1,-1},{0x1F5B,0x1F5B,0x1F53,1,-1},{0x1F5D,0x1F5D,0x1F55,1,-1},{0x1F5F,0x1F5F,0x1F57,1,-1},
{0x1F60,0x1F68,0x1F60,2,-1},{0x1F61,0x1F69,0x1F61,2,-1},{0x1F62,0x1F6A,0x1F62,2,-1},{0x1F63,0x1F6B,0x1F63,2,-1},{0x1F64,0x1F6C,0x1F64,2,-1},{0x1F65,0x1F6D,0x1F65,2,-1},
{0x1F66,0x1F6E,0x1F66,2,-1},{0x1F67,0x1F6F,0x1F67,2,-1},{0x1F68,0x1F68,0x1F60,1,-1},{0x1F69,0x1F69,0x1F61,1,-1},{0x1F6A,0x1F6A,0x1F62,1,-1},{0x1F6B,0x1F6B,0x1F63,1,-1},
{0x1F6C,0x1F6C,0x1F64,1,-1},{0x1F6D,0x1F6D,0x1F65,1,-1},{0x1F6E,0x1F6E,0x1F66,1,-1},{0x1F6F,0x1F6F,0x1F67,1,-1},{0x1F70,0x1FBA,0x1F70,2,-1},{0x1F71,0x1FBB,0x1F71,2,-1},
{0x1F72,0x1FC8,0x1F72,2,-1},{0x1F73,0x1FC9,0x1F73,2,-1},{0x1F74,0x1FCA,0x1F74,2,-1},{0x1F75,0x1FCB,0x1F75,2,-1},{0x1F76,0x1FDA,0x1F76,2,-1},{0x1F77,0x1FDB,0x1F77,2,-1},
{0x1F78,0x1FF8,0x1F78,2,-1},{0x1F79,0x1FF9,0x1F79,2,-1},{0x1F7A,0x1FEA,0x1F7A,2,-1},{0x1F7B,0x1FEB,0x1F7B,2,-1},{0x1F7C,0x1FFA,0x1F7C,2,-1},{0x1F7D,0x1FFB,0x1F7D,2,-1},
{0x1F80,0x1F88,0x1F80,2,-1},{0x1F81,0x1F89,0x1F81,2,-1},{0x1F82,0x1F8A,0x1F82,2,-1},{0x1F83,0x1F8B,0x1F83,2,-1},{0x1F84,0x1F8C,0x1F84,2,-1},{0x1F85,0x1F8D,0x1F85,2,-1},
{0x1F86,0x1F8E,0x1F86,2,-1},{0x1F87,0x1F8F,0x1F87,2,-1},{0x1F88,0x1F88,0x1F80,3,-1},{0x1F89,0x1F89,0x1F81,3,-1},{0x1F8A,0x1F8A,0x1F82,3,-1},{0x1F8B,0x1F8B,0x1F83,3,-1},
{0x1F8C,0x1F8C,0x1F84,3,-1},{0x1F8D,0x1F8D,0x1F85,3,-1},{0x1F8E,0x1F8E,0x1F86,3,-1},{0x1F8F,0x1F8F,0x1F87,3,-1},{0x1F90,0x1F98,0x1F90,2,-1},{0x1F91,0x1F99,0x1F91,2,-1},
{0x1F92,0x1F9A,0x1F92,2,-1},{0x1F93,0x1F9B,0x1F93,2,-1},{0x1F94,0x1F9C,0x1F94,2,-1},{0x1F95,0x1F9D,0x1F95,2,-1},{0x1F96,0x1F9E,0x1F96,2,-1},{0x1F97,0x1F9F,0x1F97,2,-1},
{0x1F98,0x1F98,0x1F90,3,-1},{0x1F99,0x1F99,0x1F91,3,-1},{0x1F9A,0x1F9A,0x1F92,3,-1},{0x1F9B,0x1F9B,0x1F93,3,-1},{0x1F9C,0x1F9C,0x1F94,3,-1},{0x1F9D,0x1F9D,0x1F95,3,-1},
{0x1F9E,0x1F9E,0x1F96,3,-1},{0x1F9F,0x1F9F,0x1F97,3,-1},{0x1FA0,0x1FA8,0x1FA0,2,-1},{0x1FA1,0x1FA9,0x1FA1,2,-1},{0x1FA2,0x1FAA,0x1FA2,2,-1},{0x1FA3,0x1FAB,0x1FA3,2,-1},
{0x1FA4,0x1FAC,0x1FA4,2,-1},{0x1FA5,0x1FAD,0x1FA5,2,-1},{0x1FA6,0x1FAE,0x1FA6,2,-1},{0x1FA7,0x1FAF,0x1FA7,2,-1},{0x1FA8,0x1FA8,0x1FA0,3,-1},{0x1FA9,0x1FA9,0x1FA1,3,-1},
{0x1FAA,0x1FAA,0x1FA2,3,-1},{0x1FAB,0x1FAB,0x1FA3,3,-1},{0x1FAC,0x1FAC,0x1FA4,3,-1},{0x1FAD,0x1FAD,0x1FA5,3,-1},{0x1FAE,0x1FAE,0x1FA6,3,-1},{0x1FAF,0x1FAF,0x1FA7,3,-1},
{0x1FB0,0x1FB8,0x1FB0,2,-1},{0x1FB1,0x1FB9,0x1FB1,2,-1},{0x1FB2,0x1FB2,0x1FB2,2,-1},{0x1FB3,0x1FBC,0x1FB3,2,-1},{0x1FB4,0x1FB4,0x1FB4,2,-1},{0x1FB6,0x1FB6,0x1FB6,2,-1},
{0x1FB7,0x1FB7,0x1FB7,2,-1},{0x1FB8,0x1FB8,0x1FB0,1,-1},{0x1FB9,0x1FB9,0x1FB1,1,-1},{0x1FBA,0x1FBA,0x1F70,1,-1},{0x1FBB,0x1FBB,0x1F71,1,-1},{0x1FBC,0x1FBC,0x1FB3,3,-1},
{0x1FBE,0x399,0x1FBE,2,-1},{0x1FC2,0x1FC2,0x1FC2,2,-1},{0x1FC3,0x1FCC,0x1FC3,2,-1},{0x1FC4,0x1FC4,0x1FC4,2,-1},{0x1FC6,0x1FC6,0x1FC6,2,-1},{0x1FC7,0x1FC7,0x1FC7,2,-1},
{0x1FC8,0x1FC8,0x1F72,1,-1},{0x1FC9,0x1FC9,0x1F73,1,-1},{0x1FCA,0x1FCA,0x1F74,1,-1},{0x1FCB,0x1FCB,0x1F75,1,-1},{0x1FCC,0x1FCC,0x1FC3,3,-1},{0x1FD0,0x1FD8,0x1FD0,2,-1},
{0x1FD1,0x1FD9,0x1FD1,2,-1},{0x1FD2,0x1FD2,0x1FD2,2,-1},{0x1FD3,0x1FD3,0x1FD3,2,-1},{0x1FD6,0x1FD6,0x1FD6,2,-1},{0x1FD7,0x1FD7,0x1FD7,2,-1},{0x1FD8,0x1FD8,0x1FD0,1,-1},
{0x1FD9,0x1FD9,0x1FD1,1,-1},{0x1FDA,0x1FDA,0x1F76,1,-1},{0x1FDB,0x1FDB,0x1F77,1,-1},{0x1FE0,0x1FE8,0x1FE0,2,-1},{0x1FE1,0x1FE9,0x1FE1,2,-1},{0x1FE2,0x1FE2,0x1FE2,2,-1},
{0x1FE3,0x1FE3,0x1FE3,2,-1},{0x1FE4,0x1FE4,0x1FE4,2,-1},{0x1FE5,0x1FEC,0x1FE5,2,-1},{0x1FE6,0x1FE6,0x1FE6,2,-1},{0x1FE7,0x1FE7,0x1FE7,2,-1},{0x1FE8,0x1FE8,0x1FE0,1,-1},
{0x1FE9,0x1FE9,0x1FE1,1,-1},{0x1FEA,0x1FEA,0x1F7A,1,-1},{0x1FEB,0x1FEB,0x1F7B,1,-1},{0x1FEC,0x1FEC,0x1FE5,1,-1},{0x1FF2,0x1FF2,0x1FF2,2,-1},{0x1FF3,0x1FFC,0x1FF3,2,-1},
{0x1FF4,0x1FF4,0x1FF4,2,-1},{0x1FF6,0x1FF6,0x1FF6,2,-1},{0x1FF7,0x1FF7,0x1FF7,2,-1},{0x1FF8,0x1FF8,0x1F78,1,-1},{0x1FF9,0x1FF9,0x1F79,1,-1},{0x1FFA,0x1FFA,0x1F7C,1,-1},
{0x1FFB,0x1FFB,0x1F7D,1,-1},{0x1FFC,0x1FFC,0x1FF3,3,-1},{0x2102,0x2102,0x2102,1,-1},{0x2107,0x2107,0x2107,1,-1},{0x210A,0x210A,0x210A,2,-1},{0x210B,0x210B,0x210B,1,-1},
{0x210C,0x210C,0x210C,1,-1},{0x210D,0x210D,0x210D,1,-1},{0x210E,0x210E,0x210E,2,-1},{0x210F,0x210F,0x210F,2,-1},{0x2110,0x2110,0x2110,1,-1},{0x2111,0x2111,0x2111,1,-1},
{0x2112,0x2112,0x2112,1,-1},{0x2113,0x2113,0x2113,2,-1},{0x2115,0x2115,0x2115,1,-1},{0x2119,0x2119,0x2119,1,-1},{0x211A,0x211A,0x211A,1,-1},{0x211B,0x211B,0x211B,1,-1},
{0x211C,0x211C,0x211C,1,-1},{0x211D,0x211D,0x211D,1,-1},{0x2124,0x2124,0x2124,1,-1},{0x2126,0x2126,0x3C9,1,-1},{0x2128,0x2128,0x2128,1,-1},{0x212A,0x212A,0x6B,1,-1},
{0x212B,0x212B,0xE5,1,-1},{0x212C,0x212C,0x212C,1,-1},{0x212D,0x212D,0x212D,1,-1},{0x212F,0x212F,0x212F,2,-1},{0x2130,0x2130,0x2130,1,-1},{0x2131,0x2131,0x2131,1,-1},
{0x2132,0x2132,0x214E,1,-1},{0x2133,0x2133,0x2133,1,-1},{0x2134,0x2134,0x2134,2,-1},{0x2139,0x2139,0x2139,2,-1},{0x213C,0x213C,0x213C,2,-1},{0x213D,0x213D,0x213D,2,-1},
{0x213E,0x213E,0x213E,1,-1},{0x213F,0x213F,0x213F,1,-1},{0x2145,0x2145,0x2145,1,-1},{0x2146,0x2146,0x2146,2,-1},{0x2147,0x2147,0x2147,2,-1},{0x2148,0x2148,0x2148,2,-1},
{0x2149,0x2149,0x2149,2,-1},{0x214E,0x2132,0x214E,2,-1},{0x2160,0x2160,0x2170,0,-1},{0x2161,0x2161,0x2171,0,-1},{0x2162,0x2162,0x2172,0,-1},{0x2163,0x2163,0x2173,0,-1},
{0x2164,0x2164,0x2174,0,-1},{0x2165,0x2165,0x2175,0,-1},{0x2166,0x2166,0x2176,0,-1},{0x2167,0x2167,0x2177,0,-1},{0x2168,0x2168,0x2178,0,-1},{0x2169,0x2169,0x2179,0,-1},
{0x216A,0x216A,0x217A,0,-1},{0x216B,0x216B,0x217B,0,-1},{0x216C,0x216C,0x217C,0,-1},{0x216D,0x216D,0x217D,0,-1},{0x216E,0x216E,0x217E,0,-1},{0x216F,0x216F,0x217F,0,-1},
{0x2170,0x2160,0x2170,0,-1},{0x2171,0x2161,0x2171,0,-1},{0x2172,0x2162,0x2172,0,-1},{0x2173,0x2163,0x2173,0,-1},{0x2174,0x2164,0x2174,0,-1},{0x2175,0x2165,0x2175,0,-1},
{0x2176,0x2166,0x2176,0,-1},{0x2177,0x2167,0x2177,0,-1},{0x2178,0x2168,0x2178,0,-1},{0x2179,0x2169,0x2179,0,-1},{0x217A,0x216A,0x217A,0,-1},{0x217B,0x216B,0x217B,0,-1},
{0x217C,0x216C,0x217C,0,-1},{0x217D,0x216D,0x217D,0,-1},{0x217E,0x216E,0x217E,0,-1},{0x217F,0x216F,0x217F,0,-1},{0x2183,0x2183,0x2184,1,-1},{0x2184,0x2183,0x2184,2,-1},
{0x24B6,0x24B6,0x24D0,0,-1},{0x24B7,0x24B7,0x24D1,0,-1},{0x24B8,0x24B8,0x24D2,0,-1},{0x24B9,0x24B9,0x24D3,0,-1},{0x24BA,0x24BA,0x24D4,0,-1},{0x24BB,0x24BB,0x24D5,0,-1},
{0x24BC,0x24BC,0x24D6,0,-1},{0x24BD,0x24BD,0x24D7,0,-1},{0x24BE,0x24BE,0x24D8,0,-1},{0x24BF,0x24BF,0x24D9,0,-1},{0x24C0,0x24C0,0x24DA,0,-1},{0x24C1,0x24C1,0x24DB,0,-1},
{0x24C2,0x24C2,0x24DC,0,-1},{0x24C3,0x24C3,0x24DD,0,-1},{0x24C4,0x24C4,0x24DE,0,-1},{0x24C5,0x24C5,0x24DF,0,-1},{0x24C6,0x24C6,0x24E0,0,-1},{0x24C7,0x24C7,0x24E1,0,-1},
{0x24C8,0x24C8,0x24E2,0,-1},{0x24C9,0x24C9,0x24E3,0,-1},{0x24CA,0x24CA,0x24E4,0,-1},{0x24CB,0x24CB,0x24E5,0,-1},{0x24CC,0x24CC,0x24E6,0,-1},{0x24CD,0x24CD,0x24E7,0,-1},
{0x24CE,0x24CE,0x24E8,0,-1},{0x24CF,0x24CF,0x24E9,0,-1},{0x24D0,0x24B6,0x24D0,0,-1},{0x24D1,0x24B7,0x24D1,0,-1},{0x24D2,0x24B8,0x24D2,0,-1},{0x24D3,0x24B9,0x24D3,0,-1},
{0x24D4,0x24BA,0x24D4,0,-1},{0x24D5,0x24BB,0x24D5,0,-1},{0x24D6,0x24BC,0x24D6,0,-1},{0x24D7,0x24BD,0x24D7,0,-1},{0x24D8,0x24BE,0x24D8,0,-1},{0x24D9,0x24BF,0x24D9,0,-1},
{0x24DA,0x24C0,0x24DA,0,-1},{0x24DB,0x24C1,0x24DB,0,-1},{0x24DC,0x24C2,0x24DC,0,-1},{0x24DD,0x24C3,0x24DD,0,-1},{0x24DE,0x24C4,0x24DE,0,-1},{0x24DF,0x24C5,0x24DF,0,-1},
{0x24E0,0x24C6,0x24E0,0,-1},{0x24E1,0x24C7,0x24E1,0,-1},{0x24E2,0x24C8,0x24E2,0,-1},{0x24E3,0x24C9,0x24E3,0,-1},{0x24E4,0x24CA,0x24E4,0,-1},{0x24E5,0x24CB,0x24E5,0,-1},
{0x24E6,0x24CC,0x24E6,0,-1},{0x24E7,0x24CD,0x24E7,0,-1},{0x24E8,0x24CE,0x24E8,0,-1},{0x24E9,0x24CF,0x24E9,0,-1},{0x2C00,0x2C00,0x2C30,1,-1},{0x2C01,0x2C01,0x2C31,1,-1},
{0x2C02,0x2C02,0x2C32,1,-1},{0x2C03,0x2C03,0x2C33,1,-1},{0x2C04,0x2C04,0x2C34,1,-1},{0x2C05,0x2C05,0x2C35,1,-1},{0x2C06,0x2C06,0x2C36,1,-1},{0x2C07,0x2C07,0x2C37,1,-1},
{0x2C08,0x2C08,0x2C38,1,-1},{0x2C09,0x2C09,0x2C39,1,-1},{0x2C0A,0x2C0A,0x2C3A,1,-1},{0x2C0B,0x2C0B,0x2C3B,1,-1},{0x2C0C,0x2C0C,0x2C3C,1,-1},{0x2C0D,0x2C0D,0x2C3D,1,-1},
{0x2C0E,0x2C0E,0x2C3E,1,-1},{0x2C0F,0x2C0F,0x2C3F,1,-1},{0x2C10,0x2C10,0x2C40,1,-1},{0x2C11,0x2C11,0x2C41,1,-1},{0x2C12,0x2C12,0x2C42,1,-1},{0x2C13,0x2C13,0x2C43,1,-1},
{0x2C14,0x2C14,0x2C44,1,-1},{0x2C15,0x2C15,0x2C45,1,-1},{0x2C16,0x2C16,0x2C46,1,-1},{0x2C17,0x2C17,0x2C47,1,-1},{0x2C18,0x2C18,0x2C48,1,-1},{0x2C19,0x2C19,0x2C49,1,-1},
{0x2C1A,0x2C1A,0x2C4A,1,-1},{0x2C1B,0x2C1B,0x2C4B,1,-1},{0x2C1C,0x2C1C,0x2C4C,1,-1},{0x2C1D,0x2C1D,0x2C4D,1,-1},{0x2C1E,0x2C1E,0x2C4E,1,-1},{0x2C1F,0x2C1F,0x2C4F,1,-1},
{0x2C20,0x2C20,0x2C50,1,-1},{0x2C21,0x2C21,0x2C51,1,-1},{0x2C22,0x2C22,0x2C52,1,-1},{0x2C23,0x2C23,0x2C53,1,-1},{0x2C24,0x2C24,0x2C54,1,-1},{0x2C25,0x2C25,0x2C55,1,-1},
{0x2C26,0x2C26,0x2C56,1,-1},{0x2C27,0x2C27,0x2C57,1,-1},{0x2C28,0x2C28,0x2C58,1,-1},{0x2C29,0x2C29,0x2C59,1,-1},{0x2C2A,0x2C2A,0x2C5A,1,-1},{0x2C2B,0x2C2B,0x2C5B,1,-1},
{0x2C2C,0x2C2C,0x2C5C,1,-1},{0x2C2D,0x2C2D,0x2C5D,1,-1},{0x2C2E,0x2C2E,0x2C5E,1,-1},{0x2C2F,0x2C2F,0x2C5F,1,-1},{0x2C30,0x2C00,0x2C30,2,-1},{0x2C31,0x2C01,0x2C31,2,-1},
{0x2C32,0x2C02,0x2C32,2,-1},{0x2C33,0x2C03,0x2C33,2,-1},{0x2C34,0x2C04,0x2C34,2,-1},{0x2C35,0x2C05,0x2C35,2,-1},{0x2C36,0x2C06,0x2C36,2,-1},{0x2C37,0x2C07,0x2C37,2,-1},
{0x2C38,0x2C08,0x2C38,2,-1},{0x2C39,0x2C09,0x2C39,2,-1},{0x2C3A,0x2C0A,0x2C3A,2,-1},{0x2C3B,0x2C0B,0x2C3B,2,-1},{0x2C3C,0x2C0C,0x2C3C,2,-1},{0x2C3D,0x2C0D,0x2C3D,2,-1},
{0x2C3E,0x2C0E,0x2C3E,2,-1},{0x2C3F,0x2C0F,0x2C3F,2,-1},{0x2C40,0x2C10,0x2C40,2,-1},{0x2C41,0x2C11,0x2C41,2,-1},{0x2C42,0x2C12,0x2C42,2,-1},{0x2C43,0x2C13,0x2C43,2,-1},
{0x2C44,0x2C14,0x2C44,2,-1},{0x2C45,0x2C15,0x2C45,2,-1},{0x2C46,0x2C16,0x2C46,2,-1},{0x2C47,0x2C17,0x2C47,2,-1},{0x2C48,0x2C18,0x2C48,2,-1},{0x2C49,0x2C19,0x2C49,2,-1},
{0x2C4A,0x2C1A,0x2C4A,2,-1},{0x2C4B,0x2C1B,0x2C4B,2,-1},{0x2C4C,0x2C1C,0x2C4C,2,-1},{0x2C4D,0x2C1D,0x2C4D,2,-1},{0x2C4E,0x2C1E,0x2C4E,2,-1},{0x2C4F,0x2C1F,0x2C4F,2,-1},
{0x2C50,0x2C20,0x2C50,2,-1},{0x2C51,0x2C21,0x2C51,2,-1},{0x2C52,0x2C22,0x2C52,2,-1},{0x2C53,0x2C23,0x2C53,2,-1},{0x2C54,0x2C24,0x2C54,2,-1},{0x2C55,0x2C25,0x2C55,2,-1},
{0x2C56,0x2C26,0x2C56,2,-1},{0x2C57,0x2C27,0x2C57,2,-1},{0x2C58,0x2C28,0x2C58,2,-1},{0x2C59,0x2C29,0x2C59,2,-1},{0x2C5A,0x2C2A,0x2C5A,2,-1},{0x2C5B,0x2C2B,0x2C5B,2,-1},
{0x2C5C,0x2C2C,0x2C5C,2,-1},{0x2C5D,0x2C2D,0x2C5D,2,-1},{0x2C5E,0x2C2E,0x2C5E,2,-1},{0x2C5F,0x2C2F,0x2C5F,2,-1},{0x2C60,0x2C60,0x2C61,1,-1},{0x2C61,0x2C60,0x2C61,2,-1},
{0x2C62,0x2C62,0x26B,1,-1},{0x2C63,0x2C63,0x1D7D,1,-1},{0x2C64,0x2C64,0x27D,1,-1},{0x2C65,0x23A,0x2C65,2,-1},{0x2C66,0x23E,0x2C66,2,-1},{0x2C67,0x2C67,0x2C68,1,-1},
{0x2C68,0x2C67,0x2C68,2,-1},{0x2C69,0x2C69,0x2C6A,1,-1},{0x2C6A,0x2C69,0x2C6A,2,-1},{0x2C6B,0x2C6B,0x2C6C,1,-1},{0x2C6C,0x2C6B,0x2C6C,2,-1},{0x2C6D,0x2C6D,0x251,1,-1},
{0x2C6E,0x2C6E,0x271,1,-1},{0x2C6F,0x2C6F,0x250,1,-1},{0x2C70,0x2C70,0x252,1,-1},{0x2C71,0x2C71,0x2C71,2,-1},{0x2C72,0x2C72,0x2C73,1,-1},{0x2C73,0x2C72,0x2C73,2,-1},
{0x2C74,0x2C74,0x2C74,2,-1},{0x2C75,0x2C75,0x2C76,1,-1},{0x2C76,0x2C75,0x2C76,2,-1},{0x2C77,0x2C77,0x2C77,2,-1},{0x2C78,0x2C78,0x2C78,2,-1},{0x2C79,0x2C79,0x2C79,2,-1},
{0x2C7A,0x2C7A,0x2C7A,2,-1},{0x2C7B,0x2C7B,0x2C7B,2,-1},{0x2C7E,0x2C7E,0x23F,1,-1},{0x2C7F,0x2C7F,0x240,1,-1},{0x2C80,0x2C80,0x2C81,1,-1},{0x2C81,0x2C80,0x2C81,2,-1},
{0x2C82,0x2C82,0x2C83,1,-1},{0x2C83,0x2C82,0x2C83,2,-1},{0x2C84,0x2C84,0x2C85,1,-1},{0x2C85,0x2C84,0x2C85,2,-1},{0x2C86,0x2C86,0x2C87,1,-1},{0x2C87,0x2C86,0x2C87,2,-1},
{0x2C88,0x2C88,0x2C89,1,-1},{0x2C89,0x2C88,0x2C89,2,-1},{0x2C8A,0x2C8A,0x2C8B,1,-1},{0x2C8B,0x2C8A,0x2C8B,2,-1},{0x2C8C,0x2C8C,0x2C8D,1,-1},{0x2C8D,0x2C8C,0x2C8D,2,-1},
{0x2C8E,0x2C8E,0x2C8F,1,-1},{0x2C8F,0x2C8E,0x2C8F,2,-1},{0x2C90,0x2C90,0x2C91,1,-1},{0x2C91,0x2C90,0x2C91,2,-1},{0x2C92,0x2C92,0x2C93,1,-1},{0x2C93,0x2C92,0x2C93,2,-1},
{0x2C94,0x2C94,0x2C95,1,-1},{0x2C95,0x2C94,0x2C95,2,-1},{0x2C96,0x2C96,0x2C97,1,-1},{0x2C97,0x2C96,0x2C97,2,-1},{0x2C98,0x2C98,0x2C99,1,-1},{0x2C99,0x2C98,0x2C99,2,-1},
{0x2C9A,0x2C9A,0x2C9B,1,-1},{0x2C9B,0x2C9A,0x2C9B,2,-1},{0x2C9C,0x2C9C,0x2C9D,1,-1},{0x2C9D,0x2C9C,0x2C9D,2,-1},{0x2C9E,0x2C9E,0x2C9F,1,-1},{0x2C9F,0x2C9E,0x2C9F,2,-1},
{0x2CA0,0x2CA0,0x2CA1,1,-1},{0x2CA1,0x2CA0,0x2CA1,2,-1},{0x2CA2,0x2CA2,0x2CA3,1,-1},{0x2CA3,0x2CA2,0x2CA3,2,-1},{0x2CA4,0x2CA4,0x2CA5,1,-1},{0x2CA5,0x2CA4,0x2CA5,2,-1},
{0x2CA6,0x2CA6,0x2CA7,1,-1},{0x2CA7,0x2CA6,0x2CA7,2,-1},{0x2CA8,0x2CA8,0x2CA9,1,-1},{0x2CA9,0x2CA8,0x2CA9,2,-1},{0x2CAA,0x2CAA,0x2CAB,1,-1},{0x2CAB,0x2CAA,0x2CAB,2,-1},
{0x2CAC,0x2CAC,0x2CAD,1,-1},{0x2CAD,0x2CAC,0x2CAD,2,-1},{0x2CAE,0x2CAE,0x2CAF,1,-1},{0x2CAF,0x2CAE,0x2CAF,2,-1},{0x2CB0,0x2CB0,0x2CB1,1,-1},{0x2CB1,0x2CB0,0x2CB1,2,-1},
{0x2CB2,0x2CB2,0x2CB3,1,-1},{0x2CB3,0x2CB2,0x2CB3,2,-1},{0x2CB4,0x2CB4,0x2CB5,1,-1},{0x2CB5,0x2CB4,0x2CB5,2,-1},{0x2CB6,0x2CB6,0x2CB7,1,-1},{0x2CB7,0x2CB6,0x2CB7,2,-1},
{0x2CB8,0x2CB8,0x2CB9,1,-1},{0x2CB9,0x2CB8,0x2CB9,2,-1},{0x2CBA,0x2CBA,0x2CBB,1,-1},{0x2CBB,0x2CBA,0x2CBB,2,-1},{0x2CBC,0x2CBC,0x2CBD,1,-1},{0x2CBD,0x2CBC,0x2CBD,2,-1},
{0x2CBE,0x2CBE,0x2CBF,1,-1},{0x2CBF,0x2CBE,0x2CBF,2,-1},{0x2CC0,0x2CC0,0x2CC1,1,-1},{0x2CC1,0x2CC0,0x2CC1,2,-1},{0x2CC2,0x2CC2,0x2CC3,1,-1},{0x2CC3,0x2CC2,0x2CC3,2,-1},
{0x2CC4,0x2CC4,0x2CC5,1,-1},{0x2CC5,0x2CC4,0x2CC5,2,-1},{0x2CC6,0x2CC6,0x2CC7,1,-1},{0x2CC7,0x2CC6,0x2CC7,2,-1},{0x2CC8,0x2CC8,0x2CC9,1,-1},{0x2CC9,0x2CC8,0x2CC9,2,-1},
{0x2CCA,0x2CCA,0x2CCB,1,-1},{0x2CCB,0x2CCA,0x2CCB,2,-1},{0x2CCC,0x2CCC,0x2CCD,1,-1},{0x2CCD,0x2CCC,0x2CCD,2,-1},{0x2CCE,0x2CCE,0x2CCF,1,-1},{0x2CCF,0x2CCE,0x2CCF,2,-1},
{0x2CD0,0x2CD0,0x2CD1,1,-1},{0x2CD1,0x2CD0,0x2CD1,2,-1},{0x2CD2,0x2CD2,0x2CD3,1,-1},{0x2CD3,0x2CD2,0x2CD3,2,-1},{0x2CD4,0x2CD4,0x2CD5,1,-1},{0x2CD5,0x2CD4,0x2CD5,2,-1},
{0x2CD6,0x2CD6,0x2CD7,1,-1},{0x2CD7,0x2CD6,0x2CD7,2,-1},{0x2CD8,0x2CD8,0x2CD9,1,-1},{0x2CD9,0x2CD8,0x2CD9,2,-1},{0x2CDA,0x2CDA,0x2CDB,1,-1},{0x2CDB,0x2CDA,0x2CDB,2,-1},
{0x2CDC,0x2CDC,0x2CDD,1,-1},{0x2CDD,0x2CDC,0x2CDD,2,-1},{0x2CDE,0x2CDE,0x2CDF,1,-1},{0x2CDF,0x2CDE,0x2CDF,2,-1},{0x2CE0,0x2CE0,0x2CE1,1,-1},{0x2CE1,0x2CE0,0x2CE1,2,-1},
{0x2CE2,0x2CE2,0x2CE3,1,-1},{0x2CE3,0x2CE2,0x2CE3,2,-1},{0x2CE4,0x2CE4,0x2CE4,2,-1},{0x2CEB,0x2CEB,0x2CEC,1,-1},{0x2CEC,0x2CEB,0x2CEC,2,-1},{0x2CED,0x2CED,0x2CEE,1,-1},
{0x2CEE,0x2CED,0x2CEE,2,-1},{0x2CF2,0x2CF2,0x2CF3,1,-1},{0x2CF3,0x2CF2,0x2CF3,2,-1},{0x2D00,0x10A0,0x2D00,2,-1},{0x2D01,0x10A1,0x2D01,2,-1},{0x2D02,0x10A2,0x2D02,2,-1},
{0x2D03,0x10A3,0x2D03,2,-1},{0x2D04,0x10A4,0x2D04,2,-1},{0x2D05,0x10A5,0x2D05,2,-1},{0x2D06,0x10A6,0x2D06,2,-1},{0x2D07,0x10A7,0x2D07,2,-1},{0x2D08,0x10A8,0x2D08,2,-1},
{0x2D09,0x10A9,0x2D09,2,-1},{0x2D0A,0x10AA,0x2D0A,2,-1},{0x2D0B,0x10AB,0x2D0B,2,-1},{0x2D0C,0x10AC,0x2D0C,2,-1},{0x2D0D,0x10AD,0x2D0D,2,-1},{0x2D0E,0x10AE,0x2D0E,2,-1},
{0x2D0F,0x10AF,0x2D0F,2,-1},{0x2D10,0x10B0,0x2D10,2,-1},{0x2D11,0x10B1,0x2D11,2,-1},{0x2D12,0x10B2,0x2D12,2,-1},{0x2D13,0x10B3,0x2D13,2,-1},{0x2D14,0x10B4,0x2D14,2,-1},
{0x2D15,0x10B5,0x2D15,2,-1},{0x2D16,0x10B6,0x2D16,2,-1},{0x2D17,0x10B7,0x2D17,2,-1},{0x2D18,0x10B8,0x2D18,2,-1},{0x2D19,0x10B9,0x2D19,2,-1},{0x2D1A,0x10BA,0x2D1A,2,-1},
{0x2D1B,0x10BB,0x2D1B,2,-1},{0x2D1C,0x10BC,0x2D1C,2,-1},{0x2D1D,0x10BD,0x2D1D,2,-1},{0x2D1E,0x10BE,0x2D1E,2,-1},{0x2D1F,0x10BF,0x2D1F,2,-1},{0x2D20,0x10C0,0x2D20,2,-1},
{0x2D21,0x10C1,0x2D21,2,-1},{0x2D22,0x10C2,0x2D22,2,-1},{0x2D23,0x10C3,0x2D23,2,-1},{0x2D24,0x10C4,0x2D24,2,-1},{0x2D25,0x10C5,0x2D25,2,-1},{0x2D27,0x10C7,0x2D27,2,-1},
{0x2D2D,0x10CD,0x2D2D,2,-1},{0xA620,0xA620,0xA620,0,0},{0xA621,0xA621,0xA621,0,1},{0xA622,0xA622,0xA622,0,2},{0xA623,0xA623,0xA623,0,3},{0xA624,0xA624,0xA624,0,4},
{0xA625,0xA625,0xA625,0,5},{0xA626,0xA626,0xA626,0,6},{0xA627,0xA627,0xA627,0,7},{0xA628,0xA628,0xA628,0,8},{0xA629,0xA629,0xA629,0,9},{0xA640,0xA640,0xA641,1,-1},
{0xA641,0xA640,0xA641,2,-1},{0xA642,0xA642,0xA643,1,-1},{0xA643,0xA642,0xA643,2,-1},{0xA644,0xA644,0xA645,1,-1},{0xA645,0xA644,0xA645,2,-1},{0xA646,0xA646,0xA647,1,-1},
{0xA647,0xA646,0xA647,2,-1},{0xA648,0xA648,0xA649,1,-1},{0xA649,0xA648,0xA649,2,-1},{0xA64A,0xA64A,0xA64B,1,-1},{0xA64B,0xA64A,0xA64B,2,-1},{0xA64C,0xA64C,0xA64D,1,-1},
{0xA64D,0xA64C,0xA64D,2,-1},{0xA64E,0xA64E,0xA64F,1,-1},{0xA64F,0xA64E,0xA64F,2,-1},{0xA650,0xA650,0xA651,1,-1},{0xA651,0xA650,0xA651,2,-1},{0xA652,0xA652,0xA653,1,-1},
{0xA653,0xA652,0xA653,2,-1},{0xA654,0xA654,0xA655,1,-1},{0xA655,0xA654,0xA655,2,-1},{0xA656,0xA656,0xA657,1,-1},{0xA657,0xA656,0xA657,2,-1},{0xA658,0xA658,0xA659,1,-1},
{0xA659,0xA658,0xA659,2,-1},{0xA65A,0xA65A,0xA65B,1,-1},{0xA65B,0xA65A,0xA65B,2,-1},{0xA65C,0xA65C,0xA65D,1,-1},{0xA65D,0xA65C,0xA65D,2,-1},{0xA65E,0xA65E,0xA65F,1,-1},
{0xA65F,0xA65E,0xA65F,2,-1},{0xA660,0xA660,0xA661,1,-1},{0xA661,0xA660,0xA661,2,-1},{0xA662,0xA662,0xA663,1,-1},{0xA663,0xA662,0xA663,2,-1},{0xA664,0xA664,0xA665,1,-1},
{0xA665,0xA664,0xA665,2,-1},{0xA666,0xA666,0xA667,1,-1},{0xA667,0xA666,0xA667,2,-1},{0xA668,0xA668,0xA669,1,-1},{0xA669,0xA668,0xA669,2,-1},{0xA66A,0xA66A,0xA66B,1,-1},
{0xA66B,0xA66A,0xA66B,2,-1},{0xA66C,0xA66C,0xA66D,1,-1},{0xA66D,0xA66C,0xA66D,2,-1},{0xA680,0xA680,0xA681,1,-1},{0xA681,0xA680,0xA681,2,-1},{0xA682,0xA682,0xA683,1,-1},
{0xA683,0xA682,0xA683,2,-1},{0xA684,0xA684,0xA685,1,-1},{0xA685,0xA684,0xA685,2,-1},{0xA686,0xA686,0xA687,1,-1},{0xA687,0xA686,0xA687,2,-1},{0xA688,0xA688,0xA689,1,-1},
{0xA689,0xA688,0xA689,2,-1},{0xA68A,0xA68A,0xA68B,1,-1},{0xA68B,0xA68A,0xA68B,2,-1},{0xA68C,0xA68C,0xA68D,1,-1},{0xA68D,0xA68C,0xA68D,2,-1},{0xA68E,0xA68E,0xA68F,1,-1},
{0xA68F,0xA68E,0xA68F,2,-1},{0xA690,0xA690,0xA691,1,-1},{0xA691,0xA690,0xA691,2,-1},{0xA692,0xA692,0xA693,1,-1},{0xA693,0xA692,0xA693,2,-1},{0xA694,0xA694,0xA695,1,-1},
{0xA695,0xA694,0xA695,2,-1},{0xA696,0xA696,0xA697,1,-1},{0xA697,0xA696,0xA697,2,-1},{0xA698,0xA698,0xA699,1,-1},{0xA699,0xA698,0xA699,2,-1},{0xA69A,0xA69A,0xA69B,1,-1},
{0xA69B,0xA69A,0xA69B,2,-1},{0xA722,0xA722,0xA723,1,-1},{0xA723,0xA722,0xA723,2,-1},{0xA724,0xA724,0xA725,1,-1},{0xA725,0xA724,0xA725,2,-1},{0xA726,0xA726,0xA727,1,-1},
{0xA727,0xA726,0xA727,2,-1},{0xA728,0xA728,0xA729,1,-1},{0xA729,0xA728,0xA729,2,-1},{0xA72A,0xA72A,0xA72B,1,-1},{0xA72B,0xA72A,0xA72B,2,-1},{0xA72C,0xA72C,0xA72D,1,-1},
{0xA72D,0xA72C,0xA72D,2,-1},{0xA72E,0xA72E,0xA72F,1,-1},{0xA72F,0xA72E,0xA72F,2,-1},{0xA730,0xA730,0xA730,2,-1},{0xA731,0xA731,0xA731,2,-1},{0xA732,0xA732,0xA733,1,-1},
{0xA733,0xA732,0xA733,2,-1},{0xA734,0xA734,0xA735,1,-1},{0xA735,0xA734,0xA735,2,-1},{0xA736,0xA736,0xA737,1,-1},{0xA737,0xA736,0xA737,2,-1},{0xA738,0xA738,0xA739,1,-1},
{0xA739,0xA738,0xA739,2,-1},{0xA73A,0xA73A,0xA73B,1,-1},{0xA73B,0xA73A,0xA73B,2,-1},{0xA73C,0xA73C,0xA73D,1,-1},{0xA73D,0xA73C,0xA73D,2,-1},{0xA73E,0xA73E,0xA73F,1,-1},
{0xA73F,0xA73E,0xA73F,2,-1},{0xA740,0xA740,0xA741,1,-1},{0xA741,0xA740,0xA741,2,-1},{0xA742,0xA742,0xA743,1,-1},{0xA743,0xA742,0xA743,2,-1},{0xA744,0xA744,0xA745,1,-1},
{0xA745,0xA744,0xA745,2,-1},{0xA746,0xA746,0xA747,1,-1},{0xA747,0xA746,0xA747,2,-1},{0xA748,0xA748,0xA749,1,-1},{0xA749,0xA748,0xA749,2,-1},{0xA74A,0xA74A,0xA74B,1,-1},
{0xA74B,0xA74A,0xA74B,2,-1},{0xA74C,0xA74C,0xA74D,1,-1},{0xA74D,0xA74C,0xA74D,2,-1},{0xA74E,0xA74E,0xA74F,1,-1},{0xA74F,0xA74E,0xA74F,2,-1},{0xA750,0xA750,0xA751,1,-1},
{0xA751,0xA750,0xA751,2,-1},{0xA752,0xA752,0xA753,1,-1},{0xA753,0xA752,0xA753,2,-1},{0xA754,0xA754,0xA755,1,-1},{0xA755,0xA754,0xA755,2,-1},{0xA756,0xA756,0xA757,1,-1},
{0xA757,0xA756,0xA757,2,-1},{0xA758,0xA758,0xA759,1,-1},{0xA759,0xA758,0xA759,2,-1},{0xA75A,0xA75A,0xA75B,1,-1},{0xA75B,0xA75A,0xA75B,2,-1},{0xA75C,0xA75C,0xA75D,1,-1},
{0xA75D,0xA75C,0xA75D,2,-1},{0xA75E,0xA75E,0xA75F,1,-1},{0xA75F,0xA75E,0xA75F,2,-1},{0xA760,0xA760,0xA761,1,-1},{0xA761,0xA760,0xA761,2,-1},{0xA762,0xA762,0xA763,1,-1},
{0xA763,0xA762,0xA763,2,-1},{0xA764,0xA764,0xA765,1,-1},{0xA765,0xA764,0xA765,2,-1},{0xA766,0xA766,0xA767,1,-1},{0xA767,0xA766,0xA767,2,-1},{0xA768,0xA768,0xA769,1,-1},
{0xA769,0xA768,0xA769,2,-1},{0xA76A,0xA76A,0xA76B,1,-1},{0xA76B,0xA76A,0xA76B,2,-1},{0xA76C,0xA76C,0xA76D,1,-1},{0xA76D,0xA76C,0xA76D,2,-1},{0xA76E,0xA76E,0xA76F,1,-1},
{0xA76F,0xA76E,0xA76F,2,-1},{0xA771,0xA771,0xA771,2,-1},{0xA772,0xA772,0xA772,2,-1},{0xA773,0xA773,0xA773,2,-1},{0xA774,0xA774,0xA774,2,-1},{0xA775,0xA775,0xA775,2,-1},
{0xA776,0xA776,0xA776,2,-1},{0xA777,0xA777,0xA777,2,-1},{0xA778,0xA778,0xA778,2,-1},{0xA779,0xA779,0xA77A,1,-1},{0xA77A,0xA779,0xA77A,2,-1},{0xA77B,0xA77B,0xA77C,1,-1},
{0xA77C,0xA77B,0xA77C,2,-1},{0xA77D,0xA77D,0x1D79,1,-1},{0xA77E,0xA77E,0xA77F,1,-1},{0xA77F,0xA77E,0xA77F,2,-1},{0xA780,0xA780,0xA781,1,-1},{0xA781,0xA780,0xA781,2,-1},
{0xA782,0xA782,0xA783,1,-1},{0xA783,0xA782,0xA783,2,-1},{0xA784,0xA784,0xA785,1,-1},{0xA785,0xA784,0xA785,2,-1},{0xA786,0xA786,0xA787,1,-1},{0xA787,0xA786,0xA787,2,-1},
{0xA78B,0xA78B,0xA78C,1,-1},{0xA78C,0xA78B,0xA78C,2,-1},{0xA78D,0xA78D,0x265,1,-1},{0xA78E,0xA78E,0xA78E,2,-1},{0xA790,0xA790,0xA791,1,-1},{0xA791,0xA790,0xA791,2,-1},
{0xA792,0xA792,0xA793,1,-1},{0xA793,0xA792,0xA793,2,-1},{0xA794,0xA7C4,0xA794,2,-1},{0xA795,0xA795,0xA795,2,-1},{0xA796,0xA796,0xA797,1,-1},{0xA797,0xA796,0xA797,2,-1},
{0xA798,0xA798,0xA799,1,-1},{0xA799,0xA798,0xA799,2,-1},{0xA79A,0xA79A,0xA79B,1,-1},{0xA79B,0xA79A,0xA79B,2,-1},{0xA79C,0xA79C,0xA79D,1,-1},{0xA79D,0xA79C,0xA79D,2,-1},
{0xA79E,0xA79E,0xA79F,1,-1},{0xA79F,0xA79E,0xA79F,2,-1},{0xA7A0,0xA7A0,0xA7A1,1,-1},{0xA7A1,0xA7A0,0xA7A1,2,-1},{0xA7A2,0xA7A2,0xA7A3,1,-1},{0xA7A3,0xA7A2,0xA7A3,2,-1},
{0xA7A4,0xA7A4,0xA7A5,1,-1},{0xA7A5,0xA7A4,0xA7A5,2,-1},{0xA7A6,0xA7A6,0xA7A7,1,-1},{0xA7A7,0xA7A6,0xA7A7,2,-1},{0xA7A8,0xA7A8,0xA7A9,1,-1},{0xA7A9,0xA7A8,0xA7A9,2,-1},
{0xA7AA,0xA7AA,0x266,1,-1},{0xA7AB,0xA7AB,0x25C,1,-1},{0xA7AC,0xA7AC,0x261,1,-1},{0xA7AD,0xA7AD,0x26C,1,-1},{0xA7AE,0xA7AE,0x26A,1,-1},{0xA7AF,0xA7AF,0xA7AF,2,-1},
{0xA7B0,0xA7B0,0x29E,1,-1},{0xA7B1,0xA7B1,0x287,1,-1},{0xA7B2,0xA7B2,0x29D,1,-1},{0xA7B3,0xA7B3,0xAB53,1,-1},{0xA7B4,0xA7B4,0xA7B5,1,-1},{0xA7B5,0xA7B4,0xA7B5,2,-1},
{0xA7B6,0xA7B6,0xA7B7,1,-1},{0xA7B7,0xA7B6,0xA7B7,2,-1},{0xA7B8,0xA7B8,0xA7B9,1,-1},{0xA7B9,0xA7B8,0xA7B9,2,-1},{0xA7BA,0xA7BA,0xA7BB,1,-1},{0xA7BB,0xA7BA,0xA7BB,2,-1},
{0xA7BC,0xA7BC,0xA7BD,1,-1},{0xA7BD,0xA7BC,0xA7BD,2,-1},{0xA7BE,0xA7BE,0xA7BF,1,-1},{0xA7BF,0xA7BE,0xA7BF,2,-1},{0xA7C0,0xA7C0,0xA7C1,1,-1},{0xA7C1,0xA7C0,0xA7C1,2,-1},
{0xA7C2,0xA7C2,0xA7C3,1,-1},{0xA7C3,0xA7C2,0xA7C3,2,-1},{0xA7C4,0xA7C4,0xA794,1,-1},{0xA7C5,0xA7C5,0x282,1,-1},{0xA7C6,0xA7C6,0x1D8E,1,-1},{0xA7C7,0xA7C7,0xA7C8,1,-1},
{0xA7C8,0xA7C7,0xA7C8,2,-1},{0xA7C9,0xA7C9,0xA7CA,1,-1},{0xA7CA,0xA7C9,0xA7CA,2,-1},{0xA7D0,0xA7D0,0xA7D1,1,-1},{0xA7D1,0xA7D0,0xA7D1,2,-1},{0xA7D3,0xA7D3,0xA7D3,2,-1},
{0xA7D5,0xA7D5,0xA7D5,2,-1},{0xA7D6,0xA7D6,0xA7D7,1,-1},{0xA7D7,0xA7D6,0xA7D7,2,-1},{0xA7D8,0xA7D8,0xA7D9,1,-1},{0xA7D9,0xA7D8,0xA7D9,2,-1},{0xA7F5,0xA7F5,0xA7F6,1,-1},
{0xA7F6,0xA7F5,0xA7F6,2,-1},{0xA7FA,0xA7FA,0xA7FA,2,-1},{0xA8D0,0xA8D0,0xA8D0,0,0},{0xA8D1,0xA8D1,0xA8D1,0,1},{0xA8D2,0xA8D2,0xA8D2,0,2},{0xA8D3,0xA8D3,0xA8D3,0,3},
{0xA8D4,0xA8D4,0xA8D4,0,4},{0xA8D5,0xA8D5,0xA8D5,0,5},{0xA8D6,0xA8D6,0xA8D6,0,6},{0xA8D7,0xA8D7,0xA8D7,0,7},{0xA8D8,0xA8D8,0xA8D8,0,8},{0xA8D9,0xA8D9,0xA8D9,0,9},
{0xA900,0xA900,0xA900,0,0},{0xA901,0xA901,0xA901,0,1},{0xA902,0xA902,0xA902,0,2},{0xA903,0xA903,0xA903,0,3},{0xA904,0xA904,0xA904,0,4},{0xA905,0xA905,0xA905,0,5},
{0xA906,0xA906,0xA906,0,6},{0xA907,0xA907,0xA907,0,7},{0xA908,0xA908,0xA908,0,8},{0xA909,0xA909,0xA909,0,9},{0xA9D0,0xA9D0,0xA9D0,0,0},{0xA9D1,0xA9D1,0xA9D1,0,1},
{0xA9D2,0xA9D2,0xA9D2,0,2},{0xA9D3,0xA9D3,0xA9D3,0,3},{0xA9D4,0xA9D4,0xA9D4,0,4},{0xA9D5,0xA9D5,0xA9D5,0,5},{0xA9D6,0xA9D6,0xA9D6,0,6},{0xA9D7,0xA9D7,0xA9D7,0,7},
{0xA9D8,0xA9D8,0xA9D8,0,8},{0xA9D9,0xA9D9,0xA9D9,0,9},{0xA9F0,0xA9F0,0xA9F0,0,0},{0xA9F1,0xA9F1,0xA9F1,0,1},{0xA9F2,0xA9F2,0xA9F2,0,2},{0xA9F3,0xA9F3,0xA9F3,0,3},
{0xA9F4,0xA9F4,0xA9F4,0,4},{0xA9F5,0xA9F5,0xA9F5,0,5},{0xA9F6,0xA9F6,0xA9F6,0,6},{0xA9F7,0xA9F7,0xA9F7,0,7},{0xA9F8,0xA9F8,0xA9F8,0,8},{0xA9F9,0xA9F9,0xA9F9,0,9},
{0xAA50,0xAA50,0xAA50,0,0},{0xAA51,0xAA51,0xAA51,0,1},{0xAA52,0xAA52,0xAA52,0,2},{0xAA53,0xAA53,0xAA53,0,3},{0xAA54,0xAA54,0xAA54,0,4},{0xAA55,0xAA55,0xAA55,0,5},
{0xAA56,0xAA56,0xAA56,0,6},{0xAA57,0xAA57,0xAA57,0,7},{0xAA58,0xAA58,0xAA58,0,8},{0xAA59,0xAA59,0xAA59,0,9},{0xAB30,0xAB30,0xAB30,2,-1},{0xAB31,0xAB31,0xAB31,2,-1},
{0xAB32,0xAB32,0xAB32,2,-1},{0xAB33,0xAB33,0xAB33,2,-1},{0xAB34,0xAB34,0xAB34,2,-1},{0xAB35,0xAB35,0xAB35,2,-1},{0xAB36,0xAB36,0xAB36,2,-1},{0xAB37,0xAB37,0xAB37,2,-1},
{0xAB38,0xAB38,0xAB38,2,-1},{0xAB39,0xAB39,0xAB39,2,-1},{0xAB3A,0xAB3A,0xAB3A,2,-1},{0xAB3B,0xAB3B,0xAB3B,2,-1},{0xAB3C,0xAB3C,0xAB3C,2,-1},{0xAB3D,0xAB3D,0xAB3D,2,-1},
{0xAB3E,0xAB3E,0xAB3E,2,-1},{0xAB3F,0xAB3F,0xAB3F,2,-1},{0xAB40,0xAB40,0xAB40,2,-1},{0xAB41,0xAB41,0xAB41,2,-1},{0xAB42,0xAB42,0xAB42,2,-1},{0xAB43,0xAB43,0xAB43,2,-1},
{0xAB44,0xAB44,0xAB44,2,-1},{0xAB45,0xAB45,0xAB45,2,-1},{0xAB46,0xAB46,0xAB46,2,-1},{0xAB47,0xAB47,0xAB47,2,-1},{0xAB48,0xAB48,0xAB48,2,-1},{0xAB49,0xAB49,0xAB49,2,-1},
{0xAB4A,0xAB4A,0xAB4A,2,-1},{0xAB4B,0xAB4B,0xAB4B,2,-1},{0xAB4C,0xAB4C,0xAB4C,2,-1},{0xAB4D,0xAB4D,0xAB4D,2,-1},{0xAB4E,0xAB4E,0xAB4E,2,-1},{0xAB4F,0xAB4F,0xAB4F,2,-1},
{0xAB50,0xAB50,0xAB50,2,-1},{0xAB51,0xAB51,0xAB51,2,-1},{0xAB52,0xAB52,0xAB52,2,-1},{0xAB53,0xA7B3,0xAB53,2,-1},{0xAB54,0xAB54,0xAB54,2,-1},{0xAB55,0xAB55,0xAB55,2,-1},
{0xAB56,0xAB56,0xAB56,2,-1},{0xAB57,0xAB57,0xAB57,2,-1},{0xAB58,0xAB58,0xAB58,2,-1},{0xAB59,0xAB59,0xAB59,2,-1},{0xAB5A,0xAB5A,0xAB5A,2,-1},{0xAB60,0xAB60,0xAB60,2,-1},
{0xAB61,0xAB61,0xAB61,2,-1},{0xAB62,0xAB62,0xAB62,2,-1},{0xAB63,0xAB63,0xAB63,2,-1},{0xAB64,0xAB64,0xAB64,2,-1},{0xAB65,0xAB65,0xAB65,2,-1},{0xAB66,0xAB66,0xAB66,2,-1},
{0xAB67,0xAB67,0xAB67,2,-1},{0xAB68,0xAB68,0xAB68,2,-1},{0xAB70,0x13A0,0xAB70,2,-1},{0xAB71,0x13A1,0xAB71,2,-1},{0xAB72,0x13A2,0xAB72,2,-1},{0xAB73,0x13A3,0xAB73,2,-1},
{0xAB74,0x13A4,0xAB74,2,-1},{0xAB75,0x13A5,0xAB75,2,-1},{0xAB76,0x13A6,0xAB76,2,-1},{0xAB77,0x13A7,0xAB77,2,-1},{0xAB78,0x13A8,0xAB78,2,-1},{0xAB79,0x13A9,0xAB79,2,-1},
{0xAB7A,0x13AA,0xAB7A,2,-1},{0xAB7B,0x13AB,0xAB7B,2,-1},{0xAB7C,0x13AC,0xAB7C,2,-1},{0xAB7D,0x13AD,0xAB7D,2,-1},{0xAB7E,0x13AE,0xAB7E,2,-1},{0xAB7F,0x13AF,0xAB7F,2,-1},
{0xAB80,0x13B0,0xAB80,2,-1},{0xAB81,0x13B1,0xAB81,2,-1},{0xAB82,0x13B2,0xAB82,2,-1},{0xAB83,0x13B3,0xAB83,2,-1},{0xAB84,0x13B4,0xAB84,2,-1},{0xAB85,0x13B5,0xAB85,2,-1},
{0xAB86,0x13B6,0xAB86,2,-1},{0xAB87,0x13B7,0xAB87,2,-1},{0xAB88,0x13B8,0xAB88,2,-1},{0xAB89,0x13B9,0xAB89,2,-1},{0xAB8A,0x13BA,0xAB8A,2,-1},{0xAB8B,0x13BB,0xAB8B,2,-1},
{0xAB8C,0x13BC,0xAB8C,2,-1},{0xAB8D,0x13BD,0xAB8D,2,-1},{0xAB8E,0x13BE,0xAB8E,2,-1},{0xAB8F,0x13BF,0xAB8F,2,-1},{0xAB90,0x13C0,0xAB90,2,-1},{0xAB91,0x13C1,0xAB91,2,-1},
{0xAB92,0x13C2,0xAB92,2,-1},{0xAB93,0x13C3,0xAB93,2,-1},{0xAB94,0x13C4,0xAB94,2,-1},{0xAB95,0x13C5,0xAB95,2,-1},{0xAB96,0x13C6,0xAB96,2,-1},{0xAB97,0x13C7,0xAB97,2,-1},
{0xAB98,0x13C8,0xAB98,2,-1},{0xAB99,0x13C9,0xAB99,2,-1},{0xAB9A,0x13CA,0xAB9A,2,-1},{0xAB9B,0x13CB,0xAB9B,2,-1},{0xAB9C,0x13CC,0xAB9C,2,-1},{0xAB9D,0x13CD,0xAB9D,2,-1},
{0xAB9E,0x13CE,0xAB9E,2,-1},{0xAB9F,0x13CF,0xAB9F,2,-1},{0xABA0,0x13D0,0xABA0,2,-1},{0xABA1,0x13D1,0xABA1,2,-1},{0xABA2,0x13D2,0xABA2,2,-1},{0xABA3,0x13D3,0xABA3,2,-1},
{0xABA4,0x13D4,0xABA4,2,-1},{0xABA5,0x13D5,0xABA5,2,-1},{0xABA6,0x13D6,0xABA6,2,-1},{0xABA7,0x13D7,0xABA7,2,-1},{0xABA8,0x13D8,0xABA8,2,-1},{0xABA9,0x13D9,0xABA9,2,-1},
{0xABAA,0x13DA,0xABAA,2,-1},{0xABAB,0x13DB,0xABAB,2,-1},{0xABAC,0x13DC,0xABAC,2,-1},{0xABAD,0x13DD,0xABAD,2,-1},{0xABAE,0x13DE,0xABAE,2,-1},{0xABAF,0x13DF,0xABAF,2,-1},
{0xABB0,0x13E0,0xABB0,2,-1},{0xABB1,0x13E1,0xABB1,2,-1},{0xABB2,0x13E2,0xABB2,2,-1},{0xABB3,0x13E3,0xABB3,2,-1},{0xABB4,0x13E4,0xABB4,2,-1},{0xABB5,0x13E5,0xABB5,2,-1},
{0xABB6,0x13E6,0xABB6,2,-1},{0xABB7,0x13E7,0xABB7,2,-1},{0xABB8,0x13E8,0xABB8,2,-1},{0xABB9,0x13E9,0xABB9,2,-1},{0xABBA,0x13EA,0xABBA,2,-1},{0xABBB,0x13EB,0xABBB,2,-1},
{0xABBC,0x13EC,0xABBC,2,-1},{0xABBD,0x13ED,0xABBD,2,-1},{0xABBE,0x13EE,0xABBE,2,-1},{0xABBF,0x13EF,0xABBF,2,-1},{0xABF0,0xABF0,0xABF0,0,0},{0xABF1,0xABF1,0xABF1,0,1},
{0xABF2,0xABF2,0xABF2,0,2},{0xABF3,0xABF3,0xABF3,0,3},{0xABF4,0xABF4,0xABF4,0,4},{0xABF5,0xABF5,0xABF5,0,5},{0xABF6,0xABF6,0xABF6,0,6},{0xABF7,0xABF7,0xABF7,0,7},
{0xABF8,0xABF8,0xABF8,0,8},{0xABF9,0xABF9,0xABF9,0,9},{0xFB00,0xFB00,0xFB00,2,-1},{0xFB01,0xFB01,0xFB01,2,-1},{0xFB02,0xFB02,0xFB02,2,-1},{0xFB03,0xFB03,0xFB03,2,-1},
{0xFB04,0xFB04,0xFB04,2,-1},{0xFB05,0xFB05,0xFB05,2,-1},{0xFB06,0xFB06,0xFB06,2,-1},{0xFB13,0xFB13,0xFB13,2,-1},{0xFB14,0xFB14,0xFB14,2,-1},{0xFB15,0xFB15,0xFB15,2,-1},
{0xFB16,0xFB16,0xFB16,2,-1},{0xFB17,0xFB17,0xFB17,2,-1},{0xFF10,0xFF10,0xFF10,0,0},{0xFF11,0xFF11,0xFF11,0,1},{0xFF12,0xFF12,0xFF12,0,2},{0xFF13,0xFF13,0xFF13,0,3},
{0xFF14,0xFF14,0xFF14,0,4},{0xFF15,0xFF15,0xFF15,0,5},{0xFF16,0xFF16,0xFF16,0,6},{0xFF17,0xFF17,0xFF17,0,7},{0xFF18,0xFF18,0xFF18,0,8},{0xFF19,0xFF19,0xFF19,0,9},
{0xFF21,0xFF21,0xFF41,1,-1},{0xFF22,0xFF22,0xFF42,1,-1},{0xFF23,0xFF23,0xFF43,1,-1},{0xFF24,0xFF24,0xFF44,1,-1},{0xFF25,0xFF25,0xFF45,1,-1},{0xFF26,0xFF26,0xFF46,1,-1},
{0xFF27,0xFF27,0xFF47,1,-1},{0xFF28,0xFF28,0xFF48,1,-1},{0xFF29,0xFF29,0xFF49,1,-1},{0xFF2A,0xFF2A,0xFF4A,1,-1},{0xFF2B,0xFF2B,0xFF4B,1,-1},{0xFF2C,0xFF2C,0xFF4C,1,-1},
{0xFF2D,0xFF2D,0xFF4D,1,-1},{0xFF2E,0xFF2E,0xFF4E,1,-1},{0xFF2F,0xFF2F,0xFF4F,1,-1},{0xFF30,0xFF30,0xFF50,1,-1},{0xFF31,0xFF31,0xFF51,1,-1},{0xFF32,0xFF32,0xFF52,1,-1},
{0xFF33,0xFF33,0xFF53,1,-1},{0xFF34,0xFF34,0xFF54,1,-1},{0xFF35,0xFF35,0xFF55,1,-1},{0xFF36,0xFF36,0xFF56,1,-1},{0xFF37,0xFF37,0xFF57,1,-1},{0xFF38,0xFF38,0xFF58,1,-1},
{0xFF39,0xFF39,0xFF59,1,-1},{0xFF3A,0xFF3A,0xFF5A,1,-1},{0xFF41,0xFF21,0xFF41,2,-1},{0xFF42,0xFF22,0xFF42,2,-1},{0xFF43,0xFF23,0xFF43,2,-1},{0xFF44,0xFF24,0xFF44,2,-1},
{0xFF45,0xFF25,0xFF45,2,-1},{0xFF46,0xFF26,0xFF46,2,-1},{0xFF47,0xFF27,0xFF47,2,-1},{0xFF48,0xFF28,0xFF48,2,-1},{0xFF49,0xFF29,0xFF49,2,-1},{0xFF4A,0xFF2A,0xFF4A,2,-1},
{0xFF4B,0xFF2B,0xFF4B,2,-1},{0xFF4C,0xFF2C,0xFF4C,2,-1},{0xFF4D,0xFF2D,0xFF4D,2,-1},{0xFF4E,0xFF2E,0xFF4E,2,-1},{0xFF4F,0xFF2F,0xFF4F,2,-1},{0xFF50,0xFF30,0xFF50,2,-1},
{0xFF51,0xFF31,0xFF51,2,-1},{0xFF52,0xFF32,0xFF52,2,-1},{0xFF53,0xFF33,0xFF53,2,-1},{0xFF54,0xFF34,0xFF54,2,-1},{0xFF55,0xFF35,0xFF55,2,-1},{0xFF56,0xFF36,0xFF56,2,-1},
{0xFF57,0xFF37,0xFF57,2,-1},{0xFF58,0xFF38,0xFF58,2,-1},{0xFF59,0xFF39,0xFF59,2,-1},{0xFF5A,0xFF3A,0xFF5A,2,-1},{0x10400,0x10400,0x10428,1,-1},{0x10401,0x10401,0x10429,1,-1},
{0x10402,0x10402,0x1042A,1,-1},{0x10403,0x10403,0x1042B,1,-1},{0x10404,0x10404,0x1042C,1,-1},{0x10405,0x10405,0x1042D,1,-1},{0x10406,0x10406,0x1042E,1,-1},{0x10407,0x10407,0x1042F,1,-1},
{0x10408,0x10408,0x10430,1,-1},{0x10409,0x10409,0x10431,1,-1},{0x1040A,0x1040A,0x10432,1,-1},{0x1040B,0x1040B,0x10433,1,-1},{0x1040C,0x1040C,0x10434,1,-1},{0x1040D,0x1040D,0x10435,1,-1},
{0x1040E,0x1040E,0x10436,1,-1},{0x1040F,0x1040F,0x10437,1,-1},{0x10410,0x10410,0x10438,1,-1},{0x10411,0x10411,0x10439,1,-1},{0x10412,0x10412,0x1043A,1,-1},{0x10413,0x10413,0x1043B,1,-1},
{0x10414,0x10414,0x1043C,1,-1},{0x10415,0x10415,0x1043D,1,-1},{0x10416,0x10416,0x1043E,1,-1},{0x10417,0x10417,0x1043F,1,-1},{0x10418,0x10418,0x10440,1,-1},{0x10419,0x10419,0x10441,1,-1},
{0x1041A,0x1041A,0x10442,1,-1},{0x1041B,0x1041B,0x10443,1,-1},{0x1041C,0x1041C,0x10444,1,-1},{0x1041D,0x1041D,0x10445,1,-1},{0x1041E,0x1041E,0x10446,1,-1},{0x1041F,0x1041F,0x10447,1,-1},
{0x10420,0x10420,0x10448,1,-1},{0x10421,0x10421,0x10449,1,-1},{0x10422,0x10422,0x1044A,1,-1},{0x10423,0x10423,0x1044B,1,-1},{0x10424,0x10424,0x1044C,1,-1},{0x10425,0x10425,0x1044D,1,-1},
{0x10426,0x10426,0x1044E,1,-1},{0x10427,0x10427,0x1044F,1,-1},{0x10428,0x10400,0x10428,2,-1},{0x10429,0x10401,0x10429,2,-1},{0x1042A,0x10402,0x1042A,2,-1},{0x1042B,0x10403,0x1042B,2,-1},
{0x1042C,0x10404,0x1042C,2,-1},{0x1042D,0x10405,0x1042D,2,-1},{0x1042E,0x10406,0x1042E,2,-1},{0x1042F,0x10407,0x1042F,2,-1},{0x10430,0x10408,0x10430,2,-1},{0x10431,0x10409,0x10431,2,-1},
{0x10432,0x1040A,0x10432,2,-1},{0x10433,0x1040B,0x10433,2,-1},{0x10434,0x1040C,0x10434,2,-1},{0x10435,0x1040D,0x10435,2,-1},{0x10436,0x1040E,0x10436,2,-1},{0x10437,0x1040F,0x10437,2,-1},
{0x10438,0x10410,0x10438,2,-1},{0x10439,0x10411,0x10439,2,-1},{0x1043A,0x10412,0x1043A,2,-1},{0x1043B,0x10413,0x1043B,2,-1},{0x1043C,0x10414,0x1043C,2,-1},{0x1043D,0x10415,0x1043D,2,-1},
{0x1043E,0x10416,0x1043E,2,-1},{0x1043F,0x10417,0x1043F,2,-1},{0x10440,0x10418,0x10440,2,-1},{0x10441,0x10419,0x10441,2,-1},{0x10442,0x1041A,0x10442,2,-1},{0x10443,0x1041B,0x10443,2,-1},
{0x10444,0x1041C,0x10444,2,-1},{0x10445,0x1041D,0x10445,2,-1},{0x10446,0x1041E,0x10446,2,-1},{0x10447,0x1041F,0x10447,2,-1},{0x10448,0x10420,0x10448,2,-1},{0x10449,0x10421,0x10449,2,-1},
{0x1044A,0x10422,0x1044A,2,-1},{0x1044B,0x10423,0x1044B,2,-1},{0x1044C,0x10424,0x1044C,2,-1},{0x1044D,0x10425,0x1044D,2,-1},{0x1044E,0x10426,0x1044E,2,-1},{0x1044F,0x10427,0x1044F,2,-1},
{0x104A0,0x104A0,0x104A0,0,0},{0x104A1,0x104A1,0x104A1,0,1},{0x104A2,0x104A2,0x104A2,0,2},{0x104A3,0x104A3,0x104A3,0,3},{0x104A4,0x104A4,0x104A4,0,4},{0x104A5,0x104A5,0x104A5,0,5},
{0x104A6,0x104A6,0x104A6,0,6},{0x104A7,0x104A7,0x104A7,0,7},{0x104A8,0x104A8,0x104A8,0,8},{0x104A9,0x104A9,0x104A9,0,9},{0x104B0,0x104B0,0x104D8,1,-1},{0x104B1,0x104B1,0x104D9,1,-1},
{0x104B2,0x104B2,0x104DA,1,-1},{0x104B3,0x104B3,0x104DB,1,-1},{0x104B4,0x104B4,0x104DC,1,-1},{0x104B5,0x104B5,0x104DD,1,-1},{0x104B6,0x104B6,0x104DE,1,-1},{0x104B7,0x104B7,0x104DF,1,-1},
{0x104B8,0x104B8,0x104E0,1,-1},{0x104B9,0x104B9,0x104E1,1,-1},{0x104BA,0x104BA,0x104E2,1,-1},{0x104BB,0x104BB,0x104E3,1,-1},{0x104BC,0x104BC,0x104E4,1,-1},{0x104BD,0x104BD,0x104E5,1,-1},
{0x104BE,0x104BE,0x104E6,1,-1},{0x104BF,0x104BF,0x104E7,1,-1},{0x104C0,0x104C0,0x104E8,1,-1},{0x104C1,0x104C1,0x104E9,1,-1},{0x104C2,0x104C2,0x104EA,1,-1},{0x104C3,0x104C3,0x104EB,1,-1},
{0x104C4,0x104C4,0x104EC,1,-1},{0x104C5,0x104C5,0x104ED,1,-1},{0x104C6,0x104C6,0x104EE,1,-1},{0x104C7,0x104C7,0x104EF,1,-1},{0x104C8,0x104C8,0x104F0,1,-1},{0x104C9,0x104C9,0x104F1,1,-1},
{0x104CA,0x104CA,0x104F2,1,-1},{0x104CB,0x104CB,0x104F3,1,-1},{0x104CC,0x104CC,0x104F4,1,-1},{0x104CD,0x104CD,0x104F5,1,-1},{0x104CE,0x104CE,0x104F6,1,-1},{0x104CF,0x104CF,0x104F7,1,-1},
{0x104D0,0x104D0,0x104F8,1,-1},{0x104D1,0x104D1,0x104F9,1,-1},{0x104D2,0x104D2,0x104FA,1,-1},{0x104D3,0x104D3,0x104FB,1,-1},{0x104D8,0x104B0,0x104D8,2,-1},{0x104D9,0x104B1,0x104D9,2,-1},
{0x104DA,0x104B2,0x104DA,2,-1},{0x104DB,0x104B3,0x104DB,2,-1},{0x104DC,0x104B4,0x104DC,2,-1},{0x104DD,0x104B5,0x104DD,2,-1},{0x104DE,0x104B6,0x104DE,2,-1},{0x104DF,0x104B7,0x104DF,2,-1},
{0x104E0,0x104B8,0x104E0,2,-1},{0x104E1,0x104B9,0x104E1,2,-1},{0x104E2,0x104BA,0x104E2,2,-1},{0x104E3,0x104BB,0x104E3,2,-1},{0x104E4,0x104BC,0x104E4,2,-1},{0x104E5,0x104BD,0x104E5,2,-1},
{0x104E6,0x104BE,0x104E6,2,-1},{0x104E7,0x104BF,0x104E7,2,-1},{0x104E8,0x104C0,0x104E8,2,-1},{0x104E9,0x104C1,0x104E9,2,-1},{0x104EA,0x104C2,0x104EA,2,-1},{0x104EB,0x104C3,0x104EB,2,-1},
{0x104EC,0x104C4,0x104EC,2,-1},{0x104ED,0x104C5,0x104ED,2,-1},{0x104EE,0x104C6,0x104EE,2,-1},{0x104EF,0x104C7,0x104EF,2,-1},{0x104F0,0x104C8,0x104F0,2,-1},{0x104F1,0x104C9,0x104F1,2,-1},
{0x104F2,0x104CA,0x104F2,2,-1},{0x104F3,0x104CB,0x104F3,2,-1},{0x104F4,0x104CC,0x104F4,2,-1},{0x104F5,0x104CD,0x104F5,2,-1},{0x104F6,0x104CE,0x104F6,2,-1},{0x104F7,0x104CF,0x104F7,2,-1},
{0x104F8,0x104D0,0x104F8,2,-1},{0x104F9,0x104D1,0x104F9,2,-1},{0x104FA,0x104D2,0x104FA,2,-1},{0x104FB,0x104D3,0x104FB,2,-1},{0x10570,0x10570,0x10597,1,-1},{0x10571,0x10571,0x10598,1,-1},
{0x10572,0x10572,0x10599,1,-1},{0x10573,0x10573,0x1059A,1,-1},{0x10574,0x10574,0x1059B,1,-1},{0x10575,0x10575,0x1059C,1,-1},{0x10576,0x10576,0x1059D,1,-1},{0x10577,0x10577,0x1059E,1,-1},
{0x10578,0x10578,0x1059F,1,-1},{0x10579,0x10579,0x105A0,1,-1},{0x1057A,0x1057A,0x105A1,1,-1},{0x1057C,0x1057C,0x105A3,1,-1},{0x1057D,0x1057D,0x105A4,1,-1},{0x1057E,0x1057E,0x105A5,1,-1},
{0x1057F,0x1057F,0x105A6,1,-1},{0x10580,0x10580,0x105A7,1,-1},{0x10581,0x10581,0x105A8,1,-1},{0x10582,0x10582,0x105A9,1,-1},{0x10583,0x10583,0x105AA,1,-1},{0x10584,0x10584,0x105AB,1,-1},
{0x10585,0x10585,0x105AC,1,-1},{0x10586,0x10586,0x105AD,1,-1},{0x10587,0x10587,0x105AE,1,-1},{0x10588,0x10588,0x105AF,1,-1},{0x10589,0x10589,0x105B0,1,-1},{0x1058A,0x1058A,0x105B1,1,-1},
{0x1058C,0x1058C,0x105B3,1,-1},{0x1058D,0x1058D,0x105B4,1,-1},{0x1058E,0x1058E,0x105B5,1,-1},{0x1058F,0x1058F,0x105B6,1,-1},{0x10590,0x10590,0x105B7,1,-1},{0x10591,0x10591,0x105B8,1,-1},
{0x10592,0x10592,0x105B9,1,-1},{0x10594,0x10594,0x105BB,1,-1},{0x10595,0x10595,0x105BC,1,-1},{0x10597,0x10570,0x10597,2,-1},{0x10598,0x10571,0x10598,2,-1},{0x10599,0x10572,0x10599,2,-1},
{0x1059A,0x10573,0x1059A,2,-1},{0x1059B,0x10574,0x1059B,2,-1},{0x1059C,0x10575,0x1059C,2,-1},{0x1059D,0x10576,0x1059D,2,-1},{0x1059E,0x10577,0x1059E,2,-1},{0x1059F,0x10578,0x1059F,2,-1},
{0x105A0,0x10579,0x105A0,2,-1},{0x105A1,0x1057A,0x105A1,2,-1},{0x105A3,0x1057C,0x105A3,2,-1},{0x105A4,0x1057D,0x105A4,2,-1},{0x105A5,0x1057E,0x105A5,2,-1},{0x105A6,0x1057F,0x105A6,2,-1},
{0x105A7,0x10580,0x105A7,2,-1},{0x105A8,0x10581,0x105A8,2,-1},{0x105A9,0x10582,0x105A9,2,-1},{0x105AA,0x10583,0x105AA,2,-1},{0x105AB,0x10584,0x105AB,2,-1},{0x105AC,0x10585,0x105AC,2,-1},
{0x105AD,0x10586,0x105AD,2,-1},{0x105AE,0x10587,0x105AE,2,-1},{0x105AF,0x10588,0x105AF,2,-1},{0x105B0,0x10589,0x105B0,2,-1},{0x105B1,0x1058A,0x105B1,2,-1},{0x105B3,0x1058C,0x105B3,2,-1},
{0x105B4,0x1058D,0x105B4,2,-1},{0x105B5,0x1058E,0x105B5,2,-1},{0x105B6,0x1058F,0x105B6,2,-1},{0x105B7,0x10590,0x105B7,2,-1},{0x105B8,0x10591,0x105B8,2,-1},{0x105B9,0x10592,0x105B9,2,-1},
{0x105BB,0x10594,0x105BB,2,-1},{0x105BC,0x10595,0x105BC,2,-1},{0x10C80,0x10C80,0x10CC0,1,-1},{0x10C81,0x10C81,0x10CC1,1,-1},{0x10C82,0x10C82,0x10CC2,1,-1},{0x10C83,0x10C83,0x10CC3,1,-1},
{0x10C84,0x10C84,0x10CC4,1,-1},{0x10C85,0x10C85,0x10CC5,1,-1},{0x10C86,0x10C86,0x10CC6,1,-1},{0x10C87,0x10C87,0x10CC7,1,-1},{0x10C88,0x10C88,0x10CC8,1,-1},{0x10C89,0x10C89,0x10CC9,1,-1},
{0x10C8A,0x10C8A,0x10CCA,1,-1},{0x10C8B,0x10C8B,0x10CCB,1,-1},{0x10C8C,0x10C8C,0x10CCC,1,-1},{0x10C8D,0x10C8D,0x10CCD,1,-1},{0x10C8E,0x10C8E,0x10CCE,1,-1},{0x10C8F,0x10C8F,0x10CCF,1,-1},
{0x10C90,0x10C90,0x10CD0,1,-1},{0x10C91,0x10C91,0x10CD1,1,-1},{0x10C92,0x10C92,0x10CD2,1,-1},{0x10C93,0x10C93,0x10CD3,1,-1},{0x10C94,0x10C94,0x10CD4,1,-1},{0x10C95,0x10C95,0x10CD5,1,-1},
{0x10C96,0x10C96,0x10CD6,1,-1},{0x10C97,0x10C97,0x10CD7,1,-1},{0x10C98,0x10C98,0x10CD8,1,-1},{0x10C99,0x10C99,0x10CD9,1,-1},{0x10C9A,0x10C9A,0x10CDA,1,-1},{0x10C9B,0x10C9B,0x10CDB,1,-1},
{0x10C9C,0x10C9C,0x10CDC,1,-1},{0x10C9D,0x10C9D,0x10CDD,1,-1},{0x10C9E,0x10C9E,0x10CDE,1,-1},{0x10C9F,0x10C9F,0x10CDF,1,-1},{0x10CA0,0x10CA0,0x10CE0,1,-1},{0x10CA1,0x10CA1,0x10CE1,1,-1},
{0x10CA2,0x10CA2,0x10CE2,1,-1},{0x10CA3,0x10CA3,0x10CE3,1,-1},{0x10CA4,0x10CA4,0x10CE4,1,-1},{0x10CA5,0x10CA5,0x10CE5,1,-1},{0x10CA6,0x10CA6,0x10CE6,1,-1},{0x10CA7,0x10CA7,0x10CE7,1,-1},
{0x10CA8,0x10CA8,0x10CE8,1,-1},{0x10CA9,0x10CA9,0x10CE9,1,-1},{0x10CAA,0x10CAA,0x10CEA,1,-1},{0x10CAB,0x10CAB,0x10CEB,1,-1},{0x10CAC,0x10CAC,0x10CEC,1,-1},{0x10CAD,0x10CAD,0x10CED,1,-1},
{0x10CAE,0x10CAE,0x10CEE,1,-1},{0x10CAF,0x10CAF,0x10CEF,1,-1},{0x10CB0,0x10CB0,0x10CF0,1,-1},{0x10CB1,0x10CB1,0x10CF1,1,-1},{0x10CB2,0x10CB2,0x10CF2,1,-1},{0x10CC0,0x10C80,0x10CC0,2,-1},
{0x10CC1,0x10C81,0x10CC1,2,-1},{0x10CC2,0x10C82,0x10CC2,2,-1},{0x10CC3,0x10C83,0x10CC3,2,-1},{0x10CC4,0x10C84,0x10CC4,2,-1},{0x10CC5,0x10C85,0x10CC5,2,-1},{0x10CC6,0x10C86,0x10CC6,2,-1},
{0x10CC7,0x10C87,0x10CC7,2,-1},{0x10CC8,0x10C88,0x10CC8,2,-1},{0x10CC9,0x10C89,0x10CC9,2,-1},{0x10CCA,0x10C8A,0x10CCA,2,-1},{0x10CCB,0x10C8B,0x10CCB,2,-1},{0x10CCC,0x10C8C,0x10CCC,2,-1},
{0x10CCD,0x10C8D,0x10CCD,2,-1},{0x10CCE,0x10C8E,0x10CCE,2,-1},{0x10CCF,0x10C8F,0x10CCF,2,-1},{0x10CD0,0x10C90,0x10CD0,2,-1},{0x10CD1,0x10C91,0x10CD1,2,-1},{0x10CD2,0x10C92,0x10CD2,2,-1},
{0x10CD3,0x10C93,0x10CD3,2,-1},{0x10CD4,0x10C94,0x10CD4,2,-1},{0x10CD5,0x10C95,0x10CD5,2,-1},{0x10CD6,0x10C96,0x10CD6,2,-1},{0x10CD7,0x10C97,0x10CD7,2,-1},{0x10CD8,0x10C98,0x10CD8,2,-1},
{0x10CD9,0x10C99,0x10CD9,2,-1},{0x10CDA,0x10C9A,0x10CDA,2,-1},{0x10CDB,0x10C9B,0x10CDB,2,-1},{0x10CDC,0x10C9C,0x10CDC,2,-1},{0x10CDD,0x10C9D,0x10CDD,2,-1},{0x10CDE,0x10C9E,0x10CDE,2,-1},
{0x10CDF,0x10C9F,0x10CDF,2,-1},{0x10CE0,0x10CA0,0x10CE0,2,-1},{0x10CE1,0x10CA1,0x10CE1,2,-1},{0x10CE2,0x10CA2,0x10CE2,2,-1},{0x10CE3,0x10CA3,0x10CE3,2,-1},{0x10CE4,0x10CA4,0x10CE4,2,-1},
{0x10CE5,0x10CA5,0x10CE5,2,-1},{0x10CE6,0x10CA6,0x10CE6,2,-1},{0x10CE7,0x10CA7,0x10CE7,2,-1},{0x10CE8,0x10CA8,0x10CE8,2,-1},{0x10CE9,0x10CA9,0x10CE9,2,-1},{0x10CEA,0x10CAA,0x10CEA,2,-1},
{0x10CEB,0x10CAB,0x10CEB,2,-1},{0x10CEC,0x10CAC,0x10CEC,2,-1},{0x10CED,0x10CAD,0x10CED,2,-1},{0x10CEE,0x10CAE,0x10CEE,2,-1},{0x10CEF,0x10CAF,0x10CEF,2,-1},{0x10CF0,0x10CB0,0x10CF0,2,-1},
{0x10CF1,0x10CB1,0x10CF1,2,-1},{0x10CF2,0x10CB2,0x10CF2,2,-1},{0x10D30,0x10D30,0x10D30,0,0},{0x10D31,0x10D31,0x10D31,0,1},{0x10D32,0x10D32,0x10D32,0,2},{0x10D33,0x10D33,0x10D33,0,3},
{0x10D34,0x10D34,0x10D34,0,4},{0x10D35,0x10D35,0x10D35,0,5},{0x10D36,0x10D36,0x10D36,0,6},{0x10D37,0x10D37,0x10D37,0,7},{0x10D38,0x10D38,0x10D38,0,8},{0x10D39,0x10D39,0x10D39,0,9},
{0x11066,0x11066,0x11066,0,0},{0x11067,0x11067,0x11067,0,1},{0x11068,0x11068,0x11068,0,2},{0x11069,0x11069,0x11069,0,3},{0x1106A,0x1106A,0x1106A,0,4},{0x1106B,0x1106B,0x1106B,0,5},
{0x1106C,0x1106C,0x1106C,0,6},{0x1106D,0x1106D,0x1106D,0,7},{0x1106E,0x1106E,0x1106E,0,8},{0x1106F,0x1106F,0x1106F,0,9},{0x110F0,0x110F0,0x110F0,0,0},{0x110F1,0x110F1,0x110F1,0,1},
{0x110F2,0x110F2,0x110F2,0,2},{0x110F3,0x110F3,0x110F3,0,3},{0x110F4,0x110F4,0x110F4,0,4},{0x110F5,0x110F5,0x110F5,0,5},{0x110F6,0x110F6,0x110F6,0,6},{0x110F7,0x110F7,0x110F7,0,7},
{0x110F8,0x110F8,0x110F8,0,8},{0x110F9,0x110F9,0x110F9,0,9},{0x11136,0x11136,0x11136,0,0},{0x11137,0x11137,0x11137,0,1},{0x11138,0x11138,0x11138,0,2},{0x11139,0x11139,0x11139,0,3},
{0x1113A,0x1113A,0x1113A,0,4},{0x1113B,0x1113B,0x1113B,0,5},{0x1113C,0x1113C,0x1113C,0,6},{0x1113D,0x1113D,0x1113D,0,7},{0x1113E,0x1113E,0x1113E,0,8},{0x1113F,0x1113F,0x1113F,0,9},
{0x111D0,0x111D0,0x111D0,0,0},{0x111D1,0x111D1,0x111D1,0,1},{0x111D2,0x111D2,0x111D2,0,2},{0x111D3,0x111D3,0x111D3,0,3},{0x111D4,0x111D4,0x111D4,0,4},{0x111D5,0x111D5,0x111D5,0,5},
{0x111D6,0x111D6,0x111D6,0,6},{0x111D7,0x111D7,0x111D7,0,7},{0x111D8,0x111D8,0x111D8,0,8},{0x111D9,0x111D9,0x111D9,0,9},{0x112F0,0x112F0,0x112F0,0,0},{0x112F1,0x112F1,0x112F1,0,1},
{0x112F2,0x112F2,0x112F2,0,2},{0x112F3,0x112F3,0x112F3,0,3},{0x112F4,0x112F4,0x112F4,0,4},{0x112F5,0x112F5,0x112F5,0,5},{0x112F6,0x112F6,0x112F6,0,6},{0x112F7,0x112F7,0x112F7,0,7},
{0x112F8,0x112F8,0x112F8,0,8},{0x112F9,0x112F9,0x112F9,0,9},{0x11450,0x11450,0x11450,0,0},{0x11451,0x11451,0x11451,0,1},{0x11452,0x11452,0x11452,0,2},{0x11453,0x11453,0x11453,0,3},
{0x11454,0x11454,0x11454,0,4},{0x11455,0x11455,0x11455,0,5},{0x11456,0x11456,0x11456,0,6},{0x11457,0x11457,0x11457,0,7},{0x11458,0x11458,0x11458,0,8},{0x11459,0x11459,0x11459,0,9},
{0x114D0,0x114D0,0x114D0,0,0},{0x114D1,0x114D1,0x114D1,0,1},{0x114D2,0x114D2,0x114D2,0,2},{0x114D3,0x114D3,0x114D3,0,3},{0x114D4,0x114D4,0x114D4,0,4},{0x114D5,0x114D5,0x114D5,0,5},
{0x114D6,0x114D6,0x114D6,0,6},{0x114D7,0x114D7,0x114D7,0,7},{0x114D8,0x114D8,0x114D8,0,8},{0x114D9,0x114D9,0x114D9,0,9},{0x11650,0x11650,0x11650,0,0},{0x11651,0x11651,0x11651,0,1},
{0x11652,0x11652,0x11652,0,2},{0x11653,0x11653,0x11653,0,3},{0x11654,0x11654,0x11654,0,4},{0x11655,0x11655,0x11655,0,5},{0x11656,0x11656,0x11656,0,6},{0x11657,0x11657,0x11657,0,7},
{0x11658,0x11658,0x11658,0,8},{0x11659,0x11659,0x11659,0,9},{0x116C0,0x116C0,0x116C0,0,0},{0x116C1,0x116C1,0x116C1,0,1},{0x116C2,0x116C2,0x116C2,0,2},{0x116C3,0x116C3,0x116C3,0,3},
{0x116C4,0x116C4,0x116C4,0,4},{0x116C5,0x116C5,0x116C5,0,5},{0x116C6,0x116C6,0x116C6,0,6},{0x116C7,0x116C7,0x116C7,0,7},{0x116C8,0x116C8,0x116C8,0,8},{0x116C9,0x116C9,0x116C9,0,9},
{0x11730,0x11730,0x11730,0,0},{0x11731,0x11731,0x11731,0,1},{0x11732,0x11732,0x11732,0,2},{0x11733,0x11733,0x11733,0,3},{0x11734,0x11734,0x11734,0,4},{0x11735,0x11735,0x11735,0,5},
{0x11736,0x11736,0x11736,0,6},{0x11737,0x11737,0x11737,0,7},{0x11738,0x11738,0x11738,0,8},{0x11739,0x11739,0x11739,0,9},{0x118A0,0x118A0,0x118C0,1,-1},{0x118A1,0x118A1,0x118C1,1,-1},
{0x118A2,0x118A2,0x118C2,1,-1},{0x118A3,0x118A3,0x118C3,1,-1},{0x118A4,0x118A4,0x118C4,1,-1},{0x118A5,0x118A5,0x118C5,1,-1},{0x118A6,0x118A6,0x118C6,1,-1},{0x118A7,0x118A7,0x118C7,1,-1},
{0x118A8,0x118A8,0x118C8,1,-1},{0x118A9,0x118A9,0x118C9,1,-1},{0x118AA,0x118AA,0x118CA,1,-1},{0x118AB,0x118AB,0x118CB,1,-1},{0x118AC,0x118AC,0x118CC,1,-1},{0x118AD,0x118AD,0x118CD,1,-1},
{0x118AE,0x118AE,0x118CE,1,-1},{0x118AF,0x118AF,0x118CF,1,-1},{0x118B0,0x118B0,0x118D0,1,-1},{0x118B1,0x118B1,0x118D1,1,-1},{0x118B2,0x118B2,0x118D2,1,-1},{0x118B3,0x118B3,0x118D3,1,-1},
{0x118B4,0x118B4,0x118D4,1,-1},{0x118B5,0x118B5,0x118D5,1,-1},{0x118B6,0x118B6,0x118D6,1,-1},{0x118B7,0x118B7,0x118D7,1,-1},{0x118B8,0x118B8,0x118D8,1,-1},{0x118B9,0x118B9,0x118D9,1,-1},
{0x118BA,0x118BA,0x118DA,1,-1},{0x118BB,0x118BB,0x118DB,1,-1},{0x118BC,0x118BC,0x118DC,1,-1},{0x118BD,0x118BD,0x118DD,1,-1},{0x118BE,0x118BE,0x118DE,1,-1},{0x118BF,0x118BF,0x118DF,1,-1},
{0x118C0,0x118A0,0x118C0,2,-1},{0x118C1,0x118A1,0x118C1,2,-1},{0x118C2,0x118A2,0x118C2,2,-1},{0x118C3,0x118A3,0x118C3,2,-1},{0x118C4,0x118A4,0x118C4,2,-1},{0x118C5,0x118A5,0x118C5,2,-1},
{0x118C6,0x118A6,0x118C6,2,-1},{0x118C7,0x118A7,0x118C7,2,-1},{0x118C8,0x118A8,0x118C8,2,-1},{0x118C9,0x118A9,0x118C9,2,-1},{0x118CA,0x118AA,0x118CA,2,-1},{0x118CB,0x118AB,0x118CB,2,-1},
{0x118CC,0x118AC,0x118CC,2,-1},{0x118CD,0x118AD,0x118CD,2,-1},{0x118CE,0x118AE,0x118CE,2,-1},{0x118CF,0x118AF,0x118CF,2,-1},{0x118D0,0x118B0,0x118D0,2,-1},{0x118D1,0x118B1,0x118D1,2,-1},
{0x118D2,0x118B2,0x118D2,2,-1},{0x118D3,0x118B3,0x118D3,2,-1},{0x118D4,0x118B4,0x118D4,2,-1},{0x118D5,0x118B5,0x118D5,2,-1},{0x118D6,0x118B6,0x118D6,2,-1},{0x118D7,0x118B7,0x118D7,2,-1},
{0x118D8,0x118B8,0x118D8,2,-1},{0x118D9,0x118B9,0x118D9,2,-1},{0x118DA,0x118BA,0x118DA,2,-1},{0x118DB,0x118BB,0x118DB,2,-1},{0x118DC,0x118BC,0x118DC,2,-1},{0x118DD,0x118BD,0x118DD,2,-1},
{0x118DE,0x118BE,0x118DE,2,-1},{0x118DF,0x118BF,0x118DF,2,-1},{0x118E0,0x118E0,0x118E0,0,0},{0x118E1,0x118E1,0x118E1,0,1},{0x118E2,0x118E2,0x118E2,0,2},{0x118E3,0x118E3,0x118E3,0,3},
{0x118E4,0x118E4,0x118E4,0,4},{0x118E5,0x118E5,0x118E5,0,5},{0x118E6,0x118E6,0x118E6,0,6},{0x118E7,0x118E7,0x118E7,0,7},{0x118E8,0x118E8,0x118E8,0,8},{0x118E9,0x118E9,0x118E9,0,9},
{0x11950,0x11950,0x11950,0,0},{0x11951,0x11951,0x11951,0,1},{0x11952,0x11952,0x11952,0,2},{0x11953,0x11953,0x11953,0,3},{0x11954,0x11954,0x11954,0,4},{0x11955,0x11955,0x11955,0,5},
{0x11956,0x11956,0x11956,0,6},{0x11957,0x11957,0x11957,0,7},{0x11958,0x11958,0x11958,0,8},{0x11959,0x11959,0x11959,0,9},{0x11C50,0x11C50,0x11C50,0,0},{0x11C51,0x11C51,0x11C51,0,1},
{0x11C52,0x11C52,0x11C52,0,2},{0x11C53,0x11C53,0x11C53,0,3},{0x11C54,0x11C54,0x11C54,0,4},{0x11C55,0x11C55,0x11C55,0,5},{0x11C56,0x11C56,0x11C56,0,6},{0x11C57,0x11C57,0x11C57,0,7},
{0x11C58,0x11C58,0x11C58,0,8},{0x11C59,0x11C59,0x11C59,0,9},{0x11D50,0x11D50,0x11D50,0,0},{0x11D51,0x11D51,0x11D51,0,1},{0x11D52,0x11D52,0x11D52,0,2},{0x11D53,0x11D53,0x11D53,0,3},
{0x11D54,0x11D54,0x11D54,0,4},{0x11D55,0x11D55,0x11D55,0,5},{0x11D56,0x11D56,0x11D56,0,6},{0x11D57,0x11D57,0x11D57,0,7},{0x11D58,0x11D58,0x11D58,0,8},{0x11D59,0x11D59,0x11D59,0,9},
{0x11DA0,0x11DA0,0x11DA0,0,0},{0x11DA1,0x11DA1,0x11DA1,0,1},{0x11DA2,0x11DA2,0x11DA2,0,2},{0x11DA3,0x11DA3,0x11DA3,0,3},{0x11DA4,0x11DA4,0x11DA4,0,4},{0x11DA5,0x11DA5,0x11DA5,0,5},
{0x11DA6,0x11DA6,0x11DA6,0,6},{0x11DA7,0x11DA7,0x11DA7,0,7},{0x11DA8,0x11DA8,0x11DA8,0,8},{0x11DA9,0x11DA9,0x11DA9,0,9},{0x11F50,0x11F50,0x11F50,0,0},{0x11F51,0x11F51,0x11F51,0,1},
{0x11F52,0x11F52,0x11F52,0,2},{0x11F53,0x11F53,0x11F53,0,3},{0x11F54,0x11F54,0x11F54,0,4},{0x11F55,0x11F55,0x11F55,0,5},{0x11F56,0x11F56,0x11F56,0,6},{0x11F57,0x11F57,0x11F57,0,7},
{0x11F58,0x11F58,0x11F58,0,8},{0x11F59,0x11F59,0x11F59,0,9},{0x16A60,0x16A60,0x16A60,0,0},{0x16A61,0x16A61,0x16A61,0,1},{0x16A62,0x16A62,0x16A62,0,2},{0x16A63,0x16A63,0x16A63,0,3},
{0x16A64,0x16A64,0x16A64,0,4},{0x16A65,0x16A65,0x16A65,0,5},{0x16A66,0x16A66,0x16A66,0,6},{0x16A67,0x16A67,0x16A67,0,7},{0x16A68,0x16A68,0x16A68,0,8},{0x16A69,0x16A69,0x16A69,0,9},
{0x16AC0,0x16AC0,0x16AC0,0,0},{0x16AC1,0x16AC1,0x16AC1,0,1},{0x16AC2,0x16AC2,0x16AC2,0,2},{0x16AC3,0x16AC3,0x16AC3,0,3},{0x16AC4,0x16AC4,0x16AC4,0,4},{0x16AC5,0x16AC5,0x16AC5,0,5},
{0x16AC6,0x16AC6,0x16AC6,0,6},{0x16AC7,0x16AC7,0x16AC7,0,7},{0x16AC8,0x16AC8,0x16AC8,0,8},{0x16AC9,0x16AC9,0x16AC9,0,9},{0x16B50,0x16B50,0x16B50,0,0},{0x16B51,0x16B51,0x16B51,0,1},
{0x16B52,0x16B52,0x16B52,0,2},{0x16B53,0x16B53,0x16B53,0,3},{0x16B54,0x16B54,0x16B54,0,4},{0x16B55,0x16B55,0x16B55,0,5},{0x16B56,0x16B56,0x16B56,0,6},{0x16B57,0x16B57,0x16B57,0,7},
{0x16B58,0x16B58,0x16B58,0,8},{0x16B59,0x16B59,0x16B59,0,9},{0x16E40,0x16E40,0x16E60,1,-1},{0x16E41,0x16E41,0x16E61,1,-1},{0x16E42,0x16E42,0x16E62,1,-1},{0x16E43,0x16E43,0x16E63,1,-1},
{0x16E44,0x16E44,0x16E64,1,-1},{0x16E45,0x16E45,0x16E65,1,-1},{0x16E46,0x16E46,0x16E66,1,-1},{0x16E47,0x16E47,0x16E67,1,-1},{0x16E48,0x16E48,0x16E68,1,-1},{0x16E49,0x16E49,0x16E69,1,-1},
{0x16E4A,0x16E4A,0x16E6A,1,-1},{0x16E4B,0x16E4B,0x16E6B,1,-1},{0x16E4C,0x16E4C,0x16E6C,1,-1},{0x16E4D,0x16E4D,0x16E6D,1,-1},{0x16E4E,0x16E4E,0x16E6E,1,-1},{0x16E4F,0x16E4F,0x16E6F,1,-1},
{0x16E50,0x16E50,0x16E70,1,-1},{0x16E51,0x16E51,0x16E71,1,-1},{0x16E52,0x16E52,0x16E72,1,-1},{0x16E53,0x16E53,0x16E73,1,-1},{0x16E54,0x16E54,0x16E74,1,-1},{0x16E55,0x16E55,0x16E75,1,-1},
{0x16E56,0x16E56,0x16E76,1,-1},{0x16E57,0x16E57,0x16E77,1,-1},{0x16E58,0x16E58,0x16E78,1,-1},{0x16E59,0x16E59,0x16E79,1,-1},{0x16E5A,0x16E5A,0x16E7A,1,-1},{0x16E5B,0x16E5B,0x16E7B,1,-1},
{0x16E5C,0x16E5C,0x16E7C,1,-1},{0x16E5D,0x16E5D,0x16E7D,1,-1},{0x16E5E,0x16E5E,0x16E7E,1,-1},{0x16E5F,0x16E5F,0x16E7F,1,-1},{0x16E60,0x16E40,0x16E60,2,-1},{0x16E61,0x16E41,0x16E61,2,-1},
{0x16E62,0x16E42,0x16E62,2,-1},{0x16E63,0x16E43,0x16E63,2,-1},{0x16E64,0x16E44,0x16E64,2,-1},{0x16E65,0x16E45,0x16E65,2,-1},{0x16E66,0x16E46,0x16E66,2,-1},{0x16E67,0x16E47,0x16E67,2,-1},
{0x16E68,0x16E48,0x16E68,2,-1},{0x16E69,0x16E49,0x16E69,2,-1},{0x16E6A,0x16E4A,0x16E6A,2,-1},{0x16E6B,0x16E4B,0x16E6B,2,-1},{0x16E6C,0x16E4C,0x16E6C,2,-1},{0x16E6D,0x16E4D,0x16E6D,2,-1},
{0x16E6E,0x16E4E,0x16E6E,2,-1},{0x16E6F,0x16E4F,0x16E6F,2,-1},{0x16E70,0x16E50,0x16E70,2,-1},{0x16E71,0x16E51,0x16E71,2,-1},{0x16E72,0x16E52,0x16E72,2,-1},{0x16E73,0x16E53,0x16E73,2,-1},
{0x16E74,0x16E54,0x16E74,2,-1},{0x16E75,0x16E55,0x16E75,2,-1},{0x16E76,0x16E56,0x16E76,2,-1},{0x16E77,0x16E57,0x16E77,2,-1},{0x16E78,0x16E58,0x16E78,2,-1},{0x16E79,0x16E59,0x16E79,2,-1},
{0x16E7A,0x16E5A,0x16E7A,2,-1},{0x16E7B,0x16E5B,0x16E7B,2,-1},{0x16E7C,0x16E5C,0x16E7C,2,-1},{0x16E7D,0x16E5D,0x16E7D,2,-1},{0x16E7E,0x16E5E,0x16E7E,2,-1},{0x16E7F,0x16E5F,0x16E7F,2,-1},
{0x1D400,0x1D400,0x1D400,1,-1},{0x1D401,0x1D401,0x1D401,1,-1},{0x1D402,0x1D402,0x1D402,1,-1},{0x1D403,0x1D403,0x1D403,1,-1},{0x1D404,0x1D404,0x1D404,1,-1},{0x1D405,0x1D405,0x1D405,1,-1},
{0x1D406,0x1D406,0x1D406,1,-1},{0x1D407,0x1D407,0x1D407,1,-1},{0x1D408,0x1D408,0x1D408,1,-1},{0x1D409,0x1D409,0x1D409,1,-1},{0x1D40A,0x1D40A,0x1D40A,1,-1},{0x1D40B,0x1D40B,0x1D40B,1,-1},
{0x1D40C,0x1D40C,0x1D40C,1,-1},{0x1D40D,0x1D40D,0x1D40D,1,-1},{0x1D40E,0x1D40E,0x1D40E,1,-1},{0x1D40F,0x1D40F,0x1D40F,1,-1},{0x1D410,0x1D410,0x1D410,1,-1},{0x1D411,0x1D411,0x1D411,1,-1},
{0x1D412,0x1D412,0x1D412,1,-1},{0x1D413,0x1D413,0x1D413,1,-1},{0x1D414,0x1D414,0x1D414,1,-1},{0x1D415,0x1D415,0x1D415,1,-1},{0x1D416,0x1D416,0x1D416,1,-1},{0x1D417,0x1D417,0x1D417,1,-1},
{0x1D418,0x1D418,0x1D418,1,-1},{0x1D419,0x1D419,0x1D419,1,-1},{0x1D41A,0x1D41A,0x1D41A,2,-1},{0x1D41B,0x1D41B,0x1D41B,2,-1},{0x1D41C,0x1D41C,0x1D41C,2,-1},{0x1D41D,0x1D41D,0x1D41D,2,-1},
{0x1D41E,0x1D41E,0x1D41E,2,-1},{0x1D41F,0x1D41F,0x1D41F,2,-1},{0x1D420,0x1D420,0x1D420,2,-1},{0x1D421,0x1D421,0x1D421,2,-1},{0x1D422,0x1D422,0x1D422,2,-1},{0x1D423,0x1D423,0x1D423,2,-1},
{0x1D424,0x1D424,0x1D424,2,-1},{0x1D425,0x1D425,0x1D425,2,-1},{0x1D426,0x1D426,0x1D426,2,-1},{0x1D427,0x1D427,0x1D427,2,-1},{0x1D428,0x1D428,0x1D428,2,-1},{0x1D429,0x1D429,0x1D429,2,-1},
{0x1D42A,0x1D42A,0x1D42A,2,-1},{0x1D42B,0x1D42B,0x1D42B,2,-1},{0x1D42C,0x1D42C,0x1D42C,2,-1},{0x1D42D,0x1D42D,0x1D42D,2,-1},{0x1D42E,0x1D42E,0x1D42E,2,-1},{0x1D42F,0x1D42F,0x1D42F,2,-1},
{0x1D430,0x1D430,0x1D430,2,-1},{0x1D431,0x1D431,0x1D431,2,-1},{0x1D432,0x1D432,0x1D432,2,-1},{0x1D433,0x1D433,0x1D433,2,-1},{0x1D434,0x1D434,0x1D434,1,-1},{0x1D435,0x1D435,0x1D435,1,-1},
{0x1D436,0x1D436,0x1D436,1,-1},{0x1D437,0x1D437,0x1D437,1,-1},{0x1D438,0x1D438,0x1D438,1,-1},{0x1D439,0x1D439,0x1D439,1,-1},{0x1D43A,0x1D43A,0x1D43A,1,-1},{0x1D43B,0x1D43B,0x1D43B,1,-1},
{0x1D43C,0x1D43C,0x1D43C,1,-1},{0x1D43D,0x1D43D,0x1D43D,1,-1},{0x1D43E,0x1D43E,0x1D43E,1,-1},{0x1D43F,0x1D43F,0x1D43F,1,-1},{0x1D440,0x1D440,0x1D440,1,-1},{0x1D441,0x1D441,0x1D441,1,-1},
{0x1D442,0x1D442,0x1D442,1,-1},{0x1D443,0x1D443,0x1D443,1,-1},{0x1D444,0x1D444,0x1D444,1,-1},{0x1D445,0x1D445,0x1D445,1,-1},{0x1D446,0x1D446,0x1D446,1,-1},{0x1D447,0x1D447,0x1D447,1,-1},
{0x1D448,0x1D448,0x1D448,1,-1},{0x1D449,0x1D449,0x1D449,1,-1},{0x1D44A,0x1D44A,0x1D44A,1,-1},{0x1D44B,0x1D44B,0x1D44B,1,-1},{0x1D44C,0x1D44C,0x1D44C,1,-1},{0x1D44D,0x1D44D,0x1D44D,1,-1},
{0x1D44E,0x1D44E,0x1D44E,2,-1},{0x1D44F,0x1D44F,0x1D44F,2,-1},{0x1D450,0x1D450,0x1D450,2,-1},{0x1D451,0x1D451,0x1D451,2,-1},{0x1D452,0x1D452,0x1D452,2,-1},{0x1D453,0x1D453,0x1D453,2,-1},
{0x1D454,0x1D454,0x1D454,2,-1},{0x1D456,0x1D456,0x1D456,2,-1},{0x1D457,0x1D457,0x1D457,2,-1},{0x1D458,0x1D458,0x1D458,2,-1},{0x1D459,0x1D459,0x1D459,2,-1},{0x1D45A,0x1D45A,0x1D45A,2,-1},
{0x1D45B,0x1D45B,0x1D45B,2,-1},{0x1D45C,0x1D45C,0x1D45C,2,-1},{0x1D45D,0x1D45D,0x1D45D,2,-1},{0x1D45E,0x1D45E,0x1D45E,2,-1},{0x1D45F,0x1D45F,0x1D45F,2,-1},{0x1D460,0x1D460,0x1D460,2,-1},
{0x1D461,0x1D461,0x1D461,2,-1},{0x1D462,0x1D462,0x1D462,2,-1},{0x1D463,0x1D463,0x1D463,2,-1},{0x1D464,0x1D464,0x1D464,2,-1},{0x1D465,0x1D465,0x1D465,2,-1},{0x1D466,0x1D466,0x1D466,2,-1},
{0x1D467,0x1D467,0x1D467,2,-1},{0x1D468,0x1D468,0x1D468,1,-1},{0x1D469,0x1D469,0x1D469,1,-1},{0x1D46A,0x1D46A,0x1D46A,1,-1},{0x1D46B,0x1D46B,0x1D46B,1,-1},{0x1D46C,0x1D46C,0x1D46C,1,-1},
{0x1D46D,0x1D46D,0x1D46D,1,-1},{0x1D46E,0x1D46E,0x1D46E,1,-1},{0x1D46F,0x1D46F,0x1D46F,1,-1},{0x1D470,0x1D470,0x1D470,1,-1},{0x1D471,0x1D471,0x1D471,1,-1},{0x1D472,0x1D472,0x1D472,1,-1},
{0x1D473,0x1D473,0x1D473,1,-1},{0x1D474,0x1D474,0x1D474,1,-1},{0x1D475,0x1D475,0x1D475,1,-1},{0x1D476,0x1D476,0x1D476,1,-1},{0x1D477,0x1D477,0x1D477,1,-1},{0x1D478,0x1D478,0x1D478,1,-1},
{0x1D479,0x1D479,0x1D479,1,-1},{0x1D47A,0x1D47A,0x1D47A,1,-1},{0x1D47B,0x1D47B,0x1D47B,1,-1},{0x1D47C,0x1D47C,0x1D47C,1,-1},{0x1D47D,0x1D47D,0x1D47D,1,-1},{0x1D47E,0x1D47E,0x1D47E,1,-1},
{0x1D47F,0x1D47F,0x1D47F,1,-1},{0x1D480,0x1D480,0x1D480,1,-1},{0x1D481,0x1D481,0x1D481,1,-1},{0x1D482,0x1D482,0x1D482,2,-1},{0x1D483,0x1D483,0x1D483,2,-1},{0x1D484,0x1D484,0x1D484,2,-1},
{0x1D485,0x1D485,0x1D485,2,-1},{0x1D486,0x1D486,0x1D486,2,-1},{0x1D487,0x1D487,0x1D487,2,-1},{0x1D488,0x1D488,0x1D488,2,-1},{0x1D489,0x1D489,0x1D489,2,-1},{0x1D48A,0x1D48A,0x1D48A,2,-1},
{0x1D48B,0x1D48B,0x1D48B,2,-1},{0x1D48C,0x1D48C,0x1D48C,2,-1},{0x1D48D,0x1D48D,0x1D48D,2,-1},{0x1D48E,0x1D48E,0x1D48E,2,-1},{0x1D48F,0x1D48F,0x1D48F,2,-1},{0x1D490,0x1D490,0x1D490,2,-1},
{0x1D491,0x1D491,0x1D491,2,-1},{0x1D492,0x1D492,0x1D492,2,-1},{0x1D493,0x1D493,0x1D493,2,-1},{0x1D494,0x1D494,0x1D494,2,-1},{0x1D495,0x1D495,0x1D495,2,-1},{0x1D496,0x1D496,0x1D496,2,-1},
{0x1D497,0x1D497,0x1D497,2,-1},{0x1D498,0x1D498,0x1D498,2,-1},{0x1D499,0x1D499,0x1D499,2,-1},{0x1D49A,0x1D49A,0x1D49A,2,-1},{0x1D49B,0x1D49B,0x1D49B,2,-1},{0x1D49C,0x1D49C,0x1D49C,1,-1},
{0x1D49E,0x1D49E,0x1D49E,1,-1},{0x1D49F,0x1D49F,0x1D49F,1,-1},{0x1D4A2,0x1D4A2,0x1D4A2,1,-1},{0x1D4A5,0x1D4A5,0x1D4A5,1,-1},{0x1D4A6,0x1D4A6,0x1D4A6,1,-1},{0x1D4A9,0x1D4A9,0x1D4A9,1,-1},
{0x1D4AA,0x1D4AA,0x1D4AA,1,-1},{0x1D4AB,0x1D4AB,0x1D4AB,1,-1},{0x1D4AC,0x1D4AC,0x1D4AC,1,-1},{0x1D4AE,0x1D4AE,0x1D4AE,1,-1},{0x1D4AF,0x1D4AF,0x1D4AF,1,-1},{0x1D4B0,0x1D4B0,0x1D4B0,1,-1},
{0x1D4B1,0x1D4B1,0x1D4B1,1,-1},{0x1D4B2,0x1D4B2,0x1D4B2,1,-1},{0x1D4B3,0x1D4B3,0x1D4B3,1,-1},{0x1D4B4,0x1D4B4,0x1D4B4,1,-1},{0x1D4B5,0x1D4B5,0x1D4B5,1,-1},{0x1D4B6,0x1D4B6,0x1D4B6,2,-1},
{0x1D4B7,0x1D4B7,0x1D4B7,2,-1},{0x1D4B8,0x1D4B8,0x1D4B8,2,-1},{0x1D4B9,0x1D4B9,0x1D4B9,2,-1},{0x1D4BB,0x1D4BB,0x1D4BB,2,-1},{0x1D4BD,0x1D4BD,0x1D4BD,2,-1},{0x1D4BE,0x1D4BE,0x1D4BE,2,-1},
{0x1D4BF,0x1D4BF,0x1D4BF,2,-1},{0x1D4C0,0x1D4C0,0x1D4C0,2,-1},{0x1D4C1,0x1D4C1,0x1D4C1,2,-1},{0x1D4C2,0x1D4C2,0x1D4C2,2,-1},{0x1D4C3,0x1D4C3,0x1D4C3,2,-1},{0x1D4C5,0x1D4C5,0x1D4C5,2,-1},
{0x1D4C6,0x1D4C6,0x1D4C6,2,-1},{0x1D4C7,0x1D4C7,0x1D4C7,2,-1},{0x1D4C8,0x1D4C8,0x1D4C8,2,-1},{0x1D4C9,0x1D4C9,0x1D4C9,2,-1},{0x1D4CA,0x1D4CA,0x1D4CA,2,-1},{0x1D4CB,0x1D4CB,0x1D4CB,2,-1},
{0x1D4CC,0x1D4CC,0x1D4CC,2,-1},{0x1D4CD,0x1D4CD,0x1D4CD,2,-1},{0x1D4CE,0x1D4CE,0x1D4CE,2,-1},{0x1D4CF,0x1D4CF,0x1D4CF,2,-1},{0x1D4D0,0x1D4D0,0x1D4D0,1,-1},{0x1D4D1,0x1D4D1,0x1D4D1,1,-1},
{0x1D4D2,0x1D4D2,0x1D4D2,1,-1},{0x1D4D3,0x1D4D3,0x1D4D3,1,-1},{0x1D4D4,0x1D4D4,0x1D4D4,1,-1},{0x1D4D5,0x1D4D5,0x1D4D5,1,-1},{0x1D4D6,0x1D4D6,0x1D4D6,1,-1},{0x1D4D7,0x1D4D7,0x1D4D7,1,-1},
{0x1D4D8,0x1D4D8,0x1D4D8,1,-1},{0x1D4D9,0x1D4D9,0x1D4D9,1,-1},{0x1D4DA,0x1D4DA,0x1D4DA,1,-1},{0x1D4DB,0x1D4DB,0x1D4DB,1,-1},{0x1D4DC,0x1D4DC,0x1D4DC,1,-1},{0x1D4DD,0x1D4DD,0x1D4DD,1,-1},
{0x1D4DE,0x1D4DE,0x1D4DE,1,-1},{0x1D4DF,0x1D4DF,0x1D4DF,1,-1},{0x1D4E0,0x1D4E0,0x1D4E0,1,-1},{0x1D4E1,0x1D4E1,0x1D4E1,1,-1},{0x1D4E2,0x1D4E2,0x1D4E2,1,-1},{0x1D4E3,0x1D4E3,0x1D4E3,1,-1},
{0x1D4E4,0x1D4E4,0x1D4E4,1,-1},{0x1D4E5,0x1D4E5,0x1D4E5,1,-1},{0x1D4E6,0x1D4E6,0x1D4E6,1,-1},{0x1D4E7,0x1D4E7,0x1D4E7,1,-1},{0x1D4E8,0x1D4E8,0x1D4E8,1,-1},{0x1D4E9,0x1D4E9,0x1D4E9,1,-1},
{0x1D4EA,0x1D4EA,0x1D4EA,2,-1},{0x1D4EB,0x1D4EB,0x1D4EB,2,-1},{0x1D4EC,0x1D4EC,0x1D4EC,2,-1},{0x1D4ED,0x1D4ED,0x1D4ED,2,-1},{0x1D4EE,0x1D4EE,0x1D4EE,2,-1},{0x1D4EF,0x1D4EF,0x1D4EF,2,-1},
{0x1D4F0,0x1D4F0,0x1D4F0,2,-1},{0x1D4F1,0x1D4F1,0x1D4F1,2,-1},{0x1D4F2,0x1D4F2,0x1D4F2,2,-1},{0x1D4F3,0x1D4F3,0x1D4F3,2,-1},{0x1D4F4,0x1D4F4,0x1D4F4,2,-1},{0x1D4F5,0x1D4F5,0x1D4F5,2,-1},
{0x1D4F6,0x1D4F6,0x1D4F6,2,-1},{0x1D4F7,0x1D4F7,0x1D4F7,2,-1},{0x1D4F8,0x1D4F8,0x1D4F8,2,-1},{0x1D4F9,0x1D4F9,0x1D4F9,2,-1},{0x1D4FA,0x1D4FA,0x1D4FA,2,-1},{0x1D4FB,0x1D4FB,0x1D4FB,2,-1},
{0x1D4FC,0x1D4FC,0x1D4FC,2,-1},{0x1D4FD,0x1D4FD,0x1D4FD,2,-1},{0x1D4FE,0x1D4FE,0x1D4FE,2,-1},{0x1D4FF,0x1D4FF,0x1D4FF,2,-1},{0x1D500,0x1D500,0x1D500,2,-1},{0x1D501,0x1D501,0x1D501,2,-1},
{0x1D502,0x1D502,0x1D502,2,-1},{0x1D503,0x1D503,0x1D503,2,-1},{0x1D504,0x1D504,0x1D504,1,-1},{0x1D505,0x1D505,0x1D505,1,-1},{0x1D507,0x1D507,0x1D507,1,-1},{0x1D508,0x1D508,0x1D508,1,-1},
{0x1D509,0x1D509,0x1D509,1,-1},{0x1D50A,0x1D50A,0x1D50A,1,-1},{0x1D50D,0x1D50D,0x1D50D,1,-1},{0x1D50E,0x1D50E,0x1D50E,1,-1},{0x1D50F,0x1D50F,0x1D50F,1,-1},{0x1D510,0x1D510,0x1D510,1,-1},
{0x1D511,0x1D511,0x1D511,1,-1},{0x1D512,0x1D512,0x1D512,1,-1},{0x1D513,0x1D513,0x1D513,1,-1},{0x1D514,0x1D514,0x1D514,1,-1},{0x1D516,0x1D516,0x1D516,1,-1},{0x1D517,0x1D517,0x1D517,1,-1},
{0x1D518,0x1D518,0x1D518,1,-1},{0x1D519,0x1D519,0x1D519,1,-1},{0x1D51A,0x1D51A,0x1D51A,1,-1},{0x1D51B,0x1D51B,0x1D51B,1,-1},{0x1D51C,0x1D51C,0x1D51C,1,-1},{0x1D51E,0x1D51E,0x1D51E,2,-1},
{0x1D51F,0x1D51F,0x1D51F,2,-1},{0x1D520,0x1D520,0x1D520,2,-1},{0x1D521,0x1D521,0x1D521,2,-1},{0x1D522,0x1D522,0x1D522,2,-1},{0x1D523,0x1D523,0x1D523,2,-1},{0x1D524,0x1D524,0x1D524,2,-1},
{0x1D525,0x1D525,0x1D525,2,-1},{0x1D526,0x1D526,0x1D526,2,-1},{0x1D527,0x1D527,0x1D527,2,-1},{0x1D528,0x1D528,0x1D528,2,-1},{0x1D529,0x1D529,0x1D529,2,-1},{0x1D52A,0x1D52A,0x1D52A,2,-1},
{0x1D52B,0x1D52B,0x1D52B,2,-1},{0x1D52C,0x1D52C,0x1D52C,2,-1},{0x1D52D,0x1D52D,0x1D52D,2,-1},{0x1D52E,0x1D52E,0x1D52E,2,-1},{0x1D52F,0x1D52F,0x1D52F,2,-1},{0x1D530,0x1D530,0x1D530,2,-1},
{0x1D531,0x1D531,0x1D531,2,-1},{0x1D532,0x1D532,0x1D532,2,-1},{0x1D533,0x1D533,0x1D533,2,-1},{0x1D534,0x1D534,0x1D534,2,-1},{0x1D535,0x1D535,0x1D535,2,-1},{0x1D536,0x1D536,0x1D536,2,-1},
{0x1D537,0x1D537,0x1D537,2,-1},{0x1D538,0x1D538,0x1D538,1,-1},{0x1D539,0x1D539,0x1D539,1,-1},{0x1D53B,0x1D53B,0x1D53B,1,-1},{0x1D53C,0x1D53C,0x1D53C,1,-1},{0x1D53D,0x1D53D,0x1D53D,1,-1},
{0x1D53E,0x1D53E,0x1D53E,1,-1},{0x1D540,0x1D540,0x1D540,1,-1},{0x1D541,0x1D541,0x1D541,1,-1},{0x1D542,0x1D542,0x1D542,1,-1},{0x1D543,0x1D543,0x1D543,1,-1},{0x1D544,0x1D544,0x1D544,1,-1},
{0x1D546,0x1D546,0x1D546,1,-1},{0x1D54A,0x1D54A,0x1D54A,1,-1},{0x1D54B,0x1D54B,0x1D54B,1,-1},{0x1D54C,0x1D54C,0x1D54C,1,-1},{0x1D54D,0x1D54D,0x1D54D,1,-1},{0x1D54E,0x1D54E,0x1D54E,1,-1},
{0x1D54F,0x1D54F,0x1D54F,1,-1},{0x1D550,0x1D550,0x1D550,1,-1},{0x1D552,0x1D552,0x1D552,2,-1},{0x1D553,0x1D553,0x1D553,2,-1},{0x1D554,0x1D554,0x1D554,2,-1},{0x1D555,0x1D555,0x1D555,2,-1},
{0x1D556,0x1D556,0x1D556,2,-1},{0x1D557,0x1D557,0x1D557,2,-1},{0x1D558,0x1D558,0x1D558,2,-1},{0x1D559,0x1D559,0x1D559,2,-1},{0x1D55A,0x1D55A,0x1D55A,2,-1},{0x1D55B,0x1D55B,0x1D55B,2,-1},
{0x1D55C,0x1D55C,0x1D55C,2,-1},{0x1D55D,0x1D55D,0x1D55D,2,-1},{0x1D55E,0x1D55E,0x1D55E,2,-1},{0x1D55F,0x1D55F,0x1D55F,2,-1},{0x1D560,0x1D560,0x1D560,2,-1},{0x1D561,0x1D561,0x1D561,2,-1},
{0x1D562,0x1D562,0x1D562,2,-1},{0x1D563,0x1D563,0x1D563,2,-1},{0x1D564,0x1D564,0x1D564,2,-1},{0x1D565,0x1D565,0x1D565,2,-1},{0x1D566,0x1D566,0x1D566,2,-1},{0x1D567,0x1D567,0x1D567,2,-1},
{0x1D568,0x1D568,0x1D568,2,-1},{0x1D569,0x1D569,0x1D569,2,-1},{0x1D56A,0x1D56A,0x1D56A,2,-1},{0x1D56B,0x1D56B,0x1D56B,2,-1},{0x1D56C,0x1D56C,0x1D56C,1,-1},{0x1D56D,0x1D56D,0x1D56D,1,-1},
{0x1D56E,0x1D56E,0x1D56E,1,-1},{0x1D56F,0x1D56F,0x1D56F,1,-1},{0x1D570,0x1D570,0x1D570,1,-1},{0x1D571,0x1D571,0x1D571,1,-1},{0x1D572,0x1D572,0x1D572,1,-1},{0x1D573,0x1D573,0x1D573,1,-1},
{0x1D574,0x1D574,0x1D574,1,-1},{0x1D575,0x1D575,0x1D575,1,-1},{0x1D576,0x1D576,0x1D576,1,-1},{0x1D577,0x1D577,0x1D577,1,-1},{0x1D578,0x1D578,0x1D578,1,-1},{0x1D579,0x1D579,0x1D579,1,-1},
{0x1D57A,0x1D57A,0x1D57A,1,-1},{0x1D57B,0x1D57B,0x1D57B,1,-1},{0x1D57C,0x1D57C,0x1D57C,1,-1},{0x1D57D,0x1D57D,0x1D57D,1,-1},{0x1D57E,0x1D57E,0x1D57E,1,-1},{0x1D57F,0x1D57F,0x1D57F,1,-1},
{0x1D580,0x1D580,0x1D580,1,-1},{0x1D581,0x1D581,0x1D581,1,-1},{0x1D582,0x1D582,0x1D582,1,-1},{0x1D583,0x1D583,0x1D583,1,-1},{0x1D584,0x1D584,0x1D584,1,-1},{0x1D585,0x1D585,0x1D585,1,-1},
{0x1D586,0x1D586,0x1D586,2,-1},{0x1D587,0x1D587,0x1D587,2,-1},{0x1D588,0x1D588,0x1D588,2,-1},{0x1D589,0x1D589,0x1D589,2,-1},{0x1D58A,0x1D58A,0x1D58A,2,-1},{0x1D58B,0x1D58B,0x1D58B,2,-1},
{0x1D58C,0x1D58C,0x1D58C,2,-1},{0x1D58D,0x1D58D,0x1D58D,2,-1},{0x1D58E,0x1D58E,0x1D58E,2,-1},{0x1D58F,0x1D58F,0x1D58F,2,-1},{0x1D590,0x1D590,0x1D590,2,-1},{0x1D591,0x1D591,0x1D591,2,-1},
{0x1D592,0x1D592,0x1D592,2,-1},{0x1D593,0x1D593,0x1D593,2,-1},{0x1D594,0x1D594,0x1D594,2,-1},{0x1D595,0x1D595,0x1D595,2,-1},{0x1D596,0x1D596,0x1D596,2,-1},{0x1D597,0x1D597,0x1D597,2,-1},
{0x1D598,0x1D598,0x1D598,2,-1},{0x1D599,0x1D599,0x1D599,2,-1},{0x1D59A,0x1D59A,0x1D59A,2,-1},{0x1D59B,0x1D59B,0x1D59B,2,-1},{0x1D59C,0x1D59C,0x1D59C,2,-1},{0x1D59D,0x1D59D,0x1D59D,2,-1},
{0x1D59E,0x1D59E,0x1D59E,2,-1},{0x1D59F,0x1D59F,0x1D59F,2,-1},{0x1D5A0,0x1D5A0,0x1D5A0,1,-1},{0x1D5A1,0x1D5A1,0x1D5A1,1,-1},{0x1D5A2,0x1D5A2,0x1D5A2,1,-1},{0x1D5A3,0x1D5A3,0x1D5A3,1,-1},
{0x1D5A4,0x1D5A4,0x1D5A4,1,-1},{0x1D5A5,0x1D5A5,0x1D5A5,1,-1},{0x1D5A6,0x1D5A6,0x1D5A6,1,-1},{0x1D5A7,0x1D5A7,0x1D5A7,1,-1},{0x1D5A8,0x1D5A8,0x1D5A8,1,-1},{0x1D5A9,0x1D5A9,0x1D5A9,1,-1},
{0x1D5AA,0x1D5AA,0x1D5AA,1,-1},{0x1D5AB,0x1D5AB,0x1D5AB,1,-1},{0x1D5AC,0x1D5AC,0x1D5AC,1,-1},{0x1D5AD,0x1D5AD,0x1D5AD,1,-1},{0x1D5AE,0x1D5AE,0x1D5AE,1,-1},{0x1D5AF,0x1D5AF,0x1D5AF,1,-1},
{0x1D5B0,0x1D5B0,0x1D5B0,1,-1},{0x1D5B1,0x1D5B1,0x1D5B1,1,-1},{0x1D5B2,0x1D5B2,0x1D5B2,1,-1},{0x1D5B3,0x1D5B3,0x1D5B3,1,-1},{0x1D5B4,0x1D5B4,0x1D5B4,1,-1},{0x1D5B5,0x1D5B5,0x1D5B5,1,-1},
{0x1D5B6,0x1D5B6,0x1D5B6,1,-1},{0x1D5B7,0x1D5B7,0x1D5B7,1,-1},{0x1D5B8,0x1D5B8,0x1D5B8,1,-1},{0x1D5B9,0x1D5B9,0x1D5B9,1,-1},{0x1D5BA,0x1D5BA,0x1D5BA,2,-1},{0x1D5BB,0x1D5BB,0x1D5BB,2,-1},
{0x1D5BC,0x1D5BC,0x1D5BC,2,-1},{0x1D5BD,0x1D5BD,0x1D5BD,2,-1},{0x1D5BE,0x1D5BE,0x1D5BE,2,-1},{0x1D5BF,0x1D5BF,0x1D5BF,2,-1},{0x1D5C0,0x1D5C0,0x1D5C0,2,-1},{0x1D5C1,0x1D5C1,0x1D5C1,2,-1},
{0x1D5C2,0x1D5C2,0x1D5C2,2,-1},{0x1D5C3,0x1D5C3,0x1D5C3,2,-1},{0x1D5C4,0x1D5C4,0x1D5C4,2,-1},{0x1D5C5,0x1D5C5,0x1D5C5,2,-1},{0x1D5C6,0x1D5C6,0x1D5C6,2,-1},{0x1D5C7,0x1D5C7,0x1D5C7,2,-1},
{0x1D5C8,0x1D5C8,0x1D5C8,2,-1},{0x1D5C9,0x1D5C9,0x1D5C9,2,-1},{0x1D5CA,0x1D5CA,0x1D5CA,2,-1},{0x1D5CB,0x1D5CB,0x1D5CB,2,-1},{0x1D5CC,0x1D5CC,0x1D5CC,2,-1},{0x1D5CD,0x1D5CD,0x1D5CD,2,-1},
{0x1D5CE,0x1D5CE,0x1D5CE,2,-1},{0x1D5CF,0x1D5CF,0x1D5CF,2,-1},{0x1D5D0,0x1D5D0,0x1D5D0,2,-1},{0x1D5D1,0x1D5D1,0x1D5D1,2,-1},{0x1D5D2,0x1D5D2,0x1D5D2,2,-1},{0x1D5D3,0x1D5D3,0x1D5D3,2,-1},
{0x1D5D4,0x1D5D4,0x1D5D4,1,-1},{0x1D5D5,0x1D5D5,0x1D5D5,1,-1},{0x1D5D6,0x1D5D6,0x1D5D6,1,-1},{0x1D5D7,0x1D5D7,0x1D5D7,1,-1},{0x1D5D8,0x1D5D8,0x1D5D8,1,-1},{0x1D5D9,0x1D5D9,0x1D5D9,1,-1},
{0x1D5DA,0x1D5DA,0x1D5DA,1,-1},{0x1D5DB,0x1D5DB,0x1D5DB,1,-1},{0x1D5DC,0x1D5DC,0x1D5DC,1,-1},{0x1D5DD,0x1D5DD,0x1D5DD,1,-1},{0x1D5DE,0x1D5DE,0x1D5DE,1,-1},{0x1D5DF,0x1D5DF,0x1D5DF,1,-1},
{0x1D5E0,0x1D5E0,0x1D5E0,1,-1},{0x1D5E1,0x1D5E1,0x1D5E1,1,-1},{0x1D5E2,0x1D5E2,0x1D5E2,1,-1},{0x1D5E3,0x1D5E3,0x1D5E3,1,-1},{0x1D5E4,0x1D5E4,0x1D5E4,1,-1},{0x1D5E5,0x1D5E5,0x1D5E5,1,-1},
{0x1D5E6,0x1D5E6,0x1D5E6,1,-1},{0x1D5E7,0x1D5E7,0x1D5E7,1,-1},{0x1D5E8,0x1D5E8,0x1D5E8,1,-1},{0x1D5E9,0x1D5E9,0x1D5E9,1,-1},{0x1D5EA,0x1D5EA,0x1D5EA,1,-1},{0x1D5EB,0x1D5EB,0x1D5EB,1,-1},
{0x1D5EC,0x1D5EC,0x1D5EC,1,-1},{0x1D5ED,0x1D5ED,0x1D5ED,1,-1},{0x1D5EE,0x1D5EE,0x1D5EE,2,-1},{0x1D5EF,0x1D5EF,0x1D5EF,2,-1},{0x1D5F0,0x1D5F0,0x1D5F0,2,-1},{0x1D5F1,0x1D5F1,0x1D5F1,2,-1},
{0x1D5F2,0x1D5F2,0x1D5F2,2,-1},{0x1D5F3,0x1D5F3,0x1D5F3,2,-1},{0x1D5F4,0x1D5F4,0x1D5F4,2,-1},{0x1D5F5,0x1D5F5,0x1D5F5,2,-1},{0x1D5F6,0x1D5F6,0x1D5F6,2,-1},{0x1D5F7,0x1D5F7,0x1D5F7,2,-1},
{0x1D5F8,0x1D5F8,0x1D5F8,2,-1},{0x1D5F9,0x1D5F9,0x1D5F9,2,-1},{0x1D5FA,0x1D5FA,0x1D5FA,2,-1},{0x1D5FB,0x1D5FB,0x1D5FB,2,-1},{0x1D5FC,0x1D5FC,0x1D5FC,2,-1},{0x1D5FD,0x1D5FD,0x1D5FD,2,-1},
{0x1D5FE,0x1D5FE,0x1D5FE,2,-1},{0x1D5FF,0x1D5FF,0x1D5FF,2,-1},{0x1D600,0x1D600,0x1D600,2,-1},{0x1D601,0x1D601,0x1D601,2,-1},{0x1D602,0x1D602,0x1D602,2,-1},{0x1D603,0x1D603,0x1D603,2,-1},
{0x1D604,0x1D604,0x1D604,2,-1},{0x1D605,0x1D605,0x1D605,2,-1},{0x1D606,0x1D606,0x1D606,2,-1},{0x1D607,0x1D607,0x1D607,2,-1},{0x1D608,0x1D608,0x1D608,1,-1},{0x1D609,0x1D609,0x1D609,1,-1},
{0x1D60A,0x1D60A,0x1D60A,1,-1},{0x1D60B,0x1D60B,0x1D60B,1,-1},{0x1D60C,0x1D60C,0x1D60C,1,-1},{0x1D60D,0x1D60D,0x1D60D,1,-1},{0x1D60E,0x1D60E,0x1D60E,1,-1},{0x1D60F,0x1D60F,0x1D60F,1,-1},
{0x1D610,0x1D610,0x1D610,1,-1},{0x1D611,0x1D611,0x1D611,1,-1},{0x1D612,0x1D612,0x1D612,1,-1},{0x1D613,0x1D613,0x1D613,1,-1},{0x1D614,0x1D614,0x1D614,1,-1},{0x1D615,0x1D615,0x1D615,1,-1},
{0x1D616,0x1D616,0x1D616,1,-1},{0x1D617,0x1D617,0x1D617,1,-1},{0x1D618,0x1D618,0x1D618,1,-1},{0x1D619,0x1D619,0x1D619,1,-1},{0x1D61A,0x1D61A,0x1D61A,1,-1},{0x1D61B,0x1D61B,0x1D61B,1,-1},
{0x1D61C,0x1D61C,0x1D61C,1,-1},{0x1D61D,0x1D61D,0x1D61D,1,-1},{0x1D61E,0x1D61E,0x1D61E,1,-1},{0x1D61F,0x1D61F,0x1D61F,1,-1},{0x1D620,0x1D620,0x1D620,1,-1},{0x1D621,0x1D621,0x1D621,1,-1},
{0x1D622,0x1D622,0x1D622,2,-1},{0x1D623,0x1D623,0x1D623,2,-1},{0x1D624,0x1D624,0x1D624,2,-1},{0x1D625,0x1D625,0x1D625,2,-1},{0x1D626,0x1D626,0x1D626,2,-1},{0x1D627,0x1D627,0x1D627,2,-1},
{0x1D628,0x1D628,0x1D628,2,-1},{0x1D629,0x1D629,0x1D629,2,-1},{0x1D62A,0x1D62A,0x1D62A,2,-1},{0x1D62B,0x1D62B,0x1D62B,2,-1},{0x1D62C,0x1D62C,0x1D62C,2,-1},{0x1D62D,0x1D62D,0x1D62D,2,-1},
{0x1D62E,0x1D62E,0x1D62E,2,-1},{0x1D62F,0x1D62F,0x1D62F,2,-1},{0x1D630,0x1D630,0x1D630,2,-1},{0x1D631,0x1D631,0x1D631,2,-1},{0x1D632,0x1D632,0x1D632,2,-1},{0x1D633,0x1D633,0x1D633,2,-1},
{0x1D634,0x1D634,0x1D634,2,-1},{0x1D635,0x1D635,0x1D635,2,-1},{0x1D636,0x1D636,0x1D636,2,-1},{0x1D637,0x1D637,0x1D637,2,-1},{0x1D638,0x1D638,0x1D638,2,-1},{0x1D639,0x1D639,0x1D639,2,-1},
{0x1D63A,0x1D63A,0x1D63A,2,-1},{0x1D63B,0x1D63B,0x1D63B,2,-1},{0x1D63C,0x1D63C,0x1D63C,1,-1},{0x1D63D,0x1D63D,0x1D63D,1,-1},{0x1D63E,0x1D63E,0x1D63E,1,-1},{0x1D63F,0x1D63F,0x1D63F,1,-1},
{0x1D640,0x1D640,0x1D640,1,-1},{0x1D641,0x1D641,0x1D641,1,-1},{0x1D642,0x1D642,0x1D642,1,-1},{0x1D643,0x1D643,0x1D643,1,-1},{0x1D644,0x1D644,0x1D644,1,-1},{0x1D645,0x1D645,0x1D645,1,-1},
{0x1D646,0x1D646,0x1D646,1,-1},{0x1D647,0x1D647,0x1D647,1,-1},{0x1D648,0x1D648,0x1D648,1,-1},{0x1D649,0x1D649,0x1D649,1,-1},{0x1D64A,0x1D64A,0x1D64A,1,-1},{0x1D64B,0x1D64B,0x1D64B,1,-1},
{0x1D64C,0x1D64C,0x1D64C,1,-1},{0x1D64D,0x1D64D,0x1D64D,1,-1},{0x1D64E,0x1D64E,0x1D64E,1,-1},{0x1D64F,0x1D64F,0x1D64F,1,-1},{0x1D650,0x1D650,0x1D650,1,-1},{0x1D651,0x1D651,0x1D651,1,-1},
{0x1D652,0x1D652,0x1D652,1,-1},{0x1D653,0x1D653,0x1D653,1,-1},{0x1D654,0x1D654,0x1D654,1,-1},{0x1D655,0x1D655,0x1D655,1,-1},{0x1D656,0x1D656,0x1D656,2,-1},{0x1D657,0x1D657,0x1D657,2,-1},
{0x1D658,0x1D658,0x1D658,2,-1},{0x1D659,0x1D659,0x1D659,2,-1},{0x1D65A,0x1D65A,0x1D65A,2,-1},{0x1D65B,0x1D65B,0x1D65B,2,-1},{0x1D65C,0x1D65C,0x1D65C,2,-1},{0x1D65D,0x1D65D,0x1D65D,2,-1},
{0x1D65E,0x1D65E,0x1D65E,2,-1},{0x1D65F,0x1D65F,0x1D65F,2,-1},{0x1D660,0x1D660,0x1D660,2,-1},{0x1D661,0x1D661,0x1D661,2,-1},{0x1D662,0x1D662,0x1D662,2,-1},{0x1D663,0x1D663,0x1D663,2,-1},
{0x1D664,0x1D664,0x1D664,2,-1},{0x1D665,0x1D665,0x1D665,2,-1},{0x1D666,0x1D666,0x1D666,2,-1},{0x1D667,0x1D667,0x1D667,2,-1},{0x1D668,0x1D668,0x1D668,2,-1},{0x1D669,0x1D669,0x1D669,2,-1},
{0x1D66A,0x1D66A,0x1D66A,2,-1},{0x1D66B,0x1D66B,0x1D66B,2,-1},{0x1D66C,0x1D66C,0x1D66C,2,-1},{0x1D66D,0x1D66D,0x1D66D,2,-1},{0x1D66E,0x1D66E,0x1D66E,2,-1},{0x1D66F,0x1D66F,0x1D66F,2,-1},
{0x1D670,0x1D670,0x1D670,1,-1},{0x1D671,0x1D671,0x1D671,1,-1},{0x1D672,0x1D672,0x1D672,1,-1},{0x1D673,0x1D673,0x1D673,1,-1},{0x1D674,0x1D674,0x1D674,1,-1},{0x1D675,0x1D675,0x1D675,1,-1},
{0x1D676,0x1D676,0x1D676,1,-1},{0x1D677,0x1D677,0x1D677,1,-1},{0x1D678,0x1D678,0x1D678,1,-1},{0x1D679,0x1D679,0x1D679,1,-1},{0x1D67A,0x1D67A,0x1D67A,1,-1},{0x1D67B,0x1D67B,0x1D67B,1,-1},
{0x1D67C,0x1D67C,0x1D67C,1,-1},{0x1D67D,0x1D67D,0x1D67D,1,-1},{0x1D67E,0x1D67E,0x1D67E,1,-1},{0x1D67F,0x1D67F,0x1D67F,1,-1},{0x1D680,0x1D680,0x1D680,1,-1},{0x1D681,0x1D681,0x1D681,1,-1},
{0x1D682,0x1D682,0x1D682,1,-1},{0x1D683,0x1D683,0x1D683,1,-1},{0x1D684,0x1D684,0x1D684,1,-1},{0x1D685,0x1D685,0x1D685,1,-1},{0x1D686,0x1D686,0x1D686,1,-1},{0x1D687,0x1D687,0x1D687,1,-1},
{0x1D688,0x1D688,0x1D688,1,-1},{0x1D689,0x1D689,0x1D689,1,-1},{0x1D68A,0x1D68A,0x1D68A,2,-1},{0x1D68B,0x1D68B,0x1D68B,2,-1},{0x1D68C,0x1D68C,0x1D68C,2,-1},{0x1D68D,0x1D68D,0x1D68D,2,-1},
{0x1D68E,0x1D68E,0x1D68E,2,-1},{0x1D68F,0x1D68F,0x1D68F,2,-1},{0x1D690,0x1D690,0x1D690,2,-1},{0x1D691,0x1D691,0x1D691,2,-1},{0x1D692,0x1D692,0x1D692,2,-1},{0x1D693,0x1D693,0x1D693,2,-1},
{0x1D694,0x1D694,0x1D694,2,-1},{0x1D695,0x1D695,0x1D695,2,-1},{0x1D696,0x1D696,0x1D696,2,-1},{0x1D697,0x1D697,0x1D697,2,-1},{0x1D698,0x1D698,0x1D698,2,-1},{0x1D699,0x1D699,0x1D699,2,-1},
{0x1D69A,0x1D69A,0x1D69A,2,-1},{0x1D69B,0x1D69B,0x1D69B,2,-1},{0x1D69C,0x1D69C,0x1D69C,2,-1},{0x1D69D,0x1D69D,0x1D69D,2,-1},{0x1D69E,0x1D69E,0x1D69E,2,-1},{0x1D69F,0x1D69F,0x1D69F,2,-1},
{0x1D6A0,0x1D6A0,0x1D6A0,2,-1},{0x1D6A1,0x1D6A1,0x1D6A1,2,-1},{0x1D6A2,0x1D6A2,0x1D6A2,2,-1},{0x1D6A3,0x1D6A3,0x1D6A3,2,-1},{0x1D6A4,0x1D6A4,0x1D6A4,2,-1},{0x1D6A5,0x1D6A5,0x1D6A5,2,-1},
{0x1D6A8,0x1D6A8,0x1D6A8,1,-1},{0x1D6A9,0x1D6A9,0x1D6A9,1,-1},{0x1D6AA,0x1D6AA,0x1D6AA,1,-1},{0x1D6AB,0x1D6AB,0x1D6AB,1,-1},{0x1D6AC,0x1D6AC,0x1D6AC,1,-1},{0x1D6AD,0x1D6AD,0x1D6AD,1,-1},
{0x1D6AE,0x1D6AE,0x1D6AE,1,-1},{0x1D6AF,0x1D6AF,0x1D6AF,1,-1},{0x1D6B0,0x1D6B0,0x1D6B0,1,-1},{0x1D6B1,0x1D6B1,0x1D6B1,1,-1},{0x1D6B2,0x1D6B2,0x1D6B2,1,-1},{0x1D6B3,0x1D6B3,0x1D6B3,1,-1},
{0x1D6B4,0x1D6B4,0x1D6B4,1,-1},{0x1D6B5,0x1D6B5,0x1D6B5,1,-1},{0x1D6B6,0x1D6B6,0x1D6B6,1,-1},{0x1D6B7,0x1D6B7,0x1D6B7,1,-1},{0x1D6B8,0x1D6B8,0x1D6B8,1,-1},{0x1D6B9,0x1D6B9,0x1D6B9,1,-1},
{0x1D6BA,0x1D6BA,0x1D6BA,1,-1},{0x1D6BB,0x1D6BB,0x1D6BB,1,-1},{0x1D6BC,0x1D6BC,0x1D6BC,1,-1},{0x1D6BD,0x1D6BD,0x1D6BD,1,-1},{0x1D6BE,0x1D6BE,0x1D6BE,1,-1},{0x1D6BF,0x1D6BF,0x1D6BF,1,-1},
{0x1D6C0,0x1D6C0,0x1D6C0,1,-1},{0x1D6C2,0x1D6C2,0x1D6C2,2,-1},{0x1D6C3,0x1D6C3,0x1D6C3,2,-1},{0x1D6C4,0x1D6C4,0x1D6C4,2,-1},{0x1D6C5,0x1D6C5,0x1D6C5,2,-1},{0x1D6C6,0x1D6C6,0x1D6C6,2,-1},
{0x1D6C7,0x1D6C7,0x1D6C7,2,-1},{0x1D6C8,0x1D6C8,0x1D6C8,2,-1},{0x1D6C9,0x1D6C9,0x1D6C9,2,-1},{0x1D6CA,0x1D6CA,0x1D6CA,2,-1},{0x1D6CB,0x1D6CB,0x1D6CB,2,-1},{0x1D6CC,0x1D6CC,0x1D6CC,2,-1},
{0x1D6CD,0x1D6CD,0x1D6CD,2,-1},{0x1D6CE,0x1D6CE,0x1D6CE,2,-1},{0x1D6CF,0x1D6CF,0x1D6CF,2,-1},{0x1D6D0,0x1D6D0,0x1D6D0,2,-1},{0x1D6D1,0x1D6D1,0x1D6D1,2,-1},{0x1D6D2,0x1D6D2,0x1D6D2,2,-1},
{0x1D6D3,0x1D6D3,0x1D6D3,2,-1},{0x1D6D4,0x1D6D4,0x1D6D4,2,-1},{0x1D6D5,0x1D6D5,0x1D6D5,2,-1},{0x1D6D6,0x1D6D6,0x1D6D6,2,-1},{0x1D6D7,0x1D6D7,0x1D6D7,2,-1},{0x1D6D8,0x1D6D8,0x1D6D8,2,-1},
{0x1D6D9,0x1D6D9,0x1D6D9,2,-1},{0x1D6DA,0x1D6DA,0x1D6DA,2,-1},{0x1D6DC,0x1D6DC,0x1D6DC,2,-1},{0x1D6DD,0x1D6DD,0x1D6DD,2,-1},{0x1D6DE,0x1D6DE,0x1D6DE,2,-1},{0x1D6DF,0x1D6DF,0x1D6DF,2,-1},
{0x1D6E0,0x1D6E0,0x1D6E0,2,-1},{0x1D6E1,0x1D6E1,0x1D6E1,2,-1},{0x1D6E2,0x1D6E2,0x1D6E2,1,-1},{0x1D6E3,0x1D6E3,0x1D6E3,1,-1},{0x1D6E4,0x1D6E4,0x1D6E4,1,-1},{0x1D6E5,0x1D6E5,0x1D6E5,1,-1},
{0x1D6E6,0x1D6E6,0x1D6E6,1,-1},{0x1D6E7,0x1D6E7,0x1D6E7,1,-1},{0x1D6E8,0x1D6E8,0x1D6E8,1,-1},{0x1D6E9,0x1D6E9,0x1D6E9,1,-1},{0x1D6EA,0x1D6EA,0x1D6EA,1,-1},{0x1D6EB,0x1D6EB,0x1D6EB,1,-1},
{0x1D6EC,0x1D6EC,0x1D6EC,1,-1},{0x1D6ED,0x1D6ED,0x1D6ED,1,-1},{0x1D6EE,0x1D6EE,0x1D6EE,1,-1},{0x1D6EF,0x1D6EF,0x1D6EF,1,-1},{0x1D6F0,0x1D6F0,0x1D6F0,1,-1},{0x1D6F1,0x1D6F1,0x1D6F1,1,-1},
{0x1D6F2,0x1D6F2,0x1D6F2,1,-1},{0x1D6F3,0x1D6F3,0x1D6F3,1,-1},{0x1D6F4,0x1D6F4,0x1D6F4,1,-1},{0x1D6F5,0x1D6F5,0x1D6F5,1,-1},{0x1D6F6,0x1D6F6,0x1D6F6,1,-1},{0x1D6F7,0x1D6F7,0x1D6F7,1,-1},
{0x1D6F8,0x1D6F8,0x1D6F8,1,-1},{0x1D6F9,0x1D6F9,0x1D6F9,1,-1},{0x1D6FA,0x1D6FA,0x1D6FA,1,-1},{0x1D6FC,0x1D6FC,0x1D6FC,2,-1},{0x1D6FD,0x1D6FD,0x1D6FD,2,-1},{0x1D6FE,0x1D6FE,0x1D6FE,2,-1},
{0x1D6FF,0x1D6FF,0x1D6FF,2,-1},{0x1D700,0x1D700,0x1D700,2,-1},{0x1D701,0x1D701,0x1D701,2,-1},{0x1D702,0x1D702,0x1D702,2,-1},{0x1D703,0x1D703,0x1D703,2,-1},{0x1D704,0x1D704,0x1D704,2,-1},
{0x1D705,0x1D705,0x1D705,2,-1},{0x1D706,0x1D706,0x1D706,2,-1},{0x1D707,0x1D707,0x1D707,2,-1},{0x1D708,0x1D708,0x1D708,2,-1},{0x1D709,0x1D709,0x1D709,2,-1},{0x1D70A,0x1D70A,0x1D70A,2,-1},
{0x1D70B,0x1D70B,0x1D70B,2,-1},{0x1D70C,0x1D70C,0x1D70C,2,-1},{0x1D70D,0x1D70D,0x1D70D,2,-1},{0x1D70E,0x1D70E,0x1D70E,2,-1},{0x1D70F,0x1D70F,0x1D70F,2,-1},{0x1D710,0x1D710,0x1D710,2,-1},
{0x1D711,0x1D711,0x1D711,2,-1},{0x1D712,0x1D712,0x1D712,2,-1},{0x1D713,0x1D713,0x1D713,2,-1},{0x1D714,0x1D714,0x1D714,2,-1},{0x1D716,0x1D716,0x1D716,2,-1},{0x1D717,0x1D717,0x1D717,2,-1},
{0x1D718,0x1D718,0x1D718,2,-1},{0x1D719,0x1D719,0x1D719,2,-1},{0x1D71A,0x1D71A,0x1D71A,2,-1},{0x1D71B,0x1D71B,0x1D71B,2,-1},{0x1D71C,0x1D71C,0x1D71C,1,-1},{0x1D71D,0x1D71D,0x1D71D,1,-1},
{0x1D71E,0x1D71E,0x1D71E,1,-1},{0x1D71F,0x1D71F,0x1D71F,1,-1},{0x1D720,0x1D720,0x1D720,1,-1},{0x1D721,0x1D721,0x1D721,1,-1},{0x1D722,0x1D722,0x1D722,1,-1},{0x1D723,0x1D723,0x1D723,1,-1},
{0x1D724,0x1D724,0x1D724,1,-1},{0x1D725,0x1D725,0x1D725,1,-1},{0x1D726,0x1D726,0x1D726,1,-1},{0x1D727,0x1D727,0x1D727,1,-1},{0x1D728,0x1D728,0x1D728,1,-1},{0x1D729,0x1D729,0x1D729,1,-1},
{0x1D72A,0x1D72A,0x1D72A,1,-1},{0x1D72B,0x1D72B,0x1D72B,1,-1},{0x1D72C,0x1D72C,0x1D72C,1,-1},{0x1D72D,0x1D72D,0x1D72D,1,-1},{0x1D72E,0x1D72E,0x1D72E,1,-1},{0x1D72F,0x1D72F,0x1D72F,1,-1},
{0x1D730,0x1D730,0x1D730,1,-1},{0x1D731,0x1D731,0x1D731,1,-1},{0x1D732,0x1D732,0x1D732,1,-1},{0x1D733,0x1D733,0x1D733,1,-1},{0x1D734,0x1D734,0x1D734,1,-1},{0x1D736,0x1D736,0x1D736,2,-1},
{0x1D737,0x1D737,0x1D737,2,-1},{0x1D738,0x1D738,0x1D738,2,-1},{0x1D739,0x1D739,0x1D739,2,-1},{0x1D73A,0x1D73A,0x1D73A,2,-1},{0x1D73B,0x1D73B,0x1D73B,2,-1},{0x1D73C,0x1D73C,0x1D73C,2,-1},
{0x1D73D,0x1D73D,0x1D73D,2,-1},{0x1D73E,0x1D73E,0x1D73E,2,-1},{0x1D73F,0x1D73F,0x1D73F,2,-1},{0x1D740,0x1D740,0x1D740,2,-1},{0x1D741,0x1D741,0x1D741,2,-1},{0x1D742,0x1D742,0x1D742,2,-1},
{0x1D743,0x1D743,0x1D743,2,-1},{0x1D744,0x1D744,0x1D744,2,-1},{0x1D745,0x1D745,0x1D745,2,-1},{0x1D746,0x1D746,0x1D746,2,-1},{0x1D747,0x1D747,0x1D747,2,-1},{0x1D748,0x1D748,0x1D748,2,-1},
{0x1D749,0x1D749,0x1D749,2,-1},{0x1D74A,0x1D74A,0x1D74A,2,-1},{0x1D74B,0x1D74B,0x1D74B,2,-1},{0x1D74C,0x1D74C,0x1D74C,2,-1},{0x1D74D,0x1D74D,0x1D74D,2,-1},{0x1D74E,0x1D74E,0x1D74E,2,-1},
{0x1D750,0x1D750,0x1D750,2,-1},{0x1D751,0x1D751,0x1D751,2,-1},{0x1D752,0x1D752,0x1D752,2,-1},{0x1D753,0x1D753,0x1D753,2,-1},{0x1D754,0x1D754,0x1D754,2,-1},{0x1D755,0x1D755,0x1D755,2,-1},
{0x1D756,0x1D756,0x1D756,1,-1},{0x1D757,0x1D757,0x1D757,1,-1},{0x1D758,0x1D758,0x1D758,1,-1},{0x1D759,0x1D759,0x1D759,1,-1},{0x1D75A,0x1D75A,0x1D75A,1,-1},{0x1D75B,0x1D75B,0x1D75B,1,-1},
{0x1D75C,0x1D75C,0x1D75C,1,-1},{0x1D75D,0x1D75D,0x1D75D,1,-1},{0x1D75E,0x1D75E,0x1D75E,1,-1},{0x1D75F,0x1D75F,0x1D75F,1,-1},{0x1D760,0x1D760,0x1D760,1,-1},{0x1D761,0x1D761,0x1D761,1,-1},
{0x1D762,0x1D762,0x1D762,1,-1},{0x1D763,0x1D763,0x1D763,1,-1},{0x1D764,0x1D764,0x1D764,1,-1},{0x1D765,0x1D765,0x1D765,1,-1},{0x1D766,0x1D766,0x1D766,1,-1},{0x1D767,0x1D767,0x1D767,1,-1},
{0x1D768,0x1D768,0x1D768,1,-1},{0x1D769,0x1D769,0x1D769,1,-1},{0x1D76A,0x1D76A,0x1D76A,1,-1},{0x1D76B,0x1D76B,0x1D76B,1,-1},{0x1D76C,0x1D76C,0x1D76C,1,-1},{0x1D76D,0x1D76D,0x1D76D,1,-1},
{0x1D76E,0x1D76E,0x1D76E,1,-1},{0x1D770,0x1D770,0x1D770,2,-1},{0x1D771,0x1D771,0x1D771,2,-1},{0x1D772,0x1D772,0x1D772,2,-1},{0x1D773,0x1D773,0x1D773,2,-1},{0x1D774,0x1D774,0x1D774,2,-1},
{0x1D775,0x1D775,0x1D775,2,-1},{0x1D776,0x1D776,0x1D776,2,-1},{0x1D777,0x1D777,0x1D777,2,-1},{0x1D778,0x1D778,0x1D778,2,-1},{0x1D779,0x1D779,0x1D779,2,-1},{0x1D77A,0x1D77A,0x1D77A,2,-1},
{0x1D77B,0x1D77B,0x1D77B,2,-1},{0x1D77C,0x1D77C,0x1D77C,2,-1},{0x1D77D,0x1D77D,0x1D77D,2,-1},{0x1D77E,0x1D77E,0x1D77E,2,-1},{0x1D77F,0x1D77F,0x1D77F,2,-1},{0x1D780,0x1D780,0x1D780,2,-1},
{0x1D781,0x1D781,0x1D781,2,-1},{0x1D782,0x1D782,0x1D782,2,-1},{0x1D783,0x1D783,0x1D783,2,-1},{0x1D784,0x1D784,0x1D784,2,-1},{0x1D785,0x1D785,0x1D785,2,-1},{0x1D786,0x1D786,0x1D786,2,-1},
{0x1D787,0x1D787,0x1D787,2,-1},{0x1D788,0x1D788,0x1D788,2,-1},{0x1D78A,0x1D78A,0x1D78A,2,-1},{0x1D78B,0x1D78B,0x1D78B,2,-1},{0x1D78C,0x1D78C,0x1D78C,2,-1},{0x1D78D,0x1D78D,0x1D78D,2,-1},
{0x1D78E,0x1D78E,0x1D78E,2,-1},{0x1D78F,0x1D78F,0x1D78F,2,-1},{0x1D790,0x1D790,0x1D790,1,-1},{0x1D791,0x1D791,0x1D791,1,-1},{0x1D792,0x1D792,0x1D792,1,-1},{0x1D793,0x1D793,0x1D793,1,-1},
{0x1D794,0x1D794,0x1D794,1,-1},{0x1D795,0x1D795,0x1D795,1,-1},{0x1D796,0x1D796,0x1D796,1,-1},{0x1D797,0x1D797,0x1D797,1,-1},{0x1D798,0x1D798,0x1D798,1,-1},{0x1D799,0x1D799,0x1D799,1,-1},
{0x1D79A,0x1D79A,0x1D79A,1,-1},{0x1D79B,0x1D79B,0x1D79B,1,-1},{0x1D79C,0x1D79C,0x1D79C,1,-1},{0x1D79D,0x1D79D,0x1D79D,1,-1},{0x1D79E,0x1D79E,0x1D79E,1,-1},{0x1D79F,0x1D79F,0x1D79F,1,-1},
{0x1D7A0,0x1D7A0,0x1D7A0,1,-1},{0x1D7A1,0x1D7A1,0x1D7A1,1,-1},{0x1D7A2,0x1D7A2,0x1D7A2,1,-1},{0x1D7A3,0x1D7A3,0x1D7A3,1,-1},{0x1D7A4,0x1D7A4,0x1D7A4,1,-1},{0x1D7A5,0x1D7A5,0x1D7A5,1,-1},
{0x1D7A6,0x1D7A6,0x1D7A6,1,-1},{0x1D7A7,0x1D7A7,0x1D7A7,1,-1},{0x1D7A8,0x1D7A8,0x1D7A8,1,-1},{0x1D7AA,0x1D7AA,0x1D7AA,2,-1},{0x1D7AB,0x1D7AB,0x1D7AB,2,-1},{0x1D7AC,0x1D7AC,0x1D7AC,2,-1},
{0x1D7AD,0x1D7AD,0x1D7AD,2,-1},{0x1D7AE,0x1D7AE,0x1D7AE,2,-1},{0x1D7AF,0x1D7AF,0x1D7AF,2,-1},{0x1D7B0,0x1D7B0,0x1D7B0,2,-1},{0x1D7B1,0x1D7B1,0x1D7B1,2,-1},{0x1D7B2,0x1D7B2,0x1D7B2,2,-1},
{0x1D7B3,0x1D7B3,0x1D7B3,2,-1},{0x1D7B4,0x1D7B4,0x1D7B4,2,-1},{0x1D7B5,0x1D7B5,0x1D7B5,2,-1},{0x1D7B6,0x1D7B6,0x1D7B6,2,-1},{0x1D7B7,0x1D7B7,0x1D7B7,2,-1},{0x1D7B8,0x1D7B8,0x1D7B8,2,-1},
{0x1D7B9,0x1D7B9,0x1D7B9,2,-1},{0x1D7BA,0x1D7BA,0x1D7BA,2,-1},{0x1D7BB,0x1D7BB,0x1D7BB,2,-1},{0x1D7BC,0x1D7BC,0x1D7BC,2,-1},{0x1D7BD,0x1D7BD,0x1D7BD,2,-1},{0x1D7BE,0x1D7BE,0x1D7BE,2,-1},
{0x1D7BF,0x1D7BF,0x1D7BF,2,-1},{0x1D7C0,0x1D7C0,0x1D7C0,2,-1},{0x1D7C1,0x1D7C1,0x1D7C1,2,-1},{0x1D7C2,0x1D7C2,0x1D7C2,2,-1},{0x1D7C4,0x1D7C4,0x1D7C4,2,-1},{0x1D7C5,0x1D7C5,0x1D7C5,2,-1},
{0x1D7C6,0x1D7C6,0x1D7C6,2,-1},{0x1D7C7,0x1D7C7,0x1D7C7,2,-1},{0x1D7C8,0x1D7C8,0x1D7C8,2,-1},{0x1D7C9,0x1D7C9,0x1D7C9,2,-1},{0x1D7CA,0x1D7CA,0x1D7CA,1,-1},{0x1D7CB,0x1D7CB,0x1D7CB,2,-1},
{0x1D7CE,0x1D7CE,0x1D7CE,0,0},{0x1D7CF,0x1D7CF,0x1D7CF,0,1},{0x1D7D0,0x1D7D0,0x1D7D0,0,2},{0x1D7D1,0x1D7D1,0x1D7D1,0,3},{0x1D7D2,0x1D7D2,0x1D7D2,0,4},{0x1D7D3,0x1D7D3,0x1D7D3,0,5},
{0x1D7D4,0x1D7D4,0x1D7D4,0,6},{0x1D7D5,0x1D7D5,0x1D7D5,0,7},{0x1D7D6,0x1D7D6,0x1D7D6,0,8},{0x1D7D7,0x1D7D7,0x1D7D7,0,9},{0x1D7D8,0x1D7D8,0x1D7D8,0,0},{0x1D7D9,0x1D7D9,0x1D7D9,0,1},
{0x1D7DA,0x1D7DA,0x1D7DA,0,2},{0x1D7DB,0x1D7DB,0x1D7DB,0,3},{0x1D7DC,0x1D7DC,0x1D7DC,0,4},{0x1D7DD,0x1D7DD,0x1D7DD,0,5},{0x1D7DE,0x1D7DE,0x1D7DE,0,6},{0x1D7DF,0x1D7DF,0x1D7DF,0,7},
{0x1D7E0,0x1D7E0,0x1D7E0,0,8},{0x1D7E1,0x1D7E1,0x1D7E1,0,9},{0x1D7E2,0x1D7E2,0x1D7E2,0,0},{0x1D7E3,0x1D7E3,0x1D7E3,0,1},{0x1D7E4,0x1D7E4,0x1D7E4,0,2},{0x1D7E5,0x1D7E5,0x1D7E5,0,3},
{0x1D7E6,0x1D7E6,0x1D7E6,0,4},{0x1D7E7,0x1D7E7,0x1D7E7,0,5},{0x1D7E8,0x1D7E8,0x1D7E8,0,6},{0x1D7E9,0x1D7E9,0x1D7E9,0,7},{0x1D7EA,0x1D7EA,0x1D7EA,0,8},{0x1D7EB,0x1D7EB,0x1D7EB,0,9},
{0x1D7EC,0x1D7EC,0x1D7EC,0,0},{0x1D7ED,0x1D7ED,0x1D7ED,0,1},{0x1D7EE,0x1D7EE,0x1D7EE,0,2},{0x1D7EF,0x1D7EF,0x1D7EF,0,3},{0x1D7F0,0x1D7F0,0x1D7F0,0,4},{0x1D7F1,0x1D7F1,0x1D7F1,0,5},
{0x1D7F2,0x1D7F2,0x1D7F2,0,6},{0x1D7F3,0x1D7F3,0x1D7F3,0,7},{0x1D7F4,0x1D7F4,0x1D7F4,0,8},{0x1D7F5,0x1D7F5,0x1D7F5,0,9},{0x1D7F6,0x1D7F6,0x1D7F6,0,0},{0x1D7F7,0x1D7F7,0x1D7F7,0,1},
{0x1D7F8,0x1D7F8,0x1D7F8,0,2},{0x1D7F9,0x1D7F9,0x1D7F9,0,3},{0x1D7FA,0x1D7FA,0x1D7FA,0,4},{0x1D7FB,0x1D7FB,0x1D7FB,0,5},{0x1D7FC,0x1D7FC,0x1D7FC,0,6},{0x1D7FD,0x1D7FD,0x1D7FD,0,7},
{0x1D7FE,0x1D7FE,0x1D7FE,0,8},{0x1D7FF,0x1D7FF,0x1D7FF,0,9},{0x1DF00,0x1DF00,0x1DF00,2,-1},{0x1DF01,0x1DF01,0x1DF01,2,-1},{0x1DF02,0x1DF02,0x1DF02,2,-1},{0x1DF03,0x1DF03,0x1DF03,2,-1},
{0x1DF04,0x1DF04,0x1DF04,2,-1},{0x1DF05,0x1DF05,0x1DF05,2,-1},{0x1DF06,0x1DF06,0x1DF06,2,-1},{0x1DF07,0x1DF07,0x1DF07,2,-1},{0x1DF08,0x1DF08,0x1DF08,2,-1},{0x1DF09,0x1DF09,0x1DF09,2,-1},
{0x1DF0B,0x1DF0B,0x1DF0B,2,-1},{0x1DF0C,0x1DF0C,0x1DF0C,2,-1},{0x1DF0D,0x1DF0D,0x1DF0D,2,-1},{0x1DF0E,0x1DF0E,0x1DF0E,2,-1},{0x1DF0F,0x1DF0F,0x1DF0F,2,-1},{0x1DF10,0x1DF10,0x1DF10,2,-1},
{0x1DF11,0x1DF11,0x1DF11,2,-1},{0x1DF12,0x1DF12,0x1DF12,2,-1},{0x1DF13,0x1DF13,0x1DF13,2,-1},{0x1DF14,0x1DF14,0x1DF14,2,-1},{0x1DF15,0x1DF15,0x1DF15,2,-1},{0x1DF16,0x1DF16,0x1DF16,2,-1},
{0x1DF17,0x1DF17,0x1DF17,2,-1},{0x1DF18,0x1DF18,0x1DF18,2,-1},{0x1DF19,0x1DF19,0x1DF19,2,-1},{0x1DF1A,0x1DF1A,0x1DF1A,2,-1},{0x1DF1B,0x1DF1B,0x1DF1B,2,-1},{0x1DF1C,0x1DF1C,0x1DF1C,2,-1},
{0x1DF1D,0x1DF1D,0x1DF1D,2,-1},{0x1DF1E,0x1DF1E,0x1DF1E,2,-1},{0x1DF25,0x1DF25,0x1DF25,2,-1},{0x1DF26,0x1DF26,0x1DF26,2,-1},{0x1DF27,0x1DF27,0x1DF27,2,-1},{0x1DF28,0x1DF28,0x1DF28,2,-1},
{0x1DF29,0x1DF29,0x1DF29,2,-1},{0x1DF2A,0x1DF2A,0x1DF2A,2,-1},{0x1E140,0x1E140,0x1E140,0,0},{0x1E141,0x1E141,0x1E141,0,1},{0x1E142,0x1E142,0x1E142,0,2},{0x1E143,0x1E143,0x1E143,0,3},
{0x1E144,0x1E144,0x1E144,0,4},{0x1E145,0x1E145,0x1E145,0,5},{0x1E146,0x1E146,0x1E146,0,6},{0x1E147,0x1E147,0x1E147,0,7},{0x1E148,0x1E148,0x1E148,0,8},{0x1E149,0x1E149,0x1E149,0,9},
{0x1E2F0,0x1E2F0,0x1E2F0,0,0},{0x1E2F1,0x1E2F1,0x1E2F1,0,1},{0x1E2F2,0x1E2F2,0x1E2F2,0,2},{0x1E2F3,0x1E2F3,0x1E2F3,0,3},{0x1E2F4,0x1E2F4,0x1E2F4,0,4},{0x1E2F5,0x1E2F5,0x1E2F5,0,5},
{0x1E2F6,0x1E2F6,0x1E2F6,0,6},{0x1E2F7,0x1E2F7,0x1E2F7,0,7},{0x1E2F8,0x1E2F8,0x1E2F8,0,8},{0x1E2F9,0x1E2F9,0x1E2F9,0,9},{0x1E4F0,0x1E4F0,0x1E4F0,0,0},{0x1E4F1,0x1E4F1,0x1E4F1,0,1},
{0x1E4F2,0x1E4F2,0x1E4F2,0,2},{0x1E4F3,0x1E4F3,0x1E4F3,0,3},{0x1E4F4,0x1E4F4,0x1E4F4,0,4},{0x1E4F5,0x1E4F5,0x1E4F5,0,5},{0x1E4F6,0x1E4F6,0x1E4F6,0,6},{0x1E4F7,0x1E4F7,0x1E4F7,0,7},
{0x1E4F8,0x1E4F8,0x1E4F8,0,8},{0x1E4F9,0x1E4F9,0x1E4F9,0,9},{0x1E900,0x1E900,0x1E922,1,-1},{0x1E901,0x1E901,0x1E923,1,-1},{0x1E902,0x1E902,0x1E924,1,-1},{0x1E903,0x1E903,0x1E925,1,-1},
{0x1E904,0x1E904,0x1E926,1,-1},{0x1E905,0x1E905,0x1E927,1,-1},{0x1E906,0x1E906,0x1E928,1,-1},{0x1E907,0x1E907,0x1E929,1,-1},{0x1E908,0x1E908,0x1E92A,1,-1},{0x1E909,0x1E909,0x1E92B,1,-1},
{0x1E90A,0x1E90A,0x1E92C,1,-1},{0x1E90B,0x1E90B,0x1E92D,1,-1},{0x1E90C,0x1E90C,0x1E92E,1,-1},{0x1E90D,0x1E90D,0x1E92F,1,-1},{0x1E90E,0x1E90E,0x1E930,1,-1},{0x1E90F,0x1E90F,0x1E931,1,-1},
{0x1E910,0x1E910,0x1E932,1,-1},{0x1E911,0x1E911,0x1E933,1,-1},{0x1E912,0x1E912,0x1E934,1,-1},{0x1E913,0x1E913,0x1E935,1,-1},{0x1E914,0x1E914,0x1E936,1,-1},{0x1E915,0x1E915,0x1E937,1,-1},
{0x1E916,0x1E916,0x1E938,1,-1},{0x1E917,0x1E917,0x1E939,1,-1},{0x1E918,0x1E918,0x1E93A,1,-1},{0x1E919,0x1E919,0x1E93B,1,-1},{0x1E91A,0x1E91A,0x1E93C,1,-1},{0x1E91B,0x1E91B,0x1E93D,1,-1},
{0x1E91C,0x1E91C,0x1E93E,1,-1},{0x1E91D,0x1E91D,0x1E93F,1,-1},{0x1E91E,0x1E91E,0x1E940,1,-1},{0x1E91F,0x1E91F,0x1E941,1,-1},{0x1E920,0x1E920,0x1E942,1,-1},{0x1E921,0x1E921,0x1E943,1,-1},
{0x1E922,0x1E900,0x1E922,2,-1},{0x1E923,0x1E901,0x1E923,2,-1},{0x1E924,0x1E902,0x1E924,2,-1},{0x1E925,0x1E903,0x1E925,2,-1},{0x1E926,0x1E904,0x1E926,2,-1},{0x1E927,0x1E905,0x1E927,2,-1},
{0x1E928,0x1E906,0x1E928,2,-1},{0x1E929,0x1E907,0x1E929,2,-1},{0x1E92A,0x1E908,0x1E92A,2,-1},{0x1E92B,0x1E909,0x1E92B,2,-1},{0x1E92C,0x1E90A,0x1E92C,2,-1},{0x1E92D,0x1E90B,0x1E92D,2,-1},
{0x1E92E,0x1E90C,0x1E92E,2,-1},{0x1E92F,0x1E90D,0x1E92F,2,-1},{0x1E930,0x1E90E,0x1E930,2,-1},{0x1E931,0x1E90F,0x1E931,2,-1},{0x1E932,0x1E910,0x1E932,2,-1},{0x1E933,0x1E911,0x1E933,2,-1},
{0x1E934,0x1E912,0x1E934,2,-1},{0x1E935,0x1E913,0x1E935,2,-1},{0x1E936,0x1E914,0x1E936,2,-1},{0x1E937,0x1E915,0x1E937,2,-1},{0x1E938,0x1E916,0x1E938,2,-1},{0x1E939,0x1E917,0x1E939,2,-1},
{0x1E93A,0x1E918,0x1E93A,2,-1},{0x1E93B,0x1E919,0x1E93B,2,-1},{0x1E93C,0x1E91A,0x1E93C,2,-1},{0x1E93D,0x1E91B,0x1E93D,2,-1},{0x1E93E,0x1E91C,0x1E93E,2,-1},{0x1E93F,0x1E91D,0x1E93F,2,-1},
{0x1E940,0x1E91E,0x1E940,2,-1},{0x1E941,0x1E91F,0x1E941,2,-1},{0x1E942,0x1E920,0x1E942,2,-1},{0x1E943,0x1E921,0x1E943,2,-1},{0x1E950,0x1E950,0x1E950,0,0},{0x1E951,0x1E951,0x1E951,0,1},
{0x1E952,0x1E952,0x1E952,0,2},{0x1E953,0x1E953,0x1E953,0,3},{0x1E954,0x1E954,0x1E954,0,4},{0x1E955,0x1E955,0x1E955,0,5},{0x1E956,0x1E956,0x1E956,0,6},{0x1E957,0x1E957,0x1E957,0,7},
{0x1E958,0x1E958,0x1E958,0,8},{0x1E959,0x1E959,0x1E959,0,9},{0x1FBF0,0x1FBF0,0x1FBF0,0,0},{0x1FBF1,0x1FBF1,0x1FBF1,0,1},{0x1FBF2,0x1FBF2,0x1FBF2,0,2},{0x1FBF3,0x1FBF3,0x1FBF3,0,3},
{0x1FBF4,0x1FBF4,0x1FBF4,0,4},{0x1FBF5,0x1FBF5,0x1FBF5,0,5},{0x1FBF6,0x1FBF6,0x1FBF6,0,6},{0x1FBF7,0x1FBF7,0x1FBF7,0,7},{0x1FBF8,0x1FBF8,0x1FBF8,0,8},{0x1FBF9,0x1FBF9,0x1FBF9,0,9},
};
#endif

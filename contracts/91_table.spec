@@item
/// lowercase to uppercase, simple case mapping of Unicode 13.0 for the code units of the Basic Multilingual Plane (generated by tools/mktable.py from Python's Unicode data)
#[verifier::opaque] pub open spec fn tbl() -> Seq<(u16, u16)> { seq![(0x61u16, 0x41u16), (0x62u16, 0x42u16), (0x63u16, 0x43u16), (0x64u16, 0x44u16), (0x65u16, 0x45u16), (0x66u16, 0x46u16), (0x67u16, 0x47u16), (0x68u16, 0x48u16), (0x69u16, 0x49u16), (0x6au16, 0x4au16), (0x6bu16, 0x4bu16), (0x6cu16, 0x4cu16), (0x6du16, 0x4du16), (0x6eu16, 0x4eu16), (0x6fu16, 0x4fu16), (0x70u16, 0x50u16), (0x71u16, 0x51u16), (0x72u16, 0x52u16), (0x73u16, 0x53u16), (0x74u16, 0x54u16), (0x75u16, 0x55u16), (0x76u16, 0x56u16), (0x77u16, 0x57u16), (0x78u16, 0x58u16), (0x79u16, 0x59u16), (0x7au16, 0x5au16), (0xb5u16, 0x39cu16), (0xe0u16, 0xc0u16), (0xe1u16, 0xc1u16), (0xe2u16, 0xc2u16), (0xe3u16, 0xc3u16), (0xe4u16, 0xc4u16), (0xe5u16, 0xc5u16), (0xe6u16, 0xc6u16), (0xe7u16, 0xc7u16), (0xe8u16, 0xc8u16), (0xe9u16, 0xc9u16), (0xeau16, 0xcau16), (0xebu16, 0xcbu16), (0xecu16, 0xccu16), (0xedu16, 0xcdu16), (0xeeu16, 0xceu16), (0xefu16, 0xcfu16), (0xf0u16, 0xd0u16), (0xf1u16, 0xd1u16), (0xf2u16, 0xd2u16), (0xf3u16, 0xd3u16), (0xf4u16, 0xd4u16), (0xf5u16, 0xd5u16), (0xf6u16, 0xd6u16), (0xf8u16, 0xd8u16), (0xf9u16, 0xd9u16), (0xfau16, 0xdau16), (0xfbu16, 0xdbu16), (0xfcu16, 0xdcu16), (0xfdu16, 0xddu16), (0xfeu16, 0xdeu16), (0xffu16, 0x178u16), (0x101u16, 0x100u16), (0x103u16, 0x102u16), (0x105u16, 0x104u16), (0x107u16, 0x106u16), (0x109u16, 0x108u16), (0x10bu16, 0x10au16), (0x10du16, 0x10cu16), (0x10fu16, 0x10eu16), (0x111u16, 0x110u16), (0x113u16, 0x112u16), (0x115u16, 0x114u16), (0x117u16, 0x116u16), (0x119u16, 0x118u16), (0x11bu16, 0x11au16), (0x11du16, 0x11cu16), (0x11fu16, 0x11eu16), (0x121u16, 0x120u16), (0x123u16, 0x122u16), (0x125u16, 0x124u16), (0x127u16, 0x126u16), (0x129u16, 0x128u16), (0x12bu16, 0x12au16), (0x12du16, 0x12cu16), (0x12fu16, 0x12eu16), (0x131u16, 0x49u16), (0x133u16, 0x132u16), (0x135u16, 0x134u16), (0x137u16, 0x136u16), (0x13au16, 0x139u16), (0x13cu16, 0x13bu16), (0x13eu16, 0x13du16), (0x140u16, 0x13fu16), (0x142u16, 0x141u16), (0x144u16, 0x143u16), (0x146u16, 0x145u16), (0x148u16, 0x147u16), (0x14bu16, 0x14au16), (0x14du16, 0x14cu16), (0x14fu16, 0x14eu16), (0x151u16, 0x150u16), (0x153u16, 0x152u16), (0x155u16, 0x154u16), (0x157u16, 0x156u16), (0x159u16, 0x158u16), (0x15bu16, 0x15au16), (0x15du16, 0x15cu16), (0x15fu16, 0x15eu16), (0x161u16, 0x160u16), (0x163u16, 0x162u16), (0x165u16, 0x164u16), (0x167u16, 0x166u16), (0x169u16, 0x168u16), (0x16bu16, 0x16au16), (0x16du16, 0x16cu16), (0x16fu16, 0x16eu16), (0x171u16, 0x170u16), (0x173u16, 0x172u16), (0x175u16, 0x174u16), (0x177u16, 0x176u16), (0x17au16, 0x179u16), (0x17cu16, 0x17bu16), (0x17eu16, 0x17du16), (0x17fu16, 0x53u16), (0x180u16, 0x243u16), (0x183u16, 0x182u16), (0x185u16, 0x184u16), (0x188u16, 0x187u16), (0x18cu16, 0x18bu16), (0x192u16, 0x191u16), (0x195u16, 0x1f6u16), (0x199u16, 0x198u16), (0x19au16, 0x23du16), (0x19eu16, 0x220u16), (0x1a1u16, 0x1a0u16), (0x1a3u16, 0x1a2u16), (0x1a5u16, 0x1a4u16), (0x1a8u16, 0x1a7u16), (0x1adu16, 0x1acu16), (0x1b0u16, 0x1afu16), (0x1b4u16, 0x1b3u16), (0x1b6u16, 0x1b5u16), (0x1b9u16, 0x1b8u16), (0x1bdu16, 0x1bcu16), (0x1bfu16, 0x1f7u16), (0x1c5u16, 0x1c4u16), (0x1c6u16, 0x1c4u16), (0x1c8u16, 0x1c7u16), (0x1c9u16, 0x1c7u16), (0x1cbu16, 0x1cau16), (0x1ccu16, 0x1cau16), (0x1ceu16, 0x1cdu16), (0x1d0u16, 0x1cfu16), (0x1d2u16, 0x1d1u16), (0x1d4u16, 0x1d3u16), (0x1d6u16, 0x1d5u16), (0x1d8u16, 0x1d7u16), (0x1dau16, 0x1d9u16), (0x1dcu16, 0x1dbu16), (0x1ddu16, 0x18eu16), (0x1dfu16, 0x1deu16), (0x1e1u16, 0x1e0u16), (0x1e3u16, 0x1e2u16), (0x1e5u16, 0x1e4u16), (0x1e7u16, 0x1e6u16), (0x1e9u16, 0x1e8u16), (0x1ebu16, 0x1eau16), (0x1edu16, 0x1ecu16), (0x1efu16, 0x1eeu16), (0x1f2u16, 0x1f1u16), (0x1f3u16, 0x1f1u16), (0x1f5u16, 0x1f4u16), (0x1f9u16, 0x1f8u16), (0x1fbu16, 0x1fau16), (0x1fdu16, 0x1fcu16), (0x1ffu16, 0x1feu16), (0x201u16, 0x200u16), (0x203u16, 0x202u16), (0x205u16, 0x204u16), (0x207u16, 0x206u16), (0x209u16, 0x208u16), (0x20bu16, 0x20au16), (0x20du16, 0x20cu16), (0x20fu16, 0x20eu16), (0x211u16, 0x210u16), (0x213u16, 0x212u16), (0x215u16, 0x214u16), (0x217u16, 0x216u16), (0x219u16, 0x218u16), (0x21bu16, 0x21au16), (0x21du16, 0x21cu16), (0x21fu16, 0x21eu16), (0x223u16, 0x222u16), (0x225u16, 0x224u16), (0x227u16, 0x226u16), (0x229u16, 0x228u16), (0x22bu16, 0x22au16), (0x22du16, 0x22cu16), (0x22fu16, 0x22eu16), (0x231u16, 0x230u16), (0x233u16, 0x232u16), (0x23cu16, 0x23bu16), (0x23fu16, 0x2c7eu16), (0x240u16, 0x2c7fu16), (0x242u16, 0x241u16), (0x247u16, 0x246u16), (0x249u16, 0x248u16), (0x24bu16, 0x24au16), (0x24du16, 0x24cu16), (0x24fu16, 0x24eu16), (0x250u16, 0x2c6fu16), (0x251u16, 0x2c6du16), (0x252u16, 0x2c70u16), (0x253u16, 0x181u16), (0x254u16, 0x186u16), (0x256u16, 0x189u16), (0x257u16, 0x18au16), (0x259u16, 0x18fu16), (0x25bu16, 0x190u16), (0x25cu16, 0xa7abu16), (0x260u16, 0x193u16), (0x261u16, 0xa7acu16), (0x263u16, 0x194u16), (0x265u16, 0xa78du16), (0x266u16, 0xa7aau16), (0x268u16, 0x197u16), (0x269u16, 0x196u16), (0x26au16, 0xa7aeu16), (0x26bu16, 0x2c62u16), (0x26cu16, 0xa7adu16), (0x26fu16, 0x19cu16), (0x271u16, 0x2c6eu16), (0x272u16, 0x19du16), (0x275u16, 0x19fu16), (0x27du16, 0x2c64u16), (0x280u16, 0x1a6u16), (0x282u16, 0xa7c5u16), (0x283u16, 0x1a9u16), (0x287u16, 0xa7b1u16), (0x288u16, 0x1aeu16), (0x289u16, 0x244u16), (0x28au16, 0x1b1u16), (0x28bu16, 0x1b2u16), (0x28cu16, 0x245u16), (0x292u16, 0x1b7u16), (0x29du16, 0xa7b2u16), (0x29eu16, 0xa7b0u16), (0x345u16, 0x399u16), (0x371u16, 0x370u16), (0x373u16, 0x372u16), (0x377u16, 0x376u16), (0x37bu16, 0x3fdu16), (0x37cu16, 0x3feu16), (0x37du16, 0x3ffu16), (0x3acu16, 0x386u16), (0x3adu16, 0x388u16), (0x3aeu16, 0x389u16), (0x3afu16, 0x38au16), (0x3b1u16, 0x391u16), (0x3b2u16, 0x392u16), (0x3b3u16, 0x393u16), (0x3b4u16, 0x394u16), (0x3b5u16, 0x395u16), (0x3b6u16, 0x396u16), (0x3b7u16, 0x397u16), (0x3b8u16, 0x398u16), (0x3b9u16, 0x399u16), (0x3bau16, 0x39au16), (0x3bbu16, 0x39bu16), (0x3bcu16, 0x39cu16), (0x3bdu16, 0x39du16), (0x3beu16, 0x39eu16), (0x3bfu16, 0x39fu16), (0x3c0u16, 0x3a0u16), (0x3c1u16, 0x3a1u16), (0x3c2u16, 0x3a3u16), (0x3c3u16, 0x3a3u16), (0x3c4u16, 0x3a4u16), (0x3c5u16, 0x3a5u16), (0x3c6u16, 0x3a6u16), (0x3c7u16, 0x3a7u16), (0x3c8u16, 0x3a8u16), (0x3c9u16, 0x3a9u16), (0x3cau16, 0x3aau16), (0x3cbu16, 0x3abu16), (0x3ccu16, 0x38cu16), (0x3cdu16, 0x38eu16), (0x3ceu16, 0x38fu16), (0x3d0u16, 0x392u16), (0x3d1u16, 0x398u16), (0x3d5u16, 0x3a6u16), (0x3d6u16, 0x3a0u16), (0x3d7u16, 0x3cfu16), (0x3d9u16, 0x3d8u16), (0x3dbu16, 0x3dau16), (0x3ddu16, 0x3dcu16), (0x3dfu16, 0x3deu16), (0x3e1u16, 0x3e0u16), (0x3e3u16, 0x3e2u16), (0x3e5u16, 0x3e4u16), (0x3e7u16, 0x3e6u16), (0x3e9u16, 0x3e8u16), (0x3ebu16, 0x3eau16), (0x3edu16, 0x3ecu16), (0x3efu16, 0x3eeu16), (0x3f0u16, 0x39au16), (0x3f1u16, 0x3a1u16), (0x3f2u16, 0x3f9u16), (0x3f3u16, 0x37fu16), (0x3f5u16, 0x395u16), (0x3f8u16, 0x3f7u16), (0x3fbu16, 0x3fau16), (0x430u16, 0x410u16), (0x431u16, 0x411u16), (0x432u16, 0x412u16), (0x433u16, 0x413u16), (0x434u16, 0x414u16), (0x435u16, 0x415u16), (0x436u16, 0x416u16), (0x437u16, 0x417u16), (0x438u16, 0x418u16), (0x439u16, 0x419u16), (0x43au16, 0x41au16), (0x43bu16, 0x41bu16), (0x43cu16, 0x41cu16), (0x43du16, 0x41du16), (0x43eu16, 0x41eu16), (0x43fu16, 0x41fu16), (0x440u16, 0x420u16), (0x441u16, 0x421u16), (0x442u16, 0x422u16), (0x443u16, 0x423u16), (0x444u16, 0x424u16), (0x445u16, 0x425u16), (0x446u16, 0x426u16), (0x447u16, 0x427u16), (0x448u16, 0x428u16), (0x449u16, 0x429u16), (0x44au16, 0x42au16), (0x44bu16, 0x42bu16), (0x44cu16, 0x42cu16), (0x44du16, 0x42du16), (0x44eu16, 0x42eu16), (0x44fu16, 0x42fu16), (0x450u16, 0x400u16), (0x451u16, 0x401u16), (0x452u16, 0x402u16), (0x453u16, 0x403u16), (0x454u16, 0x404u16), (0x455u16, 0x405u16), (0x456u16, 0x406u16), (0x457u16, 0x407u16), (0x458u16, 0x408u16), (0x459u16, 0x409u16), (0x45au16, 0x40au16), (0x45bu16, 0x40bu16), (0x45cu16, 0x40cu16), (0x45du16, 0x40du16), (0x45eu16, 0x40eu16), (0x45fu16, 0x40fu16), (0x461u16, 0x460u16), (0x463u16, 0x462u16), (0x465u16, 0x464u16), (0x467u16, 0x466u16), (0x469u16, 0x468u16), (0x46bu16, 0x46au16), (0x46du16, 0x46cu16), (0x46fu16, 0x46eu16), (0x471u16, 0x470u16), (0x473u16, 0x472u16), (0x475u16, 0x474u16), (0x477u16, 0x476u16), (0x479u16, 0x478u16), (0x47bu16, 0x47au16), (0x47du16, 0x47cu16), (0x47fu16, 0x47eu16), (0x481u16, 0x480u16), (0x48bu16, 0x48au16), (0x48du16, 0x48cu16), (0x48fu16, 0x48eu16), (0x491u16, 0x490u16), (0x493u16, 0x492u16), (0x495u16, 0x494u16), (0x497u16, 0x496u16), (0x499u16, 0x498u16), (0x49bu16, 0x49au16), (0x49du16, 0x49cu16), (0x49fu16, 0x49eu16), (0x4a1u16, 0x4a0u16), (0x4a3u16, 0x4a2u16), (0x4a5u16, 0x4a4u16), (0x4a7u16, 0x4a6u16), (0x4a9u16, 0x4a8u16), (0x4abu16, 0x4aau16), (0x4adu16, 0x4acu16), (0x4afu16, 0x4aeu16), (0x4b1u16, 0x4b0u16), (0x4b3u16, 0x4b2u16), (0x4b5u16, 0x4b4u16), (0x4b7u16, 0x4b6u16), (0x4b9u16, 0x4b8u16), (0x4bbu16, 0x4bau16), (0x4bdu16, 0x4bcu16), (0x4bfu16, 0x4beu16), (0x4c2u16, 0x4c1u16), (0x4c4u16, 0x4c3u16), (0x4c6u16, 0x4c5u16), (0x4c8u16, 0x4c7u16), (0x4cau16, 0x4c9u16), (0x4ccu16, 0x4cbu16), (0x4ceu16, 0x4cdu16), (0x4cfu16, 0x4c0u16), (0x4d1u16, 0x4d0u16), (0x4d3u16, 0x4d2u16), (0x4d5u16, 0x4d4u16), (0x4d7u16, 0x4d6u16), (0x4d9u16, 0x4d8u16), (0x4dbu16, 0x4dau16), (0x4ddu16, 0x4dcu16), (0x4dfu16, 0x4deu16), (0x4e1u16, 0x4e0u16), (0x4e3u16, 0x4e2u16), (0x4e5u16, 0x4e4u16), (0x4e7u16, 0x4e6u16), (0x4e9u16, 0x4e8u16), (0x4ebu16, 0x4eau16), (0x4edu16, 0x4ecu16), (0x4efu16, 0x4eeu16), (0x4f1u16, 0x4f0u16), (0x4f3u16, 0x4f2u16), (0x4f5u16, 0x4f4u16), (0x4f7u16, 0x4f6u16), (0x4f9u16, 0x4f8u16), (0x4fbu16, 0x4fau16), (0x4fdu16, 0x4fcu16), (0x4ffu16, 0x4feu16), (0x501u16, 0x500u16), (0x503u16, 0x502u16), (0x505u16, 0x504u16), (0x507u16, 0x506u16), (0x509u16, 0x508u16), (0x50bu16, 0x50au16), (0x50du16, 0x50cu16), (0x50fu16, 0x50eu16), (0x511u16, 0x510u16), (0x513u16, 0x512u16), (0x515u16, 0x514u16), (0x517u16, 0x516u16), (0x519u16, 0x518u16), (0x51bu16, 0x51au16), (0x51du16, 0x51cu16), (0x51fu16, 0x51eu16), (0x521u16, 0x520u16), (0x523u16, 0x522u16), (0x525u16, 0x524u16), (0x527u16, 0x526u16), (0x529u16, 0x528u16), (0x52bu16, 0x52au16), (0x52du16, 0x52cu16), (0x52fu16, 0x52eu16), (0x561u16, 0x531u16), (0x562u16, 0x532u16), (0x563u16, 0x533u16), (0x564u16, 0x534u16), (0x565u16, 0x535u16), (0x566u16, 0x536u16), (0x567u16, 0x537u16), (0x568u16, 0x538u16), (0x569u16, 0x539u16), (0x56au16, 0x53au16), (0x56bu16, 0x53bu16), (0x56cu16, 0x53cu16), (0x56du16, 0x53du16), (0x56eu16, 0x53eu16), (0x56fu16, 0x53fu16), (0x570u16, 0x540u16), (0x571u16, 0x541u16), (0x572u16, 0x542u16), (0x573u16, 0x543u16), (0x574u16, 0x544u16), (0x575u16, 0x545u16), (0x576u16, 0x546u16), (0x577u16, 0x547u16), (0x578u16, 0x548u16), (0x579u16, 0x549u16), (0x57au16, 0x54au16), (0x57bu16, 0x54bu16), (0x57cu16, 0x54cu16), (0x57du16, 0x54du16), (0x57eu16, 0x54eu16), (0x57fu16, 0x54fu16), (0x580u16, 0x550u16), (0x581u16, 0x551u16), (0x582u16, 0x552u16), (0x583u16, 0x553u16), (0x584u16, 0x554u16), (0x585u16, 0x555u16), (0x586u16, 0x556u16), (0x10d0u16, 0x1c90u16), (0x10d1u16, 0x1c91u16), (0x10d2u16, 0x1c92u16), (0x10d3u16, 0x1c93u16), (0x10d4u16, 0x1c94u16), (0x10d5u16, 0x1c95u16), (0x10d6u16, 0x1c96u16), (0x10d7u16, 0x1c97u16), (0x10d8u16, 0x1c98u16), (0x10d9u16, 0x1c99u16), (0x10dau16, 0x1c9au16), (0x10dbu16, 0x1c9bu16), (0x10dcu16, 0x1c9cu16), (0x10ddu16, 0x1c9du16), (0x10deu16, 0x1c9eu16), (0x10dfu16, 0x1c9fu16), (0x10e0u16, 0x1ca0u16), (0x10e1u16, 0x1ca1u16), (0x10e2u16, 0x1ca2u16), (0x10e3u16, 0x1ca3u16), (0x10e4u16, 0x1ca4u16), (0x10e5u16, 0x1ca5u16), (0x10e6u16, 0x1ca6u16), (0x10e7u16, 0x1ca7u16), (0x10e8u16, 0x1ca8u16), (0x10e9u16, 0x1ca9u16), (0x10eau16, 0x1caau16), (0x10ebu16, 0x1cabu16), (0x10ecu16, 0x1cacu16), (0x10edu16, 0x1cadu16), (0x10eeu16, 0x1caeu16), (0x10efu16, 0x1cafu16), (0x10f0u16, 0x1cb0u16), (0x10f1u16, 0x1cb1u16), (0x10f2u16, 0x1cb2u16), (0x10f3u16, 0x1cb3u16), (0x10f4u16, 0x1cb4u16), (0x10f5u16, 0x1cb5u16), (0x10f6u16, 0x1cb6u16), (0x10f7u16, 0x1cb7u16), (0x10f8u16, 0x1cb8u16), (0x10f9u16, 0x1cb9u16), (0x10fau16, 0x1cbau16), (0x10fdu16, 0x1cbdu16), (0x10feu16, 0x1cbeu16), (0x10ffu16, 0x1cbfu16), (0x13f8u16, 0x13f0u16), (0x13f9u16, 0x13f1u16), (0x13fau16, 0x13f2u16), (0x13fbu16, 0x13f3u16), (0x13fcu16, 0x13f4u16), (0x13fdu16, 0x13f5u16), (0x1c80u16, 0x412u16), (0x1c81u16, 0x414u16), (0x1c82u16, 0x41eu16), (0x1c83u16, 0x421u16), (0x1c84u16, 0x422u16), (0x1c85u16, 0x422u16), (0x1c86u16, 0x42au16), (0x1c87u16, 0x462u16), (0x1c88u16, 0xa64au16), (0x1d79u16, 0xa77du16), (0x1d7du16, 0x2c63u16), (0x1d8eu16, 0xa7c6u16), (0x1e01u16, 0x1e00u16), (0x1e03u16, 0x1e02u16), (0x1e05u16, 0x1e04u16), (0x1e07u16, 0x1e06u16), (0x1e09u16, 0x1e08u16), (0x1e0bu16, 0x1e0au16), (0x1e0du16, 0x1e0cu16), (0x1e0fu16, 0x1e0eu16), (0x1e11u16, 0x1e10u16), (0x1e13u16, 0x1e12u16), (0x1e15u16, 0x1e14u16), (0x1e17u16, 0x1e16u16), (0x1e19u16, 0x1e18u16), (0x1e1bu16, 0x1e1au16), (0x1e1du16, 0x1e1cu16), (0x1e1fu16, 0x1e1eu16), (0x1e21u16, 0x1e20u16), (0x1e23u16, 0x1e22u16), (0x1e25u16, 0x1e24u16), (0x1e27u16, 0x1e26u16), (0x1e29u16, 0x1e28u16), (0x1e2bu16, 0x1e2au16), (0x1e2du16, 0x1e2cu16), (0x1e2fu16, 0x1e2eu16), (0x1e31u16, 0x1e30u16), (0x1e33u16, 0x1e32u16), (0x1e35u16, 0x1e34u16), (0x1e37u16, 0x1e36u16), (0x1e39u16, 0x1e38u16), (0x1e3bu16, 0x1e3au16), (0x1e3du16, 0x1e3cu16), (0x1e3fu16, 0x1e3eu16), (0x1e41u16, 0x1e40u16), (0x1e43u16, 0x1e42u16), (0x1e45u16, 0x1e44u16), (0x1e47u16, 0x1e46u16), (0x1e49u16, 0x1e48u16), (0x1e4bu16, 0x1e4au16), (0x1e4du16, 0x1e4cu16), (0x1e4fu16, 0x1e4eu16), (0x1e51u16, 0x1e50u16), (0x1e53u16, 0x1e52u16), (0x1e55u16, 0x1e54u16), (0x1e57u16, 0x1e56u16), (0x1e59u16, 0x1e58u16), (0x1e5bu16, 0x1e5au16), (0x1e5du16, 0x1e5cu16), (0x1e5fu16, 0x1e5eu16), (0x1e61u16, 0x1e60u16), (0x1e63u16, 0x1e62u16), (0x1e65u16, 0x1e64u16), (0x1e67u16, 0x1e66u16), (0x1e69u16, 0x1e68u16), (0x1e6bu16, 0x1e6au16), (0x1e6du16, 0x1e6cu16), (0x1e6fu16, 0x1e6eu16), (0x1e71u16, 0x1e70u16), (0x1e73u16, 0x1e72u16), (0x1e75u16, 0x1e74u16), (0x1e77u16, 0x1e76u16), (0x1e79u16, 0x1e78u16), (0x1e7bu16, 0x1e7au16), (0x1e7du16, 0x1e7cu16), (0x1e7fu16, 0x1e7eu16), (0x1e81u16, 0x1e80u16), (0x1e83u16, 0x1e82u16), (0x1e85u16, 0x1e84u16), (0x1e87u16, 0x1e86u16), (0x1e89u16, 0x1e88u16), (0x1e8bu16, 0x1e8au16), (0x1e8du16, 0x1e8cu16), (0x1e8fu16, 0x1e8eu16), (0x1e91u16, 0x1e90u16), (0x1e93u16, 0x1e92u16), (0x1e95u16, 0x1e94u16), (0x1e9bu16, 0x1e60u16), (0x1ea1u16, 0x1ea0u16), (0x1ea3u16, 0x1ea2u16), (0x1ea5u16, 0x1ea4u16), (0x1ea7u16, 0x1ea6u16), (0x1ea9u16, 0x1ea8u16), (0x1eabu16, 0x1eaau16), (0x1eadu16, 0x1eacu16), (0x1eafu16, 0x1eaeu16), (0x1eb1u16, 0x1eb0u16), (0x1eb3u16, 0x1eb2u16), (0x1eb5u16, 0x1eb4u16), (0x1eb7u16, 0x1eb6u16), (0x1eb9u16, 0x1eb8u16), (0x1ebbu16, 0x1ebau16), (0x1ebdu16, 0x1ebcu16), (0x1ebfu16, 0x1ebeu16), (0x1ec1u16, 0x1ec0u16), (0x1ec3u16, 0x1ec2u16), (0x1ec5u16, 0x1ec4u16), (0x1ec7u16, 0x1ec6u16), (0x1ec9u16, 0x1ec8u16), (0x1ecbu16, 0x1ecau16), (0x1ecdu16, 0x1eccu16), (0x1ecfu16, 0x1eceu16), (0x1ed1u16, 0x1ed0u16), (0x1ed3u16, 0x1ed2u16), (0x1ed5u16, 0x1ed4u16), (0x1ed7u16, 0x1ed6u16), (0x1ed9u16, 0x1ed8u16), (0x1edbu16, 0x1edau16), (0x1eddu16, 0x1edcu16), (0x1edfu16, 0x1edeu16), (0x1ee1u16, 0x1ee0u16), (0x1ee3u16, 0x1ee2u16), (0x1ee5u16, 0x1ee4u16), (0x1ee7u16, 0x1ee6u16), (0x1ee9u16, 0x1ee8u16), (0x1eebu16, 0x1eeau16), (0x1eedu16, 0x1eecu16), (0x1eefu16, 0x1eeeu16), (0x1ef1u16, 0x1ef0u16), (0x1ef3u16, 0x1ef2u16), (0x1ef5u16, 0x1ef4u16), (0x1ef7u16, 0x1ef6u16), (0x1ef9u16, 0x1ef8u16), (0x1efbu16, 0x1efau16), (0x1efdu16, 0x1efcu16), (0x1effu16, 0x1efeu16), (0x1f00u16, 0x1f08u16), (0x1f01u16, 0x1f09u16), (0x1f02u16, 0x1f0au16), (0x1f03u16, 0x1f0bu16), (0x1f04u16, 0x1f0cu16), (0x1f05u16, 0x1f0du16), (0x1f06u16, 0x1f0eu16), (0x1f07u16, 0x1f0fu16), (0x1f10u16, 0x1f18u16), (0x1f11u16, 0x1f19u16), (0x1f12u16, 0x1f1au16), (0x1f13u16, 0x1f1bu16), (0x1f14u16, 0x1f1cu16), (0x1f15u16, 0x1f1du16), (0x1f20u16, 0x1f28u16), (0x1f21u16, 0x1f29u16), (0x1f22u16, 0x1f2au16), (0x1f23u16, 0x1f2bu16), (0x1f24u16, 0x1f2cu16), (0x1f25u16, 0x1f2du16), (0x1f26u16, 0x1f2eu16), (0x1f27u16, 0x1f2fu16), (0x1f30u16, 0x1f38u16), (0x1f31u16, 0x1f39u16), (0x1f32u16, 0x1f3au16), (0x1f33u16, 0x1f3bu16), (0x1f34u16, 0x1f3cu16), (0x1f35u16, 0x1f3du16), (0x1f36u16, 0x1f3eu16), (0x1f37u16, 0x1f3fu16), (0x1f40u16, 0x1f48u16), (0x1f41u16, 0x1f49u16), (0x1f42u16, 0x1f4au16), (0x1f43u16, 0x1f4bu16), (0x1f44u16, 0x1f4cu16), (0x1f45u16, 0x1f4du16), (0x1f51u16, 0x1f59u16), (0x1f53u16, 0x1f5bu16), (0x1f55u16, 0x1f5du16), (0x1f57u16, 0x1f5fu16), (0x1f60u16, 0x1f68u16), (0x1f61u16, 0x1f69u16), (0x1f62u16, 0x1f6au16), (0x1f63u16, 0x1f6bu16), (0x1f64u16, 0x1f6cu16), (0x1f65u16, 0x1f6du16), (0x1f66u16, 0x1f6eu16), (0x1f67u16, 0x1f6fu16), (0x1f70u16, 0x1fbau16), (0x1f71u16, 0x1fbbu16), (0x1f72u16, 0x1fc8u16), (0x1f73u16, 0x1fc9u16), (0x1f74u16, 0x1fcau16), (0x1f75u16, 0x1fcbu16), (0x1f76u16, 0x1fdau16), (0x1f77u16, 0x1fdbu16), (0x1f78u16, 0x1ff8u16), (0x1f79u16, 0x1ff9u16), (0x1f7au16, 0x1feau16), (0x1f7bu16, 0x1febu16), (0x1f7cu16, 0x1ffau16), (0x1f7du16, 0x1ffbu16), (0x1f80u16, 0x1f88u16), (0x1f81u16, 0x1f89u16), (0x1f82u16, 0x1f8au16), (0x1f83u16, 0x1f8bu16), (0x1f84u16, 0x1f8cu16), (0x1f85u16, 0x1f8du16), (0x1f86u16, 0x1f8eu16), (0x1f87u16, 0x1f8fu16), (0x1f90u16, 0x1f98u16), (0x1f91u16, 0x1f99u16), (0x1f92u16, 0x1f9au16), (0x1f93u16, 0x1f9bu16), (0x1f94u16, 0x1f9cu16), (0x1f95u16, 0x1f9du16), (0x1f96u16, 0x1f9eu16), (0x1f97u16, 0x1f9fu16), (0x1fa0u16, 0x1fa8u16), (0x1fa1u16, 0x1fa9u16), (0x1fa2u16, 0x1faau16), (0x1fa3u16, 0x1fabu16), (0x1fa4u16, 0x1facu16), (0x1fa5u16, 0x1fadu16), (0x1fa6u16, 0x1faeu16), (0x1fa7u16, 0x1fafu16), (0x1fb0u16, 0x1fb8u16), (0x1fb1u16, 0x1fb9u16), (0x1fb3u16, 0x1fbcu16), (0x1fbeu16, 0x399u16), (0x1fc3u16, 0x1fccu16), (0x1fd0u16, 0x1fd8u16), (0x1fd1u16, 0x1fd9u16), (0x1fe0u16, 0x1fe8u16), (0x1fe1u16, 0x1fe9u16), (0x1fe5u16, 0x1fecu16), (0x1ff3u16, 0x1ffcu16), (0x214eu16, 0x2132u16), (0x2170u16, 0x2160u16), (0x2171u16, 0x2161u16), (0x2172u16, 0x2162u16), (0x2173u16, 0x2163u16), (0x2174u16, 0x2164u16), (0x2175u16, 0x2165u16), (0x2176u16, 0x2166u16), (0x2177u16, 0x2167u16), (0x2178u16, 0x2168u16), (0x2179u16, 0x2169u16), (0x217au16, 0x216au16), (0x217bu16, 0x216bu16), (0x217cu16, 0x216cu16), (0x217du16, 0x216du16), (0x217eu16, 0x216eu16), (0x217fu16, 0x216fu16), (0x2184u16, 0x2183u16), (0x24d0u16, 0x24b6u16), (0x24d1u16, 0x24b7u16), (0x24d2u16, 0x24b8u16), (0x24d3u16, 0x24b9u16), (0x24d4u16, 0x24bau16), (0x24d5u16, 0x24bbu16), (0x24d6u16, 0x24bcu16), (0x24d7u16, 0x24bdu16), (0x24d8u16, 0x24beu16), (0x24d9u16, 0x24bfu16), (0x24dau16, 0x24c0u16), (0x24dbu16, 0x24c1u16), (0x24dcu16, 0x24c2u16), (0x24ddu16, 0x24c3u16), (0x24deu16, 0x24c4u16), (0x24dfu16, 0x24c5u16), (0x24e0u16, 0x24c6u16), (0x24e1u16, 0x24c7u16), (0x24e2u16, 0x24c8u16), (0x24e3u16, 0x24c9u16), (0x24e4u16, 0x24cau16), (0x24e5u16, 0x24cbu16), (0x24e6u16, 0x24ccu16), (0x24e7u16, 0x24cdu16), (0x24e8u16, 0x24ceu16), (0x24e9u16, 0x24cfu16), (0x2c30u16, 0x2c00u16), (0x2c31u16, 0x2c01u16), (0x2c32u16, 0x2c02u16), (0x2c33u16, 0x2c03u16), (0x2c34u16, 0x2c04u16), (0x2c35u16, 0x2c05u16), (0x2c36u16, 0x2c06u16), (0x2c37u16, 0x2c07u16), (0x2c38u16, 0x2c08u16), (0x2c39u16, 0x2c09u16), (0x2c3au16, 0x2c0au16), (0x2c3bu16, 0x2c0bu16), (0x2c3cu16, 0x2c0cu16), (0x2c3du16, 0x2c0du16), (0x2c3eu16, 0x2c0eu16), (0x2c3fu16, 0x2c0fu16), (0x2c40u16, 0x2c10u16), (0x2c41u16, 0x2c11u16), (0x2c42u16, 0x2c12u16), (0x2c43u16, 0x2c13u16), (0x2c44u16, 0x2c14u16), (0x2c45u16, 0x2c15u16), (0x2c46u16, 0x2c16u16), (0x2c47u16, 0x2c17u16), (0x2c48u16, 0x2c18u16), (0x2c49u16, 0x2c19u16), (0x2c4au16, 0x2c1au16), (0x2c4bu16, 0x2c1bu16), (0x2c4cu16, 0x2c1cu16), (0x2c4du16, 0x2c1du16), (0x2c4eu16, 0x2c1eu16), (0x2c4fu16, 0x2c1fu16), (0x2c50u16, 0x2c20u16), (0x2c51u16, 0x2c21u16), (0x2c52u16, 0x2c22u16), (0x2c53u16, 0x2c23u16), (0x2c54u16, 0x2c24u16), (0x2c55u16, 0x2c25u16), (0x2c56u16, 0x2c26u16), (0x2c57u16, 0x2c27u16), (0x2c58u16, 0x2c28u16), (0x2c59u16, 0x2c29u16), (0x2c5au16, 0x2c2au16), (0x2c5bu16, 0x2c2bu16), (0x2c5cu16, 0x2c2cu16), (0x2c5du16, 0x2c2du16), (0x2c5eu16, 0x2c2eu16), (0x2c61u16, 0x2c60u16), (0x2c65u16, 0x23au16), (0x2c66u16, 0x23eu16), (0x2c68u16, 0x2c67u16), (0x2c6au16, 0x2c69u16), (0x2c6cu16, 0x2c6bu16), (0x2c73u16, 0x2c72u16), (0x2c76u16, 0x2c75u16), (0x2c81u16, 0x2c80u16), (0x2c83u16, 0x2c82u16), (0x2c85u16, 0x2c84u16), (0x2c87u16, 0x2c86u16), (0x2c89u16, 0x2c88u16), (0x2c8bu16, 0x2c8au16), (0x2c8du16, 0x2c8cu16), (0x2c8fu16, 0x2c8eu16), (0x2c91u16, 0x2c90u16), (0x2c93u16, 0x2c92u16), (0x2c95u16, 0x2c94u16), (0x2c97u16, 0x2c96u16), (0x2c99u16, 0x2c98u16), (0x2c9bu16, 0x2c9au16), (0x2c9du16, 0x2c9cu16), (0x2c9fu16, 0x2c9eu16), (0x2ca1u16, 0x2ca0u16), (0x2ca3u16, 0x2ca2u16), (0x2ca5u16, 0x2ca4u16), (0x2ca7u16, 0x2ca6u16), (0x2ca9u16, 0x2ca8u16), (0x2cabu16, 0x2caau16), (0x2cadu16, 0x2cacu16), (0x2cafu16, 0x2caeu16), (0x2cb1u16, 0x2cb0u16), (0x2cb3u16, 0x2cb2u16), (0x2cb5u16, 0x2cb4u16), (0x2cb7u16, 0x2cb6u16), (0x2cb9u16, 0x2cb8u16), (0x2cbbu16, 0x2cbau16), (0x2cbdu16, 0x2cbcu16), (0x2cbfu16, 0x2cbeu16), (0x2cc1u16, 0x2cc0u16), (0x2cc3u16, 0x2cc2u16), (0x2cc5u16, 0x2cc4u16), (0x2cc7u16, 0x2cc6u16), (0x2cc9u16, 0x2cc8u16), (0x2ccbu16, 0x2ccau16), (0x2ccdu16, 0x2cccu16), (0x2ccfu16, 0x2cceu16), (0x2cd1u16, 0x2cd0u16), (0x2cd3u16, 0x2cd2u16), (0x2cd5u16, 0x2cd4u16), (0x2cd7u16, 0x2cd6u16), (0x2cd9u16, 0x2cd8u16), (0x2cdbu16, 0x2cdau16), (0x2cddu16, 0x2cdcu16), (0x2cdfu16, 0x2cdeu16), (0x2ce1u16, 0x2ce0u16), (0x2ce3u16, 0x2ce2u16), (0x2cecu16, 0x2cebu16), (0x2ceeu16, 0x2cedu16), (0x2cf3u16, 0x2cf2u16), (0x2d00u16, 0x10a0u16), (0x2d01u16, 0x10a1u16), (0x2d02u16, 0x10a2u16), (0x2d03u16, 0x10a3u16), (0x2d04u16, 0x10a4u16), (0x2d05u16, 0x10a5u16), (0x2d06u16, 0x10a6u16), (0x2d07u16, 0x10a7u16), (0x2d08u16, 0x10a8u16), (0x2d09u16, 0x10a9u16), (0x2d0au16, 0x10aau16), (0x2d0bu16, 0x10abu16), (0x2d0cu16, 0x10acu16), (0x2d0du16, 0x10adu16), (0x2d0eu16, 0x10aeu16), (0x2d0fu16, 0x10afu16), (0x2d10u16, 0x10b0u16), (0x2d11u16, 0x10b1u16), (0x2d12u16, 0x10b2u16), (0x2d13u16, 0x10b3u16), (0x2d14u16, 0x10b4u16), (0x2d15u16, 0x10b5u16), (0x2d16u16, 0x10b6u16), (0x2d17u16, 0x10b7u16), (0x2d18u16, 0x10b8u16), (0x2d19u16, 0x10b9u16), (0x2d1au16, 0x10bau16), (0x2d1bu16, 0x10bbu16), (0x2d1cu16, 0x10bcu16), (0x2d1du16, 0x10bdu16), (0x2d1eu16, 0x10beu16), (0x2d1fu16, 0x10bfu16), (0x2d20u16, 0x10c0u16), (0x2d21u16, 0x10c1u16), (0x2d22u16, 0x10c2u16), (0x2d23u16, 0x10c3u16), (0x2d24u16, 0x10c4u16), (0x2d25u16, 0x10c5u16), (0x2d27u16, 0x10c7u16), (0x2d2du16, 0x10cdu16), (0xa641u16, 0xa640u16), (0xa643u16, 0xa642u16), (0xa645u16, 0xa644u16), (0xa647u16, 0xa646u16), (0xa649u16, 0xa648u16), (0xa64bu16, 0xa64au16), (0xa64du16, 0xa64cu16), (0xa64fu16, 0xa64eu16), (0xa651u16, 0xa650u16), (0xa653u16, 0xa652u16), (0xa655u16, 0xa654u16), (0xa657u16, 0xa656u16), (0xa659u16, 0xa658u16), (0xa65bu16, 0xa65au16), (0xa65du16, 0xa65cu16), (0xa65fu16, 0xa65eu16), (0xa661u16, 0xa660u16), (0xa663u16, 0xa662u16), (0xa665u16, 0xa664u16), (0xa667u16, 0xa666u16), (0xa669u16, 0xa668u16), (0xa66bu16, 0xa66au16), (0xa66du16, 0xa66cu16), (0xa681u16, 0xa680u16), (0xa683u16, 0xa682u16), (0xa685u16, 0xa684u16), (0xa687u16, 0xa686u16), (0xa689u16, 0xa688u16), (0xa68bu16, 0xa68au16), (0xa68du16, 0xa68cu16), (0xa68fu16, 0xa68eu16), (0xa691u16, 0xa690u16), (0xa693u16, 0xa692u16), (0xa695u16, 0xa694u16), (0xa697u16, 0xa696u16), (0xa699u16, 0xa698u16), (0xa69bu16, 0xa69au16), (0xa723u16, 0xa722u16), (0xa725u16, 0xa724u16), (0xa727u16, 0xa726u16), (0xa729u16, 0xa728u16), (0xa72bu16, 0xa72au16), (0xa72du16, 0xa72cu16), (0xa72fu16, 0xa72eu16), (0xa733u16, 0xa732u16), (0xa735u16, 0xa734u16), (0xa737u16, 0xa736u16), (0xa739u16, 0xa738u16), (0xa73bu16, 0xa73au16), (0xa73du16, 0xa73cu16), (0xa73fu16, 0xa73eu16), (0xa741u16, 0xa740u16), (0xa743u16, 0xa742u16), (0xa745u16, 0xa744u16), (0xa747u16, 0xa746u16), (0xa749u16, 0xa748u16), (0xa74bu16, 0xa74au16), (0xa74du16, 0xa74cu16), (0xa74fu16, 0xa74eu16), (0xa751u16, 0xa750u16), (0xa753u16, 0xa752u16), (0xa755u16, 0xa754u16), (0xa757u16, 0xa756u16), (0xa759u16, 0xa758u16), (0xa75bu16, 0xa75au16), (0xa75du16, 0xa75cu16), (0xa75fu16, 0xa75eu16), (0xa761u16, 0xa760u16), (0xa763u16, 0xa762u16), (0xa765u16, 0xa764u16), (0xa767u16, 0xa766u16), (0xa769u16, 0xa768u16), (0xa76bu16, 0xa76au16), (0xa76du16, 0xa76cu16), (0xa76fu16, 0xa76eu16), (0xa77au16, 0xa779u16), (0xa77cu16, 0xa77bu16), (0xa77fu16, 0xa77eu16), (0xa781u16, 0xa780u16), (0xa783u16, 0xa782u16), (0xa785u16, 0xa784u16), (0xa787u16, 0xa786u16), (0xa78cu16, 0xa78bu16), (0xa791u16, 0xa790u16), (0xa793u16, 0xa792u16), (0xa794u16, 0xa7c4u16), (0xa797u16, 0xa796u16), (0xa799u16, 0xa798u16), (0xa79bu16, 0xa79au16), (0xa79du16, 0xa79cu16), (0xa79fu16, 0xa79eu16), (0xa7a1u16, 0xa7a0u16), (0xa7a3u16, 0xa7a2u16), (0xa7a5u16, 0xa7a4u16), (0xa7a7u16, 0xa7a6u16), (0xa7a9u16, 0xa7a8u16), (0xa7b5u16, 0xa7b4u16), (0xa7b7u16, 0xa7b6u16), (0xa7b9u16, 0xa7b8u16), (0xa7bbu16, 0xa7bau16), (0xa7bdu16, 0xa7bcu16), (0xa7bfu16, 0xa7beu16), (0xa7c3u16, 0xa7c2u16), (0xa7c8u16, 0xa7c7u16), (0xa7cau16, 0xa7c9u16), (0xa7f6u16, 0xa7f5u16), (0xab53u16, 0xa7b3u16), (0xab70u16, 0x13a0u16), (0xab71u16, 0x13a1u16), (0xab72u16, 0x13a2u16), (0xab73u16, 0x13a3u16), (0xab74u16, 0x13a4u16), (0xab75u16, 0x13a5u16), (0xab76u16, 0x13a6u16), (0xab77u16, 0x13a7u16), (0xab78u16, 0x13a8u16), (0xab79u16, 0x13a9u16), (0xab7au16, 0x13aau16), (0xab7bu16, 0x13abu16), (0xab7cu16, 0x13acu16), (0xab7du16, 0x13adu16), (0xab7eu16, 0x13aeu16), (0xab7fu16, 0x13afu16), (0xab80u16, 0x13b0u16), (0xab81u16, 0x13b1u16), (0xab82u16, 0x13b2u16), (0xab83u16, 0x13b3u16), (0xab84u16, 0x13b4u16), (0xab85u16, 0x13b5u16), (0xab86u16, 0x13b6u16), (0xab87u16, 0x13b7u16), (0xab88u16, 0x13b8u16), (0xab89u16, 0x13b9u16), (0xab8au16, 0x13bau16), (0xab8bu16, 0x13bbu16), (0xab8cu16, 0x13bcu16), (0xab8du16, 0x13bdu16), (0xab8eu16, 0x13beu16), (0xab8fu16, 0x13bfu16), (0xab90u16, 0x13c0u16), (0xab91u16, 0x13c1u16), (0xab92u16, 0x13c2u16), (0xab93u16, 0x13c3u16), (0xab94u16, 0x13c4u16), (0xab95u16, 0x13c5u16), (0xab96u16, 0x13c6u16), (0xab97u16, 0x13c7u16), (0xab98u16, 0x13c8u16), (0xab99u16, 0x13c9u16), (0xab9au16, 0x13cau16), (0xab9bu16, 0x13cbu16), (0xab9cu16, 0x13ccu16), (0xab9du16, 0x13cdu16), (0xab9eu16, 0x13ceu16), (0xab9fu16, 0x13cfu16), (0xaba0u16, 0x13d0u16), (0xaba1u16, 0x13d1u16), (0xaba2u16, 0x13d2u16), (0xaba3u16, 0x13d3u16), (0xaba4u16, 0x13d4u16), (0xaba5u16, 0x13d5u16), (0xaba6u16, 0x13d6u16), (0xaba7u16, 0x13d7u16), (0xaba8u16, 0x13d8u16), (0xaba9u16, 0x13d9u16), (0xabaau16, 0x13dau16), (0xababu16, 0x13dbu16), (0xabacu16, 0x13dcu16), (0xabadu16, 0x13ddu16), (0xabaeu16, 0x13deu16), (0xabafu16, 0x13dfu16), (0xabb0u16, 0x13e0u16), (0xabb1u16, 0x13e1u16), (0xabb2u16, 0x13e2u16), (0xabb3u16, 0x13e3u16), (0xabb4u16, 0x13e4u16), (0xabb5u16, 0x13e5u16), (0xabb6u16, 0x13e6u16), (0xabb7u16, 0x13e7u16), (0xabb8u16, 0x13e8u16), (0xabb9u16, 0x13e9u16), (0xabbau16, 0x13eau16), (0xabbbu16, 0x13ebu16), (0xabbcu16, 0x13ecu16), (0xabbdu16, 0x13edu16), (0xabbeu16, 0x13eeu16), (0xabbfu16, 0x13efu16), (0xff41u16, 0xff21u16), (0xff42u16, 0xff22u16), (0xff43u16, 0xff23u16), (0xff44u16, 0xff24u16), (0xff45u16, 0xff25u16), (0xff46u16, 0xff26u16), (0xff47u16, 0xff27u16), (0xff48u16, 0xff28u16), (0xff49u16, 0xff29u16), (0xff4au16, 0xff2au16), (0xff4bu16, 0xff2bu16), (0xff4cu16, 0xff2cu16), (0xff4du16, 0xff2du16), (0xff4eu16, 0xff2eu16), (0xff4fu16, 0xff2fu16), (0xff50u16, 0xff30u16), (0xff51u16, 0xff31u16), (0xff52u16, 0xff32u16), (0xff53u16, 0xff33u16), (0xff54u16, 0xff34u16), (0xff55u16, 0xff35u16), (0xff56u16, 0xff36u16), (0xff57u16, 0xff37u16), (0xff58u16, 0xff38u16), (0xff59u16, 0xff39u16), (0xff5au16, 0xff3au16)] }
/// the keys ascend
pub open spec fn ascending(s: Seq<(u16, u16)>, i: int) -> bool decreases s.len() - i { if 0 <= i && i + 1 < s.len() { s[i].0 < s[i + 1].0 && ascending(s, i + 1) } else { true } }
pub proof fn lemma_tbl_ascending() ensures ascending(tbl(), 0) { assert(ascending(tbl(), 0)) by (compute); }
pub proof fn lemma_ascending(s: Seq<(u16, u16)>, k: int)
    requires 0 <= k, ascending(s, k)
    ensures forall|i: int, j: int| k <= i < j < s.len() ==> #[trigger] s[i].0 < #[trigger] s[j].0
    decreases s.len() - k
{ if k + 1 < s.len() { lemma_ascending(s, k + 1); } }
/*@FN lemma C07 the keys of the uppercase table are distinct*/ pub proof fn lemma_tbl_sorted()
    ensures forall|i: int, j: int| 0 <= i < j < tbl().len() ==> #[trigger] tbl()[i].0 < #[trigger] tbl()[j].0 //[C07]
{ lemma_tbl_ascending(); lemma_ascending(tbl(), 0); } /*@END*/

package props

// Written by tools/fnvcoll: pairs of eight-byte blocks (little endian) whose FNV-1
// hashes agree in the low bits, each found from the state after the first blocks
// of the pairs before it.

type fnvChain struct {
	bits  int
	pairs [][2]uint64
}

var fnvChains = []fnvChain{
	{6, [][2]uint64{{0x46d4a814d788abf1, 0xfa4bec554e8e502}, {0xdd70b9193591d6bd, 0x317bd5a4d122171}, {0xab3cb36d1638c879, 0x740cca1d9399018a}}},
	{12, [][2]uint64{{0x44f081cbc15214b7, 0xe819943b27300314}, {0xc243ff54f06bcc96, 0x97a1177075a0c938}, {0x9c9cfb13d8e981e3, 0xe5845a16e5eab0d9}}},
	{18, [][2]uint64{{0xe7afd73f55175ea, 0xfbd1636a430c05ca}, {0x71653286ae53c6f9, 0x2b419e4d01dbd609}, {0x26744b4ebdd70929, 0x332fdd5ee4f1b885}}},
	{24, [][2]uint64{{0x70bdb48e81ec6b05, 0xa25cb72eb7eb48c7}, {0x8bd7f366840749ba, 0x365a3cf2491eb438}, {0x66f70a15cdf2b5, 0xab2127412039ebf8}}},
	{30, [][2]uint64{{0x3668957, 0xbffa07d}, {0x5e4a9d6, 0x3d7f82fc}, {0x239c4c95, 0x3b63936f}}},
	{36, [][2]uint64{{0x95305520e, 0xda5c8204f}, {0xee18374b1, 0xc068ca491}, {0xdfc995359, 0xfa980de76}}},
	{42, [][2]uint64{{0x2305c4ed49, 0x247d2652c9c}, {0x1ab65c61795, 0xb05e7a1962}, {0xbcaf2e297f, 0x1689c500602}}},
	{48, [][2]uint64{{0x15443ab0d4bf, 0x6f34365ed07f}, {0x6a6a8e879825, 0x708a5710dfee}, {0x5738e941fdf6, 0x5a542b36ffd6}}},
	{54, [][2]uint64{{0x2b2fa6a1b6db85, 0x36d8d16cbeca66}, {0x2a24b4d3d18426, 0x2fdfcf246b45bd}, {0xe94a36d2cc25a, 0x16927669b11fd7}}},
	{60, [][2]uint64{{0xd60234fc61984ed, 0xdcf69409e4b42ab}, {0xbc49d4e138bece1, 0x4e537f282a0ee19}, {0xee22d8ef1e44f0b, 0x2f3633bc511b071}}},
	{64, [][2]uint64{{0xcedd293393b95f49, 0xa0a68bf2093102e6}, {0x394b9e3d752ce3ad, 0xfab8654fe9faf904}, {0x72560ddc3cea3ddd, 0xef1fa5e9649fd953}}},
}

// pairs found from the state after the first full collision
var fnvAfter = []fnvChain{
	{6, [][2]uint64{{0xab3cb36d1638c879, 0x740cca1d9399018a}, {0x1c31c0305cbfa893, 0x677fc8b28bc23df9}}},
	{12, [][2]uint64{{0xabbf36a3220597af, 0x3d5f64041cc409d1}, {0xc76e739d72f6710c, 0x903e8a4df056aa1d}}},
	{18, [][2]uint64{{0x299537625ce81ec5, 0xc7c2662e5f7f5477}, {0xc3b8a6e12418a3e4, 0x2c59022bbd735ccb}}},
	{24, [][2]uint64{{0x577e722fde8b6539, 0xb65596d8d0989894}, {0xfa2523cc722bfd56, 0x358d5d0e4f7460a4}}},
	{30, [][2]uint64{{0x159ab392, 0xda73a5c}, {0xc4c6fe69c73eaf71, 0xfcbbf15}}},
	{36, [][2]uint64{{0xad0c8feb2, 0x2b1412337}, {0xdfc022258, 0x95e435419}}},
	{42, [][2]uint64{{0x2714d89dcd4, 0x2c385f9a452}, {0x269fb2256c3, 0x4089bd7c53}}},
	{48, [][2]uint64{{0x47cf721a6796, 0x8c0f872c403}, {0x9b72930b0e54, 0x5bdc7ef51401}}},
	{54, [][2]uint64{{0x2bdcfd6c5d17cd, 0x1aaf9da15a2305}, {0xc35c865bf64ab, 0x3a57aaf74b4fde}}},
	{60, [][2]uint64{{0x770a02a2303bf, 0xf2ef5211eab86ee}, {0x7d078651ec959e3, 0x787e410d38ec63c}}},
}

// pairs found from the states after two and after three full collisions
var fnvDeep = [][]fnvChain{
	{
		{6, [][2]uint64{{0x9eafb2020e6204e8, 0xd0e3b7ae2dbb132c}}},
		{12, [][2]uint64{{0x953a6df1539f62c8, 0xd3fb75087acd349d}}},
		{18, [][2]uint64{{0xe6f901a319998827, 0x82ee179519714335}}},
		{24, [][2]uint64{{0xcbb9aa8f57d8d998, 0xb10f2f3aab62acbb}}},
		{30, [][2]uint64{{0x3b21065f, 0x3f9b29ac}}},
		{36, [][2]uint64{{0xf5ccbf84b, 0x9d8370429}}},
		{42, [][2]uint64{{0x153535a921b, 0x1e5270b589e}}},
		{48, [][2]uint64{{0x336510d2eef9, 0x5e41fcb98635}}},
		{54, [][2]uint64{{0x1ea5c3a6ec0d31, 0x36556cb4c3b26a}}},
		{60, [][2]uint64{{0xedc6ee4353bbd99, 0x24a3e0e9dc24241}}},
	},
	{
		{6, [][2]uint64{{0x317bd5a4d122171, 0xdd70b9193591d6bd}}},
		{12, [][2]uint64{{0x12bc7c1fa1fb0673, 0xc2728ffa0fafb861}}},
		{18, [][2]uint64{{0xaf9a87ae77b5d56d, 0xa8f23d206f7b657e}}},
		{24, [][2]uint64{{0xe69c02bc149f2987, 0x9b3b5800ce7fb9df}}},
		{30, [][2]uint64{{0xa4fd66d, 0x3a5d1c59}}},
		{36, [][2]uint64{{0x49defe6fc, 0x62859b7dc}}},
		{42, [][2]uint64{{0x3ead2478477, 0x1811f12d848}}},
		{48, [][2]uint64{{0xd3b3c0e4df37, 0xec2224f2dd1f}}},
		{54, [][2]uint64{{0x10dda329bd0d0f, 0x3d098d0256de33}}},
		{60, [][2]uint64{{0xcf61139c0e312b5, 0xd27586a9911317b}}},
	},
}

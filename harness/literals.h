// generated by tools/gen_literals.py
#if LITPART == 0
L(0, 0ull)
L(0b0, 0ull)
L(01, 1ull)
L(0x2, 2ull)
L(0b1'0, 2ull)
L(0b11, 3ull)
L(0x7, 7ull)
L(8, 8ull)
L(0b1000, 8ull)
L(011, 9ull)
L(0XA, 10ull)
L(15, 15ull)
L(0b1111, 15ull)
L(020, 16ull)
L(63, 63ull)
L(0b111111, 63ull)
L(0X40, 64ull)
L(0b1'0'00'000, 64ull)
L(0144, 100ull)
L(126, 126ull)
L(0176, 126ull)
L(127, 127ull)
L(0177, 127ull)
L(0X80, 128ull)
L(0B10000000, 128ull)
L(0201, 129ull)
L(25'5, 255ull)
L(0B11111111, 255ull)
L(0X1'00, 256ull)
L(999, 999ull)
L(01747, 999ull)
L(1000, 1000ull)
L(0b1111101000, 1000ull)
L(0x7fFe, 32766ull)
L(0b1111111'111'1'1110, 32766ull)
L(077777, 32767ull)
L(32768, 32768ull)
L(0100000, 32768ull)
L(65535, 65535ull)
L(01'7'7'777, 65535ull)
L(6553'6, 65536ull)
L(02'0'00'00, 65536ull)
L(2'147'48'364'6, 2147483646ull)
L(01'7'777777'776, 2147483646ull)
L(21'4748'3'647, 2147483647ull)
L(0177'77777777, 2147483647ull)
L(214748'3648, 2147483648ull)
L(0'2'00'00'000000, 2147483648ull)
L(0XfFffffFF, 4294967295ull)
L(0b11111111111111111111111111111111, 4294967295ull)
L(0x100000000, 4294967296ull)
L(0B100000000000000000000000000000000, 4294967296ull)
L(0x7FFfFfFffFfFFFfe, 9223372036854775806ull)
L(0B111111111111111111111111111111111111111111111111111111111111110, 9223372036854775806ull)
L(0x7fffFFffFFfFFFff, 9223372036854775807ull)
L(0b111111111111111111111111111111111111111111111111111111111111111, 9223372036854775807ull)
L(0X8000000000000000, 9223372036854775808ull)
L(0B1000000000000000000000000000000000000000000000000000000000000000, 9223372036854775808ull)
L(0x8000000000000001, 9223372036854775809ull)
L(0B1000000000000000000000000000000000000000000000000000000000000001, 9223372036854775809ull)
L(0xFFfFFffffFFffFFE, 18446744073709551614ull)
L(0B1111111111111111111111111111111111111111111111111111111111111110, 18446744073709551614ull)
L(0xffFfffFfFffFFffF, 18446744073709551615ull)
L(0b1111111111111111111111111111111111111111111111111111111111111111, 18446744073709551615ull)
L(0Xde0b6B3a7640000, 1000000000000000000ull)
L(0b110111100000101101101011001110100111011001000000000000000000, 1000000000000000000ull)
L(0x8AC7230489E80000, 10000000000000000000ull)
L(0b1000101011000111001000110000010010001001111010000000000000000000, 10000000000000000000ull)
L(22, 22ull)
L(114, 114ull)
L(468, 468ull)
L(1'0'9'7, 1097ull)
L(6949, 6949ull)
L(3'2'7'2'4, 32724ull)
L(1'0'0'9'7'9, 100979ull)
L(4'3'8'0'0'9, 438009ull)
L(1'0'6'5'1'0'6, 1065106ull)
L(6143052, 6143052ull)
L(2'2'1'5'5'1'2'3, 22155123ull)
L(10'0'5001'56, 100500156ull)
L(4'5'8'0'3'9'7'2'6, 458039726ull)
L(2'0'5'4'5'5'0'7'0'4, 2054550704ull)
L(8544505843, 8544505843ull)
L(17364161197, 17364161197ull)
L(122845906782, 122845906782ull)
L(371470369075, 371470369075ull)
L(1969915398490, 1969915398490ull)
L(6'1'9'1'1'0'9'7'8'1'3'9'0, 6191109781390ull)
L(26401593303295, 26401593303295ull)
L(7'5'9'1'9'7'2'2'6'2'0'1'9'0, 75919722620190ull)
L(394682927368689, 394682927368689ull)
L(1'6'6004454'0'1'794'50, 1660044540179450ull)
L(4'6'3'8'2'5'4'6'7'2'1'5'1'2'3'0, 4638254672151230ull)
L(29'934576'78'52'78712, 29934576785278712ull)
L(9'5'4'2'8'6'1'4'4'9'7'1'1'8'8'2'4, 95428614497118824ull)
L(2'9'3'8'5'6'4'4'6'8'7'0'8'7'2'5'8'2, 293856446870872582ull)
L(2293835887942822614, 2293835887942822614ull)
L(832'3452'20431'96814'0'2, 8323452204319681402ull)
L(0X6, 6ull)
L(0X1'F, 31ull)
L(0x69, 105ull)
L(0x1'9'D, 413ull)
L(0X564, 1380ull)
L(0X1'6'7'F, 5759ull)
L(0x4'0'B'7, 16567ull)
L(0x1e92A, 125226ull)
L(0X49B49, 301897ull)
L(0X174'38'F, 1524623ull)
L(0X775c80, 7822464ull)
L(0X1f1Aab6, 32615094ull)
L(0x6B1D852, 112318546ull)
L(0X1'236e144, 305586500ull)
L(0X5'd6'23'c88, 1566719112ull)
L(0X1a5b5b293, 7075115667ull)
L(0X6188f212F, 26181837103ull)
L(0X104296E673, 69836662387ull)
L(0x5'3'2'A'd'6'5'b'8'3, 357200976771ull)
L(0X13ad2EFf020, 1352158670880ull)
L(0X5'2'c'a'C'6'0'8'D'5'5, 5689428708693ull)
L(0x184B0dac3a8B, 26710631004811ull)
L(0X7'5'8'5'3'1'b'D'9'4'c'3, 129214925608131ull)
L(0x1'E'4'7'A'1'9'b'0'6'5'D'c, 532688044844508ull)
L(0x6749a7B278215, 1817056700236309ull)
L(0x1CaC855C54E8D5, 8070988127594709ull)
L(0x6Cf9'637d054'67'7, 30673503179327095ull)
L(0x13FC1e45422499a, 90003703978936730ull)
L(0x4b832E127A7be2A, 340077714480807466ull)
L(0x1A7bb527190DE389, 1908318046650229641ull)
L(0x4'f'2'4'E'9'5'4'B'6'f'f'2'4'1'0, 5702939578214589456ull)
L(05, 5ull)
L(045, 37ull)
L(0'3'0'0, 192ull)
L(01524, 852ull)
L(07'33'7, 3807ull)
L(0'2'0'3'5'5, 8429ull)
L(014'502'6, 51734ull)
L(0'6065'02, 200002ull)
L(02275433, 621339ull)
L(0'1'4'6'2'7'1'3'2, 3354202ull)
L(057666346, 12545254ull)
L(0'2'2'5'7'5'0'2'7'1, 39309497ull)
L(01611552370, 237425912ull)
L(043'2021'627'1, 591469753ull)
L(033723042065, 3746317365ull)
L(0171452575341, 16318659297ull)
L(0654143516132, 57471310938ull)
L(0'36'3'45'3260642'0, 261547035920ull)
L(016005643660352, 962853822698ull)
L(0'5'6'6'1'4'4'5'3'3'1'1'6'2'3, 3214324634515ull)
L(022'26661'115744'3'2, 10091850299674ull)
L(0'16'43'716416232'3'6'4, 64039912289524ull)
L(07312452515270232, 260212023193754ull)
L(032134325231655063, 921144494873139ull)
L(0176062420376027377, 4436703430848255ull)
L(0741125120446210062, 16929534944809010ull)
L(02262045026513564620, 42294160911165840ull)
L(012416314217433562757, 189657803599570415ull)
L(0'4'3'0'3'2'6'1'4'2'3'4'1'3'5'5'4'4'6'2'0, 631445975381494160ull)
L(0'2'0'1'4'6'5'5'7'1'5'0'7'0'7'6'4'7'2'4'3'3, 2334755329846965531ull)
L(01'0'3067'12'506376465'3'50'02, 9671245509856770562ull)
L(0B1101, 13ull)
L(0b1'0'1'0'1'1, 43ull)
L(0b1'1'1'0'1'1'1'0, 238ull)
L(0b1'0'1'1'1'11110, 766ull)
L(0b101111101010, 3050ull)
L(0b11000001111100, 12412ull)
L(0b1110011001111001, 59001ull)
L(0b101001011010111100, 169660ull)
L(0b10101001111001011011, 695899ull)
L(0B1'0'0'0'1'1'0'0'1'0'1'0'1'1'0'0'0'0'0'0'1'1, 2304771ull)
L(0b1'0'1'1'1'0'0'0'0'1'1'1'1'1'0'1'0'1'1'0'0'1'0'1, 12090725ull)
L(0b11101000010001111011000101, 60890821ull)
L(0b1101010010011100001100101100, 222937900ull)
L(0B110'0110'0'011011'01'0010'0'1100'100'1'1, 857426323ull)
L(0b10101000110010111100101110111000, 2831928248ull)
L(0B1000101001001111001101011100101100, 9281787692ull)
L(0b110110100000100100100101100111001001, 58528520649ull)
L(0b11010110110001100110110010011110000010, 230613002114ull)
L(0B1100'1001'10110'001'101101010011'01101010'0'000, 866269869728ull)
L(0B100100001101010111010010011111110010001010, 2488250530954ull)
L(0b1'11'111'000'1'01000'11'10'1001'11'0'010101'01001'11'1001'1, 17339273270515ull)
L(0B1101001001110101100100000101100110100011111111, 57850593700095ull)
L(0B10011'1001111'010'000'110'011'0'00'010'1'10'0'111'10'0'1'0000'01'0, 172572642327682ull)
L(0B11001010000111100010110011010000011111000110011110, 888923798761886ull)
L(0B1'1'0'1'0'1'1'1'1'0'0'0'0'1'0'0'1'0'1'1'0'0'0'1'1'1'0'0'0'1'0'0'1'0'0'0'1'1'0'0'0'0'1'1'0'1'0'1'1'0'1'0, 3791438689649498ull)
L(0b11110'001'110'101011'00011'00'00'1'0'011'00'01'010'001'0'11'001001'0100, 17017566824901780ull)
L(0b1'0001'0'00100'1'10111'0'011'011'1'10100'1110'00'11'0'10'10'01'11110'10110'1, 38451690404138925ull)
L(0b1101001101010111010010101110100100100100010111001100010100, 237948797346476820ull)
L(0B1'1'1'0'1'1'0'1'1'1'1'0'0'0'1'1'1'1'1'0'1'1'0'1'1'0'1'0'0'0'1'1'0'1'1'0'0'0'0'1'1'0'1'1'0'0'0'0'0'1'0'1'0'1'1'1'0'1'0'1, 1071362868292289909ull)
L(0B1011010'1100'1011100'11011'00'0011'11'0'10'00010'0'0'0'00'11'11001'0001'001'101'1, 3271246686760192155ull)
L(0B1000000100101010001011100100000001101111110010010001110010000100, 9307302434202786948ull)
L(0X133, 307ull)
L(0X155, 341ull)
L(0X188, 392ull)
L(0X1bb, 443ull)
L(0X1dd, 477ull)
L(0xA, 10ull)
L(0xC, 12ull)
L(0xE, 14ull)
L(0B0, 0ull)
L(0x0f, 15ull)
L(0'1'2, 10ull)
#endif
#if LITPART == 1
L(0X0, 0ull)
L(1, 1ull)
L(0b1, 1ull)
L(02, 2ull)
L(3, 3ull)
L(0B11, 3ull)
L(07, 7ull)
L(0x8, 8ull)
L(9, 9ull)
L(0b1001, 9ull)
L(0xa, 10ull)
L(0xf, 15ull)
L(16, 16ull)
L(0'2'0, 16ull)
L(0x3F, 63ull)
L(0b11'1111, 63ull)
L(0100, 64ull)
L(100, 100ull)
L(014'4, 100ull)
L(12'6, 126ull)
L(0'176, 126ull)
L(1'27, 127ull)
L(0b1111111, 127ull)
L(0x80, 128ull)
L(0b10000000, 128ull)
L(0B10000001, 129ull)
L(0XFf, 255ull)
L(0b11111111, 255ull)
L(0400, 256ull)
L(99'9, 999ull)
L(01'747, 999ull)
L(0x3E8, 1000ull)
L(0b1'11'1'1'0'1000, 1000ull)
L(0X7F'Fe, 32766ull)
L(32767, 32767ull)
L(077'77'7, 32767ull)
L(3'2768, 32768ull)
L(010'00'0'0, 32768ull)
L(0XfFFf, 65535ull)
L(0b1111111111111111, 65535ull)
L(0x10000, 65536ull)
L(0B10000000000000000, 65536ull)
L(0X7fFfFFfe, 2147483646ull)
L(0B1111111111111111111111111111110, 2147483646ull)
L(0X7FffFfFF, 2147483647ull)
L(0B1111111111111111111111111111111, 2147483647ull)
L(0X80000000, 2147483648ull)
L(0b10000000000000000000000000000000, 2147483648ull)
L(0XFfFFFFf'F, 4294967295ull)
L(0b11111111111111'1111111111111'1'1'1'11, 4294967295ull)
L(0X10'0'000'0'00, 4294967296ull)
L(0B10'0'0'000'000'0'000000'00'0000'0'0'000000'00, 4294967296ull)
L(0x7ffffffffFFfF'fFe, 9223372036854775806ull)
L(0b1'11111111'11111111'1111111'1'111'1'1'11'111'11'11'1'11111111111'1111111'1111'0, 9223372036854775806ull)
L(0x7FfFF'FFFFffffffF, 9223372036854775807ull)
L(0b11'11111111111'11'1111'11'111'1'11'1'1111'11'1'1'1111'11'11'111'11111111'1111'1111, 9223372036854775807ull)
L(0x800'0'00000'0'00'0000, 9223372036854775808ull)
L(0b10'0'0'000'0000'0'000000'00'00000'0000'000'0000000'0'0000000'0'0000'0000000'00'0'00, 9223372036854775808ull)
L(0X80'00'0'00'00'0'00'000'1, 9223372036854775809ull)
L(0b100000000'000'00000'00'0000'00'0000'0'0'0000'00'000'00'00000000'00'0000'00'00'0001, 9223372036854775809ull)
L(0xffffFf'f'ffFfffFf'e, 18446744073709551614ull)
L(0b1'111'1'11'1'111111111'11111111'1'1'1'1'11111'111'11111'1'1'11111'1111'11'11111111'0, 18446744073709551614ull)
L(0xFFfFFFf'fFFf'FfF'f'F, 18446744073709551615ull)
L(0b1111111'11'1111'111'1111111'111'111'1111'1'1'111111111'111'11'1'1111'111'11'11'111, 18446744073709551615ull)
L(0xd'e'0'B6'B3a76'4000'0, 1000000000000000000ull)
L(0b110'111'1000'00'1'0'11'011010110'0111010'01110'1'100'10000'0'0'000000'00'0000, 1000000000000000000ull)
L(0x8'A'c72'3'0'48'9'e80000, 10000000000000000000ull)
L(0b100'01'0101'100'0111'00'1'0'00'11000001'0'0100'0100111'10100000'0'000000000'000'0, 10000000000000000000ull)
L(53, 53ull)
L(1'75, 175ull)
L(899, 899ull)
L(3'0'6'9, 3069ull)
L(1'1'7'4'3, 11743ull)
L(5'2'2'7'5, 52275ull)
L(208889, 208889ull)
L(789379, 789379ull)
L(2730503, 2730503ull)
L(9049156, 9049156ull)
L(6'3'6'4'7'8'9'4, 63647894ull)
L(267780124, 267780124ull)
L(1'0'3'3'6'8'5'8'0'8, 1033685808ull)
L(2'2'4'1'1'8'8'3'3'9, 2241188339ull)
L(9'2'4'3'7'7'8'0'4'7, 9243778047ull)
L(67901314955, 67901314955ull)
L(176012909980, 176012909980ull)
L(969993734081, 969993734081ull)
L(2'489'93044168'8, 2489930441688ull)
L(1'4'1'6'4'3'1'9'8'5'6'9'9'3, 14164319856993ull)
L(35869753760885, 35869753760885ull)
L(241757832679527, 241757832679527ull)
L(6'9'1'4'9'0'2'3'0'5'9'8'9'2'8, 691490230598928ull)
L(4121134034661912, 4121134034661912ull)
L(15990848748695615, 15990848748695615ull)
L(4729'9'5'72'1'89285483, 47299572189285483ull)
L(146206706832099030, 146206706832099030ull)
L(873176427006873275, 873176427006873275ull)
L(4171663565316320535, 4171663565316320535ull)
L(12216304305415329787, 12216304305415329787ull)
L(0X5, 5ull)
L(0x3b, 59ull)
L(0xa'8, 168ull)
L(0x314, 788ull)
L(0XffD, 4093ull)
L(0X3'C'F'2, 15602ull)
L(0Xf0E2, 61666ull)
L(0X3'B'7'f'7, 243703ull)
L(0X87'd7D, 556413ull)
L(0X2a9Dc1, 2792897ull)
L(0x9AfF68, 10157928ull)
L(0X2'8'7'F'c'4'A, 42466378ull)
L(0XA'4'6'E'0'5'c, 172417116ull)
L(0x3410228A, 873472650ull)
L(0XA'9'3'1'e'3'C'5, 2838619077ull)
L(0X20176e9e'9, 8614504937ull)
L(0Xa'0'7'3'7'D'0'6'5, 43070771301ull)
L(0X2d62aB2ae2, 194928913122ull)
L(0XB'0'9'D'4'0'5'a'9'D, 758552484509ull)
L(0X3A5916c82'3'0, 4009644294704ull)
L(0xB'4eF'71'D'E'6'65, 12433781286501ull)
L(0X32b778263DD7, 55763576176087ull)
L(0XDb3'f8'413E'9'7'7, 241065845320055ull)
L(0x3bF84'C'Fd6E3d'E, 1055002073687006ull)
L(0x908E09eb15Fab, 2543035618516907ull)
L(0x34ED24a8d69B93, 14897440496196499ull)
L(0XACC41E2843cB9C, 48629329797827484ull)
L(0x38A93D56f13cD32, 255178873800740146ull)
L(0x9b401ceA0194106, 699185829110169862ull)
L(0x24'fa'a'1'7455'4'0f'ceC, 2664619650561670380ull)
L(0X9'D2'5fD'D'63'B'5Fa9A9, 11323735934653933993ull)
L(013, 11ull)
L(0'6'0, 48ull)
L(0251, 169ull)
L(0'1'2'0'7, 647ull)
L(0'6'2'2'6, 3222ull)
L(023077, 9791ull)
L(0175767, 64503ull)
L(0'4'2'3'1'6'1, 140913ull)
L(02653157, 743023ull)
L(0137'650'23, 3140115ull)
L(073303223, 15566483ull)
L(0346734707, 60537287ull)
L(0'1'3'1'1'6'4'2'6'1'4, 187123084ull)
L(0'4'5'2'0'0'1'7'7'0'3, 624959427ull)
L(020003732131, 2148512857ull)
L(0'1'6'3'1'0'3'1'2'5'6'2'1, 15452646289ull)
L(0752430102174, 65840120956ull)
L(03250627633352, 228813911786ull)
L(0'1'5'6'1'0'7'0'3'1'6'5'5'0'6, 946084834118ull)
L(061065633302012, 3374475740170ull)
L(0'27'73'741'17705041, 13159263865377ull)
L(0'1'2'0'5'5'7'4'7'4'3'1'0'1'0'0'1, 44375191880193ull)
L(0'7'2'1'1'5'7'4'7'0'1'2'1'2'5'6'3, 255756293444979ull)
L(0'3'3'3'2'4'4'4'0'7'7'6'0'2'7'2'0'5, 964585363877509ull)
L(0'1'3'3'0'4'3'1'7'6'5'6'2'1'6'4'2'0'2, 3204200050256002ull)
L(04'7'53'5'2754430227240, 11169592418315936ull)
L(03005775004260144432, 54254096185608474ull)
L(016766626'330'1'0'211722'0, 269892063037267600ull)
L(0'5'0'6'7'0'6'3'2'0'1'7'7'4'5'2'0'3'6'3'6, 736085241224300446ull)
L(0307467337227715147026, 3595822987937631766ull)
L(01613307440472050026744, 16346080971510001124ull)
L(0B11101, 29ull)
L(0b1001000, 72ull)
L(0B1'0'1'0'1'1'1'0'1, 349ull)
L(0b10110110001, 1457ull)
L(0b1'1'1'0'1'1'1'0'0'1'1'1'0, 7630ull)
L(0b111010111010010, 30162ull)
L(0B1'0'0'0'0'1'0'0'0'0'1'0'1'0'1'0'1, 67669ull)
L(0b1001100111100101100, 315180ull)
L(0b1'1000'1101'11'0101'100'100, 1629540ull)
L(0B11000100000110001011111, 6425695ull)
L(0b1110000011010001110101101, 29467565ull)
L(0B110011010011110000101101101, 107602285ull)
L(0b1'0'1'1'0'1'0'0'0'0'1'0'1'1'0'0'1'0'0'0'0'0'1'1'1'0'0'1'1, 377852019ull)
L(0b1010001011111011010010010110000, 1367188656ull)
L(0b1'1'00001000'01'10010111'0011'0'1'1011011, 6512895707ull)
L(0b10001000110001011001101111010110011, 18357214899ull)
L(0b1111111000100110111001010001001101011, 136446780011ull)
L(0b110010001111111000101010010001001110011, 431628821107ull)
L(0b11010001010101011001100101110111100110010, 1798168571698ull)
L(0b1'0'0'1'0'0'0'0'0'0'0'1'0'1'1'0'0'0'0'0'0'0'0'0'0'1'0'0'1'1'1'0'1'0'1'1'1'0'1'1'1'1'0, 4950755276254ull)
L(0b10'11'01110001'001'011'0'1011'0'010'1110'01'1'11'0000'0'1110, 25161441713678ull)
L(0b11001011111111110010100000101100101111100100011, 112148375559971ull)
L(0B1'1'1'0'0'0'0'0'0'1'1'1'1'1'0'1'1'1'0'0'1'0'1'1'1'1'0'0'1'0'0'1'0'0'1'1'1'0'1'1'1'0'0'0'1'1'0'0'0, 493661788993304ull)
L(0b1'0'1110'00110101'10'11'1010011'1'1'1111'00'10'1'1'1101111010'1100, 1625865506191276ull)
L(0B11110100110001000111100010010011111101010101101110011, 8611989559356275ull)
L(0b1100001100001001100101110010001000000101100101111101001, 27449082587040745ull)
L(0b1'0'1'0'1'1'1'0'0'0'0'1'0'0'1'0'0'1'0'0'0'1'1'0'0'0'1'1'1'0'1'0'0'1'0'0'1'1'0'1'1'1'0'0'0'1'0'1'0'0'1'0'0'0'1'0'0, 97993477565680196ull)
L(0B10101111110001101000100000000000000001100001101000101111110, 395811266740932990ull)
L(0b1111110110001101000011000000000010110001111010000011100010011, 2283784057554536211ull)
L(0b1'0'0'0'1'1'1'0'1'0'0'1'1'1'0'0'0'1'1'1'1'1'0'1'1'1'1'1'1'1'0'1'1'0'1'1'1'1'1'1'1'0'1'1'1'1'1'1'0'1'0'0'1'1'1'1'1'1'1'0'0'0'0, 5138113489274906608ull)
L(0X100, 256ull)
L(0x4, 4ull)
L(0x6, 6ull)
L(0X199, 409ull)
L(0xc, 12ull)
L(0xe, 14ull)
L(0X1AA, 426ull)
L(0X1CC, 460ull)
L(0X1EE, 494ull)
L(000, 0ull)
L(0b0001, 1ull)
#endif
#if LITPART == 2
L(0x0, 0ull)
L(0x1, 1ull)
L(2, 2ull)
L(0'2, 2ull)
L(0X3, 3ull)
L(7, 7ull)
L(0B111, 7ull)
L(0X8, 8ull)
L(0X9, 9ull)
L(0b10'01, 9ull)
L(012, 10ull)
L(0xF, 15ull)
L(0x10, 16ull)
L(0b10000, 16ull)
L(077, 63ull)
L(64, 64ull)
L(0'100, 64ull)
L(0x64, 100ull)
L(0b1100100, 100ull)
L(0x7E, 126ull)
L(0b1111110, 126ull)
L(0x7F, 127ull)
L(0b11'11111, 127ull)
L(0200, 128ull)
L(129, 129ull)
L(0b10'0'0'000'1, 129ull)
L(0xFF, 255ull)
L(256, 256ull)
L(0b100000000, 256ull)
L(0X3E7, 999ull)
L(0b1111100111, 999ull)
L(0x3'E8, 1000ull)
L(32766, 32766ull)
L(077776, 32766ull)
L(0X7FfF, 32767ull)
L(0b111111111111111, 32767ull)
L(0X8000, 32768ull)
L(0B1000000000000000, 32768ull)
L(0Xf'ff'f, 65535ull)
L(0b11111111111'1'11'11, 65535ull)
L(0x1000'0, 65536ull)
L(0B1'000'0'000'0000000'00, 65536ull)
L(0X7ffFf'FFe, 2147483646ull)
L(0B11'1'1'1111111111111'111111'111'1'1'1'10, 2147483646ull)
L(0X7'FFff'f'F'f, 2147483647ull)
L(0b111'111'11'1'111'1111'11111111111'1'111, 2147483647ull)
L(0x80'000000, 2147483648ull)
L(0B10000'00'00'00'000'00'00'0'0'0000'00000000, 2147483648ull)
L(037777777777, 4294967295ull)
L(4294967296, 4294967296ull)
L(040000000000, 4294967296ull)
L(9223372036854775806, 9223372036854775806ull)
L(0777777777777777777776, 9223372036854775806ull)
L(9223372036854775807, 9223372036854775807ull)
L(0777777777777777777777, 9223372036854775807ull)
L(9223372036854775808, 9223372036854775808ull)
L(01000000000000000000000, 9223372036854775808ull)
L(9223372036854775809, 9223372036854775809ull)
L(01000000000000000000001, 9223372036854775809ull)
L(18446744073709551614, 18446744073709551614ull)
L(01777777777777777777776, 18446744073709551614ull)
L(18446744073709551615, 18446744073709551615ull)
L(01777777777777777777777, 18446744073709551615ull)
L(1000000000000000000, 1000000000000000000ull)
L(067405553164731000000, 1000000000000000000ull)
L(10000000000000000000, 10000000000000000000ull)
L(01053071060221172000000, 10000000000000000000ull)
L(4, 4ull)
L(32, 32ull)
L(203, 203ull)
L(6'9'7, 697ull)
L(33'0'9, 3309ull)
L(16239, 16239ull)
L(3'5'5'6'5, 35565ull)
L(2'2'7'3'8'8, 227388ull)
L(8'2'4'9'1'8, 824918ull)
L(2600121, 2600121ull)
L(1'406'1993, 14061993ull)
L(41185510, 41185510ull)
L(1'8'2'5'9'9'0'3'6, 182599036ull)
L(1014402199, 1014402199ull)
L(42372'0'66'4'0, 4237206640ull)
L(13338009527, 13338009527ull)
L(65130159101, 65130159101ull)
L(184153148102, 184153148102ull)
L(105239'89437'1'0, 1052398943710ull)
L(3793924117919, 3793924117919ull)
L(10629541254269, 10629541254269ull)
L(3'8'2'0'9'3'3'3'0'5'1'5'4'0, 38209333051540ull)
L(2'7'5'3'5'5'4'9'3'3'9'6'5'3'4, 275355493396534ull)
L(1'0'9'0'5'1'7'7'2'5'9'7'5'6'1'6, 1090517725975616ull)
L(3805127038410519, 3805127038410519ull)
L(9'5'2'2'5'2'0'3'1'2'7'9'9'6'1'8, 9522520312799618ull)
L(52855582401073863, 52855582401073863ull)
L(2'2'6'0'5'8'9'6'8'4'3'8'4'5'9'5'3'6, 226058968438459536ull)
L(7'494570'9'9'8'9'0'20691'6, 749457099890206916ull)
L(3894493136208231326, 3894493136208231326ull)
L(16055982266370250151, 16055982266370250151ull)
L(0Xc, 12ull)
L(0X3'B, 59ull)
L(0x9A, 154ull)
L(0X3'3'1, 817ull)
L(0xE'3'9, 3641ull)
L(0x2Cdb, 11483ull)
L(0XC802, 51202ull)
L(0X34F0a, 216842ull)
L(0XCC541, 836929ull)
L(0X22ea16, 2288150ull)
L(0xc'e'9'E'7'E, 13540990ull)
L(0X3A495c9, 61117897ull)
L(0xdd0D6e3, 231790307ull)
L(0X3a29c5a9, 975816105ull)
L(0x941'd'fc4c, 2484993100ull)
L(0X3a29dbcFF, 15613148415ull)
L(0XE'd'8B'3e4'EE, 63765210350ull)
L(0X363A07F525, 232901834021ull)
L(0xE'0'0'9'6'3'f'f'5'6, 962230222678ull)
L(0X2'7'6'e'8'3'd'1'9'1'3, 2709725714707ull)
L(0X9'f7'9'ace95'3'5, 10959058801973ull)
L(0x2F05C1755272, 51701767033458ull)
L(0xf225Cfe4788a, 266244215568522ull)
L(0X2fB77b9658ceC, 839441583541484ull)
L(0Xe'6'D'7'5'B'B'E'8'c'9'5'F, 4061002105145695ull)
L(0X2a579cF727c55a, 11918280694941018ull)
L(0Xbe042760d3981d, 53484812749740061ull)
L(0x3Be61B2C495d9d9, 269760448119036377ull)
L(0XCDd63bcA9a018E8, 927006760259033320ull)
L(0x3'6'D'9'2'0'A'8'e'9'7'1'1'C'a'8, 3952226057837419688ull)
L(0xd54F'072'5'e'8'2b77ae, 15370511912629139374ull)
L(03'0, 24ull)
L(01'51, 105ull)
L(0'5'0'3, 323ull)
L(02417, 1295ull)
L(016374, 7420ull)
L(0'7'1'3'6'7, 29431ull)
L(0247571, 85881ull)
L(01057566, 286582ull)
L(050'63'1'53, 1336939ull)
L(0'2'7'1'3'3'2'6'5, 6076085ull)
L(0'1'41'1416'55, 25478061ull)
L(0453534'2'12, 78559370ull)
L(0'3'7'6'3'6'2'6'1'2'6, 533670998ull)
L(015771445601, 1877363585ull)
L(0'4'7'7'2'1'4'0'0'1'4'2, 5356519522ull)
L(0260405640452, 23690953002ull)
L(01'07'73276'433'30, 77231769304ull)
L(07137006612126, 493788795990ull)
L(035320437032420, 2020857361680ull)
L(0140653326333077, 6654436947519ull)
L(0'7'4'4'5'2'1'1'6'7'1'6'2'1'5'3, 33305489368171ull)
L(024'436'1'7652'75151'1, 90419776705353ull)
L(010377434220003075, 299036598863421ull)
L(053200645206312462, 1521780633736498ull)
L(0267157654465711545, 6446425480598373ull)
L(016'1'00'0'7'7'321'211'747'01, 31807217045141953ull)
L(05'3'7'6'0'232'14'5640636'47, 99010147616057255ull)
L(0'3'3'6'4'7'0'6'5'2'2'2'3'0'3'6'3'3'4'0'4, 501275410928973572ull)
L(0160000564526236210301, 2017638242651279553ull)
L(07'30007'074'033730'756'2'14, 8503046513996586124ull)
L(0B1, 1ull)
L(0B1'01'01, 21ull)
L(0b1'1'0'1'1'1'0, 110ull)
L(0b110'1'0'00'11, 419ull)
L(0B1'0'0'0'1'0'0'0'1'1'0, 1094ull)
L(0B1010011100101, 5349ull)
L(0b110110101111101, 28029ull)
L(0B11101010101110001, 120177ull)
L(0B1010000111100100101, 331557ull)
L(0b1'0'1'0'0'1'0'1'0'1'1'1'1'1'1'1'0'1'0'0'1, 1355753ull)
L(0b1'1'1'1'1'0'1'0'1'1'0'1'0'0'1'1'0'0'1'1'0'1'1, 8219035ull)
L(0B1101111010011110111010100, 29179348ull)
L(0B1'1'1'0'1'1'0'0'1'1'1'1'1'1'1'0'0'1'0'0'0'1'0'0'1'1'1, 124252711ull)
L(0B10100101110011110100001101011, 347727979ull)
L(0b1011000100011001000010011110100, 1485604084ull)
L(0B110010111101011001001001010000010, 6839636610ull)
L(0B1'1'0'1'0'0'0'1'1'1'0'1'0'1'0'0'1'1'0'0'0'1'1'0'1'0'0'0'1'1'0'1'0'0'1, 28163060841ull)
L(0B1'0'1'1'1'0'0'0'1'0'1'1'0'1'0'1'0'0'0'0'0'1'0'1'1'1'0'1'0'1'1'0'1'0'1'1'1, 99163880151ull)
L(0B111110001011101011111011001111010110010, 534144458418ull)
L(0b1'0'0'0'1'1'1'1'0'0'1'1'1'1'1'1'0'1'1'0'0'0'1'1'1'0'0'1'1'1'0'1'1'1'1'1'0'1'0'1'0, 1230487632874ull)
L(0b1001010111011010111000101100111001011001111, 5148979393231ull)
L(0b1'1'1'0'0'1'1'0'0'0'0'0'1'0'0'0'0'1'0'1'0'0'0'1'1'0'0'1'0'0'0'1'0'0'0'0'1'0'0'0'1'0'1'1'0, 31615425323286ull)
L(0b1'1'0'0'1'1'0'1'1'0'0'1'1'0'1'1'0'0'1'1'0'0'0'0'0'0'1'1'0'0'0'0'0'0'1'0'1'0'0'1'1'1'0'1'1'0'0, 113033206043884ull)
L(0b1'1'0'0000101'110'1'000011101100'1'0100'0'0'0'0010'01101100110, 425409905693542ull)
L(0b1'1'0'1'1'0'0'0'1'1'1'1'1'1'0'1'1'0'1'0'1'0'0'0'1'1'0'0'0'0'1'1'0'0'0'1'1'1'0'1'0'0'1'1'0'0'0'0'1'0'1, 1908671757478277ull)
L(0b11010011100010010110011000001011111100100001001100001, 7442786433253985ull)
L(0b111111'0'011'100'01010'00100'011'110'111'110'111100'10000'011'11'1'000, 35590386016526584ull)
L(0b100111101110001110101101010111101110101111110011100000110, 89446760163305222ull)
L(0b10010110011101011110110010100110000110111110100001101100110, 338807246129415014ull)
L(0B10'01001'100'1'00'10110'10'00000'01100'01101110100'011'0101111110'11111'11, 1325382129143955327ull)
L(0b110000011011111000100010110001110011111000101111111111010101111, 6980317067016142511ull)
L(0X111, 273ull)
L(0X144, 324ull)
L(0X166, 358ull)
L(0X1aa, 426ull)
L(0X1cc, 460ull)
L(0X1ee, 494ull)
L(0xB, 11ull)
L(0xD, 13ull)
L(0X1FF, 511ull)
L(0'0, 0ull)
L(0000001, 1ull)
#endif
#if LITPART == 3
L(00, 0ull)
L(0X1, 1ull)
L(0X2, 2ull)
L(0b10, 2ull)
L(03, 3ull)
L(0X7, 7ull)
L(0b111, 7ull)
L(010, 8ull)
L(0x9, 9ull)
L(10, 10ull)
L(0b1010, 10ull)
L(017, 15ull)
L(0X10, 16ull)
L(0B10'0'0'0, 16ull)
L(0'77, 63ull)
L(0x40, 64ull)
L(0B1000000, 64ull)
L(0X64, 100ull)
L(0b11'001'00, 100ull)
L(0x7e, 126ull)
L(0b111'1'1'10, 126ull)
L(0x7f, 127ull)
L(128, 128ull)
L(02'0'0, 128ull)
L(0x81, 129ull)
L(255, 255ull)
L(0377, 255ull)
L(0x100, 256ull)
L(0b10'0'00'00'0'0, 256ull)
L(0x3'E7, 999ull)
L(0b11'1'11'00'11'1, 999ull)
L(01750, 1000ull)
L(32'7'66, 32766ull)
L(0B111111111111110, 32766ull)
L(0X7fff, 32767ull)
L(0b1'111'111'11111111, 32767ull)
L(0X8'000, 32768ull)
L(0b1000'00'00000'0'0'00'0, 32768ull)
L(0177777, 65535ull)
L(65536, 65536ull)
L(0200000, 65536ull)
L(2147483646, 2147483646ull)
L(017777777776, 2147483646ull)
L(2147483647, 2147483647ull)
L(017777777777, 2147483647ull)
L(2147483648, 2147483648ull)
L(020000000000, 2147483648ull)
L(4294967295, 4294967295ull)
L(0'377'7'77'7'7'7'77, 4294967295ull)
L(4294'9'6'7296, 4294967296ull)
L(0'4'0000000'000, 4294967296ull)
L(9223'3720'3'6'854'775'8'06, 9223372036854775806ull)
L(07'77777'77'777777'777'7776, 9223372036854775806ull)
L(9'2233'72036854'77'580'7, 9223372036854775807ull)
L(0777'77'7'77777777'7777'77'7, 9223372036854775807ull)
L(922337'203685'4775808, 9223372036854775808ull)
L(01'0000'000'0'00'00'00'0000000, 9223372036854775808ull)
L(9'22'3372036'85477'5809, 9223372036854775809ull)
L(010000'00000'00'0000'0'0'0'001, 9223372036854775809ull)
L(1'8'446744073709'5'5'1614, 18446744073709551614ull)
L(0'1'7'7777777777'77'7777'777'6, 18446744073709551614ull)
L(1'84'467440'7'370955161'5, 18446744073709551615ull)
L(017777'77'777'7'77777777777, 18446744073709551615ull)
L(1'00'0'00000000'0'00'0'000, 1000000000000000000ull)
L(067'40'55'5316'47'31'0000'00, 1000000000000000000ull)
L(1'0'0000000'000000000'0'0, 10000000000000000000ull)
L(0105307'1'0602'2117200'0000, 10000000000000000000ull)
L(26, 26ull)
L(69, 69ull)
L(475, 475ull)
L(125'4, 1254ull)
L(5654, 5654ull)
L(18243, 18243ull)
L(9'3'4'7'5, 93475ull)
L(3'5'2'3'3'8, 352338ull)
L(1'2'5'5'8'4'5, 1255845ull)
L(7'9'3'3'5'1'5, 7933515ull)
L(19'910324, 19910324ull)
L(106239868, 106239868ull)
L(367449999, 367449999ull)
L(2073192202, 2073192202ull)
L(61203'89914, 6120389914ull)
L(17906395228, 17906395228ull)
L(868'9'45'88'09'3, 86894588093ull)
L(3'1'5'6'0'0'8'4'4'0'0'5, 315600844005ull)
L(1197240435579, 1197240435579ull)
L(8'7'6'0'7'4'6'2'2'1'5'8'5, 8760746221585ull)
L(18059386830779, 18059386830779ull)
L(131529508674358, 131529508674358ull)
L(481921199199347, 481921199199347ull)
L(1207818192852825, 1207818192852825ull)
L(6445540935092200, 6445540935092200ull)
L(2'1'4'3'1'5'5'1'6'0'2'6'6'2'3'7'2, 21431551602662372ull)
L(1'120417'52187437'0'31, 112041752187437031ull)
L(5'5'7'3'0'6'6'6'4'0'0'1'7'2'0'5'1'7, 557306664001720517ull)
L(2196009948990135995, 2196009948990135995ull)
L(8'0'5'0'0'1'9'8'6'5'6'9'0'3'9'5'5'5'1, 8050019865690395551ull)
L(0x3, 3ull)
L(0x1E, 30ull)
L(0X57, 87ull)
L(0x1f6, 502ull)
L(0X598, 1432ull)
L(0x1'F'A'4, 8100ull)
L(0x6B'24, 27428ull)
L(0X15689, 87689ull)
L(0x6'89'00, 428288ull)
L(0X1d1D'1'8, 1907992ull)
L(0x7d8'b5e, 8227678ull)
L(0X1'8'D'D'3'F'1, 26072049ull)
L(0x7'C'5'6'0'3'D, 130375741ull)
L(0x1'9'1774'9'1, 420967569ull)
L(0x5'5900A68, 1435503208ull)
L(0x1FCDd'F8'86, 8537372806ull)
L(0X4D3A619ba, 20730747322ull)
L(0X1'D'8'd'4'3'9'9'd'7, 126924069335ull)
L(0X5'4'7'b'2'7'4'D'6'5, 362843426149ull)
L(0X121eF453A90, 1245259840144ull)
L(0x77208F1'E'7'A6, 8186357737382ull)
L(0X1'7f'F2'5a'15F79, 26384615432057ull)
L(0X727052458113, 125826742190355ull)
L(0x183D26c'b5'8eD'7, 426414766919383ull)
L(0x7'3'3'C'7'B'D'2'1'c'A'F'9, 2027257801591545ull)
L(0x1'b'2'0'd'3'd'0'f'9'F'7'5'6, 7635918487418710ull)
L(0x6576e052a69509, 28559678479176969ull)
L(0X1838a47e6c86373, 109082857406227315ull)
L(0X4d71EDC96cCc027, 348781428916142119ull)
L(0X1D1BD10'738B0b0'F7, 2097499880417177847ull)
L(0X7'0'9'B'7'7'4'5'4'C'1'7'5'1'1'1, 8114210293151125777ull)
L(0'4, 4ull)
L(036, 30ull)
L(0123, 83ull)
L(07'34, 476ull)
L(03060, 1584ull)
L(01'7'62'5, 8085ull)
L(044537, 18783ull)
L(0241613, 82827ull)
L(01073511, 292681ull)
L(06'7'70314, 1831116ull)
L(023602154, 5178476ull)
L(0111334154, 19249260ull)
L(0'7'7'5'7'4'6'2'1'7, 133680271ull)
L(0360406534'6, 504392422ull)
L(012266250750, 1389973992ull)
L(0'7'4'0'0'2'5'4'0'3'0'0, 8053768384ull)
L(0'2'0'5'3'6'5'2'5'4'0'5'2, 17915271210ull)
L(0'1'2'7'4'5'7'1'0'6'3'7'2'5, 94051264469ull)
L(07024403465732, 483788745690ull)
L(026053120170466, 1517620883766ull)
L(0160433225502006, 7734604235782ull)
L(0553153461101351, 24959611339497ull)
L(03'52'31217'70553003, 128860022822403ull)
L(011606445426423727, 343499343538135ull)
L(0'5'4'43'1'67224457'765'2, 1567481912295338ull)
L(0'2'3'4'7'0'4'4'3'7'3'3'3'0'0'6'0'2'0, 5519861827243024ull)
L(01055067522634660463, 19601520298516787ull)
L(0'7'1'7'3'7'2'4'4'5'4'7'6'1'0'2'7'4'3'5, 130460668444028701ull)
L(021201342057246666512, 310799095614369098ull)
L(0163713357100007771760, 2087821887926170608ull)
L(0463274223140557103475, 5537045119107893053ull)
L(0b1'1, 3ull)
L(0b111100, 60ull)
L(0b101'0101'0, 170ull)
L(0b1101'110'111, 887ull)
L(0b1'0'0'0'1'1'1'1'1'1'0'1, 2301ull)
L(0B11000101000111, 12615ull)
L(0b1000001'1010'00001, 33601ull)
L(0B111110011001011100, 255580ull)
L(0b111111101'0'0001001'111, 1042511ull)
L(0B11'01'00'0'11010'0'1'01111'00'0, 3434872ull)
L(0B1'0'1'1'1'1'0'1'1'1'1'1'0'0'0'0'1'1'1'1'1'0'0'1, 12447993ull)
L(0b1'0'0'1'1'1'1'1'1'0'1'0'1'1'0'0'1'1'1'1'1'1'0'0'1'1, 41858035ull)
L(0B1101'001'0'0'110111'1'0'01'00001011'1, 220656151ull)
L(0B1'0'0'0101'10'0111110'01010'1010'0'1'101, 584029517ull)
L(0B1'1'0'0'1'1'0'1'1'1'1'1'1'0'0'0'0'1'1'1'0'0'1'1'1'0'0'1'1'0'1'0, 3455611802ull)
L(0B1101001111100010001001011011000011, 14219253443ull)
L(0b110101001100101010110010011100100011, 57120859939ull)
L(0B11110010110111110010011001110000101101, 260781481005ull)
L(0B1010011010111111010110100011001110011101, 716174930845ull)
L(0b1'0'0'1'1'1'1'0'1'1'0'1'0'0'1'0'1'0'1'1'0'0'0'1'0'1'1'1'1'1'0'0'1'1'0'1'1'0'1'0'0'0, 2728558719848ull)
L(0b1'1'1'1'1'0'0'0'0'1'1'0'1'0'0'1'0'1'0'0'1'1'1'0'1'0'0'0'1'1'1'0'0'1'1'1'1'0'0'1'0'1'1'0, 17070698325910ull)
L(0B1'0'1'1'1'1'1'1'1'0'1'1'1'1'0'0'0'0'0'0'1'0'1'1'1'1'1'0'0'0'0'1'1'0'0'0'0'0'1'1'1'1'1'0'0'1, 52703593521401ull)
L(0B1'1'0'1'0'1'0'0'0'1'0'0'1'0'0'0'0'1'0'0'0'1'1'1'0'1'1'0'0'0'1'0'0'0'1'1'0'1'1'1'0'0'1'1'1'1'0'0, 233406900352828ull)
L(0b1'0'0'0'1'1'0'1'0'0'1'1'1'1'1'0'0'0'1'0'0'1'0'0'0'0'1'1'1'0'1'0'1'1'1'0'1'1'0'1'1'0'1'0'1'0'0'1'1'1, 621192141321895ull)
L(0B100010'0'00'010101'10010'1'0'001'0'00'0011'0100001'00'001'1100110'0, 2395503114592716ull)
L(0b111001001110110010101111101011000110100101100111010111, 16109133486512599ull)
L(0B10010011110100111101111100000011101111010101000110101001, 41609776370373033ull)
L(0B1'1'1'0'0'1'0'1'1'1'0'1'0'1'1'1'1'0'1'0'0'1'1'0'1'1'1'1'1'1'1'1'0'0'0'1'0'0'0'1'0'1'1'0'0'0'0'0'0'0'0'1'0'1'0'0'0'0, 258779527642447952ull)
L(0b110100010001101011010111101010010001101111000110010111011100, 941724539039802844ull)
L(0b11011100101010000000000010100100111101001000001010010011011010, 3974989798227092698ull)
L(0b1'1'1'0'1'0'0'0'1'1'1'1'0'1'0'1'0'1'1'0'1'0'1'1'1'1'0'0'1'1'0'0'0'1'1'0'1'1'0'0'1'0'1'1'1'1'0'1'1'0'1'0'1'0'0'1'0'1'0'0'0'1'1'1, 16786441711835261255ull)
L(0X122, 290ull)
L(0x5, 5ull)
L(0X177, 375ull)
L(0xb, 11ull)
L(0xd, 13ull)
L(0X1ff, 511ull)
L(0X1BB, 443ull)
L(0X1DD, 477ull)
L(0x00, 0ull)
L(007, 7ull)
L(0x00000000000000000001, 1ull)
#endif

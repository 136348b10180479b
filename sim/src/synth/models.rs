//! Model names and numbers and the identifiers they stand for.

pub const DNG: &[(&str, u32)] = &[
    ("SAMSUNG GX10       ", 0x90001),
    ("SAMSUNG GX20       ", 0x90003),
    ("Pro 815    ", 0x90002),
    ("M1              ", 0x100001),
    ("YDXJ 2", 0x100002),
    ("YIAC 3", 0x100003),
    ("iPhone 6s Plus", 0x110001),
    ("iPhone 7 Plus", 0x110002),
    ("iPhone 8", 0x110004),
    ("iPhone 12 Pro", 0x110006),
    ("iPhone 13 Pro", 0x110007),
    ("iPhone 14", 0x110008),
    ("iPhone 15 Pro", 0x110009),
    ("iPhone 15 Pro Max", 0x11000a),
    ("iPhone SE", 0x110003),
    ("iPhone XS", 0x110005),
    ("Blackmagic Pocket Cinema Camera", 0xf0001),
    ("SIGMA fp", 0x120001),
    ("SIGMA fp L", 0x120002),
    ("Sigma BF", 0x120003),
    ("L1D-20c", 0x140002),
    ("L2D-20c", 0x140003),
    ("FUSION", 0x130009),
    ("HERO5 Black", 0x130001),
    ("HERO6 Black", 0x130002),
    ("HERO7 Black", 0x130003),
    ("HERO8 Black", 0x130004),
    ("HERO9 Black", 0x130005),
    ("HERO10 Black", 0x130006),
    ("HERO11 Black", 0x130007),
    ("HERO12 Black", 0x130008),
    ("ZX1", 0x150001),
    ("FC220", 0x160004),
    ("FC350", 0x160001),
    ("FC3582", 0x160006),
    ("FC6310", 0x160005),
    ("FC7303", 0x160002),
    ("FC4280", 0x160007),
    ("FC8284", 0x160008),
    ("DJI Osmo Action", 0x160003),
    ("Lumia 1020", 0x170001),
    ("Pixel XL", 0x180001),
    ("Pixel 2 XL", 0x180002),
    ("Pixel 3a", 0x180003),
    ("Pixel 3 XL", 0x180004),
    ("Pixel 4a", 0x180005),
    ("Pixel 4 XL", 0x180006),
    ("Pixel 6 Pro", 0x180007),
    ("Pixel 7a", 0x180008),
    ("Pixel 7 Pro", 0x180009),
    ("Pixel 8 Pro", 0x18000a),
    ("Pixel 9 Pro", 0x18000b),
    ("Seitz 6x17 Digital", 0x190001),
    ("SEALIFE DC2000", 0x1a0001),
    ("PIXII (A1112)", 0x1b0001),
    ("Pixii Camera (A1571)", 0x1b0002),
    ("PENTAX 645D        ", 0x4000d),
    ("PENTAX K10D        ", 0x40002),
    ("PENTAX K20D        ", 0x4003a),
    ("PENTAX Q           ", 0x4000f),
    ("PENTAX K200D       ", 0x40010),
    ("PENTAX K2000       ", 0x4000e),
    ("PENTAX Q10         ", 0x40018),
    ("PENTAX Q7          ", 0x40019),
    ("PENTAX Q-S1        ", 0x40029),
    ("PENTAX K-x         ", 0x40012),
    ("PENTAX K-r         ", 0x40013),
    ("PENTAX K-01        ", 0x40014),
    ("PENTAX K-1         ", 0x40022),
    ("PENTAX K-1 Mark II ", 0x4002e),
    ("PENTAX K-30        ", 0x40015),
    ("PENTAX K-5         ", 0x40039),
    ("PENTAX K-5 II      ", 0x40032),
    ("PENTAX K-5 II s    ", 0x40016),
    ("PENTAX K-50        ", 0x4001b),
    ("PENTAX K-500       ", 0x4001c),
    ("PENTAX K-3         ", 0x4001a),
    ("PENTAX K-3 II      ", 0x40020),
    ("PENTAX K-3 Mark III             ", 0x40037),
    ("PENTAX K-3 Mark III Monochrome                                  ", 0x4003b),
    ("PENTAX K-7         ", 0x4002f),
    ("PENTAX K-70        ", 0x40024),
    ("PENTAX K-S1        ", 0x40026),
    ("PENTAX K-S2        ", 0x40028),
    ("PENTAX KP          ", 0x4002c),
    ("PENTAX MX-1            ", 0x40017),
    ("R9 - Digital Back DMR", 0x30001),
    ("M8 Digital Camera", 0x30002),
    ("M9 Digital Camera", 0x30007),
    ("M Monochrom", 0x30009),
    ("LEICA D-Lux 8", 0x3002c),
    ("LEICA M (Typ 240)", 0x3000b),
    ("LEICA M MONOCHROM (Typ 246)", 0x30022),
    ("LEICA M10", 0x30010),
    ("LEICA M10-P", 0x30017),
    ("LEICA M10-D", 0x30018),
    ("LEICA M10-R", 0x30021),
    ("LEICA M10 MONOCHROM", 0x30020),
    ("LEICA M11", 0x30026),
    ("LEICA M11 Monochrom", 0x30029),
    ("LEICA X1               ", 0x30003),
    ("LEICA X2", 0x3000a),
    ("Leica S2", 0x30008),
    ("LEICA X VARIO (Typ 107)", 0x3000c),
    ("LEICA X (Typ 113)", 0x3000f),
    ("LEICA SL (Typ 601)", 0x30011),
    ("LEICA SL2", 0x3001f),
    ("LEICA SL3", 0x3002b),
    ("LEICA T (Typ 701)", 0x3000d),
    ("LEICA TL2", 0x30019),
    ("LEICA Q (Typ 116)", 0x3000e),
    ("LEICA Q2", 0x3001e),
    ("LEICA Q3", 0x3002a),
    ("LEICA Q3 43", 0x3002d),
    ("LEICA CL", 0x30014),
    ("LEICA SL2-S", 0x30024),
    ("LEICA Q2 MONO", 0x30025),
];
pub const PENTAX: &[(&str, u32)] = &[
    ("PENTAX *ist D      ", 0x40003),
    ("PENTAX *ist DL     ", 0x40004),
    ("PENTAX *ist DL2    ", 0x40030),
    ("PENTAX *ist DS     ", 0x4001e),
    ("PENTAX K10D        ", 0x40001),
    ("PENTAX K100D       ", 0x40005),
    ("PENTAX K100D Super ", 0x40006),
    ("PENTAX K110D       ", 0x40035),
    ("PENTAX K20D        ", 0x40007),
    ("PENTAX K200D       ", 0x4001d),
    ("PENTAX K2000       ", 0x40038),
    ("PENTAX K-1         ", 0x40021),
    ("PENTAX K-1 Mark II ", 0x4002d),
    ("PENTAX K-r         ", 0x40008),
    ("PENTAX K-3         ", 0x40033),
    ("PENTAX K-3 II      ", 0x40034),
    ("PENTAX K-3 Mark III             ", 0x40036),
    ("PENTAX K-5         ", 0x4000a),
    ("PENTAX K-5 II      ", 0x40031),
    ("PENTAX K-5 II s    ", 0x4001f),
    ("PENTAX K-7         ", 0x4000b),
    ("PENTAX K-70        ", 0x40023),
    ("PENTAX K-S1        ", 0x40025),
    ("PENTAX K-S2        ", 0x40027),
    ("PENTAX K-m         ", 0x40011),
    ("PENTAX K-x         ", 0x40009),
    ("PENTAX KP          ", 0x4002b),
    ("PENTAX 645D        ", 0x4000c),
];
pub const PENTAX_IDS: &[(u32, u32)] = &[
    (0x12994, 0x40003),
    (0x12aa2, 0x4001e),
    (0x12b1a, 0x40004),
    (0x12b7e, 0x40030),
    (0x12b9c, 0x40005),
    (0x12b9d, 0x40035),
    (0x12ba2, 0x40006),
    (0x12c1e, 0x40001),
    (0x12cd2, 0x40007),
    (0x12cfa, 0x4001d),
    (0x12d72, 0x40038),
    (0x12d73, 0x40011),
    (0x12db8, 0x4000b),
    (0x12dfe, 0x40009),
    (0x12e08, 0x4000c),
    (0x12e6c, 0x40008),
    (0x12e76, 0x4000a),
    (0x12f70, 0x40031),
    (0x12f71, 0x4001f),
    (0x12fc0, 0x40033),
    (0x1301a, 0x40025),
    (0x13024, 0x40027),
    (0x13092, 0x40021),
    (0x1309c, 0x40034),
    (0x13222, 0x40023),
    (0x1322c, 0x4002b),
    (0x13240, 0x4002d),
    (0x13254, 0x40036),
];
pub const SONY: &[(&str, u32)] = &[
    ("Lunar", 0x140001),
    ("DSLR-A100", 0x80001),
    ("DSLR-A200", 0x80002),
    ("DSLR-A230", 0x8003d),
    ("DSLR-A290", 0x80043),
    ("DSLR-A300", 0x80056),
    ("DSLR-A330", 0x80015),
    ("DSLR-A350", 0x80055),
    ("DSLR-A380", 0x80005),
    ("DSLR-A390", 0x80005),
    ("DSLR-A450", 0x80016),
    ("DSLR-A500", 0x8003e),
    ("DSLR-A550", 0x80004),
    ("DSLR-A560", 0x8001c),
    ("DSLR-A580", 0x80017),
    ("DSLR-A700", 0x80003),
    ("DSLR-A850", 0x80018),
    ("DSLR-A900", 0x80019),
    ("SLT-A33", 0x8001b),
    ("SLT-A35", 0x8001a),
    ("SLT-A37", 0x8003f),
    ("SLT-A55V", 0x80007),
    ("SLT-A57", 0x8002c),
    ("SLT-A58", 0x80037),
    ("SLT-A65V", 0x80013),
    ("SLT-A77V", 0x80008),
    ("SLT-A99V", 0x8001d),
    ("NEX-3", 0x80009),
    ("NEX-3N", 0x8000a),
    ("NEX-5", 0x8000b),
    ("NEX-5N", 0x8000c),
    ("NEX-5R", 0x8000d),
    ("NEX-5T", 0x8000e),
    ("NEX-C3", 0x80011),
    ("NEX-F3", 0x80012),
    ("NEX-6", 0x8000f),
    ("NEX-7", 0x80010),
    ("DSC-HX95", 0x80059),
    ("DSC-HX99", 0x80045),
    ("DSC-R1", 0x8004e),
    ("DSC-RX10", 0x80026),
    ("DSC-RX10M2", 0x80027),
    ("DSC-RX10M3", 0x80028),
    ("DSC-RX10M4", 0x8002a),
    ("DSC-RX100", 0x8001e),
    ("DSC-RX100M2", 0x8001f),
    ("DSC-RX100M3", 0x80020),
    ("DSC-RX100M4", 0x80021),
    ("DSC-RX100M5", 0x80022),
    ("DSC-RX100M5A", 0x80044),
    ("DSC-RX100M6", 0x80023),
    ("DSC-RX100M7", 0x80049),
    ("DSC-RX0", 0x8002b),
    ("DSC-RX0M2", 0x80047),
    ("DSC-RX1", 0x80024),
    ("DSC-RX1R", 0x80025),
    ("DSC-RX1RM2", 0x80029),
    ("ILCA-68", 0x80041),
    ("ILCA-77M2", 0x80040),
    ("ILCA-99M2", 0x80039),
    ("ILCE-1", 0x80052),
    ("ILCE-1M2", 0x80062),
    ("ILCE-3000", 0x80036),
    ("ILCE-3500", 0x80036),
    ("ILCE-5000", 0x80042),
    ("ILCE-5100", 0x8003c),
    ("ILCE-6000", 0x80038),
    ("ILCE-6100", 0x8004a),
    ("ILCE-6300", 0x8003a),
    ("ILCE-6400", 0x80046),
    ("ILCE-6500", 0x8003b),
    ("ILCE-6600", 0x8004b),
    ("ILCE-6700", 0x8005d),
    ("ILCE-7", 0x8002d),
    ("ILCE-7C", 0x80050),
    ("ILCE-7M2", 0x8002e),
    ("ILCE-7M3", 0x8002f),
    ("ILCE-7M4", 0x80053),
    ("ILCE-7R", 0x80030),
    ("ILCE-7RM2", 0x80031),
    ("ILCE-7RM3", 0x80032),
    ("ILCE-7RM3A", 0x80057),
    ("ILCE-7RM4", 0x80048),
    ("ILCE-7RM4A", 0x80058),
    ("ILCE-7RM5", 0x8005a),
    ("ILCE-7S", 0x80033),
    ("ILCE-7SM2", 0x80034),
    ("ILCE-7SM3", 0x8004f),
    ("ILCE-9", 0x80035),
    ("ILCE-9M2", 0x8004c),
    ("ILCE-9M3", 0x80060),
    ("ILME-FX3", 0x8005f),
    ("ILME-FX30", 0x8005c),
    ("ZV-1", 0x8004d),
    ("ZV-1M2", 0x8005e),
    ("ZV-E1", 0x8005b),
    ("ZV-E10", 0x80051),
    ("ZV-E10M2", 0x80061),
    ("UMC-R10C", 0x80054),
];
pub const SONY_IDS: &[(u32, u32)] = &[
    (0x2, 0x8004e),
    (0x100, 0x80001),
    (0x101, 0x80019),
    (0x102, 0x80003),
    (0x103, 0x80002),
    (0x104, 0x80055),
    (0x105, 0x80056),
    (0x107, 0x80005),
    (0x108, 0x80015),
    (0x109, 0x8003d),
    (0x10a, 0x80043),
    (0x10d, 0x80018),
    (0x111, 0x80004),
    (0x112, 0x8003e),
    (0x113, 0x80016),
    (0x116, 0x8000b),
    (0x117, 0x80009),
    (0x118, 0x8001b),
    (0x119, 0x80007),
    (0x11a, 0x8001c),
    (0x11b, 0x80017),
    (0x11c, 0x80011),
    (0x11d, 0x8001a),
    (0x11e, 0x80013),
    (0x11f, 0x80008),
    (0x120, 0x8000c),
    (0x121, 0x80010),
    (0x123, 0x8003f),
    (0x124, 0x8002c),
    (0x125, 0x80012),
    (0x126, 0x8001d),
    (0x127, 0x8000f),
    (0x128, 0x8000d),
    (0x129, 0x8001e),
    (0x12a, 0x80024),
    (0x12e, 0x80036),
    (0x12f, 0x80037),
    (0x131, 0x8000a),
    (0x132, 0x8002d),
    (0x133, 0x8000e),
    (0x134, 0x8001f),
    (0x135, 0x80026),
    (0x136, 0x80025),
    (0x137, 0x80030),
    (0x138, 0x80038),
    (0x139, 0x80042),
    (0x13d, 0x80020),
    (0x13e, 0x80033),
    (0x13f, 0x80040),
    (0x153, 0x8003c),
    (0x154, 0x8002e),
    (0x155, 0x80021),
    (0x156, 0x80027),
    (0x158, 0x80029),
    (0x15a, 0x80054),
    (0x15b, 0x80031),
    (0x15e, 0x80034),
    (0x161, 0x80041),
    (0x162, 0x80039),
    (0x163, 0x80028),
    (0x164, 0x80022),
    (0x165, 0x8003a),
    (0x166, 0x80035),
    (0x168, 0x8003b),
    (0x16a, 0x80032),
    (0x16b, 0x8002f),
    (0x16c, 0x8002b),
    (0x16d, 0x8002a),
    (0x16e, 0x80023),
    (0x16f, 0x80045),
    (0x171, 0x80044),
    (0x173, 0x80046),
    (0x174, 0x80047),
    (0x175, 0x80059),
    (0x176, 0x80049),
    (0x177, 0x80048),
    (0x178, 0x8004c),
    (0x17a, 0x8004b),
    (0x17b, 0x8004a),
    (0x17c, 0x8004d),
    (0x17d, 0x80050),
    (0x17e, 0x80051),
    (0x17f, 0x8004f),
    (0x180, 0x80052),
    (0x181, 0x8005f),
    (0x182, 0x80057),
    (0x183, 0x80058),
    (0x184, 0x80053),
    (0x186, 0x8005a),
    (0x187, 0x8005c),
    (0x188, 0x80060),
    (0x189, 0x8005b),
    (0x18a, 0x8005d),
    (0x18b, 0x8005e),
    (0x18f, 0x80061),
    (0x190, 0x80062),
];
pub const PANASONIC: &[(&str, u32)] = &[
    ("DMC-CM1", 0xb002f),
    ("DMC-GF1", 0xb0001),
    ("DMC-GF2", 0xb0002),
    ("DMC-GF3", 0xb0012),
    ("DMC-GF5", 0xb0017),
    ("DMC-GF6", 0xb001b),
    ("DMC-GF7", 0xb002e),
    ("DMC-GF8", 0xb0055),
    ("DC-GF10", 0xb0044),
    ("DMC-GX1", 0xb0014),
    ("DMC-GX7", 0xb001c),
    ("DMC-GX7MK2", 0xb003b),
    ("DC-GX7MK3", 0xb0030),
    ("DMC-GX8", 0xb0024),
    ("DMC-GX80", 0xb0026),
    ("DMC-GX85", 0xb0026),
    ("DC-GX800", 0xb0031),
    ("DC-GX850", 0xb0028),
    ("DC-GX880", 0xb0044),
    ("DC-GX9", 0xb0030),
    ("DMC-FX150", 0xb0059),
    ("DMC-FZ8", 0xb000a),
    ("DMC-FZ1000", 0xb0041),
    ("DC-FZ10002", 0xb0042),
    ("DC-FZ1000M2", 0xb0042),
    ("DMC-FZ18", 0xb000b),
    ("DMC-FZ150", 0xb0038),
    ("DMC-FZ28", 0xb0011),
    ("DMC-FZ30", 0xb0003),
    ("DMC-FZ300", 0xb0050),
    ("DMC-FZ35", 0xb0039),
    ("DMC-FZ38", 0xb0039),
    ("DMC-FZ40", 0xb003d),
    ("DMC-FZ45", 0xb003d),
    ("DC-FZ45", 0xb0035),
    ("DMC-FZ50", 0xb000c),
    ("DMC-FZ70", 0xb0051),
    ("DMC-FZ72", 0xb0051),
    ("DMC-FZ100", 0xb0013),
    ("DMC-FZ200", 0xb001a),
    ("DMC-FZ2500", 0xb0023),
    ("DMC-FZ2000", 0xb0023),
    ("DMC-FZ330", 0xb002a),
    ("DC-FZ80", 0xb0029),
    ("DC-FZ82", 0xb0029),
    ("DMC-G1", 0xb000e),
    ("DMC-G2", 0xb000f),
    ("DMC-G3", 0xb0015),
    ("DMC-G5", 0xb0016),
    ("DMC-G6", 0xb004d),
    ("DMC-G7", 0xb004b),
    ("DMC-G70", 0xb004b),
    ("DMC-G10", 0xb0004),
    ("DMC-G80", 0xb0021),
    ("DMC-G81", 0xb004e),
    ("DC-G9", 0xb0034),
    ("DC-G9M2", 0xb0058),
    ("DC-G90", 0xb0045),
    ("DC-G91", 0xb0045),
    ("DC-G95", 0xb0040),
    ("DC-G95D", 0xb0045),
    ("DC-G99", 0xb0045),
    ("DC-G100", 0xb0047),
    ("DC-G100D", 0xb005a),
    ("DC-G110", 0xb0047),
    ("DMC-GH1", 0xb0005),
    ("DMC-GH2", 0xb0006),
    ("DMC-GH3", 0xb0019),
    ("DMC-GH4", 0xb001e),
    ("DC-GH5", 0xb0027),
    ("DC-GH5S", 0xb0036),
    ("DC-GH5M2", 0xb0049),
    ("DC-GH6", 0xb004a),
    ("DC-GH7", 0xb005b),
    ("DMC-GM1", 0xb001d),
    ("DMC-GM1S", 0xb001d),
    ("DMC-GM5", 0xb0020),
    ("DMC-LF1", 0xb004f),
    ("DMC-LX1", 0xb0037),
    ("DMC-LX2", 0xb0007),
    ("DMC-LX3", 0xb0008),
    ("DMC-LX5", 0xb0009),
    ("DMC-LX7", 0xb0018),
    ("DMC-LX10", 0xb0022),
    ("DMC-LX15", 0xb0022),
    ("DMC-LX100", 0xb001f),
    ("DC-LX100M2", 0xb003c),
    ("DMC-L1", 0xb000d),
    ("DMC-L10", 0xb0010),
    ("DC-S1", 0xb003e),
    ("DC-S1R", 0xb003f),
    ("DC-S1RM2", 0xb005c),
    ("DC-S1H", 0xb0046),
    ("DC-S5", 0xb0048),
    ("DC-S5M2", 0xb0054),
    ("DC-S5M2X", 0xb0056),
    ("DC-S9", 0xb0057),
    ("DMC-TZ70", 0xb002b),
    ("DMC-ZS60", 0xb002c),
    ("DMC-TZ80", 0xb002c),
    ("DMC-TZ81", 0xb002c),
    ("DMC-ZS100", 0xb0025),
    ("DMC-TX1", 0xb0025),
    ("DMC-TZ100", 0xb0025),
    ("DMC-TZ101", 0xb0025),
    ("DMC-TZ110", 0xb0025),
    ("DC-ZS200", 0xb003a),
    ("DC-TZ202", 0xb003a),
    ("DC-ZS80", 0xb0043),
    ("DC-ZS200D", 0xb003a),
    ("DC-TZ95", 0xb0043),
    ("DC-TZ96", 0xb0043),
    ("DMC-ZS40", 0xb004c),
    ("DMC-TZ60", 0xb004c),
    ("DMC-TZ61", 0xb004c),
    ("DMC-TZ71", 0xb0052),
    ("DMC-TZ90", 0xb0053),
    ("DIGILUX 2", 0x30004),
    ("DIGILUX 3", 0x30027),
    ("D-LUX 3", 0x30005),
    ("D-LUX 4", 0x30023),
    ("D-LUX 5", 0x3001a),
    ("D-LUX 6", 0x30028),
    ("D-Lux 7", 0x3001b),
    ("V-LUX 1", 0x30006),
    ("D-LUX (Typ 109)", 0x30012),
    ("V-LUX 4", 0x30013),
    ("V-Lux 5", 0x3001d),
    ("V-LUX (Typ 114)", 0x30015),
    ("C-Lux", 0x30016),
    ("C (Typ 112)", 0x3001c),
];
pub const CANON: &[(&str, u32)] = &[
    ("Canon EOS-1D", 0x10008),
    ("Canon EOS-1DS", 0x1000b),
    ("Canon EOS DIGITAL REBEL", 0x1000e),
    ("Canon EOS 300D DIGITAL", 0x1000e),
    ("Canon PowerShot G1", 0x10013),
    ("Canon PowerShot G2", 0x10014),
    ("Canon PowerShot G3", 0x10015),
    ("Canon PowerShot G5", 0x10016),
    ("Canon PowerShot G6", 0x10017),
    ("Canon PowerShot Pro1", 0x10012),
    ("Canon PowerShot Pro70", 0x1006e),
    ("Canon PowerShot Pro90 IS", 0x1006f),
    ("Canon PowerShot S30", 0x10067),
    ("Canon PowerShot S40", 0x10068),
    ("Canon PowerShot S45", 0x10069),
    ("Canon PowerShot S50", 0x1006a),
    ("Canon PowerShot S60", 0x1006b),
    ("Canon PowerShot S70", 0x1006c),
    ("Canon EOS-1D Mark II", 0x10009),
    ("Canon EOS-1D Mark II N", 0x1005b),
    ("Canon EOS-1D Mark III", 0x1000a),
    ("Canon EOS-1D Mark IV", 0x1001e),
    ("Canon EOS-1Ds Mark II", 0x1000c),
    ("Canon EOS-1Ds Mark III", 0x1000d),
    ("Canon EOS-1D X", 0x1002d),
    ("Canon EOS-1D X Mark II", 0x10047),
    ("Canon EOS 20D", 0x10001),
    ("Canon EOS 20Da", 0x1001b),
    ("Canon EOS 30D", 0x10002),
    ("Canon EOS 350D DIGITAL", 0x10004),
    ("Canon EOS DIGITAL REBEL XT", 0x10004),
    ("Canon EOS Kiss Digital N", 0x10004),
    ("Canon EOS 40D", 0x10003),
    ("Canon EOS 400D DIGITAL", 0x10005),
    ("Canon EOS 450D", 0x10006),
    ("Canon EOS DIGITAL REBEL XSi", 0x10006),
    ("Canon EOS 50D", 0x10024),
    ("Canon EOS 500D", 0x1001f),
    ("Canon EOS 550D", 0x10021),
    ("Canon EOS REBEL T2i", 0x10021),
    ("Canon EOS 600D", 0x10028),
    ("Canon EOS REBEL T3i", 0x10028),
    ("Canon EOS 60D", 0x10024),
    ("Canon EOS 650D", 0x1002f),
    ("Canon EOS REBEL T4i", 0x1002f),
    ("Canon EOS 70D", 0x10038),
    ("Canon EOS 700D", 0x10036),
    ("Canon EOS 750D", 0x1003c),
    ("Canon EOS 760D", 0x1003d),
    ("Canon EOS 80D", 0x10048),
    ("Canon EOS 800D", 0x1004c),
    ("Canon EOS REBEL T1i", 0x1001f),
    ("Canon EOS Rebel T5", 0x10049),
    ("Canon EOS REBEL T5i", 0x10036),
    ("Canon EOS Rebel T6i", 0x1003c),
    ("Canon EOS Rebel T6s", 0x1003d),
    ("Canon EOS Rebel T6", 0x10045),
    ("Canon EOS Rebel T7i", 0x1004c),
    ("Canon EOS Rebel T7", 0x10058),
    ("Canon EOS 1000D", 0x10022),
    ("Canon EOS 2000D", 0x10058),
    ("Canon EOS DIGITAL REBEL XS", 0x10022),
    ("Canon EOS 1100D", 0x10029),
    ("Canon EOS 1200D", 0x10049),
    ("Canon EOS 1300D", 0x10045),
    ("Canon EOS REBEL T3", 0x10029),
    ("Canon EOS 100D", 0x10035),
    ("Canon EOS REBEL SL1", 0x10035),
    ("Canon EOS 200D", 0x10051),
    ("Canon EOS Rebel SL2", 0x10051),
    ("Canon EOS 4000D", 0x1005a),
    ("Canon EOS 5D", 0x10007),
    ("Canon EOS 5D Mark II", 0x10020),
    ("Canon EOS 5D Mark III", 0x1002c),
    ("Canon EOS 5D Mark IV", 0x10041),
    ("Canon EOS 5DS", 0x10053),
    ("Canon EOS 5DS R", 0x1003e),
    ("Canon EOS 6D", 0x10031),
    ("Canon EOS 6D Mark II", 0x10050),
    ("Canon EOS 7D", 0x1001c),
    ("Canon EOS 7D Mark II", 0x10039),
    ("Canon EOS 77D", 0x1004d),
    ("Canon EOS Kiss X3", 0x1001f),
    ("Canon EOS M", 0x10032),
    ("Canon EOS M10", 0x1004b),
    ("Canon EOS M100", 0x1004f),
    ("Canon EOS M2", 0x10071),
    ("Canon EOS M3", 0x10046),
    ("Canon EOS M5", 0x10042),
    ("Canon EOS M6", 0x1004e),
    ("Canon PowerShot G9", 0x10019),
    ("Canon PowerShot G10", 0x10023),
    ("Canon PowerShot G11", 0x1001d),
    ("Canon PowerShot G12", 0x10026),
    ("Canon PowerShot G15", 0x10030),
    ("Canon PowerShot G16", 0x10037),
    ("Canon PowerShot G1 X", 0x1002a),
    ("Canon PowerShot G1 X Mark II", 0x1003b),
    ("Canon PowerShot G1 X Mark III", 0x10052),
    ("Canon PowerShot G3 X", 0x1003f),
    ("Canon PowerShot G5 X", 0x10043),
    ("Canon PowerShot G7 X", 0x1003a),
    ("Canon PowerShot G7 X Mark II", 0x10044),
    ("Canon PowerShot G9 X", 0x1004a),
    ("Canon PowerShot G9 X Mark II", 0x10040),
    ("Canon PowerShot S90", 0x10025),
    ("Canon PowerShot S95", 0x10027),
    ("Canon PowerShot S100", 0x1002b),
    ("Canon PowerShot S100V", 0x1006d),
    ("Canon PowerShot S110", 0x10034),
    ("Canon PowerShot S120", 0x10056),
    ("Canon PowerShot SX1 IS", 0x10055),
    ("Canon PowerShot SX50 HS", 0x10033),
    ("Canon PowerShot SX60 HS", 0x10057),
    ("Canon EOS M50", 0x10054),
    ("Canon EOS M50 Mark II", 0x10072),
    ("Canon EOS M200", 0x10063),
    ("Canon EOS R", 0x10059),
    ("Canon EOS RP", 0x1005d),
    ("Canon EOS R3", 0x10073),
    ("Canon EOS R5", 0x10065),
    ("Canon EOS R6", 0x10066),
    ("Canon EOS R6 m2", 0x10076),
    ("Canon EOS R7", 0x10074),
    ("Canon EOS R8", 0x10077),
    ("Canon EOS R10", 0x10075),
    ("Canon EOS R100", 0x10079),
    ("Canon EOS R50", 0x10078),
    ("Canon EOS 250D", 0x1005e),
    ("Canon EOS Rebel SL3", 0x1005e),
    ("Canon EOS 850D", 0x10070),
    ("Canon EOS Rebel T8i", 0x10070),
    ("Canon PowerShot SX70 HS", 0x1005c),
    ("Canon PowerShot G5 X Mark II", 0x10060),
    ("Canon PowerShot G7 X Mark III", 0x1005f),
    ("Canon EOS-1D X Mark III", 0x10064),
    ("Canon EOS M6 Mark II", 0x10061),
    ("Canon EOS 90D", 0x10062),
    ("Canon EOS R1", 0x1007b),
    ("Canon EOS R5m2", 0x1007a),
];
pub const CANON_IDS: &[(u32, u32)] = &[
    (0x1100000, 0x10014),
    (0x1110000, 0x10068),
    (0x1120000, 0x10067),
    (0x1140000, 0x1000f),
    (0x1190000, 0x10015),
    (0x1210000, 0x10069),
    (0x1290000, 0x10016),
    (0x1310000, 0x1006a),
    (0x1370000, 0x10012),
    (0x1380000, 0x1006c),
    (0x1390000, 0x1006b),
    (0x1400000, 0x10017),
    (0x1668000, 0x10010),
    (0x3010000, 0x1006f),
    (0x4040000, 0x10013),
    (0x80000168, 0x10011),
    (0x80000170, 0x1000e),
    (0x80000001, 0x10008),
    (0x80000167, 0x1000b),
    (0x80000174, 0x10009),
    (0x80000175, 0x10001),
    (0x80000188, 0x1000c),
    (0x80000189, 0x10004),
    (0x80000213, 0x10007),
    (0x80000232, 0x1005b),
    (0x80000234, 0x10002),
    (0x80000236, 0x10005),
    (0x80000169, 0x1000a),
    (0x80000190, 0x10003),
    (0x80000215, 0x1000d),
    (0x2230000, 0x10019),
    (0x80000176, 0x10006),
    (0x80000254, 0x10022),
    (0x80000261, 0x10024),
    (0x2490000, 0x10023),
    (0x80000218, 0x10020),
    (0x2460000, 0x10055),
    (0x80000252, 0x1001f),
    (0x2700000, 0x1001d),
    (0x2720000, 0x10025),
    (0x80000250, 0x1001c),
    (0x80000281, 0x1001e),
    (0x80000270, 0x10021),
    (0x2950000, 0x10027),
    (0x80000287, 0x10024),
    (0x2920000, 0x10026),
    (0x80000286, 0x10028),
    (0x80000288, 0x10029),
    (0x3110000, 0x1002b),
    (0x80000269, 0x1002d),
    (0x3080000, 0x1002a),
    (0x80000285, 0x1002c),
    (0x80000301, 0x1002f),
    (0x80000331, 0x10032),
    (0x3320000, 0x1006d),
    (0x3360000, 0x10034),
    (0x3330000, 0x10030),
    (0x3340000, 0x10033),
    (0x80000302, 0x10031),
    (0x80000326, 0x10036),
    (0x80000346, 0x10035),
    (0x80000325, 0x10038),
    (0x3540000, 0x10037),
    (0x3550000, 0x10056),
    (0x80000355, 0x10071),
    (0x80000327, 0x10049),
    (0x3640000, 0x1003b),
    (0x80000289, 0x10039),
    (0x3780000, 0x1003a),
    (0x3750000, 0x10057),
    (0x80000382, 0x10053),
    (0x80000401, 0x1003e),
    (0x80000393, 0x1003c),
    (0x80000347, 0x1003d),
    (0x3740000, 0x10046),
    (0x3850000, 0x1003f),
    (0x3950000, 0x10043),
    (0x3930000, 0x1004a),
    (0x3840000, 0x1004b),
    (0x80000328, 0x10047),
    (0x80000350, 0x10048),
    (0x3970000, 0x10044),
    (0x80000404, 0x10045),
    (0x80000349, 0x10041),
    (0x3940000, 0x10042),
    (0x4100000, 0x10040),
    (0x80000405, 0x1004c),
    (0x80000408, 0x1004d),
    (0x4070000, 0x1004e),
    (0x80000417, 0x10051),
    (0x80000406, 0x10050),
    (0x3980000, 0x1004f),
    (0x4180000, 0x10052),
    (0x80000432, 0x10058),
    (0x80000422, 0x1005a),
    (0x412, 0x10054),
    (0x80000424, 0x10059),
    (0x80000433, 0x1005d),
    (0x80000421, 0x10065),
    (0x80000453, 0x10066),
    (0x80000436, 0x1005e),
    (0x804, 0x10060),
    (0x805, 0x1005c),
    (0x808, 0x1005f),
    (0x80000437, 0x10062),
    (0x811, 0x10061),
    (0x812, 0x10063),
    (0x80000428, 0x10064),
    (0x80000435, 0x10070),
    (0x80000468, 0x10072),
    (0x80000450, 0x10073),
    (0x80000464, 0x10074),
    (0x80000465, 0x10075),
    (0x80000480, 0x10078),
    (0x80000481, 0x10076),
    (0x80000487, 0x10077),
    (0x80000498, 0x10079),
    (0x80000495, 0x1007b),
    (0x80000496, 0x1007a),
];

//! Model names and built-in colour tables.

/// identifier, black, white, matrix in 1/10000
pub type Mat = (u32, u16, u16, [i16; 9]);

pub const CANON_M: &[Mat] = &[
    (0x1000f, 0, 0, [9805, -2689, -1312, -5803, 13064, 3068, -2438, 3075, 8775]),
    (0x10010, 0, 4000, [6188, -1341, -890, -7168, 14489, 2937, -2640, 3228, 8483]),
    (0x10011, 0, 4000, [8197, -2000, -1118, -6714, 14335, 2592, -2536, 3178, 8266]),
    (0x1000e, 0, 4000, [8197, -2000, -1118, -6714, 14335, 2592, -2536, 3178, 8266]),
    (0x10014, 0, 0, [9087, -2693, -1049, -6715, 14382, 2537, -2291, 2819, 7790]),
    (0x10015, 0, 0, [9212, -2781, -1073, -6573, 14189, 2605, -2300, 2844, 7664]),
    (0x10016, 0, 0, [9757, -2872, -933, -5972, 13861, 2301, -1622, 2328, 7212]),
    (0x10017, 0, 0, [9877, -3775, -871, -7613, 14807, 3072, -1448, 1305, 7485]),
    (0x10012, 0, 0, [10062, -3522, -999, -7643, 15117, 2730, -765, 817, 7323]),
    (0x10067, 31, 0, [10566, -3652, -1129, -6552, 14662, 2006, -2197, 2581, 7670]),
    (0x10068, 0, 0, [8510, -2487, -940, -6869, 14231, 2900, -2318, 2829, 9013]),
    (0x10069, 129, 0, [8163, -2333, -955, -6682, 14174, 2751, -2077, 2597, 8041]),
    (0x1006a, 129, 0, [8882, -2571, -863, -6348, 14234, 2288, -1516, 2172, 6569]),
    (0x1006b, 129, 0, [8795, -2482, -797, -7804, 15403, 2573, -1422, 1996, 7082]),
    (0x1006c, 129, 0, [9976, -3810, -832, -7115, 14463, 2906, -901, 989, 7889]),
    (0x1000b, 0, 3616, [4374, 3631, -1743, -7520, 15212, 2472, -2892, 3632, 8161]),
    (0x10008, 0, 3616, [6806, -179, -1020, -8097, 16415, 1687, -3267, 4236, 7690]),
    (0x10009, 127, 3712, [6264, -582, -724, -8312, 15948, 2504, -1744, 1919, 8664]),
    (0x1005b, 0, 3712, [6240, -466, -822, -8180, 15825, 2500, -1801, 1938, 8042]),
    (0x1000a, 1023, 3712, [6291, -540, -976, -8350, 16145, 2311, -1714, 1858, 7326]),
    (0x1001e, 0, 15280, [6014, -220, -795, -4109, 12014, 2361, -561, 1824, 5787]),
    (0x1000c, 126, 3712, [6517, -602, -867, -8180, 15926, 2378, -1618, 1771, 7633]),
    (0x1000d, 0, 15280, [5859, -211, -930, -8255, 16017, 2353, -1732, 1887, 7448]),
    (0x1002d, 0, 15438, [6847, -614, -1014, -4669, 12737, 2139, -1197, 2488, 6846]),
    (0x10047, 0, 15438, [7596, -978, -967, -4808, 12571, 2503, -1398, 2567, 5752]),
    (0x10001, 126, 4095, [6599, -537, -891, -8071, 15783, 2424, -1983, 2234, 7462]),
    (0x1001b, 0, 0, [14155, -5065, -1382, -6550, 14633, 2039, -1623, 1824, 6561]),
    (0x10002, 0, 0, [6257, -303, -1000, -7880, 15621, 2396, -1714, 1904, 7046]),
    (0x10004, 255, 4095, [6018, -617, -965, -8645, 15881, 2975, -1530, 1719, 7642]),
    (0x10003, 1021, 16224, [6071, -747, -856, -7653, 15365, 2441, -2025, 2553, 7315]),
    (0x10005, 0, 3726, [7054, -1501, -990, -8156, 15544, 2812, -1278, 1414, 7796]),
    (0x10006, 0, 14605, [5784, -262, -821, -7539, 15064, 2672, -1982, 2681, 7427]),
    (0x10024, 0, 15763, [4920, 616, -593, -6493, 13964, 2784, -1774, 3178, 7005]),
    (0x1001f, 0, 13433, [4763, 712, -646, -6821, 14399, 2640, -1921, 3276, 6561]),
    (0x10021, 0, 15831, [6941, -1164, -857, -3825, 11597, 2534, -416, 1540, 6039]),
    (0x10028, 0, 13584, [6461, -907, -882, -4300, 12184, 2378, -819, 1944, 5931]),
    (0x10024, 0, 12279, [6719, -994, -925, -4408, 12426, 2211, -887, 2129, 6051]),
    (0x1002f, 0, 13645, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    (0x10036, 0, 15360, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    (0x10048, 0, 0, [7457, -671, -937, -4849, 12495, 2643, -1213, 2354, 5492]),
    (0x1004c, 0, 0, [6970, -512, -968, -4425, 12161, 2553, -739, 1982, 5601]),
    (0x10035, 0, 13583, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    (0x10051, 0, 13583, [7377, -742, -998, -4235, 11981, 2549, -673, 1918, 5538]),
    (0x10022, 0, 3651, [6771, -1139, -977, -7818, 15123, 2928, -1244, 1437, 7533]),
    (0x10029, 0, 13584, [6444, -904, -893, -4563, 12308, 2535, -903, 2016, 6728]),
    (0x10035, 0, 14342, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    (0x10049, 0, 14274, [6461, -907, -882, -4300, 12184, 2378, -819, 1944, 5931]),
    (0x10045, 0, 13584, [6939, -1016, -866, -4428, 12473, 2177, -1175, 2178, 6162]),
    (0x10058, 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    (0x1005a, 0, 0, [6939, -1016, -866, -4428, 12473, 2177, -1175, 2178, 6162]),
    (0x10007, 0, 3692, [6347, -479, -972, -8297, 15954, 2480, -1968, 2131, 7649]),
    (0x10020, 0, 15600, [4716, 603, -830, -7798, 15474, 2480, -1496, 1937, 6651]),
    (0x1002c, 0, 0, [6722, -635, -963, -4287, 12460, 2028, -908, 2162, 5668]),
    (0x10041, 0, 15280, [6014, -220, -795, -4109, 12014, 2361, -561, 1824, 5787]),
    (0x10053, 0, 3692, [6250, -711, -808, -5153, 12794, 2636, -1249, 2198, 5610]),
    (0x1003e, 0, 3692, [6250, -711, -808, -5153, 12794, 2636, -1249, 2198, 5610]),
    (0x10031, 0, 15490, [7034, -804, -1014, -4420, 12564, 2058, -851, 1994, 5758]),
    (0x10050, 0, 0, [6875, -970, -932, -4691, 12459, 2501, -874, 1953, 5809]),
    (0x1001c, 0, 13584, [6844, -996, -856, -3876, 11761, 2396, -593, 1772, 6198]),
    (0x10039, 0, 13584, [7268, -1082, -969, -4186, 11839, 2663, -825, 2029, 5839]),
    (0x10038, 0, 15303, [7034, -804, -1014, -4420, 12564, 2058, -851, 1994, 5758]),
    (0x1003c, 0, 13966, [6362, -823, -847, -4426, 12109, 2616, -743, 1857, 5635]),
    (0x1003d, 0, 13583, [6362, -823, -847, -4426, 12109, 2616, -743, 1857, 5635]),
    (0x1004d, 0, 0, [7377, -742, -998, -4235, 11981, 2549, -673, 1918, 5538]),
    (0x10032, 0, 0, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    (0x10071, 0, 0, [6400, -480, -888, -5294, 13416, 2047, -1296, 2203, 6137]),
    (0x10046, 0, 0, [6362, -823, -847, -4426, 12109, 2616, -743, 1857, 5635]),
    (0x10042, 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    (0x1004e, 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    (0x1004b, 0, 0, [6400, -480, -888, -5294, 13416, 2047, -1296, 2203, 6137]),
    (0x1004f, 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    (0x10019, 0, 0, [7368, -2141, -598, -5621, 13254, 2625, -1418, 1696, 5743]),
    (0x10023, 0, 0, [11093, -3906, -1028, -5047, 12492, 2879, -1003, 1750, 5561]),
    (0x1001d, 120, 4095, [12177, -4817, -1069, -1612, 9864, 2049, -98, 850, 4471]),
    (0x10026, 0, 0, [13244, -5501, -1248, -1508, 9858, 1935, -270, 1083, 4366]),
    (0x10030, 0, 0, [7474, -2301, -567, -4056, 11456, 2975, -222, 716, 4181]),
    (0x10037, 0, 0, [8020, -2687, -682, -3704, 11879, 2052, -965, 1921, 5556]),
    (0x1002a, 0, 0, [7378, -1255, -1043, -4088, 12251, 2048, -876, 1946, 5805]),
    (0x1003b, 0, 0, [7378, -1255, -1043, -4088, 12251, 2048, -876, 1946, 5805]),
    (0x10052, 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    (0x1003f, 0, 0, [9701, -3857, -921, -3149, 11537, 1817, -786, 1817, 5147]),
    (0x10043, 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    (0x1003a, 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    (0x10044, 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    (0x1004a, 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    (0x10040, 0, 0, [10056, -4131, -944, -2576, 11143, 1625, -238, 1294, 5179]),
    (0x10025, 0, 0, [12374, -5016, -1049, -1677, 9902, 2078, -83, 852, 4683]),
    (0x10027, 0, 0, [13440, -5896, -1279, -1236, 9598, 1931, -180, 1001, 4651]),
    (0x1002b, 0, 0, [7968, -2565, -636, -2873, 10697, 2513, 180, 667, 4211]),
    (0x1006d, 0, 0, [7968, -2565, -636, -2873, 10697, 2513, 180, 667, 4211]),
    (0x10034, 0, 0, [8039, -2643, -654, -3783, 11230, 2930, -206, 690, 4194]),
    (0x10056, 0, 0, [6961, -1685, -695, -4625, 12945, 1836, -1114, 2152, 5518]),
    (0x10033, 0, 0, [12432, -4753, -1247, -2110, 10691, 1629, -412, 1623, 4926]),
    (0x10057, 0, 0, [13161, -5451, -1344, -1989, 10654, 1531, -47, 1271, 4955]),
    (0x10055, 0, 0, [6578, -259, -502, -5974, 13030, 3309, -308, 1058, 4970]),
    (0x10063, 0, 0, [10463, -2173, -1437, -4856, 12635, 2482, -1216, 2915, 7237]),
    (0x10054, 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    (0x10072, 0, 0, [10463, -2173, -1437, -4856, 12635, 2482, -1216, 2915, 7237]),
    (0x10061, 0, 0, [11498, -3759, -1516, -5073, 12954, 2349, -892, 1867, 6118]),
    (0x10062, 0, 0, [11498, -3759, -1516, -5073, 12954, 2349, -892, 1867, 6118]),
    (0x10059, 0, 0, [6446, -366, -864, -4436, 12204, 2513, -952, 2496, 6348]),
    (0x1005d, 0, 0, [8608, -2097, -1178, -5425, 13265, 2383, -1149, 2238, 5680]),
    (0x10073, 0, 0, [9423, -2839, -1195, -4532, 12377, 2415, -483, 1374, 5276]),
    (0x10065, 0, 0, [9766, -2953, -1254, -4276, 12116, 2433, -437, 1336, 5131]),
    (0x1007a, 0, 0, [9396, -2597, -1207, -4408, 12296, 2369, -505, 1575, 6077]),
    (0x10078, 0, 0, [9269, -2012, -1107, -3990, 11762, 2527, -569, 2093, 4913]),
    (0x10066, 0, 0, [8293, -1611, -1132, -4759, 12711, 2275, -1013, 2415, 5509]),
    (0x10076, 0, 0, [9539, -2795, -1224, -4175, 11998, 2458, -465, 1755, 6048]),
    (0x10074, 0, 0, [10424, -3138, -1300, -4221, 11938, 2584, -547, 1658, 6183]),
    (0x10077, 0, 0, [9539, -2795, -1224, -4175, 11998, 2458, -465, 1755, 6048]),
    (0x1007b, 0, 0, [9020, -2275, -1209, -4916, 12856, 2284, -922, 1953, 5928]),
    (0x10075, 0, 0, [9269, -2012, -1107, -3990, 11762, 2527, -569, 2093, 4913]),
    (0x10079, 0, 0, [8230, -1515, -1032, -4179, 12004, 2454, -649, 2076, 4711]),
    (0x1005c, 0, 0, [18285, -8907, -1951, -1845, 10688, 1323, 364, 1101, 5139]),
    (0x1005e, 0, 0, [9079, -1923, -1236, -4677, 12454, 2492, -922, 2319, 5565]),
    (0x10070, 0, 0, [9079, -1923, -1236, -4677, 12454, 2492, -922, 2319, 5565]),
    (0x10060, 0, 0, [11629, -5713, -914, -2706, 11090, 1842, -206, 1225, 5515]),
    (0x1005f, 0, 0, [11629, -5713, -914, -2706, 11090, 1842, -206, 1225, 5515]),
    (0x10064, 0, 0, [8971, -2022, -1242, -5405, 13249, 2380, -1280, 2483, 6072]),
];
pub const EPSON_M: &[Mat] = &[
    (0x50001, 0, 0, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145]),
    (0x50002, 0, 0, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145]),
    (0x50003, 0, 0, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145]),
];
pub const FUJI_M: &[Mat] = &[
    (0xe0036, 0, 0, [1369, -5358, -1474, -3369, 11600, 1998, -132, 1554, 4395]),
    (0xe0001, 0, 0, [10004, -3219, -1201, -7036, 15047, 2107, -1863, 2565, 7736]),
    (0xe0006, 0, 0, [11044, -3888, -1120, -7248, 15168, 2208, -1531, 2277, 8069]),
    (0xe0002, 0, 0, [9183, -2526, -1078, -7461, 15071, 2574, -2022, 2440, 8639]),
    (0xe0003, 128, 0, [12492, -4690, -1402, -7033, 15423, 1647, -1507, 2111, 7697]),
    (0xe0004, 0, 0, [11807, -4612, -1294, -8927, 16968, 1988, -2120, 2741, 8006]),
    (0xe0005, 0, 0, [12300, -5110, -1304, -9117, 17143, 1998, -1947, 2448, 8100]),
    (0xe0007, 0, 0, [8754, -2732, -1019, -7204, 15069, 2276, -1702, 2334, 6982]),
    (0xe0008, 0, 0, [9636, -2804, -988, -7442, 15040, 2589, -1803, 2311, 8621]),
    (0xe0009, 0, 0, [10491, -3423, -1145, -7385, 15027, 2538, -1809, 2275, 8692]),
    (0xe0042, 0, 0, [12628, -4887, -1401, -6861, 14996, 1962, -2198, 2782, 7091]),
    (0xe000a, 0, 0, [12628, -4887, -1401, -6861, 14996, 1962, -2198, 2782, 7091]),
    (0xe0043, 0, 0, [11705, -4262, -1107, -2282, 10791, 1709, -555, 1713, 4945]),
    (0xe000b, 0, 3944, [12440, -3954, -1183, -1123, 9674, 1708, -83, 1614, 4086]),
    (0xe000c, 0, 0, [1369, -5358, -1474, -3369, 11600, 1998, -132, 1554, 4395]),
    (0xe0041, 0, 0, [12085, -4727, -953, -3257, 11489, 2002, -511, 2046, 4592]),
    (0xe000e, 0, 0, [12161, -4457, -1069, -5034, 12874, 2400, -795, 1724, 6904]),
    (0xe000f, 0, 0, [10592, -4262, -1008, -3514, 11355, 2465, -870, 2025, 6386]),
    (0xe0010, 0, 0, [10592, -4262, -1008, -3514, 11355, 2465, -870, 2025, 6386]),
    (0xe0011, 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    (0xe0034, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe0047, 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    (0xe0012, 0, 0, [13509, -6199, -1254, -4430, 12733, 1865, -331, 1441, 5022]),
    (0xe0013, 0, 0, [11768, -4971, -1133, -4904, 12927, 2183, -480, 1723, 4605]),
    (0xe0014, 0, 0, [12328, -5256, -1144, -4469, 12927, 1675, -87, 1291, 4351]),
    (0xe0015, 0, 0, [10450, -4329, -878, -3217, 11105, 2421, -752, 1758, 6519]),
    (0xe0016, 0, 0, [10413, -3996, -993, -3721, 11640, 2361, -733, 1540, 6011]),
    (0xe0017, 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    (0xe0032, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe0025, 0, 0, [11086, -4555, -839, -3512, 11310, 2517, -815, 1341, 5940]),
    (0xe003d, 0, 0, [11540, -4999, -991, -2949, 10963, 2278, -382, 1049, 5605]),
    (0xe0026, 0, 0, [10763, -4560, -917, -3346, 11311, 2322, -475, 1135, 5843]),
    (0xe0027, 0, 0, [12407, -5222, -1086, -2971, 11116, 2120, -294, 1029, 5284]),
    (0xe0028, 0, 0, [11673, -476, -1041, -3988, 12058, 2166, -771, 1417, 5569]),
    (0xe0031, 0, 0, [15055, -7391, -1274, -4062, 12071, 2238, -610, 1217, 6147]),
    (0xe0029, 0, 0, [9252, -2704, -1064, -5893, 14265, 1717, -1101, 2341, 4349]),
    (0xe002a, 0, 0, [9252, -2704, -1064, -5893, 14265, 1717, -1101, 2341, 4349]),
    (0xe0019, 0, 0, [10413, -3996, -993, -3721, 11640, 2361, -733, 1540, 6011]),
    (0xe001a, 0, 0, [8458, -2451, -855, -4597, 12447, 2407, -1475, 2482, 6526]),
    (0xe001b, 0, 0, [11562, -5118, -961, -3022, 11007, 2311, -525, 1569, 6097]),
    (0xe001c, 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    (0xe003c, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe002b, 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    (0xe003f, 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    (0xe003e, 0, 0, [12836, -5909, -1032, -3087, 11132, 2236, -35, 872, 5330]),
    (0xe001e, 0, 0, [10413, -3996, -993, -3721, 11640, 2361, -733, 1540, 6011]),
    (0xe0048, 0, 0, [12836, -5909, -1032, -3086, 11132, 2236, -35, 872, 5330]),
    (0xe001f, 0, 0, [8458, -2451, -855, -4597, 12447, 2407, -1475, 2482, 6526]),
    (0xe0020, 0, 0, [8458, -2451, -855, -4597, 12447, 2407, -1475, 2482, 6526]),
    (0xe0021, 0, 0, [11673, -476, -1041, -3988, 12058, 2166, -771, 1417, 5569]),
    (0xe0022, 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    (0xe0023, 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    (0xe0033, 0, 0, [15055, -7391, -1274, -4062, 12071, 2238, -610, 1217, 6147]),
    (0xe0024, 0, 0, [16393, -7740, -1436, -4238, 12131, 2371, -633, 1424, 6553]),
    (0xe002f, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe0039, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe0035, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe0040, 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    (0xe0045, 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    (0xe0018, 0, 0, [13509, -6199, -1254, -4430, 12733, 1865, -331, 1441, 5022]),
    (0xe0038, 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    (0xe0044, 0, 0, [12836, -5909, -1032, -3086, 11132, 2236, -35, 872, 5330]),
    (0xe001d, 0, 0, [13509, -6199, -1254, -4430, 12733, 1865, -331, 1441, 5022]),
    (0xe002e, 0, 0, [11673, -476, -1041, -3988, 12058, 2166, -771, 1417, 5569]),
    (0xe000d, 512, 16383, [11401, -4498, -1312, -5088, 12751, 2613, -838, 1568, 5941]),
    (0xe0037, 512, 16383, [11521, -4355, -1065, -6524, 13768, 3059, -1466, 1984, 6045]),
    (0xe002c, 0, 0, [11756, -4754, -874, -3056, 11045, 2305, -381, 1457, 6006]),
    (0xe003a, 0, 0, [11756, -4754, -874, -3056, 11045, 2305, -381, 1457, 6006]),
    (0xe002d, 0, 0, [11756, -4754, -874, -3056, 11045, 2305, -381, 1457, 6006]),
    (0xe0030, 0, 0, [16212, -8423, -1583, -4336, 12583, 1937, -195, 726, 6199]),
    (0xe0046, 0, 0, [12806, -5779, -1110, -3546, 11507, 2318, -177, 995, 5715]),
    (0xe003b, 0, 0, [16212, -8423, -1583, -4336, 12583, 1937, -195, 726, 6199]),
    (0xe0049, 0, 0, [12806, -5779, -1110, -3546, 11507, 2318, -177, 995, 5715]),
];
pub const MINOLTA_M: &[Mat] = &[
    (0x60007, 0, 4091, [10284, -3283, -1086, -7957, 15762, 2316, -829, 882, 6644]),
    (0x60008, 0, 4091, [10239, -3104, -1099, -8037, 15727, 2451, -927, 925, 6871]),
    (0x60003, 0, 3965, [8983, -2942, -963, -6556, 14476, 2237, -2426, 2887, 8014]),
    (0x60004, 0, 3965, [9144, -2777, -998, -6676, 14556, 2281, -2470, 3019, 7744]),
    (0x60005, 0, 3965, [9144, -2777, -998, -6676, 14556, 2281, -2470, 3019, 7744]),
    (0x60006, 0, 3965, [11368, -3894, -1242, -6521, 14358, 2339, -2475, 3056, 7285]),
    (0x60001, 0, 3979, [9274, -2547, -1167, -8220, 16323, 1943, -2273, 2720, 8340]),
    (0x60002, 0, 3983, [9097, -2726, -1053, -8073, 15506, 2762, -966, 981, 7763]),
    (0x60009, 0, 0, [8560, -2487, -986, -8112, 15535, 2771, -1209, 1324, 7743]),
];
pub const NIKON_M: &[Mat] = &[
    (0x20002, 0, 0, [16772, -4726, -2141, -7611, 15713, 1972, -2846, 3494, 9521]),
    (0x20004, 0, 0, [5902, -933, -782, -8983, 16719, 2354, -1402, 1455, 6464]),
    (0x20055, 0, 0, [11540, -4999, -991, -2949, 10963, 2278, -382, 1049, 5605]),
    (0x20003, 0, 0, [7702, -2245, -975, -9114, 17242, 1875, -2679, 3055, 8521]),
    (0x20007, 0, 4028, [8367, -2248, -763, -8758, 16447, 2422, -1527, 1550, 8053]),
    (0x20005, 0, 0, [5710, -901, -615, -8594, 16617, 2024, -2975, 4120, 6830]),
    (0x20049, 0, 0, [5710, -901, -615, -8594, 16617, 2024, -2975, 4120, 6830]),
    (0x20006, 0, 0, [10231, -2769, -1255, -8301, 15900, 2552, -797, 680, 7148]),
    (0x2004a, 0, 0, [10231, -2769, -1255, -8301, 15900, 2552, -797, 680, 7148]),
    (0x20008, 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    (0x2001b, 0, 0, [8828, -2406, -694, -4874, 12603, 2541, -660, 1509, 7587]),
    (0x2001c, 0, 0, [7171, -1986, -648, -8085, 15555, 2718, -2170, 2512, 7457]),
    (0x20009, 0, 0, [9030, -1992, -715, -8465, 16302, 2255, -2689, 3217, 8069]),
    (0x2001d, 0, 0, [9030, -1992, -715, -8465, 16302, 2255, -2689, 3217, 8069]),
    (0x20010, 0, 0, [8736, -2458, -935, -9075, 16894, 2251, -1354, 1242, 8263]),
    (0x20014, 0, 0, [7911, -2167, -813, -5327, 13150, 2408, -1288, 2483, 7968]),
    (0x2001e, 0, 4025, [7013, -1408, -635, -5268, 12902, 2640, -1470, 2801, 7379]),
    (0x20038, 0, 0, [6988, -1384, -714, -5631, 13410, 2447, -1485, 2204, 7318]),
    (0x2003b, 0, 0, [6988, -1384, -714, -5631, 13410, 2447, -1485, 2204, 7318]),
    (0x20048, 0, 0, [8821, -2938, -785, -4178, 12142, 2287, -824, 1651, 6860]),
    (0x2001a, 0, 0, [8598, -2848, -857, -5618, 13606, 2195, -1002, 1773, 7137]),
    (0x20030, 0, 0, [8598, -2848, -857, -5618, 13606, 2195, -1002, 1773, 7137]),
    (0x2000a, 0, 0, [6992, -1668, -806, -8138, 15748, 2543, -874, 850, 7897]),
    (0x2000b, 0, 0, [8819, -2543, -911, -9025, 16928, 2151, -1329, 1213, 8449]),
    (0x2003c, 0, 0, [9200, -3522, -992, -5755, 13803, 2117, -753, 1486, 6338]),
    (0x2000c, 0, 0, [7732, -2422, -789, -8238, 15884, 2498, -859, 783, 7330]),
    (0x2003d, 0, 0, [8813, -3210, -1036, -4703, 12868, 2021, -1054, 1940, 6129]),
    (0x20018, 0, 3840, [7309, -1403, -519, -8474, 16008, 2622, -2433, 2826, 8064]),
    (0x20019, 0, 15846, [8198, -2239, -724, -4871, 12389, 2798, -1043, 2050, 7181]),
    (0x20026, 0, 0, [8322, -3112, -1047, -6367, 14342, 2179, -988, 1638, 6394]),
    (0x20036, 0, 0, [6988, -1384, -714, -5631, 13410, 2447, -1485, 2204, 7318]),
    (0x20037, 0, 0, [8821, -2938, -785, -4178, 12142, 2287, -824, 1651, 6860]),
    (0x2003a, 0, 0, [8821, -2938, -785, -4178, 12142, 2287, -824, 1651, 6860]),
    (0x2004f, 0, 0, [9028, -3423, -1035, -6321, 14265, 2217, -1013, 1683, 6928]),
    (0x2002c, 0, 0, [8736, -2458, -935, -9075, 16894, 2251, -1354, 1242, 8263]),
    (0x20023, 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    (0x20031, 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    (0x2000d, 0, 0, [7732, -2422, -789, -8238, 15884, 2498, -859, 783, 7330]),
    (0x2000e, 0, 0, [7732, -2422, -789, -8238, 15884, 2498, -859, 783, 7330]),
    (0x2001f, 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    (0x20013, 0, 0, [8198, -2239, -724, -4871, 12389, 2798, -1043, 2050, 7181]),
    (0x20027, 0, 0, [8322, -3112, -1047, -6367, 14342, 2179, -988, 1638, 6394]),
    (0x20035, 0, 0, [8322, -3112, -1047, -6367, 14342, 2179, -988, 1638, 6394]),
    (0x20032, 0, 0, [9020, -2890, -715, -4535, 12436, 2348, -934, 1919, 7086]),
    (0x20056, 0, 0, [8813, -3210, -1036, -4703, 12868, 2021, -1054, 1940, 6129]),
    (0x2004c, 0, 0, [9943, -3269, -839, -5323, 13269, 2259, -1198, 2083, 7557]),
    (0x2000f, 0, 0, [8629, -2410, -883, -9055, 16940, 2171, -1490, 1363, 8520]),
    (0x20020, 0, 0, [7866, -2108, -555, -4869, 12483, 2681, -1176, 2069, 7501]),
    (0x20021, 0, 0, [7866, -2108, -555, -4869, 12483, 2681, -1176, 2069, 7501]),
    (0x20039, 0, 0, [9369, -3195, -791, -4488, 12430, 2301, -893, 1796, 6872]),
    (0x20057, 0, 0, [10405, -3755, -1270, -5461, 13787, 1793, -1040, 2015, 6785]),
    (0x20022, 0, 3840, [7309, -1403, -519, -8474, 16008, 2622, -2434, 2826, 8064]),
    (0x20059, 0, 0, [10339, -3822, -890, -4183, 12023, 2436, -671, 1638, 7049]),
    (0x20044, 0, 0, [8210, -2534, -683, -5355, 13338, 2212, -1143, 1929, 6464]),
    (0x20051, 0, 0, [9943, -3269, -839, -5323, 13269, 2259, -1198, 2083, 7557]),
    (0x2005c, 0, 0, [11206, -4286, -941, -4879, 12847, 2251, -745, 1654, 7374]),
    (0x20045, 0, 0, [10405, -3755, -1270, -5461, 13787, 1793, -1040, 2015, 6785]),
    (0x20052, 0, 0, [13705, -6004, -1400, -5464, 13568, 2062, -940, 1706, 7618]),
    (0x2005a, 0, 0, [11423, -4564, -1123, -4816, 12895, 2119, -210, 1061, 7282]),
    (0x20054, 0, 0, [13389, -6049, -1441, -4544, 12757, 1969, 229, 498, 7390]),
    (0x2004d, 0, 0, [11640, -4829, -1079, -5107, 13006, 2325, -972, 1711, 7380]),
    (0x2005d, 0, 0, [11640, -4829, -1079, -5107, 13006, 2325, -972, 1711, 7380]),
    (0x20050, 0, 0, [8695, -2558, -648, -5015, 12711, 2575, -1279, 2215, 7514]),
    (0x20053, 0, 0, [11640, -4829, -1079, -5107, 13006, 2325, -972, 1711, 7380]),
    (0x2005b, 0, 0, [11607, -4491, -977, -4522, 12460, 2304, -458, 1519, 7616]),
    (0x2002d, 0, 0, [8598, -2848, -857, -5618, 13606, 2195, -1002, 1773, 7137]),
    (0x2002e, 0, 0, [9349, -2987, -1001, -7919, 15766, 2266, -2098, 2680, 6839]),
    (0x2002f, 0, 0, [7842, -2320, -992, -8154, 15718, 2599, -1098, 1342, 7560]),
    (0x20047, 0, 0, [7971, -2314, -913, -8451, 15762, 2894, -1442, 1520, 7610]),
    (0x20041, 200, 0, [14387, -6014, -1299, -1357, 9975, 1616, 467, 1047, 4744]),
    (0x20046, 0, 0, [14294, -6116, -1333, -1628, 10219, 1637, -14, 1158, 5022]),
    (0x20042, 200, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    (0x20043, 200, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    (0x2004e, 0, 0, [13307, -5641, -1290, -2048, 10581, 1689, -64, 1222, 5176]),
    (0x20011, 0, 0, [9698, -3367, -914, -4706, 12584, 2368, -837, 968, 5801]),
    (0x20012, 0, 0, [11432, -3679, -1111, -3169, 11239, 2202, -791, 1380, 4455]),
    (0x20017, 0, 0, [11053, -4269, -1024, -1976, 10182, 2088, -526, 1263, 4469]),
    (0x20024, 0, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    (0x20058, 0, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    (0x2003e, 0, 0, [6588, -1305, -693, -3277, 10987, 2634, -355, 2016, 5106]),
    (0x20015, 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    (0x20029, 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    (0x2002a, 0, 0, [6588, -1305, -693, -3277, 10987, 2634, -355, 2016, 5106]),
    (0x20040, 0, 0, [5958, -1559, -571, -4021, 11453, 2939, -634, 1548, 5087]),
    (0x20033, 0, 0, [7520, -2518, -645, -3844, 12102, 1945, -913, 2249, 6835]),
    (0x20016, 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    (0x20025, 0, 0, [6588, -1305, -693, -3277, 10987, 2634, -355, 2016, 5106]),
    (0x20034, 0, 0, [5958, -1559, -571, -4021, 11453, 2939, -634, 1548, 5087]),
    (0x2002b, 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    (0x2003f, 0, 0, [6612, -1342, -618, -3338, 11055, 2623, -174, 1792, 5075]),
    (0x20028, 0, 0, [8198, -2239, -724, -4871, 12389, 2798, -1043, 2050, 7181]),
    (0x2004b, 0, 0, [10601, -3487, -1127, -2931, 11443, 1676, -587, 1740, 5278]),
];
pub const OLYMPUS_M: &[Mat] = &[
    (0x70001, 0, 0, [11846, -4767, -945, -7027, 15878, 1089, -2699, 4122, 8311]),
    (0x70002, 0, 4092, [12745, -4500, -1416, -6062, 14542, 1580, -1934, 2256, 6603]),
    (0x70003, 0, 3993, [9487, -2875, -1115, -7533, 15606, 2010, -1618, 2100, 7389]),
    (0x70013, 0, 0, [11200, -3783, -1325, -4576, 12593, 2206, -695, 1742, 7504]),
    (0x70036, 0, 0, [8144, -1861, -1111, -7763, 15894, 1929, -1865, 2542, 7607]),
    (0x70004, 0, 0, [7828, -1761, -348, -5788, 14071, 1830, -2853, 4518, 6557]),
    (0x70005, 0, 0, [8961, -2473, -1084, -7979, 15990, 2067, -2319, 3035, 8249]),
    (0x70006, 0, 0, [6169, -1483, -21, -7107, 14761, 2536, -2904, 3580, 8568]),
    (0x70007, 0, 3946, [8856, -2582, -1026, -7761, 15766, 2082, -2009, 2575, 7469]),
    (0x70038, 0, 0, [8745, -2425, -1095, -7594, 15613, 2073, -1780, 2309, 7416]),
    (0x70039, 0, 0, [8745, -2425, -1095, -7594, 15613, 2073, -1780, 2309, 7416]),
    (0x70008, 0, 0, [8136, -1968, -299, -5481, 13742, 1871, -2556, 4205, 6630]),
    (0x70009, 0, 3946, [8785, -2529, -1033, -7639, 15624, 2112, -1783, 2300, 7817]),
    (0x7003a, 0, 0, [8785, -2529, -1033, -7639, 15624, 2112, -1783, 2300, 7817]),
    (0x7003b, 0, 0, [8453, -2198, -1092, -7609, 15681, 2008, -1725, 2337, 7824]),
    (0x7000f, 0, 4015, [8453, -2198, -1092, -7609, 15681, 2008, -1725, 2337, 7824]),
    (0x7000a, 0, 0, [12078, -4836, -1069, -6671, 14306, 2578, -786, 939, 7418]),
    (0x7000d, 0, 4095, [9493, -3415, -666, -5211, 12334, 3260, -1548, 2262, 6482]),
    (0x7000b, 0, 4094, [10593, -3607, -1010, -5881, 13127, 3084, -1200, 1805, 6721]),
    (0x7000c, 0, 4094, [11597, -4006, -1049, -5432, 12799, 2957, -1029, 1750, 6516]),
    (0x70030, 0, 4094, [11856, -4470, -1159, -4814, 12368, 2756, -994, 1780, 5589]),
    (0x7003d, 0, 4094, [11522, -4044, -1145, -4737, 12172, 2903, -987, 1829, 6039]),
    (0x7000e, 0, 4093, [8343, -2050, -1021, -7715, 15705, 2103, -1831, 2380, 8235]),
    (0x70011, 0, 4093, [8343, -2050, -1021, -7715, 15705, 2103, -1831, 2380, 8235]),
    (0x70015, 0, 0, [7575, -2159, -571, -3722, 11341, 2725, -1434, 2819, 6271]),
    (0x70037, 0, 0, [8745, -2425, -1095, -7594, 15613, 2073, -1780, 2309, 7416]),
    (0x7003e, 0, 0, [9476, -3182, -765, -2613, 10958, 1893, -449, 1315, 5268]),
    (0x70010, 0, 0, [11408, -4289, -1215, -4286, 12385, 2118, -387, 1467, 7787]),
    (0x70014, 0, 0, [15030, -5552, -1806, -3987, 12387, 1767, -592, 1670, 7023]),
    (0x70016, 0, 0, [7575, -2159, -571, -3722, 11341, 2725, -1434, 2819, 6271]),
    (0x7001b, 0, 4043, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x7001e, 0, 4043, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x7001f, 0, 4043, [9197, -3190, -659, -2606, 10830, 2039, -458, 1250, 5458]),
    (0x70025, 0, 4043, [9197, -3190, -659, -2606, 10830, 2039, -458, 1250, 5458]),
    (0x70029, 0, 4043, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x70031, 0, 4043, [9197, -3190, -659, -2606, 10830, 2039, -458, 1250, 5458]),
    (0x70017, 0, 0, [7575, -2159, -571, -3722, 11341, 2725, -1434, 2819, 6271]),
    (0x7001a, 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x70012, 0, 0, [10901, -4095, -1074, -1141, 9208, 2293, -62, 1417, 5158]),
    (0x70027, 0, 0, [9777, -3483, -925, -2886, 11297, 1800, -602, 1663, 5134]),
    (0x70019, 0, 0, [9777, -3483, -925, -2886, 11297, 1800, -602, 1663, 5134]),
    (0x70018, 0, 4065, [8380, -2630, -639, -2887, 725, 2496, -627, 1427, 5438]),
    (0x70020, 0, 0, [9422, -3258, -711, -2655, 10898, 2015, -512, 1354, 5512]),
    (0x7002f, 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    (0x7001c, 0, 0, [7687, -1984, -606, -4327, 11928, 2721, -1381, 2339, 6452]),
    (0x70021, 0, 0, [9383, -3170, -763, -2457, 10702, 2020, -384, 1236, 5552]),
    (0x70032, 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    (0x70023, 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x70024, 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x7002b, 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x70034, 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    (0x70033, 0, 0, [9476, -3182, -765, -2613, 10958, 1893, -449, 1315, 5268]),
    (0x70035, 0, 0, [9488, -3984, -714, -2887, 10945, 2229, -137, 960, 5786]),
    (0x70041, 0, 0, [9090, -3590, -756, -3252, 11396, 2109, -318, 1059, 5606]),
    (0x70042, 0, 0, [9090, -3590, -756, -3252, 11396, 2109, -318, 1059, 5606]),
    (0x7003f, 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    (0x7002d, 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    (0x7001d, 0, 0, [8360, -2420, -880, -3928, 12353, 1739, -1381, 2416, 5173]),
    (0x7002a, 0, 0, [8360, -2420, -880, -3928, 12353, 1739, -1381, 2416, 5173]),
    (0x70022, 0, 0, [9476, -3182, -765, -2613, 10958, 1893, -449, 1315, 5268]),
    (0x70026, 0, 0, [10156, -3425, -1077, -2611, 11177, 1624, -385, 1592, 5080]),
    (0x70028, 0, 0, [11426, -4159, -1126, -2066, 10678, 1593, -120, 1327, 4998]),
    (0x7002c, 0, 0, [10899, -3833, -1082, -2112, 10736, 1575, -267, 1452, 5269]),
    (0x7002e, 0, 0, [10899, -3833, -1082, -2112, 10736, 1575, -267, 1452, 5269]),
    (0x70040, 0, 0, [10899, -3833, -1082, -2112, 10736, 1575, -267, 1452, 5269]),
    (0x7003c, 0, 0, [10445, -3362, -1307, -7662, 15690, 2058, -1135, 1176, 7602]),
];
pub const PANASONIC_M: &[Mat] = &[
    (0xb002f, 15, 0, [8770, -3194, -820, -2871, 11281, 1803, -513, 1552, 4434]),
    (0xb0001, 15, 3986, [7888, -1902, -1011, -8106, 16085, 2099, -2353, 2866, 7330]),
    (0xb0002, 15, 4095, [7888, -1902, -1011, -8106, 16085, 2099, -2353, 2866, 7330]),
    (0xb0012, 15, 4095, [9051, -2468, -1204, -5212, 13276, 2121, -1197, 2510, 6890]),
    (0xb0017, 15, 4095, [8228, -2945, -660, -3938, 11792, 2430, -1094, 2278, 5793]),
    (0xb001b, 15, 4095, [8130, -2801, -946, -3520, 11289, 2552, -1314, 2511, 5791]),
    (0xb002e, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0055, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0044, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0014, 15, 0, [6763, -1919, -863, -3868, 11515, 2684, -1216, 2387, 5879]),
    (0xb001c, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb003b, 15, 0, [7771, -3020, -629, -4029, 11950, 2345, -821, 1977, 6119]),
    (0xb0024, 15, 0, [7564, -2263, -606, -3148, 11239, 2177, -540, 1435, 4853]),
    (0xb0026, 15, 0, [7771, -3020, -629, -4029, 11950, 2345, -821, 1977, 6119]),
    (0xb0031, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0028, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0030, 15, 0, [7564, -2263, -606, -3148, 11239, 2177, -540, 1435, 4853]),
    (0xb0059, 0, 0, [9082, -2907, -925, -6119, 13376, 3058, -1797, 2641, 5608]),
    (0xb000a, 0, 3967, [8986, -2755, -802, -6341, 13575, 3077, -1476, 2144, 6379]),
    (0xb000b, 0, 0, [9932, -3060, -935, -5809, 13331, 2753, -1267, 2155, 5575]),
    (0xb0011, 15, 3990, [10109, -3488, -993, -5412, 12812, 2916, -1305, 2140, 5543]),
    (0xb001a, 143, 4095, [8112, -2563, -740, -3730, 11784, 2197, -941, 2075, 4933]),
    (0xb0023, 143, 4095, [7386, -2443, -743, -3437, 11864, 1757, -608, 1660, 4766]),
    (0xb0003, 0, 3988, [10976, -4029, -1141, -7918, 15491, 2600, -1670, 2071, 8246]),
    (0xb0050, 15, 0, [8378, -2798, -769, -3068, 11410, 1877, -538, 1792, 4623]),
    (0xb002a, 15, 0, [8378, -2798, -769, -3068, 11410, 1877, -538, 1792, 4623]),
    (0xb0039, 15, 0, [9938, -2780, -890, -4604, 12393, 2480, -1117, 2304, 4620]),
    (0xb003d, 0, 0, [13639, -5535, -1371, -1698, 9633, 2430, 316, 1152, 4108]),
    (0xb0035, 0, 0, [11532, -4324, -1066, -2375, 10847, 1749, -564, 1699, 4351]),
    (0xb000c, 0, 0, [7906, -2709, -594, -6231, 13351, 3220, -1922, 2631, 6537]),
    (0xb0051, 0, 0, [11532, -4324, -1066, -2375, 10847, 1749, -564, 1699, 4351]),
    (0xb0013, 143, 4095, [16197, -6146, -1761, -2393, 10765, 1869, 366, 2238, 5248]),
    (0xb0041, 0, 0, [7830, -2696, -763, -3325, 11667, 1866, -641, 1712, 4824]),
    (0xb0042, 0, 0, [9803, -4185, -992, -4066, 12578, 1628, -838, 1824, 5288]),
    (0xb0038, 0, 0, [11904, -4541, -1189, -2355, 10899, 1662, -296, 1586, 4289]),
    (0xb0029, 0, 0, [11532, -4324, -1066, -2375, 10847, 1749, -564, 1699, 4351]),
    (0xb000e, 15, 3988, [8199, -2065, -1056, -8124, 16156, 2033, -2458, 3022, 7220]),
    (0xb000f, 15, 3900, [10113, -3400, -1114, -4765, 12683, 2317, -377, 1437, 6710]),
    (0xb0015, 143, 4095, [6763, -1919, -863, -3868, 11515, 2684, -1216, 2387, 5879]),
    (0xb0016, 143, 4095, [7798, -2562, -740, -3879, 11584, 2613, -1055, 2248, 5434]),
    (0xb0004, 0, 0, [10113, -3400, -1114, -4765, 12683, 2317, -377, 1437, 6710]),
    (0xb004d, 143, 4095, [8294, -2891, -651, -3869, 11590, 2595, -1183, 2267, 5352]),
    (0xb004b, 0, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb004e, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0021, 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    (0xb0034, 0, 0, [7685, -2375, -634, -3687, 11700, 2249, -748, 1546, 5111]),
    (0xb0058, 0, 0, [8325, -3456, -623, -4330, 12089, 2528, -859, 2646, 5984]),
    (0xb0040, 0, 0, [9657, -3963, -748, -3361, 11378, 2258, -568, 1415, 5158]),
    (0xb0045, 0, 0, [9657, -3963, -748, -3361, 11378, 2258, -568, 1415, 5158]),
    (0xb0047, 0, 0, [8370, -2869, -710, -3389, 11372, 2298, -640, 1599, 4887]),
    (0xb005a, 0, 0, [8370, -2869, -710, -3389, 11372, 2298, -640, 1599, 4887]),
    (0xb0005, 15, 3986, [6299, -1466, -532, -6535, 13852, 2969, -2331, 3112, 5984]),
    (0xb0006, 15, 3989, [7780, -2410, -806, -3913, 11724, 2484, -1018, 2390, 5298]),
    (0xb0019, 144, 0, [6559, -1752, -491, -3672, 11407, 2586, -962, 1875, 5130]),
    (0xb001e, 15, 0, [7122, -2108, -512, -3155, 11201, 2231, -541, 1423, 5045]),
    (0xb0027, 15, 0, [7641, -2336, -605, -3218, 11299, 2187, -485, 1338, 5121]),
    (0xb0036, 15, 0, [6929, -2355, -708, -4192, 12534, 1828, -1097, 1989, 5195]),
    (0xb0049, 15, 0, [9300, -3659, -755, -2981, 10988, 2287, -190, 1077, 5016]),
    (0xb004a, 15, 0, [7949, -3491, -710, -3435, 11681, 1977, -503, 1622, 5065]),
    (0xb005b, 15, 0, [8573, -3575, -678, -4252, 12079, 2451, -808, 2524, 5936]),
    (0xb001d, 15, 0, [6770, -1895, -744, -5232, 13145, 2303, -1664, 2691, 5703]),
    (0xb0020, 15, 0, [8238, -3244, -679, -3921, 11814, 2384, -836, 2022, 5852]),
    (0xb004f, 0, 0, [9379, -3267, -816, -3227, 11560, 1881, -926, 1928, 5340]),
    (0xb0037, 0, 3971, [10704, -4187, -1230, -8314, 15952, 2501, -920, 945, 8927]),
    (0xb0007, 0, 0, [8048, -2810, -623, -6450, 13519, 3272, -1700, 2146, 7049]),
    (0xb0008, 15, 0, [8128, -2668, -655, -6134, 13307, 3161, -1782, 2568, 6083]),
    (0xb0009, 143, 0, [10909, -4295, -948, -1333, 9306, 2399, 22, 1738, 4582]),
    (0xb0018, 143, 0, [10148, -3743, -991, -2837, 11366, 1659, -701, 1893, 4899]),
    (0xb0022, 15, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    (0xb001f, 143, 0, [8844, -3538, -768, -3709, 11762, 2200, -698, 1792, 5220]),
    (0xb003c, 0, 0, [11577, -4230, -1106, -3967, 12211, 1957, -758, 1762, 5610]),
    (0xb000d, 0, 3967, [8054, -1885, -1025, -8349, 16367, 2040, -2805, 3542, 7629]),
    (0xb0010, 15, 3990, [8025, -1942, -1050, -7920, 15904, 2100, -2456, 3005, 7039]),
    (0xb002b, 15, 0, [8802, -3135, -789, -3151, 11468, 1904, -550, 1745, 4810]),
    (0xb004c, 15, 0, [8607, -2822, -808, -3755, 11930, 2049, -820, 2060, 5224]),
    (0xb0052, 15, 0, [8802, -3135, -789, -3151, 11468, 1904, -550, 1745, 4810]),
    (0xb002c, 15, 0, [8550, -2908, -842, -3195, 11529, 1881, -338, 1603, 4631]),
    (0xb0025, 0, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    (0xb003a, 0, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    (0xb003e, 0, 0, [9744, -3905, -779, -4899, 12807, 2324, -798, 1630, 5827]),
    (0xb003f, 0, 0, [11822, -5321, -1249, -5958, 15114, 766, -614, 1264, 7043]),
    (0xb005c, 0, 0, [9941, -4056, -871, -3745, 11604, 2433, -254, 1132, 5526]),
    (0xb0046, 0, 0, [9397, -3719, -805, -5425, 13326, 2309, -972, 1715, 6034]),
    (0xb0048, 0, 0, [9744, -3905, -779, -4899, 12807, 2324, -798, 1630, 5827]),
    (0xb0054, 0, 0, [10308, -4206, -783, -4088, 12102, 2229, -125, 1051, 5912]),
    (0xb0056, 0, 0, [10308, -4206, -783, -4088, 12102, 2229, -125, 1051, 5912]),
    (0xb0057, 0, 0, [9983, -3890, -840, -4180, 12164, 2263, -248, 1139, 5766]),
    (0xb0053, 0, 0, [9052, -3117, -883, -3045, 11346, 1927, -205, 1520, 4730]),
    (0xb0043, 0, 0, [12194, -5340, -1329, -3035, 11394, 1858, -50, 1418, 5219]),
    (0x30004, 0, 0, [11340, -4069, -1275, -7555, 15266, 2448, -2960, 3426, 7685]),
    (0x30027, 0, 0, [8054, -1886, -1025, -8348, 16367, 2040, -2805, 3542, 7630]),
    (0x30005, 0, 0, [8048, -2810, -623, -6450, 13519, 3272, -1700, 2146, 7049]),
    (0x30012, 0, 0, [8844, -3538, -768, -3709, 11762, 2200, -698, 1792, 5220]),
    (0x30023, 0, 0, [8128, -2668, -655, -6134, 13307, 3161, -1782, 2568, 6083]),
    (0x3001a, 143, 0, [10909, -4295, -948, -1333, 9306, 2399, 22, 1738, 4582]),
    (0x30006, 0, 0, [7906, -2709, -594, -6231, 13351, 3220, -1922, 2631, 6537]),
    (0x30013, 0, 0, [8112, -2563, -740, -3730, 11784, 2197, -941, 2075, 4933]),
    (0x30015, 0, 0, [7830, -2696, -763, -3325, 11667, 1866, -641, 1712, 4824]),
    (0x3001d, 0, 0, [9803, -4185, -992, -4066, 12578, 1628, -838, 1824, 5288]),
    (0x30016, 15, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    (0x30028, 0, 0, [10148, -3743, -991, -2837, 11366, 1659, -701, 1893, 4899]),
    (0x3001b, 0, 0, [11577, -4230, -1106, -3967, 12211, 1957, -758, 1762, 5610]),
    (0x3001c, 0, 0, [9379, -3267, -816, -3227, 11560, 1881, -926, 1928, 5340]),
];
pub const PENTAX_M: &[Mat] = &[
    (0x40003, 0, 0, [9651, -2059, -1189, -8881, 16512, 2487, -1460, 1345, 10687]),
    (0x40004, 0, 0, [10829, -2838, -1115, -8339, 15817, 2696, -837, 680, 11939]),
    (0x40030, 0, 0, [10504, -2439, -1189, -8603, 16208, 2531, -1022, 863, 12242]),
    (0x4001e, 0, 0, [10371, -2333, -1206, -8688, 16231, 2602, -1230, 1116, 11282]),
    (0x40001, 0, 0, [9566, -2863, -803, -7170, 15172, 2112, -818, 803, 9705]),
    (0x40021, 0, 0, [8566, -2746, -1201, -3612, 12204, 1550, -893, 1680, 6264]),
    (0x4002d, 0, 0, [8596, -2981, -639, -4202, 12046, 2431, -685, 1424, 6122]),
    (0x40005, 127, 3950, [11095, -3157, -1324, -8377, 15834, 2720, -1108, 947, 11688]),
    (0x40006, 0, 0, [11095, -3157, -1324, -8377, 15834, 2720, -1108, 947, 11688]),
    (0x40035, 0, 0, [11095, -3157, -1324, -8377, 15834, 2720, -1108, 947, 11688]),
    (0x40007, 0, 0, [9427, -2714, -868, -7493, 16092, 1373, -2199, 3264, 7180]),
    (0x4001d, 0, 0, [9186, -2678, -907, -8693, 16517, 2260, -1129, 1094, 8524]),
    (0x40038, 0, 0, [9730, -2989, -970, -8527, 16258, 2381, -1060, 970, 8362]),
    (0x40008, 0, 0, [9895, -3077, -850, -5304, 13035, 2521, -883, 1768, 6936]),
    (0x40033, 0, 0, [8542, -2581, -1144, -3995, 12301, 1881, -863, 1514, 5755]),
    (0x40034, 0, 0, [9251, -3817, -1069, -4627, 12667, 2175, -798, 1660, 5633]),
    (0x40036, 0, 0, [8571, -2590, -1148, -3995, 12301, 1881, -1052, 1844, 7013]),
    (0x4000a, 0, 0, [8713, -2833, -743, -4342, 11900, 2772, -722, 1543, 6247]),
    (0x40031, 0, 0, [8435, -2549, -1130, -3995, 12301, 1881, -989, 1734, 6591]),
    (0x4001f, 0, 0, [8170, -2725, -639, -4440, 12017, 2744, -771, 1465, 6599]),
    (0x4000b, 0, 0, [9142, -2947, -678, -8648, 16967, 1663, -2224, 2898, 8615]),
    (0x40023, 0, 0, [8766, -3149, -747, -3976, 11943, 2292, -517, 1259, 5552]),
    (0x40011, 0, 0, [9730, -2989, -970, -8527, 16258, 2381, -1060, 970, 8362]),
    (0x40009, 0, 0, [8843, -2837, -625, -5025, 12644, 2668, -411, 1234, 7410]),
    (0x40025, 0, 0, [7989, -2511, -1137, -3882, 12350, 1689, -862, 1524, 6444]),
    (0x40027, 0, 0, [8662, -3280, -798, -3928, 11771, 2444, -586, 1232, 6054]),
    (0x4002b, 0, 0, [8617, -3228, -1034, -4674, 12821, 2044, -803, 1577, 5728]),
    (0x4000c, 0, 15872, [10646, -3593, -1158, -3329, 11699, 1831, -667, 2874, 6287]),
    (0xa0006, 0, 16383, [9519, -3591, -664, -4074, 11725, 2671, -624, 1501, 6653]),
];
pub const SONY_M: &[Mat] = &[
    (0x80001, 0, 4075, [9437, -2811, -774, -8405, 16215, 2290, -710, 596, 7181]),
    (0x80002, 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    (0x8003d, 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    (0x80043, 0, 0, [6038, -1484, -579, -9145, 16746, 2512, -875, 746, 7218]),
    (0x80056, 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    (0x80015, 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    (0x80055, 0, 0, [6038, -1484, -579, -9145, 16746, 2512, -875, 746, 7218]),
    (0x80005, 0, 0, [6038, -1484, -579, -9145, 16746, 2512, -875, 746, 7218]),
    (0x80016, 128, 4075, [4950, -580, -103, -5228, 12542, 3029, -709, 1435, 7371]),
    (0x8003e, 0, 0, [6046, -1127, -278, -5574, 13076, 2786, -691, 1419, 7625]),
    (0x80004, 128, 4075, [4950, -580, -103, -5228, 12542, 3029, -709, 1435, 7371]),
    (0x8001c, 128, 4075, [4950, -580, -103, -5228, 12542, 3029, -709, 1435, 7371]),
    (0x80017, 128, 0, [5932, -1492, -411, -4813, 12285, 2856, -741, 1524, 6739]),
    (0x80003, 126, 0, [5775, -805, -359, -8574, 16295, 2391, -1943, 2341, 7249]),
    (0x80018, 128, 0, [5413, -1162, -365, -5665, 13098, 2866, -608, 1179, 8440]),
    (0x80019, 128, 0, [5209, -1072, -397, -8845, 16120, 2919, -1618, 1803, 8654]),
    (0x8001b, 128, 0, [6069, -1221, -366, -5221, 12779, 2734, -1024, 2066, 6834]),
    (0x8001a, 128, 0, [5986, -1618, -415, -4557, 11820, 3120, -681, 1404, 6971]),
    (0x8003f, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x80007, 128, 0, [5932, -1492, -411, -4813, 12285, 2856, -741, 1524, 6739]),
    (0x8002c, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x80037, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x80013, 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    (0x80041, 128, 0, [6435, -1903, -536, -4722, 12449, 2550, -663, 1363, 6517]),
    (0x80008, 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    (0x80040, 128, 0, [5991, -1732, -443, -4100, 11989, 2381, -704, 1467, 5992]),
    (0x8001d, 0, 0, [6344, -1612, -462, -4863, 12477, 2681, -865, 1786, 6899]),
    (0x80039, 0, 0, [6660, -1918, -471, -4613, 12398, 2485, -649, 1433, 6447]),
    (0x80009, 128, 0, [6549, -1550, -436, -4880, 12435, 2753, -854, 1868, 6976]),
    (0x80059, 0, 0, [13076, -5686, -1481, -4027, 12851, 1251, -167, 725, 4937]),
    (0x80045, 0, 0, [13076, -5686, -1481, -4027, 12851, 1251, -167, 725, 4937]),
    (0x8000a, 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    (0x8000b, 128, 0, [6549, -1550, -436, -4880, 12435, 2753, -854, 1868, 6976]),
    (0x8000c, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x8000d, 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    (0x8000e, 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    (0x80011, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x80012, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x8000f, 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    (0x80010, 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    (0x8004e, 511, 16383, [8512, -2641, -694, -8041, 15670, 2526, -1820, 2117, 7414]),
    (0x8001e, 0, 0, [8651, -2754, -1057, -3464, 12207, 1373, -568, 1398, 4434]),
    (0x8001f, 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    (0x80020, 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    (0x80021, 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    (0x80022, 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    (0x80044, 0, 0, [11176, -4700, -965, -4004, 12184, 2032, -763, 1726, 5876]),
    (0x80023, 0, 0, [7325, -2321, -596, -3494, 11674, 2055, -668, 1562, 5031]),
    (0x80049, 0, 0, [7325, -2321, -596, -3494, 11674, 2055, -668, 1562, 5031]),
    (0x8002b, 0, 0, [9396, -3507, -843, -2497, 11111, 1572, -343, 1355, 5089]),
    (0x80047, 0, 0, [9396, -3507, -843, -2497, 11111, 1572, -343, 1355, 5089]),
    (0x80024, 0, 0, [6344, -1612, -462, -4863, 12477, 2681, -865, 1786, 6899]),
    (0x80025, 0, 0, [6344, -1612, -462, -4863, 12477, 2681, -865, 1786, 6899]),
    (0x80029, 0, 0, [6629, -1900, -483, -4618, 12349, 2550, -622, 1381, 6514]),
    (0x80026, 0, 0, [6679, -1825, -745, -5047, 13256, 1953, -1580, 2422, 5183]),
    (0x80027, 0, 0, [6679, -1825, -745, -5047, 13256, 1953, -1580, 2422, 5183]),
    (0x80028, 0, 0, [6679, -1825, -745, -5047, 13256, 1953, -1580, 2422, 5183]),
    (0x8002a, 0, 0, [7699, -2566, -629, -2967, 11270, 1928, -378, 1286, 4807]),
    (0x80052, 128, 0, [8161, -2947, -739, -4811, 12668, 2389, -437, 1229, 6524]),
    (0x80062, 128, 0, [8161, -2947, -739, -4811, 12668, 2389, -437, 1229, 6524]),
    (0x80036, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x80042, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x8003c, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x80038, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x8004a, 128, 0, [7657, -2847, -607, -4083, 11966, 2389, -684, 1418, 5844]),
    (0x8003a, 0, 0, [5973, -1695, -419, -3826, 11797, 2293, -639, 1398, 5789]),
    (0x80046, 0, 0, [5973, -1695, -419, -3826, 11797, 2293, -639, 1398, 5789]),
    (0x8003b, 0, 0, [5973, -1695, -419, -3826, 11797, 2293, -639, 1398, 5789]),
    (0x8004b, 128, 0, [7657, -2847, -607, -4083, 11966, 2389, -684, 1418, 5844]),
    (0x8005d, 128, 0, [6972, -2408, -600, -4330, 12101, 2515, -388, 1277, 5847]),
    (0x8002d, 128, 0, [5271, -712, -347, -6153, 13653, 2763, -1601, 2366, 7242]),
    (0x8002e, 128, 0, [5271, -712, -347, -6153, 13653, 2763, -1601, 2366, 7242]),
    (0x8002f, 128, 0, [7374, -2389, -551, -5435, 13162, 2519, -1006, 1795, 6552]),
    (0x80053, 128, 0, [7460, -2365, -588, -5687, 13442, 2474, -624, 1156, 6584]),
    (0x80030, 128, 0, [4913, -541, -202, -6130, 13513, 2906, -1564, 2151, 7183]),
    (0x80031, 0, 0, [6629, -1900, -483, -4618, 12349, 2550, -622, 1381, 6514]),
    (0x80032, 0, 0, [6640, -1847, -503, -5238, 13010, 2474, -993, 1673, 6527]),
    (0x80057, 0, 0, [6640, -1847, -503, -5238, 13010, 2474, -993, 1673, 6527]),
    (0x80048, 0, 0, [6640, -1847, -503, -5238, 13010, 2474, -993, 1673, 6527]),
    (0x80058, 0, 0, [7662, -2686, -660, -5240, 12965, 2530, -796, 1508, 6167]),
    (0x8005a, 0, 0, [8200, -2976, -719, -4296, 12053, 2532, -429, 1282, 5774]),
    (0x80033, 128, 0, [5838, -1430, -246, -3497, 11477, 2297, -748, 1885, 5778]),
    (0x80034, 128, 0, [5838, -1430, -246, -3497, 11477, 2297, -748, 1885, 5778]),
    (0x8004f, 128, 0, [6912, -2127, -469, -4470, 12175, 2587, -398, 1478, 6492]),
    (0x80050, 128, 0, [7374, -2389, -551, -5435, 13162, 2519, -1006, 1795, 6552]),
    (0x80035, 128, 0, [6389, -1703, -378, -4562, 12265, 2587, -670, 1489, 6550]),
    (0x8004c, 128, 0, [6389, -1703, -378, -4562, 12265, 2587, -670, 1489, 6550]),
    (0x80060, 0, 0, [9811, -3908, -752, -3704, 11577, 2417, -73, 950, 5980]),
    (0x80054, 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    (0x8005f, 128, 0, [6912, -2127, -469, -4470, 12175, 2587, -398, 1477, 6492]),
    (0x8005c, 128, 0, [6972, -2408, -600, -4330, 12101, 2515, -388, 1277, 5847]),
    (0x8004d, 128, 0, [8280, -2987, -703, -3531, 11645, 2133, -550, 1542, 5312]),
    (0x8005e, 128, 0, [8280, -2987, -703, -3531, 11645, 2133, -550, 1542, 5312]),
    (0x8005b, 128, 0, [6912, -2127, -469, -4470, 12175, 2587, -398, 1478, 6492]),
    (0x80051, 128, 0, [6355, -2067, -490, -3653, 11542, 2400, -406, 1258, 5506]),
    (0x80061, 128, 0, [6972, -2408, -600, -4330, 12101, 2515, -388, 1277, 5847]),
    (0x140001, 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
];
pub const EPSON: &[(&str, u32)] = &[
    ("R-D1", 0x50001),
    ("R-D1s", 0x50002),
    ("R-D1x", 0x50003),
];
pub const FUJI: &[(&str, u32)] = &[
    ("GFX 50S", 0xe002c),
    ("GFX50S II", 0xe003a),
    ("GFX 50R", 0xe002d),
    ("GFX 100", 0xe0030),
    ("GFX100 II", 0xe0046),
    ("GFX100S", 0xe003b),
    ("GFX100RF", 0xe0049),
    ("FinePix F550EXR", 0xe0036),
    ("FinePix F700  ", 0xe0001),
    ("FinePix F810   ", 0xe0006),
    ("FinePix E900   ", 0xe0002),
    ("FinePixS2Pro", 0xe0003),
    ("FinePix S3Pro  ", 0xe0004),
    ("FinePix S5Pro  ", 0xe0005),
    ("FinePix S5000 ", 0xe0007),
    ("FinePix S5600  ", 0xe0008),
    ("FinePix S6000fd", 0xe0042),
    ("FinePix S6500fd", 0xe000a),
    ("FinePix S9500  ", 0xe0009),
    ("FinePix SL1000", 0xe0043),
    ("FinePix HS10 HS11", 0xe000b),
    ("FinePix HS30EXR", 0xe000c),
    ("FinePix HS33EXR", 0xe000c),
    ("FinePix HS50EXR", 0xe0041),
    ("FinePix S100FS ", 0xe0037),
    ("FinePix S200EXR", 0xe000d),
    ("FinePix X100", 0xe000e),
    ("X10", 0xe0012),
    ("X20", 0xe0013),
    ("X30", 0xe0014),
    ("X70", 0xe0015),
    ("X-Pro1", 0xe0016),
    ("X-Pro2", 0xe0017),
    ("X-Pro3", 0xe0032),
    ("X-S1", 0xe0018),
    ("X-S10", 0xe0038),
    ("X-S20", 0xe0044),
    ("X-A1", 0xe0025),
    ("X-A10", 0xe003d),
    ("X-A2", 0xe0026),
    ("X-A3", 0xe0027),
    ("X-A5", 0xe0028),
    ("X-A7", 0xe0031),
    ("XQ1", 0xe0029),
    ("XQ2", 0xe002a),
    ("X-E1", 0xe0019),
    ("X-E2", 0xe001a),
    ("X-E2S", 0xe001b),
    ("X-E3", 0xe001c),
    ("X-E4", 0xe003c),
    ("X-M1", 0xe001e),
    ("X-M5", 0xe0048),
    ("X-T1", 0xe001f),
    ("X-T10", 0xe0020),
    ("X-T100", 0xe0021),
    ("X-T2", 0xe0022),
    ("X-T20", 0xe0023),
    ("X-T200", 0xe0033),
    ("X-T3", 0xe0024),
    ("X-T30", 0xe002f),
    ("X-T30 II", 0xe0039),
    ("X-T4", 0xe0035),
    ("X-T5", 0xe0040),
    ("X-T50", 0xe0045),
    ("XF1", 0xe001d),
    ("XF10", 0xe002e),
    ("X100S", 0xe000f),
    ("X100T", 0xe0010),
    ("X100F", 0xe0011),
    ("X100V", 0xe0034),
    ("X100VI", 0xe0047),
    ("X-H1", 0xe002b),
    ("X-H2", 0xe003f),
    ("X-H2S", 0xe003e),
];
pub const NIKON: &[(&str, u32)] = &[
    ("NIKON D1 ", 0x20002),
    ("NIKON D100 ", 0x20004),
    ("NIKON D1H", 0x20055),
    ("NIKON D1X", 0x20003),
    ("NIKON D200", 0x20007),
    ("NIKON D2H", 0x20005),
    ("NIKON D2Hs", 0x20049),
    ("NIKON D2X", 0x20006),
    ("NIKON D2Xs", 0x2004a),
    ("NIKON D3", 0x20008),
    ("NIKON D3S", 0x2001b),
    ("NIKON D3X", 0x2001c),
    ("NIKON D300", 0x20009),
    ("NIKON D300S", 0x2001d),
    ("NIKON D3000", 0x20010),
    ("NIKON D3100", 0x20014),
    ("NIKON D3200", 0x2001e),
    ("NIKON D3300", 0x20038),
    ("NIKON D3400", 0x2003b),
    ("NIKON D3500", 0x20048),
    ("NIKON D4", 0x2001a),
    ("NIKON D4S", 0x20030),
    ("NIKON D40", 0x2000a),
    ("NIKON D40X", 0x2000b),
    ("NIKON D5", 0x2003c),
    ("NIKON D50", 0x2000c),
    ("NIKON D500", 0x2003d),
    ("NIKON D5000", 0x20018),
    ("NIKON D5100", 0x20019),
    ("NIKON D5200", 0x20026),
    ("NIKON D5300", 0x20036),
    ("NIKON D5500", 0x20037),
    ("NIKON D5600", 0x2003a),
    ("NIKON D6", 0x2004f),
    ("NIKON D60", 0x2002c),
    ("NIKON D600", 0x20023),
    ("NIKON D610", 0x20031),
    ("NIKON D70", 0x2000d),
    ("NIKON D70s", 0x2000e),
    ("NIKON D700", 0x2001f),
    ("NIKON D7000", 0x20013),
    ("NIKON D7100", 0x20027),
    ("NIKON D7200", 0x20035),
    ("NIKON D750", 0x20032),
    ("NIKON D7500", 0x20056),
    ("NIKON D780", 0x2004c),
    ("NIKON D80", 0x2000f),
    ("NIKON D800", 0x20020),
    ("NIKON D800E", 0x20021),
    ("NIKON D810", 0x20039),
    ("NIKON D850", 0x20057),
    ("NIKON D90", 0x20022),
    ("NIKON Df", 0x2002d),
    ("NIKON Z 30", 0x20059),
    ("NIKON Z 6", 0x20044),
    ("NIKON Z 6_2", 0x20051),
    ("NIKON Z6_3", 0x2005c),
    ("NIKON Z 7", 0x20045),
    ("NIKON Z 7_2", 0x20052),
    ("NIKON Z 50", 0x2004d),
    ("NIKON Z50_2", 0x2005d),
    ("NIKON Z 5", 0x20050),
    ("NIKON Z 8", 0x2005a),
    ("NIKON Z 9", 0x20054),
    ("NIKON Z fc", 0x20053),
    ("NIKON Z f", 0x2005b),
    ("E5400", 0x2002e),
    ("E5700", 0x20001),
    ("E8400", 0x2002f),
    ("E8800", 0x20047),
    ("COOLPIX B700", 0x20041),
    ("COOLPIX P330", 0x20042),
    ("COOLPIX P340", 0x20043),
    ("COOLPIX P950", 0x2004e),
    ("COOLPIX P1000", 0x20046),
    ("COOLPIX P6000", 0x20011),
    ("COOLPIX P7000", 0x20012),
    ("COOLPIX P7100", 0x20017),
    ("COOLPIX P7700", 0x20024),
    ("COOLPIX P7800", 0x20058),
    ("COOLPIX A", 0x20028),
    ("COOLPIX A1000", 0x2004b),
    ("NIKON 1 J1", 0x20015),
    ("NIKON 1 J2", 0x20029),
    ("NIKON 1 J3", 0x2002a),
    ("NIKON 1 J4", 0x20040),
    ("NIKON 1 J5", 0x20033),
    ("NIKON 1 V1", 0x20016),
    ("NIKON 1 V2", 0x20025),
    ("NIKON 1 V3", 0x20034),
    ("NIKON 1 S1", 0x2002b),
    ("NIKON 1 S2", 0x2003f),
    ("NIKON 1 AW1", 0x2003e),
];
pub const OLYMPUS: &[(&str, u32)] = &[
    ("E-1             ", 0x70001),
    ("E-10        ", 0x70002),
    ("E-3             ", 0x70003),
    ("E-30            ", 0x70036),
    ("E-5             ", 0x70013),
    ("E-300           ", 0x70004),
    ("E-330           ", 0x70005),
    ("E-400           ", 0x70006),
    ("E-410           ", 0x70007),
    ("E-420           ", 0x70038),
    ("E-450           ", 0x70039),
    ("E-500           ", 0x70008),
    ("E-510           ", 0x70009),
    ("E-520           ", 0x7003a),
    ("E-600           ", 0x7003b),
    ("E-620           ", 0x7000f),
    ("SP350", 0x7000a),
    ("SP500UZ", 0x7000d),
    ("SP510UZ", 0x7000b),
    ("SP550UZ                ", 0x7000c),
    ("SP565UZ                ", 0x70030),
    ("SP570UZ                ", 0x7003d),
    ("E-P1            ", 0x7000e),
    ("E-P2            ", 0x70011),
    ("E-P3            ", 0x70015),
    ("E-P5            ", 0x70037),
    ("E-P7            ", 0x7003e),
    ("E-PL1           ", 0x70010),
    ("E-PL2           ", 0x70014),
    ("E-PL3           ", 0x70016),
    ("E-PL5           ", 0x7001b),
    ("E-PL6           ", 0x7001e),
    ("E-PL7           ", 0x7001f),
    ("E-PL8           ", 0x70025),
    ("E-PL9           ", 0x70029),
    ("E-PL10          ", 0x70031),
    ("E-PM1           ", 0x70017),
    ("E-PM2           ", 0x7001a),
    ("XZ-1            ", 0x70012),
    ("XZ-10           ", 0x70027),
    ("XZ-2            ", 0x70019),
    ("E-M5            ", 0x70018),
    ("E-M5MarkII      ", 0x70020),
    ("E-M5MarkIII     ", 0x7002f),
    ("E-M1            ", 0x7001c),
    ("E-M1MarkII      ", 0x70021),
    ("E-M1MarkIII     ", 0x70032),
    ("E-M1X           ", 0x7002d),
    ("E-M10           ", 0x70023),
    ("E-M10MarkII     ", 0x70024),
    ("E-M10 Mark III  ", 0x7002b),
    ("E-M10MarkIIIS   ", 0x70034),
    ("E-M10MarkIV     ", 0x70033),
    ("OM-1            ", 0x70035),
    ("OM-1MarkII      ", 0x70041),
    ("OM-3            ", 0x70042),
    ("OM-5            ", 0x7003f),
    ("STYLUS1         ", 0x7001d),
    ("STYLUS1,1s      ", 0x7002a),
    ("PEN-F           ", 0x70022),
    ("SH-2            ", 0x70026),
    ("TG-4            ", 0x70028),
    ("TG-5            ", 0x7002c),
    ("TG-6            ", 0x7002e),
    ("TG-7            ", 0x70040),
    ("C5060WZ", 0x7003c),
];

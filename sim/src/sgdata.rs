// Workload data: encoded coset representatives of the 230 space groups in the standard primitive
// basis, used only to build symmetric input crystals. Never used as an oracle.
// (number, lattice system 0..6, centering letter, encoded operations)
pub static SG: &[(u8, u8, char, &[u32])] = &[
    (1, 0, 'P', &[16484]),
    (2, 0, 'P', &[16484, 3198]),
    (3, 1, 'P', &[3360, 16484]),
    (4, 1, 'P', &[633216, 16484]),
    (5, 1, 'C', &[7410, 16484]),
    (6, 1, 'P', &[16322, 16484]),
    (7, 1, 'P', &[16484, 95054]),
    (8, 1, 'C', &[12272, 16484]),
    (9, 1, 'C', &[16484, 91004]),
    (10, 1, 'P', &[3360, 16322, 16484, 3198]),
    (11, 1, 'P', &[633216, 646178, 16484, 3198]),
    (12, 1, 'C', &[12272, 7410, 16484, 3198]),
    (13, 1, 'P', &[16484, 3198, 82092, 95054]),
    (14, 1, 'P', &[16484, 3198, 711948, 724910]),
    (15, 1, 'C', &[16484, 3198, 91004, 86142]),
    (16, 2, 'P', &[3360, 16484, 3200, 16320]),
    (17, 2, 'P', &[16320, 16484, 82092, 81932]),
    (18, 2, 'P', &[5685024, 16484, 3200, 5672064]),
    (19, 2, 'P', &[5685024, 16484, 5120780, 711948]),
    (20, 2, 'C', &[16484, 12270, 81932, 86142]),
    (21, 2, 'C', &[3200, 7410, 16484, 12270]),
    (22, 2, 'F', &[16484, 394, 10228, 12258]),
    (23, 2, 'I', &[16484, 11514, 8308, 3058]),
    (24, 2, 'I', &[716896, 5671762, 16484, 5129094]),
    (25, 2, 'P', &[3200, 16484, 16322, 3362]),
    (26, 2, 'P', &[16484, 3362, 81932, 95054]),
    (27, 2, 'P', &[3200, 16484, 82094, 95054]),
    (28, 2, 'P', &[3200, 16484, 5055170, 5042210]),
    (29, 2, 'P', &[16484, 5055170, 81932, 5120942]),
    (30, 2, 'P', &[3200, 16484, 724910, 711950]),
    (31, 2, 'P', &[16484, 3362, 5120780, 5133902]),
    (32, 2, 'P', &[3200, 5685026, 16484, 5672066]),
    (33, 2, 'P', &[16484, 5685026, 81932, 5750798]),
    (34, 2, 'P', &[3200, 16484, 5763758, 5750798]),
    (35, 2, 'C', &[12272, 7412, 16484, 3200]),
    (36, 2, 'C', &[16484, 7412, 91004, 81932]),
    (37, 2, 'C', &[16484, 91004, 3200, 86144]),
    (38, 2, 'A', &[16432, 3362, 16484, 3310]),
    (39, 2, 'A', &[16484, 725020, 3310, 711950]),
    (40, 2, 'A', &[5055280, 5042210, 16484, 3310]),
    (41, 2, 'A', &[16484, 5763868, 3310, 5750798]),
    (42, 2, 'F', &[19288, 12258, 16484, 9454]),
    (43, 2, 'F', &[16484, 12258, 2883172, 2893006]),
    (44, 2, 'I', &[16624, 11514, 16484, 11374]),
    (45, 2, 'I', &[5685328, 11514, 16484, 5680078]),
    (46, 2, 'I', &[719962, 725212, 16484, 11514]),
    (47, 2, 'P', &[3360, 3200, 16320, 16482, 16484, 3362, 16322, 3198]),
    (48, 2, 'P', &[3360, 3200, 16320, 16484, 5750634, 5763918, 5750798, 5763758]),
    (49, 2, 'P', &[3200, 16482, 16484, 82092, 95052, 82094, 95054, 3198]),
    (50, 2, 'P', &[3360, 3200, 16320, 5685186, 16484, 5672066, 5685026, 5671902]),
    (51, 2, 'P', &[3360, 5042048, 5055168, 5055330, 16484, 5042210, 16322, 3198]),
    (52, 2, 'P', &[5042048, 5055330, 16484, 724908, 5750796, 711950, 5763758, 3198]),
    (53, 2, 'P', &[16320, 3362, 16484, 5120940, 5120780, 5134062, 5133902, 3198]),
    (54, 2, 'P', &[5042048, 5055330, 16484, 82092, 5133900, 5120942, 95054, 3198]),
    (55, 2, 'P', &[5672064, 5685024, 3200, 16482, 16484, 5672066, 5685026, 3198]),
    (56, 2, 'P', &[5671904, 5685186, 16484, 711948, 5133900, 5120942, 724910, 3198]),
    (57, 2, 'P', &[646176, 633218, 16484, 711948, 81932, 95214, 724910, 3198]),
    (58, 2, 'P', &[3200, 16482, 16484, 5763756, 5750796, 5750798, 5763758, 3198]),
    (59, 2, 'P', &[5672064, 5685024, 3200, 5685186, 16484, 3362, 16322, 5671902]),
    (60, 2, 'P', &[5685024, 5672066, 16484, 5750636, 82092, 5763918, 95054, 3198]),
    (61, 2, 'P', &[5685024, 5672066, 16484, 711948, 5120780, 5134062, 724910, 3198]),
    (62, 2, 'P', &[633216, 646178, 16484, 5763756, 5120780, 5134062, 5750798, 3198]),
    (63, 2, 'C', &[16484, 81932, 12270, 95214, 7412, 3198, 91004, 86142]),
    (64, 2, 'C', &[16484, 5750636, 12270, 5763918, 7412, 5754846, 5759708, 3198]),
    (65, 2, 'C', &[3200, 16482, 16484, 12270, 12272, 7410, 7412, 3198]),
    (66, 2, 'C', &[3200, 86144, 16482, 16484, 3198, 91002, 91004, 86142]),
    (67, 2, 'C', &[5671904, 5685186, 16484, 12270, 5680976, 5676114, 7412, 3198]),
    (68, 2, 'C', &[3200, 5754848, 16484, 5750634, 12270, 5763918, 7410, 5759708]),
    (69, 2, 'F', &[7424, 12258, 16484, 394, 9454, 10228, 19288, 3198]),
    (70, 2, 'F', &[12258, 16484, 2883172, 394, 2893006, 10228, 2876916, 2881142]),
    (71, 2, 'I', &[16484, 8168, 11374, 16624, 3058, 8308, 11514, 3198]),
    (72, 2, 'I', &[16484, 8168, 5680078, 5685328, 5671762, 5677012, 11514, 3198]),
    (73, 2, 'I', &[716896, 16484, 5129094, 5685328, 5671762, 5125748, 719962, 3198]),
    (74, 2, 'I', &[5125888, 16484, 5129094, 16624, 3058, 5125748, 5128954, 3198]),
    (75, 3, 'P', &[3200, 7898, 11786, 16484]),
    (76, 3, 'P', &[47264, 16484, 129884, 81932]),
    (77, 3, 'P', &[3200, 86630, 16484, 90518]),
    (78, 3, 'P', &[51152, 16484, 81932, 125996]),
    (79, 3, 'I', &[15922, 16484, 12076, 11514]),
    (80, 3, 'I', &[7964008, 11514, 16484, 7967854]),
    (81, 3, 'P', &[7896, 11784, 16484, 3200]),
    (82, 3, 'I', &[3760, 11514, 16484, 7606]),
    (83, 3, 'P', &[3200, 16482, 16484, 11784, 11786, 7896, 7898, 3198]),
    (84, 3, 'P', &[3200, 16482, 16484, 86628, 86630, 90516, 90518, 3198]),
    (85, 3, 'P', &[3200, 5685186, 16484, 11784, 5680490, 7896, 5676602, 5671902]),
    (86, 3, 'P', &[3200, 16484, 5755334, 11784, 5750634, 5763918, 5759222, 7896]),
    (87, 3, 'I', &[16484, 8168, 12076, 3760, 15922, 7606, 11514, 3198]),
    (88, 3, 'I', &[7960100, 16484, 7964008, 11514, 7967854, 3760, 7606, 7955130]),
    (89, 3, 'P', &[16320, 3200, 3360, 16484, 11786, 12270, 7410, 7898]),
    (90, 3, 'P', &[5672064, 3200, 5685024, 16484, 5680490, 12270, 7410, 5676602]),
    (91, 3, 'P', &[3360, 47264, 130368, 16484, 81932, 95052, 46776, 129884]),
    (92, 3, 'P', &[5715968, 16484, 5711430, 81932, 12270, 5803122, 5798588, 86142]),
    (93, 3, 'P', &[3360, 3200, 16320, 16484, 86630, 90518, 91002, 86142]),
    (94, 3, 'P', &[3200, 16484, 5755334, 5750796, 5763756, 12270, 7410, 5759222]),
    (95, 3, 'P', &[3360, 16484, 125508, 81932, 125996, 95052, 51152, 51636]),
    (96, 3, 'P', &[16484, 5724390, 5794700, 81932, 12270, 5719856, 5790162, 86142]),
    (97, 3, 'I', &[16484, 12076, 15922, 3058, 3956, 8308, 7410, 11514]),
    (98, 3, 'I', &[16484, 7964008, 7954990, 7967854, 7960240, 7410, 3956, 11514]),
    (99, 3, 'P', &[3200, 3362, 16322, 16484, 11786, 12272, 7412, 7898]),
    (100, 3, 'P', &[3200, 5672066, 5685026, 16484, 11786, 5680976, 5676116, 7898]),
    (101, 3, 'P', &[3200, 16484, 86630, 95054, 82094, 12272, 7412, 90518]),
    (102, 3, 'P', &[3200, 16484, 5755334, 5763758, 5750798, 12272, 7412, 5759222]),
    (103, 3, 'P', &[3200, 86144, 16484, 11786, 82094, 95054, 7898, 91004]),
    (104, 3, 'P', &[3200, 5754848, 16484, 11786, 5750798, 5763758, 7898, 5759708]),
    (105, 3, 'P', &[3200, 86144, 16322, 3362, 16484, 86630, 90518, 91004]),
    (106, 3, 'P', &[3200, 5754848, 5685026, 5672066, 16484, 86630, 90518, 5759708]),
    (107, 3, 'I', &[16484, 12076, 15726, 11374, 16624, 12272, 15922, 11514]),
    (108, 3, 'I', &[16484, 12076, 5684430, 5680078, 5685328, 5680976, 15922, 11514]),
    (109, 3, 'I', &[16484, 7964008, 7967658, 7964204, 7967854, 11374, 16624, 11514]),
    (110, 3, 'I', &[16484, 7964008, 3558666, 3555212, 5680078, 7967854, 5685328, 11514]),
    (111, 3, 'P', &[3200, 16320, 3360, 16484, 11784, 12272, 7412, 7896]),
    (112, 3, 'P', &[3200, 86144, 16484, 11784, 95052, 82092, 7896, 91004]),
    (113, 3, 'P', &[5672064, 3200, 5685024, 16484, 11784, 5680976, 5676116, 7896]),
    (114, 3, 'P', &[3200, 5754848, 16484, 11784, 5750796, 5763756, 7896, 5759708]),
    (115, 3, 'P', &[3200, 3362, 16322, 16484, 11784, 12270, 7410, 7896]),
    (116, 3, 'P', &[3200, 16484, 11784, 82094, 95054, 7896, 91002, 86142]),
    (117, 3, 'P', &[3200, 5672066, 5685026, 16484, 11784, 5680974, 5676114, 7896]),
    (118, 3, 'P', &[3200, 16484, 11784, 5750798, 5763758, 7896, 5759706, 5754846]),
    (119, 3, 'I', &[16484, 11374, 3760, 16624, 7410, 3956, 7606, 11514]),
    (120, 3, 'I', &[16484, 5680078, 3760, 5685328, 5676114, 5672660, 7606, 11514]),
    (121, 3, 'I', &[16484, 15726, 3760, 12272, 3058, 8308, 7606, 11514]),
    (122, 3, 'I', &[16484, 7967658, 7964204, 7954990, 3760, 7960240, 7606, 11514]),
    (123, 3, 'P', &[16320, 3200, 16482, 3362, 16484, 3360, 16322, 11784, 11786, 12270, 12272, 7410, 7412, 7896, 7898, 3198]),
    (124, 3, 'P', &[3200, 86144, 16482, 16484, 3198, 11784, 11786, 95052, 82092, 82094, 95054, 86142, 7896, 7898, 91004, 91002]),
    (125, 3, 'P', &[16320, 3200, 5685186, 5672066, 16484, 3360, 5685026, 5680488, 11786, 12270, 5680976, 7410, 5676116, 5676600, 7898, 5671902]),
    (126, 3, 'P', &[16320, 3200, 3360, 5754848, 5755332, 16484, 11786, 5750634, 5763918, 5750798, 12270, 5763758, 7410, 5759220, 7898, 5759708]),
    (127, 3, 'P', &[5685024, 3200, 16482, 5672066, 16484, 5672064, 5685026, 11784, 11786, 5680974, 5680976, 5676114, 5676116, 7896, 7898, 3198]),
    (128, 3, 'P', &[3200, 5754848, 16482, 16484, 3198, 11784, 11786, 5763756, 5750796, 5750798, 5763758, 7896, 5759706, 7898, 5759708, 5754846]),
    (129, 3, 'P', &[5685024, 3200, 5685186, 3362, 16484, 5672064, 16322, 11784, 5680490, 12270, 5680976, 7410, 5676116, 7896, 5676602, 5671902]),
    (130, 3, 'P', &[3200, 5754848, 5685186, 16484, 11784, 5680490, 5763756, 5750796, 82094, 95054, 5671902, 86142, 7896, 5676602, 5759708, 91002]),
    (131, 3, 'P', &[3360, 3200, 3362, 16482, 86628, 16484, 86630, 16322, 16320, 86144, 90516, 90518, 86142, 91002, 91004, 3198]),
    (132, 3, 'P', &[3200, 16482, 86628, 16484, 86630, 82092, 95052, 12270, 82094, 95054, 12272, 7410, 90516, 7412, 90518, 3198]),
    (133, 3, 'P', &[3200, 86144, 5685026, 5672066, 16484, 5755334, 11784, 5750634, 82092, 95052, 5763918, 5680974, 5676114, 5759222, 7896, 91004]),
    (134, 3, 'P', &[3360, 3200, 16320, 16484, 5755334, 11784, 5750634, 5763758, 5763918, 5750798, 12272, 7412, 5759222, 7896, 5759706, 5754846]),
    (135, 3, 'P', &[5672064, 3200, 5672066, 16482, 86628, 16484, 86630, 5685026, 5685024, 5754848, 90516, 5754846, 90518, 5759706, 5759708, 3198]),
    (136, 3, 'P', &[3200, 16482, 5755332, 16484, 5755334, 5750796, 5763756, 12270, 5750798, 5763758, 12272, 7410, 5759220, 7412, 5759222, 3198]),
    (137, 3, 'P', &[3200, 5754848, 16322, 3362, 16484, 5755334, 11784, 5750634, 5750796, 5763756, 5763918, 12270, 7410, 5759222, 7896, 5759708]),
    (138, 3, 'P', &[5672064, 3200, 5685024, 16484, 5755334, 11784, 5750634, 95054, 5763918, 82094, 5680976, 5676116, 5759222, 7896, 91002, 86142]),
    (139, 3, 'I', &[16484, 8168, 12076, 11374, 15726, 16624, 3760, 15922, 3058, 3956, 8308, 12272, 7410, 7606, 11514, 3198]),
    (140, 3, 'I', &[16484, 8168, 12076, 5680078, 5684430, 5685328, 3760, 15922, 5671762, 5672660, 5677012, 5680976, 5676114, 7606, 11514, 3198]),
    (141, 3, 'I', &[7960100, 16484, 7964008, 7967658, 7964204, 7954990, 7967854, 7960240, 3760, 7410, 11374, 3956, 16624, 7606, 7955130, 11514]),
    (142, 3, 'I', &[7960100, 16484, 7964008, 3558666, 3555212, 3545998, 7967854, 3551248, 3760, 5676114, 5680078, 5672660, 5685328, 7606, 7955130, 11514]),
    (143, 5, 'P', &[7817, 5225, 16484]),
    (144, 5, 'P', &[103640, 66866, 16484]),
    (145, 5, 'P', &[106232, 64274, 16484]),
    (146, 4, 'R', &[10816, 12064, 16484]),
    (147, 5, 'P', &[14457, 16484, 7817, 5225, 11865, 3198]),
    (148, 4, 'R', &[12064, 10816, 7618, 8866, 16484, 3198]),
    (149, 5, 'P', &[16484, 5225, 7817, 5547, 7410, 16563]),
    (150, 5, 'P', &[16484, 7817, 5225, 3117, 12270, 14133]),
    (151, 5, 'P', &[105825, 16484, 66866, 16563, 64596, 103640]),
    (152, 5, 'P', &[16484, 112548, 12270, 66866, 62166, 103640]),
    (153, 5, 'P', &[16484, 64274, 16563, 106232, 103962, 66459]),
    (154, 5, 'P', &[16484, 12270, 64274, 106232, 101532, 73182]),
    (155, 4, 'R', &[12064, 10816, 16484, 7410, 3250, 9022]),
    (156, 5, 'P', &[16484, 7817, 5225, 5549, 7412, 16565]),
    (157, 5, 'P', &[16484, 7817, 5225, 3119, 12272, 14135]),
    (158, 5, 'P', &[86144, 95297, 16484, 7817, 5225, 84281]),
    (159, 5, 'P', &[92867, 16484, 5225, 7817, 81851, 91004]),
    (160, 4, 'R', &[12064, 10816, 16484, 10660, 16432, 12272]),
    (161, 4, 'R', &[12064, 10816, 16484, 5763868, 5758096, 5759708]),
    (162, 5, 'P', &[14457, 16484, 7817, 5225, 5547, 3119, 12272, 7410, 16563, 14135, 11865, 3198]),
    (163, 5, 'P', &[14457, 92867, 16484, 7817, 5225, 84279, 11865, 3198, 81851, 91004, 86142, 95295]),
    (164, 5, 'P', &[14457, 16484, 7817, 5225, 3117, 12270, 5549, 7412, 16565, 14133, 11865, 3198]),
    (165, 5, 'P', &[86144, 95297, 92865, 14457, 16484, 84281, 7817, 5225, 11865, 81849, 91002, 3198]),
    (166, 4, 'R', &[10816, 12064, 8866, 7618, 16484, 10660, 16432, 12272, 3250, 7410, 3198, 9022]),
    (167, 4, 'R', &[10816, 12064, 8866, 7618, 16484, 5759708, 5756458, 5758096, 5750686, 5754846, 5763868, 3198]),
    (168, 5, 'P', &[3200, 16484, 5225, 7817, 11867, 14459]),
    (169, 5, 'P', &[16484, 81932, 149648, 66866, 103640, 34142]),
    (170, 5, 'P', &[16484, 81932, 152240, 64274, 106232, 31550]),
    (171, 5, 'P', &[3200, 16484, 73508, 110282, 64274, 106232]),
    (172, 5, 'P', &[3200, 16484, 70916, 112874, 66866, 103640]),
    (173, 5, 'P', &[16484, 90599, 93191, 5225, 7817, 81932]),
    (174, 5, 'P', &[16482, 16484, 5223, 7815, 5225, 7817]),
    (175, 5, 'P', &[3200, 16482, 16484, 7815, 5223, 5225, 7817, 11865, 14457, 11867, 14459, 3198]),
    (176, 5, 'P', &[14457, 16484, 93191, 90599, 7817, 5225, 81932, 95214, 83955, 86547, 11865, 3198]),
    (177, 5, 'P', &[3200, 16484, 5225, 7817, 5547, 3117, 12270, 7410, 16563, 14133, 11867, 14459]),
    (178, 5, 'P', &[16484, 145191, 81932, 149648, 66866, 14133, 36246, 71319, 103640, 101532, 84279, 34142]),
    (179, 5, 'P', &[16484, 84279, 154344, 81932, 152240, 64274, 14133, 62166, 27093, 106232, 110685, 31550]),
    (180, 5, 'P', &[3200, 105825, 16484, 73508, 110282, 5547, 64274, 14133, 62166, 106232, 75612, 110685]),
    (181, 5, 'P', &[3200, 114978, 16484, 70916, 112874, 5547, 66866, 14133, 71319, 103640, 66459, 101532]),
    (182, 5, 'P', &[16484, 90599, 93191, 5225, 7817, 81932, 3117, 12270, 14133, 84279, 86142, 95295]),
    (183, 5, 'P', &[3200, 16484, 5225, 7817, 5549, 3119, 12272, 7412, 16565, 14135, 11867, 14459]),
    (184, 5, 'P', &[3200, 95297, 86144, 92867, 16484, 81851, 5225, 7817, 84281, 11867, 14459, 91004]),
    (185, 5, 'P', &[86144, 95297, 16484, 90599, 93191, 7817, 5225, 81932, 3119, 12272, 14135, 84281]),
    (186, 5, 'P', &[92867, 16484, 90599, 93191, 5225, 7817, 81932, 5549, 7412, 16565, 81851, 91004]),
    (187, 5, 'P', &[16482, 16484, 5223, 7815, 5225, 7817, 5547, 5549, 7410, 16563, 7412, 16565]),
    (188, 5, 'P', &[86144, 95297, 16484, 5225, 7817, 5547, 95214, 7410, 83955, 86547, 16563, 84281]),
    (189, 5, 'P', &[16482, 16484, 5223, 7815, 5225, 7817, 3117, 12270, 3119, 12272, 14133, 14135]),
    (190, 5, 'P', &[92867, 16484, 5225, 7817, 3117, 95214, 12270, 83955, 86547, 14133, 81851, 91004]),
    (191, 5, 'P', &[3200, 7815, 7817, 5547, 3117, 5549, 3119, 16563, 14133, 16565, 14135, 11865, 11867, 16482, 16484, 5223, 5225, 12270, 12272, 7410, 7412, 14457, 14459, 3198]),
    (192, 5, 'P', &[3200, 86144, 7815, 7817, 84279, 81849, 84281, 81851, 95295, 92865, 95297, 92867, 11865, 3198, 11867, 16482, 16484, 5223, 5225, 14457, 91002, 14459, 91004, 86142]),
    (193, 5, 'P', &[86144, 93191, 7817, 81932, 86547, 5547, 3119, 16563, 14135, 84281, 81849, 92865, 95297, 11865, 16484, 90599, 5225, 95214, 12272, 7410, 83955, 14457, 91002, 3198]),
    (194, 5, 'P', &[93191, 7817, 81932, 86547, 5549, 3117, 14133, 16565, 84279, 81851, 95295, 92867, 11865, 3198, 16484, 90599, 5225, 12270, 95214, 83955, 7412, 14457, 91004, 86142]),
    (195, 6, 'P', &[3360, 10816, 3200, 16320, 16484, 12064, 8872, 9352, 11992, 7636, 10324, 7672]),
    (196, 6, 'F', &[10816, 16416, 12258, 12064, 16484, 608, 454, 394, 10638, 10228, 16054, 11678]),
    (197, 6, 'I', &[15648, 10816, 5216, 12064, 16484, 7814, 14158, 3058, 8308, 9174, 11514, 3838]),
    (198, 6, 'P', &[5125216, 5685024, 10816, 12064, 716260, 16484, 5120780, 711948, 5679028, 5126452, 717940, 5680696]),
    (199, 6, 'I', &[716896, 10816, 12064, 16484, 5129094, 5676518, 5121418, 713804, 724236, 5671762, 5677878, 5131738]),
    (200, 6, 'P', &[3200, 9352, 7690, 9358, 12046, 3360, 12064, 3362, 8866, 8872, 10810, 10816, 16320, 16322, 7618, 7636, 10324, 11992, 10330, 16482, 16484, 12010, 7672, 3198]),
    (201, 6, 'P', &[3200, 9352, 5750798, 5756302, 3360, 12064, 5758246, 8872, 5763758, 5755054, 10816, 16320, 5757766, 5763918, 7636, 10324, 5759446, 11992, 16484, 5750634, 5759482, 5755126, 7672, 5756794]),
    (202, 6, 'F', &[7424, 19074, 394, 10638, 19228, 11678, 16416, 12064, 8866, 3628, 16054, 10816, 3266, 7618, 8004, 454, 9044, 19288, 608, 12258, 16484, 9454, 10228, 3198]),
    (203, 6, 'F', &[394, 10638, 2892946, 2882584, 11678, 16416, 12064, 2877346, 16054, 2876984, 2881336, 2881722, 10816, 454, 2882762, 2893006, 608, 12258, 2883172, 16484, 2876916, 10228, 2881142, 2892792]),
    (204, 6, 'I', &[14466, 7814, 10508, 5524, 15648, 12064, 8866, 10816, 7618, 4034, 14158, 9174, 3198, 11868, 5216, 16484, 15844, 8168, 11374, 16624, 3058, 8308, 11514, 3838]),
    (205, 6, 'P', &[5672066, 711948, 5120780, 5129626, 5685024, 12064, 8866, 724910, 5126452, 5679028, 5680696, 10816, 7618, 5128390, 718918, 720598, 5125216, 716260, 16484, 5676394, 5134062, 5678062, 717940, 3198]),
    (206, 6, 'I', &[5129094, 5121418, 724236, 5123104, 12064, 8866, 712622, 5677878, 5680572, 10816, 7618, 713804, 5685328, 5671762, 5131738, 719962, 716896, 16484, 5676518, 5679212, 723054, 5133424, 5125748, 3198]),
    (207, 6, 'P', &[3200, 10498, 9352, 11786, 10642, 3360, 12064, 8872, 16426, 3250, 9022, 16320, 10816, 10324, 7636, 11992, 7898, 16484, 12270, 3310, 7410, 9202, 7672, 16378]),
    (208, 6, 'P', &[3200, 9352, 5763862, 5750686, 12064, 3360, 8872, 5756458, 10816, 16320, 5755334, 10324, 7636, 11992, 5759706, 5750746, 5754846, 5756638, 16484, 5763814, 5757934, 5759222, 7672, 5758078]),
    (209, 6, 'F', &[19072, 394, 3212, 10638, 11678, 12064, 16416, 19236, 3630, 3250, 8882, 16054, 7996, 9022, 10816, 454, 19282, 7640, 608, 12258, 16484, 7410, 9460, 10228]),
    (210, 6, 'F', &[2876930, 394, 10638, 2892954, 11678, 16416, 12064, 2877348, 2882600, 2876968, 2881714, 2882740, 16054, 10816, 454, 2893000, 2881358, 608, 12258, 16484, 2881128, 2883178, 10228, 2892790]),
    (211, 6, 'I', &[11140, 7814, 12064, 15648, 12076, 5550, 3250, 15922, 16572, 9022, 10816, 14158, 8402, 9174, 5216, 16484, 14440, 10352, 3058, 7410, 3956, 8308, 11514, 3838]),
    (212, 6, 'P', &[5120780, 711948, 3598732, 12064, 5685024, 2876968, 5679028, 5126452, 2882740, 5680696, 10816, 3594576, 8558800, 8552920, 7999196, 8554208, 5125216, 16484, 716260, 2881128, 7994608, 717940, 8000500, 3592948]),
    (213, 6, 'P', &[2962948, 7923208, 5120780, 711948, 2964236, 8624404, 12064, 5685024, 7928992, 8630176, 3511472, 5679028, 5126452, 5680696, 10816, 3506884, 3512776, 8628564, 5125216, 7924836, 16484, 716260, 717940, 2968828]),
    (214, 6, 'I', &[5049988, 5129094, 5121418, 724236, 641932, 646428, 5750686, 12064, 5756458, 5677878, 84282, 94654, 10816, 713804, 640208, 5671762, 5131738, 5754846, 87134, 716896, 16484, 5676518, 5053288, 5042804]),
    (215, 6, 'P', &[3200, 11784, 9352, 3360, 12064, 10660, 8872, 16432, 3256, 16320, 10816, 9040, 10324, 7636, 11992, 7896, 9184, 16484, 3304, 12272, 10480, 7412, 16372, 7672]),
    (216, 6, 'F', &[394, 12042, 10638, 400, 11678, 12064, 16416, 10660, 11686, 10800, 16432, 16052, 16054, 446, 10816, 454, 16470, 608, 12258, 610, 16484, 10222, 12272, 10228]),
    (217, 6, 'I', &[7814, 11280, 12064, 15648, 10660, 3110, 16432, 3760, 14132, 7606, 10816, 11514, 14158, 9174, 8542, 5216, 16484, 15726, 12272, 3058, 9330, 8308, 5242, 3838]),
    (218, 6, 'P', &[3200, 9352, 5758096, 5763868, 3360, 12064, 5750692, 8872, 5756476, 16320, 10816, 5755332, 5756620, 5750740, 10324, 7636, 11992, 5759708, 5757916, 5754848, 5763808, 16484, 5759220, 7672]),
    (219, 6, 'F', &[394, 10638, 5758096, 5759122, 5763868, 5758236, 11678, 12064, 16416, 5763488, 5747882, 16054, 10816, 5763906, 454, 5748046, 5757658, 5759708, 608, 12258, 16484, 10228, 5759478, 5747836]),
    (220, 6, 'I', &[5129094, 632966, 5121418, 724236, 5758096, 637462, 5763868, 90012, 12064, 5677878, 82492, 10816, 92864, 713804, 5671762, 639186, 5131738, 5759708, 5047390, 716896, 16484, 5676518, 5054574, 5044090]),
    (221, 6, 'P', &[3200, 10498, 9352, 11784, 7690, 11786, 9358, 12046, 10642, 3360, 12064, 8866, 3362, 10660, 8872, 16426, 16432, 3250, 3256, 10810, 9022, 16320, 10816, 7618, 16322, 9040, 10324, 7636, 11992, 7896, 7898, 10330, 9184, 16482, 16484, 3304, 12010, 12270, 3310, 12272, 10480, 7410, 9202, 16372, 7412, 7672, 16378, 3198]),
    (222, 6, 'P', &[3200, 10498, 9352, 11786, 5756302, 5750798, 5758096, 10642, 5763868, 5756794, 3360, 12064, 5750692, 5758246, 8872, 16426, 5755054, 5763758, 3250, 5756476, 9022, 16320, 10816, 5755332, 5757766, 5756620, 5763918, 5750740, 10324, 5759446, 7636, 11992, 7898, 5759708, 5757916, 5763808, 5754848, 16484, 5750634, 12270, 3310, 5759482, 7410, 9202, 5759220, 5755126, 7672, 16378]),
    (223, 6, 'P', &[3200, 9352, 7690, 9358, 12046, 5758096, 5763862, 5763868, 5750686, 3360, 12064, 8866, 3362, 5750692, 8872, 5756458, 10810, 5756476, 16320, 10816, 7618, 16322, 5755332, 5755334, 5756620, 5750740, 10324, 7636, 11992, 5759706, 10330, 5759708, 5757916, 5754846, 5750746, 5763808, 5756638, 3198, 16482, 16484, 5754848, 5763814, 12010, 5757934, 5759220, 5759222, 7672, 5758078]),
    (224, 6, 'P', &[3200, 9352, 11784, 5756302, 5750798, 5763862, 5750686, 3360, 12064, 10660, 5758246, 8872, 5756458, 5755054, 5763758, 16432, 3256, 16320, 10816, 5757766, 5755334, 5763918, 9040, 10324, 7636, 5759446, 11992, 7896, 5759706, 5750746, 5754846, 5756638, 9184, 16484, 5763814, 3304, 5750634, 5757934, 12272, 10480, 5759482, 16372, 7412, 5755126, 5759222, 7672, 5756794, 5758078]),
    (225, 6, 'F', &[19072, 7424, 19074, 394, 12042, 3212, 10638, 400, 19228, 11678, 16416, 12064, 8866, 10660, 19236, 11686, 3628, 3630, 10800, 16432, 8882, 3250, 16052, 16054, 7996, 9022, 446, 10816, 7618, 3266, 8004, 454, 19282, 9044, 16470, 19288, 7640, 608, 12258, 610, 16484, 9454, 10222, 12272, 7410, 9460, 10228, 3198]),
    (226, 6, 'F', &[7424, 19074, 394, 10638, 5758096, 5766672, 5759122, 5751066, 5763868, 5758236, 19228, 5756318, 16416, 5763488, 8866, 11678, 5750686, 12064, 5755432, 5756458, 5747882, 3628, 16054, 5766718, 10816, 7618, 3266, 8004, 5763906, 454, 5755076, 5748046, 9044, 19288, 5757658, 5759708, 5754846, 5756896, 608, 12258, 16484, 5766508, 9454, 10228, 5759478, 5750648, 5747836, 3198]),
    (227, 6, 'F', &[2876930, 394, 12042, 10638, 400, 2892946, 2882584, 2892954, 11678, 16416, 12064, 2877346, 10660, 2877348, 11686, 2882600, 2876968, 10800, 16432, 2881714, 16052, 2882740, 16054, 2881336, 2876984, 2881722, 446, 10816, 454, 2893000, 2882762, 2893006, 2881358, 16470, 608, 12258, 610, 16484, 2883172, 2881128, 2883178, 10222, 12272, 10228, 2876916, 2892790, 2881142, 2892792]),
    (228, 6, 'F', &[2876930, 8630020, 394, 8624782, 10638, 5758096, 5759122, 2892954, 5763868, 5758236, 11678, 16416, 5763488, 12064, 8628772, 8624420, 8629158, 2877348, 2882600, 2876968, 5747882, 2881714, 2882740, 8630198, 16054, 8640442, 10816, 5763906, 454, 2893000, 5748046, 2881358, 8630608, 5757658, 5759708, 608, 8624352, 12258, 8628578, 8640228, 16484, 2881128, 2883178, 10228, 5759478, 2892790, 5747836, 8640382]),
    (229, 6, 'I', &[14466, 11140, 7814, 5242, 10508, 11280, 5524, 12064, 15648, 8866, 10660, 3110, 12076, 5550, 16432, 3760, 15922, 3250, 14132, 7606, 16572, 9022, 10816, 7618, 4034, 14158, 8402, 9174, 3198, 11868, 8542, 5216, 16484, 15844, 14440, 8168, 11374, 15726, 12272, 16624, 3058, 7410, 3956, 8308, 10352, 9330, 11514, 3838]),
    (230, 6, 'I', &[5049988, 5129094, 632966, 5121418, 641932, 724236, 5758096, 637462, 5763868, 90012, 646428, 5750686, 12064, 5123104, 8866, 5756458, 712622, 5677878, 84282, 5680572, 82492, 94654, 10816, 92864, 7618, 713804, 5685328, 640208, 5671762, 639186, 719962, 5131738, 5759708, 87134, 5047390, 716896, 5754846, 16484, 5676518, 5053288, 5679212, 723054, 5054574, 5133424, 5042804, 5125748, 5044090, 3198]),
];

// General categories of the code points on which the Unicode databases 3.2 and 15 agree (made with Python's unicodedata):
// whatever version the tool's tables come from has to agree with them there. (U+180E, which changed twice in between, is left out.)
#ifndef VERIF_UNI_CAT_H
#define VERIF_UNI_CAT_H
struct uni_row { int a, b; const char* cat; };
static const uni_row UNI_CAT[] = {
{0,31,"Cc"},{32,32,"Zs"},{33,35,"Po"},{36,36,"Sc"},{37,39,"Po"},{40,40,"Ps"},{41,41,"Pe"},{42,42,"Po"},{43,43,"Sm"},{44,44,"Po"},{45,45,"Pd"},{46,47,"Po"},
{48,57,"Nd"},{58,59,"Po"},{60,62,"Sm"},{63,64,"Po"},{65,90,"Lu"},{91,91,"Ps"},{92,92,"Po"},{93,93,"Pe"},{94,94,"Sk"},{95,95,"Pc"},{96,96,"Sk"},{97,122,"Ll"},
{123,123,"Ps"},{124,124,"Sm"},{125,125,"Pe"},{126,126,"Sm"},{127,159,"Cc"},{160,160,"Zs"},{161,161,"Po"},{162,165,"Sc"},{166,166,"So"},{168,168,"Sk"},{169,169,"So"},
{171,171,"Pi"},{172,172,"Sm"},{174,174,"So"},{175,175,"Sk"},{176,176,"So"},{177,177,"Sm"},{178,179,"No"},{180,180,"Sk"},{181,181,"Ll"},{183,183,"Po"},{184,184,"Sk"},
{185,185,"No"},{187,187,"Pf"},{188,190,"No"},{191,191,"Po"},{192,214,"Lu"},{215,215,"Sm"},{216,222,"Lu"},{223,246,"Ll"},{247,247,"Sm"},{248,255,"Ll"},{256,256,"Lu"},
{257,257,"Ll"},{258,258,"Lu"},{259,259,"Ll"},{260,260,"Lu"},{261,261,"Ll"},{262,262,"Lu"},{263,263,"Ll"},{264,264,"Lu"},{265,265,"Ll"},{266,266,"Lu"},{267,267,"Ll"},
{268,268,"Lu"},{269,269,"Ll"},{270,270,"Lu"},{271,271,"Ll"},{272,272,"Lu"},{273,273,"Ll"},{274,274,"Lu"},{275,275,"Ll"},{276,276,"Lu"},{277,277,"Ll"},{278,278,"Lu"},
{279,279,"Ll"},{280,280,"Lu"},{281,281,"Ll"},{282,282,"Lu"},{283,283,"Ll"},{284,284,"Lu"},{285,285,"Ll"},{286,286,"Lu"},{287,287,"Ll"},{288,288,"Lu"},{289,289,"Ll"},
{290,290,"Lu"},{291,291,"Ll"},{292,292,"Lu"},{293,293,"Ll"},{294,294,"Lu"},{295,295,"Ll"},{296,296,"Lu"},{297,297,"Ll"},{298,298,"Lu"},{299,299,"Ll"},{300,300,"Lu"},
{301,301,"Ll"},{302,302,"Lu"},{303,303,"Ll"},{304,304,"Lu"},{305,305,"Ll"},{306,306,"Lu"},{307,307,"Ll"},{308,308,"Lu"},{309,309,"Ll"},{310,310,"Lu"},{311,312,"Ll"},
{313,313,"Lu"},{314,314,"Ll"},{315,315,"Lu"},{316,316,"Ll"},{317,317,"Lu"},{318,318,"Ll"},{319,319,"Lu"},{320,320,"Ll"},{321,321,"Lu"},{322,322,"Ll"},{323,323,"Lu"},
{324,324,"Ll"},{325,325,"Lu"},{326,326,"Ll"},{327,327,"Lu"},{328,329,"Ll"},{330,330,"Lu"},{331,331,"Ll"},{332,332,"Lu"},{333,333,"Ll"},{334,334,"Lu"},{335,335,"Ll"},
{336,336,"Lu"},{337,337,"Ll"},{338,338,"Lu"},{339,339,"Ll"},{340,340,"Lu"},{341,341,"Ll"},{342,342,"Lu"},{343,343,"Ll"},{344,344,"Lu"},{345,345,"Ll"},{346,346,"Lu"},
{347,347,"Ll"},{348,348,"Lu"},{349,349,"Ll"},{350,350,"Lu"},{351,351,"Ll"},{352,352,"Lu"},{353,353,"Ll"},{354,354,"Lu"},{355,355,"Ll"},{356,356,"Lu"},{357,357,"Ll"},
{358,358,"Lu"},{359,359,"Ll"},{360,360,"Lu"},{361,361,"Ll"},{362,362,"Lu"},{363,363,"Ll"},{364,364,"Lu"},{365,365,"Ll"},{366,366,"Lu"},{367,367,"Ll"},{368,368,"Lu"},
{369,369,"Ll"},{370,370,"Lu"},{371,371,"Ll"},{372,372,"Lu"},{373,373,"Ll"},{374,374,"Lu"},{375,375,"Ll"},{376,377,"Lu"},{378,378,"Ll"},{379,379,"Lu"},{380,380,"Ll"},
{381,381,"Lu"},{382,384,"Ll"},{385,386,"Lu"},{387,387,"Ll"},{388,388,"Lu"},{389,389,"Ll"},{390,391,"Lu"},{392,392,"Ll"},{393,395,"Lu"},{396,397,"Ll"},{398,401,"Lu"},
{402,402,"Ll"},{403,404,"Lu"},{405,405,"Ll"},{406,408,"Lu"},{409,411,"Ll"},{412,413,"Lu"},{414,414,"Ll"},{415,416,"Lu"},{417,417,"Ll"},{418,418,"Lu"},{419,419,"Ll"},
{420,420,"Lu"},{421,421,"Ll"},{422,423,"Lu"},{424,424,"Ll"},{425,425,"Lu"},{426,427,"Ll"},{428,428,"Lu"},{429,429,"Ll"},{430,431,"Lu"},{432,432,"Ll"},{433,435,"Lu"},
{436,436,"Ll"},{437,437,"Lu"},{438,438,"Ll"},{439,440,"Lu"},{441,442,"Ll"},{443,443,"Lo"},{444,444,"Lu"},{445,447,"Ll"},{448,451,"Lo"},{452,452,"Lu"},{453,453,"Lt"},
{454,454,"Ll"},{455,455,"Lu"},{456,456,"Lt"},{457,457,"Ll"},{458,458,"Lu"},{459,459,"Lt"},{460,460,"Ll"},{461,461,"Lu"},{462,462,"Ll"},{463,463,"Lu"},{464,464,"Ll"},
{465,465,"Lu"},{466,466,"Ll"},{467,467,"Lu"},{468,468,"Ll"},{469,469,"Lu"},{470,470,"Ll"},{471,471,"Lu"},{472,472,"Ll"},{473,473,"Lu"},{474,474,"Ll"},{475,475,"Lu"},
{476,477,"Ll"},{478,478,"Lu"},{479,479,"Ll"},{480,480,"Lu"},{481,481,"Ll"},{482,482,"Lu"},{483,483,"Ll"},{484,484,"Lu"},{485,485,"Ll"},{486,486,"Lu"},{487,487,"Ll"},
{488,488,"Lu"},{489,489,"Ll"},{490,490,"Lu"},{491,491,"Ll"},{492,492,"Lu"},{493,493,"Ll"},{494,494,"Lu"},{495,496,"Ll"},{497,497,"Lu"},{498,498,"Lt"},{499,499,"Ll"},
{500,500,"Lu"},{501,501,"Ll"},{502,504,"Lu"},{505,505,"Ll"},{506,506,"Lu"},{507,507,"Ll"},{508,508,"Lu"},{509,509,"Ll"},{510,510,"Lu"},{511,511,"Ll"},{512,512,"Lu"},
{513,513,"Ll"},{514,514,"Lu"},{515,515,"Ll"},{516,516,"Lu"},{517,517,"Ll"},{518,518,"Lu"},{519,519,"Ll"},{520,520,"Lu"},{521,521,"Ll"},{522,522,"Lu"},{523,523,"Ll"},
{524,524,"Lu"},{525,525,"Ll"},{526,526,"Lu"},{527,527,"Ll"},{528,528,"Lu"},{529,529,"Ll"},{530,530,"Lu"},{531,531,"Ll"},{532,532,"Lu"},{533,533,"Ll"},{534,534,"Lu"},
{535,535,"Ll"},{536,536,"Lu"},{537,537,"Ll"},{538,538,"Lu"},{539,539,"Ll"},{540,540,"Lu"},{541,541,"Ll"},{542,542,"Lu"},{543,543,"Ll"},{544,544,"Lu"},{546,546,"Lu"},
{547,547,"Ll"},{548,548,"Lu"},{549,549,"Ll"},{550,550,"Lu"},{551,551,"Ll"},{552,552,"Lu"},{553,553,"Ll"},{554,554,"Lu"},{555,555,"Ll"},{556,556,"Lu"},{557,557,"Ll"},
{558,558,"Lu"},{559,559,"Ll"},{560,560,"Lu"},{561,561,"Ll"},{562,562,"Lu"},{563,563,"Ll"},{592,659,"Ll"},{661,685,"Ll"},{688,696,"Lm"},{699,705,"Lm"},{706,709,"Sk"},
{720,721,"Lm"},{722,735,"Sk"},{736,740,"Lm"},{741,747,"Sk"},{749,749,"Sk"},{750,750,"Lm"},{768,847,"Mn"},{864,879,"Mn"},{885,885,"Sk"},{890,890,"Lm"},{894,894,"Po"},
{900,901,"Sk"},{902,902,"Lu"},{903,903,"Po"},{904,906,"Lu"},{908,908,"Lu"},{910,911,"Lu"},{912,912,"Ll"},{913,929,"Lu"},{931,939,"Lu"},{940,974,"Ll"},{976,977,"Ll"},
{978,980,"Lu"},{981,983,"Ll"},{984,984,"Lu"},{985,985,"Ll"},{986,986,"Lu"},{987,987,"Ll"},{988,988,"Lu"},{989,989,"Ll"},{990,990,"Lu"},{991,991,"Ll"},{992,992,"Lu"},
{993,993,"Ll"},{994,994,"Lu"},{995,995,"Ll"},{996,996,"Lu"},{997,997,"Ll"},{998,998,"Lu"},{999,999,"Ll"},{1000,1000,"Lu"},{1001,1001,"Ll"},{1002,1002,"Lu"},
{1003,1003,"Ll"},{1004,1004,"Lu"},{1005,1005,"Ll"},{1006,1006,"Lu"},{1007,1011,"Ll"},{1012,1012,"Lu"},{1013,1013,"Ll"},{1014,1014,"Sm"},{1024,1071,"Lu"},
{1072,1119,"Ll"},{1120,1120,"Lu"},{1121,1121,"Ll"},{1122,1122,"Lu"},{1123,1123,"Ll"},{1124,1124,"Lu"},{1125,1125,"Ll"},{1126,1126,"Lu"},{1127,1127,"Ll"},
{1128,1128,"Lu"},{1129,1129,"Ll"},{1130,1130,"Lu"},{1131,1131,"Ll"},{1132,1132,"Lu"},{1133,1133,"Ll"},{1134,1134,"Lu"},{1135,1135,"Ll"},{1136,1136,"Lu"},
{1137,1137,"Ll"},{1138,1138,"Lu"},{1139,1139,"Ll"},{1140,1140,"Lu"},{1141,1141,"Ll"},{1142,1142,"Lu"},{1143,1143,"Ll"},{1144,1144,"Lu"},{1145,1145,"Ll"},
{1146,1146,"Lu"},{1147,1147,"Ll"},{1148,1148,"Lu"},{1149,1149,"Ll"},{1150,1150,"Lu"},{1151,1151,"Ll"},{1152,1152,"Lu"},{1153,1153,"Ll"},{1154,1154,"So"},
{1155,1158,"Mn"},{1160,1161,"Me"},{1162,1162,"Lu"},{1163,1163,"Ll"},{1164,1164,"Lu"},{1165,1165,"Ll"},{1166,1166,"Lu"},{1167,1167,"Ll"},{1168,1168,"Lu"},
{1169,1169,"Ll"},{1170,1170,"Lu"},{1171,1171,"Ll"},{1172,1172,"Lu"},{1173,1173,"Ll"},{1174,1174,"Lu"},{1175,1175,"Ll"},{1176,1176,"Lu"},{1177,1177,"Ll"},
{1178,1178,"Lu"},{1179,1179,"Ll"},{1180,1180,"Lu"},{1181,1181,"Ll"},{1182,1182,"Lu"},{1183,1183,"Ll"},{1184,1184,"Lu"},{1185,1185,"Ll"},{1186,1186,"Lu"},
{1187,1187,"Ll"},{1188,1188,"Lu"},{1189,1189,"Ll"},{1190,1190,"Lu"},{1191,1191,"Ll"},{1192,1192,"Lu"},{1193,1193,"Ll"},{1194,1194,"Lu"},{1195,1195,"Ll"},
{1196,1196,"Lu"},{1197,1197,"Ll"},{1198,1198,"Lu"},{1199,1199,"Ll"},{1200,1200,"Lu"},{1201,1201,"Ll"},{1202,1202,"Lu"},{1203,1203,"Ll"},{1204,1204,"Lu"},
{1205,1205,"Ll"},{1206,1206,"Lu"},{1207,1207,"Ll"},{1208,1208,"Lu"},{1209,1209,"Ll"},{1210,1210,"Lu"},{1211,1211,"Ll"},{1212,1212,"Lu"},{1213,1213,"Ll"},
{1214,1214,"Lu"},{1215,1215,"Ll"},{1216,1217,"Lu"},{1218,1218,"Ll"},{1219,1219,"Lu"},{1220,1220,"Ll"},{1221,1221,"Lu"},{1222,1222,"Ll"},{1223,1223,"Lu"},
{1224,1224,"Ll"},{1225,1225,"Lu"},{1226,1226,"Ll"},{1227,1227,"Lu"},{1228,1228,"Ll"},{1229,1229,"Lu"},{1230,1230,"Ll"},{1232,1232,"Lu"},{1233,1233,"Ll"},
{1234,1234,"Lu"},{1235,1235,"Ll"},{1236,1236,"Lu"},{1237,1237,"Ll"},{1238,1238,"Lu"},{1239,1239,"Ll"},{1240,1240,"Lu"},{1241,1241,"Ll"},{1242,1242,"Lu"},
{1243,1243,"Ll"},{1244,1244,"Lu"},{1245,1245,"Ll"},{1246,1246,"Lu"},{1247,1247,"Ll"},{1248,1248,"Lu"},{1249,1249,"Ll"},{1250,1250,"Lu"},{1251,1251,"Ll"},
{1252,1252,"Lu"},{1253,1253,"Ll"},{1254,1254,"Lu"},{1255,1255,"Ll"},{1256,1256,"Lu"},{1257,1257,"Ll"},{1258,1258,"Lu"},{1259,1259,"Ll"},{1260,1260,"Lu"},
{1261,1261,"Ll"},{1262,1262,"Lu"},{1263,1263,"Ll"},{1264,1264,"Lu"},{1265,1265,"Ll"},{1266,1266,"Lu"},{1267,1267,"Ll"},{1268,1268,"Lu"},{1269,1269,"Ll"},
{1272,1272,"Lu"},{1273,1273,"Ll"},{1280,1280,"Lu"},{1281,1281,"Ll"},{1282,1282,"Lu"},{1283,1283,"Ll"},{1284,1284,"Lu"},{1285,1285,"Ll"},{1286,1286,"Lu"},
{1287,1287,"Ll"},{1288,1288,"Lu"},{1289,1289,"Ll"},{1290,1290,"Lu"},{1291,1291,"Ll"},{1292,1292,"Lu"},{1293,1293,"Ll"},{1294,1294,"Lu"},{1295,1295,"Ll"},
{1329,1366,"Lu"},{1369,1369,"Lm"},{1370,1375,"Po"},{1377,1415,"Ll"},{1417,1417,"Po"},{1418,1418,"Pd"},{1425,1441,"Mn"},{1443,1465,"Mn"},{1467,1469,"Mn"},
{1471,1471,"Mn"},{1472,1472,"Po"},{1473,1474,"Mn"},{1475,1475,"Po"},{1476,1476,"Mn"},{1488,1514,"Lo"},{1520,1522,"Lo"},{1523,1524,"Po"},{1548,1548,"Po"},
{1563,1563,"Po"},{1567,1567,"Po"},{1569,1594,"Lo"},{1600,1600,"Lm"},{1601,1610,"Lo"},{1611,1621,"Mn"},{1632,1641,"Nd"},{1642,1645,"Po"},{1646,1647,"Lo"},
{1648,1648,"Mn"},{1649,1747,"Lo"},{1748,1748,"Po"},{1749,1749,"Lo"},{1750,1756,"Mn"},{1757,1757,"Cf"},{1759,1764,"Mn"},{1765,1766,"Lm"},{1767,1768,"Mn"},
{1769,1769,"So"},{1770,1773,"Mn"},{1776,1785,"Nd"},{1786,1788,"Lo"},{1789,1790,"So"},{1792,1805,"Po"},{1807,1807,"Cf"},{1808,1808,"Lo"},{1809,1809,"Mn"},
{1810,1836,"Lo"},{1840,1866,"Mn"},{1920,1957,"Lo"},{1958,1968,"Mn"},{1969,1969,"Lo"},{2305,2306,"Mn"},{2307,2307,"Mc"},{2309,2361,"Lo"},{2364,2364,"Mn"},
{2365,2365,"Lo"},{2366,2368,"Mc"},{2369,2376,"Mn"},{2377,2380,"Mc"},{2381,2381,"Mn"},{2384,2384,"Lo"},{2385,2388,"Mn"},{2392,2401,"Lo"},{2402,2403,"Mn"},
{2404,2405,"Po"},{2406,2415,"Nd"},{2416,2416,"Po"},{2433,2433,"Mn"},{2434,2435,"Mc"},{2437,2444,"Lo"},{2447,2448,"Lo"},{2451,2472,"Lo"},{2474,2480,"Lo"},
{2482,2482,"Lo"},{2486,2489,"Lo"},{2492,2492,"Mn"},{2494,2496,"Mc"},{2497,2500,"Mn"},{2503,2504,"Mc"},{2507,2508,"Mc"},{2509,2509,"Mn"},{2519,2519,"Mc"},
{2524,2525,"Lo"},{2527,2529,"Lo"},{2530,2531,"Mn"},{2534,2543,"Nd"},{2544,2545,"Lo"},{2546,2547,"Sc"},{2548,2553,"No"},{2554,2554,"So"},{2562,2562,"Mn"},
{2565,2570,"Lo"},{2575,2576,"Lo"},{2579,2600,"Lo"},{2602,2608,"Lo"},{2610,2611,"Lo"},{2613,2614,"Lo"},{2616,2617,"Lo"},{2620,2620,"Mn"},{2622,2624,"Mc"},
{2625,2626,"Mn"},{2631,2632,"Mn"},{2635,2637,"Mn"},{2649,2652,"Lo"},{2654,2654,"Lo"},{2662,2671,"Nd"},{2672,2673,"Mn"},{2674,2676,"Lo"},{2689,2690,"Mn"},
{2691,2691,"Mc"},{2693,2699,"Lo"},{2701,2701,"Lo"},{2703,2705,"Lo"},{2707,2728,"Lo"},{2730,2736,"Lo"},{2738,2739,"Lo"},{2741,2745,"Lo"},{2748,2748,"Mn"},
{2749,2749,"Lo"},{2750,2752,"Mc"},{2753,2757,"Mn"},{2759,2760,"Mn"},{2761,2761,"Mc"},{2763,2764,"Mc"},{2765,2765,"Mn"},{2768,2768,"Lo"},{2784,2784,"Lo"},
{2790,2799,"Nd"},{2817,2817,"Mn"},{2818,2819,"Mc"},{2821,2828,"Lo"},{2831,2832,"Lo"},{2835,2856,"Lo"},{2858,2864,"Lo"},{2866,2867,"Lo"},{2870,2873,"Lo"},
{2876,2876,"Mn"},{2877,2877,"Lo"},{2878,2878,"Mc"},{2879,2879,"Mn"},{2880,2880,"Mc"},{2881,2883,"Mn"},{2887,2888,"Mc"},{2891,2892,"Mc"},{2893,2893,"Mn"},
{2902,2902,"Mn"},{2903,2903,"Mc"},{2908,2909,"Lo"},{2911,2913,"Lo"},{2918,2927,"Nd"},{2928,2928,"So"},{2946,2946,"Mn"},{2947,2947,"Lo"},{2949,2954,"Lo"},
{2958,2960,"Lo"},{2962,2965,"Lo"},{2969,2970,"Lo"},{2972,2972,"Lo"},{2974,2975,"Lo"},{2979,2980,"Lo"},{2984,2986,"Lo"},{2990,2997,"Lo"},{2999,3001,"Lo"},
{3006,3007,"Mc"},{3008,3008,"Mn"},{3009,3010,"Mc"},{3014,3016,"Mc"},{3018,3020,"Mc"},{3021,3021,"Mn"},{3031,3031,"Mc"},{3047,3055,"Nd"},{3056,3058,"No"},
{3073,3075,"Mc"},{3077,3084,"Lo"},{3086,3088,"Lo"},{3090,3112,"Lo"},{3114,3123,"Lo"},{3125,3129,"Lo"},{3134,3136,"Mn"},{3137,3140,"Mc"},{3142,3144,"Mn"},
{3146,3149,"Mn"},{3157,3158,"Mn"},{3168,3169,"Lo"},{3174,3183,"Nd"},{3202,3203,"Mc"},{3205,3212,"Lo"},{3214,3216,"Lo"},{3218,3240,"Lo"},{3242,3251,"Lo"},
{3253,3257,"Lo"},{3262,3262,"Mc"},{3263,3263,"Mn"},{3264,3268,"Mc"},{3270,3270,"Mn"},{3271,3272,"Mc"},{3274,3275,"Mc"},{3276,3277,"Mn"},{3285,3286,"Mc"},
{3294,3294,"Lo"},{3296,3297,"Lo"},{3302,3311,"Nd"},{3330,3331,"Mc"},{3333,3340,"Lo"},{3342,3344,"Lo"},{3346,3368,"Lo"},{3370,3385,"Lo"},{3390,3392,"Mc"},
{3393,3395,"Mn"},{3398,3400,"Mc"},{3402,3404,"Mc"},{3405,3405,"Mn"},{3415,3415,"Mc"},{3424,3425,"Lo"},{3430,3439,"Nd"},{3458,3459,"Mc"},{3461,3478,"Lo"},
{3482,3505,"Lo"},{3507,3515,"Lo"},{3517,3517,"Lo"},{3520,3526,"Lo"},{3530,3530,"Mn"},{3535,3537,"Mc"},{3538,3540,"Mn"},{3542,3542,"Mn"},{3544,3551,"Mc"},
{3570,3571,"Mc"},{3572,3572,"Po"},{3585,3632,"Lo"},{3633,3633,"Mn"},{3634,3635,"Lo"},{3636,3642,"Mn"},{3647,3647,"Sc"},{3648,3653,"Lo"},{3654,3654,"Lm"},
{3655,3662,"Mn"},{3663,3663,"Po"},{3664,3673,"Nd"},{3674,3675,"Po"},{3713,3714,"Lo"},{3716,3716,"Lo"},{3719,3720,"Lo"},{3722,3722,"Lo"},{3725,3725,"Lo"},
{3732,3735,"Lo"},{3737,3743,"Lo"},{3745,3747,"Lo"},{3749,3749,"Lo"},{3751,3751,"Lo"},{3754,3755,"Lo"},{3757,3760,"Lo"},{3761,3761,"Mn"},{3762,3763,"Lo"},
{3764,3769,"Mn"},{3771,3772,"Mn"},{3773,3773,"Lo"},{3776,3780,"Lo"},{3782,3782,"Lm"},{3784,3789,"Mn"},{3792,3801,"Nd"},{3804,3805,"Lo"},{3840,3840,"Lo"},
{3841,3843,"So"},{3844,3858,"Po"},{3859,3859,"So"},{3861,3863,"So"},{3864,3865,"Mn"},{3866,3871,"So"},{3872,3881,"Nd"},{3882,3891,"No"},{3892,3892,"So"},
{3893,3893,"Mn"},{3894,3894,"So"},{3895,3895,"Mn"},{3896,3896,"So"},{3897,3897,"Mn"},{3898,3898,"Ps"},{3899,3899,"Pe"},{3900,3900,"Ps"},{3901,3901,"Pe"},
{3902,3903,"Mc"},{3904,3911,"Lo"},{3913,3946,"Lo"},{3953,3966,"Mn"},{3967,3967,"Mc"},{3968,3972,"Mn"},{3973,3973,"Po"},{3974,3975,"Mn"},{3976,3979,"Lo"},
{3984,3991,"Mn"},{3993,4028,"Mn"},{4030,4037,"So"},{4038,4038,"Mn"},{4039,4044,"So"},{4047,4047,"So"},{4096,4129,"Lo"},{4131,4135,"Lo"},{4137,4138,"Lo"},
{4140,4140,"Mc"},{4141,4144,"Mn"},{4145,4145,"Mc"},{4146,4146,"Mn"},{4150,4151,"Mn"},{4152,4152,"Mc"},{4153,4153,"Mn"},{4160,4169,"Nd"},{4170,4175,"Po"},
{4176,4181,"Lo"},{4182,4183,"Mc"},{4184,4185,"Mn"},{4256,4293,"Lu"},{4347,4347,"Po"},{4352,4441,"Lo"},{4447,4514,"Lo"},{4520,4601,"Lo"},{4608,4614,"Lo"},
{4616,4678,"Lo"},{4680,4680,"Lo"},{4682,4685,"Lo"},{4688,4694,"Lo"},{4696,4696,"Lo"},{4698,4701,"Lo"},{4704,4742,"Lo"},{4744,4744,"Lo"},{4746,4749,"Lo"},
{4752,4782,"Lo"},{4784,4784,"Lo"},{4786,4789,"Lo"},{4792,4798,"Lo"},{4800,4800,"Lo"},{4802,4805,"Lo"},{4808,4814,"Lo"},{4816,4822,"Lo"},{4824,4846,"Lo"},
{4848,4878,"Lo"},{4880,4880,"Lo"},{4882,4885,"Lo"},{4888,4894,"Lo"},{4896,4934,"Lo"},{4936,4954,"Lo"},{4961,4968,"Po"},{4978,4988,"No"},{5121,5740,"Lo"},
{5742,5742,"Po"},{5743,5750,"Lo"},{5760,5760,"Zs"},{5761,5786,"Lo"},{5787,5787,"Ps"},{5788,5788,"Pe"},{5792,5866,"Lo"},{5867,5869,"Po"},{5870,5872,"Nl"},
{5888,5900,"Lo"},{5902,5905,"Lo"},{5906,5908,"Mn"},{5920,5937,"Lo"},{5938,5939,"Mn"},{5941,5942,"Po"},{5952,5969,"Lo"},{5970,5971,"Mn"},{5984,5996,"Lo"},
{5998,6000,"Lo"},{6002,6003,"Mn"},{6016,6067,"Lo"},{6070,6070,"Mc"},{6071,6077,"Mn"},{6078,6085,"Mc"},{6086,6086,"Mn"},{6087,6088,"Mc"},{6089,6099,"Mn"},
{6100,6102,"Po"},{6103,6103,"Lm"},{6104,6106,"Po"},{6107,6107,"Sc"},{6108,6108,"Lo"},{6112,6121,"Nd"},{6144,6149,"Po"},{6150,6150,"Pd"},{6151,6154,"Po"},
{6155,6157,"Mn"},{6160,6169,"Nd"},{6176,6210,"Lo"},{6211,6211,"Lm"},{6212,6263,"Lo"},{6272,6276,"Lo"},{6279,6312,"Lo"},{6313,6313,"Mn"},
{7680,7680,"Lu"},{7681,7681,"Ll"},{7682,7682,"Lu"},{7683,7683,"Ll"},{7684,7684,"Lu"},{7685,7685,"Ll"},{7686,7686,"Lu"},{7687,7687,"Ll"},{7688,7688,"Lu"},
{7689,7689,"Ll"},{7690,7690,"Lu"},{7691,7691,"Ll"},{7692,7692,"Lu"},{7693,7693,"Ll"},{7694,7694,"Lu"},{7695,7695,"Ll"},{7696,7696,"Lu"},{7697,7697,"Ll"},
{7698,7698,"Lu"},{7699,7699,"Ll"},{7700,7700,"Lu"},{7701,7701,"Ll"},{7702,7702,"Lu"},{7703,7703,"Ll"},{7704,7704,"Lu"},{7705,7705,"Ll"},{7706,7706,"Lu"},
{7707,7707,"Ll"},{7708,7708,"Lu"},{7709,7709,"Ll"},{7710,7710,"Lu"},{7711,7711,"Ll"},{7712,7712,"Lu"},{7713,7713,"Ll"},{7714,7714,"Lu"},{7715,7715,"Ll"},
{7716,7716,"Lu"},{7717,7717,"Ll"},{7718,7718,"Lu"},{7719,7719,"Ll"},{7720,7720,"Lu"},{7721,7721,"Ll"},{7722,7722,"Lu"},{7723,7723,"Ll"},{7724,7724,"Lu"},
{7725,7725,"Ll"},{7726,7726,"Lu"},{7727,7727,"Ll"},{7728,7728,"Lu"},{7729,7729,"Ll"},{7730,7730,"Lu"},{7731,7731,"Ll"},{7732,7732,"Lu"},{7733,7733,"Ll"},
{7734,7734,"Lu"},{7735,7735,"Ll"},{7736,7736,"Lu"},{7737,7737,"Ll"},{7738,7738,"Lu"},{7739,7739,"Ll"},{7740,7740,"Lu"},{7741,7741,"Ll"},{7742,7742,"Lu"},
{7743,7743,"Ll"},{7744,7744,"Lu"},{7745,7745,"Ll"},{7746,7746,"Lu"},{7747,7747,"Ll"},{7748,7748,"Lu"},{7749,7749,"Ll"},{7750,7750,"Lu"},{7751,7751,"Ll"},
{7752,7752,"Lu"},{7753,7753,"Ll"},{7754,7754,"Lu"},{7755,7755,"Ll"},{7756,7756,"Lu"},{7757,7757,"Ll"},{7758,7758,"Lu"},{7759,7759,"Ll"},{7760,7760,"Lu"},
{7761,7761,"Ll"},{7762,7762,"Lu"},{7763,7763,"Ll"},{7764,7764,"Lu"},{7765,7765,"Ll"},{7766,7766,"Lu"},{7767,7767,"Ll"},{7768,7768,"Lu"},{7769,7769,"Ll"},
{7770,7770,"Lu"},{7771,7771,"Ll"},{7772,7772,"Lu"},{7773,7773,"Ll"},{7774,7774,"Lu"},{7775,7775,"Ll"},{7776,7776,"Lu"},{7777,7777,"Ll"},{7778,7778,"Lu"},
{7779,7779,"Ll"},{7780,7780,"Lu"},{7781,7781,"Ll"},{7782,7782,"Lu"},{7783,7783,"Ll"},{7784,7784,"Lu"},{7785,7785,"Ll"},{7786,7786,"Lu"},{7787,7787,"Ll"},
{7788,7788,"Lu"},{7789,7789,"Ll"},{7790,7790,"Lu"},{7791,7791,"Ll"},{7792,7792,"Lu"},{7793,7793,"Ll"},{7794,7794,"Lu"},{7795,7795,"Ll"},{7796,7796,"Lu"},
{7797,7797,"Ll"},{7798,7798,"Lu"},{7799,7799,"Ll"},{7800,7800,"Lu"},{7801,7801,"Ll"},{7802,7802,"Lu"},{7803,7803,"Ll"},{7804,7804,"Lu"},{7805,7805,"Ll"},
{7806,7806,"Lu"},{7807,7807,"Ll"},{7808,7808,"Lu"},{7809,7809,"Ll"},{7810,7810,"Lu"},{7811,7811,"Ll"},{7812,7812,"Lu"},{7813,7813,"Ll"},{7814,7814,"Lu"},
{7815,7815,"Ll"},{7816,7816,"Lu"},{7817,7817,"Ll"},{7818,7818,"Lu"},{7819,7819,"Ll"},{7820,7820,"Lu"},{7821,7821,"Ll"},{7822,7822,"Lu"},{7823,7823,"Ll"},
{7824,7824,"Lu"},{7825,7825,"Ll"},{7826,7826,"Lu"},{7827,7827,"Ll"},{7828,7828,"Lu"},{7829,7835,"Ll"},{7840,7840,"Lu"},{7841,7841,"Ll"},{7842,7842,"Lu"},
{7843,7843,"Ll"},{7844,7844,"Lu"},{7845,7845,"Ll"},{7846,7846,"Lu"},{7847,7847,"Ll"},{7848,7848,"Lu"},{7849,7849,"Ll"},{7850,7850,"Lu"},{7851,7851,"Ll"},
{7852,7852,"Lu"},{7853,7853,"Ll"},{7854,7854,"Lu"},{7855,7855,"Ll"},{7856,7856,"Lu"},{7857,7857,"Ll"},{7858,7858,"Lu"},{7859,7859,"Ll"},{7860,7860,"Lu"},
{7861,7861,"Ll"},{7862,7862,"Lu"},{7863,7863,"Ll"},{7864,7864,"Lu"},{7865,7865,"Ll"},{7866,7866,"Lu"},{7867,7867,"Ll"},{7868,7868,"Lu"},{7869,7869,"Ll"},
{7870,7870,"Lu"},{7871,7871,"Ll"},{7872,7872,"Lu"},{7873,7873,"Ll"},{7874,7874,"Lu"},{7875,7875,"Ll"},{7876,7876,"Lu"},{7877,7877,"Ll"},{7878,7878,"Lu"},
{7879,7879,"Ll"},{7880,7880,"Lu"},{7881,7881,"Ll"},{7882,7882,"Lu"},{7883,7883,"Ll"},{7884,7884,"Lu"},{7885,7885,"Ll"},{7886,7886,"Lu"},{7887,7887,"Ll"},
{7888,7888,"Lu"},{7889,7889,"Ll"},{7890,7890,"Lu"},{7891,7891,"Ll"},{7892,7892,"Lu"},{7893,7893,"Ll"},{7894,7894,"Lu"},{7895,7895,"Ll"},{7896,7896,"Lu"},
{7897,7897,"Ll"},{7898,7898,"Lu"},{7899,7899,"Ll"},{7900,7900,"Lu"},{7901,7901,"Ll"},{7902,7902,"Lu"},{7903,7903,"Ll"},{7904,7904,"Lu"},{7905,7905,"Ll"},
{7906,7906,"Lu"},{7907,7907,"Ll"},{7908,7908,"Lu"},{7909,7909,"Ll"},{7910,7910,"Lu"},{7911,7911,"Ll"},{7912,7912,"Lu"},{7913,7913,"Ll"},{7914,7914,"Lu"},
{7915,7915,"Ll"},{7916,7916,"Lu"},{7917,7917,"Ll"},{7918,7918,"Lu"},{7919,7919,"Ll"},{7920,7920,"Lu"},{7921,7921,"Ll"},{7922,7922,"Lu"},{7923,7923,"Ll"},
{7924,7924,"Lu"},{7925,7925,"Ll"},{7926,7926,"Lu"},{7927,7927,"Ll"},{7928,7928,"Lu"},{7929,7929,"Ll"},{7936,7943,"Ll"},{7944,7951,"Lu"},{7952,7957,"Ll"},
{7960,7965,"Lu"},{7968,7975,"Ll"},{7976,7983,"Lu"},{7984,7991,"Ll"},{7992,7999,"Lu"},{8000,8005,"Ll"},{8008,8013,"Lu"},{8016,8023,"Ll"},{8025,8025,"Lu"},
{8027,8027,"Lu"},{8029,8029,"Lu"},{8031,8031,"Lu"},{8032,8039,"Ll"},{8040,8047,"Lu"},{8048,8061,"Ll"},{8064,8071,"Ll"},{8072,8079,"Lt"},{8080,8087,"Ll"},
{8088,8095,"Lt"},{8096,8103,"Ll"},{8104,8111,"Lt"},{8112,8116,"Ll"},{8118,8119,"Ll"},{8120,8123,"Lu"},{8124,8124,"Lt"},{8125,8125,"Sk"},{8126,8126,"Ll"},
{8127,8129,"Sk"},{8130,8132,"Ll"},{8134,8135,"Ll"},{8136,8139,"Lu"},{8140,8140,"Lt"},{8141,8143,"Sk"},{8144,8147,"Ll"},{8150,8151,"Ll"},{8152,8155,"Lu"},
{8157,8159,"Sk"},{8160,8167,"Ll"},{8168,8172,"Lu"},{8173,8175,"Sk"},{8178,8180,"Ll"},{8182,8183,"Ll"},{8184,8187,"Lu"},{8188,8188,"Lt"},{8189,8190,"Sk"},
{8192,8202,"Zs"},{8204,8207,"Cf"},{8208,8213,"Pd"},{8214,8215,"Po"},{8216,8216,"Pi"},{8217,8217,"Pf"},{8218,8218,"Ps"},{8219,8220,"Pi"},{8221,8221,"Pf"},
{8222,8222,"Ps"},{8223,8223,"Pi"},{8224,8231,"Po"},{8232,8232,"Zl"},{8233,8233,"Zp"},{8234,8238,"Cf"},{8239,8239,"Zs"},{8240,8248,"Po"},{8249,8249,"Pi"},
{8250,8250,"Pf"},{8251,8254,"Po"},{8255,8256,"Pc"},{8257,8259,"Po"},{8260,8260,"Sm"},{8261,8261,"Ps"},{8262,8262,"Pe"},{8263,8273,"Po"},{8274,8274,"Sm"},
{8279,8279,"Po"},{8287,8287,"Zs"},{8288,8291,"Cf"},{8298,8303,"Cf"},{8304,8304,"No"},{8308,8313,"No"},{8314,8316,"Sm"},{8317,8317,"Ps"},{8318,8318,"Pe"},
{8320,8329,"No"},{8330,8332,"Sm"},{8333,8333,"Ps"},{8334,8334,"Pe"},{8352,8369,"Sc"},{8400,8412,"Mn"},{8413,8416,"Me"},{8417,8417,"Mn"},{8418,8420,"Me"},
{8421,8426,"Mn"},{8448,8449,"So"},{8450,8450,"Lu"},{8451,8454,"So"},{8455,8455,"Lu"},{8456,8457,"So"},{8458,8458,"Ll"},{8459,8461,"Lu"},{8462,8463,"Ll"},
{8464,8466,"Lu"},{8467,8467,"Ll"},{8468,8468,"So"},{8469,8469,"Lu"},{8470,8471,"So"},{8473,8477,"Lu"},{8478,8483,"So"},{8484,8484,"Lu"},{8485,8485,"So"},
{8486,8486,"Lu"},{8487,8487,"So"},{8488,8488,"Lu"},{8489,8489,"So"},{8490,8493,"Lu"},{8494,8494,"So"},{8495,8495,"Ll"},{8496,8497,"Lu"},{8499,8499,"Lu"},
{8500,8500,"Ll"},{8501,8504,"Lo"},{8505,8505,"Ll"},{8506,8506,"So"},{8509,8509,"Ll"},{8510,8511,"Lu"},{8512,8516,"Sm"},{8517,8517,"Lu"},{8518,8521,"Ll"},
{8522,8522,"So"},{8523,8523,"Sm"},{8531,8543,"No"},{8544,8578,"Nl"},{8592,8596,"Sm"},{8597,8601,"So"},{8602,8603,"Sm"},{8604,8607,"So"},{8608,8608,"Sm"},
{8609,8610,"So"},{8611,8611,"Sm"},{8612,8613,"So"},{8614,8614,"Sm"},{8615,8621,"So"},{8622,8622,"Sm"},{8623,8653,"So"},{8654,8655,"Sm"},{8656,8657,"So"},
{8658,8658,"Sm"},{8659,8659,"So"},{8660,8660,"Sm"},{8661,8691,"So"},{8692,8959,"Sm"},{8960,8967,"So"},{8972,8991,"So"},{8992,8993,"Sm"},{8994,9000,"So"},
{9001,9001,"Ps"},{9002,9002,"Pe"},{9003,9083,"So"},{9084,9084,"Sm"},{9085,9114,"So"},{9115,9139,"Sm"},{9143,9166,"So"},{9216,9254,"So"},{9280,9290,"So"},
{9312,9371,"No"},{9372,9449,"So"},{9450,9470,"No"},{9472,9654,"So"},{9655,9655,"Sm"},{9656,9664,"So"},{9665,9665,"Sm"},{9666,9719,"So"},{9720,9727,"Sm"},
{9728,9747,"So"},{9750,9751,"So"},{9753,9838,"So"},{9839,9839,"Sm"},{9840,9853,"So"},{9856,9865,"So"},{9985,9988,"So"},{9990,9993,"So"},{9996,10023,"So"},
{10025,10059,"So"},{10061,10061,"So"},{10063,10066,"So"},{10070,10070,"So"},{10072,10078,"So"},{10081,10087,"So"},{10088,10088,"Ps"},{10089,10089,"Pe"},
{10090,10090,"Ps"},{10091,10091,"Pe"},{10092,10092,"Ps"},{10093,10093,"Pe"},{10094,10094,"Ps"},{10095,10095,"Pe"},{10096,10096,"Ps"},{10097,10097,"Pe"},
{10098,10098,"Ps"},{10099,10099,"Pe"},{10100,10100,"Ps"},{10101,10101,"Pe"},{10102,10131,"No"},{10132,10132,"So"},{10136,10159,"So"},{10161,10174,"So"},
{10192,10213,"Sm"},{10214,10214,"Ps"},{10215,10215,"Pe"},{10216,10216,"Ps"},{10217,10217,"Pe"},{10218,10218,"Ps"},{10219,10219,"Pe"},{10224,10239,"Sm"},
{10240,10495,"So"},{10496,10626,"Sm"},{10627,10627,"Ps"},{10628,10628,"Pe"},{10629,10629,"Ps"},{10630,10630,"Pe"},{10631,10631,"Ps"},{10632,10632,"Pe"},
{10633,10633,"Ps"},{10634,10634,"Pe"},{10635,10635,"Ps"},{10636,10636,"Pe"},{10637,10637,"Ps"},{10638,10638,"Pe"},{10639,10639,"Ps"},{10640,10640,"Pe"},
{10641,10641,"Ps"},{10642,10642,"Pe"},{10643,10643,"Ps"},{10644,10644,"Pe"},{10645,10645,"Ps"},{10646,10646,"Pe"},{10647,10647,"Ps"},{10648,10648,"Pe"},
{10649,10711,"Sm"},{10712,10712,"Ps"},{10713,10713,"Pe"},{10714,10714,"Ps"},{10715,10715,"Pe"},{10716,10747,"Sm"},{10748,10748,"Ps"},{10749,10749,"Pe"},
{10750,11007,"Sm"},{11904,11929,"So"},{11931,12019,"So"},{12032,12245,"So"},{12272,12283,"So"},{12288,12288,"Zs"},{12289,12291,"Po"},{12292,12292,"So"},
{12293,12293,"Lm"},{12294,12294,"Lo"},{12295,12295,"Nl"},{12296,12296,"Ps"},{12297,12297,"Pe"},{12298,12298,"Ps"},{12299,12299,"Pe"},{12300,12300,"Ps"},
{12301,12301,"Pe"},{12302,12302,"Ps"},{12303,12303,"Pe"},{12304,12304,"Ps"},{12305,12305,"Pe"},{12306,12307,"So"},{12308,12308,"Ps"},{12309,12309,"Pe"},
{12310,12310,"Ps"},{12311,12311,"Pe"},{12312,12312,"Ps"},{12313,12313,"Pe"},{12314,12314,"Ps"},{12315,12315,"Pe"},{12316,12316,"Pd"},{12317,12317,"Ps"},
{12318,12319,"Pe"},{12320,12320,"So"},{12321,12329,"Nl"},{12330,12333,"Mn"},{12336,12336,"Pd"},{12337,12341,"Lm"},{12342,12343,"So"},{12344,12346,"Nl"},
{12347,12347,"Lm"},{12348,12348,"Lo"},{12349,12349,"Po"},{12350,12351,"So"},{12353,12438,"Lo"},{12441,12442,"Mn"},{12443,12444,"Sk"},{12445,12446,"Lm"},
{12447,12447,"Lo"},{12448,12448,"Pd"},{12449,12538,"Lo"},{12540,12542,"Lm"},{12543,12543,"Lo"},{12549,12588,"Lo"},{12593,12686,"Lo"},{12688,12689,"So"},
{12690,12693,"No"},{12694,12703,"So"},{12704,12727,"Lo"},{12784,12799,"Lo"},{12800,12828,"So"},{12832,12841,"No"},{12842,12867,"So"},{12881,12895,"No"},
{12896,12923,"So"},{12927,12927,"So"},{12928,12937,"No"},{12938,12976,"So"},{12977,12991,"No"},{12992,13003,"So"},{13008,13054,"So"},{13056,13174,"So"},
{13179,13277,"So"},{13280,13310,"So"},{13312,19893,"Lo"},{19968,40869,"Lo"},{40960,40980,"Lo"},{40982,42124,"Lo"},{42128,42182,"So"},{44032,55203,"Lo"},
{57344,63743,"Co"},{63744,64045,"Lo"},{64048,64106,"Lo"},{64256,64262,"Ll"},{64275,64279,"Ll"},{64285,64285,"Lo"},{64286,64286,"Mn"},{64287,64296,"Lo"},
{64297,64297,"Sm"},{64298,64310,"Lo"},{64312,64316,"Lo"},{64318,64318,"Lo"},{64320,64321,"Lo"},{64323,64324,"Lo"},{64326,64433,"Lo"},{64467,64829,"Lo"},
{64848,64911,"Lo"},{64914,64967,"Lo"},{65008,65019,"Lo"},{65020,65020,"Sc"},{65024,65039,"Mn"},{65056,65059,"Mn"},{65072,65072,"Po"},{65073,65074,"Pd"},
{65075,65076,"Pc"},{65077,65077,"Ps"},{65078,65078,"Pe"},{65079,65079,"Ps"},{65080,65080,"Pe"},{65081,65081,"Ps"},{65082,65082,"Pe"},{65083,65083,"Ps"},
{65084,65084,"Pe"},{65085,65085,"Ps"},{65086,65086,"Pe"},{65087,65087,"Ps"},{65088,65088,"Pe"},{65089,65089,"Ps"},{65090,65090,"Pe"},{65091,65091,"Ps"},
{65092,65092,"Pe"},{65093,65094,"Po"},{65097,65100,"Po"},{65101,65103,"Pc"},{65104,65106,"Po"},{65108,65111,"Po"},{65112,65112,"Pd"},{65113,65113,"Ps"},
{65114,65114,"Pe"},{65115,65115,"Ps"},{65116,65116,"Pe"},{65117,65117,"Ps"},{65118,65118,"Pe"},{65119,65121,"Po"},{65122,65122,"Sm"},{65123,65123,"Pd"},
{65124,65126,"Sm"},{65128,65128,"Po"},{65129,65129,"Sc"},{65130,65131,"Po"},{65136,65140,"Lo"},{65142,65276,"Lo"},{65279,65279,"Cf"},{65281,65283,"Po"},
{65284,65284,"Sc"},{65285,65287,"Po"},{65288,65288,"Ps"},{65289,65289,"Pe"},{65290,65290,"Po"},{65291,65291,"Sm"},{65292,65292,"Po"},{65293,65293,"Pd"},
{65294,65295,"Po"},{65296,65305,"Nd"},{65306,65307,"Po"},{65308,65310,"Sm"},{65311,65312,"Po"},{65313,65338,"Lu"},{65339,65339,"Ps"},{65340,65340,"Po"},
{65341,65341,"Pe"},{65342,65342,"Sk"},{65343,65343,"Pc"},{65344,65344,"Sk"},{65345,65370,"Ll"},{65371,65371,"Ps"},{65372,65372,"Sm"},{65373,65373,"Pe"},
{65374,65374,"Sm"},{65375,65375,"Ps"},{65376,65376,"Pe"},{65377,65377,"Po"},{65378,65378,"Ps"},{65379,65379,"Pe"},{65380,65380,"Po"},{65382,65391,"Lo"},
{65392,65392,"Lm"},{65393,65437,"Lo"},{65438,65439,"Lm"},{65440,65470,"Lo"},{65474,65479,"Lo"},{65482,65487,"Lo"},{65490,65495,"Lo"},{65498,65500,"Lo"},
{65504,65505,"Sc"},{65506,65506,"Sm"},{65507,65507,"Sk"},{65508,65508,"So"},{65509,65510,"Sc"},{65512,65512,"So"},{65513,65516,"Sm"},{65517,65518,"So"},
{65529,65531,"Cf"},{65532,65533,"So"},{66304,66334,"Lo"},{66336,66339,"No"},{66352,66368,"Lo"},{66370,66377,"Lo"},{66378,66378,"Nl"},{66560,66597,"Lu"},
{66600,66637,"Ll"},{118784,119029,"So"},{119040,119078,"So"},{119082,119140,"So"},{119141,119142,"Mc"},{119143,119145,"Mn"},{119146,119148,"So"},{119149,119154,"Mc"},
{119155,119162,"Cf"},{119163,119170,"Mn"},{119171,119172,"So"},{119173,119179,"Mn"},{119180,119209,"So"},{119210,119213,"Mn"},{119214,119261,"So"},{119808,119833,"Lu"},
{119834,119859,"Ll"},{119860,119885,"Lu"},{119886,119892,"Ll"},{119894,119911,"Ll"},{119912,119937,"Lu"},{119938,119963,"Ll"},{119964,119964,"Lu"},{119966,119967,"Lu"},
{119970,119970,"Lu"},{119973,119974,"Lu"},{119977,119980,"Lu"},{119982,119989,"Lu"},{119990,119993,"Ll"},{119995,119995,"Ll"},{119997,120000,"Ll"},{120002,120003,"Ll"},
{120005,120015,"Ll"},{120016,120041,"Lu"},{120042,120067,"Ll"},{120068,120069,"Lu"},{120071,120074,"Lu"},{120077,120084,"Lu"},{120086,120092,"Lu"},{120094,120119,"Ll"},
{120120,120121,"Lu"},{120123,120126,"Lu"},{120128,120132,"Lu"},{120134,120134,"Lu"},{120138,120144,"Lu"},{120146,120171,"Ll"},{120172,120197,"Lu"},{120198,120223,"Ll"},
{120224,120249,"Lu"},{120250,120275,"Ll"},{120276,120301,"Lu"},{120302,120327,"Ll"},{120328,120353,"Lu"},{120354,120379,"Ll"},{120380,120405,"Lu"},{120406,120431,"Ll"},
{120432,120457,"Lu"},{120458,120483,"Ll"},{120488,120512,"Lu"},{120513,120513,"Sm"},{120514,120538,"Ll"},{120539,120539,"Sm"},{120540,120545,"Ll"},{120546,120570,"Lu"},
{120571,120571,"Sm"},{120572,120596,"Ll"},{120597,120597,"Sm"},{120598,120603,"Ll"},{120604,120628,"Lu"},{120629,120629,"Sm"},{120630,120654,"Ll"},{120655,120655,"Sm"},
{120656,120661,"Ll"},{120662,120686,"Lu"},{120687,120687,"Sm"},{120688,120712,"Ll"},{120713,120713,"Sm"},{120714,120719,"Ll"},{120720,120744,"Lu"},{120745,120745,"Sm"},
{120746,120770,"Ll"},{120771,120771,"Sm"},{120772,120777,"Ll"},{120782,120831,"Nd"},{131072,173782,"Lo"},{194560,195101,"Lo"},{917505,917505,"Cf"},{917536,917631,"Cf"},
{983040,1048573,"Co"},{1048576,1114109,"Co"},
};
static const int UNI_CAT_COUNT = 1709;
#endif

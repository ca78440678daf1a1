//go:build go1.23

package vh

// DeepNames are groups of names whose indices under the VRF key made from
// NewDRBG(42) share long prefixes (found with tools/deepnames.go).
var DeepNames = [][]string{
	{ // pair shares 41 bits
		"u1675128", "u1091709", "u1556989", "u963840", "u1729495", "u339549", "u1195831", "u602411", "u462931", "u720300", "u2089407", "u1768104", "u1410913", "u1091543", "u1520520", "u583530", "u1149349", "u2095963", "u1027962", "u853456", "u2045639", "u1873954", "u939285", "u1336018", "u1987130",
	},
	{ // pair shares 40 bits
		"u1918918", "u2007793", "u1162231", "u585030", "u436327", "u14296", "u1955006", "u1580280", "u779681", "u1285148", "u1485908", "u1909566", "u127937", "u399422", "u1127402", "u445857", "u1814526", "u880006", "u1101721", "u939926", "u358789", "u1692939", "u519436", "u1039150", "u1834953",
	},
	{ // pair shares 40 bits
		"u1939452", "u1157345", "u506710", "u250087", "u1327571", "u497987", "u177078", "u1949263", "u925613", "u658527", "u1050467", "u969706", "u239188", "u773139", "u523403", "u1487884", "u1628430", "u423362", "u298363", "u430139", "u5260", "u1039150", "u11899", "u1692939", "u1834953",
	},
	{ // pair shares 39 bits
		"u539449", "u1308007", "u1189818", "u1600812", "u417315", "u1300009", "u980044", "u501827", "u1455068", "u143625", "u298585", "u2019806", "u1875925", "u512458", "u1092910", "u416387", "u1029238", "u729777", "u643180", "u657937", "u1782839", "u72748", "u1834953", "u925735", "u1692939",
	},
	{ // pair shares 38 bits
		"u1344965", "u431335", "u2014781", "u1587049", "u2095783", "u1096847", "u1051671", "u1541282", "u1873090", "u884098", "u1529308", "u634856", "u1377240", "u914600", "u1921742", "u821552", "u1480028", "u1834953", "u1799166", "u1154593", "u1766670", "u836406", "u72748", "u925735", "u1692939",
	},
	{ // pair shares 38 bits
		"u1866857", "u67996", "u932313", "u1714386", "u1475143", "u1556886", "u1717601", "u1510568", "u1268543", "u1570166", "u396454", "u8244", "u1390827", "u1085682", "u749833", "u439255", "u1489895", "u179987", "u1998906", "u61224", "u1834448", "u318378", "u336433", "u1987130", "u939285",
	},
	{ // pair shares 38 bits
		"u969510", "u956546", "u2081620", "u1174655", "u735372", "u460201", "u1853523", "u1247355", "u1033249", "u1853523", "u1206013", "u785873", "u69265", "u49967", "u571045", "u1506053", "u1165857", "u517850", "u1426457", "u631966", "u318378", "u1834448", "u336433", "u1987130", "u939285",
	},
	{ // pair shares 38 bits
		"u1451433", "u1261915", "u35980", "u1908262", "u1144269", "u1676495", "u2005940", "u1425744", "u1425744", "u1237772", "u753255", "u698749", "u724237", "u591447", "u173339", "u1102565", "u1355053", "u657937", "u507287", "u729777", "u1782839", "u72748", "u1834953", "u925735", "u1692939",
	},
	{ // pair shares 38 bits
		"u1338910", "u1133592", "u1506618", "u1843516", "u1695947", "u41917", "u1283278", "u1175158", "u1175158", "u1017747", "u804233", "u1814913", "u1281546", "u291207", "u1064056", "u1483496", "u1165343", "u1514324", "u1925237", "u830245", "u1641817", "u700778", "u1987130", "u336433", "u939285",
	},
	{ // pair shares 38 bits
		"u889781", "u1087996", "u93033", "u84962", "u404664", "u1456657", "u600916", "u1843185", "u1522207", "u137230", "u1482450", "u586009", "u282038", "u343075", "u26402", "u1758414", "u1008800", "u54090", "u1941691", "u388397", "u695669", "u519436", "u1692939", "u1039150", "u1834953",
	},
	{ // pair shares 37 bits
		"u1326858", "u606878", "u322491", "u1062609", "u445527", "u441754", "u46623", "u444627", "u1646677", "u372092", "u1133960", "u1858386", "u1830907", "u134951", "u1926098", "u604847", "u987741", "u1422379", "u758068", "u587722", "u1039150", "u5260", "u11899", "u1692939", "u1834953",
	},
	{ // pair shares 37 bits
		"u1032660", "u1800366", "u1504350", "u61606", "u1990077", "u801032", "u534733", "u602288", "u868554", "u378342", "u175187", "u234194", "u2004737", "u1692939", "u1156266", "u1021395", "u1980748", "u1559044", "u624982", "u936252", "u991591", "u358789", "u519436", "u1039150", "u1834953",
	},
}

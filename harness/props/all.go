package props

import "verif/harness/fw"

// All maps property ids to their checks.
var All = map[string]func(*fw.Ctx){
	"F01": F01, "F02": F02, "F03": F03, "F04": F04, "F05": F05, "F06": F06,
	"F12": F12, "G01": G01, "G02": G02, "G03": G03,
	"G04": G04, "C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05,
	"M01": M01, "M02": M02, "M03": M03, "M04": M04, "M05": M05,
	"L01": L01, "L02": L02, "L03": L03, "L04": L04, "L05": L05, "L06": L06, "L07": L07, "L08": L08, "L09": L09, "L10": L10,
	"S01": S01, "S02": S02,
	"U01": U01, "U02": U02, "U03": U03, "P01": P01, "D01": D01, "D02": D02,
	"F07": F07, "F08": F08, "F09": F09, "F10": F10, "F11": F11,
}

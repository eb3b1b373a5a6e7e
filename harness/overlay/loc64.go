package loc2index64

// Exports of the stages of the location circuit for the checks in /verif.

var (
	VerifClosestFace = closestFaceCalculations
	VerifR           = calculateR
	VerifHex2d       = calculateHex2d
	VerifIJK         = hex2dToCoordIJK
)

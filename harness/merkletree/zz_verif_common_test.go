//go:build go1.23

package merkletree_test

import "github.com/coniks-sys/coniks-go/zzverif/mt"

var (
	cp             = mt.Cp
	copyAP         = mt.CopyAP
	checkInclusion = mt.CheckInclusion
	checkAbsence   = mt.CheckAbsence
)

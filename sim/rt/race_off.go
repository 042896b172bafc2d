//go:build !race

package rt

import "unsafe"

const RaceBuild = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }

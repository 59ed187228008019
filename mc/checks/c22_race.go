//go:build race

package checks

import "runtime"

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

//go:build !race

package checks

const raceBuild = false

func raceErrors() int { return 0 }

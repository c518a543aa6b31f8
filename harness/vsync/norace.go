//go:build !race

package vsync

func raceDisable() {}
func raceEnable()  {}

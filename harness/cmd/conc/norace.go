//go:build conc && !race

package main

func raceDisable()    {}
func raceEnable()     {}
func raceErrors() int { return 0 }

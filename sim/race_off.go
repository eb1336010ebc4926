//go:build !race

package main

const raceBuild = false

func raceStart()            {}
func raceReports() []string { return nil }

//go:build !race

package main

func raceOff() {}
func raceOn()  {}

const raceBuild = false

//go:build race

package main

const raceMode = true

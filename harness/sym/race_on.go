//go:build race

package sym

const raceEnabled = true

//go:build !race

package core

// Race tells whether the race detector is built in.
const Race = false

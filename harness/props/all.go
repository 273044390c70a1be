// Package props holds the properties as harnesses: ordinary Go programs over
// the repository's packages whose inputs come from package sym.
package props

// All maps harness names to functions, for native replay.
var All = map[string]func(){}

func reg(name string, f func()) { All[name] = f }

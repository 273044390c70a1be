module verif/harness

go 1.19

require github.com/TooManySugar/ll1parser v0.0.0

replace github.com/TooManySugar/ll1parser => /repo

module polymc

go 1.24

require (
	github.com/loopholelabs/polyglot v0.0.0
	github.com/loopholelabs/polyglot/v2 v2.0.0
)

replace github.com/loopholelabs/polyglot => /repo

replace github.com/loopholelabs/polyglot/v2 => /repo/v2

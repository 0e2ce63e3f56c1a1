module verifharness

go 1.26

require (
	github.com/roy2220/fsm v0.6.1
	github.com/roy2220/plainkv v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/gogo/protobuf v1.3.1

replace github.com/roy2220/plainkv => /repo

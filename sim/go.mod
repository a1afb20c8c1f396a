module a0sim

go 1.24

require (
	github.com/gobuffalo/here v0.6.0
	github.com/markbates/pkger v0.0.0
)

replace github.com/markbates/pkger => /repo

module verif

go 1.25

require (
	github.com/leonelquinteros/gotext v0.0.0
	golang.org/x/tools v0.31.0
)

require (
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.12.0 // indirect
)

replace github.com/leonelquinteros/gotext => /repo

module phpintelcheck

go 1.26.0

require (
	github.com/john-nguyen09/go-phpparser v0.0.0-20220807130934-3c5faa3c4bcf
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

module verif/harness

go 1.21

require (
	github.com/evanw/esbuild v0.8.6
	github.com/stephen/cssc v0.0.0
)

require (
	github.com/samsarahq/go v0.0.0-20191220233105-8077c9fbaed5 // indirect
	golang.org/x/sync v0.0.0-20200625203802-6e8e738ad208 // indirect
	golang.org/x/sys v0.0.0-20200501145240-bc7a7d42d5c3 // indirect
)

replace github.com/stephen/cssc => /repo

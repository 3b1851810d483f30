module verif.local/harness

go 1.23

require (
	github.com/spacemonkeygo/monkit/v3 v3.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

replace github.com/spacemonkeygo/monkit/v3 => /repo

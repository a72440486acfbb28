module verif/harness

go 1.23.0

require (
	github.com/KarpelesLab/weak v0.1.1
	github.com/SokaDance/rmx v1.0.0
	github.com/chebyrash/promise v0.0.0-20230709133807-42ec49ba1459
	github.com/davecgh/go-spew v1.1.1
	github.com/google/uuid v1.6.0
	github.com/karlseguin/jsonwriter v1.0.4-0.20170525085137-6f05566bac1c
	github.com/oklog/ulid/v2 v2.1.0
	github.com/panjf2000/ants/v2 v2.11.3
	github.com/petermattis/goid v0.0.0-20250508124226-395b08cebbdb
	github.com/pmezard/go-difflib v1.0.0
	github.com/rqlite/sql v0.0.0-20241111133259-a4122fabb196
	github.com/stretchr/testify v1.10.0
	github.com/ugurcsen/gods-generic v0.10.4
	github.com/vmihailenco/msgpack/v5 v5.4.1
	go.uber.org/zap v1.27.0
	golang.org/x/net v0.40.0
	zombiezen.com/go/sqlite v1.4.0
)

require (
	github.com/dustin/go-humanize v1.0.1 // indirect
	github.com/karlseguin/expect v1.0.8 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/ncruces/go-strftime v0.1.9 // indirect
	github.com/remyoudompheng/bigfft v0.0.0-20230129092748-24d4a6f8daec // indirect
	github.com/sourcegraph/conc v0.3.0 // indirect
	github.com/stretchr/objx v0.5.2 // indirect
	github.com/vmihailenco/tagparser/v2 v2.0.0 // indirect
	go.uber.org/multierr v1.11.0 // indirect
	golang.org/x/exp v0.0.0-20250506013437-ce4c2cf36ca6 // indirect
	golang.org/x/sync v0.14.0 // indirect
	golang.org/x/sys v0.33.0 // indirect
	golang.org/x/text v0.25.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
	modernc.org/libc v1.65.6 // indirect
	modernc.org/mathutil v1.7.1 // indirect
	modernc.org/memory v1.10.0 // indirect
	modernc.org/sqlite v1.37.0 // indirect
)

require (
	github.com/masagroup/soft.go v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/masagroup/soft.go => /repo

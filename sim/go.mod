module verifsim

go 1.24

require github.com/yields/ant v0.0.0

require (
	github.com/andybalholm/cascadia v1.3.3
	github.com/golang/snappy v1.0.0
	github.com/hashicorp/go-multierror v1.1.1
	github.com/mafredri/cdp v0.35.0
	github.com/segmentio/agecache v0.1.3
	github.com/spaolacci/murmur3 v1.1.0
	github.com/stretchr/testify v1.10.0
	github.com/temoto/robotstxt v1.1.2
	github.com/tidwall/match v1.1.1
	github.com/willf/bloom v2.0.3+incompatible
	golang.org/x/net v0.41.0
	golang.org/x/sync v0.15.0
	golang.org/x/time v0.12.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/gorilla/websocket v1.5.3 // indirect
	github.com/hashicorp/errwrap v1.1.0 // indirect
	github.com/kr/pretty v0.2.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/willf/bitset v1.1.11 // indirect
	gopkg.in/check.v1 v1.0.0-20190902080502-41f04d3bba15 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
replace github.com/yields/ant => /repo

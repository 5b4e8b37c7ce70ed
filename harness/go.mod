module vh

go 1.24

require (
	github.com/mashmb/1pass/1pass-core v1.3.1
	github.com/mashmb/1pass/1pass-parse v1.3.1
	github.com/mashmb/1pass/1pass-up v1.1.2
	pgregory.net/rapid v1.3.0
)

require (
	golang.org/x/crypto v0.0.0-20210421170649-83a5a9bb288b // indirect
	gopkg.in/yaml.v2 v2.4.0
)

replace (
	github.com/mashmb/1pass/1pass-core => /repo/1pass-core
	github.com/mashmb/1pass/1pass-parse => /repo/1pass-parse
	github.com/mashmb/1pass/1pass-up => /repo/1pass-up
)

module verif/harness

go 1.23

require (
	github.com/HannesKimara/cddlc v0.0.0
	github.com/iancoleman/strcase v0.3.0
	golang.org/x/exp v0.0.0-20231006140011-7918f672742d
	gopkg.in/yaml.v2 v2.4.0
	pgregory.net/rapid v1.3.0
)

replace github.com/HannesKimara/cddlc => /repo

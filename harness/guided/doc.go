// Package guided holds the target of the coverage-guided search, see core.Fuzz
package guided

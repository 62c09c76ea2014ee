// Package golden adapts the generated code committed in the repository.
package golden

// Package clipboard is the verification stand-in for the system clipboard.
package clipboard

import "github.com/aarondl/readline"

var Unsupported bool

func WriteAll(text string) error { readline.Clip(text); return nil }
func ReadAll() (string, error)   { return "", nil }

// Package clipboard is an in-memory stand-in for github.com/atotto/clipboard.
// It keeps the clipboard text in a variable so that the checks can read and
// set it, count writes, and make either direction fail.
package clipboard

import "errors"

var (
	Text      string
	Writes    int
	FailRead  bool
	FailWrite bool
)

// Unsupported has the same meaning as in the real package.
var Unsupported bool

var errUnavailable = errors.New("clipboard unavailable")

// ReadAll reads the clipboard.
func ReadAll() (string, error) {
	if FailRead {
		return "", errUnavailable
	}
	return Text, nil
}

// WriteAll replaces the clipboard text.
func WriteAll(text string) error {
	Writes++
	if FailWrite {
		return errUnavailable
	}
	Text = text
	return nil
}

// Package box stands in for github.com/nyaosorg/go-box, which asks the
// controlling terminal for its size: it prints one item per row.
package box

import (
	"context"
	"fmt"
	"io"
)

// Print lists nodes.
func Print(_ context.Context, nodes []string, out io.Writer) bool {
	return PrintX(context.Background(), nodes, out) == nil
}

// PrintX lists nodes.
func PrintX(_ context.Context, nodes []string, out io.Writer) error {
	for _, n := range nodes {
		if _, err := fmt.Fprintln(out, n); err != nil {
			return err
		}
	}
	return nil
}

package world

import (
	"errors"
	"fmt"

	sqlf "github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

var errUserBuilder = errors.New("the builder of a client failed")

// userBuilder is a query builder of a client, given to the helpers by value.
type userBuilder struct {
	sqlf.QueryBuilder // nil: written by hand
	*userBuilt
}

type userBuilt struct {
	how   string // hand, handerr, own, half
	query string
	args  []any
	style syntax.BindVarStyle
	full  [][]any // what was returned, with the spare capacity
	want  [][]any
	bad   string
}

// BuildQuery returns text and arguments next to the error, if it fails.
func (b userBuilder) BuildQuery(style syntax.BindVarStyle) (string, []any, error) {
	if style != b.style {
		b.bad = fmt.Sprintf("the builder was asked for the bind style %v, want %v", style, b.style)
	}
	query, args := b.query, b.args
	if b.QueryBuilder != nil {
		var err error
		if query, args, err = b.QueryBuilder.BuildQuery(style); err != nil {
			return query, args, err
		}
	}
	full := append(append(make([]any, 0, len(args)+2), args...), "spare", "spare")
	b.full = append(b.full, full)
	b.want = append(b.want, append([]any{}, full...))
	var err error
	if b.how == "half" || b.how == "handerr" {
		err = errUserBuilder
	}
	return query, full[:len(args)], err
}

// intact tells what is wrong with the slices of the client.
func (b *userBuilt) intact() string {
	for i, full := range b.full {
		for j := range full {
			if !sameVal(full[j], b.want[i][j]) {
				return fmt.Sprintf("element %d of the client's arguments (length %d) is %s, it was %s", j, len(full)-2, show(full[j]), show(b.want[i][j]))
			}
		}
	}
	return b.bad
}

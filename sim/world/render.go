package world

import (
	"fmt"
	"strconv"
	"strings"
)

// render writes the template of the pieces.
func render(ps []*Piece) string {
	b := new(strings.Builder)
	for _, p := range ps {
		renderPiece(b, p)
	}
	return b.String()
}

func renderPiece(b *strings.Builder, p *Piece) {
	switch p.K {
	case PText, PBad:
		b.WriteString(p.S)
	case PBind:
		if p.Form == 1 {
			b.WriteByte('?')
		} else {
			fmt.Fprintf(b, "$%d", p.N)
		}
	case PFrag, PArg:
		name := p.Name
		if name == "" {
			name = map[string]string{PFrag: "f", PArg: "arg"}[p.K]
		}
		switch p.Form {
		case 1:
			fmt.Fprintf(b, "#%s(%d)", name, p.N)
		case 2:
			fmt.Fprintf(b, "#%s( %d.0)", name, p.N)
		default:
			fmt.Fprintf(b, "#%s%d", name, p.N)
		}
	case PJoin:
		b.WriteString("#join('")
		b.WriteString(strings.ReplaceAll(render(p.T), "'", "''"))
		b.WriteString("'," + p.Sp + "'")
		b.WriteString(strings.ReplaceAll(p.Sep, "'", "''"))
		b.WriteString("'")
		for i := 0; i < p.NIdx; i++ {
			n := 1
			switch i {
			case 0:
				n = p.From
			case 1:
				n = p.To
			}
			fmt.Fprintf(b, ",%s%d", p.Sp, n)
		}
		b.WriteString(")")
	case PValue:
		b.WriteString("#" + p.Name)
	case PCall:
		b.WriteString("#" + p.Name)
		if p.Form == 0 && len(p.CA) == 1 && p.CA[0].K == "n" && p.CA[0].N == float64(int(p.CA[0].N)) && p.CA[0].N >= 0 {
			b.WriteString(strconv.Itoa(int(p.CA[0].N)))
			return
		}
		b.WriteByte('(')
		for i, a := range p.CA {
			if i > 0 {
				b.WriteString("," + p.Sp)
			}
			switch a.K {
			case "n":
				b.WriteString(strconv.FormatFloat(a.N, 'f', -1, 64))
			case "s":
				b.WriteString("'" + strings.ReplaceAll(a.S, "'", "''") + "'")
			case "b":
				b.WriteString(strconv.FormatBool(a.B))
			default:
				b.WriteString("nil")
			}
		}
		b.WriteByte(')')
	default:
		panic("unknown piece " + p.K)
	}
}

// Render is the template text of pieces.
func Render(ps []*Piece) string { return render(ps) }

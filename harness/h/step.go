package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"geGoMetry/step"
)

// ---- documents -------------------------------------------------------------

// inst is one generated instance: its arguments are token lists.
type inst struct {
	id      string
	typ     string
	args    [][]string
	complex string // complex instance: raw tokens instead of typ and args
}

// canonArg is an argument without any white space outside strings.
func canonArg(tokens []string) string { return strings.Join(tokens, "") }

// squash drops white space outside quoted strings.
func squash(s string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(s); i++ {
		r := s[i]
		if r == '\'' {
			in = !in
		}
		if !in && r < 128 && unicode.IsSpace(rune(r)) {
			continue
		}
		b.WriteByte(r)
	}
	return b.String()
}

var stepTypes = []string{"CARTESIAN_POINT", "VERTEX_POINT", "DIRECTION", "LINE", "EDGE_CURVE", "ORIENTED_EDGE", "PLANE",
	"CYLINDRICAL_SURFACE", "A", "FACE_BOUND", "VERTEX_LOOP", "CLOSED_SHELL", "PRODUCT", "APPLICATION_CONTEXT", "X1_Y2",
	"ADVANCED_FACE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "MANIFOLD_SOLID_BREP", "FACE", "AXIS2_PLACEMENT_3D", "!USER_DEFINED", "B_SPLINE_SURFACE_WITH_KNOTS",
	"MECHANICAL_DESIGN_GEOMETRIC_PRESENTATION_REPRESENTATION", "POINT", "DATA", "ENDSEC_", "A1", "plane", "Cartesian_Point"}

var stringBits = []string{"a", "Name", " ", "  ", "(", ")", ",", ";", "=", "''", "#12", "/*", "*/", "/", "*", "#1=X(1);", "ENDSEC;", "$", ".T.", "é", "日本", "\\X2\\03C0\\X0\\", "\"", "()", "),", ");", "('a')", "\t", "\xe9", "\xff\xfe", "\xc3", "\u00a0", "\u2028", "😀", "\ufeff", "\x00", "\x1b"}

func (k *Case) stepString() string {
	var b strings.Builder
	b.WriteByte('\'')
	n := k.Intn(6)
	if k.Intn(200) == 0 {
		n = k.Intn(3000)
	}
	for ; n > 0; n-- {
		s := stringBits[k.Intn(len(stringBits))]
		b.WriteString(strings.ReplaceAll(strings.ReplaceAll(s, "''", "\x00"), "'", "''"))
	}
	b.WriteByte('\'')
	return strings.ReplaceAll(b.String(), "\x00", "''")
}

func (k *Case) stepNumber() string {
	if k.Intn(6) == 0 { // other spellings
		return []string{"+1.5", "1.E0", "2.5E+00", "-0.", "0.0", "+0.", "007.50", "1.E+10", "-3.E-7", "12345678901234567890", "0.1000000000000000055511151231257827", "1.0E0", "2.50", "100.", "1.E308", "4.9E-324", "+12", "1.E1"}[k.Intn(18)]
	}
	switch k.Intn(6) {
	case 0:
		return fmt.Sprint(k.Intn(2001) - 1000)
	case 1:
		return fmt.Sprintf("%d.", k.Intn(100))
	case 2:
		return fmt.Sprintf("%.3f", k.NormFloat64()*100)
	case 3:
		return fmt.Sprintf("%.4E", k.NormFloat64())
	case 4:
		return "0"
	default:
		return fmt.Sprintf("-%d.5E-%02d", k.Intn(9), k.Intn(20))
	}
}

func (k *Case) stepEnum() string {
	return []string{".T.", ".F.", ".U.", ".UNSPECIFIED.", ".PLANE_SURF.", ".QUASI_UNIFORM_KNOTS."}[k.Intn(6)]
}

// stepArg makes the tokens of one argument.
func (k *Case) stepArg(depth int) []string {
	switch n := k.Intn(11); {
	case n < 2:
		return []string{k.stepString()}
	case n < 4:
		return []string{k.stepNumber()}
	case n == 4:
		return []string{k.stepEnum()}
	case n == 5:
		return []string{fmt.Sprintf("#%d", 1+k.Intn(60))}
	case n == 6:
		return []string{[]string{"$", "*", "\"0F3A\"", "\"\""}[k.Intn(4)]}
	case n == 7 && depth > 0:
		// typed parameter
		out := []string{[]string{"LENGTH_MEASURE", "PARAMETER_VALUE", "LABEL"}[k.Intn(3)], "("}
		return append(append(out, k.stepArg(0)...), ")")
	case depth > 0:
		out := []string{"("}
		m := 1 + k.Intn(4)
		if k.Intn(12) == 0 {
			m = 0
		}
		for i := 0; i < m; i++ {
			if i > 0 {
				out = append(out, ",")
			}
			out = append(out, k.stepArg(depth-1)...)
		}
		return append(out, ")")
	default:
		return []string{k.stepNumber()}
	}
}

// stepDoc makes n instances; ids may repeat.
func (k *Case) stepDoc(n int) []inst {
	var d []inst
	next := 1 + k.Intn(5)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("#%d", next)
		switch {
		case k.Intn(12) == 0 && len(d) > 0:
			id = d[k.Intn(len(d))].id
		case k.Intn(30) == 0:
			next += k.Intn(1000000)
			if k.Intn(6) == 0 { // no number of the machine
				id = fmt.Sprintf("#%d%d00000000%d", 1+k.Intn(99), next, 100000000+k.Intn(3))
			}
		default:
			next += 1 + k.Intn(3)
		}
		if k.Intn(60) == 0 {
			next += 3
			id = fmt.Sprintf("#00%d", next-1)
		}
		if k.Intn(25) == 0 {
			d = append(d, inst{id: id, complex: "(LENGTH_UNIT() NAMED_UNIT(*) SI_UNIT(.MILLI.,.METRE.))"})
			continue
		}
		in := inst{id: id, typ: stepTypes[k.Intn(len(stepTypes))]}
		if k.Intn(30) == 0 { // names of any length
			for n := 1 + k.Intn(40)*k.Intn(9); len(in.typ) < n; {
				in.typ += "_" + stepTypes[k.Intn(len(stepTypes))]
			}
			in.typ = strings.ReplaceAll(in.typ, "_!", "_")
		}
		m := 1 + k.Intn(5)
		if k.Intn(40) == 0 {
			m = 0
		}
		for j := 0; j < m; j++ {
			in.args = append(in.args, k.stepArg(3))
		}
		d = append(d, in)
	}
	return d
}

// layout renders tokens with separators chosen by style.
type layout struct {
	k        *Case
	newline  string
	spaces   int // 1 in n gaps gets white space; 0: none
	comments int
	breaks   int
}

func (k *Case) newLayout() layout {
	l := layout{k: k, newline: "\n"}
	if k.Intn(3) == 0 {
		l.newline = "\r\n"
	}
	switch k.Intn(4) {
	case 0: // compact
	case 1:
		l.spaces = 3
	case 2:
		l.spaces, l.breaks = 3, 6
	default:
		l.spaces, l.breaks, l.comments = 4, 8, 9
	}
	return l
}

var commentTexts = []string{"/* comment */", "/**/", "/***/", "/* #9=FAKE(1); */", "/* it's */", "/* = ; ( ) , */", "/*/ */", "/* a\nb */", "/*\n#77=FAKE('x');\n*/", "/* ** */", "/*'*/", "/* a /* b */", "/*" + strings.Repeat(" #6=BAD('long'); \n", 300) + "*/", "/*//*/"}

func (l layout) gap() string {
	k := l.k
	var b strings.Builder
	if l.spaces > 0 && k.Intn(l.spaces) == 0 {
		b.WriteString([]string{" ", "  ", "\t", "    "}[k.Intn(4)])
	}
	if l.comments > 0 && k.Intn(l.comments) == 0 {
		b.WriteString(strings.ReplaceAll(commentTexts[k.Intn(len(commentTexts))], "\n", l.newline))
	}
	if l.breaks > 0 && k.Intn(l.breaks) == 0 {
		b.WriteString(l.newline)
		if k.Intn(2) == 0 {
			b.WriteString("   ")
		}
	}
	return b.String()
}

func (l layout) tokens(ts []string) string {
	var b strings.Builder
	for _, t := range ts {
		if len(t) > 1 && t[0] == '\'' && l.breaks > 0 && l.k.Intn(8) == 0 { // a string wrapped at the end of a line
			at := 1 + l.k.Intn(len(t)-1)
			t = t[:at] + l.newline + t[at:]
		}
		b.WriteString(t)
		b.WriteString(l.gap())
	}
	return b.String()
}

func (l layout) inst(in inst) string {
	ts := []string{in.id, "="}
	if in.complex != "" {
		ts = append(ts, in.complex)
	} else {
		ts = append(ts, in.typ, "(")
		for i, a := range in.args {
			if i > 0 {
				ts = append(ts, ",")
			}
			ts = append(ts, a...)
		}
		ts = append(ts, ")")
	}
	return l.gap() + l.tokens(ts) + ";"
}

var headers = []string{
	"ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('a=b;','#3=C(1);'),'2;1');\nFILE_NAME('n.stp','2021-03-01T10:00:00',('me'),('org'),'pre','sys','');\nFILE_SCHEMA(('AUTOMOTIVE_DESIGN { 1 0 10303 214 1 1 1 1 }'));\nENDSEC;\n\nDATA;\n",
	"ISO-10303-21;HEADER;FILE_DESCRIPTION((''),'2;1');FILE_NAME('x','',(''),(''),'','','');FILE_SCHEMA(('CONFIG_CONTROL_DESIGN'));ENDSEC;DATA;",
	"ISO-10303-21;\n/* generated = by ; a tool */\nHEADER;\nFILE_SCHEMA(('S'));\nENDSEC;\nDATA;\n",
	"\n\nDATA;\n",
	"",
}

// render writes the document; ends are the offsets just after each instance.
func (k *Case) render(d []inst) (text string, ends []int) {
	l := k.newLayout()
	var b strings.Builder
	h := headers[k.Intn(len(headers))]
	b.WriteString(strings.ReplaceAll(h, "\n", l.newline))
	perLine := 1
	if k.Intn(3) == 0 {
		perLine = 1 + k.Intn(8)
	}
	for i, in := range d {
		b.WriteString(l.inst(in))
		ends = append(ends, b.Len())
		if (i+1)%perLine == 0 {
			b.WriteString(l.newline)
			if k.Intn(6) == 0 {
				b.WriteString(l.newline)
			}
		}
	}
	if h != "" {
		b.WriteString("ENDSEC;" + l.newline + "END-ISO-10303-21;")
	}
	if k.Intn(3) > 0 {
		b.WriteString(l.newline)
	}
	return b.String(), ends
}

var stepScratch string

func writeStep(text []byte) string {
	if stepScratch == "" {
		d, err := os.MkdirTemp("", "step")
		if err != nil {
			panic(harnessError(err.Error()))
		}
		stepScratch = d
	}
	path := filepath.Join(stepScratch, "in.stp")
	if err := os.WriteFile(path, text, 0o644); err != nil {
		panic(harnessError(err.Error()))
	}
	return path
}

// descriptors is the number of descriptors this process has open on path;
// ok is false when that cannot be told.
func descriptors(path string) (n int, ok bool) {
	path, err := filepath.EvalSymlinks(path)
	if err != nil {
		return 0, false
	}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0, false
	}
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && to == path {
			n++
		}
	}
	return n, true
}

func lexText(text []byte) step.SymbolTable {
	l := step.Lexer{Filename: writeStep(text), SymbolsChan: make(chan step.Symbol, 2)}
	return l.Lex()
}

// sameInst compares a table entry with the instance it stands for.
func sameInst(def step.Definition, in inst) string {
	if in.complex != "" {
		return ""
	}
	if def.Type != in.typ {
		return fmt.Sprintf("type %q, the file has %q", def.Type, in.typ)
	}
	if len(in.args) == 0 {
		if len(def.Arguments) == 0 || len(def.Arguments) == 1 && squash(def.Arguments[0]) == "" {
			return ""
		}
		return fmt.Sprintf("arguments %q for an instance without any", def.Arguments)
	}
	if len(def.Arguments) != len(in.args) {
		return fmt.Sprintf("%d arguments %q, the file has %d", len(def.Arguments), def.Arguments, len(in.args))
	}
	for i, a := range in.args {
		if g := squash(def.Arguments[i]); g != canonArg(a) {
			return fmt.Sprintf("argument %d is %q, the file has %q", i, def.Arguments[i], canonArg(a))
		}
		if g := strings.TrimSpace(def.Arguments[i]); g != def.Arguments[i] {
			return fmt.Sprintf("argument %d is %q, with white space around it", i, def.Arguments[i])
		}
	}
	return ""
}

func wantTable(d []inst) map[string]inst {
	w := map[string]inst{}
	for _, in := range d {
		w[in.id] = in
	}
	return w
}

func checkTable(k *Case, got step.SymbolTable, d []inst) bool {
	want := wantTable(d)
	for id, in := range want {
		def, ok := got[id]
		if !ok {
			k.Fail("instance %s of the file is not in the table", id)
			return false
		}
		if m := sameInst(def, in); m != "" {
			k.Fail("%s: %s", id, m)
			return false
		}
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			k.Fail("the table has %q, which is not an instance of the file", id)
			return false
		}
	}
	k.c.Obs("instances compared", len(want))
	return true
}

func textInput(text string) interface{} {
	return map[string]interface{}{"bytes": len(text), "text": clip(text, 6000)}
}

func runLex(c *Ctx) {
	c.Sub("documents", c.N(8000, 60000), func(k *Case) {
		d := k.stepDoc(1 + k.Intn(12))
		text, _ := k.render(d)
		k.Input(textInput(text))
		k.Seen(text)
		checkTable(k, lexText([]byte(text)), d)
	})
	c.Sub("single instances", c.N(8000, 60000), func(k *Case) {
		d := k.stepDoc(1)
		text, _ := k.render(d)
		k.Input(textInput(text))
		k.Seen(text)
		checkTable(k, lexText([]byte(text)), d)
	})
	c.Sub("two layouts of one document", c.N(2000, 10000), func(k *Case) {
		d := k.stepDoc(1 + k.Intn(12))
		t1, _ := k.render(d)
		t2, _ := k.render(d)
		k.Input([]interface{}{textInput(t1), textInput(t2)})
		k.Seen(t1, t2)
		a, b := lexText([]byte(t1)), lexText([]byte(t2))
		if len(a) != len(b) {
			k.Fail("%d instances in one layout, %d in the other", len(a), len(b))
			return
		}
		for id, x := range a {
			y := b[id]
			if x.Type != y.Type && wantTable(d)[id].complex == "" || len(x.Arguments) != len(y.Arguments) {
				k.Fail("%s: %q in one layout, %q in the other", id, x, y)
				return
			}
		}
	})
	c.Sub("files cut short", c.N(5000, 30000), func(k *Case) {
		d := k.stepDoc(1 + k.Intn(8))
		text, ends := k.render(d)
		cut := k.Intn(len(text) + 1)
		if k.Intn(3) == 0 {
			cut = ends[k.Intn(len(ends))]
		}
		k.Input(map[string]interface{}{"cut": cut, "doc": textInput(text)})
		k.Seen(text[:cut])
		got := lexText([]byte(text[:cut]))
		whole := 0
		for whole < len(ends) && ends[whole] <= cut {
			whole++
		}
		want := wantTable(d[:whole])
		partial := ""
		if whole < len(d) {
			partial = d[whole].id // the cut one may or may not appear, under any prefix of its id
		}
		for id, in := range want {
			if partial != "" && strings.HasPrefix(partial, id) {
				continue
			}
			def, ok := got[id]
			if !ok {
				k.Fail("instance %s, complete before the cut, is not in the table", id)
				return
			}
			if m := sameInst(def, in); m != "" {
				k.Fail("%s, complete before the cut: %s", id, m)
				return
			}
		}
		for id := range got {
			if _, ok := want[id]; !ok && !(partial != "" && strings.HasPrefix(partial, id)) {
				k.Fail("the table has %q, which is not an instance of the file", id)
				return
			}
		}
		k.c.Obs("complete instances before a cut", whole)
	})
	c.Sub("long lines and large files", c.N(60, 400), func(k *Case) {
		var d []inst
		switch k.index % 8 {
		case 1: // many arguments
			in := inst{id: "#5", typ: "MANY"}
			for i, n := 0, []int{255, 256, 257, 1000, 33000, 66000}[k.Intn(6)]+k.Intn(3); i < n; i++ {
				in.args = append(in.args, k.stepArg(0))
			}
			d = append(k.stepDoc(2), in, inst{id: "#1000001", typ: "LAST", args: [][]string{{"1"}}})
		case 2: // deep nesting
			n := []int{126, 127, 128, 129, 255, 256, 257, 1000, 33000, 66000}[k.Intn(10)]
			d = append(k.stepDoc(2), inst{id: "#5", typ: "DEEP", args: [][]string{{"1"}, {strings.Repeat("(", n), "1", ",", "2", strings.Repeat(")", n)}, {"'x'"}}})
		case 3: // more instances than two bytes count
			if k.index > 3 && !c.Thorough() {
				return
			}
			for i, n := 0, 66000+k.Intn(3000); i < n; i++ {
				d = append(d, inst{id: fmt.Sprintf("#%d", i*3+1), typ: "P", args: [][]string{{fmt.Sprint(i)}}})
			}
		case 4: // a statement of more than a megabyte
			s := "'" + strings.Repeat("0123456789,'';(=", (1<<20+k.Intn(1<<20))/16) + "'"
			d = append(k.stepDoc(2), inst{id: "#5", typ: "BIG", args: [][]string{{s}, {"2"}}}, inst{id: "#1000001", typ: "LAST", args: [][]string{{"1"}}})
		case 0: // very long aggregate, longer than any read buffer
			toks := []string{"("}
			for i, n := 0, 1000+k.Intn(20000); i < n; i++ {
				if i > 0 {
					toks = append(toks, ",")
				}
				toks = append(toks, k.stepNumber())
			}
			toks = append(toks, ")")
			d = append(d, k.stepDoc(1+k.Intn(3))...)
			d = append(d, inst{id: "#999999", typ: "POLY_LOOP", args: [][]string{{"''"}, toks}})
			d = append(d, inst{id: "#1000001", typ: "LAST", args: [][]string{{"1"}}})
		case 5, 6: // long string with separators around the sizes of read buffers
			s := "'" + strings.Repeat("x", 4080+k.Intn(40)) + strings.Repeat("=;(", k.Intn(4000)) + strings.Repeat("y", k.Intn(100)) + "'"
			d = append(d, inst{id: "#1", typ: "LABEL", args: [][]string{{s}, {"2"}}}, inst{id: "#2", typ: "B", args: [][]string{{"'/*'"}, {"#1"}}})
		default:
			d = k.stepDoc(2000 + k.Intn(3000))
		}
		text, _ := k.render(d)
		k.Input(textInput(text))
		k.Seen(len(text), clip(text, 3000))
		k.c.ObsMax("largest file", len(text))
		checkTable(k, lexText([]byte(text)), d)
	})
	c.Sub("comment marks and buffer boundaries", c.N(1000, 4000), func(k *Case) {
		// a comment, string or separator placed right at the end of a read buffer
		pad := 4096 - 30 + k.Intn(40)
		fill := strings.Repeat("9", pad)
		piece := []string{"/* ; #7=BAD(1); */", "'a;b'", "/**/'/*'", "' (,) '", "''"}[k.Intn(5)]
		tok := []string{"'z'"}
		if strings.Contains(piece, "'") {
			tok = []string{piece[strings.Index(piece, "'"):]}
		}
		text := "#1=A(" + fill + "," + piece
		if !strings.Contains(piece, "'") {
			text += tok[0]
		}
		text += ");#2=B(1);"
		k.Input(textInput(text))
		k.Seen(text)
		checkTable(k, lexText([]byte(text)), []inst{{id: "#1", typ: "A", args: [][]string{{fill}, tok}}, {id: "#2", typ: "B", args: [][]string{{"1"}}}})
	})
}

// padded tells whether there is white space at an end.
func padded(s string) bool {
	return s != "" && strings.ContainsAny(s[:1]+s[len(s)-1:], " \t\r\n")
}

// ---- aggregates ------------------------------------------------------------

// aggregate makes the text of an aggregate and its elements (canonical).
func (k *Case) aggregate(n, depth int, sp bool) (text string, elems []string) {
	gap := func() string {
		if sp && k.Intn(3) == 0 {
			return []string{" ", "\t", "  "}[k.Intn(3)]
		}
		return ""
	}
	var b strings.Builder
	b.WriteString("(" + gap())
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString("," + gap())
		}
		t := k.stepArg(depth)
		elems = append(elems, canonArg(t))
		for _, x := range t {
			b.WriteString(x + gap())
		}
	}
	b.WriteString(")")
	return b.String(), elems
}

func runAggregates(c *Ctx) {
	getArray, okA := lookup[func(string, reflect.Kind) []string](c, "step.getArray")
	getMatrix, okM := lookup[func(string) [][]string](c, "step.getMatrix")
	getLogical, okL := lookup[func(string) bool](c, "step.getLogical")
	if okA {
		c.Sub("arrays", c.N(40000, 200000), func(k *Case) {
			n := 1 + k.Intn(7)
			if k.Intn(60) == 0 {
				n = 1 + k.Intn(2000)
				if k.Intn(30) == 0 {
					n = []int{4095, 4096, 4097, 10000, 33000, 66000}[k.Intn(6)] + k.Intn(3)
				}
			}
			text, want := k.aggregate(n, k.Intn(5), k.Intn(2) == 0)
			if k.Intn(200) == 0 { // deep nesting
				m := []int{126, 127, 128, 129, 255, 256, 257, 1000, 33000}[k.Intn(9)]
				deep := strings.Repeat("(", m) + "1,2" + strings.Repeat(")", m)
				text, want = "("+deep+","+text[1:], append([]string{deep}, want...)
			}
			if k.Intn(8) == 0 {
				text = " " + text + "\t"
			}
			k.Input(text)
			k.Seen(text)
			kind := []reflect.Kind{reflect.String, reflect.Int, reflect.Float64, reflect.Array}[k.Intn(4)]
			got := getArray(text, kind)
			if k.Intn(4) == 0 { // another result, overwritten by its owner
				other, _ := k.aggregate(1+k.Intn(2*n), k.Intn(3), true)
				if k.Intn(3) == 0 {
					other = text
				}
				for g, i := getArray(other, kind), 0; i < len(g); i++ {
					g[i] = "spoilt"
				}
				k.c.Obs("results kept while others were made", 1)
			}
			if len(got) != len(want) {
				k.Fail("%d elements %q, the text has %d", len(got), clip(fmt.Sprintf("%q", got), 500), len(want))
				return
			}
			for i := range want {
				if squash(got[i]) != want[i] {
					k.Fail("element %d is %q, the text has %q", i, got[i], want[i])
					return
				}
				if padded(got[i]) {
					k.Fail("element %d is %q, with white space around it", i, got[i])
					return
				}
			}
			if r := "(" + strings.Join(got, ",") + ")"; squash(r) != squash(text) {
				k.Fail("rejoined elements give %q", clip(r, 300))
			}
			k.c.Obs("elements compared", len(want))
		})
	}
	if okM {
		c.Sub("matrices", c.N(20000, 80000), func(k *Case) {
			rows, cols := 1+k.Intn(6), 6
			if k.Intn(100) == 0 {
				rows, cols = 1+k.Intn(300), 1+k.Intn(100)
			}
			var want [][]string
			var parts []string
			for i := 0; i < rows; i++ {
				t, e := k.aggregate(1+k.Intn(cols), k.Intn(3), k.Intn(2) == 0)
				switch {
				case k.Intn(12) == 0: // no elements
					t, e = []string{"()", "( )"}[k.Intn(2)], nil
				case k.Intn(4) == 0 && i > 0 && want[i-1] != nil: // almost the row before
					e = append([]string{}, want[i-1]...)
					j := k.Intn(len(e))
					switch x := strings.ToLower(e[j]); {
					case k.Intn(3) == 0:
						e[j] = "'" + fmt.Sprint(k.Intn(3)) + "'"
					case x != e[j]:
						e[j] = x
					default:
						e[j] = strings.ToUpper(x)
					}
					t = "(" + strings.Join(e, ",") + ")"
				}
				want = append(want, e)
				parts = append(parts, t)
			}
			text := "(" + strings.Join(parts, []string{",", ", ", " ,"}[k.Intn(3)]) + ")"
			k.Input(text)
			k.Seen(text)
			got := getMatrix(text)
			if k.Intn(4) == 0 { // another result, overwritten by its owner
				other := text
				if k.Intn(3) > 0 {
					other, _ = k.aggregate(1+k.Intn(4), k.Intn(3), true)
					other = "(" + other + "," + other + ")"
				}
				for _, r := range getMatrix(other) {
					for j := range r {
						r[j] = "spoilt"
					}
				}
				k.c.Obs("results kept while others were made", 1)
			}
			if len(got) != rows {
				k.Fail("%d rows, the text has %d", len(got), rows)
				return
			}
			for i := range want {
				if want[i] == nil && len(got[i]) == 1 && got[i][0] == "" {
					continue // no elements, or an empty one
				}
				if len(got[i]) != len(want[i]) {
					k.Fail("row %d has %d elements, the text has %d", i, len(got[i]), len(want[i]))
					return
				}
				for j := range want[i] {
					if squash(got[i][j]) != want[i][j] {
						k.Fail("element %d,%d is %q, the text has %q", i, j, got[i][j], want[i][j])
						return
					}
					if padded(got[i][j]) {
						k.Fail("element %d,%d is %q, with white space around it", i, j, got[i][j])
						return
					}
				}
			}
			k.c.Obs("matrix rows compared", rows)
		})
	}
	if okL {
		c.Sub("logicals", c.N(200, 2000), func(k *Case) {
			v := []string{".T.", ".F.", ".U.", "", "$", "T", ".TRUE.", "F", "*", ".X."}[k.Intn(10)]
			k.Input(v)
			k.Seen(v)
			if got := getLogical(v); got != (v == ".T.") {
				k.Fail("%q decodes to %v", v, got)
			}
		})
	}
	// the same through the reader: the arguments of an instance
	c.Sub("arguments of instances", c.N(12000, 50000), func(k *Case) {
		n := 1 + k.Intn(8)
		text, want := k.aggregate(n, 4, k.Intn(2) == 0)
		doc := "#1=T" + text + ";"
		k.Input(doc)
		k.Seen(doc)
		got := lexText([]byte(doc))["#1"].Arguments
		if len(got) != len(want) {
			k.Fail("%d arguments %q, the instance has %d", len(got), got, len(want))
			return
		}
		for i := range want {
			if squash(got[i]) != want[i] {
				k.Fail("argument %d is %q, the instance has %q", i, got[i], want[i])
				return
			}
			if padded(got[i]) {
				k.Fail("argument %d is %q, with white space around it", i, got[i])
				return
			}
		}
	})
}

// ---- totality --------------------------------------------------------------

var supported = []string{"CARTESIAN_POINT", "VERTEX_POINT", "VERTEX_LOOP", "AXIS2_PLACEMENT_3D", "FACE", "B_SPLINE_SURFACE_WITH_KNOTS",
	"ADVANCED_FACE", "CLOSED_SHELL", "DIRECTION", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_FORMATION",
	"PRODUCT_DEFINITION_SHAPE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "UNKNOWN_THING"}

func (k *Case) hostileDoc(n int) []inst {
	var d []inst
	for i := 0; i < n; i++ {
		in := inst{id: fmt.Sprintf("#%d", i+1), typ: supported[k.Intn(len(supported))]}
		for j := k.Intn(14); j > 0; j-- {
			switch k.Intn(5) {
			case 0, 1:
				in.args = append(in.args, []string{fmt.Sprintf("#%d", 1+k.Intn(n+2))}) // cycles, dangling
			case 2:
				in.args = append(in.args, []string{[]string{"()", "(", ")", "", "$", "(())", "((1,2),3)", "#", "''", "(,)", "((", "'"}[k.Intn(12)]})
			default:
				in.args = append(in.args, k.stepArg(2))
			}
		}
		d = append(d, in)
	}
	return d
}

func (k *Case) anyByte(s string) byte { return s[k.Intn(len(s))] }

func (k *Case) mutateBytes(b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + k.Intn(8); n > 0 && len(b) > 0; n-- {
		i := k.Intn(len(b))
		switch k.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(k.Intn(256))
		case 2:
			b[i] = k.anyByte("#=();,'/*\n\r $.")
		case 3:
			j := i + k.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 4:
			j := i + k.Intn(len(b)-i)
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		default:
			b = append(b[:i:i], append([]byte{k.anyByte("#=();,'/*")}, b[i:]...)...)
		}
	}
	return b
}

func totality(k *Case, text []byte) {
	k.Input(textInput(string(text)))
	k.Seen(string(text))
	var table step.SymbolTable
	if p := catch(func() { table = lexText(text) }); p != nil {
		k.Fail("reading the file panicked: %v", p)
		return
	}
	if table == nil {
		k.Fail("reading the file gave no table")
		return
	}
	path := filepath.Join(stepScratch, "in.stp")
	if n, ok := descriptors(path); ok {
		if n > 0 {
			k.Fail("reading the file leaves it open")
			return
		}
		k.c.Obs("files closed after reading", 1)
	}
	if k.Intn(8) == 0 {
		if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, text) {
			k.Fail("reading the file changes it")
			return
		}
	}
	if p := catch(func() { step.Parse(table) }); p != nil {
		k.Fail("interpreting the file panicked: %v", p)
		return
	}
	k.c.Obs("definitions interpreted", len(table))
}

func runTotality(c *Ctx) {
	c.Sub("mutated documents", c.N(12000, 100000), func(k *Case) {
		text, _ := k.render(k.stepDoc(1 + k.Intn(8)))
		totality(k, k.mutateBytes([]byte(text)))
	})
	c.Sub("dangling, cyclic and malformed instances", c.N(12000, 100000), func(k *Case) {
		text, _ := k.render(k.hostileDoc(1 + k.Intn(12)))
		totality(k, []byte(text))
	})
	c.Sub("arbitrary bytes", c.N(6000, 40000), func(k *Case) {
		n := k.Intn(300)
		b := make([]byte, n)
		mode := k.Intn(3)
		for i := range b {
			switch mode {
			case 0:
				b[i] = byte(k.Intn(256))
			case 1:
				b[i] = k.anyByte("#12=AB();,'/* \n\r$.")
			default:
				b[i] = k.anyByte("#=();'\n1")
			}
		}
		totality(k, b)
	})
	c.Sub("cut documents", c.N(5000, 30000), func(k *Case) {
		text, _ := k.render(k.hostileDoc(1 + k.Intn(5)))
		totality(k, []byte(text[:k.Intn(len(text)+1)]))
	})
	fixed := []string{"", "\n", "\r\n", ";", "=", "#", "#1", "#1=", "#1=;", "#1=A", "#1=A;", "#1=A(", "#1=A()", "#1=A();", "#1=();", "#1=(;", "#=A(1);", "=A(1);",
		"'", "/*", "*/", "/*/", "#1='", "#1=A(';", "#1=A/*(", "#1=A)", "#1=A));", "#1=A(1)", "#1=A(1) ;", "#1=SPHERICAL_SURFACE();", "#1=SPHERICAL_SURFACE('',#1);",
		"#1=ADVANCED_FACE('',(),#1,.T.);", "#1=ADVANCED_FACE('',(),#2,.T.);#2=ADVANCED_FACE('',(),#1,.T.);", "#1=B_SPLINE_SURFACE_WITH_KNOTS();",
		"#1=B_SPLINE_SURFACE_WITH_KNOTS('',1,1,(),.U.,.F.,.F.,.F.,(),(),(),(),.U.);", "#1=B_SPLINE_SURFACE_WITH_KNOTS('',1,1,((,),(,)),$,$,$,$,$,$,$,$,$);",
		"#1=B_SPLINE_SURFACE_WITH_KNOTS('',1,1,#2,$,$,$,$,#,(,),),();", "#1=AXIS2_PLACEMENT_3D('',#1,#1,#1);", "#1=AXIS2_PLACEMENT_3D('',#2,$,$);#2=CARTESIAN_POINT();",
		"#1=AXIS2_PLACEMENT_3D('',#2,$,$);#2=CARTESIAN_POINT('');", "#1=AXIS2_PLACEMENT_3D('',#2,$,$);#2=CARTESIAN_POINT('',1);", "#1=PRODUCT_DEFINITION_SHAPE('','',#1);",
		"#1=PRODUCT_DEFINITION('','',#1,#1);", "#1=PRODUCT_DEFINITION_SHAPE();", "ISO-10303-21;", "ISO-10303-21;HEADER;ENDSEC;DATA;ENDSEC;END-ISO-10303-21;"}
	c.Sub("edge files", len(fixed), func(k *Case) {
		totality(k, []byte(fixed[k.index]))
	})
	c.Sub("deep nesting and long chains", c.N(30, 60), func(k *Case) {
		n := 1000 * (1 + k.Intn(100))
		switch k.Intn(4) {
		case 0:
			totality(k, []byte("#1=A("+strings.Repeat("(", n)+strings.Repeat(")", n)+");"))
		case 1:
			totality(k, []byte("#1=A("+strings.Repeat("(", n)+";"))
		case 2:
			totality(k, []byte(strings.Repeat("#1=A(1);", n/10)))
		default:
			m := 200 + k.Intn(1500)
			var b strings.Builder
			for i := 1; i <= m; i++ {
				fmt.Fprintf(&b, "#%d=PRODUCT_DEFINITION_SHAPE('','',#%d);", i, i%m+1)
			}
			totality(k, []byte(b.String()))
		}
	})
	c.Sub("files that cannot be read", 7, func(k *Case) {
		dir, err := os.MkdirTemp("", "step")
		if err != nil {
			panic(harnessError(err.Error()))
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "absent.stp")
		switch k.index {
		case 1:
			path = dir
		case 2:
			path = ""
		case 3: // a link to itself
			path = filepath.Join(dir, "loop.stp")
			if err := os.Symlink(path, path); err != nil {
				panic(harnessError(err.Error()))
			}
		case 4: // below a file
			file := filepath.Join(dir, "file.stp")
			if err := os.WriteFile(file, []byte("#1=A(1);"), 0o644); err != nil {
				panic(harnessError(err.Error()))
			}
			path = filepath.Join(file, "in.stp")
		case 5:
			path = filepath.Join(dir, strings.Repeat("n", 300))
		case 6: // opens, but reading it fails
			path = "/proc/self/mem"
		}
		k.Input(fmt.Sprintf("path kind %d", k.index))
		k.Seen(k.index)
		done := false
		p := catch(func() {
			l := step.Lexer{Filename: path, SymbolsChan: make(chan step.Symbol, 2)}
			l.Lex()
			done = true
		})
		if done || p == nil {
			k.Fail("a file that cannot be read is reported as read (%s)", path)
			return
		}
		k.c.Obs("unreadable files reported", 1)
	})
}

// ---- interpretation --------------------------------------------------------

// captured runs f with the standard output in a pipe. Lines that list the states
// still to visit are left out: they report nothing, and their length depends
// on the order of the work. whole is false when the rest is too long to keep.
func captured(f func()) (output string, whole bool) {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	os.Stdout = w
	ch := make(chan []byte)
	go func() {
		var buf bytes.Buffer
		in := bufio.NewReaderSize(r, 1<<16)
		first, listing := true, false
		for {
			part, err := in.ReadSlice('\n')
			if first {
				listing = bytes.HasPrefix(part, []byte("STATES"))
			}
			if !listing && buf.Len() <= 64<<20 {
				buf.Write(part)
			}
			first = err == nil
			if err != nil && err != bufio.ErrBufferFull {
				break
			}
		}
		ch <- buf.Bytes()
	}()
	defer func() {
		os.Stdout = old
	}()
	var p interface{}
	func() {
		defer func() { p = recover() }()
		f()
	}()
	os.Stdout = old
	w.Close()
	out := <-ch
	r.Close()
	if p != nil {
		panic(p)
	}
	return string(out), len(out) <= 64<<20
}

// surface is the model of one B-spline surface instance.
type surface struct {
	fields [12][]string // tokens per argument
	text   string       // expected report, squashed
}

func (k *Case) tokList(items []string) []string {
	t := []string{"("}
	for i, x := range items {
		if i > 0 {
			t = append(t, ",")
		}
		t = append(t, x)
	}
	return append(t, ")")
}

func (k *Case) genSurface(ref func() string) (inst, string) {
	rows, cols := 1+k.Intn(4), 1+k.Intn(4)
	most := 5
	if k.Intn(100) == 0 { // a large net
		rows, cols, most = 1+k.Intn(60), 1+k.Intn(60), 300
	}
	var m [][]string
	cp := []string{"("}
	for i := 0; i < rows; i++ {
		var r []string
		for j := 0; j < cols; j++ {
			r = append(r, ref())
		}
		m = append(m, r)
		if i > 0 {
			cp = append(cp, ",")
		}
		cp = append(cp, k.tokList(r)...)
	}
	cp = append(cp, ")")
	ints := func() []string {
		var o []string
		for i := 1 + k.Intn(most-1); i > 0; i-- {
			o = append(o, fmt.Sprint(1+k.Intn(5)))
		}
		return o
	}
	reals := func() []string {
		var o []string
		for i := 1 + k.Intn(most); i > 0; i-- {
			o = append(o, k.stepNumber())
		}
		return o
	}
	logical := func() string { return []string{".T.", ".F.", ".U."}[k.Intn(3)] }
	name := "'" + []string{"", "surf", "a(b", "x,y", "it''s"}[k.Intn(5)] + "'"
	ud, vd := fmt.Sprint(1+k.Intn(5)), fmt.Sprint(1+k.Intn(5))
	if k.Intn(20) == 0 {
		ud, vd = []string{"0", "03", "+2", "25"}[k.Intn(4)], []string{"0", "+1", "007", "12"}[k.Intn(4)]
	}
	form := []string{".UNSPECIFIED.", ".PLANE_SURF.", ".CYLINDRICAL_SURF."}[k.Intn(3)]
	uc, vc, si := logical(), logical(), logical()
	um, vm, uk, vk := ints(), ints(), reals(), reals()
	in := inst{typ: "B_SPLINE_SURFACE_WITH_KNOTS", args: [][]string{{name}, {ud}, {vd}, cp, {form}, {uc}, {vc}, {si},
		k.tokList(um), k.tokList(vm), k.tokList(uk), k.tokList(vk), {".UNSPECIFIED."}}}
	if k.Intn(12) == 0 { // lists left out, or the last arguments missing: nothing takes their place
		lists := []*[]string{&um, &vm, &uk, &vk}
		if k.Intn(2) == 0 {
			j := k.Intn(4)
			*lists[j], in.args[8+j] = nil, []string{"$"}
		} else {
			in.args = in.args[:5+k.Intn(8)]
			for j, l := range lists {
				if 8+j >= len(in.args) {
					*l = nil
				}
			}
			for j, b := range []*string{&uc, &vc, &si} {
				if 5+j >= len(in.args) {
					*b = ""
				}
			}
		}
		k.c.Obs("surfaces without some of their arguments", 1)
	}
	want := fmt.Sprintln("name:", name) + fmt.Sprintln("uDegree:", ud) + fmt.Sprintln("vDegree:", vd) +
		fmt.Sprintln("controlPointsList:", m) + fmt.Sprintln("surfaceForm:", form) + fmt.Sprintln("uClosed:", uc == ".T.") +
		fmt.Sprintln("vClosed", vc == ".T.") + fmt.Sprintln("selfIntersect:", si == ".T.") + fmt.Sprintln("uMultiplicities:", um) +
		fmt.Sprintln("vMultiplicities:", vm) + fmt.Sprintln("uKnots:", uk) + fmt.Sprintln("vKnots:", vk)
	return in, want
}

var surfaceReport = regexp.MustCompile(`(?m)^name:(?:.*\n)+?vKnots:.*\n`)

func runInterpret(c *Ctx) {
	gen := func(k *Case) (d []inst, surfaces, radii []string, tori, faces int, faceTypes, unknown []string) {
		n := 1 + k.Intn(25)
		if k.Intn(40) == 0 {
			n = 300
		}
		if k.Intn(400) == 0 {
			n = 2000 + k.Intn(6000)
		}
		// first decide the kinds, so that references can be well typed
		kinds := make([]int, n)
		ids := make([]string, n)
		perm := k.Perm(3 * n)
		var points, balls, doughnuts, nurbs, others, products []string
		for i := range kinds {
			kinds[i] = k.Intn(14)
			ids[i] = fmt.Sprintf("#%d", perm[i]+1)
			switch kinds[i] {
			case 0, 1:
				balls = append(balls, ids[i])
			case 2:
				doughnuts = append(doughnuts, ids[i])
			case 3, 4:
				nurbs = append(nurbs, ids[i])
			case 8:
				others = append(others, ids[i])
			case 9:
				points = append(points, ids[i])
			case 12:
				products = append(products, ids[i])
			}
		}
		pick := func(l []string) string {
			if len(l) == 0 {
				return fmt.Sprintf("#%d", 10*n+k.Intn(50)) // dangling
			}
			return l[k.Intn(len(l))]
		}
		typeOf := map[string]string{}
		for _, b := range balls {
			typeOf[b] = "SPHERICAL_SURFACE"
		}
		for _, b := range doughnuts {
			typeOf[b] = "TOROIDAL_SURFACE"
		}
		for _, b := range nurbs {
			typeOf[b] = "B_SPLINE_SURFACE_WITH_KNOTS"
		}
		for _, b := range others {
			typeOf[b] = "PLANE"
		}
		for i := range kinds {
			var in inst
			switch kinds[i] {
			case 0, 1:
				r := k.stepNumber()
				in = inst{typ: "SPHERICAL_SURFACE", args: [][]string{{"''"}, {pick(nil)}, {r}}}
				radii = append(radii, r)
			case 2:
				in = inst{typ: "TOROIDAL_SURFACE", args: [][]string{{"''"}, {pick(nil)}, {k.stepNumber()}, {k.stepNumber()}}}
				tori++
			case 3, 4:
				var w string
				in, w = k.genSurface(func() string { return pick(points) })
				surfaces = append(surfaces, w)
			case 5, 6, 7:
				var g string
				switch k.Intn(6) {
				case 0:
					g = pick(doughnuts)
				case 1:
					g = pick(nurbs)
				case 2:
					g = pick(others)
				default:
					g = pick(balls)
				}
				// the bounds never name a surface
				in = inst{typ: "ADVANCED_FACE", args: [][]string{{"''"}, {"(", pick(nil), ")"}, {g}, {".T."}}}
				faces++
				faceTypes = append(faceTypes, typeOf[g])
			case 8:
				in = inst{typ: "PLANE", args: [][]string{{"''"}, {pick(nil)}}}
			case 9:
				in = inst{typ: "CARTESIAN_POINT", args: [][]string{{"''"}, {"(", "1.", ",", "2.", ",", "3.", ")"}}}
			case 10:
				in = inst{typ: "AXIS2_PLACEMENT_3D", args: [][]string{{"''"}, {pick(points)}, {"$"}, {"$"}}}
			case 12: // followed, but not reported
				in = []inst{
					{typ: "PRODUCT_DEFINITION_SHAPE", args: [][]string{{"''"}, {"''"}, {pick(products)}}},
					{typ: "PRODUCT_DEFINITION", args: [][]string{{"'d'"}, {"''"}, {pick(products)}, {pick(products)}}},
					{typ: "PRODUCT_DEFINITION_FORMATION", args: [][]string{{"'1'"}, {"''"}, {pick(nil)}}},
					{typ: "PRODUCT_DEFINITION_CONTEXT", args: [][]string{{"''"}, {pick(nil)}, {"'design'"}}},
				}[k.Intn(4)]
			case 13:
				in = []inst{
					{typ: "DIRECTION", args: [][]string{{"''"}, {"(", "0.", ",", "0.", ",", "1.", ")"}}},
					{typ: "VERTEX_LOOP", args: [][]string{{"''"}, {pick(points)}}},
					{typ: "VERTEX_POINT", args: [][]string{{"''"}, {pick(points)}}},
					{typ: "CLOSED_SHELL", args: [][]string{{"''"}, {"(", pick(nil), ",", pick(nil), ")"}}},
					{typ: "FACE", args: [][]string{{"''"}, {"(", pick(nil), ")"}}},
				}[k.Intn(5)]
			default:
				t := fmt.Sprintf("UNSUPPORTED_%d", k.Intn(5))
				in = inst{typ: t, args: [][]string{{"1"}}}
				unknown = append(unknown, t)
			}
			in.id = ids[i]
			d = append(d, in)
		}
		return
	}
	c.Sub("well-typed documents", c.N(8000, 40000), func(k *Case) {
		d, surfaces, radii, tori, faces, faceTypes, unknown := gen(k)
		text, _ := k.render(d)
		k.Input(textInput(text))
		k.Seen(text)
		var table step.SymbolTable
		if k.Intn(2) == 0 {
			table = lexText([]byte(text))
		} else { // the table alone
			table = step.SymbolTable{}
			for _, in := range d {
				def := step.Definition{Type: in.typ}
				for _, a := range in.args {
					def.Arguments = append(def.Arguments, canonArg(a))
				}
				table[in.id] = def
			}
		}
		size := len(table)
		out, whole := captured(func() { step.Parse(table) })
		if !whole {
			k.c.Obs("output too long to keep", 1)
			return
		}
		if len(table) != size {
			k.Fail("interpreting changed the table: %d instances became %d", size, len(table))
			return
		}
		compare := func(what string, got, want []string) bool {
			g, w := append([]string(nil), got...), append([]string(nil), want...)
			for i := range g {
				g[i] = squash(g[i])
			}
			for i := range w {
				w[i] = squash(w[i])
			}
			sort.Strings(g)
			sort.Strings(w)
			if !reflect.DeepEqual(g, w) && len(g)+len(w) > 0 {
				for i := 0; i < len(g) && i < len(w); i++ {
					if g[i] != w[i] {
						k.Fail("%s: reported %d, the table has %d; first difference: reported %q, the table has %q", what, len(g), len(w), clip(g[i], 400), clip(w[i], 400))
						return false
					}
				}
				k.Fail("%s: reported %d, the table has %d", what, len(g), len(w))
				return false
			}
			return true
		}
		if !compare("B-spline surfaces", surfaceReport.FindAllString(out, -1), surfaces) {
			return
		}
		var gr, gf []string
		baz := 0
		lines := strings.Split(out, "\n")
		for i, l := range lines {
			switch {
			case strings.HasPrefix(l, "radius:"):
				gr = append(gr, strings.TrimPrefix(l, "radius:"))
			case strings.HasPrefix(l, "Bazinga"):
				baz++
			case l == "parsing advanced face":
				t := ""
				if i+1 < len(lines) {
					t = lines[i+1]
				}
				gf = append(gf, t)
			}
		}
		if !compare("radii of spherical surfaces", gr, radii) || !compare("surfaces of advanced faces", gf, faceTypes) {
			return
		}
		if baz != len(radii)+tori {
			k.Fail("%d spherical and toroidal surfaces reported, the table has %d", baz, len(radii)+tori)
			return
		}
		if len(gf) != faces {
			k.Fail("%d advanced faces reported, the table has %d", len(gf), faces)
			return
		}
		k.c.Obs("B-spline surfaces", len(surfaces))
		k.c.Obs("spherical surfaces", len(radii))
		k.c.Obs("toroidal surfaces", tori)
		k.c.Obs("advanced faces", faces)
		k.c.Obs("unsupported instances", len(unknown))
	})
}

func init() {
	register("C01", "STEP documents of random instances (nested aggregates, strings with separators and doubled quotes, typed values, complex instances, repeated ids) in random layouts (line breaks, CRLF, white space, comments, several instances on a line, headers), cut at random points, with lines beyond read-buffer sizes, up to 69000 instances, 66000 arguments or levels of nesting and statements of 2 MB; distinct by content", runLex,
		"line breaks within a string are no part of it; of a complex instance only the identifier is compared")
	register("C02", "aggregates of random nested elements with and without white space, decoded and compared element by element with their generator; distinct by content", runAggregates, "aggregates have at least one element")
	register("C03", "mutated, truncated and arbitrary byte files, documents with dangling, cyclic and malformed instances of every supported type, edge files, deep nesting, unreadable paths; every case is read and interpreted; distinct by content", runTotality,
		"a case that uses 120 CPU seconds, 6 GB or blocks for two minutes counts as not terminating")
	register("C04", "well-typed tables of spherical, toroidal and B-spline surfaces, advanced faces on them, points, placements, products, shells and unsupported instances, from files and built directly; what is reported on the standard output is compared as a multiset with the table; distinct by content", runInterpret)
}

U='step/util.go'
H='''package step

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
)

var _ = bytes.Equal
var _ = io.EOF
var _ = reflect.DeepEqual
var _ = strings.Count
var _ = fmt.Sprint

func table(t *testing.T, text string) SymbolTable {
	f := filepath.Join(t.TempDir(), "a.stp")
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		t.Fatal(err)
	}
	l := initLexer(f)
	return l.Lex()
}

// output is what the interpretation of the table prints.
func output(t *testing.T, st SymbolTable) string {
	old := os.Stdout
	f, err := os.Create(filepath.Join(t.TempDir(), "out"))
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = f
	defer func() { os.Stdout = old }()
	Parse(st)
	os.Stdout = old
	f.Close()
	b, _ := os.ReadFile(f.Name())
	return string(b)
}

func TestDemo(t *testing.T) {
	_ = table
	_ = output
'''
BUGS=[
dict(id='step-split-equals',property='C01',pkg='step',
 edits=[('step/lex.go','	split := strings.SplitN(symbolText, "=", 2)','	split := strings.Split(symbolText, "=")')],
 demo=H+'''	st := table(t, "#1 = NAME('a=b', 3);\\n")
	if a := st["#1"].Arguments; len(a) != 2 || a[0] != "'a=b'" || a[1] != "3" {
		t.Fatal(st)
	}
}
''',needs='an equals sign in a string argument',breaks='the instance is cut at the second equals sign'),
dict(id='step-first-wins',property='C01',pkg='step',
 edits=[('step/lex.go','	(*st)[identifier] = definition\n','	if _, known := (*st)[identifier]; !known {\n		(*st)[identifier] = definition\n	}\n')],
 demo=H+'''	st := table(t, "#1 = A(1);\\n#1 = B(2);\\n")
	if st["#1"].Type != "B" {
		t.Fatal(st)
	}
}
''',needs='an identifier defined twice',breaks='the first definition is kept'),
dict(id='step-argument-depth',property='C01',pkg='step',
 edits=[(U,'''		if openBrackets == 0 && r == ',' {
			arguments = ''','''		if openBrackets%2 == 0 && r == ',' {
			arguments = ''')],
 demo=H+'''	st := table(t, "#1 = A(((1,2),(3,4)),5);\\n")
	if a := st["#1"].Arguments; len(a) != 2 || a[0] != "((1,2),(3,4))" {
		t.Fatal(st)
	}
}
''',needs='a comma inside a list of lists',breaks='nested lists are split into arguments'),
dict(id='step-element-depth',property='C02',pkg='step',
 edits=[(U,'''		if openBrackets == 0 && r == ',' {
			array = ''','''		if openBrackets != 1 && r == ',' {
			array = ''')],
 demo=H+'''	a := getArray("(((1,2),(3,4)),5)", reflect.Array)
	if len(a) != 2 || a[0] != "((1,2),(3,4))" {
		t.Fatal(a)
	}
}
''',needs='a list nested three deep',breaks='elements of inner lists become elements of the list'),
dict(id='step-ragged-rows',property='C02',pkg='step',
 edits=[(U,'''		row := getArray(col, reflect.Float64)
		matrix = append(matrix, row)''','''		row := getArray(col, reflect.Float64)
		if len(matrix) > 0 && len(row) > len(matrix[0]) {
			matrix = append(matrix, row[:len(matrix[0])])
		} else {
			matrix = append(matrix, row)
		}''')],
 demo=H+'''	m := getMatrix("((1,2),(3,4,5))")
	if len(m) != 2 || len(m[1]) != 3 {
		t.Fatal(m)
	}
}
''',needs='a list of lists whose rows grow',breaks='rows are cut to the length of the first'),
dict(id='step-element-limit',property='C02',pkg='step',
 edits=[(U,'''			continue
		}
		element = append(element, r)
	}
''','''			continue
		}
		if len(element) < 4096 {
			element = append(element, r)
		}
	}
''')],
 demo=H+'''	long := "(" + strings.Repeat("12345,", 1000) + "0)"
	a := getArray("("+long+",2)", reflect.Int)
	if len(a) != 2 || a[0] != long {
		t.Fatal(len(a[0]))
	}
}
''',needs='a nested list of more than 4096 characters',breaks='long elements are cut off'),
dict(id='step-face-name',property='C03',pkg='step',
 edits=[('step/template.go','	fmt.Println(p.lexemes[neighbourID].Type)\n','	fmt.Println(p.lexemes[neighbourID].Type, p.lexemes[neighbourID].Arguments[0])\n')],
 demo=H+'''	output(t, SymbolTable{"#1": {Type: "ADVANCED_FACE", Arguments: []string{"''", "()", "#9", ".T."}}})
}
''',needs='a face whose surface is missing from the file',breaks='interpretation panics'),
dict(id='step-missing-empty',property='C03',pkg='step',
 edits=[('step/lex.go','''
	check(err)
	defer file.Close()''','''
	if os.IsNotExist(err) {
		return SymbolTable{}
	}
	check(err)
	defer file.Close()'''),('step/lex.go','	file, err := os.Open(l.Filename)\n','	file, err := os.OpenFile(l.Filename, os.O_RDONLY, 0)\n')],
 demo=H+'''	defer func() {
		if recover() == nil {
			t.Fatal("no error")
		}
	}()
	l := initLexer(filepath.Join(t.TempDir(), "none"))
	l.Lex()
}
''',needs='a path that does not exist',breaks='an empty table is returned'),
dict(id='step-array-open',property='C03',pkg='step',
 edits=[(U,'''	arrayText = arrayText[1 : len(arrayText)-1]
''','''	arrayText = arrayText[1 : strings.LastIndex(arrayText, ")")]
''')],
 demo=H+'''	getArray("(1,2", reflect.Int)
}
''',needs='a list without its closing bracket, as in a damaged file',breaks='decoding it panics'),
dict(id='step-torus-direct',property='C04',pkg='step',
 edits=[('step/template.go','''		ToroidalSurfaceState := parseState{fn: p.toroidalSurface, key: neighbourID}
		p.nextStates = append(p.nextStates, ToroidalSurfaceState)
''','''		p.toroidalSurface(neighbourID)
		p.visited[neighbourID] = struct{}{}
''')],
 demo=H+'''	st := SymbolTable{
		"#1": {Type: "ADVANCED_FACE", Arguments: []string{"''", "()", "#2", ".T."}},
		"#2": {Type: "TOROIDAL_SURFACE", Arguments: []string{"''", "#3", "2.", "1."}},
	}
	for i := 0; i < 50; i++ {
		if n := strings.Count(output(t, st), "Bazinga"); n != 1 {
			t.Fatalf("the torus is reported %d times", n)
		}
	}
}
''',needs='a face visited after its torus (the order of the table is random), or two faces on one torus',breaks='the torus is reported again for each such face'),
dict(id='step-print-closed',property='C04',pkg='step',
 edits=[('step/job.go','	fmt.Println("vClosed", nurb.vClosed)','	fmt.Println("vClosed", nurb.vClosed || nurb.uClosed && nurb.selfIntersect)')],
 demo=H+'''	st := SymbolTable{"#1": {Type: "B_SPLINE_SURFACE_WITH_KNOTS", Arguments: []string{"''", "1", "1", "((#2,#3),(#4,#5))", ".UNSPECIFIED.", ".T.", ".F.", ".T.", "(2,2)", "(2,2)", "(0.,1.)", "(0.,1.)", ".UNSPECIFIED."}}}
	if !strings.Contains(output(t, st), "vClosed false") {
		t.Fatal("wrong")
	}
}
''',needs='a surface that is closed in u only and self-intersecting',breaks='it is reported as closed in v'),
dict(id='step-visited-types',property='C04',pkg='step',
 edits=[('step/parse.go','''			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
''','''			before := len(parser.nextStates)
			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
			// nothing was followed: the states behind it are known too
			for _, next := range parser.nextStates[1:before] {
				parser.visited[next.key] = struct{}{}
			}
''')],
 demo=H+'''	st := SymbolTable{
		"#1": {Type: "PRODUCT_DEFINITION_SHAPE", Arguments: []string{"''", "''", "#4"}},
		"#4": {Type: "PRODUCT_DEFINITION", Arguments: []string{"''", "''", "#2", "#3"}},
		"#2": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#9", "2."}},
	}
	for i := 0; i < 50; i++ {
		if n := strings.Count(output(t, st), "radius: 2."); n != 1 {
			t.Fatalf("the sphere is reported %d times", n)
		}
	}
}
''',needs='x',breaks='x'),
]
BUGS=[b for b in BUGS if b['needs']!='x']

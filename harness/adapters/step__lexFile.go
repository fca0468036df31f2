package step

import "verifreg"

func init() {
	verifreg.F["step.lexFile"] = func(filename string) SymbolTable {
		l := initLexer(filename)
		return l.Lex()
	}
}

From 95212433c1c58eef01ed74b2c853df21fcc25b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 01/38] fix: triangulating a single point reported no error but
 panicked

The bounds were started from the second point, which a set of one point does
not have.
---
 triangulate2/triangulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index df49be8..19ffa02 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -60,8 +60,8 @@ func (tri *triangulator) triangulate() error {
 	// compute bounds
 	x0 := Vectors[0].X
 	y0 := Vectors[0].Y
-	x1 := Vectors[1].X
-	y1 := Vectors[1].Y
+	x1 := Vectors[0].X
+	y1 := Vectors[0].Y
 	for i, p := range Vectors {
 		if p.X < x0 {
 			x0 = p.X
-- 
2.43.0


From 3dd1d37b4590dc9e98047bf3ed80f5dd79032538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 02/38] fix: heights of the points disturbed the planar
 triangulation and hull

Distances between planar positions included the z difference, so points were
dropped as duplicates or inserted in the wrong order, and sets with a valid
triangulation were rejected.
---
 triangulate2/hull.go         | 2 +-
 triangulate2/triangulator.go | 8 ++++----
 triangulate2/util.go         | 8 ++++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 11f07f5..3276dfa 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -29,7 +29,7 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	// filter nearly-duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && r3.SquaredDistance(p, Vectors[i-1]) < eps {
+		if i > 0 && squaredDistance2D(p, Vectors[i-1]) < eps {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 19ffa02..2db7c06 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -84,7 +84,7 @@ func (tri *triangulator) triangulate() error {
 	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
 	minDist := infinity
 	for i, p := range Vectors {
-		d := r3.SquaredDistance(p, m)
+		d := squaredDistance2D(p, m)
 		if d < minDist {
 			i0 = i
 			minDist = d
@@ -97,7 +97,7 @@ func (tri *triangulator) triangulate() error {
 		if i == i0 {
 			continue
 		}
-		d := r3.SquaredDistance(p, Vectors[i0])
+		d := squaredDistance2D(p, Vectors[i0])
 		if d > 0 && d < minDist {
 			i1 = i
 			minDist = d
@@ -130,7 +130,7 @@ func (tri *triangulator) triangulate() error {
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = r3.SquaredDistance(p, tri.center)
+		tri.squaredDistances[i] = squaredDistance2D(p, tri.center)
 	}
 	sort.Sort(tri)
 
@@ -167,7 +167,7 @@ func (tri *triangulator) triangulate() error {
 		p := Vectors[i]
 
 		// skip nearly-duplicate Vectors
-		if r3.SquaredDistance(p, pp) < eps {
+		if squaredDistance2D(p, pp) < eps {
 			continue
 		}
 		pp = p
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 14d1d35..7d62c7d 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -9,6 +9,14 @@ var eps = math.Nextafter(1, 2) - 1
 
 var infinity = math.Inf(1)
 
+// squaredDistance2D is the squared distance in the xy plane: this package
+// triangulates planar positions, whatever the height of the points.
+func squaredDistance2D(a, b r3.Vector) float64 {
+	dx := a.X - b.X
+	dy := a.Y - b.Y
+	return dx*dx + dy*dy
+}
+
 func pseudoAngle(dx, dy float64) float64 {
 	p := dx / (math.Abs(dx) + math.Abs(dy))
 	if dy > 0 {
-- 
2.43.0


From 192090d91ac24c15a908e09e7313617bc7822786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 03/38] fix: the convex hull of one position was empty

---
 triangulate2/hull.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 3276dfa..15cd62c 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -35,6 +35,10 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 		distinctVectors = append(distinctVectors, p)
 	}
 	Vectors = distinctVectors
+	if len(Vectors) == 1 {
+		// both portions would lose their only point
+		return Vectors
+	}
 
 	// find upper and lower portions
 	var U, L []r3.Vector
-- 
2.43.0


From eccb9d4ba02b38e537c1066297cfb5d38f49574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 04/38] fix: lexing a file parsed the program's command line

Lex called flag.Parse, which ends any program that has other flags, and which
is a data race between concurrent readers.
---
 step/lex.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..b86af9f 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -2,7 +2,6 @@ package step
 
 import (
 	"bufio"
-	"flag"
 	"io"
 	"os"
 	"strings"
@@ -52,7 +51,6 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	flag.Parse()
 	file, err := os.Open(l.Filename)
 
 	check(err)
-- 
2.43.0


From bb4a8604a1d0a9762065aa7d5d6a39670bb2055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 05/38] fix: arguments and aggregates were split inside strings
 and kept stray text

Commas and brackets within quoted strings acted as separators, white space
around an argument or before the final semicolon ended up in the values, and
text that is not an aggregate made getArray panic.
---
 step/util.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/step/util.go b/step/util.go
index 3d97f34..971265f 100644
--- a/step/util.go
+++ b/step/util.go
@@ -13,24 +13,33 @@ import (
 func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
+	inString := false
 	argument := make([]rune, 0)
 	for _, r := range argumentsText {
+		if r == '\'' {
+			inString = !inString
+		}
+		if inString {
+			argument = append(argument, r)
+			continue
+		}
 		if r == '(' {
 			openBrackets++
 		}
 		if r == ')' {
 			openBrackets--
 		}
+		if openBrackets < 0 {
+			break /* the closing bracket of the definition */
+		}
 		if openBrackets == 0 && r == ',' {
-			arguments = append(arguments, string(argument))
+			arguments = append(arguments, strings.TrimSpace(string(argument)))
 			argument = make([]rune, 0)
 			continue
 		}
 		argument = append(argument, r)
 	}
-	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
-	arguments = append(arguments, lastArgument)
+	arguments = append(arguments, strings.TrimSpace(string(argument)))
 	return arguments
 }
 
@@ -42,12 +51,24 @@ func getArguments(argumentsText string) []string {
 */
 /* TODO:handle ERRORS */
 func getArray(arrayText string, t reflect.Kind) []string {
+	arrayText = strings.TrimSpace(arrayText)
+	if len(arrayText) < 2 || arrayText[0] != '(' {
+		return []string{} /* not an aggregate */
+	}
 	/* removing `(` from start and `)` from end*/
 	arrayText = arrayText[1 : len(arrayText)-1]
 	openBrackets := 0
+	inString := false
 	element := make([]rune, 0)
 	array := make([]string, 0)
 	for _, r := range arrayText {
+		if r == '\'' {
+			inString = !inString
+		}
+		if inString {
+			element = append(element, r)
+			continue
+		}
 		if r == '(' {
 			openBrackets++
 		}
@@ -55,13 +76,13 @@ func getArray(arrayText string, t reflect.Kind) []string {
 			openBrackets--
 		}
 		if openBrackets == 0 && r == ',' {
-			array = append(array, string(element))
+			array = append(array, strings.TrimSpace(string(element)))
 			element = make([]rune, 0)
 			continue
 		}
 		element = append(element, r)
 	}
-	array = append(array, string(element))
+	array = append(array, strings.TrimSpace(string(element)))
 	return array
 }
 
-- 
2.43.0


From aae8db904d5e49d9484dcf05beee967ce6e2e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 06/38] fix: the lexer split STEP files by lines instead of
 statements

A header before the first instance made it panic, text after the last instance
was glued to it, and continuation lines with an equals sign, several instances
on a line, comments and read errors were mishandled. Statements now end at the
semicolon, outside strings and comments.
---
 step/lex.go | 85 ++++++++++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b86af9f..684cf61 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -57,57 +57,50 @@ func (l *Lexer) Lex() SymbolTable {
 	defer file.Close()
 	reader := bufio.NewReader(file)
 
-	/* symbolData is the data related to the parsed symbol
-	---got from the step file */
-	symbolText := ""
+	/* symbolText is the statement being read: the text since the last `;`,
+	---without comments and line breaks */
+	symbolText := make([]byte, 0)
 	symbolTable := make(SymbolTable, 0)
-	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
+	inString, inComment := false, false
+	last := byte(0)
 	for {
-		line, _, err := reader.ReadLine()
+		line, isPrefix, err := reader.ReadLine()
 
 		if err == io.EOF {
 			break
 		}
-
-		buffer := string(line)
-
-		/* DEBUG BREAKPOINT */
-		//fmt.Println("buffer:", buffer, "\n buffer Length:", len(buffer))
-
-		/* skippin empty lines*/
-		/*
-			make it more robust to support multilines /could be the cause of a bug/
-		*/
-		if len(buffer) == 0 {
-			continue // empty
-		}
-		/* __--------------- */
-		/*	you can optimize this further more by making sure the symbol
-			is init to the first value when you start parsing and remvove
-			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
-			/* --sync method
-			---fmt.Println("emit") */
-
-			//fmt.Println(buffer, "buffer")
-			/*  the symbol data gets filled by the whole step description
-			----before getting split into identifier and definition */
-			if len(symbolText) > 0 {
-				symbolTable.add(symbolText)
+		check(err)
+
+		for _, c := range line {
+			switch {
+			case inComment:
+				if last == '*' && c == '/' {
+					inComment = false
+					c = 0
+				}
+			case inString:
+				inString = c != '\''
+				symbolText = append(symbolText, c)
+			case last == '/' && c == '*':
+				inComment = true
+				symbolText = symbolText[:len(symbolText)-1]
+				c = 0
+			case c == ';':
+				/* --sync method: the whole statement gets split into
+				----identifier and definition */
+				symbolTable.add(string(symbolText))
+				symbolText = symbolText[:0]
+			default:
+				inString = c == '\''
+				symbolText = append(symbolText, c)
 			}
-			/* ---------------------------------------------------- */
-			/*
-				---async method
-				symbol := Symbol{ID: identifier, Def: definition}
-				l.emit(symbol)
-			*/
-			/*_----------------------------------------------------_*/
-			symbolText = buffer // is not empty and does not contain =
-		} else {
-			symbolText += buffer
+			last = c
+		}
+		if !isPrefix {
+			last = 0
 		}
 	}
-	symbolTable.add(symbolText)
+	symbolTable.add(string(symbolText))
 	return symbolTable
 }
 
@@ -121,7 +114,10 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	identifier := strings.TrimSpace(split[0])
+	if len(split) < 2 || !strings.HasPrefix(identifier, "#") {
+		return /* header entities and section keywords define no symbol */
+	}
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
@@ -130,6 +126,9 @@ func (st *SymbolTable) add(symbolText string) {
 // tokenize : gets the definition of an identifier
 func tokenize(definitionText string) Definition {
 	split := strings.SplitN(definitionText, "(", 2)
+	if len(split) < 2 {
+		return Definition{Type: stripWhiteSpaces(definitionText)}
+	}
 
 	argumentsText := split[1]
 	definitionArguments := getArguments(argumentsText)
-- 
2.43.0


From afb1e3c6ee5bfd40861f6427b0073129348cba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 07/38] fix: parsing panicked on missing definitions and
 arguments

A dangling reference, or an instance with fewer arguments than its template,
ended the whole conversion.
---
 step/template.go | 56 +++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/step/template.go b/step/template.go
index 615acfd..ecfaf79 100644
--- a/step/template.go
+++ b/step/template.go
@@ -11,16 +11,26 @@ func (p *Parser) skipUtility(key string) {
 	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
 }
 
+// argument : gets an argument of a definition, "" when the file lacks the
+// definition or the argument.
+func (p *Parser) argument(key string, i int) string {
+	arguments := p.lexemes[key].Arguments
+	if i >= len(arguments) {
+		return ""
+	}
+	return arguments[i]
+}
+
 func (p *Parser) productDefinitionShape(key string) {
 
-	productDefinitionState := parseState{fn: p.productDefinition, key: p.lexemes[key].Arguments[2]}
+	productDefinitionState := parseState{fn: p.productDefinition, key: p.argument(key, 2)}
 	p.nextStates = append(p.nextStates, productDefinitionState)
 
 }
 func (p *Parser) productDefinition(key string) {
 
-	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[2]}
+	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.argument(key, 2)}
+	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.argument(key, 2)}
 
 	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
 
@@ -36,9 +46,9 @@ func (p *Parser) productDefinitionContext(key string) {
 
 func (p *Parser) axis2Placement3D(key string) {
 
-	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
+	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.argument(key, 1)}
+	xDirectionState := parseState{fn: p.direction, key: p.argument(key, 1)}
+	yDirectionState := parseState{fn: p.direction, key: p.argument(key, 1)}
 	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
 
 }
@@ -47,8 +57,7 @@ func (p *Parser) cartesianPoint(key string) {
 	//fmt.Println("key:", key)
 	//fmt.Println("value", p.lexemes[key])
 
-	arguments := p.lexemes[key].Arguments
-	coordinates := getArray(arguments[1], reflect.Float64)
+	coordinates := getArray(p.argument(key, 1), reflect.Float64)
 	_ = coordinates
 	//fmt.Println("coordinates:", coordinates)
 
@@ -62,7 +71,7 @@ func (p *Parser) manifoldSolidBRep(key string) {
 
 	parseStates := make([]parseState, 0)
 
-	closedShellState := parseState{fn: p.closedShell, key: p.lexemes[key].Arguments[1]}
+	closedShellState := parseState{fn: p.closedShell, key: p.argument(key, 1)}
 	parseStates = append(parseStates, closedShellState)
 	// vectorLoopState := parseState{fn: parseVectorLoop, key: l[key].Arguments[1]}
 	// if l[key].Type == "MANIFOLD_SOLID_BREP" {
@@ -89,8 +98,7 @@ func (p *Parser) advancedFace(key string) {
 
 	fmt.Println("parsing advanced face")
 
-	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[1]
+	neighbourID := p.argument(key, 1)
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
@@ -115,7 +123,7 @@ func (p *Parser) sphericalSurface(key string) {
 	// and propagate to new p.nextStates of the parser.
 	//p.nextStates := make([]parseState, 0)
 	fmt.Println("Bazinga!!!!!!")
-	radius := p.lexemes[key].Arguments[2]
+	radius := p.argument(key, 2)
 	fmt.Println("radius:", radius)
 
 }
@@ -158,18 +166,18 @@ func (p *Parser) bSplineSurfaceWithKnots(key string) {
 	*/
 	fmt.Println("Hooray! we found an awesome bSplineSurface with KNOTS")
 	fmt.Println("len(arguemnts):", len(p.lexemes[key].Arguments))
-	name := p.lexemes[key].Arguments[0]
-	uDegree := p.lexemes[key].Arguments[1]
-	vDegree := p.lexemes[key].Arguments[2]
-	controlPointsList := getMatrix(p.lexemes[key].Arguments[3])
-	surfaceForm := p.lexemes[key].Arguments[4] /* this is buggy */
-	uClosed := getLogical(p.lexemes[key].Arguments[5])
-	vClosed := getLogical(p.lexemes[key].Arguments[6])
-	selfIntersect := getLogical(p.lexemes[key].Arguments[7])
-	uMultiplicities := getArray(p.lexemes[key].Arguments[8], reflect.Int)
-	vMultiplicities := getArray(p.lexemes[key].Arguments[9], reflect.Int)
-	uKnots := getArray(p.lexemes[key].Arguments[10], reflect.Float64)
-	vKnots := getArray(p.lexemes[key].Arguments[11], reflect.Float64)
+	name := p.argument(key, 0)
+	uDegree := p.argument(key, 1)
+	vDegree := p.argument(key, 2)
+	controlPointsList := getMatrix(p.argument(key, 3))
+	surfaceForm := p.argument(key, 4) /* this is buggy */
+	uClosed := getLogical(p.argument(key, 5))
+	vClosed := getLogical(p.argument(key, 6))
+	selfIntersect := getLogical(p.argument(key, 7))
+	uMultiplicities := getArray(p.argument(key, 8), reflect.Int)
+	vMultiplicities := getArray(p.argument(key, 9), reflect.Int)
+	uKnots := getArray(p.argument(key, 10), reflect.Float64)
+	vKnots := getArray(p.argument(key, 11), reflect.Float64)
 
 	surfaceJob := bSplineSurfaceWithKnots{
 		name:              name,
-- 
2.43.0


From 11272aed15752c7dc641c228bcfce369f120d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 08/38] fix: advanced faces and axis placements of STEP files
 were never recognised

Their entity names were misspelt, and the surface of an advanced face was
looked up in the wrong argument.
---
 step/bridge.go   | 4 ++--
 step/template.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/step/bridge.go b/step/bridge.go
index 50f5e45..2e8521b 100644
--- a/step/bridge.go
+++ b/step/bridge.go
@@ -18,13 +18,13 @@ func (parser *Parser) bridge(definition Definition) parseFn {
 		return parser.skipUtility
 	case "VERTEX_LOOP":
 		return parser.vertexLoop
-	case "AXIS_2_PLACEMENT_3D":
+	case "AXIS2_PLACEMENT_3D":
 		return parser.axis2Placement3D
 	case "FACE":
 		return parser.face
 	case "B_SPLINE_SURFACE_WITH_KNOTS":
 		return parser.bSplineSurfaceWithKnots
-	case "ADVENCED_FACE":
+	case "ADVANCED_FACE":
 		return parser.advancedFace
 	case "CLOSED_SHELL":
 		return parser.closedShell
diff --git a/step/template.go b/step/template.go
index ecfaf79..c1db3ae 100644
--- a/step/template.go
+++ b/step/template.go
@@ -98,7 +98,7 @@ func (p *Parser) advancedFace(key string) {
 
 	fmt.Println("parsing advanced face")
 
-	neighbourID := p.argument(key, 1)
+	neighbourID := p.argument(key, 2) /* name, bounds, face geometry */
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
-- 
2.43.0


From 249dbdbac53330a09068753969e511421fce6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 09/38] fix: the 3D triangulation ignored the orientation of
 its tetrahedra

The sign of the in-sphere determinant depends on the orientation, so half of
the tetrahedra were tested the wrong way round; points on a sphere counted as
inside, which let a copy of a point destroy the triangulation.
---
 meshing/mesh.go        |  2 +-
 predicates/insphere.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7667f5f..1d76e09 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -169,7 +169,7 @@ func bowyerWatson(points ...r3.Vector) []int {
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
-			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
+			if predicates.InCircumsphere(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) {
 				badTetras = append(badTetras, tetra)
 			}
 		}
diff --git a/predicates/insphere.go b/predicates/insphere.go
index 65551a5..9a296c2 100644
--- a/predicates/insphere.go
+++ b/predicates/insphere.go
@@ -42,6 +42,16 @@ func InSphereFast(pa, pb, pc, pd, pe r3.Vector) float64 {
 	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)
 }
 
+// InCircumsphere tells whether pe lies strictly inside the sphere through
+// pa, pb, pc and pd, whatever the orientation of the tetrahedron.
+func InCircumsphere(pa, pb, pc, pd, pe r3.Vector) bool {
+	det := InSphereFast(pa, pb, pc, pd, pe)
+	if orient3dfast(pa, pb, pc, pd) > 0 {
+		return det < 0
+	}
+	return det > 0
+}
+
 func inSphere(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64) float64 {
 	aex := ax - ex
 	bex := bx - ex
-- 
2.43.0


From b1e0676afffec83dc35e4c7a59dbd689732877da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 10/38] fix: the englobing tetrahedron touched or degenerated
 on its points

Its corner was a corner of the bounding box, and it was flat for points on a
plane parallel to the axes.
---
 meshing/helper.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/meshing/helper.go b/meshing/helper.go
index 614e76b..2e92740 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -95,6 +95,14 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	xmin, ymin, zmin := h.min.X, h.min.Y, h.min.Z
 	xmax, ymax, zmax := h.max.X, h.max.Y, h.max.Z
 
+	// keep the points off the faces of the tetrahedron
+	pad := math.Max(xmax-xmin, math.Max(ymax-ymin, zmax-zmin))
+	if pad == 0 {
+		pad = 1
+	}
+	xmin, ymin, zmin = xmin-pad, ymin-pad, zmin-pad
+	xmax, ymax, zmax = xmax+pad, ymax+pad, zmax+pad
+
 	xtetra := xmin + 3*(xmax-xmin)
 	ytetra := ymin + 3*(ymax-ymin)
 	ztetra := zmin + 3*(zmax-zmin)
-- 
2.43.0


From 3fc1944e0573072768236c953c2379a6a260270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 11/38] fix: the englobing tetrahedron of triangulate3 did not
 contain its points

Its base missed a corner of the bounding box, and its top lay below points with
negative y.
---
 triangulate3/englober.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..19b095f 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -18,22 +18,25 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	normal := r3.Vector{0, 1, 0}
 	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
+	// the edges leave the top at twice the extent of the box, which makes the
+	// bottom face reach three times as far as the box
+	extent := r3.Sub(maxExtremity, minExtremity)
 	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z + 2*extent.Z}
 	Direct1 := r3.Sub(top, upperVector1)
 	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
 	// first bottom Intersection Vector
 	tetraPoint1 := line1.IntersectPlane(lowerPlane)
 
 	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector2 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct2 := r3.Sub(top, upperVector2)
 	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
 	// second bottom Intersection Vector
 	tetraPoint2 := line2.IntersectPlane(lowerPlane)
 
 	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
+	upperVector3 := r3.Vector{minExtremity.X + 2*extent.X, maxExtremity.Y, minExtremity.Z}
 	Direct3 := r3.Sub(top, upperVector3)
 	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
 	// third bottom Intersection Vector
@@ -51,7 +54,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := minExtremity.Y + 3*(maxExtremity.Y-minExtremity.Y)
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From 9d48f2a077067fb19df70f0d914091aaae7070fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 12/38] fix: the initial tetrahedron ignored points on one side
 of its base

The signed distance was compared, so the apex was not the furthest point, and
was the origin when all points lay on the positive side.
---
 triangulate3/gdel3d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..4ea42cc 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -34,8 +34,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 	max := 0.0
 	var furthestVector r3.Vector
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From f7f878898b308d99a5463ccb2d1d22429eec238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 13/38] fix: normalizing the zero vector in place gave NaN

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From 7a3d8deb1d7cce6940ad1e687d284f57104ec4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 14/38] fix: the distance to a plane used the normal's length
 instead of the plane's offset

---
 r3/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..22505a8 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -110,7 +110,7 @@ func Cross(v Vector, ov Vector) Vector {
 }
 
 // CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Distance }
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From 9ad0d7732c43ff9af0097b1c66116da72b36d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 15/38] fix: lines parallel to a plane could pass the parallel
 check

Normalizing the direction rounds its components, so the dot product with the
normal was tiny instead of zero and the intersection was far-away noise.
---
 r3/line.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r3/line.go b/r3/line.go
index 9d4f847..5133b47 100644
--- a/r3/line.go
+++ b/r3/line.go
@@ -11,7 +11,8 @@ type Plane3D struct {
 }
 
 func (line Line) IntersectPlane(plane Plane3D) Vector {
-	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
+	// the direction as given: rounding in Normalize can hide that they are parallel
+	if Dot(plane.Normal, line.Direction) == 0 {
 		panic("plane and line are parallel. Therefore, no intersection")
 	}
 
-- 
2.43.0


From 4864af1473c237e302aae6d0b146ded446a32889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 16/38] fix: circles and ellipses used a vertex that does not
 exist

The last triangle pair of the fan referred to one vertex past the rim.
---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From f2508acc1df22ad5a1d924ae2af339198e204706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 17/38] fix: spheres and tori were built around the origin
 instead of their center

---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0


From b4c2d4baa47bd767fe54f867d0e556e0d446740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 18/38] fix: texture coordinates of spheres and tori were
 divided as integers

---
 shape/sphere.go | 4 ++--
 shape/torus.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 3c36c5c..0f535bf 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -66,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
diff --git a/shape/torus.go b/shape/torus.go
index 12f1f28..e480e35 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -66,8 +66,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
-- 
2.43.0


From babf5dfac2d09740ee245511c2852ca31473c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 19/38] fix: normals of tori pointed away from the center
 instead of the tube

---
 shape/torus.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index e480e35..5fd8e03 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -35,7 +35,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
+	lengthInv = 1.0 / float64(td.tubeRadius)
 
 	for i := 0; i < td.stackCount; i++ {
 
@@ -58,8 +58,9 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
+			// it points away from the circle in the middle of the tube
+			nx = (x - td.radius*math.Cos(sectorAngle)) * lengthInv
+			ny = (y - td.radius*math.Sin(sectorAngle)) * lengthInv
 			nz = z * lengthInv
 
 			normal := [3]float64{nx, ny, nz}
-- 
2.43.0


From 2a635aaf041c3aa8670048156aeb4d2f7fbe1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 20/38] fix: spheres had a hole at the south pole

The last ring of vertices and the bottom cap were missing.
---
 shape/sphere.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 0f535bf..4f263b5 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -37,7 +37,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 
 	lengthInv = 1.0 / float64(sd.radius)
 
-	for i := 0; i < sd.stackCount; i++ {
+	for i := 0; i <= sd.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep // starting from pi/2 to -pi/2
 		xy = sd.radius * math.Cos(stackAngle)          // r * cos(u)
@@ -91,15 +91,13 @@ func (sd Sphere) generateIndices(sphere *Mesh) {
 	}
 
 	//	BOTTOM
-	// k1 = uint32((sd.stackCount-1) * (sd.sectorCount + 1))
-	// k2 = 0 //k1+uint32(sd.sectorCount )
+	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
+	k2 = k1 + uint32(sd.sectorCount+1)
 
-	// for j := 0; j < sd.sectorCount; j ,k1= j+1, k1+1{
-
-	//     // k1+1 => k2 => k2+1
-	//     indices = append(indices, k1, k2, k1+1);
-
-	// }
+	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
+		// k1 => k2 => k1+1
+		sphere.Indices = append(sphere.Indices, k1, k2, k1+1)
+	}
 
 	//	MIDDLE
 	for i := 1; i < sd.stackCount-1; i++ {
-- 
2.43.0


From 0928080461a95885e61b22f00844e4f481045e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 21/38] fix: tori were not closed around the tube

The first band had half of its triangles and the last band none.
---
 shape/torus.go | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 5fd8e03..6604ebd 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -37,7 +37,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 
 	lengthInv = 1.0 / float64(td.tubeRadius)
 
-	for i := 0; i < td.stackCount; i++ {
+	for i := 0; i <= td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
 		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)
@@ -80,37 +80,15 @@ func (td Torus) generateIndices(torus *Mesh) {
 
 	var k1, k2 uint32
 
-	//	TOP
-	k1 = 0
-	k2 = uint32(td.sectorCount + 1)
-
-	//fmt.Println("TOP")
-	for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
-		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
-		// k1+1 => k2 => k2+1
-		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
-	}
-
-	//	BOTTOM
-	// k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
-	// k2 = 0 //k1+uint32(td.sectorCount )
-
-	// for j := 0; j < td.sectorCount; j, k1 = j+1, k1+1 {
-
-	// 	// k1+1 => k2 => k2+1
-	// 	torus.Indices = append(torus.Indices, k1, k2, k1+1)
-
-	// }
-
 	//	MIDDLE
-	for i := 1; i < td.stackCount-1; i++ {
+	for i := 0; i < td.stackCount; i++ {
 
 		k1 = uint32(i * (td.sectorCount + 1)) // beginning of current stack
 		k2 = k1 + uint32(td.sectorCount+1)    // beginning of next stack
 
 		for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-			// 2 triangles per sector excluding first and last stacks
+			// 2 triangles per sector
 			// k1 => k2 => k1+1
 			torus.Indices = append(torus.Indices, k1, k2, k1+1)
 
-- 
2.43.0


From 08db5e583308c0c00c5da9d7ccec6346b6bb4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 22/38] fix: the knot span search did not end for parameters
 outside the domain

It also returned an empty span at the end of some knot vectors, which made
curve points NaN.
---
 nurbs/basis.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..bfdec0c 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -11,8 +11,21 @@ import "fmt"
 --U : the knot vector
 */
 func findSpan(n, p int, u float64, U []int) int {
-	if u == float64(U[n+1]) {
-		return n
+	if u >= float64(U[n+1]) {
+		/* the last span that is not empty */
+		span := n
+		for span > p && U[span] == U[n+1] {
+			span--
+		}
+		return span
+	}
+	if u < float64(U[p]) {
+		/* the first span that is not empty */
+		span := p
+		for span < n && U[span+1] == U[p] {
+			span++
+		}
+		return span
 	}
 	/* do binary search */
 	low := p
-- 
2.43.0


From f27ed11f9b78e15673ea71e616ec9c6bccb48a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 23/38] fix: basis functions and derivatives of dersBasisFuns
 were all wrong

The recurrence started from zero, always used the same right knot, and the
sum for higher derivatives mixed up its columns.
---
 nurbs/basis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index bfdec0c..7a34bdb 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -103,10 +103,11 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
+	ndu[0][0] = 1.
 	/* ------------------------------------ */
 	for j := 1; j <= p; j++ {
 		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		right[j] = float64(U[i+j] - u)
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -154,7 +155,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0


From 4ad75d4914b5fe9249efc578756ca79ccb9c7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:15 +0000
Subject: [PATCH 24/38] fix: rounding in the planar predicates broke
 triangulations of nearly collinear points

---
 triangulate2/util.go | 51 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/triangulate2/util.go b/triangulate2/util.go
index 7d62c7d..ca16d89 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -3,6 +3,7 @@ package triangulate2
 import (
 	"geGoMetry/r3"
 	"math"
+	"math/big"
 )
 
 var eps = math.Nextafter(1, 2) - 1
@@ -27,8 +28,42 @@ func pseudoAngle(dx, dy float64) float64 {
 	return math.Max(0, math.Min(1-eps, p))
 }
 
+// area is twice the signed area of the triangle; its sign is exact.
 func area(a, b, c r3.Vector) float64 {
-	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
+	l := (b.Y - a.Y) * (c.X - b.X)
+	r := (b.X - a.X) * (c.Y - b.Y)
+	d := l - r
+	if !finite(d) || math.Abs(d) > 8*eps*(math.Abs(l)+math.Abs(r)) {
+		return d
+	}
+	// too close to call in floating point
+	f, _ := crossExact(difference(b, a), difference(c, b)).Float64()
+	return -f
+}
+
+func finite(f float64) bool {
+	return !math.IsNaN(f) && !math.IsInf(f, 0)
+}
+
+// exactly is a zero with enough precision for sums of products of coordinates.
+func exactly() *big.Float {
+	return new(big.Float).SetPrec(8600)
+}
+
+// difference is the planar vector from b to a, without rounding.
+func difference(a, b r3.Vector) [2]*big.Float {
+	return [2]*big.Float{
+		exactly().Sub(big.NewFloat(a.X), big.NewFloat(b.X)),
+		exactly().Sub(big.NewFloat(a.Y), big.NewFloat(b.Y)),
+	}
+}
+
+func crossExact(u, v [2]*big.Float) *big.Float {
+	return exactly().Sub(exactly().Mul(u[0], v[1]), exactly().Mul(u[1], v[0]))
+}
+
+func norm2Exact(u [2]*big.Float) *big.Float {
+	return exactly().Add(exactly().Mul(u[0], u[0]), exactly().Mul(u[1], u[1]))
 }
 
 //	Thales ++
@@ -49,7 +84,19 @@ func inCircle(a, b, c, p r3.Vector) bool {
 	bp := ex*ex + ey*ey
 	cp := fx*fx + fy*fy
 
-	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0
+	det := dx*(ey*cp-bp*fy) - dy*(ex*cp-bp*fx) + ap*(ex*fy-ey*fx)
+	size := ap*(math.Abs(ex*fy)+math.Abs(ey*fx)) +
+		bp*(math.Abs(dx*fy)+math.Abs(dy*fx)) +
+		cp*(math.Abs(dx*ey)+math.Abs(dy*ex))
+	if !finite(det) || math.Abs(det) > 16*eps*size {
+		return det < 0
+	}
+	// too close to call in floating point
+	d, e, f := difference(a, p), difference(b, p), difference(c, p)
+	exact := exactly().Mul(norm2Exact(d), crossExact(e, f))
+	exact.Sub(exact, exactly().Mul(norm2Exact(e), crossExact(d, f)))
+	exact.Add(exact, exactly().Mul(norm2Exact(f), crossExact(d, e)))
+	return exact.Sign() < 0
 }
 
 func circumradius(a, b, c r3.Vector) float64 {
-- 
2.43.0


From 81af2b6813bd38d769f565758f304ea5417f2ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 25/38] fix: rounding put points beside the convex hull or left
 out its corners

---
 triangulate2/hull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 15cd62c..1cac802 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -6,7 +6,7 @@ import (
 )
 
 func cross2D(p, a, b r3.Vector) float64 {
-	return (a.X-p.X)*(b.Y-p.Y) - (a.Y-p.Y)*(b.X-p.X)
+	return -area(p, a, b)
 }
 
 // ConvexHull returns the convex hull of the provided Vectors.
-- 
2.43.0


From 158bf37edf90543f9358d058cf8f89bc909e37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 26/38] fix: points of very thin planar sets were left out or
 taken for a line

---
 triangulate2/triangulator.go | 9 ++++++---
 triangulate2/util.go         | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 2db7c06..9250ee9 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -36,11 +36,14 @@ func (a *triangulator) Swap(i, j int) {
 func (a *triangulator) Less(i, j int) bool {
 	d1 := a.squaredDistances[a.ids[i]]
 	d2 := a.squaredDistances[a.ids[j]]
-	if d1 != d2 {
-		return d1 < d2
-	}
 	p1 := a.Vectors[a.ids[i]]
 	p2 := a.Vectors[a.ids[j]]
+	if math.Abs(d1-d2) > 8*eps*(d1+d2) || !finite(d1) || !finite(d2) {
+		return d1 < d2
+	}
+	if c := norm2Exact(difference(p1, a.center)).Cmp(norm2Exact(difference(p2, a.center))); c != 0 {
+		return c < 0
+	}
 	if p1.X != p2.X {
 		return p1.X < p2.X
 	}
diff --git a/triangulate2/util.go b/triangulate2/util.go
index ca16d89..efd299d 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -107,7 +107,7 @@ func circumradius(a, b, c r3.Vector) float64 {
 
 	bl := dx*dx + dy*dy
 	cl := ex*ex + ey*ey
-	d := dx*ey - dy*ex
+	d := -area(a, b, c)
 
 	x := (ey*bl - dy*cl) * 0.5 / d
 	y := (dx*cl - ex*bl) * 0.5 / d
@@ -129,7 +129,7 @@ func circumcenter(a, b, c r3.Vector) r3.Vector {
 
 	bl := dx*dx + dy*dy
 	cl := ex*ex + ey*ey
-	d := dx*ey - dy*ex
+	d := -area(a, b, c)
 
 	x := a.X + (ey*bl-dy*cl)*0.5/d
 	y := a.Y + (dx*cl-ex*bl)*0.5/d
-- 
2.43.0


From f436eb761f5aabf1b24d1e7b472b39168e0a0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 27/38] fix: the initial tetrahedron was flat for small sets
 far from the origin

---
 meshing/helper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshing/helper.go b/meshing/helper.go
index 2e92740..955f602 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -97,6 +97,11 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 
 	// keep the points off the faces of the tetrahedron
 	pad := math.Max(xmax-xmin, math.Max(ymax-ymin, zmax-zmin))
+	// a set much smaller than its distance from the origin needs room that
+	// its coordinates can resolve
+	for _, v := range []float64{xmin, ymin, zmin, xmax, ymax, zmax} {
+		pad = math.Max(pad, math.Abs(v)*1e-6)
+	}
 	if pad == 0 {
 		pad = 1
 	}
-- 
2.43.0


From 491bda45c16c2479bb12b4c286b1e81a5f6e40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 28/38] fix: validation compared the hulls of planar
 triangulations with the heights of their points

Of several points at one planar position the two hulls may hold different ones,
so triangulations of points with heights were rejected.
---
 triangulate2/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulate2/util.go b/triangulate2/util.go
index efd299d..0f497cb 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -153,7 +153,7 @@ func polygonPerimeter(Vectors []r3.Vector) float64 {
 	var result float64
 	q := Vectors[len(Vectors)-1]
 	for _, p := range Vectors {
-		result += r3.Distance(p, q)
+		result += math.Sqrt(squaredDistance2D(p, q))
 		q = p
 	}
 	return result
-- 
2.43.0


From fae467726f2558e46293e7908c24b9f1ac4e86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 29/38] fix: validating a triangulation with indices out of
 range panicked instead of reporting it

---
 triangulate2/triangulation.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index d558822..0b8f9e2 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -37,6 +37,19 @@ func (t *Triangulation) area() float64 {
 // potential errors. Returns nil if no issues were found. You normally
 // shouldn't need to call this function but it can be useful for debugging.
 func (t *Triangulation) Validate() error {
+	// verify that everything referred to exists
+	if len(t.Triangles)%3 != 0 || len(t.Halfedges) != len(t.Triangles) {
+		return fmt.Errorf("invalid number of triangle corners or halfedges")
+	}
+	for e, i := range t.Triangles {
+		if i < 0 || i >= len(t.Vectors) {
+			return fmt.Errorf("invalid triangle corner")
+		}
+		if pair := t.Halfedges[e]; pair < -1 || pair >= len(t.Halfedges) {
+			return fmt.Errorf("invalid halfedge connection")
+		}
+	}
+
 	// verify halfedges
 	for i1, i2 := range t.Halfedges {
 		if i1 != -1 && t.Halfedges[i1] != i2 {
-- 
2.43.0


From 48feb3b647b2707c21e4f719b7d5352c9cf6f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 30/38] fix: validation rejected triangulations of large
 coordinates, far sets and near copies as rounding exceeded its absolute
 tolerance

---
 triangulate2/triangulation.go | 8 ++++++--
 triangulate2/util.go          | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index 0b8f9e2..2793720 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -66,14 +66,18 @@ func (t *Triangulation) Validate() error {
 	area1 := polygonArea(hull1)
 	area2 := polygonArea(hull2)
 	area3 := t.area()
-	if math.Abs(area1-area2) > 1e-9 || math.Abs(area1-area3) > 1e-9 {
+	// rounding grows with the hull, and points on it may be missing as copies of others
+	size := polygonPerimeter(hull2)
+	copies := math.Sqrt(eps)
+	tolerance := 1e-10*size*size + copies*(size+4*copies)
+	if math.Abs(area1-area2) > tolerance || math.Abs(area1-area3) > tolerance {
 		return fmt.Errorf("hull areas disagree: %f, %f, %f", area1, area2, area3)
 	}
 
 	// verify convex hull perimeter
 	perimeter1 := polygonPerimeter(hull1)
 	perimeter2 := polygonPerimeter(hull2)
-	if math.Abs(perimeter1-perimeter2) > 1e-9 {
+	if math.Abs(perimeter1-perimeter2) > 1e-10*size+7*copies {
 		return fmt.Errorf("hull perimeters disagree: %f, %f", perimeter1, perimeter2)
 	}
 
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 0f497cb..d5cd79b 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -141,7 +141,8 @@ func polygonArea(Vectors []r3.Vector) float64 {
 	var result float64
 	for i, p := range Vectors {
 		q := Vectors[(i+1)%len(Vectors)]
-		result += (p.X - q.X) * (p.Y + q.Y)
+		// measured from the first point, as far from the origin the area drowns in rounding
+		result += (p.X - q.X) * ((p.Y - Vectors[0].Y) + (q.Y - Vectors[0].Y))
 	}
 	return result / 2
 }
-- 
2.43.0


From 134d9ed4983a0377b5e9b6b358ed29cefaeab2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 31/38] fix: triangulating panicked when a hull point met the
 rounded circumcenter of the seed triangle

---
 triangulate2/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triangulate2/util.go b/triangulate2/util.go
index d5cd79b..e0c1188 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -20,6 +20,10 @@ func squaredDistance2D(a, b r3.Vector) float64 {
 
 func pseudoAngle(dx, dy float64) float64 {
 	p := dx / (math.Abs(dx) + math.Abs(dy))
+	if math.IsNaN(p) {
+		// at the center, or too far from it
+		return 0
+	}
 	if dy > 0 {
 		p = (3 - p) / 4
 	} else {
-- 
2.43.0


From f1fe343f7e1f75b2b32ab433a6fdb6593985d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 32/38] fix: points of thin sets were left out as rounding put
 the sweep out of order

---
 triangulate2/triangulator.go | 46 +++++++++++++++++++++++++++++-------
 triangulate2/util.go         | 42 ++++++++++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 10 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 9250ee9..f82165e 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -4,13 +4,17 @@ import (
 	"fmt"
 	"geGoMetry/r3"
 	"math"
+	"math/big"
 	"sort"
 )
 
 type triangulator struct {
 	Vectors          []r3.Vector
 	squaredDistances []float64
+	errors           []float64
+	exactDistances   []*big.Float
 	ids              []int
+	seed             [3]r3.Vector
 	center           r3.Vector
 	triangles        []int
 	halfedges        []int
@@ -34,14 +38,19 @@ func (a *triangulator) Swap(i, j int) {
 }
 
 func (a *triangulator) Less(i, j int) bool {
-	d1 := a.squaredDistances[a.ids[i]]
-	d2 := a.squaredDistances[a.ids[j]]
-	p1 := a.Vectors[a.ids[i]]
-	p2 := a.Vectors[a.ids[j]]
-	if math.Abs(d1-d2) > 8*eps*(d1+d2) || !finite(d1) || !finite(d2) {
+	i, j = a.ids[i], a.ids[j]
+	p1 := a.Vectors[i]
+	p2 := a.Vectors[j]
+	if p1.X == p2.X && p1.Y == p2.Y {
+		return false
+	}
+	d1 := a.squaredDistances[i]
+	d2 := a.squaredDistances[j]
+	if math.Abs(d1-d2) > a.errors[i]+a.errors[j] {
 		return d1 < d2
 	}
-	if c := norm2Exact(difference(p1, a.center)).Cmp(norm2Exact(difference(p2, a.center))); c != 0 {
+	// too close to call in floating point
+	if c := a.exactDistance(i).Cmp(a.exactDistance(j)); c != 0 {
 		return c < 0
 	}
 	if p1.X != p2.X {
@@ -50,6 +59,15 @@ func (a *triangulator) Less(i, j int) bool {
 	return p1.Y < p2.Y
 }
 
+// exactDistance orders the Vectors by their distance to the center of the seed
+// triangle's circumcircle, which rounding has moved in `center`.
+func (a *triangulator) exactDistance(i int) *big.Float {
+	if a.exactDistances[i] == nil {
+		a.exactDistances[i] = inCircleExact(a.seed[0], a.seed[1], a.seed[2], a.Vectors[i])
+	}
+	return a.exactDistances[i]
+}
+
 func (tri *triangulator) triangulate() error {
 	Vectors := tri.Vectors
 
@@ -101,7 +119,7 @@ func (tri *triangulator) triangulate() error {
 			continue
 		}
 		d := squaredDistance2D(p, Vectors[i0])
-		if d > 0 && d < minDist {
+		if d > 0 && (minDist == infinity || closer(p, Vectors[i1], Vectors[i0])) {
 			i1 = i
 			minDist = d
 		}
@@ -125,15 +143,27 @@ func (tri *triangulator) triangulate() error {
 
 	// swap the order of the seed Vectors for counter-clockwise orientation
 	if area(Vectors[i0], Vectors[i1], Vectors[i2]) < 0 {
-		i1, i2 = i2, i1
+		i0, i1 = i1, i0
+	}
+
+	// rounding may have hidden a Vector with a smaller circumcircle
+	for i, p := range Vectors {
+		if area(Vectors[i0], Vectors[i1], p) > 0 && inCircle(Vectors[i0], Vectors[i1], Vectors[i2], p) {
+			i2 = i
+		}
 	}
 
+	tri.seed = [3]r3.Vector{Vectors[i0], Vectors[i1], Vectors[i2]}
 	tri.center = circumcenter(Vectors[i0], Vectors[i1], Vectors[i2])
+	centerError := circumcenterError(Vectors[i0], Vectors[i1], Vectors[i2])
 
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
+	tri.errors = make([]float64, n)
+	tri.exactDistances = make([]*big.Float, n)
 	for i, p := range Vectors {
 		tri.squaredDistances[i] = squaredDistance2D(p, tri.center)
+		tri.errors[i] = 8*eps*tri.squaredDistances[i] + 4*centerError*math.Sqrt(tri.squaredDistances[i])
 	}
 	sort.Sort(tri)
 
diff --git a/triangulate2/util.go b/triangulate2/util.go
index e0c1188..750ea97 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -18,6 +18,17 @@ func squaredDistance2D(a, b r3.Vector) float64 {
 	return dx*dx + dy*dy
 }
 
+// closer tells whether a is closer to c than b.
+func closer(a, b, c r3.Vector) bool {
+	d1 := squaredDistance2D(a, c)
+	d2 := squaredDistance2D(b, c)
+	if math.Abs(d1-d2) > 8*eps*(d1+d2) {
+		return d1 < d2
+	}
+	// too close to call in floating point
+	return norm2Exact(difference(a, c)).Cmp(norm2Exact(difference(b, c))) < 0
+}
+
 func pseudoAngle(dx, dy float64) float64 {
 	p := dx / (math.Abs(dx) + math.Abs(dy))
 	if math.IsNaN(p) {
@@ -96,11 +107,17 @@ func inCircle(a, b, c, p r3.Vector) bool {
 		return det < 0
 	}
 	// too close to call in floating point
+	return inCircleExact(a, b, c, p).Sign() < 0
+}
+
+// inCircleExact is negative for p inside the circle and grows with the distance
+// of p from its center.
+func inCircleExact(a, b, c, p r3.Vector) *big.Float {
 	d, e, f := difference(a, p), difference(b, p), difference(c, p)
 	exact := exactly().Mul(norm2Exact(d), crossExact(e, f))
 	exact.Sub(exact, exactly().Mul(norm2Exact(e), crossExact(d, f)))
 	exact.Add(exact, exactly().Mul(norm2Exact(f), crossExact(d, e)))
-	return exact.Sign() < 0
+	return exact
 }
 
 func circumradius(a, b, c r3.Vector) float64 {
@@ -118,9 +135,12 @@ func circumradius(a, b, c r3.Vector) float64 {
 
 	r := x*x + y*y
 
-	if bl == 0 || cl == 0 || d == 0 || r == 0 {
+	if d == 0 {
 		return infinity
 	}
+	if !finite(r) {
+		return math.MaxFloat64
+	}
 
 	return r
 }
@@ -141,6 +161,24 @@ func circumcenter(a, b, c r3.Vector) r3.Vector {
 	return r3.Vector{x, y, 0}
 }
 
+// circumcenterError is how far rounding may have moved the circumcenter.
+func circumcenterError(a, b, c r3.Vector) float64 {
+	dx := math.Abs(b.X - a.X)
+	dy := math.Abs(b.Y - a.Y)
+	ex := math.Abs(c.X - a.X)
+	ey := math.Abs(c.Y - a.Y)
+
+	bl := dx*dx + dy*dy
+	cl := ex*ex + ey*ey
+	d := math.Abs(area(a, b, c))
+
+	size := (dx+dy)*cl + (ex+ey)*bl
+	thinness := (dx + dy) * (dx + dy + ex + ey) / d
+
+	m := circumcenter(a, b, c)
+	return 16*eps*size/d*(1+thinness) + 2*eps*(math.Abs(m.X)+math.Abs(m.Y))
+}
+
 func polygonArea(Vectors []r3.Vector) float64 {
 	var result float64
 	for i, p := range Vectors {
-- 
2.43.0


From 6d3c6994fb69ef668ecfb70a456d0d2009220e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 33/38] fix: distinct points closer than 1.5e-8 were dropped
 from triangulations and hulls

---
 triangulate2/hull.go          | 4 ++--
 triangulate2/triangulation.go | 7 +++----
 triangulate2/triangulator.go  | 4 ++--
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 1cac802..ed0d6f9 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -26,10 +26,10 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 		return a.Y < b.Y
 	})
 
-	// filter nearly-duplicate Vectors
+	// filter duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && squaredDistance2D(p, Vectors[i-1]) < eps {
+		if i > 0 && p.X == Vectors[i-1].X && p.Y == Vectors[i-1].Y {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index 2793720..aeb3827 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -66,10 +66,9 @@ func (t *Triangulation) Validate() error {
 	area1 := polygonArea(hull1)
 	area2 := polygonArea(hull2)
 	area3 := t.area()
-	// rounding grows with the hull, and points on it may be missing as copies of others
+	// rounding grows with the hull
 	size := polygonPerimeter(hull2)
-	copies := math.Sqrt(eps)
-	tolerance := 1e-10*size*size + copies*(size+4*copies)
+	tolerance := 1e-10 * size * size
 	if math.Abs(area1-area2) > tolerance || math.Abs(area1-area3) > tolerance {
 		return fmt.Errorf("hull areas disagree: %f, %f, %f", area1, area2, area3)
 	}
@@ -77,7 +76,7 @@ func (t *Triangulation) Validate() error {
 	// verify convex hull perimeter
 	perimeter1 := polygonPerimeter(hull1)
 	perimeter2 := polygonPerimeter(hull2)
-	if math.Abs(perimeter1-perimeter2) > 1e-10*size+7*copies {
+	if math.Abs(perimeter1-perimeter2) > 1e-10*size {
 		return fmt.Errorf("hull perimeters disagree: %f, %f", perimeter1, perimeter2)
 	}
 
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index f82165e..18cf740 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -199,8 +199,8 @@ func (tri *triangulator) triangulate() error {
 		i := tri.ids[k]
 		p := Vectors[i]
 
-		// skip nearly-duplicate Vectors
-		if squaredDistance2D(p, pp) < eps {
+		// skip duplicate Vectors
+		if p.X == pp.X && p.Y == pp.Y {
 			continue
 		}
 		pp = p
-- 
2.43.0


From f62b24f1ef0bab277548473041589ee093e589e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 34/38] fix: rounding in the in-sphere test broke 3D
 triangulations of nearly cospherical points

The filtered test gave up with zero where floating point could not decide,
and InCircumsphere took the unfiltered value; the cavities that resulted left
triangles reported once, overlapping or not Delaunay.
---
 predicates/exact.go    | 59 ++++++++++++++++++++++++++++++++++++++++++
 predicates/insphere.go | 23 +++++++++++++---
 predicates/orient3d.go | 36 +++++++++++++++++++++++++-
 3 files changed, 113 insertions(+), 5 deletions(-)
 create mode 100644 predicates/exact.go

diff --git a/predicates/exact.go b/predicates/exact.go
new file mode 100644
index 0000000..60806f2
--- /dev/null
+++ b/predicates/exact.go
@@ -0,0 +1,59 @@
+package predicates
+
+import (
+	"math"
+	"math/big"
+)
+
+// exactVector is a difference of positions, without rounding.
+type exactVector [3]*big.Float
+
+// exactly returns a number with room for a product of five differences of float64.
+func exactly() *big.Float {
+	return new(big.Float).SetPrec(10800)
+}
+
+func mul(a, b *big.Float) *big.Float {
+	return exactly().Mul(a, b)
+}
+
+func difference(ax, ay, az, bx, by, bz float64) exactVector {
+	sub := func(a, b float64) *big.Float {
+		return exactly().Sub(big.NewFloat(a), big.NewFloat(b))
+	}
+	return exactVector{sub(ax, bx), sub(ay, by), sub(az, bz)}
+}
+
+func (v exactVector) norm2() *big.Float {
+	result := mul(v[0], v[0])
+	result.Add(result, mul(v[1], v[1]))
+	return result.Add(result, mul(v[2], v[2]))
+}
+
+func determinant(a, b, c exactVector) *big.Float {
+	minor := func(i, j int) *big.Float {
+		result := mul(b[i], c[j])
+		return result.Sub(result, mul(b[j], c[i]))
+	}
+	result := mul(a[0], minor(1, 2))
+	result.Sub(result, mul(a[1], minor(0, 2)))
+	return result.Add(result, mul(a[2], minor(0, 1)))
+}
+
+// approximation keeps the sign even where the value underflows.
+func approximation(x *big.Float) float64 {
+	f, _ := x.Float64()
+	if f == 0 {
+		return float64(x.Sign()) * math.SmallestNonzeroFloat64
+	}
+	return f
+}
+
+func finite(values ...float64) bool {
+	for _, v := range values {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/predicates/insphere.go b/predicates/insphere.go
index 9a296c2..774e02b 100644
--- a/predicates/insphere.go
+++ b/predicates/insphere.go
@@ -45,8 +45,8 @@ func InSphereFast(pa, pb, pc, pd, pe r3.Vector) float64 {
 // InCircumsphere tells whether pe lies strictly inside the sphere through
 // pa, pb, pc and pd, whatever the orientation of the tetrahedron.
 func InCircumsphere(pa, pb, pc, pd, pe r3.Vector) bool {
-	det := InSphereFast(pa, pb, pc, pd, pe)
-	if orient3dfast(pa, pb, pc, pd) > 0 {
+	det := inSphere(pa.X, pa.Y, pa.Z, pb.X, pb.Y, pb.Z, pc.X, pc.Y, pc.Z, pd.X, pd.Y, pd.Z, pe.X, pe.Y, pe.Z)
+	if orient3d(pa, pb, pc, pd) > 0 {
 		return det < 0
 	}
 	return det > 0
@@ -122,9 +122,24 @@ func inSphere(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64
 	if det > errbound || -det > errbound {
 		return det
 	}
-	return -inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez, permanent)
+	return inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez, permanent)
 }
 
+// inSphereAdapt decides what is too close to call in floating point: its sign
+// is exact.
 func inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez, permanent float64) float64 {
-	return 0.0
+	if !finite(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez) {
+		return 0.0
+	}
+
+	ae := difference(ax, ay, az, ex, ey, ez)
+	be := difference(bx, by, bz, ex, ey, ez)
+	ce := difference(cx, cy, cz, ex, ey, ez)
+	de := difference(dx, dy, dz, ex, ey, ez)
+
+	det := mul(ae.norm2(), determinant(be, ce, de))
+	det.Sub(det, mul(be.norm2(), determinant(ae, ce, de)))
+	det.Add(det, mul(ce.norm2(), determinant(ae, be, de)))
+	det.Sub(det, mul(de.norm2(), determinant(ae, be, ce)))
+	return approximation(det)
 }
diff --git a/predicates/orient3d.go b/predicates/orient3d.go
index aff1805..51e2ed7 100644
--- a/predicates/orient3d.go
+++ b/predicates/orient3d.go
@@ -1,6 +1,11 @@
 package predicates
 
-import "geGoMetry/r3"
+import (
+	"geGoMetry/r3"
+	"math"
+)
+
+const o3derrboundA = (7 + 56*epsilon) * epsilon
 
 func orient3dfast(a, b, c, d r3.Vector) float64 {
 	adx := a.X - d.X
@@ -17,3 +22,32 @@ func orient3dfast(a, b, c, d r3.Vector) float64 {
 		bdx*(cdy*adz-cdz*ady) +
 		cdx*(ady*bdz-adz*bdy)
 }
+
+// orient3d is orient3dfast with an exact sign.
+func orient3d(a, b, c, d r3.Vector) float64 {
+	adx := math.Abs(a.X - d.X)
+	bdx := math.Abs(b.X - d.X)
+	cdx := math.Abs(c.X - d.X)
+	ady := math.Abs(a.Y - d.Y)
+	bdy := math.Abs(b.Y - d.Y)
+	cdy := math.Abs(c.Y - d.Y)
+	adz := math.Abs(a.Z - d.Z)
+	bdz := math.Abs(b.Z - d.Z)
+	cdz := math.Abs(c.Z - d.Z)
+	permanent := adx*(bdy*cdz+bdz*cdy) +
+		bdx*(cdy*adz+cdz*ady) +
+		cdx*(ady*bdz+adz*bdy)
+
+	det := orient3dfast(a, b, c, d)
+	errbound := o3derrboundA * permanent
+	if det > errbound || -det > errbound {
+		return det
+	}
+	if !finite(a.X, a.Y, a.Z, b.X, b.Y, b.Z, c.X, c.Y, c.Z, d.X, d.Y, d.Z) {
+		return 0.0
+	}
+	return approximation(determinant(
+		difference(a.X, a.Y, a.Z, d.X, d.Y, d.Z),
+		difference(b.X, b.Y, b.Z, d.X, d.Y, d.Z),
+		difference(c.X, c.Y, c.Z, d.X, d.Y, d.Z)))
+}
-- 
2.43.0


From 097a5f5cdb27476f1d3bae2fc20a2d5b2b6baa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 35/38] fix: bounding boxes and englobing tetrahedra of large
 coordinates missed the points

---
 triangulate3/englober.go | 12 ++++++++----
 triangulate3/gdel3d.go   |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 19b095f..1f09082 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -7,10 +7,14 @@ import (
 )
 
 func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
-	offset := 1.0
-
 	minExtremity, maxExtremity := computeBoundingBoxForVectors(Vectors)
 
+	// an offset that large coordinates can resolve
+	offset := 1.0
+	for _, v := range []r3.Vector{minExtremity, maxExtremity} {
+		offset = math.Max(offset, 1e-6*math.Max(math.Abs(v.X), math.Max(math.Abs(v.Y), math.Abs(v.Z))))
+	}
+
 	minExtremity.Add(r3.Vector{-offset, -offset, -offset})
 	maxExtremity.Add(r3.Vector{offset, offset, offset})
 
@@ -61,8 +65,8 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 }
 
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 4ea42cc..e4d4dd7 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -44,8 +44,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 }
 
 func computeExtremitiesForAxeX(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
-- 
2.43.0


From 672e4ea4b44e1ceedb71b0fcc9e8d95a36e2c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 36/38] fix: bytes of STEP strings that are not UTF-8 were
 replaced

---
 step/util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/step/util.go b/step/util.go
index 971265f..e1c7605 100644
--- a/step/util.go
+++ b/step/util.go
@@ -14,8 +14,8 @@ func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
 	inString := false
-	argument := make([]rune, 0)
-	for _, r := range argumentsText {
+	argument := make([]byte, 0)
+	for _, r := range []byte(argumentsText) {
 		if r == '\'' {
 			inString = !inString
 		}
@@ -34,7 +34,7 @@ func getArguments(argumentsText string) []string {
 		}
 		if openBrackets == 0 && r == ',' {
 			arguments = append(arguments, strings.TrimSpace(string(argument)))
-			argument = make([]rune, 0)
+			argument = make([]byte, 0)
 			continue
 		}
 		argument = append(argument, r)
@@ -59,9 +59,9 @@ func getArray(arrayText string, t reflect.Kind) []string {
 	arrayText = arrayText[1 : len(arrayText)-1]
 	openBrackets := 0
 	inString := false
-	element := make([]rune, 0)
+	element := make([]byte, 0)
 	array := make([]string, 0)
-	for _, r := range arrayText {
+	for _, r := range []byte(arrayText) {
 		if r == '\'' {
 			inString = !inString
 		}
@@ -77,7 +77,7 @@ func getArray(arrayText string, t reflect.Kind) []string {
 		}
 		if openBrackets == 0 && r == ',' {
 			array = append(array, strings.TrimSpace(string(element)))
-			element = make([]rune, 0)
+			element = make([]byte, 0)
 			continue
 		}
 		element = append(element, r)
-- 
2.43.0


From e565105d4aa3b51863cef4d8eef05483939a6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 37/38] fix: derivatives of basis functions of degree 21 and
 more overflowed

---
 nurbs/basis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 7a34bdb..f84fa16 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -169,12 +169,12 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 		}
 	}
 	/* multiply through by the correct factors */
-	r := p
+	r := float64(p) /* the factorials of higher degrees exceed int */
 	for k := 1; k <= n; k++ {
 		for j := 0; j <= p; j++ {
-			ders[k][j] *= float64(r)
+			ders[k][j] *= r
 		}
-		r *= (p - k)
+		r *= float64(p - k)
 	}
 	return ders
 }
-- 
2.43.0


From fe26bfd08433018f82a9604b1ef71233bd21d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 38/38] fix: report exports of which only a part could be
 written

---
 glTF/export.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/glTF/export.go b/glTF/export.go
index d005293..a7746d6 100644
--- a/glTF/export.go
+++ b/glTF/export.go
@@ -1,8 +1,10 @@
 package glTF
 
 import (
+	"bytes"
 	"fmt"
 	"geGoMetry/shape"
+	"os"
 
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/modeler"
@@ -47,7 +49,17 @@ func Export(mesh shape.Mesh, outputFile string) {
 	}}
 	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}
 	doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)
-	if err := gltf.SaveBinary(doc, outputFile); err != nil {
+	if err := saveBinary(doc, outputFile); err != nil {
 		panic(err)
 	}
 }
+
+// saveBinary is gltf.SaveBinary, which does not report when only a part of the
+// document could be written.
+func saveBinary(doc *gltf.Document, outputFile string) error {
+	var glb bytes.Buffer
+	if err := gltf.NewEncoder(&glb).Encode(doc); err != nil {
+		return err
+	}
+	return os.WriteFile(outputFile, glb.Bytes(), 0666)
+}
-- 
2.43.0


From ce25f1cc8a476060aa75714ac426b245dcead6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 01/33] fix: Scan reports errors that end the iteration early

rows.Next() returns false both at the end of the result set and when the
iteration fails. Scan did not check rows.Err(), so a connection lost or a
context cancelled half way through was reported as a complete result.
---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 0332e42d442f5d5245750be3138b7f59a50073f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 02/33] fix: ScanRow does not write to the spare capacity of
 the caller's slice

Padding the destinations with append() overwrote the elements following
the passed ones when the slice had spare capacity, e.g. ScanRow(rows,
fields[:2]...).
---
 util/scan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 7d23223..b5095a2 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -61,6 +61,8 @@ func ScanRow(rows *sql.Rows, dest ...any) error {
 	}
 	nBlacholes := len(cols) - len(dest)
 	bh := &blackhole{}
+	// never append to the spare capacity of the caller's slice
+	dest = dest[:len(dest):len(dest)]
 	for i := 0; i < nBlacholes; i++ {
 		dest = append(dest, &bh)
 	}
-- 
2.43.0


From e5c34dc85c987e3a9cf805db3d80f8f4d6c80246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 03/33] fix: Interpolate reports missing args as an error

It panicked with an index out of range, e.g. from the error path of
Count, when the query has more bind vars than args.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..b304ef8 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: invalid bind var index %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From 519d3b5a5bfbbcbcd98cb1917133bbd52370504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 04/33] fix: Interpolate renders nil pointers as NULL

Calling String() or Value() of a value type through a nil pointer, such
as (*time.Time)(nil) or (*sql.NullString)(nil), panicked. They are valid
args, database/sql sends them as NULL.
---
 util/interpolate.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index b304ef8..85eb63a 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -71,6 +71,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
+	if isNilPointer(arg) {
+		// don't call methods on nil pointers, database/sql sends them as NULL
+		arg = nil
+	}
 	switch v := arg.(type) {
 	case nil:
 		buf.WriteString("NULL")
@@ -120,6 +124,17 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// isNilPointer reports if the arg is a nil pointer, which is NULL to database/sql
+// unless it's a driver.Valuer implemented by the pointer type itself.
+func isNilPointer(arg any) bool {
+	rv := reflect.ValueOf(arg)
+	if rv.Kind() != reflect.Pointer || !rv.IsNil() {
+		return false
+	}
+	valuer := reflect.TypeOf((*driver.Valuer)(nil)).Elem()
+	return !rv.Type().Implements(valuer) || rv.Type().Elem().Implements(valuer)
+}
+
 func quoteStringValue(s string) []byte {
 	buf := bytes.NewBuffer(nil)
 	buf.WriteRune('\'')
-- 
2.43.0


From 92a10375039fa461ced0c225364f540a3dd4a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 05/33] fix: allow unhashable args, like []byte, in dollar
 style

Looking up the arg for merging panicked with 'hash of unhashable type'.
---
 context_args.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..1644f0e 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,11 +55,27 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
+	i, found, hashable := s.lookup(arg)
+	if found {
 		return "$" + strconv.Itoa(i)
 	}
-	i := len(s.args) + 1
-	s.dict[arg] = i
+	i = len(s.args) + 1
+	if hashable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// lookup finds the index of a committed arg. Args which can't be map keys,
+// e.g. []byte, are never found.
+func (s *dollarArgStore) lookup(arg any) (i int, found, hashable bool) {
+	defer func() {
+		// accessing the map panics if the arg is not hashable.
+		if recover() != nil {
+			i, found, hashable = 0, false, false
+		}
+	}()
+	i, found = s.dict[arg]
+	return i, found, true
+}
-- 
2.43.0


From 7e9e6e35a8cd3cc3651970db21894ae476efc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 06/33] fix: report numbers passed to non-number func params as
 errors

Converting a float64 to string or bool by reflection panics, so templates
like #join(1, ',') crashed the build instead of failing it.
---
 func_exec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..29d9d4e 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,7 +116,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-- 
2.43.0


From 70e3b0bef405c199560286dfa149e763e6b3ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 07/33] fix: reject '?' following '$1' as mixed bindvar styles

Dollar is the zero value of BindVarStyle, so it was taken for 'no style
seen yet' and '$1, ?' was accepted, binding ? to the 2nd arg.
---
 syntax/parser.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..47e8e81 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -21,7 +21,7 @@ type parser struct {
 	*scanner
 
 	bindVarIndex int
-	bindVarStyle BindVarStyle
+	bindVarStyle BindVarStyle // valid only if bindVarIndex > 0
 	// buf []token
 
 	c *Clause
@@ -83,23 +83,16 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	switch p.token.lit {
 	case "$":
 		t = Dollar
-		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
-			p.bindVarStyle = t
-		}
-		if p.bindVarStyle != t {
-			return nil, p.syntaxError("mixed bindvar styles")
-		}
 	case "?":
 		t = Question
-		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
-			p.bindVarStyle = t
-		}
-		if p.bindVarStyle != t {
-			return nil, p.syntaxError("mixed bindvar styles")
-		}
 	}
+	if p.bindVarIndex == 0 {
+		p.bindVarStyle = t
+	}
+	if p.bindVarStyle != t {
+		return nil, p.syntaxError("mixed bindvar styles")
+	}
+	p.bindVarIndex++
 	index := p.bindVarIndex
 	if t != Question {
 		if err := p.want(_Literal); err != nil {
-- 
2.43.0


From ef0afa1647e7cb3ef6355165998772bac33e3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 08/33] fix: parse the token following a function value

The token after a function value, e.g. '?' in #join('#f?', ','), was taken
for plain text whatever its type, emitting a bind var without arg.
---
 syntax/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 47e8e81..8ae1314 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -24,9 +24,20 @@ type parser struct {
 	bindVarStyle BindVarStyle // valid only if bindVarIndex > 0
 	// buf []token
 
+	unread bool // the current token is to be returned again by next
+
 	c *Clause
 }
 
+// next moves to the next token, unless the current one was unread.
+func (p *parser) next() bool {
+	if p.unread {
+		p.unread = false
+		return true
+	}
+	return p.NextToken()
+}
+
 func (p *parser) want(t TokenType) error {
 	if !p.got(t) {
 		return p.syntaxError(
@@ -50,7 +61,7 @@ func (p *parser) syntaxError(msg string) error {
 
 func (p *parser) Parse() error {
 	p.c = &Clause{}
-	for p.NextToken() {
+	for p.next() {
 		switch p.token.typ {
 		case _EOF:
 			break
@@ -183,17 +194,14 @@ func (p *parser) funcExpr() error {
 			},
 		)
 	default:
-		// EOF or _Plain
+		// not part of the function, leave it to the next expression
+		p.unread = true
 		p.c.ExprList = append(
 			p.c.ExprList,
 			&FuncExpr{
 				Name: nameToken.lit,
 				expr: expr{node{pos}},
 			},
-			&PlainExpr{
-				Text: p.token.lit,
-				expr: expr{node{p.token.pos}},
-			},
 		)
 	}
 
-- 
2.43.0


From 3bc9906af0ab6056724785148529bb698ef1318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 09/33] fix: don't end parsing at NUL characters

EOF was the NUL rune, so the text following a NUL was silently dropped
from the query.
---
 syntax/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..3c09939 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,8 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, which is not a valid rune so that it never occurs in an input
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From 57a25c006243d762384675a420c29b557bacc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 10/33] fix: appending to fragments never writes to slices of
 the caller

Fragments created from a shared slice with spare capacity overwrote the
args (or fragments) appended to each other.
---
 fragment.go | 4 ++--
 shortcut.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..d8eae44 100644
--- a/fragment.go
+++ b/fragment.go
@@ -24,13 +24,13 @@ func (f *Fragment) WithSuffix(suffix string) *Fragment {
 
 // WithArgs sets the args of f.
 func (f *Fragment) WithArgs(args ...any) *Fragment {
-	f.Args = args
+	f.Args = args[:len(args):len(args)] // never append to the slice of the caller
 	return f
 }
 
 // WithFragments sets the fragments of f.
 func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = fragments
+	f.Fragments = fragments[:len(fragments):len(fragments)] // never append to the slice of the caller
 	return f
 }
 
diff --git a/shortcut.go b/shortcut.go
index e27b83e..a20ffd4 100644
--- a/shortcut.go
+++ b/shortcut.go
@@ -11,7 +11,7 @@ func F(raw string) *Fragment {
 func Fa(raw string, args ...any) *Fragment {
 	return &Fragment{
 		Raw:  raw,
-		Args: args,
+		Args: args[:len(args):len(args)], // never append to the slice of the caller
 	}
 }
 
@@ -19,6 +19,6 @@ func Fa(raw string, args ...any) *Fragment {
 func Ff(raw string, fragments ...FragmentBuilder) *Fragment {
 	return &Fragment{
 		Raw:       raw,
-		Fragments: fragments,
+		Fragments: fragments[:len(fragments):len(fragments)], // never append to the slice of the caller
 	}
 }
-- 
2.43.0


From a86497cd4cdf442094b16ae763958c309b744a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 11/33] fix: data race on the usage flag of shared properties

Properties may be global and shared by fragments, see ContextWithFuncs,
but building them concurrently wrote the usage flag without synchronization.
---
 property.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/property.go b/property.go
index 7bd51b5..960180b 100644
--- a/property.go
+++ b/property.go
@@ -1,5 +1,7 @@
 package sqlf
 
+import "sync/atomic"
+
 // Property is the interface for properties.
 type Property interface {
 	FragmentBuilder
@@ -13,7 +15,7 @@ var _ Property = (*defaultProperty)(nil)
 
 type defaultProperty struct {
 	value FragmentBuilder
-	used  bool
+	used  uint32 // accessed atomically, global properties are shared by concurrent builds
 }
 
 // newDefaultProperty returns a new property.
@@ -25,16 +27,24 @@ func newDefaultProperty(value FragmentBuilder) *defaultProperty {
 
 // ReportUsed reports the item is used
 func (p *defaultProperty) ReportUsed() {
-	p.used = true
+	p.setUsed(true)
 }
 
 // Used returns true if the column is used.
 func (p *defaultProperty) Used() bool {
-	return p.used
+	return atomic.LoadUint32(&p.used) != 0
+}
+
+func (p *defaultProperty) setUsed(used bool) {
+	var v uint32
+	if used {
+		v = 1
+	}
+	atomic.StoreUint32(&p.used, v)
 }
 
 // BuildFragment builds the fragment.
 func (p *defaultProperty) BuildFragment(ctx *Context) (string, error) {
-	p.used = true
+	p.ReportUsed()
 	return p.value.BuildFragment(ctx)
 }
-- 
2.43.0


From f98a373950e722d49c6e05f893d97367f7b7d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 12/33] fix: #join doesn't take errors inside of an item for
 the end of the list

An ErrInvalidIndex occurred when building an item, e.g. a #f1 without
fragments in a WHERE condition, ended the list silently: the item was
dropped from the query and no error was reported.
---
 build.go        |  2 +-
 errors.go       | 38 ++++++++++++++++++++++++++++++++++++++
 func_builtin.go |  3 +--
 properties.go   |  6 +++++-
 4 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..036ca3a 100644
--- a/build.go
+++ b/build.go
@@ -63,7 +63,7 @@ func build(ctx *Context, fragment *Fragment) (string, error) {
 	}
 	built, err := buildClause(ctx, clause)
 	if err != nil {
-		return "", fmt.Errorf("build '%s': %w", fragment.Raw, err)
+		return "", &buildError{fmt.Errorf("build '%s': %w", fragment.Raw, err)}
 	}
 	return built, nil
 }
diff --git a/errors.go b/errors.go
index d99120b..2452f3a 100644
--- a/errors.go
+++ b/errors.go
@@ -7,3 +7,41 @@ var (
 	// It's a required behaviour for a custom #func to be compatible with #join.
 	ErrInvalidIndex = errors.New("invalid index")
 )
+
+// buildError is an error occurred when building a fragment or a property, it
+// separates an ErrInvalidIndex inside of what a #func builds from the one
+// reported by the #func itself.
+type buildError struct {
+	err error
+}
+
+func (e *buildError) Error() string { return e.err.Error() }
+
+func (e *buildError) Unwrap() error { return e.err }
+
+// isIndexError reports if a #func reports ErrInvalidIndex by err. Unlike
+// errors.Is, it doesn't look into errors of what the #func builds.
+func isIndexError(err error) bool {
+	if err == nil {
+		return false
+	}
+	if err == ErrInvalidIndex {
+		return true
+	}
+	if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(ErrInvalidIndex) {
+		return true
+	}
+	switch x := err.(type) {
+	case *buildError:
+		return false
+	case interface{ Unwrap() error }:
+		return isIndexError(x.Unwrap())
+	case interface{ Unwrap() []error }:
+		for _, e := range x.Unwrap() {
+			if isIndexError(e) {
+				return true
+			}
+		}
+	}
+	return false
+}
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..6381b14 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -1,7 +1,6 @@
 package sqlf
 
 import (
-	"errors"
 	"fmt"
 	"strings"
 
@@ -70,7 +69,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		if isIndexError(err) {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
diff --git a/properties.go b/properties.go
index cde4a8a..157fafb 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,11 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	built, err := p[i-1].BuildFragment(ctx)
+	if err != nil {
+		return "", &buildError{err}
+	}
+	return built, nil
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From e5af84191bf612b1091594c138a21af03bc1328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 13/33] fix: #join reverts what it did for the item after the
 last

#join finds the end of the list by building an item that doesn't exist. If
the template refers to other things before, e.g. #join('#f1=#arg', ','), or
lists differ in length, args committed by that attempt were left in the arg
list and all following '?' were bound to wrong args. Args and fragments used
only by that attempt are now reported as unused as well.
---
 context_args.go | 28 +++++++++++++++++++++
 func_builtin.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 89 insertions(+), 4 deletions(-)

diff --git a/context_args.go b/context_args.go
index 1644f0e..7f702b8 100644
--- a/context_args.go
+++ b/context_args.go
@@ -20,6 +20,10 @@ func (c *Context) CommitArg(arg any) string {
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// Mark returns a mark of current state, for Reset.
+	Mark() int
+	// Reset drops the args committed after the mark.
+	Reset(mark int)
 }
 
 type questionArgStore struct {
@@ -39,6 +43,14 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) Mark() int {
+	return len(s.args)
+}
+
+func (s *questionArgStore) Reset(mark int) {
+	s.args = s.args[:mark:mark]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -67,6 +79,22 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) Mark() int {
+	return len(s.args)
+}
+
+func (s *dollarArgStore) Reset(mark int) {
+	if mark == len(s.args) {
+		return
+	}
+	s.args = s.args[:mark:mark]
+	for arg, i := range s.dict {
+		if i > mark {
+			delete(s.dict, arg)
+		}
+	}
+}
+
 // lookup finds the index of a committed arg. Args which can't be map keys,
 // e.g. []byte, are never found.
 func (s *dollarArgStore) lookup(arg any) (i int, found, hashable bool) {
diff --git a/func_builtin.go b/func_builtin.go
index 6381b14..4c74317 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -38,7 +38,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		return "", fmt.Errorf("parse join template '%s': %w", tmpl, err)
 	}
 	b := new(strings.Builder)
-	var calls []*syntax.FuncCallExpr
+	calls := make(map[syntax.Expr]*syntax.FuncCallExpr)
 	for i, expr := range c.ExprList {
 		fn, ok := expr.(*syntax.FuncExpr)
 		if !ok {
@@ -55,7 +55,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			Name: fn.Name,
 		}
 		c.ExprList[i] = call
-		calls = append(calls, call)
+		calls[call] = call
 	}
 	if len(calls) == 0 {
 		return "", fmt.Errorf("no function in join template '%s' (e.g.: #f, not #f1)", tmpl)
@@ -68,8 +68,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
-		s, err := buildClause(ctx, c)
-		if isIndexError(err) {
+		s, outOfRange, err := buildJoinItem(ctx, c, calls, i)
+		if outOfRange {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
@@ -93,6 +93,63 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
+// buildJoinItem builds the item i of a join template, calls are the calls in the
+// template that refer to the item. If any of the calls is out of range, the item
+// doesn't exist, then everything done for building it is reverted.
+func buildJoinItem(ctx *Context, c *syntax.Clause, calls map[syntax.Expr]*syntax.FuncCallExpr, i int) (item string, outOfRange bool, err error) {
+	b := new(strings.Builder)
+	args := ctx.root().argStore.Mark()
+	var used []*defaultProperty
+	for _, expr := range c.ExprList {
+		call, ok := calls[expr]
+		if !ok {
+			s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
+			if err != nil {
+				return "", false, err
+			}
+			b.WriteString(s)
+			continue
+		}
+		unused := unusedProperties(ctx, i)
+		s, err := evalFunction(ctx, call.Name, call.Args)
+		if isIndexError(err) {
+			ctx.root().argStore.Reset(args)
+			for _, p := range used {
+				p.setUsed(false)
+			}
+			return "", true, err
+		}
+		if err != nil {
+			return "", false, err
+		}
+		b.WriteString(s)
+		for _, p := range unused {
+			if p.Used() {
+				used = append(used, p)
+			}
+		}
+	}
+	return b.String(), false, nil
+}
+
+// unusedProperties returns the unused properties at i of current fragment.
+func unusedProperties(ctx *Context, i int) []*defaultProperty {
+	fc, ok := ctx.fragment()
+	if !ok {
+		return nil
+	}
+	var unused []*defaultProperty
+	for _, properties := range []Properties{fc.Args, fc.Fragments} {
+		if i < 1 || i > len(properties) {
+			continue
+		}
+		if p, ok := properties[i-1].(*defaultProperty); ok && !p.Used() {
+			unused = append(unused, p)
+		}
+	}
+	return unused
+}
+
 func funcArg(ctx *Context, i int) (string, error) {
 	c, err := ctx.mustFragment()
 	if err != nil {
-- 
2.43.0


From ea8daba6f8c41f06838551f351dc368c257b1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 14/33] fix: collecting table dependencies from nil fragments
 panics

A nil *Fragment builds to nothing, but QueryBuilder panicked with a nil
pointer dereference if a condition or column contained one.
---
 sqlb/query_builder_dependecy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..9def602 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -91,7 +91,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
-			extractTables2(fragment.Fragments, tables, dict)
+			if fragment != nil {
+				extractTables2(fragment.Fragments, tables, dict)
+			}
 			continue
 		}
 		if column, ok := f.(*Column); ok && column != nil {
@@ -100,7 +102,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 					collectTable(column.table, tables, dict)
 				}
 			} else {
-				extractTables2(column.fragment.Fragments, tables, dict)
+				extractTables2([]sqlf.FragmentBuilder{column.fragment}, tables, dict)
 			}
 			continue
 		}
-- 
2.43.0


From d783fc4b3ba45bc33b97f991b21cbebcf7872ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 15/33] fix: joins don't modify the ON fragment of the caller

It was prefixed with ON in place, which broke other usages of the same
fragment and raced if it's shared, and made CrossJoin, having no ON
fragment, panic.
---
 sqlb/query_builder_join.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..9b694b0 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -103,7 +103,8 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Names: t,
 		Fragment: sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
+			// wrap it, "on" belongs to the caller and may be nil (CROSS JOIN)
+			sqlf.Ff("#f1", on).WithPrefix("ON"),
 		),
 		Optional: optional,
 	}
-- 
2.43.0


From 47c0a7fb4fb9b3ff631ce810e09798fe1c88cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 16/33] fix: building a QueryBuilder doesn't modify it

Each build of a SELECT DISTINCT with ORDER BY added the order columns to the
select list once more, so building a query twice returned different queries.
An invalid order was ignored by the first build and failed the following
ones, it's reported by all of them now. Concurrent builds raced.
---
 sqlb/query_builder.go           |  4 +---
 sqlb/query_builder_build.go     | 17 ++++++++---------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 23 +++++++++++++----------
 4 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..a7b2fda 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -40,8 +39,7 @@ func NewQueryBuilder() *QueryBuilder {
 	return &QueryBuilder{
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
-		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
+		selects:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..a00f57f 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -81,7 +81,8 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	orders, touches := b.orderFragments()
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,8 +95,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
+	sel, err := b.buildSelects(ctx, touches)
 	if err != nil {
 		return "", err
 	}
@@ -145,17 +145,16 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, orderTouches *sqlf.Fragment) (string, error) {
+	prefix := "SELECT"
 	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
-	} else {
-		b.selects.Prefix = "SELECT"
+		prefix = "SELECT DISTINCT"
 	}
-	sel, err := b.selects.BuildFragment(ctx)
+	sel, err := sqlf.Ff("#f1", b.selects).WithPrefix(prefix).BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touches, err := orderTouches.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 9def602..e3a9d65 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -10,7 +10,6 @@ import (
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..6cc1f9c 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -35,19 +35,22 @@ type orderItem struct {
 
 // OrderBy set the sorting order. the order can be "ASC", "DESC", "ASC NULLS FIRST" or "DESC NULLS LAST"
 func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
+	if order > DescNullsLast {
+		b.pushError(fmt.Errorf("invalid order: %d", order))
+		return b
+	}
 	b.orders = append(b.orders, &orderItem{column: column, order: order})
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
-	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+// orderFragments returns the fragment of the ORDER BY clause, and the fragment of
+// the columns it requires in the select list.
+func (b *QueryBuilder) orderFragments() (order, touches *sqlf.Fragment) {
+	order = sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+	touches = sqlf.F("#join('#fragment', ', ')")
 	for i, item := range b.orders {
-		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
-		}
 		if !b.distinct {
-			f.AppendFragments(sqlf.Ff(
+			order.AppendFragments(sqlf.Ff(
 				"#f1 "+orders[item.order],
 				item.column,
 			))
@@ -56,10 +59,10 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
-		f.AppendFragments(sqlf.F(
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		order.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return order, touches
 }
-- 
2.43.0


From 0565cb660be8ef903abdcf1d85798764a76c55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 17/33] fix: QueryBuilder binds args of the select list in
 order

The select list was built at last but is placed before FROM, so if it has
args, all the ? of the query were bound to wrong args.
---
 sqlb/query_builder_build.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index a00f57f..9981110 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,14 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	// Build clauses in the order they appear in the query, it's required
+	// by unindexed bind vars.
+	orders, touches := b.orderFragments()
+	sel, err := b.buildSelects(ctx, touches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,7 +86,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	orders, touches := b.orderFragments()
 	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
@@ -95,11 +99,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	sel, err := b.buildSelects(ctx, touches)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
-- 
2.43.0


From 8b695ccd5993f89152c2a31b9a0d725a46b15eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 18/33] fix: building a QueryBuilder without From is an error

It panicked with an index out of range, or built a query with an empty FROM
if there are joins.
---
 sqlb/query_builder_dependecy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index e3a9d65..4bdf5cb 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -8,6 +8,9 @@ import (
 
 // collectDependencies collects the dependencies of the tables.
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+	if len(b.tables) == 0 || b.tables[0].Fragment == nil {
+		return nil, fmt.Errorf("no from table")
+	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.conditions,
-- 
2.43.0


From 55fe4f3451abaf33da0ee0184eb0934460a3a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 19/33] fix: keep optional joins required by joins that are not
 trimmed

A SELECT DISTINCT trimmed an optional join even if the ON clause of a
remaining join refers to it, which made the query invalid.
---
 sqlb/query_builder_dependecy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 4bdf5cb..9e9e0cf 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -30,6 +30,18 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 			return nil, err
 		}
 	}
+	if b.distinct {
+		// optional joins required by joins which are never trimmed
+		for _, t := range b.tables {
+			if t.Optional {
+				continue
+			}
+			err := b.collectDepsFromTable(deps, t.Names.AppliedName())
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
 	// mark for CTEs
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
-- 
2.43.0


From 4322b4f8ab14ae97e4ffc846b8483f0589d5aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 20/33] fix: include dependencies of CTEs that are selected
 without alias

A table without alias was taken for the mark of the CTE having been visited,
so that the CTEs it depends on were left out of the query.
---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 32 ++++++++++++++++++++------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 9981110..1481aa6 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -117,13 +117,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep.ctes[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
@@ -166,10 +166,10 @@ func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, orderTouches *sqlf.Fragme
 	return sel + ", " + touches, nil
 }
 
-func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	tables := make([]string, 0, len(b.tables))
 	for _, t := range b.tables {
-		if b.distinct && t.Optional && !dep[t.Names] {
+		if b.distinct && t.Optional && !dep.tables[t.Names] {
 			continue
 		}
 		c, err := t.Fragment.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 9e9e0cf..2ca9589 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -6,8 +6,14 @@ import (
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
+// dependencies is the tables and CTEs required by a query.
+type dependencies struct {
+	tables map[TableAliased]bool
+	ctes   map[Table]bool
+}
+
 // collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+func (b *QueryBuilder) collectDependencies() (*dependencies, error) {
 	if len(b.tables) == 0 || b.tables[0].Fragment == nil {
 		return nil, fmt.Errorf("no from table")
 	}
@@ -21,9 +27,12 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	}
 
 	tables := extractTables(builders...)
-	deps := make(map[TableAliased]bool)
+	deps := &dependencies{
+		tables: make(map[TableAliased]bool),
+		ctes:   make(map[Table]bool),
+	}
 	// first table is the main table and always included
-	deps[b.tables[0].Names] = true
+	deps.tables[b.tables[0].Names] = true
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
@@ -44,7 +53,7 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	}
 	// mark for CTEs
 	for _, t := range b.tables {
-		if b.distinct && t.Optional && !deps[t.Names] {
+		if b.distinct && t.Optional && !deps.tables[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
@@ -54,12 +63,11 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	return deps, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
+func (b *QueryBuilder) collectDepsFromCTE(deps *dependencies, cte *cte) error {
+	if deps.ctes[cte.name] {
 		return nil
 	}
-	deps[key] = true
+	deps.ctes[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
 			err := b.collectDepsFromCTE(deps, cte)
@@ -71,20 +79,20 @@ func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte)
 	return nil
 }
 
-func (b *QueryBuilder) collectDepsFromTable(dep map[TableAliased]bool, t Table) error {
+func (b *QueryBuilder) collectDepsFromTable(deps *dependencies, t Table) error {
 	from, ok := b.tablesDict[t]
 	if !ok {
 		return fmt.Errorf("from undefined: '%s'", t)
 	}
-	if dep[from.Names] {
+	if deps.tables[from.Names] {
 		return nil
 	}
-	dep[from.Names] = true
+	deps.tables[from.Names] = true
 	for _, ft := range extractTables(from.Fragment) {
 		if ft == t {
 			continue
 		}
-		err := b.collectDepsFromTable(dep, ft)
+		err := b.collectDepsFromTable(deps, ft)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e8dda63aad21665e9a5c35ae18d2b55e026dd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 21/33] fix: don't build an empty UNION

If all the unions are built empty, the query ended with UNION ().
---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 1481aa6..ec25759 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -193,5 +193,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From 6810beb9dfee93550b5d083501e904af0f2397f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 22/33] fix: a table replaced by another From can't be
 referenced any more

Columns of the replaced table were still taken for columns of the query,
instead of reporting the undefined table.
---
 sqlb/query_builder_join.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 9b694b0..2a47fde 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -24,6 +24,11 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		// the replaced table can't be referenced any more
+		replaced := b.tables[0]
+		if name := replaced.Names.AppliedName(); b.tablesDict[name] == replaced {
+			delete(b.tablesDict, name)
+		}
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
-- 
2.43.0


From f42bc409bb2df93cc259deafa61fe21e2a71207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 23/33] fix: a fragment that fails to build leaves no args in
 the context

A builder that falls back to something else after the failure got a query
whose ? were bound to the args of the failed fragment.
---
 build.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 036ca3a..8f6ffaa 100644
--- a/build.go
+++ b/build.go
@@ -22,6 +22,8 @@ func (f *Fragment) BuildQuery(bindVarStyle syntax.BindVarStyle) (query string, a
 }
 
 // BuildFragment builds the fragment with context.
+//
+// If it fails, the args committed on the way are dropped from the context.
 func (f *Fragment) BuildFragment(ctx *Context) (string, error) {
 	if f == nil {
 		return "", nil
@@ -29,7 +31,18 @@ func (f *Fragment) BuildFragment(ctx *Context) (string, error) {
 	if ctx == nil {
 		return "", fmt.Errorf("nil context")
 	}
-	ctx = contextWithFragment(ctx, f)
+	argStore := ctx.root().argStore
+	args := argStore.Mark()
+	query, err := f.buildFragment(contextWithFragment(ctx, f))
+	if err != nil {
+		argStore.Reset(args)
+		return "", err
+	}
+	return query, nil
+}
+
+// buildFragment builds the fragment within its own context.
+func (f *Fragment) buildFragment(ctx *Context) (string, error) {
 	body, err := build(ctx, f)
 	if err != nil {
 		return "", err
-- 
2.43.0


From a737e6a609a8e8293765d2793f1a5c783a2c6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 24/33] fix: #join doesn't take a panic inside of an item for
 the end of the list

---
 func_exec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index 29d9d4e..aa0bb18 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -75,7 +75,8 @@ func safeCall(fun reflect.Value, args []reflect.Value) (val string, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			if e, ok := r.(error); ok {
-				err = e
+				// a panic is never the end of the list for #join
+				err = &buildError{e}
 			} else {
 				err = fmt.Errorf("%v", r)
 			}
-- 
2.43.0


From cfa24fa47bbd8449a90da9214c649465de53be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:38 +0000
Subject: [PATCH 25/33] fix: reject function names that templates can't call

---
 func.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/func.go b/func.go
index 62b6f38..7fac8f8 100644
--- a/func.go
+++ b/func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"unicode"
 
 	"github.com/qjebbs/go-sqlf/v2/syntax"
 )
@@ -133,13 +132,14 @@ func addValueFuncs(out map[string]*funcInfo, in FuncMap) error {
 	return nil
 }
 
-// goodName reports whether the function name is a valid identifier.
+// goodName reports whether the function name is a valid identifier, only
+// ASCII letters and underscore can be called from templates.
 func goodName(name string) bool {
 	if name == "" {
 		return false
 	}
 	for _, r := range name {
-		if r != '_' && !unicode.IsLetter(r) {
+		if r != '_' && (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') {
 			return false
 		}
 	}
-- 
2.43.0


From 9bab1b6fa5613f8f5c290fd90c0aef117cbab0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:11 +0000
Subject: [PATCH 26/33] fix: pass strings and bools to function params of named
 types

---
 func_exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index aa0bb18..747d3a6 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -123,12 +123,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From cba0bddcefb53b0756bcf986198a882663f025bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 27/33] fix: rendering an argument whose methods panic is an
 error

---
 util/interpolate.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 85eb63a..474327c 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -69,7 +69,18 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 	return b.String(), nil
 }
 
-func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
+func encodeValue(arg any, opts *interpolateOptions) (encoded []byte, err error) {
+	defer func() {
+		// a method of the arg panicked, e.g. a String() that doesn't know the value
+		if r := recover(); r != nil {
+			encoded = nil
+			if e, ok := r.(error); ok {
+				err = fmt.Errorf("encode %T: %w", arg, e)
+			} else {
+				err = fmt.Errorf("encode %T: %v", arg, r)
+			}
+		}
+	}()
 	buf := bytes.NewBuffer(nil)
 	if isNilPointer(arg) {
 		// don't call methods on nil pointers, database/sql sends them as NULL
-- 
2.43.0


From 09eafe6fbf61c271b4c46a772b71ec98dee07109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 28/33] fix: rendering a driver.Valuer that never returns a
 value is an error

---
 util/interpolate.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 474327c..f8598b7 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -90,7 +90,7 @@ func encodeValue(arg any, opts *interpolateOptions) (encoded []byte, err error)
 	case nil:
 		buf.WriteString("NULL")
 	case driver.Valuer:
-		val, err := v.Value()
+		val, err := resolveValuer(v)
 		if err != nil {
 			return nil, err
 		}
@@ -135,6 +135,27 @@ func encodeValue(arg any, opts *interpolateOptions) (encoded []byte, err error)
 	return buf.Bytes(), nil
 }
 
+// maxValuers is the maximum number of driver.Valuers to follow, when a
+// driver.Valuer returns another one.
+const maxValuers = 16
+
+// resolveValuer returns the value of v. A driver.Valuer that returns itself, or
+// others without end, is an error.
+func resolveValuer(v driver.Valuer) (driver.Value, error) {
+	for i := 0; i < maxValuers; i++ {
+		val, err := v.Value()
+		if err != nil {
+			return nil, err
+		}
+		next, ok := val.(driver.Valuer)
+		if !ok || isNilPointer(val) {
+			return val, nil
+		}
+		v = next
+	}
+	return nil, fmt.Errorf("non-Value type %T returned from Value", v)
+}
+
 // isNilPointer reports if the arg is a nil pointer, which is NULL to database/sql
 // unless it's a driver.Valuer implemented by the pointer type itself.
 func isNilPointer(arg any) bool {
-- 
2.43.0


From 380909b70243028a4b5170a285d5b0a4358a1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:36 +0000
Subject: [PATCH 29/33] fix: appending to the args of a context never changes
 the context

---
 context_args.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/context_args.go b/context_args.go
index 7f702b8..070b543 100644
--- a/context_args.go
+++ b/context_args.go
@@ -5,8 +5,12 @@ import (
 )
 
 // Args returns the built args of the context.
+//
+// Appending to the returned slice never writes to the context, nor does
+// building with the context write to what was appended.
 func (c *Context) Args() []any {
-	return c.root().argStore.Args()
+	args := c.root().argStore.Args()
+	return args[:len(args):len(args)]
 }
 
 // CommitArg commits an built arg to the context and returns the built bindvar.
-- 
2.43.0


From 2b5a6750ec4c4960c489658c6d292e59a604a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:41 +0000
Subject: [PATCH 30/33] fix: a query builder that fails to build leaves no args
 in the context

---
 sqlb/query_builder_build.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index ec25759..d1a15fa 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -25,8 +25,21 @@ func (b *QueryBuilder) BuildQuery(bindVarStyle syntax.BindVarStyle) (query strin
 }
 
 // BuildFragment implements FragmentBuilder
+//
+// If it fails, the args committed on the way are dropped from the context.
 func (b *QueryBuilder) BuildFragment(ctx *sqlf.Context) (query string, err error) {
-	return b.buildInternal(ctx)
+	// build it as part of a fragment, which takes care of the args
+	return sqlf.Ff("#f1", internalBuilder{b}).BuildFragment(ctx)
+}
+
+// internalBuilder builds the query builder with the context given.
+type internalBuilder struct {
+	b *QueryBuilder
+}
+
+// BuildFragment implements FragmentBuilder
+func (b internalBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
+	return b.b.buildInternal(ctx)
 }
 
 // Debug enables debug mode.
-- 
2.43.0


From 1c049d16bb4739a65b7d0081a97ae464de3e9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 31/33] fix: -0.0 doesn't share the placeholder of 0.0

---
 context_args.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/context_args.go b/context_args.go
index 070b543..2c005d1 100644
--- a/context_args.go
+++ b/context_args.go
@@ -1,6 +1,8 @@
 package sqlf
 
 import (
+	"math"
+	"reflect"
 	"strconv"
 )
 
@@ -102,6 +104,10 @@ func (s *dollarArgStore) Reset(mark int) {
 // lookup finds the index of a committed arg. Args which can't be map keys,
 // e.g. []byte, are never found.
 func (s *dollarArgStore) lookup(arg any) (i int, found, hashable bool) {
+	if isNegativeZero(arg) {
+		// it equals to 0.0, but is another value
+		return 0, false, false
+	}
 	defer func() {
 		// accessing the map panics if the arg is not hashable.
 		if recover() != nil {
@@ -111,3 +117,12 @@ func (s *dollarArgStore) lookup(arg any) (i int, found, hashable bool) {
 	i, found = s.dict[arg]
 	return i, found, true
 }
+
+func isNegativeZero(arg any) bool {
+	v := reflect.ValueOf(arg)
+	switch v.Kind() {
+	case reflect.Float32, reflect.Float64:
+		return v.Float() == 0 && math.Signbit(v.Float())
+	}
+	return false
+}
-- 
2.43.0


From eae24dcb5cf4527f8cb4d8ef52c900287bebbbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:27 +0000
Subject: [PATCH 32/33] fix: a CTE keeps its own list of dependencies

---
 sqlb/query_builder_with.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlb/query_builder_with.go b/sqlb/query_builder_with.go
index 5f6a4a8..675d437 100644
--- a/sqlb/query_builder_with.go
+++ b/sqlb/query_builder_with.go
@@ -27,7 +27,7 @@ import "github.com/qjebbs/go-sqlf/v2"
 func (b *QueryBuilder) With(name Table, builder sqlf.FragmentBuilder, deps ...Table) *QueryBuilder {
 	cte := &cte{
 		name:            name,
-		deps:            deps,
+		deps:            append([]Table(nil), deps...), // the slice belongs to the caller
 		FragmentBuilder: builder,
 	}
 	b.ctes = append(b.ctes, cte)
-- 
2.43.0


From d8ede721de36046a02192a947b128c4199c092c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:57 +0000
Subject: [PATCH 33/33] fix: a join doesn't take the place of the main table

---
 sqlb/query_builder_join.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 2a47fde..d3c864e 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -114,6 +114,11 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			// only From can replace it, the query has no main table otherwise
+			b.pushError(fmt.Errorf("table '%s' is the main table, it can't be joined without another alias", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0

